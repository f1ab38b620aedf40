//! A small reference database: the subset of MySQL's statements a client library can be
//! expected to send here, executed over in-memory tables (default sql_mode, strict).
use crate::{
    mock::*,
    server::*,
    sql::{self, Tok},
    wire::*,
};
use mysql_connector::types::Value;
use std::{
    cmp::Ordering,
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex},
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Int(u8, bool),
    Float,
    Double,
    Text(u32),
    Blob(u32),
    Date,
    Datetime,
    Time,
}

#[derive(Clone, Debug)]
pub struct ColDef {
    pub name: String,
    pub ty: Ty,
    pub null: bool,
    pub default: Option<Value>,
    pub auto: bool,
    pub now: bool,
}
impl ColDef {
    pub fn new(name: &str, ty: Ty) -> ColDef {
        ColDef { name: name.into(), ty, null: false, default: None, auto: false, now: false }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Tab {
    pub cols: Vec<ColDef>,
    pub uniques: Vec<Vec<usize>>,
    /// column, referenced table, referenced column
    pub fks: Vec<(usize, String, String)>,
    pub rows: Vec<Vec<Value>>,
    pub next_auto: u64,
    pub auto_step: u64,
    pub partitions: usize,
}
impl Tab {
    pub fn new(cols: Vec<ColDef>) -> Tab {
        Tab { cols, next_auto: 1, auto_step: 1, partitions: 1, ..Tab::default() }
    }
    pub fn col(&self, name: &str) -> Option<usize> {
        self.cols.iter().position(|c| c.name.eq_ignore_ascii_case(name))
    }
}

#[derive(Clone, Debug)]
pub enum Ex {
    Val(Value),
    Col(Vec<String>),
    Param(usize),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Not(Box<Ex>),
    Neg(Box<Ex>),
    IsNull(Box<Ex>, bool),
    In(Box<Ex>, Vec<Ex>),
    Func(String, Vec<Ex>),
    Star(Vec<String>),
    Var(String),
}

#[derive(Clone, Debug)]
pub struct Src_ {
    pub path: Vec<String>,
    pub alias: String,
    pub left: bool,
    pub on: Option<Ex>,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Create { path: Vec<String>, if_not: bool, tab: Tab },
    Drop { path: Vec<String>, if_exists: bool },
    Insert { path: Vec<String>, cols: Option<Vec<String>>, rows: Vec<Vec<Ex>> },
    Update { path: Vec<String>, set: Vec<(Vec<String>, Ex)>, cond: Option<Ex> },
    Delete { path: Vec<String>, cond: Option<Ex> },
    Select { items: Vec<(Ex, Option<String>)>, from: Vec<Src_>, cond: Option<Ex>, order: Vec<(Ex, bool)>, limit: Option<u64> },
}

pub struct Parsed {
    pub stmt: Stmt,
    pub params: usize,
}

// ---------------------------------------------------------------- parser

struct P {
    t: Vec<Tok>,
    i: usize,
    params: usize,
}
type R<T> = Result<T, String>;

const RESERVED: &[&str] = &[
    "where", "join", "on", "inner", "left", "right", "cross", "order", "group", "limit", "set", "values", "and", "or", "not", "as", "from", "select", "union", "is", "in", "null", "like", "for", "using", "having",
];

impl P {
    fn kw(&mut self, k: &str) -> bool {
        if matches!(self.t.get(self.i), Some(Tok::Word(w)) if w.eq_ignore_ascii_case(k)) {
            self.i += 1;
            return true;
        }
        false
    }
    fn peek_kw(&self, k: &str) -> bool {
        matches!(self.t.get(self.i), Some(Tok::Word(w)) if w.eq_ignore_ascii_case(k))
    }
    fn want(&mut self, k: &str) -> R<()> {
        if self.kw(k) {
            Ok(())
        } else {
            Err(format!("expected {k} near {:?}", self.t.get(self.i)))
        }
    }
    fn p(&mut self, x: &str) -> bool {
        if matches!(self.t.get(self.i), Some(Tok::Punct(p)) if *p == x) {
            self.i += 1;
            return true;
        }
        false
    }
    fn wantp(&mut self, x: &str) -> R<()> {
        if self.p(x) {
            Ok(())
        } else {
            Err(format!("expected {x} near {:?}", self.t.get(self.i)))
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tok::Quoted(q)) if !q.is_empty() => {
                self.i += 1;
                Ok(q.clone())
            }
            Some(Tok::Word(w)) if !RESERVED.iter().any(|r| w.eq_ignore_ascii_case(r)) => {
                self.i += 1;
                Ok(w.clone())
            }
            x => Err(format!("expected an identifier near {x:?}")),
        }
    }
    fn path(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.ident()?];
        while self.p(".") {
            v.push(self.ident()?);
        }
        Ok(v)
    }
    fn or(&mut self) -> R<Ex> {
        let mut a = self.and()?;
        while self.kw("or") || self.p("||") {
            a = Ex::Bin("or", a.into(), self.and()?.into());
        }
        Ok(a)
    }
    fn and(&mut self) -> R<Ex> {
        let mut a = self.not()?;
        while self.kw("and") || self.p("&&") {
            a = Ex::Bin("and", a.into(), self.not()?.into());
        }
        Ok(a)
    }
    fn not(&mut self) -> R<Ex> {
        if self.kw("not") {
            return Ok(Ex::Not(self.not()?.into()));
        }
        self.cmp()
    }
    fn cmp(&mut self) -> R<Ex> {
        let mut a = self.atom()?;
        loop {
            if self.kw("is") {
                let n = self.kw("not");
                self.want("null")?;
                a = Ex::IsNull(a.into(), !n);
                continue;
            }
            if self.kw("in") {
                self.wantp("(")?;
                let mut v = vec![];
                loop {
                    v.push(self.or()?);
                    if !self.p(",") {
                        break;
                    }
                }
                self.wantp(")")?;
                a = Ex::In(a.into(), v);
                continue;
            }
            let Some(op) = ["<=>", "<=", ">=", "<>", "!=", "=", "<", ">"].into_iter().find(|o| self.p(o)) else { return Ok(a) };
            a = Ex::Bin(if op == "!=" { "<>" } else { op }, a.into(), self.atom()?.into());
        }
    }
    fn atom(&mut self) -> R<Ex> {
        if self.p("(") {
            let e = self.or()?;
            self.wantp(")")?;
            return Ok(e);
        }
        if self.p("-") {
            return Ok(Ex::Neg(self.atom()?.into()));
        }
        if self.p("*") {
            return Ok(Ex::Star(vec![]));
        }
        if self.p("@@") {
            let mut s = self.ident()?;
            while self.p(".") {
                s = self.ident()?;
            }
            return Ok(Ex::Var(s.to_ascii_lowercase()));
        }
        match self.t.get(self.i).cloned() {
            Some(Tok::Str(mut s)) => {
                self.i += 1;
                while let Some(Tok::Str(t)) = self.t.get(self.i) {
                    s.push_str(t);
                    self.i += 1;
                }
                Ok(Ex::Val(Value::Bytes(s.into_bytes())))
            }
            Some(Tok::Hex(h)) => {
                self.i += 1;
                Ok(Ex::Val(Value::Bytes(h)))
            }
            Some(Tok::Num(n)) => {
                self.i += 1;
                let n = sql::number(&n)?;
                Ok(Ex::Val(if let Ok(x) = n.parse::<i64>() {
                    Value::Long(x)
                } else if let Ok(x) = n.parse::<u64>() {
                    Value::ULong(x)
                } else {
                    Value::Double(n.parse().map_err(|_| "bad number")?)
                }))
            }
            Some(Tok::Param) => {
                self.i += 1;
                self.params += 1;
                Ok(Ex::Param(self.params - 1))
            }
            Some(Tok::Word(w)) => {
                let l = w.to_ascii_lowercase();
                if l == "null" || l == "true" || l == "false" || l == "default" {
                    self.i += 1;
                    return Ok(match &l[..] {
                        "null" => Ex::Val(Value::Null),
                        "true" => Ex::Val(Value::Long(1)),
                        "false" => Ex::Val(Value::Long(0)),
                        _ => Ex::Var("default".into()),
                    });
                }
                if self.t.get(self.i + 1) == Some(&Tok::Punct("(")) {
                    self.i += 2;
                    let mut v = vec![];
                    while !self.p(")") {
                        v.push(self.or()?);
                        if !self.p(",") {
                            self.wantp(")")?;
                            break;
                        }
                    }
                    return Ok(Ex::Func(l, v));
                }
                if l == "current_timestamp" {
                    self.i += 1;
                    return Ok(Ex::Func("now".into(), vec![]));
                }
                self.colref()
            }
            Some(Tok::Quoted(_)) => self.colref(),
            x => Err(format!("unexpected {x:?}")),
        }
    }
    fn colref(&mut self) -> R<Ex> {
        let mut v = vec![self.ident()?];
        while self.p(".") {
            if self.p("*") {
                return Ok(Ex::Star(v));
            }
            v.push(self.ident()?);
        }
        Ok(Ex::Col(v))
    }
    fn names(&mut self) -> R<Vec<String>> {
        self.wantp("(")?;
        let mut v = vec![];
        loop {
            v.push(self.ident()?);
            if !self.p(",") {
                break;
            }
        }
        self.wantp(")")?;
        Ok(v)
    }
    fn size(&mut self) -> R<Option<u32>> {
        if !self.p("(") {
            return Ok(None);
        }
        let n = match self.t.get(self.i) {
            Some(Tok::Num(n)) => n.parse().map_err(|_| "bad size")?,
            x => return Err(format!("expected a size near {x:?}")),
        };
        self.i += 1;
        self.wantp(")")?;
        Ok(Some(n))
    }
    fn create(&mut self) -> R<Stmt> {
        self.want("table")?;
        let if_not = self.kw("if") && self.kw("not") && self.kw("exists");
        let path = self.path()?;
        self.wantp("(")?;
        let mut tab = Tab::new(vec![]);
        let find = |t: &Tab, names: &[String]| names.iter().map(|n| t.col(n).ok_or(format!("key column {n} does not exist"))).collect::<R<Vec<usize>>>();
        loop {
            if self.kw("unique") || self.peek_kw("primary") {
                let pk = self.kw("primary");
                let _ = self.kw("key") || self.kw("index");
                if !pk && matches!(self.t.get(self.i), Some(Tok::Quoted(_) | Tok::Word(_))) {
                    self.ident()?;
                }
                let n = self.names()?;
                let n = find(&tab, &n)?;
                if pk {
                    n.iter().for_each(|i| tab.cols[*i].null = false);
                }
                tab.uniques.push(n);
            } else if self.kw("key") || self.kw("index") {
                if matches!(self.t.get(self.i), Some(Tok::Quoted(_) | Tok::Word(_))) {
                    self.ident()?;
                }
                self.names()?;
            } else {
                let name = self.ident()?;
                if tab.col(&name).is_some() {
                    return Err(format!("duplicate column {name}"));
                }
                let ty = self.ident()?.to_ascii_lowercase();
                let size = self.size()?;
                let unsigned = self.kw("unsigned");
                let ty = match &ty[..] {
                    "tinyint" => Ty::Int(8, unsigned),
                    "smallint" => Ty::Int(16, unsigned),
                    "mediumint" => Ty::Int(24, unsigned),
                    "int" | "integer" => Ty::Int(32, unsigned),
                    "bigint" => Ty::Int(64, unsigned),
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "varchar" | "char" => Ty::Text(size.unwrap_or(1)),
                    "text" | "longtext" => Ty::Text(u32::MAX),
                    "varbinary" | "binary" => Ty::Blob(size.unwrap_or(1)),
                    "blob" | "longblob" => Ty::Blob(u32::MAX),
                    "date" => Ty::Date,
                    "datetime" | "timestamp" => Ty::Datetime,
                    "time" => Ty::Time,
                    x => return Err(format!("unknown type {x}")),
                };
                let mut c = ColDef { null: true, ..ColDef::new(&name, ty) };
                let mut unique = false;
                loop {
                    if self.kw("not") {
                        self.want("null")?;
                        c.null = false;
                    } else if self.kw("null") {
                        c.null = true;
                    } else if self.kw("default") {
                        match self.atom()? {
                            Ex::Func(f, _) if f == "now" || f == "current_timestamp" => c.now = true,
                            Ex::Val(v) => c.default = Some(v),
                            x => return Err(format!("unsupported default {x:?}")),
                        }
                    } else if self.kw("auto_increment") {
                        c.auto = true;
                    } else if self.kw("unique") {
                        let _ = self.kw("key");
                        unique = true;
                    } else if self.kw("primary") {
                        self.want("key")?;
                        unique = true;
                        c.null = false;
                    } else if self.kw("character") {
                        self.want("set")?;
                        self.ident()?;
                    } else if self.kw("charset") || self.kw("collate") {
                        self.ident()?;
                    } else {
                        break;
                    }
                }
                tab.cols.push(c);
                if unique {
                    tab.uniques.push(vec![tab.cols.len() - 1]);
                }
            }
            if !self.p(",") {
                break;
            }
        }
        self.wantp(")")?;
        // table options
        while let Some(Tok::Word(_)) = self.t.get(self.i) {
            self.ident()?;
            self.p("=");
            match self.t.get(self.i) {
                Some(Tok::Word(_) | Tok::Quoted(_) | Tok::Str(_) | Tok::Num(_)) => self.i += 1,
                _ => {}
            }
        }
        Ok(Stmt::Create { path, if_not, tab })
    }
    fn source(&mut self, left: bool) -> R<Src_> {
        let path = self.path()?;
        let alias = if self.kw("as") || matches!(self.t.get(self.i), Some(Tok::Quoted(_))) || matches!(self.t.get(self.i), Some(Tok::Word(w)) if !RESERVED.iter().any(|r| w.eq_ignore_ascii_case(r))) {
            self.ident()?
        } else {
            path.last().unwrap().clone()
        };
        let on = if self.kw("on") { Some(self.or()?) } else { None };
        Ok(Src_ { path, alias, left, on })
    }
    fn select(&mut self) -> R<Stmt> {
        let mut items = vec![];
        loop {
            let e = self.or()?;
            let alias = if self.kw("as") || matches!(self.t.get(self.i), Some(Tok::Quoted(_))) { Some(self.ident()?) } else { None };
            items.push((e, alias));
            if !self.p(",") {
                break;
            }
        }
        let mut from = vec![];
        if self.kw("from") {
            from.push(self.source(false)?);
            loop {
                if self.p(",") {
                    from.push(self.source(false)?);
                    continue;
                }
                let left = self.kw("left");
                if left {
                    let _ = self.kw("outer");
                } else if self.kw("inner") || self.kw("cross") {
                } else if !self.peek_kw("join") {
                    break;
                }
                self.want("join")?;
                from.push(self.source(left)?);
            }
        }
        let cond = if self.kw("where") { Some(self.or()?) } else { None };
        let mut order = vec![];
        if self.kw("order") {
            self.want("by")?;
            loop {
                let e = self.or()?;
                let desc = if self.kw("desc") {
                    true
                } else {
                    let _ = self.kw("asc");
                    false
                };
                order.push((e, desc));
                if !self.p(",") {
                    break;
                }
            }
        }
        let limit = if self.kw("limit") {
            match self.t.get(self.i) {
                Some(Tok::Num(n)) => {
                    self.i += 1;
                    Some(n.parse().map_err(|_| "bad limit")?)
                }
                x => return Err(format!("expected a number near {x:?}")),
            }
        } else {
            None
        };
        Ok(Stmt::Select { items, from, cond, order, limit })
    }
    fn stmt(&mut self) -> R<Stmt> {
        let s = if self.kw("create") {
            self.create()?
        } else if self.kw("drop") {
            self.want("table")?;
            let if_exists = self.kw("if") && self.kw("exists");
            Stmt::Drop { path: self.path()?, if_exists }
        } else if self.kw("insert") {
            let _ = self.kw("into");
            let path = self.path()?;
            let cols = if self.p("(") {
                if self.p(")") {
                    Some(vec![])
                } else {
                    self.i -= 1;
                    Some(self.names()?)
                }
            } else {
                None
            };
            if !self.kw("values") {
                self.want("value")?;
            }
            let mut rows = vec![];
            loop {
                self.wantp("(")?;
                let mut row = vec![];
                while !self.p(")") {
                    row.push(self.or()?);
                    if !self.p(",") {
                        self.wantp(")")?;
                        break;
                    }
                }
                rows.push(row);
                if !self.p(",") {
                    break;
                }
            }
            Stmt::Insert { path, cols, rows }
        } else if self.kw("update") {
            let path = self.path()?;
            self.want("set")?;
            let mut set = vec![];
            loop {
                let c = self.path()?;
                self.wantp("=")?;
                set.push((c, self.or()?));
                if !self.p(",") {
                    break;
                }
            }
            let cond = if self.kw("where") { Some(self.or()?) } else { None };
            Stmt::Update { path, set, cond }
        } else if self.kw("delete") {
            self.want("from")?;
            let path = self.path()?;
            let cond = if self.kw("where") { Some(self.or()?) } else { None };
            Stmt::Delete { path, cond }
        } else {
            self.want("select")?;
            self.select()?
        };
        self.p(";");
        if self.i < self.t.len() {
            return Err(format!("unexpected {:?}", self.t[self.i]));
        }
        Ok(s)
    }
}

pub fn parse(text: &[u8]) -> R<Parsed> {
    let s = std::str::from_utf8(text).map_err(|_| "invalid utf-8")?;
    let mut p = P { t: sql::lex(s)?, i: 0, params: 0 };
    let stmt = p.stmt()?;
    Ok(Parsed { stmt, params: p.params })
}

// ---------------------------------------------------------------- values

fn num(v: &Value) -> Option<i128> {
    Some(match v {
        Value::Tiny(x) => *x as i128,
        Value::UTiny(x) => *x as i128,
        Value::Short(x) => *x as i128,
        Value::UShort(x) => *x as i128,
        Value::Int(x) => *x as i128,
        Value::UInt(x) => *x as i128,
        Value::Long(x) => *x as i128,
        Value::ULong(x) => *x as i128,
        _ => return None,
    })
}
fn float(v: &Value) -> Option<f64> {
    match v {
        Value::Float(x) => Some(*x as f64),
        Value::Double(x) => Some(*x),
        _ => num(v).map(|x| x as f64),
    }
}

/// reads "-12:34:56.789"
fn parse_time(s: &str) -> Option<Value> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, s),
    };
    let mut p = s.split(':');
    let h: u32 = p.next()?.parse().ok()?;
    let m: u8 = p.next()?.parse().ok()?;
    let (sec, us) = sec(p.next()?)?;
    Some(Value::Time(neg, h / 24, (h % 24) as u8, m, sec, us))
}
fn sec(s: &str) -> Option<(u8, u32)> {
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    if b.len() > 6 {
        return None;
    }
    Some((a.parse().ok()?, format!("{b:0<6}").parse().ok()?))
}
fn parse_datetime(s: &str) -> Option<Value> {
    let (d, t) = s.split_once([' ', 'T']).unwrap_or((s, "0:0:0"));
    let mut p = d.split('-');
    let (y, m, d) = (p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next()?.parse().ok()?);
    let mut p = t.split(':');
    let (h, mi) = (p.next()?.parse().ok()?, p.next()?.parse().ok()?);
    let (s, us) = sec(p.next()?)?;
    Some(Value::Datetime(y, m, d, h, mi, s, us))
}

/// the value stored in a column of that type; Err: the code and text of MySQL's error
pub fn store(c: &ColDef, v: Value) -> Result<Value, (u16, String)> {
    if v == Value::Null {
        return if c.null { Ok(v) } else { Err((1048, format!("Column '{}' cannot be null", c.name))) };
    }
    let wrong = || (1366u16, format!("Incorrect value for column '{}'", c.name));
    let range = || (1264u16, format!("Out of range value for column '{}'", c.name));
    let text = |v: &Value| match v {
        Value::Bytes(b) => String::from_utf8(b.clone()).ok(),
        _ => None,
    };
    match c.ty {
        Ty::Int(bits, uns) => {
            let x = match (&v, num(&v), float(&v)) {
                (_, Some(x), _) => x,
                (_, _, Some(f)) => f.round() as i128,
                (Value::Bytes(_), ..) => text(&v).and_then(|s| s.parse().ok()).ok_or_else(wrong)?,
                _ => return Err(wrong()),
            };
            let (lo, hi) = if uns { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
            if x < lo || x > hi {
                return Err(range());
            }
            Ok(match (bits, uns) {
                (8, false) => Value::Tiny(x as i8),
                (8, true) => Value::UTiny(x as u8),
                (16, false) => Value::Short(x as i16),
                (16, true) => Value::UShort(x as u16),
                (24 | 32, false) => Value::Int(x as i32),
                (24 | 32, true) => Value::UInt(x as u32),
                (_, false) => Value::Long(x as i64),
                (_, true) => Value::ULong(x as u64),
            })
        }
        Ty::Float => match (&v, float(&v)) {
            (Value::Float(_), _) => Ok(v),
            (_, Some(f)) if f.abs() <= f32::MAX as f64 => Ok(Value::Float(f as f32)),
            (_, Some(_)) => Err(range()),
            _ => text(&v).and_then(|s| s.parse().ok()).map(Value::Float).ok_or_else(wrong),
        },
        Ty::Double => match float(&v) {
            Some(f) => Ok(Value::Double(f)),
            _ => text(&v).and_then(|s| s.parse().ok()).map(Value::Double).ok_or_else(wrong),
        },
        Ty::Text(max) => {
            let b = match &v {
                Value::Bytes(_) => text(&v).ok_or_else(wrong)?,
                v => String::from_utf8(text_of(v, Style::default()).unwrap()).unwrap(),
            };
            if b.chars().count() as u64 > max as u64 {
                return Err((1406, format!("Data too long for column '{}'", c.name)));
            }
            Ok(Value::Bytes(b.into_bytes()))
        }
        Ty::Blob(max) => {
            let b = match v {
                Value::Bytes(b) => b,
                v => text_of(&v, Style::default()).unwrap(),
            };
            if b.len() as u64 > max as u64 {
                return Err((1406, format!("Data too long for column '{}'", c.name)));
            }
            Ok(Value::Bytes(b))
        }
        Ty::Date => match v {
            Value::Date(..) => Ok(v),
            Value::Datetime(y, m, d, ..) => Ok(Value::Date(y, m, d)),
            v => match text(&v).and_then(|s| parse_datetime(&s)) {
                Some(Value::Datetime(y, m, d, ..)) => Ok(Value::Date(y, m, d)),
                _ => Err(wrong()),
            },
        },
        Ty::Datetime => match v {
            Value::Datetime(..) => Ok(v),
            Value::Date(y, m, d) => Ok(Value::Datetime(y, m, d, 0, 0, 0, 0)),
            v => text(&v).and_then(|s| parse_datetime(&s)).ok_or_else(wrong),
        },
        Ty::Time => {
            let v = match v {
                Value::Time(..) => v,
                v => text(&v).and_then(|s| parse_time(&s)).ok_or_else(wrong)?,
            };
            let Value::Time(neg, d, h, m, s, us) = v else { unreachable!() };
            if m > 59 || s > 59 || us > 999_999 {
                return Err(wrong());
            }
            let total = d as u64 * 24 + h as u64;
            if total > 838 || (total == 838 && m == 59 && s == 59 && us > 0) {
                return Err(range());
            }
            let zero = total == 0 && m == 0 && s == 0 && us == 0;
            Ok(Value::Time(neg && !zero, (total / 24) as u32, (total % 24) as u8, m, s, us))
        }
    }
}

fn key(v: &Value) -> Option<i128> {
    Some(match *v {
        Value::Date(y, m, d) => ((y as i128 * 16 + m as i128) * 32 + d as i128) * 86_400_000_000,
        Value::Datetime(y, m, d, h, mi, s, us) => ((y as i128 * 16 + m as i128) * 32 + d as i128) * 86_400_000_000 + ((h as i128 * 60 + mi as i128) * 60 + s as i128) * 1_000_000 + us as i128,
        Value::Time(n, d, h, mi, s, us) => {
            let x = (((d as i128 * 24 + h as i128) * 60 + mi as i128) * 60 + s as i128) * 1_000_000 + us as i128;
            if n {
                -x
            } else {
                x
            }
        }
        _ => return None,
    })
}

/// None: NULL is involved
pub fn compare(a: &Value, b: &Value) -> Option<Ordering> {
    if *a == Value::Null || *b == Value::Null {
        return None;
    }
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return Some(x.cmp(&y));
    }
    if let (Value::Bytes(x), Value::Bytes(y)) = (a, b) {
        return Some(x.cmp(y));
    }
    let f = |v: &Value| match v {
        Value::Bytes(b) => std::str::from_utf8(b).ok().and_then(|s| s.parse().ok()),
        v => float(v),
    };
    if let (Some(x), Some(y)) = (f(a), f(b)) {
        return x.partial_cmp(&y);
    }
    let t = |v: &Value| match v {
        Value::Bytes(b) => {
            let s = std::str::from_utf8(b).ok()?;
            (if s.contains('-') && !s.starts_with('-') { parse_datetime(s) } else { parse_time(s) }).and_then(|x| key(&x))
        }
        v => key(v),
    };
    match (t(a), t(b)) {
        (Some(x), Some(y)) => Some(x.cmp(&y)),
        // incomparable kinds are different
        _ => Some(Ordering::Less),
    }
}

// ---------------------------------------------------------------- execution

pub enum Outcome {
    Done { affected: u64, insert_id: u64 },
    Rows { cols: Vec<Col>, rows: Vec<Vec<Value>> },
}
type E<T> = Result<T, (u16, String)>;

pub struct Db {
    pub current: String,
    pub schemas: BTreeMap<String, BTreeMap<String, Tab>>,
    /// statements executed successfully, in order
    pub journal: Vec<String>,
    /// statements that could not be read (the library sent something a server refuses)
    pub refused: Vec<String>,
    pub max_packet: u64,
    /// seed for the order of rows that have no ORDER BY
    pub shuffle: u64,
    /// asked before every statement runs; an answer is sent instead
    pub fault: Option<Box<dyn FnMut(&str, &Stmt) -> Option<SrvErr> + Send>>,
    pub next_stmt: u32,
    /// commands that ran a statement or prepared one
    pub commands: u64,
}

struct Scope<'a> {
    alias: &'a str,
    schema: &'a str,
    table: &'a str,
    tab: &'a Tab,
}
struct Env<'a> {
    scopes: Vec<Scope<'a>>,
    params: &'a [Value],
    current: &'a str,
    max_packet: u64,
}

impl Env<'_> {
    fn find(&self, path: &[String]) -> E<(usize, usize)> {
        let name = path.last().unwrap();
        let mut hits = vec![];
        for (i, s) in self.scopes.iter().enumerate() {
            let ok = match path.len() {
                1 => true,
                2 => s.alias == path[0],
                3 => s.schema == path[0] && s.alias == path[1],
                _ => false,
            };
            if ok {
                if let Some(c) = s.tab.col(name) {
                    hits.push((i, c));
                }
            }
        }
        match hits.len() {
            0 => Err((1054, format!("Unknown column '{}'", path.join(".")))),
            1 => Ok(hits[0]),
            _ => Err((1052, format!("Column '{}' is ambiguous", path.join(".")))),
        }
    }
    fn eval(&self, e: &Ex, row: &[Option<&[Value]>]) -> E<Value> {
        let b = |x: Option<bool>| x.map_or(Value::Null, |x| Value::Long(x as i64));
        Ok(match e {
            Ex::Val(v) => v.clone(),
            Ex::Param(i) => self.params.get(*i).cloned().ok_or((1210, "missing parameter".to_string()))?,
            Ex::Col(p) => {
                let (i, c) = self.find(p)?;
                match row[i] {
                    Some(r) => r[c].clone(),
                    None => Value::Null,
                }
            }
            Ex::Bin("and", l, r) => match (self.truth(l, row)?, self.truth(r, row)?) {
                (Some(false), _) | (_, Some(false)) => b(Some(false)),
                (Some(true), Some(true)) => b(Some(true)),
                _ => Value::Null,
            },
            Ex::Bin("or", l, r) => match (self.truth(l, row)?, self.truth(r, row)?) {
                (Some(true), _) | (_, Some(true)) => b(Some(true)),
                (Some(false), Some(false)) => b(Some(false)),
                _ => Value::Null,
            },
            Ex::Bin(op, l, r) => {
                let (l, r) = (self.eval(l, row)?, self.eval(r, row)?);
                if *op == "<=>" {
                    return Ok(b(Some(if l == Value::Null || r == Value::Null { l == r } else { compare(&l, &r) == Some(Ordering::Equal) })));
                }
                b(compare(&l, &r).map(|o| match *op {
                    "=" => o.is_eq(),
                    "<>" => o.is_ne(),
                    "<" => o.is_lt(),
                    "<=" => o.is_le(),
                    ">" => o.is_gt(),
                    _ => o.is_ge(),
                }))
            }
            Ex::Not(x) => b(self.truth(x, row)?.map(|x| !x)),
            Ex::Neg(x) => match self.eval(x, row)? {
                Value::Null => Value::Null,
                Value::Long(i64::MIN) => return Err((1690, "out of range".into())),
                v => match num(&v) {
                    Some(n) => Value::Long(i64::try_from(-n).map_err(|_| (1690, "out of range".to_string()))?),
                    None => Value::Double(-float(&v).ok_or((1064, "bad operand".to_string()))?),
                },
            },
            Ex::IsNull(x, want) => b(Some((self.eval(x, row)? == Value::Null) == *want)),
            Ex::In(x, v) => {
                let x = self.eval(x, row)?;
                let mut null = x == Value::Null;
                for y in v {
                    match compare(&x, &self.eval(y, row)?) {
                        Some(Ordering::Equal) => return Ok(b(Some(true))),
                        None => null = true,
                        _ => {}
                    }
                }
                b(if null { None } else { Some(false) })
            }
            Ex::Func(f, _) => match &f[..] {
                "database" | "schema" => Value::Bytes(self.current.as_bytes().to_vec()),
                "now" | "current_timestamp" => now(),
                _ => return Err((1305, format!("FUNCTION {f} does not exist"))),
            },
            Ex::Var(v) => match &v[..] {
                "max_allowed_packet" => Value::ULong(self.max_packet),
                _ => return Err((1193, format!("Unknown system variable '{v}'"))),
            },
            Ex::Star(_) => return Err((1064, "misplaced *".into())),
        })
    }
    fn truth(&self, e: &Ex, row: &[Option<&[Value]>]) -> E<Option<bool>> {
        Ok(match self.eval(e, row)? {
            Value::Null => None,
            v => Some(float(&v).is_some_and(|x| x != 0.0)),
        })
    }
    /// the column's definition as sent to the client
    fn describe(&self, i: usize, c: usize, alias: Option<&String>) -> Col {
        let s = &self.scopes[i];
        let d = &s.tab.cols[c];
        let mut col = Col::new(&d.name, ct::LONG);
        col.schema = s.schema.into();
        col.table = s.alias.into();
        col.org_table = s.table.into();
        if let Some(a) = alias {
            col.name = a.clone();
        }
        col.flags = if d.null { 0 } else { FLAG_NOT_NULL };
        col.charset = 63;
        let mut uns = false;
        (col.ty, col.length) = match d.ty {
            Ty::Int(b, u) => {
                uns = u;
                match b {
                    8 => (ct::TINY, 4),
                    16 => (ct::SHORT, 6),
                    24 => (ct::INT24, 9),
                    32 => (ct::LONG, 11),
                    _ => (ct::LONGLONG, 20),
                }
            }
            Ty::Float => (ct::FLOAT, 12),
            Ty::Double => (ct::DOUBLE, 22),
            Ty::Text(n) => {
                col.charset = 45;
                (if n == u32::MAX { ct::BLOB } else { ct::VAR_STRING }, n.saturating_mul(4))
            }
            Ty::Blob(n) => {
                col.flags |= 128;
                (if n == u32::MAX { ct::BLOB } else { ct::VAR_STRING }, n)
            }
            Ty::Date => (ct::DATE, 10),
            Ty::Datetime => (ct::DATETIME, 26),
            Ty::Time => (ct::TIME, 17),
        };
        if uns {
            col.flags |= FLAG_UNSIGNED;
        }
        col
    }
}

pub fn now() -> Value {
    Value::Datetime(2024, 2, 29, 12, 30, 15, 0)
}

impl Db {
    pub fn new(current: &str) -> Db {
        Db {
            current: current.into(),
            schemas: [(current.to_string(), BTreeMap::new())].into(),
            journal: vec![],
            refused: vec![],
            max_packet: 64 << 20,
            shuffle: 0,
            fault: None,
            next_stmt: 1,
            commands: 0,
        }
    }
    pub fn tables(&mut self) -> &mut BTreeMap<String, Tab> {
        let c = self.current.clone();
        self.schemas.get_mut(&c).unwrap()
    }
    pub fn table(&self, name: &str) -> Option<&Tab> {
        self.schemas[&self.current].get(name)
    }
    fn locate(&self, path: &[String]) -> E<(String, String)> {
        let (s, t) = match path {
            [t] => (self.current.clone(), t.clone()),
            [s, t] => (s.clone(), t.clone()),
            _ => return Err((1064, "bad table name".into())),
        };
        Ok((s, t))
    }
    fn get(&self, path: &[String]) -> E<(String, String)> {
        let (s, t) = self.locate(path)?;
        match self.schemas.get(&s).and_then(|x| x.get(&t)) {
            Some(_) => Ok((s, t)),
            None => Err((1146, format!("Table '{s}.{t}' doesn't exist"))),
        }
    }
    /// information_schema.PARTITIONS and TABLES
    fn information(&self, name: &str) -> Option<Tab> {
        let name = name.to_ascii_uppercase();
        let mut t = Tab::new(vec![ColDef::new("TABLE_SCHEMA", Ty::Text(64)), ColDef::new("TABLE_NAME", Ty::Text(64))]);
        for (s, tabs) in &self.schemas {
            for (n, tab) in tabs {
                let k = if name == "PARTITIONS" { tab.partitions } else { 1 };
                for _ in 0..k {
                    t.rows.push(vec![Value::Bytes(s.as_bytes().to_vec()), Value::Bytes(n.as_bytes().to_vec())]);
                }
            }
        }
        (name == "PARTITIONS" || name == "TABLES").then_some(t)
    }
    fn check_unique(tab: &Tab, row: &[Value], skip: Option<usize>) -> E<()> {
        for u in &tab.uniques {
            if u.iter().any(|c| row[*c] == Value::Null) {
                continue;
            }
            for (i, r) in tab.rows.iter().enumerate() {
                if Some(i) != skip && u.iter().all(|c| compare(&r[*c], &row[*c]) == Some(Ordering::Equal)) {
                    return Err((1062, "Duplicate entry".into()));
                }
            }
        }
        Ok(())
    }
    fn check_fks(&self, schema: &str, tab: &Tab, row: &[Value]) -> E<()> {
        for (c, t, k) in &tab.fks {
            if row[*c] == Value::Null {
                continue;
            }
            let target = &self.schemas[schema][t];
            let kc = target.col(k).unwrap();
            if !target.rows.iter().any(|r| compare(&r[kc], &row[*c]) == Some(Ordering::Equal)) {
                return Err((1452, format!("Cannot add or update a child row: {} has no row with that {k}", t)));
            }
        }
        Ok(())
    }
    pub fn run(&mut self, stmt: &Stmt, params: &[Value]) -> E<Outcome> {
        match stmt {
            Stmt::Create { path, if_not, tab } => {
                let (s, t) = self.locate(path)?;
                if self.schemas.get(&s).is_some_and(|x| x.contains_key(&t)) {
                    return if *if_not { Ok(Outcome::Done { affected: 0, insert_id: 0 }) } else { Err((1050, format!("Table '{t}' already exists"))) };
                }
                self.schemas.get_mut(&s).ok_or((1049, format!("Unknown database '{s}'")))?.insert(t, tab.clone());
                Ok(Outcome::Done { affected: 0, insert_id: 0 })
            }
            Stmt::Drop { path, if_exists } => {
                let (s, t) = self.locate(path)?;
                if self.schemas.get_mut(&s).and_then(|x| x.remove(&t)).is_none() && !if_exists {
                    return Err((1051, format!("Unknown table '{s}.{t}'")));
                }
                Ok(Outcome::Done { affected: 0, insert_id: 0 })
            }
            Stmt::Insert { path, cols, rows } => self.insert(path, cols.as_ref(), rows, params),
            Stmt::Update { path, set, cond } => self.update(path, set, cond.as_ref(), params),
            Stmt::Delete { path, cond } => {
                let (s, t) = self.get(path)?;
                let tab = &self.schemas[&s][&t];
                let env = self.env(&s, &t, params);
                let mut keep = vec![];
                for r in &tab.rows {
                    let del = match cond {
                        Some(c) => env.truth(c, &[Some(r)])? == Some(true),
                        None => true,
                    };
                    keep.push(!del);
                }
                let tab = self.schemas.get_mut(&s).unwrap().get_mut(&t).unwrap();
                let before = tab.rows.len();
                let mut k = keep.iter();
                tab.rows.retain(|_| *k.next().unwrap());
                Ok(Outcome::Done { affected: (before - tab.rows.len()) as u64, insert_id: 0 })
            }
            Stmt::Select { items, from, cond, order, limit } => self.select(items, from, cond.as_ref(), order, *limit, Some(params)),
        }
    }
    fn env<'a>(&'a self, s: &'a str, t: &'a str, params: &'a [Value]) -> Env<'a> {
        Env { scopes: vec![Scope { alias: t, schema: s, table: t, tab: &self.schemas[s][t] }], params, current: &self.current, max_packet: self.max_packet }
    }
    fn insert(&mut self, path: &[String], cols: Option<&Vec<String>>, rows: &[Vec<Ex>], params: &[Value]) -> E<Outcome> {
        let (s, t) = self.get(path)?;
        let tab = self.schemas[&s][&t].clone();
        let idx: Vec<usize> = match cols {
            None => (0..tab.cols.len()).collect(),
            Some(c) => c.iter().map(|n| tab.col(n).ok_or((1054, format!("Unknown column '{n}' in 'field list'")))).collect::<E<_>>()?,
        };
        for (i, a) in idx.iter().enumerate() {
            if idx[..i].contains(a) {
                return Err((1110, format!("Column '{}' specified twice", tab.cols[*a].name)));
            }
        }
        let (mut first, mut next) = (0, tab.next_auto);
        let mut new = tab.clone();
        for (rowno, row) in rows.iter().enumerate() {
            let all_default = row.is_empty() && cols.is_none_or(|c| c.is_empty());
            if row.len() != idx.len() && !all_default {
                return Err((1136, format!("Column count doesn't match value count at row {}", rowno + 1)));
            }
            let mut given: Vec<Option<Value>> = vec![None; tab.cols.len()];
            if !all_default {
                let env = Env { scopes: vec![], params, current: &self.current, max_packet: self.max_packet };
                for (c, e) in idx.iter().zip(row) {
                    if matches!(e, Ex::Var(v) if v == "default") {
                        continue;
                    }
                    given[*c] = Some(env.eval(e, &[])?);
                }
            }
            let mut out = vec![];
            for (c, g) in tab.cols.iter().zip(given) {
                let v = match g {
                    Some(v) if c.auto && (v == Value::Null || num(&v) == Some(0)) => None,
                    g => g,
                };
                let v = match v {
                    Some(v) => {
                        let v = store(c, v)?;
                        if c.auto {
                            let n = num(&v).unwrap();
                            if first == 0 && n > 0 {
                                first = n as u64;
                            }
                            if n > 0 && n as u64 >= next {
                                next = (n as u64).saturating_add(1);
                            }
                        }
                        v
                    }
                    None if c.auto => {
                        let v = store(c, Value::ULong(next)).map_err(|_| (1467, "Failed to read auto-increment value".to_string()))?;
                        if first == 0 {
                            first = next;
                        }
                        next = next.saturating_add(tab.auto_step);
                        v
                    }
                    None if c.now => now(),
                    None => match &c.default {
                        Some(d) => store(c, d.clone())?,
                        None if c.null => Value::Null,
                        None => return Err((1364, format!("Field '{}' doesn't have a default value", c.name))),
                    },
                };
                out.push(v);
            }
            Self::check_unique(&new, &out, None)?;
            self.check_fks(&s, &tab, &out)?;
            new.rows.push(out);
        }
        new.next_auto = next;
        self.schemas.get_mut(&s).unwrap().insert(t, new);
        Ok(Outcome::Done { affected: rows.len() as u64, insert_id: first })
    }
    fn update(&mut self, path: &[String], set: &[(Vec<String>, Ex)], cond: Option<&Ex>, params: &[Value]) -> E<Outcome> {
        let (s, t) = self.get(path)?;
        let tab = self.schemas[&s][&t].clone();
        let env = self.env(&s, &t, params);
        let mut new = tab.clone();
        let mut changed = 0;
        for i in 0..tab.rows.len() {
            let r = &tab.rows[i];
            if let Some(c) = cond {
                if env.truth(c, &[Some(r)])? != Some(true) {
                    continue;
                }
            }
            let mut row = r.clone();
            for (p, e) in set {
                let (_, c) = env.find(p)?;
                row[c] = store(&tab.cols[c], env.eval(e, &[Some(&row.clone())])?)?;
            }
            Self::check_unique(&new, &row, Some(i))?;
            self.check_fks(&s, &tab, &row)?;
            if row != *r {
                changed += 1;
            }
            new.rows[i] = row;
        }
        // unknown columns are refused even if no row matches
        for (p, _) in set {
            env.find(p)?;
        }
        self.schemas.get_mut(&s).unwrap().insert(t, new);
        Ok(Outcome::Done { affected: changed, insert_id: 0 })
    }
    /// without parameters: only the columns (as when preparing)
    #[allow(clippy::too_many_arguments)]
    fn select(&self, items: &[(Ex, Option<String>)], from: &[Src_], cond: Option<&Ex>, order: &[(Ex, bool)], limit: Option<u64>, params: Option<&[Value]>) -> E<Outcome> {
        let mut tabs: Vec<(String, String, std::borrow::Cow<Tab>)> = vec![];
        for f in from {
            let (s, t) = self.locate(&f.path)?;
            if s.eq_ignore_ascii_case("information_schema") {
                let i = self.information(&t).ok_or((1109, format!("Unknown table '{t}'")))?;
                tabs.push(("information_schema".into(), t.to_ascii_uppercase(), std::borrow::Cow::Owned(i)));
            } else {
                let (s, t) = self.get(&f.path)?;
                tabs.push((s.clone(), t.clone(), std::borrow::Cow::Borrowed(&self.schemas[&s][&t])));
            }
        }
        let mut env = Env { scopes: vec![], params: params.unwrap_or(&[]), current: &self.current, max_packet: self.max_packet };
        let n = tabs.len();
        let mut rows: Vec<Vec<Option<&[Value]>>> = vec![vec![None; n]];
        for (i, f) in from.iter().enumerate() {
            if from[..i].iter().any(|g| g.alias == f.alias) {
                return Err((1066, format!("Not unique table/alias: '{}'", f.alias)));
            }
            env.scopes.push(Scope { alias: &f.alias, schema: &tabs[i].0, table: &tabs[i].1, tab: &tabs[i].2 });
            if params.is_none() {
                if let Some(on) = &f.on {
                    env.resolve(on)?;
                }
                continue;
            }
            let mut next = vec![];
            for r in &rows {
                let mut any = false;
                for x in &tabs[i].2.rows {
                    let mut r = r.clone();
                    r[i] = Some(&x[..]);
                    if match &f.on {
                        Some(on) => env.truth(on, &r)? == Some(true),
                        None => true,
                    } {
                        any = true;
                        next.push(r);
                    }
                }
                if f.left && !any {
                    next.push(r.clone());
                }
            }
            if let Some(on) = &f.on {
                env.resolve(on)?;
            }
            rows = next;
        }
        // columns
        let mut cols = vec![];
        let mut outs: Vec<Ex> = vec![];
        for (e, alias) in items {
            match e {
                Ex::Star(p) => {
                    let mut any = false;
                    for (i, s) in env.scopes.iter().enumerate() {
                        if p.is_empty() || s.alias == p[p.len() - 1] {
                            any = true;
                            for (c, d) in s.tab.cols.iter().enumerate() {
                                cols.push(env.describe(i, c, None));
                                outs.push(Ex::Col(vec![s.alias.to_string(), d.name.clone()]));
                            }
                        }
                    }
                    if !any {
                        return Err((1051, format!("Unknown table '{}'", p.join("."))));
                    }
                }
                Ex::Col(p) => {
                    let (i, c) = env.find(p)?;
                    cols.push(env.describe(i, c, alias.as_ref()));
                    outs.push(e.clone());
                }
                e => {
                    let mut c = Col::new(alias.as_deref().unwrap_or("expr"), ct::LONGLONG);
                    c.schema = String::new();
                    c.table = String::new();
                    c.org_table = String::new();
                    c.org_name = String::new();
                    c.charset = 63;
                    c.ty = match e {
                        Ex::Val(Value::Bytes(_)) | Ex::Func(..) => ct::VAR_STRING,
                        _ => ct::LONGLONG,
                    };
                    if matches!(e, Ex::Var(_)) {
                        c.flags |= FLAG_UNSIGNED;
                    }
                    cols.push(c);
                    outs.push(e.clone());
                }
            }
        }
        if let Some(c) = cond {
            env.resolve(c)?;
        }
        if params.is_none() {
            return Ok(Outcome::Rows { cols, rows: vec![] });
        }
        if let Some(c) = cond {
            let mut v = vec![];
            for r in rows {
                if env.truth(c, &r)? == Some(true) {
                    v.push(r);
                }
            }
            rows = v;
        }
        if order.is_empty() {
            // no order is promised
            let n = rows.len() as u64;
            if self.shuffle != 0 && n > 1 {
                let mut x = self.shuffle;
                for i in (1..n).rev() {
                    x = crate::engine::mix(x, i);
                    rows.swap(i as usize, (x % (i + 1)) as usize);
                }
            }
        } else {
            let mut keyed = vec![];
            for r in rows {
                let k = order.iter().map(|(e, _)| env.eval(e, &r)).collect::<E<Vec<_>>>()?;
                keyed.push((k, r));
            }
            keyed.sort_by(|a, b| {
                for (i, (_, desc)) in order.iter().enumerate() {
                    let o = compare(&a.0[i], &b.0[i]).unwrap_or(Ordering::Equal);
                    if o.is_ne() {
                        return if *desc { o.reverse() } else { o };
                    }
                }
                Ordering::Equal
            });
            rows = keyed.into_iter().map(|x| x.1).collect();
        }
        if let Some(l) = limit {
            rows.truncate(l as usize);
        }
        let mut res = vec![];
        for r in &rows {
            res.push(outs.iter().map(|e| env.eval(e, r)).collect::<E<Vec<_>>>()?);
        }
        Ok(Outcome::Rows { cols, rows: res })
    }
}

impl Env<'_> {
    /// do all names exist?
    fn resolve(&self, e: &Ex) -> E<()> {
        match e {
            Ex::Col(p) => self.find(p).map(|_| ()),
            Ex::Bin(_, a, b) => self.resolve(a).and(self.resolve(b)),
            Ex::Not(a) | Ex::Neg(a) | Ex::IsNull(a, _) => self.resolve(a),
            Ex::In(a, v) => v.iter().try_fold((), |_, x| self.resolve(x)).and(self.resolve(a)),
            Ex::Func(_, v) => v.iter().try_fold((), |_, x| self.resolve(x)),
            _ => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- the server around it

pub type Shared_ = Arc<Mutex<Db>>;

fn state(code: u16) -> &'static str {
    match code {
        1062 | 1452 | 1048 => "23000",
        1146 | 1051 => "42S02",
        1050 => "42S01",
        1054 => "42S22",
        1264 => "22003",
        1406 => "22001",
        1064 => "42000",
        _ => "HY000",
    }
}
fn srv((code, msg): (u16, String)) -> SrvErr {
    SrvErr::new(code, state(code), &msg)
}

impl Db {
    fn refuse(&mut self, text: &[u8], why: String) -> Resp {
        let e = srv((1064, format!("You have an error in your SQL syntax: {why}")));
        self.refused.push(format!("{}: {why}", String::from_utf8_lossy(text)));
        Resp::Err(e)
    }
    fn execute(&mut self, text: &str, p: &Parsed, params: &[Value]) -> Resp {
        if let Some(mut f) = self.fault.take() {
            let r = f(text, &p.stmt);
            self.fault = Some(f);
            if let Some(e) = r {
                return Resp::Err(e);
            }
        }
        match self.run(&p.stmt, params) {
            Ok(Outcome::Done { affected, insert_id }) => {
                self.journal.push(text.to_string());
                Resp::Ok(Ok_ { affected, insert_id, ..Ok_::default() })
            }
            Ok(Outcome::Rows { cols, rows }) => Resp::rows(cols, rows),
            Err(e) => Resp::Err(srv(e)),
        }
    }
}

/// A server whose connections share `db`.
pub fn serve(db: &Shared_, greeting: Greeting) -> Server {
    let db = db.clone();
    let mut stmts: HashMap<u32, (String, Parsed, HashMap<u16, Vec<u8>>)> = HashMap::new();
    Server::new(
        greeting,
        accept_all(),
        Box::new(move |c, s, out| {
            let mut db = db.lock().unwrap_or_else(|e| e.into_inner());
            let r = match c {
                Cmd::Query(q) => {
                    db.commands += 1;
                    match parse(q) {
                        Ok(p) if p.params == 0 => db.execute(&String::from_utf8_lossy(q), &p, &[]),
                        Ok(_) => db.refuse(q, "parameter marker outside a prepared statement".into()),
                        Err(e) => db.refuse(q, e),
                    }
                }
                Cmd::Prepare(q) => {
                    db.commands += 1;
                    match parse(q) {
                        Err(e) => db.refuse(q, e),
                        Ok(p) => {
                            let cols = match &p.stmt {
                                Stmt::Select { items, from, cond, order, limit } => db.select(items, from, cond.as_ref(), order, *limit, None),
                                Stmt::Insert { path, .. } | Stmt::Update { path, .. } | Stmt::Delete { path, .. } => db.get(path).map(|_| Outcome::Done { affected: 0, insert_id: 0 }),
                                _ => Ok(Outcome::Done { affected: 0, insert_id: 0 }),
                            };
                            match cols {
                                Err(e) => Resp::Err(srv(e)),
                                Ok(o) => {
                                    let id = db.next_stmt;
                                    db.next_stmt += 1;
                                    let cols = match o {
                                        Outcome::Rows { cols, .. } => cols,
                                        _ => vec![],
                                    };
                                    let params = (0..p.params).map(|_| Col::new("?", ct::VAR_STRING)).collect();
                                    stmts.insert(id, (String::from_utf8_lossy(q).into_owned(), p, HashMap::new()));
                                    Resp::Prepared { id, params, cols, warnings: 0 }
                                }
                            }
                        }
                    }
                }
                Cmd::Execute(p) => {
                    db.commands += 1;
                    match exec_id(p).and_then(|i| stmts.get_mut(&i)) {
                        None => Resp::err(1243, "HY000", "Unknown prepared statement handler"),
                        Some((text, parsed, long)) => match decode_execute(p, parsed.params, long) {
                            Ok(v) => {
                                long.clear();
                                let v: Vec<Value> = v.into_iter().map(|x| x.value).collect();
                                db.execute(text, parsed, &v)
                            }
                            Err(e) => db.refuse(text.clone().as_bytes(), format!("execute: {e}")),
                        },
                    }
                }
                Cmd::LongData { id, idx, data } => {
                    if let Some((_, _, long)) = stmts.get_mut(id) {
                        long.entry(*idx).or_default().extend_from_slice(data);
                    }
                    Resp::None
                }
                Cmd::Close(id) => {
                    stmts.remove(id);
                    Resp::None
                }
                Cmd::Reset(id) => match stmts.get_mut(id) {
                    Some((_, _, long)) => {
                        long.clear();
                        Resp::ok()
                    }
                    None => Resp::err(1243, "HY000", "Unknown prepared statement handler"),
                },
                Cmd::Ping => Resp::ok(),
                Cmd::Quit => Resp::None,
                Cmd::Other(_) => Resp::err(1047, "08S01", "Unknown command"),
            };
            s.respond(out, &r, matches!(c, Cmd::Execute(_)), false);
        }),
    )
}

pub fn dial(db: &Shared_, greeting: Greeting, plan: IoPlan) -> Dial {
    let db = db.clone();
    Dial::Many(Arc::new(move || Ok(Link::new(Box::new(serve(&db, greeting.clone())), plan.clone()))))
}
