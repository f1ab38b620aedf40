//! C24 stored models, C25 updates, C26 generated queries. The models are generated programs
//! (`genmodel.rs`); their crate calls `props` with a registry of them.
use super::results::*;
use crate::{db::*, engine::*, ensure, gen::*, mock::*, must, server::*, wire::{cap, text_of, Style}};
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, Timelike};
use mysql_connector::{
    model::*,
    types::{Hex, Value},
    Connection, Error,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex, OnceLock},
};

// ------------------------------------------------------------ values

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Bool,
    Str,
    Date,
    Datetime,
    Dur,
    Hex,
    Vec,
}
#[derive(Clone, Copy, Debug)]
pub struct Sty {
    pub t: T,
    pub opt: bool,
}
/// the value of a field
#[derive(Clone, Debug, PartialEq)]
pub enum Sv {
    Null,
    Int(i128),
    F32(f32),
    F64(f64),
    Bool(bool),
    Str(String),
    Date(NaiveDate),
    Datetime(NaiveDateTime),
    Dur(Duration),
    Bytes(Vec<u8>),
}

pub trait Simple: Sized {
    fn from_sv(v: &Sv) -> Self;
    fn sv(&self) -> Sv;
}
macro_rules! simple_int {
    ($($t: ty)*) => { $(impl Simple for $t {
        fn from_sv(v: &Sv) -> Self { match v { Sv::Int(x) => *x as $t, x => panic!("{x:?}") } }
        fn sv(&self) -> Sv { Sv::Int(*self as i128) }
    })* };
}
simple_int!(i8 i16 i32 i64 u8 u16 u32 u64);
macro_rules! simple {
    ($($t: ty, $v: ident;)*) => { $(impl Simple for $t {
        fn from_sv(v: &Sv) -> Self { match v { Sv::$v(x) => x.clone(), x => panic!("{x:?}") } }
        fn sv(&self) -> Sv { Sv::$v(self.clone()) }
    })* };
}
simple!(f32, F32; f64, F64; bool, Bool; String, Str; NaiveDate, Date; NaiveDateTime, Datetime; Duration, Dur; Vec<u8>, Bytes;);
impl Simple for Hex {
    fn from_sv(v: &Sv) -> Self {
        Hex(Vec::from_sv(v))
    }
    fn sv(&self) -> Sv {
        Sv::Bytes(self.0.clone())
    }
}
impl<X: Simple> Simple for Option<X> {
    fn from_sv(v: &Sv) -> Self {
        match v {
            Sv::Null => None,
            v => Some(X::from_sv(v)),
        }
    }
    fn sv(&self) -> Sv {
        self.as_ref().map_or(Sv::Null, |x| x.sv())
    }
}

impl T {
    fn ty(self) -> Ty {
        match self {
            T::I8 => Ty::Int(8, false),
            T::I16 => Ty::Int(16, false),
            T::I32 => Ty::Int(32, false),
            T::I64 => Ty::Int(64, false),
            T::U8 => Ty::Int(8, true),
            T::U16 => Ty::Int(16, true),
            T::U32 => Ty::Int(32, true),
            T::U64 => Ty::Int(64, true),
            T::F32 => Ty::Float,
            T::F64 => Ty::Double,
            T::Bool => Ty::Int(8, false),
            T::Str => Ty::Text(u32::MAX),
            T::Date => Ty::Date,
            T::Datetime => Ty::Datetime,
            T::Dur => Ty::Time,
            T::Hex | T::Vec => Ty::Blob(u32::MAX),
        }
    }
    fn limits(self) -> (i128, i128) {
        match self.ty() {
            Ty::Int(b, true) => (0, (1 << b) - 1),
            Ty::Int(b, false) => (-(1 << (b - 1)), (1 << (b - 1)) - 1),
            _ => (0, 0),
        }
    }
    fn gen(self, s: &mut Src) -> Sv {
        match self {
            T::I8 | T::I16 | T::I32 | T::I64 | T::U8 | T::U16 | T::U32 | T::U64 => {
                let (lo, hi) = self.limits();
                Sv::Int(s.int(lo, hi))
            }
            T::Bool => Sv::Bool(s.bool()),
            T::F32 => {
                let x = f32::from_bits(s.u64() as u32);
                Sv::F32(if x.is_finite() { x } else { s.rangei(-1000, 1000) as f32 / 8.0 })
            }
            T::F64 => {
                let x = f64::from_bits(s.u64());
                Sv::F64(if x.is_finite() { x } else { s.rangei(-1000, 1000) as f64 / 8.0 })
            }
            T::Str => Sv::Str(s.string(12)),
            T::Hex | T::Vec => {
                if s.chance(1, 60) {
                    let n = 200 + s.usize(70_000);
                    Sv::Bytes(expand(s.u64(), n))
                } else {
                    Sv::Bytes(s.bytes(20))
                }
            }
            T::Date => Sv::Date(date(s)),
            T::Datetime => {
                let d = date(s);
                let (h, m, x) = (s.below(24) as u32, s.below(60) as u32, s.below(60) as u32);
                let us = *s.pick(&[0, 1, 999_999, 500_000, 120_000, 7]);
                let t = if s.chance(1, 4) { (0, 0, 0, 0) } else { (h, m, x, us) };
                Sv::Datetime(d.and_hms_micro_opt(t.0, t.1, t.2, t.3).unwrap())
            }
            T::Dur => {
                let max = 838 * 3600 + 59 * 60 + 59;
                let sec = *s.pick(&[0, 1, 59, 3600, 86_399, 86_400, max]);
                let sec = if s.bool() { sec } else { s.rangei(0, max) };
                let us = if sec == max { 0 } else { *s.pick(&[0, 1, 999_999, 500_000]) };
                let d = Duration::microseconds(sec * 1_000_000 + us);
                Sv::Dur(if s.bool() { d } else { -d })
            }
        }
    }
}
fn date(s: &mut Src) -> NaiveDate {
    let y = *s.pick(&[2024, 1, 9999, 1970, 1000, 2023]);
    let m = 1 + s.below(12) as u32;
    let d = 1 + s.below(31) as u32;
    NaiveDate::from_ymd_opt(y, m, d).or(NaiveDate::from_ymd_opt(y, m, 28)).unwrap()
}
impl Sty {
    fn gen(&self, s: &mut Src) -> Sv {
        if self.opt && s.chance(1, 3) {
            Sv::Null
        } else {
            self.t.gen(s)
        }
    }
    fn col(&self, name: &str) -> ColDef {
        ColDef { null: self.opt, ..ColDef::new(name, self.t.ty()) }
    }
}

/// as the database stores it
fn to_db(v: &Sv, t: T) -> Value {
    let c = ColDef { null: true, ..ColDef::new("", t.ty()) };
    let raw = match v {
        Sv::Null => Value::Null,
        Sv::Int(x) if *x < 0 => Value::Long(*x as i64),
        Sv::Int(x) => Value::ULong(*x as u64),
        Sv::F32(x) => Value::Float(*x),
        Sv::F64(x) => Value::Double(*x),
        Sv::Bool(x) => Value::Tiny(*x as i8),
        Sv::Str(x) => Value::Bytes(x.clone().into_bytes()),
        Sv::Bytes(x) => Value::Bytes(x.clone()),
        Sv::Date(d) => Value::Date(d.year() as u16, d.month() as u8, d.day() as u8),
        Sv::Datetime(d) => Value::Datetime(d.year() as u16, d.month() as u8, d.day() as u8, d.hour() as u8, d.minute() as u8, d.second() as u8, d.nanosecond() / 1000),
        Sv::Dur(d) => {
            let us = d.num_microseconds().unwrap();
            let (neg, us) = (us < 0, us.unsigned_abs());
            let sec = us / 1_000_000;
            Value::Time(neg, (sec / 86400) as u32, (sec / 3600 % 24) as u8, (sec / 60 % 60) as u8, (sec % 60) as u8, (us % 1_000_000) as u32)
        }
    };
    store(&c, raw).unwrap()
}
fn from_db(v: &Value, t: T) -> Sv {
    match (v, t) {
        (Value::Null, _) => Sv::Null,
        (Value::Tiny(x), T::Bool) => Sv::Bool(*x != 0),
        (Value::Float(x), _) => Sv::F32(*x),
        (Value::Double(x), _) => Sv::F64(*x),
        (Value::Bytes(b), T::Str) => Sv::Str(String::from_utf8(b.clone()).unwrap()),
        (Value::Bytes(b), _) => Sv::Bytes(b.clone()),
        (Value::Date(y, m, d), _) => Sv::Date(NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32).unwrap()),
        (Value::Datetime(y, m, d, h, mi, s, us), _) => Sv::Datetime(NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32).unwrap().and_hms_micro_opt(*h as u32, *mi as u32, *s as u32, *us).unwrap()),
        (Value::Time(n, d, h, m, s, us), _) => {
            let x = (((*d as i64 * 24 + *h as i64) * 60 + *m as i64) * 60 + *s as i64) * 1_000_000 + *us as i64;
            Sv::Dur(Duration::microseconds(if *n { -x } else { x }))
        }
        (v, _) => Sv::Int(String::from_utf8(text_of(v, Style::default()).unwrap()).unwrap().parse().unwrap()),
    }
}

// ------------------------------------------------------------ what generated code implements

#[derive(Clone, Debug)]
pub enum F {
    Simple(Sty),
    /// columns
    Struct(Vec<(&'static str, Sty)>),
    /// index of the model in its graph
    Ref(usize),
}
#[derive(Clone, Debug)]
pub struct Desc {
    pub name: &'static str,
    pub table: &'static str,
    pub primary: usize,
    pub auto: bool,
    pub fields: Vec<(&'static str, F)>,
}
impl Desc {
    fn key(&self) -> Sty {
        match &self.fields[self.primary].1 {
            F::Simple(t) => *t,
            _ => unreachable!(),
        }
    }
    fn key_name(&self) -> &'static str {
        self.fields[self.primary].0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Simple(Sv),
    Struct(Vec<Sv>),
    Ref(Vec<Tree>),
}
impl Tree {
    pub fn get<X: Simple>(&self) -> X {
        match self {
            Tree::Simple(v) => X::from_sv(v),
            x => panic!("{x:?}"),
        }
    }
    pub fn part<X: Simple>(&self, i: usize) -> X {
        match self {
            Tree::Struct(v) => X::from_sv(&v[i]),
            x => panic!("{x:?}"),
        }
    }
    pub fn sub(&self) -> &[Tree] {
        match self {
            Tree::Ref(v) => v,
            x => panic!("{x:?}"),
        }
    }
}

/// what to put into an active model
#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    Unset,
    Simple(Sv),
    Struct(Vec<Sv>),
    Key(Sv),
    Insert(Vec<Plan>),
}
impl Plan {
    pub fn is_set(&self) -> bool {
        *self != Plan::Unset
    }
    pub fn part<X: Simple>(&self, i: usize) -> X {
        match self {
            Plan::Struct(v) => X::from_sv(&v[i]),
            x => panic!("{x:?}"),
        }
    }
}
pub fn set<X: Simple>(a: &mut ActiveValue<X>, p: &Plan) {
    match p {
        Plan::Unset => {}
        Plan::Simple(v) => *a = ActiveValue::Set(X::from_sv(v)),
        p => panic!("{p:?}"),
    }
}
pub fn set_ref<M: Rt>(a: &mut ActiveReference<M>, p: &Plan) {
    match p {
        Plan::Unset => {}
        Plan::Key(v) => *a = ActiveReference::Set(<M::Primary as Simple>::from_sv(v)),
        Plan::Insert(p) => {
            let mut x = M::active_model();
            M::fill(&mut x, p);
            *a = ActiveReference::Insert(x);
        }
        p => panic!("{p:?}"),
    }
}

pub trait Rt: Model<Primary: Simple> + FromQueryResult + IntoQuery + 'static {
    fn desc() -> Desc;
    fn make(t: &[Tree]) -> Self;
    fn tree(&self) -> Vec<Tree>;
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, p: &[Plan]);
}

type Fut<'a, X> = Pin<Box<dyn Future<Output = X> + 'a>>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Read {
    Collect,
    Next,
    One,
}
/// A model, without its type
pub trait Ops: Send + Sync {
    fn desc(&self) -> &Desc;
    fn info(&self) -> (&'static str, &'static str, bool);
    fn build_query(&self) -> String;
    fn primary(&self, t: &[Tree]) -> Sv;
    fn insert_whole<'a>(&'a self, conn: &'a mut Connection, t: &'a [Tree]) -> Fut<'a, Result<u64, Error>>;
    fn insert_plan<'a>(&'a self, conn: &'a mut Connection, p: &'a [Plan]) -> Fut<'a, Result<u64, Error>>;
    fn update_of<'a>(&'a self, conn: &'a mut Connection, t: &'a [Tree], p: &'a [Plan]) -> Fut<'a, Result<(), Error>>;
    fn update_key<'a>(&'a self, conn: &'a mut Connection, k: &'a Sv, p: &'a [Plan]) -> Fut<'a, Result<(), Error>>;
    fn select<'a>(&'a self, conn: &'a mut Connection, sql: &'a str, prepared: Option<&'a [Value]>, read: Read) -> Fut<'a, Result<Vec<Vec<Tree>>, Error>>;
}
struct Of<M> {
    desc: Desc,
    _m: std::marker::PhantomData<fn() -> M>,
}
pub fn ops<M: Rt>() -> Box<dyn Ops> {
    Box::new(Of::<M> { desc: M::desc(), _m: std::marker::PhantomData })
}
macro_rules! read {
    ($r: expr, $read: expr) => {{
        let mut r = $r;
        let mut v = vec![];
        match $read {
            Read::Collect => v = r.collect().await?.iter().map(|m| m.tree()).collect(),
            Read::Next => {
                while let Some(m) = r.next().await? {
                    v.push(m.tree());
                }
            }
            Read::One => v.extend(r.one().await?.map(|m| m.tree())),
        }
        Ok(v)
    }};
}
impl<M: Rt> Ops for Of<M> {
    fn desc(&self) -> &Desc {
        &self.desc
    }
    fn info(&self) -> (&'static str, &'static str, bool) {
        (M::TABLE, M::PRIMARY, M::AUTO_INCREMENT)
    }
    fn build_query(&self) -> String {
        M::build_query()
    }
    fn primary(&self, t: &[Tree]) -> Sv {
        M::make(t).primary().sv()
    }
    fn insert_whole<'a>(&'a self, conn: &'a mut Connection, t: &'a [Tree]) -> Fut<'a, Result<u64, Error>> {
        Box::pin(async move { M::make(t).into_active_model().insert(conn).await })
    }
    fn insert_plan<'a>(&'a self, conn: &'a mut Connection, p: &'a [Plan]) -> Fut<'a, Result<u64, Error>> {
        Box::pin(async move {
            let mut a = M::active_model();
            M::fill(&mut a, p);
            a.insert(conn).await
        })
    }
    fn update_of<'a>(&'a self, conn: &'a mut Connection, t: &'a [Tree], p: &'a [Plan]) -> Fut<'a, Result<(), Error>> {
        Box::pin(async move {
            let mut u = M::make(t).update_model();
            M::fill(&mut u, p);
            u.update(conn).await
        })
    }
    fn update_key<'a>(&'a self, conn: &'a mut Connection, k: &'a Sv, p: &'a [Plan]) -> Fut<'a, Result<(), Error>> {
        Box::pin(async move {
            let mut u = UpdateModel::<M>::new(<M::Primary as Simple>::from_sv(k));
            M::fill(&mut u, p);
            u.update(conn).await
        })
    }
    fn select<'a>(&'a self, conn: &'a mut Connection, sql: &'a str, prepared: Option<&'a [Value]>, read: Read) -> Fut<'a, Result<Vec<Vec<Tree>>, Error>> {
        Box::pin(async move {
            match prepared {
                None => read!(conn.query::<M>(sql).await?, read),
                Some(p) => {
                    let mut st = conn.prepare_statement(sql).await?;
                    read!(st.query::<_, M>(p).await?, read)
                }
            }
        })
    }
}

/// a model that can only be queried: some fields of another one, without a primary key
pub trait ViewRt: FromQueryResult + IntoQuery + 'static {
    fn tree(&self) -> Vec<Tree>;
}
pub trait View: Send + Sync {
    fn build_query(&self) -> String;
    fn select<'a>(&'a self, conn: &'a mut Connection, sql: &'a str, prepared: bool, read: Read) -> Fut<'a, Result<Vec<Vec<Tree>>, Error>>;
}
struct ViewOf<M>(std::marker::PhantomData<fn() -> M>);
pub fn view<M: ViewRt>() -> Box<dyn View> {
    Box::new(ViewOf::<M>(std::marker::PhantomData))
}
impl<M: ViewRt> View for ViewOf<M> {
    fn build_query(&self) -> String {
        M::build_query()
    }
    fn select<'a>(&'a self, conn: &'a mut Connection, sql: &'a str, prepared: bool, read: Read) -> Fut<'a, Result<Vec<Vec<Tree>>, Error>> {
        Box::pin(async move {
            if prepared {
                let mut st = conn.prepare_statement(sql).await?;
                read!(st.query::<_, M>(&[] as &[Value]).await?, read)
            } else {
                read!(conn.query::<M>(sql).await?, read)
            }
        })
    }
}

pub struct Graph {
    pub name: &'static str,
    pub source: &'static str,
    pub models: Vec<Box<dyn Ops>>,
    /// of which model, which of its fields
    pub views: Vec<(usize, Vec<usize>, Box<dyn View>)>,
}
static GRAPHS: OnceLock<Vec<Graph>> = OnceLock::new();
fn graphs() -> &'static [Graph] {
    GRAPHS.get().unwrap()
}
impl Graph {
    fn d(&self, m: usize) -> &Desc {
        self.models[m].desc()
    }
    /// (column, type, referenced model) of a model's table
    fn columns(&self, m: usize) -> Vec<(&'static str, Sty, Option<usize>)> {
        let mut v = vec![];
        for (n, f) in &self.d(m).fields {
            match f {
                F::Simple(t) => v.push((*n, *t, None)),
                F::Struct(c) => v.extend(c.iter().map(|(n, t)| (*n, *t, None))),
                F::Ref(to) => v.push((*n, self.d(*to).key(), Some(*to))),
            }
        }
        v
    }
    /// number of values in a row of the generated query
    fn leaves(&self, m: usize) -> usize {
        self.d(m)
            .fields
            .iter()
            .map(|(_, f)| match f {
                F::Simple(_) => 1,
                F::Struct(c) => c.len(),
                F::Ref(to) => self.leaves(*to),
            })
            .sum()
    }
}

// ------------------------------------------------------------ the database

type Tables = BTreeMap<String, Tab>;

struct World {
    g: &'static Graph,
    db: Shared_,
}
fn col_of(t: &Tab, name: &str) -> usize {
    t.col(name).unwrap()
}
impl World {
    fn tables(&self) -> Tables {
        let db = self.db.lock().unwrap_or_else(|e| e.into_inner());
        db.schemas[&db.current].clone()
    }
    fn new(s: &mut Src, g: &'static Graph, defaults: bool) -> World {
        let mut db = Db::new("app");
        let mut order: Vec<usize> = (0..g.models.len()).collect();
        order.sort(); // references point to smaller indices
        for m in order {
            let d = g.d(m);
            let mut cols = vec![];
            for (n, t, r) in g.columns(m) {
                let mut c = t.col(n);
                if n == d.key_name() {
                    c.auto = d.auto;
                } else if defaults && r.is_none() && s.bool() {
                    let v = t.t.gen(s);
                    c.default = Some(to_db(&v, t.t));
                }
                cols.push(c);
            }
            // columns the model does not know
            if s.chance(1, 3) {
                let at = s.usize(cols.len() + 1);
                cols.insert(at, ColDef { null: true, ..ColDef::new("zz_other", Ty::Int(32, false)) });
            }
            // any order of columns
            for k in (1..cols.len()).rev() {
                let j = s.usize(k + 1);
                cols.swap(k, j);
            }
            let mut tab = Tab::new(cols);
            tab.uniques = vec![vec![col_of(&tab, d.key_name())]];
            for (n, _, r) in g.columns(m) {
                if let Some(to) = r {
                    tab.fks.push((col_of(&tab, n), g.d(to).table.into(), g.d(to).key_name().into()));
                }
            }
            // rows
            let n = s.usize(5);
            for _ in 0..n {
                let mut row = vec![Value::Null; tab.cols.len()];
                let mut ok = true;
                for (n, t, r) in g.columns(m) {
                    let c = col_of(&tab, n);
                    row[c] = if n == d.key_name() {
                        match new_key(s, &tab, c, t.t, d.auto) {
                            Some(k) => to_db(&k, t.t),
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    } else if let Some(to) = r {
                        let target = &db.tables()[g.d(to).table];
                        let k = col_of(target, g.d(to).key_name());
                        if target.rows.is_empty() {
                            ok = false;
                            break;
                        }
                        target.rows[s.usize(target.rows.len())][k].clone()
                    } else {
                        to_db(&t.gen(s), t.t)
                    };
                }
                if let Some(c) = tab.col("zz_other") {
                    row[c] = Value::Int(s.rangei(-1000, 1000) as i32);
                }
                if ok {
                    tab.rows.push(row);
                }
            }
            if d.auto {
                let c = col_of(&tab, d.key_name());
                let top = tab.rows.iter().map(|r| if let Sv::Int(x) = from_db(&r[c], d.key().t) { x } else { 0 }).max().unwrap_or(0).max(0);
                // explicit keys stay below the ones the server assigns
                tab.next_auto = top.max(50) as u64 + 1 + s.small(10);
                // long-used tables: keys around the limits of narrower types
                if s.chance(1, 2) {
                    let e = *s.pick(&[7u32, 8, 15, 16, 23, 24, 31, 32, 48, 53, 62, 63]);
                    let far = (1u128 << e) as i128 - s.below(5) as i128 + s.small(1 << 20) as i128;
                    if far > tab.next_auto as i128 && far < d.key().t.limits().1 - 1000 {
                        tab.next_auto = far as u64;
                    }
                }
                tab.auto_step = if d.key().t.limits().1 < 1000 { 1 } else { 1 + s.below(3) };
            }
            db.tables().insert(d.table.into(), tab);
        }
        db.shuffle = s.u64();
        World { g, db: Arc::new(Mutex::new(db)) }
    }
    fn row_with(&self, t: &Tables, m: usize, key: &Value) -> Option<usize> {
        let d = self.g.d(m);
        let tab = &t[d.table];
        let c = col_of(tab, d.key_name());
        tab.rows.iter().position(|r| compare(&r[c], key) == Some(std::cmp::Ordering::Equal))
    }
    /// the model a row describes
    fn tree(&self, t: &Tables, m: usize, row: usize) -> Vec<Tree> {
        let tab = &t[self.g.d(m).table];
        let r = &tab.rows[row];
        self.g
            .d(m)
            .fields
            .iter()
            .map(|(n, f)| match f {
                F::Simple(ty) => Tree::Simple(from_db(&r[col_of(tab, n)], ty.t)),
                F::Struct(c) => Tree::Struct(c.iter().map(|(n, ty)| from_db(&r[col_of(tab, n)], ty.t)).collect()),
                F::Ref(to) => Tree::Ref(self.tree(t, *to, self.row_with(t, *to, &r[col_of(tab, n)]).expect("referenced row"))),
            })
            .collect()
    }
}
/// A key no row has. Keys that the server would assign stay small (there must be room for more).
fn new_key(s: &mut Src, tab: &Tab, c: usize, t: T, auto: bool) -> Option<Sv> {
    for i in 0..6 {
        let v = if auto {
            Sv::Int(1 + s.below(40) as i128 + i)
        } else {
            match t {
                T::Bool => Sv::Bool(s.bool() ^ (i % 2 == 1)),
                T::Dur => Sv::Dur(Duration::seconds(s.rangei(-3_000_000, 3_000_000) + i as i64)),
                t => {
                    let (lo, hi) = t.limits();
                    Sv::Int((s.int(lo, hi) + i).min(hi))
                }
            }
        };
        let x = to_db(&v, t);
        if !tab.rows.iter().any(|r| compare(&r[c], &x) == Some(std::cmp::Ordering::Equal)) {
            return Some(v);
        }
    }
    None
}

// ------------------------------------------------------------ plans

/// Keys planned so far, per model: they must differ
type Used = BTreeMap<usize, Vec<Value>>;

impl World {
    /// an instance to insert; None: there is no unused key
    fn gen_tree(&self, s: &mut Src, t: &Tables, m: usize, used: &mut Used) -> Option<Vec<Tree>> {
        let d = self.g.d(m);
        let mut v = vec![];
        for (i, (_, f)) in d.fields.iter().enumerate() {
            v.push(match f {
                F::Simple(ty) if i == d.primary => Tree::Simple(if d.auto {
                    // ignored
                    ty.t.gen(s)
                } else {
                    self.gen_key(s, t, m, used)?
                }),
                F::Simple(ty) => Tree::Simple(ty.gen(s)),
                F::Struct(c) => Tree::Struct(c.iter().map(|(_, ty)| ty.gen(s)).collect()),
                F::Ref(to) => Tree::Ref(self.gen_tree(s, t, *to, used)?),
            });
        }
        Some(v)
    }
    fn gen_key(&self, s: &mut Src, t: &Tables, m: usize, used: &mut Used) -> Option<Sv> {
        let d = self.g.d(m);
        let tab = &t[d.table];
        let mut with = Tab::new(tab.cols.clone());
        let c = col_of(tab, d.key_name());
        with.rows = tab.rows.clone();
        for k in used.entry(m).or_default().iter() {
            let mut r = vec![Value::Null; tab.cols.len()];
            r[c] = k.clone();
            with.rows.push(r);
        }
        let k = new_key(s, &with, c, d.key().t, d.auto)?;
        used.get_mut(&m).unwrap().push(to_db(&k, d.key().t));
        Some(k)
    }
    /// what a whole instance sets
    fn plan_of(&self, m: usize, tree: &[Tree]) -> Vec<Plan> {
        let d = self.g.d(m);
        d.fields
            .iter()
            .zip(tree)
            .enumerate()
            .map(|(i, ((_, f), t))| match (f, t) {
                _ if i == d.primary && d.auto => Plan::Unset,
                (F::Ref(to), Tree::Ref(t)) => Plan::Insert(self.plan_of(*to, t)),
                (_, Tree::Simple(v)) => Plan::Simple(v.clone()),
                (_, Tree::Struct(v)) => Plan::Struct(v.clone()),
                _ => unreachable!(),
            })
            .collect()
    }
    fn some_key(&self, s: &mut Src, t: &Tables, m: usize) -> Option<Sv> {
        let d = self.g.d(m);
        let tab = &t[d.table];
        if tab.rows.is_empty() {
            return None;
        }
        let r = s.usize(tab.rows.len());
        Some(from_db(&tab.rows[r][col_of(tab, d.key_name())], d.key().t))
    }
    /// `unset`: out of 8 fields that may be left out; `key`: whether the primary key may be set
    fn gen_plan(&self, s: &mut Src, t: &Tables, m: usize, used: &mut Used, unset: u64, update: bool, depth: usize) -> Option<Vec<Plan>> {
        let d = self.g.d(m);
        let mut v = vec![];
        for (i, (_, f)) in d.fields.iter().enumerate() {
            v.push(match f {
                F::Simple(_) if i == d.primary => {
                    let set = if update { s.chance(1, 8) } else { !d.auto || s.chance(1, 4) };
                    if !set {
                        Plan::Unset
                    } else {
                        Plan::Simple(self.gen_key(s, t, m, used)?)
                    }
                }
                _ if s.below(8) < unset => Plan::Unset,
                F::Simple(ty) => Plan::Simple(ty.gen(s)),
                F::Struct(c) => Plan::Struct(c.iter().map(|(_, ty)| ty.gen(s)).collect()),
                F::Ref(to) => match self.some_key(s, t, *to).filter(|_| s.bool() || depth > 3) {
                    Some(k) => Plan::Key(k),
                    None => Plan::Insert(self.gen_plan(s, t, *to, used, unset, false, depth + 1)?),
                },
            });
        }
        Some(v)
    }
}

// ------------------------------------------------------------ what must have happened

struct Diff<'a> {
    w: &'a World,
    before: &'a Tables,
    after: &'a Tables,
    /// (table, row) explained so far
    new: BTreeSet<(String, usize)>,
}
impl Diff<'_> {
    /// the columns a plan sets have these values, the others `rest`
    fn row(&mut self, m: usize, row: usize, plan: &[Plan], rest: &dyn Fn(&Tab, usize) -> Option<Value>) -> Res {
        let g = self.w.g;
        let d = g.d(m);
        let tab = &self.after[d.table];
        let r = tab.rows[row].clone();
        let mut open: BTreeSet<usize> = (0..tab.cols.len()).collect();
        let one = |n: &str, v: &Sv, t: T, at: &mut BTreeSet<usize>| -> Res {
            let c = col_of(tab, n);
            at.remove(&c);
            let want = to_db(v, t);
            ensure!(r[c] == want, "stored", "column {n} of {}: {:?} instead of {want:?}", d.table, r[c]);
            Ok(())
        };
        for (i, ((n, f), p)) in d.fields.iter().zip(plan).enumerate() {
            match (f, p) {
                (_, Plan::Unset) => {
                    // the server's key is checked by the caller
                    if i == d.primary && d.auto && rest(tab, col_of(tab, n)).is_none() {
                        open.remove(&col_of(tab, n));
                    }
                }
                (F::Simple(t), Plan::Simple(v)) => one(n, v, t.t, &mut open)?,
                (F::Struct(c), Plan::Struct(v)) => {
                    for ((n, t), v) in c.iter().zip(v) {
                        one(n, v, t.t, &mut open)?;
                    }
                }
                (F::Ref(to), Plan::Key(k)) => one(n, k, g.d(*to).key().t, &mut open)?,
                (F::Ref(to), Plan::Insert(p)) => {
                    let c = col_of(tab, n);
                    open.remove(&c);
                    let Some(x) = self.w.row_with(self.after, *to, &r[c]) else {
                        return fail("reference", format!("{n} of {} refers to {:?}, which does not exist", d.table, r[c]));
                    };
                    self.inserted(*to, x, p)?;
                }
                (f, p) => panic!("{f:?} {p:?}"),
            }
        }
        for c in open {
            let want = rest(tab, c).unwrap_or(Value::Null);
            ensure!(r[c] == want, "untouched", "column {} of {} was not set: {:?} instead of {want:?}", tab.cols[c].name, d.table, r[c]);
        }
        Ok(())
    }
    /// a row that did not exist before and is no other reference's
    fn inserted(&mut self, m: usize, row: usize, plan: &[Plan]) -> Res {
        let d = self.w.g.d(m);
        let before = self.before[d.table].rows.len();
        ensure!(row >= before, "inserted", "{}: the row is an old one", d.table);
        ensure!(self.new.insert((d.table.into(), row)), "inserted", "{}: two references share an inserted row", d.table);
        self.row(m, row, plan, &|tab, c| {
            let col = &tab.cols[c];
            if col.auto {
                None
            } else {
                Some(col.default.clone().unwrap_or(Value::Null))
            }
        })
    }
    /// nothing else changed
    fn rest(&self, updated: Option<(&str, usize)>) -> Res {
        for (n, tab) in self.after {
            let old = &self.before[n];
            for (i, r) in tab.rows.iter().enumerate() {
                if i >= old.rows.len() {
                    ensure!(self.new.contains(&(n.clone(), i)), "extra", "{n}: row {r:?} was inserted without reason");
                } else if updated != Some((n, i)) {
                    ensure!(*r == old.rows[i], "other row", "{n}: row {:?} became {r:?}", old.rows[i]);
                }
            }
            ensure!(tab.rows.len() >= old.rows.len(), "other row", "{n}: rows are gone");
        }
        Ok(())
    }
}
/// why the server refuses to insert this
fn refusal(w: &World, t: &Tables, m: usize, plan: &[Plan]) -> Option<&'static str> {
    let d = w.g.d(m);
    let tab = &t[d.table];
    for (i, ((n, f), p)) in d.fields.iter().zip(plan).enumerate() {
        match (f, p) {
            (F::Ref(to), Plan::Insert(p)) => {
                if let Some(x) = refusal(w, t, *to, p) {
                    return Some(x);
                }
            }
            (_, Plan::Unset) if i != d.primary || !d.auto => {
                let cols: Vec<&str> = match f {
                    F::Struct(c) => c.iter().map(|c| c.0).collect(),
                    _ => vec![n],
                };
                for n in cols {
                    let c = &tab.cols[col_of(tab, n)];
                    if c.default.is_none() && !c.null {
                        return Some("no default");
                    }
                }
            }
            _ => {}
        }
    }
    None
}
fn count(plan: &[Plan]) -> usize {
    1 + plan.iter().map(|p| if let Plan::Insert(p) = p { count(p) } else { 0 }).sum::<usize>()
}

fn link(s: &mut Src, w: &World) -> Link {
    let mut g = Greeting::default();
    if s.bool() {
        g.caps &= !cap::DEPRECATE_EOF;
    }
    let plan = IoPlan::gen(s);
    Link::new(Box::new(serve(&w.db, g)), plan)
}
fn refused(w: &World) -> Res {
    let db = w.db.lock().unwrap_or_else(|e| e.into_inner());
    ensure!(db.refused.is_empty(), "statement", "a statement the server cannot read: {}", db.refused[0]);
    Ok(())
}
fn pick_model(s: &mut Src) -> (&'static Graph, usize) {
    let g = &graphs()[s.usize(graphs().len())];
    // mostly the outermost model
    let m = if s.chance(1, 4) { s.usize(g.models.len()) } else { g.models.len() - 1 };
    (g, m)
}
fn explain(g: &Graph, m: usize, r: Res) -> Res {
    r.map_err(|f| Fail { sig: f.sig, msg: format!("{}\n  model {} of\n{}", f.msg, g.d(m).name, g.source.lines().map(|l| format!("    {l}\n")).collect::<String>()) })
}
fn sorted(mut v: Vec<Vec<Tree>>) -> Vec<String> {
    let mut v: Vec<String> = v.drain(..).map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}
fn protocol_ok(w: &World, link: &Link) -> Res {
    refused(w)?;
    let _ = link;
    Ok(())
}

/// the insert id belongs to the inserted row; then its row
fn check_insert(w: &World, m: usize, before: &Tables, after: &Tables, plan: &[Plan], id: u64) -> Result<usize, Fail> {
    let d = w.g.d(m);
    let tab = &after[d.table];
    let c = col_of(tab, d.key_name());
    let old = &before[d.table];
    // the model's own row is the newest one of its table: referenced rows come first
    let Some(row) = tab.rows.len().checked_sub(1).filter(|r| *r >= old.rows.len()) else {
        return fail("not inserted", format!("{}: there is no new row", d.table));
    };
    let mut diff = Diff { w, before, after, new: BTreeSet::new() };
    diff.inserted(m, row, plan)?;
    diff.rest(None)?;
    if d.auto {
        let want = from_db(&tab.rows[row][c], d.key().t);
        ensure!(want == Sv::Int(id as i128), "insert id", "insert id {id}, but the row's key is {want:?}");
    } else {
        ensure!(id == 0, "insert id", "insert id {id}, but the server assigned none");
    }
    Ok(row)
}

// ------------------------------------------------------------ C24

fn c24(s: &mut Src, c: &mut Ctx) -> Res {
    let (g, m) = pick_model(s);
    let r = c24_case(s, c, g, m);
    explain(g, m, r)
}
enum Ins {
    Whole(Vec<Tree>),
    Plan(Vec<Plan>),
}
fn c24_case(s: &mut Src, c: &mut Ctx, g: &'static Graph, m: usize) -> Res {
    let w = World::new(s, g, false);
    let o = &g.models[m];
    let d = o.desc();
    ensure!(o.info() == (d.table, d.key_name(), d.auto), "constants", "table, key, auto increment: {:?}", o.info());
    let link = link(s, &w);
    let mut todo = vec![];
    let n = 1 + s.usize(3);
    for _ in 0..n {
        let x = s.bool();
        todo.push(x);
    }
    let seed_reads: Vec<(bool, Read)> = (0..n).map(|_| (s.bool(), *s.pick(&[Read::Collect, Read::Next, Read::Collect]))).collect();
    c.note(format!("{} {}: {} inserts", g.name, d.name, n));
    let w = &w;
    let l2 = link.clone();
    let r = run(async move {
        let mut conn = must!("connect", Connection::connect(Arc::new(options::<false>(&l2))).await);
        for (whole, (prep, read)) in todo.into_iter().zip(seed_reads) {
            let before = w.tables();
            let mut used = Used::new();
            let ins = if whole {
                w.gen_tree(s, &before, m, &mut used).map(Ins::Whole)
            } else {
                w.gen_plan(s, &before, m, &mut used, 0, false, 0).map(Ins::Plan)
            };
            let Some(ins) = ins else {
                c.label("no unused key");
                continue;
            };
            let (plan, res) = match &ins {
                Ins::Whole(t) => {
                    ensure!(o.primary(t) == t[d.primary].get_sv(), "primary", "primary() is {:?}", o.primary(t));
                    (w.plan_of(m, t), o.insert_whole(&mut conn, t).await)
                }
                Ins::Plan(p) => (p.clone(), o.insert_plan(&mut conn, p).await),
            };
            let k = count(&plan);
            c.label(format!("{} models", if k > 4 { "many".into() } else { k.to_string() }));
            let id = match res {
                Ok(x) => x,
                Err(e) => {
                    refused(w)?;
                    if no_more_keys(g, &w.tables()) {
                        c.label("no more keys");
                        return Ok(());
                    }
                    return fail("insert", format!("inserting {plan:?}: {e:?}"));
                }
            };
            c.nontrivial = true;
            let after = w.tables();
            let row = check_insert(w, m, &before, &after, &plan, id)?;
            // what was stored is what was given
            let rows = after[d.table].rows.len();
            let want: Vec<Vec<Tree>> = (0..rows).map(|r| w.tree(&after, m, r)).collect();
            let mine = &want[row];
            if let Ins::Whole(t) = &ins {
                ensure!(same_but_keys(g, m, mine, t), "different", "stored {mine:?} for {t:?}");
            }
            let sql = o.build_query();
            let got = must!(&format!("selecting with {sql}"), o.select(&mut conn, &sql, if prep { Some(&[]) } else { None }, read).await);
            let (a, b) = (sorted(got), sorted(want));
            if a != b {
                let x = a.iter().find(|x| !b.contains(x));
                let y = b.iter().find(|y| !a.contains(y));
                return fail("selected", format!("{sql}\n  gives {x:?}\n  instead of {y:?} ({} and {} rows)", a.len(), b.len()));
            }
        }
        Ok(())
    });
    match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("inserting and selecting")),
    }
    protocol_ok(w, &link)
}
impl Tree {
    fn get_sv(&self) -> Sv {
        match self {
            Tree::Simple(v) => v.clone(),
            x => panic!("{x:?}"),
        }
    }
}
fn same_but_keys(g: &Graph, m: usize, a: &[Tree], b: &[Tree]) -> bool {
    let d = g.d(m);
    d.fields.iter().enumerate().all(|(i, (_, f))| match f {
        _ if i == d.primary && d.auto => true,
        F::Ref(to) => same_but_keys(g, *to, a[i].sub(), b[i].sub()),
        _ => a[i] == b[i],
    })
}

// ------------------------------------------------------------ C25

fn c25(s: &mut Src, c: &mut Ctx) -> Res {
    let (g, m) = pick_model(s);
    let r = c25_case(s, c, g, m);
    explain(g, m, r)
}
fn c25_case(s: &mut Src, c: &mut Ctx, g: &'static Graph, m: usize) -> Res {
    let w = World::new(s, g, true);
    let o = &g.models[m];
    let d = o.desc();
    let link = link(s, &w);
    let n = 1 + s.usize(4);
    c.note(format!("{} {}: {} operations", g.name, d.name, n));
    // whether a row of another table may refer to this model's rows
    let referenced = g.models.iter().any(|x| x.desc().fields.iter().any(|f| matches!(f.1, F::Ref(to) if to == m)));
    let w = &w;
    let l2 = link.clone();
    let r = run(async move {
        let mut conn = must!("connect", Connection::connect(Arc::new(options::<false>(&l2))).await);
        for _ in 0..n {
            let before = w.tables();
            let sent = w.db.lock().unwrap_or_else(|e| e.into_inner()).commands;
            let mut used = Used::new();
            let unset = *s.pick(&[4, 2, 7, 8, 0]);
            if s.chance(1, 3) {
                // insert with fields left out
                let Some(plan) = w.gen_plan(s, &before, m, &mut used, unset, false, 0) else { continue };
                let res = o.insert_plan(&mut conn, &plan).await;
                let after = w.tables();
                refused(w)?;
                match (refusal(w, &before, m, &plan), res) {
                    (None, Ok(id)) => {
                        c.label("insert");
                        c.nontrivial = true;
                        check_insert(w, m, &before, &after, &plan, id)?;
                    }
                    (None, Err(_)) if no_more_keys(g, &after) => return Ok(()),
                    (None, Err(e)) => return fail("insert", format!("inserting {plan:?}: {e:?}")),
                    (Some(why), Err(e)) => {
                        c.label(format!("insert refused: {why}"));
                        ensure!(kind(&e) == Kind::Server, "error", "inserting {plan:?}: {e:?}");
                        ensure!(after[d.table].rows.len() == before[d.table].rows.len(), "inserted", "the insert was refused, but there is a new row");
                    }
                    (Some(why), Ok(_)) => return fail("accepted", format!("inserting {plan:?}: no error ({why})")),
                }
                continue;
            }
            // update: a row or a key that does not exist
            let mut plan = match w.gen_plan(s, &before, m, &mut used, unset, true, 0) {
                Some(p) => p,
                None => continue,
            };
            if referenced {
                plan[d.primary] = Plan::Unset;
            }
            let by_instance = s.bool();
            let (key, row) = match w.some_key(s, &before, m).filter(|_| by_instance || s.chance(5, 6)) {
                Some(k) => {
                    let row = w.row_with(&before, m, &to_db(&k, d.key().t)).unwrap();
                    (k, Some(row))
                }
                None => match w.gen_key(s, &before, m, &mut used) {
                    Some(k) => (k, None),
                    None => continue,
                },
            };
            // sometimes refer to nothing
            let mut dangling = false;
            if s.chance(1, 8) {
                if let Some((i, to)) = d.fields.iter().enumerate().find_map(|(i, f)| if let F::Ref(to) = f.1 { Some((i, to)) } else { None }) {
                    if let Some(k) = w.gen_key(s, &before, to, &mut used) {
                        if !plan.iter().any(|p| matches!(p, Plan::Insert(_))) {
                            plan[i] = Plan::Key(k);
                            dangling = true;
                        }
                    }
                }
            }
            let res = match row {
                Some(r) if by_instance => {
                    let t = w.tree(&before, m, r);
                    c.label("update of an instance");
                    o.update_of(&mut conn, &t, &plan).await
                }
                _ => o.update_key(&mut conn, &key, &plan).await,
            };
            let after = w.tables();
            refused(w)?;
            let now = w.db.lock().unwrap_or_else(|e| e.into_inner()).commands;
            if plan.iter().all(|p| !p.is_set()) {
                c.label("nothing set");
                ensure!(res.is_ok(), "update", "nothing is set: {res:?}");
                ensure!(now == sent, "sent", "nothing is set, but {} commands are sent", now - sent);
                ensure!(same_rows(&before, &after), "changed", "nothing is set, but something changed");
                continue;
            }
            let refusal = plan.iter().zip(&d.fields).find_map(|(p, f)| match (p, &f.1) {
                (Plan::Insert(p), F::Ref(to)) => refusal(w, &before, *to, p),
                _ => None,
            });
            if refusal.is_some() || (dangling && row.is_some()) {
                c.label("update refused");
                match res {
                    Ok(()) => return fail("accepted", format!("updating with {plan:?}: no error")),
                    Err(e) => ensure!(kind(&e) == Kind::Server, "error", "updating with {plan:?}: {e:?}"),
                }
                for (n, t) in &before {
                    ensure!(after[n].rows[..t.rows.len()] == t.rows[..], "changed", "the update was refused, but {n} changed");
                }
                continue;
            }
            if let Err(e) = res {
                if no_more_keys(g, &after) {
                    return Ok(());
                }
                return fail("update", format!("updating {key:?} with {plan:?}: {e:?}"));
            }
            c.nontrivial = true;
            let mut diff = Diff { w, before: &before, after: &after, new: BTreeSet::new() };
            match row {
                Some(r) => {
                    c.label("update");
                    let old = &before[d.table].rows[r];
                    diff.row(m, r, &plan, &|_, c| Some(old[c].clone()))?;
                    diff.rest(Some((d.table, r)))?;
                }
                None => {
                    c.label("update of no row");
                    // referenced models are inserted nevertheless
                    if !plan.iter().any(|p| matches!(p, Plan::Insert(_))) {
                        diff.rest(None)?;
                    } else {
                        for (n, t) in &before {
                            ensure!(after[n].rows[..t.rows.len()] == t.rows[..], "changed", "no row has the key, but {n} changed");
                        }
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("updating")),
    }
    protocol_ok(w, &link)
}
/// one of the tables has assigned its last key
fn no_more_keys(g: &Graph, t: &Tables) -> bool {
    g.models.iter().any(|m| {
        let d = m.desc();
        d.auto && t[d.table].next_auto as i128 > d.key().t.limits().1
    })
}
fn same_rows(a: &Tables, b: &Tables) -> bool {
    a.iter().all(|(n, t)| b[n].rows == t.rows)
}

// ------------------------------------------------------------ C26

fn render(e: &Ex) -> String {
    match e {
        Ex::Col(p) => p.iter().map(|x| format!("`{}`", x.replace('`', "``"))).collect::<Vec<_>>().join("."),
        Ex::Bin(op, a, b) => format!("({} {op} {})", render(a), render(b)),
        Ex::Val(v) => String::from_utf8(text_of(v, Style::default()).unwrap_or(b"null".to_vec())).unwrap(),
        x => panic!("{x:?}"),
    }
}

fn c26(s: &mut Src, c: &mut Ctx) -> Res {
    let (g, m) = pick_model(s);
    let r = c26_case(s, c, g, m);
    explain(g, m, r)
}
fn c26_case(s: &mut Src, c: &mut Ctx, g: &'static Graph, m: usize) -> Res {
    let w = World::new(s, g, false);
    let o = &g.models[m];
    let d = o.desc();
    let link = link(s, &w);
    let sql = o.build_query();
    let parsed = match parse(sql.as_bytes()) {
        Ok(p) => p,
        Err(e) => return fail("statement", format!("{sql}: {e}")),
    };
    let Stmt::Select { items, from, cond: None, order, limit: None } = &parsed.stmt else {
        return fail("statement", format!("{sql} is no plain select"));
    };
    ensure!(parsed.params == 0 && order.is_empty(), "statement", "{sql}");
    // every column once, every referenced table once
    let joins = 1 + count_refs(g, m);
    ensure!(from.len() == joins, "joins", "{sql} reads {} tables instead of {joins}", from.len());
    let names: BTreeSet<&str> = from.iter().map(|f| &f.alias[..]).collect();
    ensure!(names.len() == joins, "names", "{sql}: two tables have the same name");
    let mut seen = BTreeSet::new();
    for (e, _) in items {
        let Ex::Col(p) = e else { return fail("statement", format!("{sql} selects {e:?}")) };
        ensure!(p.len() == 2 && names.contains(&p[0][..]), "unqualified", "{sql}: {p:?}");
        ensure!(seen.insert(p.clone()), "twice", "{sql} selects {p:?} twice");
    }
    ensure!(items.len() == g.leaves(m), "columns", "{sql} selects {} columns instead of {}", items.len(), g.leaves(m));
    let tables = w.tables();
    let all: Vec<Vec<Tree>> = (0..tables[d.table].rows.len()).map(|r| w.tree(&tables, m, r)).collect();
    // variants of the query
    let mut runs = vec![];
    for _ in 0..1 + s.usize(3) {
        let mut how = String::new();
        // the same query under other names: nested models by the path of their fields alone, the model's own table by any
        let own = &from[0].alias;
        let short: Vec<Option<&str>> = from.iter().skip(1).map(|f| f.alias.strip_prefix(&format!("{own}.")[..])).collect();
        let clash = short.iter().any(|x| x.is_none_or(|x| x == own || x == "_other" || x.starts_with(&format!("{own}.")) || x.starts_with("_other.")));
        let (other_own, other_nested) = if !clash && s.chance(1, 4) {
            how += "renamed ";
            (s.bool(), s.bool())
        } else {
            (false, false)
        };
        let rename = |alias: &str| -> String {
            if alias == own {
                if other_own { "_other".into() } else { own.clone() }
            } else if other_nested {
                alias[own.len() + 1..].to_string()
            } else {
                alias.to_string()
            }
        };
        let render = |e: &Ex| render(&renamed(e, &rename));
        let mut cols: Vec<String> = items.iter().map(|(e, _)| render(e)).collect();
        if s.chance(3, 4) {
            for k in (1..cols.len()).rev() {
                let j = s.usize(k + 1);
                cols.swap(k, j);
            }
            how += "permuted ";
        }
        let missing = if s.chance(1, 3) {
            how += "missing ";
            let i = s.usize(cols.len());
            let gone = cols.remove(i);
            if cols.is_empty() {
                cols.push("1 as `other`".into());
            }
            Some(gone)
        } else {
            None
        };
        if s.chance(1, 4) {
            // something the model does not have
            let name = d.fields[s.usize(d.fields.len())].0;
            let at = s.usize(cols.len() + 1);
            cols.insert(at, format!("{} as `{name}`", s.below(100)));
            how += "extra ";
        }
        if s.chance(1, 8) && !cols.is_empty() && missing.is_none() {
            let i = s.usize(cols.len());
            let x = cols[i].clone();
            let at = s.usize(cols.len() + 1);
            cols.insert(at, x);
            how += "repeated ";
        }
        let mut q = format!("select {} from ", cols.join(", "));
        for (i, f) in from.iter().enumerate() {
            if i > 0 {
                q += if s.bool() { " join " } else { " inner join " };
            }
            q += &format!("{} as `{}`", f.path.iter().map(|x| format!("`{x}`")).collect::<Vec<_>>().join("."), rename(&f.alias));
            if let Some(on) = &f.on {
                q += &format!(" on {}", render(on));
            }
        }
        let mut want = all.clone();
        let mut param = None;
        if s.chance(1, 3) {
            if let Some(k) = w.some_key(s, &tables, m).filter(|k| !matches!(k, Sv::Dur(_))) {
                let v = to_db(&k, d.key().t);
                want.retain(|t| t[d.primary] == Tree::Simple(k.clone()));
                q += &format!(" where `{}`.`{}` = ", rename(own), d.key_name());
                if s.bool() {
                    q.push('?');
                    param = Some(v);
                } else {
                    q += &render(&Ex::Val(v));
                }
                how += "where ";
            }
        }
        // as it is
        if s.chance(1, 8) && missing.is_none() && param.is_none() && want.len() == all.len() {
            q = sql.clone();
            how = "as it is ".into();
        }
        let prepared = if param.is_some() { true } else { s.bool() };
        let read = *s.pick(&[Read::Collect, Read::Next, Read::One]);
        c.label(format!("{}{}{}", how, if prepared { "prepared" } else { "text" }, if missing.is_some() && want.is_empty() { " (no rows)" } else { "" }));
        runs.push((q, missing, prepared, param, read, want));
    }
    c.note(format!("{} {}: {}", g.name, d.name, runs[0].0));
    c.nontrivial = !all.is_empty() && items.len() > 1;
    let w = &w;
    let l2 = link.clone();
    let r = run(async move {
        let mut conn = must!("connect", Connection::connect(Arc::new(options::<false>(&l2))).await);
        for (q, missing, prepared, param, read, want) in &runs {
            let params: Vec<Value> = param.iter().map(clone_value).collect();
            let got = o.select(&mut conn, q, if *prepared { Some(&params) } else { None }, *read).await;
            refused(w)?;
            match (missing, got) {
                (Some(x), Ok(v)) => ensure!(want.is_empty() && v.is_empty(), "missing", "{q}\n  lacks {x}, but gives {v:?}"),
                (Some(_), Err(e)) => ensure!(matches!(kind(&e), Kind::Protocol | Kind::Runtime), "error", "{q}: {e:?}"),
                (None, Err(e)) => return fail("select", format!("{q}: {e:?}")),
                (None, Ok(v)) if *read == Read::One => {
                    ensure!(v.len() == want.len().min(1), "rows", "{q}: {} of {} rows", v.len(), want.len());
                    for t in v {
                        ensure!(want.contains(&t), "decoded", "{q}\n  gives {t:?}, which is none of {want:?}");
                    }
                }
                (None, Ok(v)) => {
                    let (a, b) = (sorted(v), sorted(want.clone()));
                    if a != b {
                        let x = a.iter().find(|x| !b.contains(x));
                        let y = b.iter().find(|y| !a.contains(y));
                        return fail("decoded", format!("{q}\n  gives {x:?}\n  instead of {y:?} ({} and {} rows)", a.len(), b.len()));
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("selecting")),
    }
    protocol_ok(w, &link)
}
fn renamed(e: &Ex, f: &dyn Fn(&str) -> String) -> Ex {
    match e {
        Ex::Col(p) if p.len() == 2 => Ex::Col(vec![f(&p[0]), p[1].clone()]),
        Ex::Bin(op, a, b) => Ex::Bin(op, Box::new(renamed(a, f)), Box::new(renamed(b, f))),
        x => x.clone(),
    }
}
/// models without a primary key: their query, and other queries read as them
fn c26_view(s: &mut Src, c: &mut Ctx) -> Res {
    let all: Vec<&'static Graph> = graphs().iter().filter(|g| !g.views.is_empty()).collect();
    let g = all[s.usize(all.len())];
    let (m, keep, view) = &g.views[s.usize(g.views.len())];
    let r = c26_view_case(s, c, g, *m, keep, &**view);
    explain(g, *m, r)
}
fn c26_view_case(s: &mut Src, c: &mut Ctx, g: &'static Graph, m: usize, keep: &'static [usize], view: &'static dyn View) -> Res {
    let w = World::new(s, g, false);
    let d = g.d(m);
    let link = link(s, &w);
    let sql = view.build_query();
    let (mut joins, mut leaves) = (1, 0);
    for i in keep {
        match &d.fields[*i].1 {
            F::Simple(_) => leaves += 1,
            F::Struct(c) => leaves += c.len(),
            F::Ref(to) => {
                joins += 1 + count_refs(g, *to);
                leaves += g.leaves(*to);
            }
        }
    }
    match parse(sql.as_bytes()).map(|p| p.stmt) {
        Ok(Stmt::Select { items, from, cond: None, limit: None, .. }) => {
            ensure!(from.len() == joins, "joins", "{sql} reads {} tables instead of {joins}", from.len());
            ensure!(items.len() == leaves, "columns", "{sql} selects {} columns instead of {leaves}", items.len());
        }
        x => return fail("statement", format!("{sql}: {x:?}")),
    }
    // the model's own query has more columns
    // (columns of joined tables the view does not know could not be told from its own)
    let joined = d.fields.iter().enumerate().all(|(i, f)| keep.contains(&i) || !matches!(f.1, F::Ref(_)));
    let q = if joined && s.chance(1, 3) { g.models[m].build_query() } else { sql };
    let prepared = s.bool();
    let read = *s.pick(&[Read::Collect, Read::Next, Read::One]);
    let tables = w.tables();
    let want: Vec<Vec<Tree>> = (0..tables[d.table].rows.len())
        .map(|r| {
            let t = w.tree(&tables, m, r);
            keep.iter().map(|i| t[*i].clone()).collect()
        })
        .collect();
    c.note(format!("{} {}: {q}", g.name, d.name));
    c.nontrivial = !want.is_empty() && leaves > 1;
    let w = &w;
    let l2 = link.clone();
    let r = run(async move {
        let mut conn = must!("connect", Connection::connect(Arc::new(options::<false>(&l2))).await);
        let got = view.select(&mut conn, &q, prepared, read).await;
        refused(w)?;
        match got {
            Err(e) => fail("select", format!("{q}: {e:?}")),
            Ok(v) if read == Read::One => {
                ensure!(v.len() == want.len().min(1), "rows", "{q}: {} of {} rows", v.len(), want.len());
                for t in v {
                    ensure!(want.contains(&t), "decoded", "{q}\n  gives {t:?}, which is none of {want:?}");
                }
                Ok(())
            }
            Ok(v) => {
                let (a, b) = (sorted(v), sorted(want));
                ensure!(a == b, "decoded", "{q}\n  gives {a:?}\n  instead of {b:?}");
                Ok(())
            }
        }
    });
    match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("selecting")),
    }
    protocol_ok(w, &link)
}
fn count_refs(g: &Graph, m: usize) -> usize {
    g.d(m).fields.iter().map(|(_, f)| if let F::Ref(to) = f { 1 + count_refs(g, *to) } else { 0 }).sum()
}
fn clone_value(v: &Value) -> Value {
    v.clone()
}

pub fn props(g: Vec<Graph>) -> Vec<Prop> {
    let _ = GRAPHS.set(g);
    const A: &[&str] = &[
        "models are generated programs; the graphs are the same in every run of a tier",
        "the reference database accepts what MySQL accepts in its default mode, with text exact for floating point numbers",
        "raw identifiers of structs, table names with backquotes and self-shadowing type names are out of domain",
        "keys that are 0 in auto-increment columns are out of domain",
    ];
    vec![
        Prop { id: "C24", level: "exploration", rule: "at least one model was inserted", assumptions: A, parts: vec![part("roundtrip", 40_000, 1_500_000, c24)] },
        Prop { id: "C25", level: "exploration", rule: "at least one insert or update took place", assumptions: A, parts: vec![part("update", 40_000, 1_500_000, c25)] },
        Prop { id: "C26", level: "exploration", rule: "there are rows with at least two columns", assumptions: A, parts: vec![part("queries", 40_000, 1_500_000, c26), part("views", 15_000, 500_000, c26_view)] },
    ]
}
