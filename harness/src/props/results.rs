//! C01 framing, C02 sequence numbers, C03/C04/C28 result sets, C27 completion data.
use crate::{
    engine::*,
    ensure,
    gen::*,
    mock::*,
    server::*,
    wire::*,
};
use mysql_connector::{
    types::{Column, Value},
    Connection, Error,
};

pub type Row = Vec<Value>;

#[derive(Debug, Clone, PartialEq)]
pub struct Done {
    pub affected: u64,
    pub insert_id: u64,
    pub status: u16,
    pub warnings: u16,
    pub message: Option<String>,
}
#[macro_export]
macro_rules! done {
    ($o:expr) => {{
        let o = &$o;
        $crate::props::results::Done {
            affected: o.affected_rows(),
            insert_id: o.last_insert_id(),
            status: o.status().bits(),
            warnings: o.warnings(),
            message: o.message().cloned(),
        }
    }};
}

/// status bits MySQL defines
pub const STATUS_MASK: u16 = 0x7ffb;

/// the completion data a client must report for `o`
pub fn expect_done(o: &Ok_, end_of_rows: bool, deprecate_eof: bool, caps: u32, more: bool) -> Done {
    let mut st = o.status & !status::MORE_RESULTS;
    if more {
        st |= status::MORE_RESULTS;
    }
    let old = end_of_rows && !deprecate_eof;
    if !old && o.session.is_some() && caps & cap::SESSION_TRACK != 0 {
        st |= status::SESSION_CHANGED;
    }
    Done {
        affected: if end_of_rows { 0 } else { o.affected },
        insert_id: if end_of_rows { 0 } else { o.insert_id },
        status: st & STATUS_MASK,
        warnings: o.warnings,
        message: if old || o.message.is_empty() { None } else { Some(String::from_utf8_lossy(&o.message).into_owned()) },
    }
}

/// `affected`/`insert_id` of an end-of-rows packet are not meaningful: compare the rest.
pub fn done_matches(got: &Done, want: &Done, end_of_rows: bool) -> bool {
    got.status & STATUS_MASK == want.status
        && got.warnings == want.warnings
        && got.message == want.message
        && (end_of_rows || (got.affected == want.affected && got.insert_id == want.insert_id))
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    Next,
    Collect,
    One,
    NextThenCollect(usize),
    NextThenFinish(usize),
    NextThenFinishInto(usize),
    NextThenDrop(usize),
    NextThenColumns(usize),
}
impl Mode {
    pub fn gen(s: &mut Src) -> Mode {
        match s.below(8) {
            0 => Mode::Collect,
            1 => Mode::Next,
            2 => Mode::One,
            3 => Mode::NextThenCollect(s.usize(4)),
            4 => Mode::NextThenFinish(s.usize(4)),
            5 => Mode::NextThenFinishInto(s.usize(4)),
            6 => Mode::NextThenDrop(s.usize(4)),
            _ => Mode::NextThenColumns(s.usize(4)),
        }
    }
    /// number of rows seen of `n`
    pub fn sees(self, n: usize) -> usize {
        match self {
            Mode::Next | Mode::Collect | Mode::NextThenCollect(_) => n,
            Mode::One => n.min(1),
            Mode::NextThenFinish(k) | Mode::NextThenFinishInto(k) | Mode::NextThenDrop(k) | Mode::NextThenColumns(k) => n.min(k),
        }
    }
    /// reads the end of the result set
    pub fn completes(self) -> bool {
        !matches!(self, Mode::NextThenDrop(_) | Mode::NextThenColumns(_))
    }
}

pub struct Read {
    pub cols: Vec<Column>,
    pub rows: Vec<Row>,
    pub done: Option<Done>,
    pub err: Option<Error>,
}

/// read a result set in the given way (a macro: the protocol types cannot be named by users)
#[macro_export]
macro_rules! read_rs {
    ($rs:expr, $mode:expr) => {'r: {
        let mut rs__ = $rs;
    let mut out = $crate::props::results::Read { cols: rs__.columns().to_vec(), rows: vec![], done: None, err: None };
    match $mode {
        $crate::props::results::Mode::Next => {
            while let Some(r) = match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } } {
                out.rows.push(r);
            }
            // reading past the end stays at the end
            if match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }.is_some() {
                panic!("PROPFAIL row-after-end|next() returned a row after it returned None");
            }
            out.done = Some($crate::done!(match rs__.finish().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }));
        }
        $crate::props::results::Mode::Collect => {
            out.rows = match rs__.collect().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } };
            out.done = Some($crate::done!(match rs__.finish().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }));
        }
        $crate::props::results::Mode::One => {
            out.rows = match rs__.one().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }.into_iter().collect();
            out.done = Some($crate::done!(match rs__.finish().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }));
        }
        $crate::props::results::Mode::NextThenCollect(k) => {
            for _ in 0..k {
                if let Some(r) = match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } } {
                    out.rows.push(r);
                }
            }
            out.rows.extend(match rs__.collect().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } });
            out.done = Some($crate::done!(match rs__.finish().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }));
        }
        $crate::props::results::Mode::NextThenFinish(k) => {
            for _ in 0..k {
                if let Some(r) = match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } } {
                    out.rows.push(r);
                }
            }
            out.done = Some($crate::done!(match rs__.finish().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } }));
        }
        $crate::props::results::Mode::NextThenFinishInto(k) => {
            for _ in 0..k {
                if let Some(r) = match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } } {
                    out.rows.push(r);
                }
            }
            let (ok, c, _) = match rs__.finish_into_inner().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } };
            out.done = Some($crate::done!(ok));
            out.cols = c;
        }
        $crate::props::results::Mode::NextThenDrop(k) => {
            for _ in 0..k {
                if let Some(r) = match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } } {
                    out.rows.push(r);
                }
            }
        }
        $crate::props::results::Mode::NextThenColumns(k) => {
            for _ in 0..k {
                if let Some(r) = match rs__.next().await { Ok(x) => x, Err(e) => { out.err = Some(e); break 'r out; } } {
                    out.rows.push(r);
                }
            }
            out.cols = rs__.into_columns();
        }
    }
    out
    }};
}

pub fn e2f(what: &str, e: &Error) -> Fail {
    let mut d = format!("{e:?}");
    if d.len() > 400 {
        d = d.chars().take(400).collect();
    }
    Fail { sig: format!("unexpected-error:{what}"), msg: format!("{what} failed: {d}") }
}
pub fn hang(what: &str) -> Fail {
    Fail { sig: format!("hang:{what}"), msg: format!("{what} never completes") }
}
#[macro_export]
macro_rules! must {
    ($what:expr, $e:expr) => {
        match $e {
            Ok(x) => x,
            Err(e) => return Err($crate::props::results::e2f($what, &e)),
        }
    };
}

pub fn check_read(r: &Read, t: &Table, mode: Mode) -> Res {
    if let Err(m) = columns_equal(&r.cols, &t.cols) {
        return fail("columns", m);
    }
    let n = mode.sees(t.rows.len());
    ensure!(r.rows.len() == n, "row-count", "{} rows returned ({mode:?}), {} expected", r.rows.len(), n);
    for (i, (g, w)) in r.rows.iter().zip(&t.rows).enumerate() {
        if !same_row(g, w) {
            let j = (0..w.len()).find(|j| g.get(*j).map_or(true, |x| !same(x, &w[*j]))).unwrap_or(0);
            return fail(
                "value",
                format!("row {i} column {j} (type {} flags {:#x}): got {}, server sent {}", t.cols[j].ty, t.cols[j].flags, g.get(j).map(short).unwrap_or("nothing".into()), short(&w[j])),
            );
        }
    }
    Ok(())
}

pub fn check_server(link: &Link) -> Res {
    match server_bad(link) {
        Some(m) => fail("client-protocol", format!("the server saw a protocol violation: {m}")),
        None => Ok(()),
    }
}

/// run one exchange on a fresh connection
pub fn session<F>(link: &Link, f: F) -> Res
where
    F: for<'c> FnOnce(&'c mut Connection) -> std::pin::Pin<Box<dyn std::future::Future<Output = Res> + 'c>>,
{
    session_quit(link, false, f)
}
/// `quit`: ends with `disconnect`
pub fn session_quit<F>(link: &Link, quit: bool, f: F) -> Res
where
    F: for<'c> FnOnce(&'c mut Connection) -> std::pin::Pin<Box<dyn std::future::Future<Output = Res> + 'c>>,
{
    let l = link.clone();
    let r = run(async move {
        let mut conn = match connect(&l).await {
            Ok(c) => c,
            Err(e) => return Err(e2f("connect", &e)),
        };
        f(&mut conn).await?;
        if quit {
            must!("disconnect", conn.disconnect().await);
            let (seen, part, bad) = l.with::<Server, _>(|x| (x.quit, x.partial(), x.bad.clone()));
            ensure!(seen && part == 0 && bad.is_empty(), "quit", "after disconnect: end of session seen {seen}, {part} bytes of an unfinished message, {bad:?}");
        }
        Ok(())
    });
    match r {
        Ok(x) => x,
        Err(Stuck::Hang) => Err(hang("exchange")),
        Err(Stuck::Spin) => fail("spin", "endless polling"),
    }
}

fn text_or_bin(link: &Link, t: Table, mode: Mode, binary: bool, ok: Ok_, greeting: &Greeting) -> Res {
    let dep = greeting.caps & cap::DEPRECATE_EOF != 0;
    let link2 = link.clone();
    session(link, move |conn| {
        Box::pin(async move {
            let r = if binary {
                let mut st = must!("prepare", conn.prepare_statement("select 1").await);
                let rs = must!("prepared query", st.query::<Value, Row>(&[]).await);
                read_rs!(rs, mode)
            } else {
                let rs = must!("query", conn.query::<Row>("select 1").await);
                read_rs!(rs, mode)
            };
            if let Some(e) = &r.err {
                return Err(e2f("reading rows", e));
            }
            check_read(&r, &t, mode)?;
            let caps = link2.with::<Server, _>(|s| s.sess.caps);
            let want = expect_done(&ok, true, dep, caps, false);
            if let Some(d) = &r.done {
                ensure!(done_matches(d, &want, true), "completion", "end of rows reported as {d:?}, server sent {want:?}");
            }
            // the connection is still in step
            let ok2 = must!("next command", conn.execute_query("do 1").await);
            ensure!(ok2.affected_rows() == 4711, "next-command", "next command got {:?}", done!(ok2));
            Ok(())
        })
    })?;
    check_server(link)
}

fn rows_server(greeting: Greeting, rs: Rs) -> Server {
    Server::simple(greeting, move |c| match c {
        Cmd::Query(q) if q == b"do 1" => Resp::Ok(Ok_ { affected: 4711, ..Ok_::default() }),
        Cmd::Query(_) | Cmd::Execute(_) => Resp::Rows(rs.clone()),
        Cmd::Prepare(_) => Resp::Prepared { id: 9, params: vec![], cols: rs.cols.clone(), warnings: 0 },
        _ => Resp::None,
    })
}

fn end_ok(s: &mut Src) -> Ok_ {
    let mut o = gen_ok(s);
    if s.bool() {
        o.affected = 0;
        o.insert_id = 0;
        o.widths = (0, 0);
    }
    o
}

fn rows_case(s: &mut Src, c: &mut Ctx, binary: bool) -> Res {
    let g = gen_greeting(s);
    let plan = IoPlan::gen(s);
    let t = gen_table(s, 40, 6, true);
    let mode = Mode::gen(s);
    let ok = end_ok(s);
    c.nontrivial = !t.rows.is_empty();
    c.label(format!("rows={}", if t.rows.is_empty() { "0" } else { "n" }));
    c.label(format!("eof={}", if g.caps & cap::DEPRECATE_EOF != 0 { "new" } else { "old" }));
    for col in &t.cols {
        c.label(format!("type {}", col.ty));
    }
    if t.rows.iter().any(|r| r.contains(&Value::Null)) {
        c.label("has NULL");
    }
    c.note(format!("{} {mode:?} {} {}", if binary { "binary" } else { "text" }, t.show(), plan.show()));
    let link = Link::new(Box::new(rows_server(g.clone(), t.rs(End::Done(ok.clone())))), plan);
    text_or_bin(&link, t, mode, binary, ok, &g)
}

/// many rows: sequence numbers wrap
fn long_case(s: &mut Src, c: &mut Ctx, binary: bool) -> Res {
    let g = gen_greeting(s);
    let plan = IoPlan::gen(s);
    let mut t = gen_table(s, 3, 2, false);
    let n = *s.pick(&[240usize, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 520, 800]);
    let base = t.rows.len();
    if base == 0 {
        let (mut r, mut st) = (vec![], vec![]);
        for col in &t.cols {
            let (v, x) = gen_cell(s, col, false);
            r.push(v);
            st.push(x);
        }
        t.rows.push(r);
        t.styles.push(st);
    }
    let base = t.rows.len();
    for i in base..n {
        let r = t.rows[i % base].clone();
        t.rows.push(r);
        let x = t.styles[i % base].clone();
        t.styles.push(x);
    }
    let mode = Mode::gen(s);
    let ok = end_ok(s);
    c.nontrivial = true;
    c.note(format!("{} rows {mode:?} {}", n, plan.show()));
    let link = Link::new(Box::new(rows_server(g.clone(), t.rs(End::Done(ok.clone())))), plan);
    text_or_bin(&link, t, mode, binary, ok, &g)
}

/// wide tables: all bitmap byte boundaries
fn wide_case(s: &mut Src, c: &mut Ctx, binary: bool) -> Res {
    let g = gen_greeting(s);
    if s.chance(1, 24) {
        return widest_case(s, c, binary, g);
    }
    let n = 1 + s.usize(300);
    let nullp = s.below(4);
    let mut cols = vec![];
    let mut row = vec![];
    let mut st = vec![];
    let mode = s.below(3);
    for i in 0..n {
        let mut col = if mode == 0 { Col::new("x", ct::TINY) } else { gen_col(s) };
        col.flags &= !FLAG_NOT_NULL;
        let (v, x) = if s.below(4) < nullp { (Value::Null, Style::default()) } else if mode == 0 { (Value::Tiny((i % 100) as i8), Style::default()) } else { gen_cell(s, &col, false) };
        if mode == 0 {
            col.flags = 0;
        }
        cols.push(col);
        row.push(v);
        st.push(x);
    }
    let t = Table { cols, rows: vec![row], styles: vec![st] };
    c.nontrivial = t.rows[0].contains(&Value::Null);
    c.note(t.show());
    let ok = Ok_::default();
    let link = Link::new(Box::new(rows_server(g.clone(), t.rs(End::Done(ok.clone())))), IoPlan::default());
    text_or_bin(&link, t, Mode::Collect, binary, ok, &g)
}

/// up to as many columns as a table can have
fn widest_case(s: &mut Src, c: &mut Ctx, binary: bool, g: Greeting) -> Res {
    let n = match s.below(3) {
        0 => *s.pick(&[511usize, 512, 1000, 1023, 1024, 2046, 2047, 4094, 4095, 4096]),
        _ => 301 + s.usize(3796),
    };
    let cols: Vec<Col> = (0..8 + s.usize(24))
        .map(|_| {
            let mut col = gen_col(s);
            col.flags &= !FLAG_NOT_NULL;
            col
        })
        .collect();
    let nullp = s.below(4);
    let mut t = Table { cols: vec![], rows: vec![], styles: vec![] };
    for r in 0..1 + s.usize(3) {
        let cells: Vec<(Value, Style)> = cols.iter().map(|c| gen_cell(s, c, false)).collect();
        let mut x = s.below(1 << 40) | 1;
        let (mut row, mut st) = (vec![], vec![]);
        for i in 0..n {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            // the same columns in every row
            let k = (i * 7 + i / 13) % cols.len();
            let (v, y) = if (x >> 33) % 4 < nullp { (Value::Null, Style::default()) } else { cells[k].clone() };
            row.push(v);
            st.push(y);
            if r == 0 {
                t.cols.push(cols[k].clone());
            }
        }
        t.rows.push(row);
        t.styles.push(st);
    }
    c.nontrivial = true;
    c.note(format!("{n} columns, {} rows", t.rows.len()));
    c.label(">300 columns");
    let ok = Ok_::default();
    let link = Link::new(Box::new(rows_server(g.clone(), t.rs(End::Done(ok.clone())))), IoPlan::default());
    text_or_bin(&link, t, Mode::Collect, binary, ok, &g)
}

/// large cells
fn large_case(s: &mut Src, c: &mut Ctx, binary: bool) -> Res {
    let g = gen_greeting(s);
    let plan = IoPlan::gen_big(s);
    let nc = 1 + s.usize(3);
    let at = s.usize(nc);
    let mut cols = vec![];
    let mut row = vec![];
    for i in 0..nc {
        let mut col = gen_col(s);
        if i == at {
            col.ty = *s.pick(ct::STRINGS);
            let n = *s.pick(&[65535usize, 65536, 1 << 20, MAX - 40, MAX - 5, MAX - 4, MAX - 3, MAX, MAX + 1, 2 * MAX - 9, 2 * MAX + 3]);
            row.push(Value::Bytes(s.blob(n)));
        } else {
            row.push(gen_cell(s, &col, false).0);
        }
        cols.push(col);
    }
    let second: Row = cols.iter().enumerate().map(|(i, col)| if i == at { Value::Bytes(vec![1, 2]) } else { gen_cell(s, col, false).0 }).collect();
    let t = Table { cols, rows: vec![row, second], styles: vec![] };
    let ok = Ok_::default();
    let mode = *s.pick(&[Mode::Collect, Mode::Next, Mode::NextThenFinish(1), Mode::NextThenDrop(0), Mode::NextThenDrop(1)]);
    c.nontrivial = true;
    c.note(format!("{} {mode:?} {}", t.show(), plan.show()));
    let link = Link::new(Box::new(rows_server(g.clone(), t.rs(End::Done(ok.clone())))), plan);
    text_or_bin(&link, t, mode, binary, ok, &g)
}

fn c03_rows(s: &mut Src, c: &mut Ctx) -> Res {
    rows_case(s, c, false)
}
fn c03_long(s: &mut Src, c: &mut Ctx) -> Res {
    long_case(s, c, false)
}
fn c03_wide(s: &mut Src, c: &mut Ctx) -> Res {
    wide_case(s, c, false)
}
fn c03_large(s: &mut Src, c: &mut Ctx) -> Res {
    large_case(s, c, false)
}
fn c04_rows(s: &mut Src, c: &mut Ctx) -> Res {
    rows_case(s, c, true)
}
fn c04_long(s: &mut Src, c: &mut Ctx) -> Res {
    long_case(s, c, true)
}
fn c04_wide(s: &mut Src, c: &mut Ctx) -> Res {
    wide_case(s, c, true)
}
fn c04_large(s: &mut Src, c: &mut Ctx) -> Res {
    large_case(s, c, true)
}

// ---------------------------------------------------------------- C28

fn c28(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_greeting(s);
    let nc = 1 + s.usize(6);
    let mut cols: Vec<Col> = vec![];
    let mut row = vec![];
    let mut st = vec![];
    let foreign = s.chance(1, 3);
    for i in 0..nc {
        let mut col = gen_col(s);
        if foreign && i == 0 {
            // any type code, also those without a decoder
            col.ty = *s.pick(ct::ALL);
        }
        if s.bool() {
            col.flags &= !FLAG_NOT_NULL;
        }
        let (v, x) = gen_cell(s, &col, false);
        if foreign && i == 0 {
            c.label(format!("type {}", col.ty));
        }
        cols.push(col);
        row.push(v);
        st.push(x);
    }
    c.nontrivial = row.iter().any(|v| *v != Value::Null);
    let t = Table { cols, rows: vec![row], styles: vec![st] };
    c.note(t.show());
    let link = Link::new(Box::new(rows_server(g, t.rs(End::Done(Ok_::default())))), IoPlan::default());
    let l2 = link.clone();
    session(&link, move |conn| {
        Box::pin(async move {
            let text = match conn.query::<Row>("q").await {
                Ok(rs) => read_rs!(rs, Mode::Collect),
                Err(e) => Read { cols: vec![], rows: vec![], done: None, err: Some(e) },
            };
            // a fresh connection, so that a failed decode cannot matter
            drop(l2);
            let mut st = must!("prepare", conn.prepare_statement("q").await);
            let bin = match st.query::<Value, Row>(&[]).await {
                Ok(rs) => read_rs!(rs, Mode::Collect),
                Err(e) => Read { cols: vec![], rows: vec![], done: None, err: Some(e) },
            };
            match (&text.err, &bin.err) {
                (None, None) => {}
                (Some(_), Some(_)) => {
                    ensure!(t.cols.iter().any(|c| !SUPPORTED.contains(&c.ty)), "rejected", "a supported type was rejected: {:?}", text.err);
                    return Ok(());
                }
                (a, b) => {
                    return fail("acceptance", format!("column types {:?}: plain query {}, prepared query {}", t.cols.iter().map(|c| c.ty).collect::<Vec<_>>(), if a.is_none() { "succeeds".into() } else { format!("fails: {a:?}") }, if b.is_none() { "succeeds".into() } else { format!("fails: {b:?}") }))
                }
            }
            ensure!(text.rows.len() == 1 && bin.rows.len() == 1, "row-count", "{} text rows, {} binary rows", text.rows.len(), bin.rows.len());
            for (j, (a, b)) in text.rows[0].iter().zip(&bin.rows[0]).enumerate() {
                ensure!(same(a, b), "differ", "type {} flags {:#x}: plain query gives {}, prepared query gives {} (server has {})", t.cols[j].ty, t.cols[j].flags, short(a), short(b), short(&t.rows[0][j]));
            }
            Ok(())
        })
    })
}

// ---------------------------------------------------------------- C27

fn c27(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_greeting(s);
    let plan = IoPlan::gen(s);
    let dep = g.caps & cap::DEPRECATE_EOF != 0;
    let ok = gen_ok(s);
    let kind = s.below(6);
    let t = gen_table(s, 3, 3, false);
    let mode = match s.below(5) {
        0 => Mode::Collect,
        1 => Mode::Next,
        2 => Mode::One,
        3 => Mode::NextThenFinish(s.usize(3)),
        _ => Mode::NextThenFinishInto(s.usize(3)),
    };
    c.nontrivial = ok.affected != 0 || ok.warnings != 0 || !ok.message.is_empty() || ok.insert_id != 0;
    c.label(format!("kind {kind}"));
    c.label(if dep { "eof=new" } else { "eof=old" });
    c.note(format!("kind {kind} {:?} {}", Ok_ { message: ok.message.iter().take(20).copied().collect(), ..ok.clone() }, plan.show()));
    let (ok2, t2, rs) = (ok.clone(), gen_cols_only(&t), t.rs(End::Done(ok.clone())));
    let srv = Server::simple(g, move |cmd| match cmd {
        Cmd::Prepare(_) => Resp::Prepared { id: 3, params: vec![], cols: if kind >= 3 { t2.clone() } else { vec![] }, warnings: 0 },
        _ if kind >= 3 => Resp::Rows(rs.clone()),
        _ => Resp::Ok(ok2.clone()),
    });
    let link = Link::new(Box::new(srv), plan);
    let l2 = link.clone();
    session(&link, move |conn| {
        Box::pin(async move {
            let caps = l2.with::<Server, _>(|s| s.sess.caps);
            let got = match kind {
                0 => done!(must!("execute_query", conn.execute_query("x").await)),
                1 => {
                    let mut st = must!("prepare", conn.prepare_statement("x").await);
                    done!(must!("prepared execute", st.execute::<Value>(&[]).await))
                }
                2 => {
                    // a query that returns no rows
                    let rs = must!("query", conn.query::<Row>("x").await);
                    read_rs!(rs, mode).done.ok_or_else(|| Fail { sig: "completion".into(), msg: "no completion".into() })?
                }
                3 => {
                    let rs = must!("query", conn.query::<Row>("x").await);
                    let r = read_rs!(rs, mode);
                    if let Some(e) = &r.err {
                        return Err(e2f("reading rows", e));
                    }
                    r.done.unwrap()
                }
                4 => {
                    let mut st = must!("prepare", conn.prepare_statement("x").await);
                    let rs = must!("prepared query", st.query::<Value, Row>(&[]).await);
                    let r = read_rs!(rs, mode);
                    if let Some(e) = &r.err {
                        return Err(e2f("reading rows", e));
                    }
                    r.done.unwrap()
                }
                _ => {
                    let rs = must!("query", conn.query::<Row>("x").await);
                    drop(rs);
                    match must!("cleanup", conn.cleanup().await) {
                        Some(o) => done!(o),
                        None => return fail("completion", "cleanup() of a pending result reported nothing"),
                    }
                }
            };
            let eor = kind >= 3;
            let want = expect_done(&ok, eor, dep, caps, false);
            ensure!(done_matches(&got, &want, eor), "completion", "reported {:?}, server sent {:?}", Short(&got), Short(&want));
            Ok(())
        })
    })?;
    check_server(&link)
}
fn gen_cols_only(t: &Table) -> Vec<Col> {
    t.cols.clone()
}
struct Short<'a>(&'a Done);
impl std::fmt::Debug for Short<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let d = self.0;
        write!(f, "affected {} insert_id {} status {:#x} warnings {} message {:?}", d.affected, d.insert_id, d.status, d.warnings, d.message.as_ref().map(|m| m.chars().take(30).collect::<String>()))
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            level: "exploration",
            rule: "one query against the reference server: generated greeting, stream behaviour, columns, rows, text style and reading mode; non-trivial = at least one row (many/wide/large parts: always/with NULL)",
            assumptions: &["values are drawn from each type's full wire range; temporal text has 0-6 fraction digits", "the in-process server encodes per the MySQL protocol documentation"],
            parts: vec![part("rows", 60_000, 1_500_000, c03_rows), part("long", 1_500, 30_000, c03_long), part("wide", 2_000, 40_000, c03_wide), part("large", 60, 800, c03_large)],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "as C03 through a prepared statement (binary rows); temporal values use every legal length that can represent them",
            assumptions: &["the in-process server encodes per the MySQL protocol documentation"],
            parts: vec![part("rows", 50_000, 1_500_000, c04_rows), part("long", 1_500, 30_000, c04_long), part("wide", 3_000, 60_000, c04_wide), part("large", 60, 800, c04_large)],
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "one completed command with generated completion data, plain or at the end of rows, both end-of-rows encodings; non-trivial = some field is non-zero",
            assumptions: &["affected rows/insert id inside an end-of-rows packet carry no meaning (as in the MySQL client library)"],
            parts: vec![part("ok", 80_000, 2_000_000, c27)],
        },
        Prop {
            id: "C28",
            level: "exploration",
            rule: "the same generated row served to a plain and a prepared query on one connection; non-trivial = some value is not NULL",
            assumptions: &[],
            parts: vec![part("pair", 60_000, 2_000_000, c28)],
        },
    ]
}
