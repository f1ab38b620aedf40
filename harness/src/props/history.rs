//! C06 histories on one connection, C07 server errors at every position.
use super::results::*;
use crate::{done, engine::*, ensure, gen::*, mock::*, must, server::*, wire::*};
use mysql_connector::{
    macros::{FromQueryResult, ModelData},
    types::Value,
    Connection, Error,
};
use std::{
    collections::HashMap,
    future::Future,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

// ---------------------------------------------------------------- plans

#[derive(Clone, Copy, Debug, PartialEq)]
enum RowKind {
    Good,
    /// NULL where the typed row has no Option
    Wide,
    /// a cell no column type can hold
    Broken,
}

#[derive(Clone, Debug)]
enum Answer {
    Ok,
    Err,
    Rows { rows: Vec<RowKind>, err: bool, badcol: bool, wide: usize },
    Multi(Vec<Answer>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Micro {
    Next,
    One,
    Collect,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Last {
    Drop,
    Finish,
    FinishInto,
    Columns,
    Inner,
    Mapping,
}

#[derive(Clone, Debug)]
struct Call {
    id: u32,
    exec: bool,
    typed: bool,
    answer: Answer,
    micro: Vec<Micro>,
    last: Last,
    /// give up after that many polls: of the call itself, of the last step
    cancel_call: Option<u64>,
    cancel_read: Option<u64>,
    late: bool,
}

#[derive(Clone, Debug)]
enum Op {
    Direct(Call),
    Stmt { id: u32, fails: bool, badcount: bool, cancel: Option<u64>, calls: Vec<Call> },
    Cleanup,
    Pause,
}

const LATE: Duration = Duration::from_secs(25);

#[derive(ModelData, FromQueryResult, Debug)]
#[mysql_connector(table = "t")]
struct Narrow {
    tok: u32,
    small: u32,
}

trait Tok {
    fn tok(&self) -> u32;
}
impl Tok for Narrow {
    fn tok(&self) -> u32 {
        if self.small == 7 {
            self.tok
        } else {
            0
        }
    }
}
impl Tok for Row {
    fn tok(&self) -> u32 {
        match (&self[..], self.get(1)) {
            ([Value::UInt(t), _, Value::Null, ..], Some(Value::UInt(7) | Value::Null)) => *t,
            _ => 0,
        }
    }
}

fn token(id: u32, sub: usize, k: usize) -> u32 {
    1_000_000 + id * 10_000 + sub as u32 * 1000 + k as u32
}
fn the_err(id: u32, sub: usize) -> SrvErr {
    SrvErr::new(1000 + (id * 7 + sub as u32) as u16, "42S02", &format!("error {id}.{sub}"))
}
fn the_ok(id: u32, sub: usize) -> Ok_ {
    Ok_ { affected: token(id, sub, 0) as u64, insert_id: id as u64, warnings: (id * 10) as u16 + sub as u16, message: format!("m{id}.{sub}").into_bytes(), ..Ok_::default() }
}

fn build(id: u32, a: &Answer, sub: usize) -> Resp {
    match a {
        Answer::Ok => Resp::Ok(the_ok(id, sub)),
        Answer::Err => Resp::Err(the_err(id, sub)),
        Answer::Rows { rows, err, badcol, wide } => {
            let mut cols = vec![Col::new("tok", ct::LONG).flags(FLAG_UNSIGNED), Col::new("small", ct::LONG).flags(FLAG_UNSIGNED), Col::new("d", ct::LONGLONG)];
            if *badcol {
                cols[1].ty = 100;
            }
            cols.extend((0..*wide).map(|i| Col::new(&format!("w{i}"), ct::LONG)));
            let rows = rows
                .iter()
                .enumerate()
                .map(|(k, r)| {
                    let mut v = vec![
                        Value::UInt(token(id, sub, k)),
                        if *r == RowKind::Wide { Value::Null } else { Value::UInt(7) },
                        if *r == RowKind::Broken { Value::Bytes(b"xyzzy".to_vec()) } else { Value::Null },
                    ];
                    v.resize(3 + *wide, Value::Null);
                    v
                })
                .collect();
            let end = if *err { End::Err(the_err(id, sub)) } else { End::Done(the_ok(id, sub)) };
            Resp::Rows(Rs { cols, rows, styles: vec![], end, mid: the_ok(id, sub) })
        }
        Answer::Multi(v) => Resp::Multi(v.iter().enumerate().map(|(j, a)| build(id, a, j)).collect()),
    }
}

fn gen_answer(s: &mut Src, depth: bool) -> Answer {
    match s.below(if depth { 12 } else { 10 }) {
        0 | 1 => Answer::Ok,
        2 => Answer::Err,
        3..=9 => {
            let n = match s.below(40) {
                39 => 250 + s.usize(20),
                _ => s.usize(5),
            };
            let bad = s.below(3);
            let rows = (0..n)
                .map(|_| match bad {
                    0 if s.chance(1, 4) => *s.pick(&[RowKind::Wide, RowKind::Broken]),
                    _ => RowKind::Good,
                })
                .collect();
            // from 251 columns on, the count takes more than one byte
            let wide = if n < 10 && s.below(25) == 24 { *s.pick(&[247usize, 248, 249, 250, 252, 253, 300, 700]) } else { 0 };
            Answer::Rows { rows, err: s.below(5) == 4, badcol: s.below(10) == 9, wide }
        }
        _ => {
            let n = 1 + s.usize(3);
            let mut v: Vec<Answer> = (0..n)
                .map(|_| loop {
                    // an error ends a multi-result
                    match gen_answer(s, false) {
                        Answer::Err => continue,
                        Answer::Rows { rows, badcol, wide, .. } => break Answer::Rows { rows, badcol, wide, err: false },
                        a => break a,
                    }
                })
                .collect();
            let last = gen_answer(s, false);
            v.push(last);
            Answer::Multi(v)
        }
    }
}

struct GenState {
    next: u32,
    taint: bool,
    late: bool,
}

fn gen_call(s: &mut Src, g: &mut GenState) -> Call {
    g.next += 1;
    let answer = gen_answer(s, true);
    let micro = (0..s.usize(4)).map(|_| *s.pick(&[Micro::Next, Micro::Next, Micro::Next, Micro::One, Micro::Collect])).collect();
    let cut = |s: &mut Src, on: bool| if on && s.chance(1, 3) { Some(s.small(60)) } else { None };
    Call {
        id: g.next,
        exec: s.chance(1, 3),
        typed: s.bool(),
        answer,
        micro,
        last: *s.pick(&[Last::Drop, Last::Drop, Last::Finish, Last::FinishInto, Last::Columns, Last::Inner, Last::Mapping]),
        cancel_call: cut(s, g.taint),
        cancel_read: cut(s, g.taint),
        late: g.late && s.chance(1, 3),
    }
}

fn gen_ops(s: &mut Src, taint: bool, late: bool) -> Vec<Op> {
    let mut g = GenState { next: 0, taint, late };
    let mut ops: Vec<Op> = (0..1 + s.usize(7))
        .map(|_| match s.below(10) {
            0..=4 => Op::Direct(gen_call(s, &mut g)),
            5..=7 => {
                g.next += 1;
                let id = g.next;
                Op::Stmt {
                    id,
                    fails: s.chance(1, 5),
                    badcount: s.chance(1, 6),
                    cancel: if taint && s.chance(1, 4) { Some(s.small(60)) } else { None },
                    calls: (0..s.usize(4)).map(|_| gen_call(s, &mut g)).collect(),
                }
            }
            8 => Op::Cleanup,
            _ => Op::Pause,
        })
        .collect();
    // a plain command as a probe at the end
    g.next += 1;
    ops.push(Op::Direct(Call { id: g.next, exec: s.bool(), typed: false, answer: Answer::Ok, micro: vec![], last: Last::Finish, cancel_call: None, cancel_read: None, late: false }));
    ops
}

fn plan_of(ops: &[Op]) -> (HashMap<u32, Resp>, HashMap<u32, bool>) {
    let (mut m, mut st) = (HashMap::new(), HashMap::new());
    let mut add = |c: &Call| {
        let mut r = build(c.id, &c.answer, 0);
        if c.late {
            r = Resp::Delayed(LATE, Box::new(r));
        }
        m.insert(c.id, r);
    };
    for o in ops {
        match o {
            Op::Direct(c) => add(c),
            Op::Stmt { id, fails, calls, .. } => {
                calls.iter().for_each(&mut add);
                st.insert(*id, *fails);
            }
            _ => {}
        }
    }
    (m, st)
}

fn server(g: Greeting, ops: &[Op]) -> Server {
    let (m, st) = plan_of(ops);
    let alien = || Resp::Ok(Ok_ { affected: 987_654_321, message: b"alien".to_vec(), ..Ok_::default() });
    let num = |q: &[u8], p: char| -> Option<u32> { std::str::from_utf8(q).ok()?.strip_prefix(p)?.parse().ok() };
    let mut srv = Server::simple(g, move |c| match c {
        Cmd::Query(q) => num(q, 'q').and_then(|i| m.get(&i).cloned()).unwrap_or_else(alien),
        Cmd::Prepare(q) => match num(q, 'p').and_then(|i| st.get(&i).map(|f| (i, *f))) {
            Some((i, true)) => Resp::Err(the_err(i, 0)),
            Some((i, false)) => Resp::Prepared {
                id: i,
                params: vec![Col::new("?", ct::LONG)],
                cols: if i % 2 == 0 { vec![] } else { vec![Col::new("tok", ct::LONG), Col::new("small", ct::LONG)] },
                warnings: 0,
            },
            None => alien(),
        },
        Cmd::Execute(p) => match decode_execute(p, 1, &HashMap::new()) {
            Ok(v) => match &v[0].value {
                Value::UInt(i) => m.get(i).cloned().unwrap_or_else(alien),
                _ => alien(),
            },
            Err(_) => alien(),
        },
        c if c.has_response() => alien(),
        _ => Resp::None,
    });
    srv.check_unread = false;
    srv
}

/// polls a future a limited number of times, then drops it
struct Lim<F>(Pin<Box<F>>, u64);
impl<F: Future> Future for Lim<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.1 == 0 {
            return Poll::Ready(None);
        }
        self.1 -= 1;
        self.0.as_mut().poll(cx).map(Some)
    }
}
async fn lim<F: Future>(f: F, polls: Option<u64>) -> Option<F::Output> {
    match polls {
        None => Some(f.await),
        Some(n) => Lim(Box::pin(f), n).await,
    }
}

#[derive(Default)]
struct Book {
    /// a call was cancelled or failed with something that is not an answer
    tainted: bool,
    /// the call whose response may be (partly) unread
    unread: Option<Call>,
    commands: u64,
    refused: u64,
}

impl Book {
    /// an error of a call: `own` are the server errors it may report, `may` whether any other error is expected
    fn err(&mut self, c: &Call, e: &Error, own: bool, may: bool, what: &str) -> Res {
        if kind(e) == Kind::Server {
            let subs = if let Answer::Multi(v) = &c.answer { v.len() } else { 1 };
            ensure!(own && (0..subs).any(|j| is_err(e, &the_err(c.id, j))), "foreign-error", "{what} of call {} ({:?}) reports {e:?}", c.id, c.answer);
            return Ok(());
        }
        if c.late && kind(e) == Kind::TimedOut {
            self.tainted = true;
        }
        if self.tainted {
            self.refused += 1;
            return Ok(());
        }
        ensure!(may, "broken-by-history", "{what} of call {} (exec {}) fails: {e:?}; answer {}", c.id, c.exec, format!("{:?}", c.answer).chars().take(200).collect::<String>());
        Ok(())
    }
}

fn first(a: &Answer) -> &Answer {
    match a {
        Answer::Multi(v) => &v[0],
        a => a,
    }
}

fn own_done(c: &Call, d: &Done, rows: bool, dep: bool) -> bool {
    let w = expect_done(&the_ok(c.id, 0), rows, dep, 0, false);
    d.warnings == w.warnings && d.message == w.message && (rows || d.affected == w.affected)
}

macro_rules! finish_exec {
    ($b:expr, $c:expr, $dep:expr, $fut:expr) => {{
        let b: &mut Book = $b;
        let c: &Call = $c;
        b.commands += 1;
        match lim($fut, c.cancel_call).await {
            None => b.tainted = true,
            Some(Ok(o)) => {
                let d = $crate::done!(o);
                match first(&c.answer) {
                    Answer::Ok => ensure!(own_done(c, &d, false, $dep), "foreign-answer", "call {} got {d:?}", c.id),
                    Answer::Rows { .. } => ensure!(own_done(c, &d, true, $dep), "foreign-answer", "call {} got {d:?}", c.id),
                    _ => return fail("foreign-answer", format!("call {} got {d:?}, the server answered {:?}", c.id, c.answer)),
                }
                b.unread = Some(c.clone());
            }
            Some(Err(e)) => {
                let a = first(&c.answer).clone();
                b.err(c, &e, matches!(a, Answer::Err), matches!(a, Answer::Rows { .. }), "execute")?;
                ensure!(!matches!(a, Answer::Ok) || b.tainted, "broken-by-history", "execute of call {} fails: {e:?}", c.id);
                b.unread = Some(c.clone());
            }
        }
    }};
}

macro_rules! read_all {
    ($b:expr, $c:expr, $dep:expr, $fut:expr) => {{
        let b: &mut Book = $b;
        let c: &Call = $c;
        b.commands += 1;
        match lim($fut, c.cancel_call).await {
            None => b.tainted = true,
            Some(Err(e)) => {
                let a = first(&c.answer).clone();
                b.err(c, &e, matches!(a, Answer::Err), matches!(a, Answer::Rows { badcol: true, .. }), "query")?;
                b.unread = Some(c.clone());
            }
            Some(Ok(mut rs)) => {
                b.unread = Some(c.clone());
                let (kinds, end_err): (Vec<RowKind>, bool) = match first(&c.answer) {
                    Answer::Ok => (vec![], false),
                    Answer::Rows { rows, err, badcol: false, .. } => (rows.clone(), *err),
                    a => return fail("foreign-answer", format!("query {} returned a result set, the server answered {a:?}", c.id)),
                };
                let isrows = matches!(first(&c.answer), Answer::Rows { .. });
                let width = if let Answer::Rows { wide, .. } = first(&c.answer) { 3 + wide } else { 0 };
                ensure!(rs.columns().len() == width, "foreign-answer", "query {} got {} columns", c.id, rs.columns().len());
                let fails = |k: RowKind| k == RowKind::Broken || (k == RowKind::Wide && c.typed);
                // the next row, unless some call gave up halfway
                let mut pos = 0usize;
                let mut exact = true;
                let mut ended = false;
                let mut gone = false;
                for m in &c.micro {
                    match m {
                        Micro::Next => match rs.next().await {
                            Ok(Some(r)) => {
                                let t = r.tok();
                                let at = (pos..kinds.len()).find(|k| token(c.id, 0, *k) == t);
                                match at {
                                    Some(k) if k == pos || !exact => {
                                        ensure!(!fails(kinds[k]) , "wrong-row", "query {} delivers row {k} which cannot be decoded", c.id);
                                        pos = k + 1
                                    }
                                    _ => return fail("foreign-row", format!("query {} row {pos} of {}: got token {t}", c.id, kinds.len())),
                                }
                            }
                            Ok(None) => {
                                ensure!(!exact || ended || (pos == kinds.len() && !end_err), "short", "query {} ends after {pos} of {} rows (ends with an error: {end_err})", c.id, kinds.len());
                                ended = true;
                            }
                            Err(e) => {
                                if exact && !b.tainted {
                                    if pos < kinds.len() {
                                        b.err(c, &e, false, fails(kinds[pos]), "next")?;
                                    } else {
                                        b.err(c, &e, end_err, false, "next")?;
                                        ended = true;
                                    }
                                } else {
                                    b.err(c, &e, end_err, true, "next")?;
                                    exact = false;
                                }
                                pos = (pos + 1).min(kinds.len());
                            }
                        },
                        Micro::One => match rs.one().await {
                            Ok(x) => {
                                let t = x.map(|r| r.tok());
                                let own = (pos..kinds.len()).find(|k| Some(token(c.id, 0, *k)) == t);
                                if exact && !ended {
                                    ensure!(t.is_none() == (pos == kinds.len()) && (t.is_none() || own == Some(pos)), "foreign-row", "one() of query {} at row {pos} of {}: token {t:?}", c.id, kinds.len());
                                    ensure!(!end_err, "swallowed", "one() of query {} hides the error that ended the rows", c.id);
                                } else {
                                    ensure!(t.is_none() || own.is_some(), "foreign-row", "one() of query {}: token {t:?}", c.id);
                                }
                                exact = false;
                                ended = true;
                                pos = kinds.len();
                            }
                            Err(e) => {
                                let may = kinds[pos.min(kinds.len())..].iter().any(|k| fails(*k)) || !exact;
                                b.err(c, &e, end_err, may, "one")?;
                                exact = false;
                                pos = (pos + 1).min(kinds.len());
                            }
                        },
                        Micro::Collect => match rs.collect().await {
                            Ok(v) => {
                                let got: Vec<u32> = v.iter().map(|r| r.tok()).collect();
                                let want: Vec<u32> = (pos..kinds.len()).map(|k| token(c.id, 0, k)).collect();
                                if exact && !ended {
                                    ensure!(got == want, "foreign-row", "collect() of query {}: {got:?} instead of {want:?}", c.id);
                                    ensure!(!end_err, "swallowed", "collect() of query {} hides the error that ended the rows", c.id);
                                } else {
                                    ensure!(want.ends_with(&got), "foreign-row", "collect() of query {}: {got:?} is no tail of {want:?}", c.id);
                                }
                                ended = true;
                                pos = kinds.len();
                            }
                            Err(e) => {
                                let may = kinds[pos.min(kinds.len())..].iter().any(|k| fails(*k)) || !exact;
                                b.err(c, &e, end_err, may, "collect")?;
                                exact = false;
                            }
                        },
                    }
                }
                let rest_fails = kinds[pos.min(kinds.len())..].iter().any(|k| fails(*k)) || !exact;
                let hidden = end_err && ended;
                match c.last {
                    Last::Drop => drop(rs),
                    Last::Columns => ensure!(rs.into_columns().len() == width, "columns", "into_columns"),
                    Last::Inner => ensure!(rs.into_inner().0.len() == width, "columns", "into_inner"),
                    Last::Mapping => drop(rs.into_mapping()),
                    Last::Finish | Last::FinishInto => {
                        let r = if c.last == Last::Finish {
                            lim(rs.finish(), c.cancel_read).await
                        } else {
                            lim(async { rs.finish_into_inner().await.map(|x| x.0) }, c.cancel_read).await
                        };
                        match r {
                            None => gone = true,
                            Some(Ok(o)) => {
                                let d = $crate::done!(o);
                                ensure!(!end_err, "swallowed", "finish of query {} succeeds although the rows ended with an error", c.id);
                                ensure!(own_done(c, &d, isrows, $dep), "foreign-answer", "finish of query {} got {d:?}", c.id);
                            }
                            Some(Err(e)) => b.err(c, &e, end_err, rest_fails || hidden || (end_err && !exact), "finish")?,
                        }
                    }
                }
                if gone {
                    b.tainted = true;
                }
            }
        }
    }};
}

async fn history(conn: &mut Connection, ops: &[Op], dep: bool) -> Result<Book, Fail> {
    let mut book = Book::default();
    let b = &mut book;
    for op in ops {
        match op {
            Op::Pause => tokio::time::sleep(Duration::from_secs(40)).await,
            Op::Cleanup => match conn.cleanup().await {
                Ok(None) => {}
                Ok(Some(o)) => {
                    let d = done!(o);
                    let own = b.unread.as_ref().is_some_and(|c| own_done(c, &d, true, dep));
                    ensure!(own, "foreign-answer", "cleanup() reports {d:?} after {:?}", b.unread);
                }
                Err(e) => match b.unread.clone() {
                    Some(c) => b.err(&c, &e, true, false, "cleanup")?,
                    None => ensure!(b.tainted, "broken-by-history", "cleanup(): {e:?}"),
                },
            },
            Op::Direct(c) => {
                let sql = format!("q{}", c.id);
                if c.exec {
                    finish_exec!(b, c, dep, conn.execute_query(&sql));
                } else if c.typed {
                    read_all!(b, c, dep, conn.query::<Narrow>(&sql));
                } else {
                    read_all!(b, c, dep, conn.query::<Row>(&sql));
                }
            }
            Op::Stmt { id, fails, badcount, cancel, calls } => {
                b.commands += 1;
                let sql = format!("p{id}");
                match lim(conn.prepare_statement(&sql), *cancel).await {
                    None => b.tainted = true,
                    Some(Err(e)) => {
                        if kind(&e) == Kind::Server {
                            ensure!(*fails && is_err(&e, &the_err(*id, 0)), "foreign-error", "prepare {id} (fails: {fails}) reports {e:?}");
                        } else {
                            ensure!(b.tainted, "broken-by-history", "prepare {id}: {e:?}");
                            b.refused += 1;
                        }
                    }
                    Some(Ok(mut st)) => {
                        ensure!(!*fails, "foreign-answer", "prepare {id} succeeds, the server answered with an error");
                        if *badcount {
                            let e = st.execute(&[Value::Null, Value::Null]).await;
                            ensure!(e.is_err(), "foreign-answer", "a call with two values for one parameter succeeds");
                        }
                        for c in calls {
                            let v = [Value::UInt(c.id)];
                            if c.exec {
                                finish_exec!(b, c, dep, st.execute(&v));
                            } else if c.typed {
                                read_all!(b, c, dep, st.query::<Value, Narrow>(&v));
                            } else {
                                read_all!(b, c, dep, st.query::<Value, Row>(&v));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(book)
}

fn show_ops(ops: &[Op]) -> String {
    let call = |c: &Call| {
        let ans = |a: &Answer| match a {
            Answer::Rows { rows, err, badcol, wide } => {
                format!("{}rows{}{}{}{}", rows.len(), if rows.iter().any(|r| *r != RowKind::Good) { "-bad" } else { "" }, if *err { "-err" } else { "" }, if *badcol { "-badcol" } else { "" }, if *wide > 0 { "-wide" } else { "" })
            }
            a => format!("{a:?}").to_lowercase(),
        };
        let a = match &c.answer {
            Answer::Multi(v) => v.iter().map(ans).collect::<Vec<_>>().join("+"),
            a => ans(a),
        };
        let mut t = format!("{}→{a}", if c.exec { "exec" } else { "query" });
        if !c.exec {
            t += &format!(" {:?}/{:?}", c.micro, c.last);
        }
        if let Some(n) = c.cancel_call {
            t += &format!(" cancelled@{n}");
        }
        if c.late {
            t += " late";
        }
        t
    };
    ops.iter()
        .map(|o| match o {
            Op::Direct(c) => call(c),
            Op::Stmt { fails, calls, .. } => format!("stmt{}[{}]", if *fails { "-err" } else { "" }, calls.iter().map(call).collect::<Vec<_>>().join(", ")),
            Op::Cleanup => "cleanup".into(),
            Op::Pause => "pause".into(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn run_history(s: &mut Src, c: &mut Ctx, taint: bool, late: bool) -> Res {
    let ops = gen_ops(s, taint, late);
    let g = gen_greeting(s);
    let dep = g.caps & cap::DEPRECATE_EOF != 0;
    let mut plan = IoPlan::gen(s);
    if taint {
        plan.pend = *s.pick(&[30u8, 60, 80]);
        plan.seed |= 1;
    }
    c.nontrivial = ops.len() > 2;
    c.note(show_ops(&ops));
    let link = Link::new(Box::new(server(g, &ops)), plan.clone());
    // the login is not part of the history
    let book = std::sync::Arc::new(std::sync::Mutex::new((false, 0u64)));
    let b2 = book.clone();
    let quit = s.bool();
    let l2 = link.clone();
    let r = run(async move {
        let mut conn = match connect(&l2).await {
            Ok(c) => c,
            Err(e) => return Err(e2f("connect", &e)),
        };
        let r = history(&mut conn, &ops, dep).await?;
        *b2.lock().unwrap() = (r.tainted, r.refused);
        if quit {
            // whatever is left unread, the server is told
            let res = conn.disconnect().await;
            let (seen, part) = l2.with::<Server, _>(|x| (x.quit, x.partial()));
            match res {
                Ok(()) => ensure!(seen && part == 0, "quit", "disconnect succeeds; end of session seen {seen}, {part} bytes of an unfinished message"),
                Err(_) if r.tainted => {}
                Err(e) if kind(&e) == Kind::TimedOut && r.unread.as_ref().is_some_and(|c| c.late) => b2.lock().unwrap().0 = true,
                Err(e) => return fail("broken-by-history", format!("disconnect fails: {e:?}, unread {:?}", r.unread)),
            }
        }
        Ok(())
    });
    match r {
        Ok(x) => x?,
        Err(Stuck::Hang) => return Err(hang("history")),
        Err(Stuck::Spin) => return fail("spin", "endless polling"),
    }
    if quit {
        c.label("disconnect");
    }
    let (tainted, refused) = *book.lock().unwrap();
    if tainted {
        c.label("tainted");
    } else {
        check_server(&link)?;
    }
    if refused > 0 {
        c.label("refused");
    }
    Ok(())
}

fn c06_plain(s: &mut Src, c: &mut Ctx) -> Res {
    run_history(s, c, false, false)
}
fn c06_cancel(s: &mut Src, c: &mut Ctx) -> Res {
    run_history(s, c, true, false)
}
fn c06_late(s: &mut Src, c: &mut Ctx) -> Res {
    let taint = s.chance(1, 4);
    run_history(s, c, taint, true)
}

// ---------------------------------------------------------------- C07

/// errors to commands: at the start, after some rows, in both protocols and all ways of reading
fn c07_command(s: &mut Src, c: &mut Ctx) -> Res {
    let err = gen_err(s);
    let g = gen_greeting(s);
    let kind_ = s.below(7);
    let t = gen_table(s, 4, 4, false);
    let after = t.rows.len();
    let binary = s.bool();
    let mode = s.below(9);
    let k = s.usize(4);
    c.nontrivial = true;
    c.note(format!("error {} {:?} {:?} at {}", err.code, String::from_utf8_lossy(&err.state), err.msg, match kind_ {
        0 => "execute_query".into(),
        1 => "query".into(),
        2 => "prepare".into(),
        3 => "statement execute".into(),
        4 => "statement query".into(),
        _ => format!("after {after} rows, binary {binary}, reading mode {mode}/{k}"),
    }));
    let (e2, rs) = (err.clone(), t.rs(End::Err(err.clone())));
    let srv = Server::simple(g, move |cmd| match cmd {
        Cmd::Query(q) if q == b"next" => Resp::Ok(Ok_ { affected: 77, ..Ok_::default() }),
        Cmd::Prepare(_) if kind_ == 2 => Resp::Err(e2.clone()),
        Cmd::Prepare(_) => Resp::Prepared { id: 5, params: vec![], cols: rs.cols.clone(), warnings: 0 },
        Cmd::Query(_) | Cmd::Execute(_) if kind_ >= 5 => Resp::Rows(rs.clone()),
        Cmd::Query(_) | Cmd::Execute(_) => Resp::Err(e2.clone()),
        _ => Resp::ok(),
    });
    let link = Link::new(Box::new(srv), IoPlan::gen(s));
    let twice = s.bool();
    session(&link, move |conn| {
        Box::pin(async move {
            let exact = |what: &str, e: Option<Error>| -> Res {
                match e {
                    Some(e) if is_err(&e, &err) => Ok(()),
                    Some(e) => fail("wrong-error", format!("{what}: the server sent {err:?}, reported is {e:?}")),
                    None => fail("swallowed", format!("{what}: the server sent {err:?}, the call succeeds")),
                }
            };
            for _ in 0..1 + twice as u32 {
                match kind_ {
                    0 => exact("execute_query", conn.execute_query("x").await.err())?,
                    1 => exact("query", conn.query::<Row>("x").await.err())?,
                    2 => exact("prepare_statement", conn.prepare_statement("x").await.err())?,
                    3 => {
                        let mut st = must!("prepare", conn.prepare_statement("x").await);
                        exact("execute", st.execute::<Value>(&[]).await.err())?
                    }
                    4 => {
                        let mut st = must!("prepare", conn.prepare_statement("x").await);
                        exact("statement query", st.query::<Value, Row>(&[]).await.err())?
                    }
                    _ => {
                        macro_rules! rows {
                            ($rs:expr) => {{
                                let mut rs = must!("query", $rs);
                                let cells = |i: usize, r: &Row| -> Res {
                                    ensure!(i < t.rows.len() && same_row(r, &t.rows[i]), "row", "row {i} before the error differs: {}", short_row(r));
                                    Ok(())
                                };
                                match mode {
                                    0 | 1 => {
                                        for i in 0..t.rows.len() {
                                            match must!("next", rs.next().await) {
                                                Some(r) => cells(i, &r)?,
                                                None => return fail("short", format!("rows end after {i} of {}", t.rows.len())),
                                            }
                                        }
                                        exact("next", rs.next().await.err())?;
                                        if mode == 1 {
                                            // nothing follows the error
                                            if let Ok(Some(r)) = rs.next().await {
                                                return fail("row", format!("a row after the error: {}", short_row(&r)));
                                            }
                                        }
                                    }
                                    2 => exact("collect", rs.collect().await.err())?,
                                    3 => exact("one", rs.one().await.err())?,
                                    4 => exact("finish", rs.finish().await.err())?,
                                    5 => exact("finish_into_inner", rs.finish_into_inner().await.err())?,
                                    _ => {
                                        for i in 0..k.min(t.rows.len()) {
                                            match must!("next", rs.next().await) {
                                                Some(r) => cells(i, &r)?,
                                                None => return fail("short", format!("rows end after {i} of {}", t.rows.len())),
                                            }
                                        }
                                        match mode {
                                            6 => exact("collect", rs.collect().await.err())?,
                                            7 => exact("finish", rs.finish().await.err())?,
                                            _ => drop(rs),
                                        }
                                    }
                                }
                            }};
                        }
                        if binary {
                            let mut st = must!("prepare", conn.prepare_statement("x").await);
                            rows!(st.query::<Value, Row>(&[]).await);
                        } else {
                            rows!(conn.query::<Row>("x").await);
                            if mode == 8 {
                                exact("cleanup", conn.cleanup().await.err())?;
                            }
                        }
                    }
                }
                let o = must!("the next command", conn.execute_query("next").await);
                ensure!(o.affected_rows() == 77, "next-command", "the next command returned {:?}", done!(o));
            }
            Ok(())
        })
    })?;
    check_server(&link)
}

/// errors before the command phase
fn c07_login(s: &mut Src, c: &mut Ctx) -> Res {
    let err = gen_err(s);
    let mut err = err;
    let kind_ = s.below(5);
    if kind_ == 1 {
        // without SQL state the text cannot begin with '#'
        err.msg = err.msg.trim_start_matches('#').to_string();
    }
    let g = gen_greeting(s);
    c.nontrivial = true;
    c.note(format!("error {} {:?} {}", err.code, err.msg, ["as greeting with state", "as greeting without state", "to the login request", "after a method switch", "to the settings query"][kind_ as usize]));
    let e2 = err.clone();
    let mut step = 0;
    let auth: AuthFn = Box::new(move |_m, _l, ss, out| {
        step += 1;
        match (kind_, step) {
            (2, 1) | (3, 2) => {
                ss.send(out, &e2.packet());
                false
            }
            (3, 1) => {
                let mut p = vec![0xfe];
                p.extend_from_slice(b"mysql_native_password\0ABCDEFGHIJKLMNOPQRST\0");
                ss.send(out, &p);
                false
            }
            _ => {
                let p = Ok_::default().packet(0, ss.caps);
                ss.send(out, &p);
                true
            }
        }
    });
    let e3 = err.clone();
    let mut srv = Server::new(g, auth, Box::new(move |_c, ss, out| ss.respond(out, &Resp::Err(e3.clone()), false, false)));
    match kind_ {
        0 => srv.instead = Some(err.packet()),
        1 => srv.instead = Some(err.packet_nostate()),
        _ => {}
    }
    let link = Link::new(Box::new(srv), IoPlan::gen(s));
    let l2 = link.clone();
    let r = run(async move {
        let mut o = options::<false>(&l2);
        o.password = "pw".into();
        if kind_ == 4 {
            o.max_allowed_packet = None;
        }
        Connection::connect(std::sync::Arc::new(o)).await.map(|_| ())
    });
    match r {
        Err(_) => Err(hang("connect")),
        Ok(Ok(())) => fail("swallowed", "connect succeeds although the server sent an error"),
        Ok(Err(e)) => {
            let ok = if kind_ == 1 { is_err_nostate(&e, &err) } else { is_err(&e, &err) };
            ensure!(ok, "wrong-error", "the server sent {err:?}, reported is {e:?}");
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "a history of 2..9 operations (statements, prepared statements, all ways of reading or abandoning result sets, multi-results, conversion failures, errors, cancelled and timed-out calls); every response carries a token of its call; non-trivial = more than two operations; oracle: a call reports its own token exactly, or (only after a cancelled or timed-out call) an error",
            assumptions: &["after a cancelled or timed-out call an error or the right answer is accepted for every later call"],
            parts: vec![part("histories", 150_000, 6_000_000, c06_plain), part("cancelled", 100_000, 4_000_000, c06_cancel), part("timed-out", 60_000, 2_000_000, c06_late)],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "an error packet with generated code, SQL state and message at one generated position; every case is non-trivial; oracle: code, state and message are reported exactly, rows before are unchanged, the next command works",
            assumptions: &["messages are UTF-8", "an error in place of the greeting without SQL state does not begin with '#'"],
            parts: vec![part("commands", 150_000, 5_000_000, c07_command), part("login", 30_000, 1_000_000, c07_login)],
        },
    ]
}
