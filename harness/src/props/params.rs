//! C05: statement parameters.
use super::results::*;
use crate::{engine::*, ensure, gen::*, mock::*, must, server::*, wire::*};
use mysql_connector::{
    error::{Error as LibError, RuntimeError},
    types::{SimpleValue, Value},
};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};

/// a value of any kind a caller can bind
pub fn gen_value(s: &mut Src, big: bool) -> Value {
    match s.below(17) {
        0 | 1 => Value::Null,
        2 => Value::Tiny(s.int(-128, 127) as i8),
        3 => Value::UTiny(s.int(0, 255) as u8),
        4 => Value::Short(s.int(-32768, 32767) as i16),
        5 => Value::UShort(s.int(0, 65535) as u16),
        6 => Value::Int(s.int(i32::MIN as i128, i32::MAX as i128) as i32),
        7 => Value::UInt(s.int(0, u32::MAX as i128) as u32),
        8 => Value::Long(s.int(i64::MIN as i128, i64::MAX as i128) as i64),
        9 => Value::ULong(s.int(0, u64::MAX as i128) as u64),
        10 => Value::Float(gen_f32(s)),
        11 => Value::Double(gen_f64(s)),
        12 | 13 => Value::Bytes(gen_bytes_val(s, big)),
        14 => {
            let (y, m, d) = gen_date(s);
            Value::Date(y, m, d)
        }
        15 => {
            let (y, m, d) = gen_date(s);
            let (h, mi, sec) = gen_hms(s);
            Value::Datetime(y, m, d, h, mi, sec, gen_usec(s))
        }
        _ => {
            if s.chance(1, 4) {
                // beyond what a TIME column holds, but encodable
                Value::Time(s.bool(), s.int(0, u32::MAX as i128) as u32, s.below(24) as u8, s.below(60) as u8, s.below(60) as u8, gen_usec(s))
            } else {
                gen_time(s)
            }
        }
    }
}

/// what the server must decode, the sign of a zero time does not matter
fn arrives(p: &Param, v: &Value) -> bool {
    let zero = |v: &Value| matches!(v, Value::Time(_, 0, 0, 0, 0, 0));
    let ty_ok = match v {
        Value::Null => true,
        Value::Tiny(_) | Value::UTiny(_) => p.ty == ct::TINY,
        Value::Short(_) | Value::UShort(_) => p.ty == ct::SHORT,
        Value::Int(_) | Value::UInt(_) => p.ty == ct::LONG,
        Value::Long(_) | Value::ULong(_) => p.ty == ct::LONGLONG,
        Value::Float(_) => p.ty == ct::FLOAT,
        Value::Double(_) => p.ty == ct::DOUBLE,
        Value::Bytes(_) => ct::STRINGS.contains(&p.ty),
        Value::Date(..) => p.ty == ct::DATE,
        Value::Datetime(..) => matches!(p.ty, ct::DATETIME | ct::TIMESTAMP),
        Value::Time(..) => p.ty == ct::TIME,
    };
    let uns_ok = !matches!(v, Value::UTiny(_) | Value::UShort(_) | Value::UInt(_) | Value::ULong(_)) || p.unsigned;
    ty_ok && uns_ok && (same(&p.value, v) || (zero(&p.value) && zero(v)))
}

struct Named(&'static str, Value);
impl SimpleValue for Named {
    fn value(&self) -> &Value {
        &self.1
    }
}

#[derive(Clone)]
enum Op {
    Run { vals: Vec<Value>, query: bool, kind: u8 },
    /// a wrong number of values
    Wrong { vals: Vec<Value>, query: bool },
    Reprepare,
}

#[derive(Default)]
struct Seen {
    execs: Vec<Result<Vec<Param>, String>>,
    long: HashMap<u16, Vec<u8>>,
    long_commands: u64,
    messages: u64,
    bad: Option<String>,
}

fn run_params(link_plan: IoPlan, g: Greeting, n: usize, ops: Vec<Op>) -> Result<u64, Fail> {
    let seen = Arc::new(Mutex::new(Seen::default()));
    let s2 = seen.clone();
    let mut next_id = 40u32;
    let srv = Server::simple(g, move |cmd| {
        let mut q = s2.lock().unwrap();
        q.messages += 1;
        match cmd {
            Cmd::Prepare(_) => {
                next_id = next_id.wrapping_mul(2654435761).wrapping_add(12345);
                q.long.clear();
                Resp::Prepared { id: next_id, params: (0..n).map(|_| Col::new("?", ct::VAR_STRING)).collect(), cols: vec![], warnings: 0 }
            }
            Cmd::LongData { id, idx, data } => {
                if *id != next_id {
                    q.bad = Some(format!("long data for statement {id}, prepared was {next_id}"));
                }
                q.long_commands += 1;
                q.long.entry(*idx).or_default().extend_from_slice(data);
                Resp::None
            }
            Cmd::Execute(p) => {
                if exec_id(p) != Some(next_id) {
                    q.bad = Some(format!("execute of statement {:?}, prepared was {next_id}", exec_id(p)));
                }
                let long = std::mem::take(&mut q.long);
                q.execs.push(decode_execute(p, n, &long));
                let k = q.execs.len() as u64;
                Resp::Ok(Ok_ { affected: k, ..Ok_::default() })
            }
            _ => Resp::ok(),
        }
    });
    let link = Link::new(Box::new(srv), link_plan);
    let s3 = seen.clone();
    session(&link, move |conn| {
        Box::pin(async move {
            let mut count = 0u64;
            let mut it = ops.into_iter().peekable();
            loop {
                let mut st = must!("prepare", conn.prepare_statement("p").await);
                let mut again = false;
                for op in it.by_ref() {
                    match op {
                        Op::Reprepare => {
                            again = true;
                            break;
                        }
                        Op::Run { vals, query, kind } => {
                            count += 1;
                            let aff = macro_run(&mut st, &vals, query, kind).await?;
                            ensure!(aff == count, "answer", "execution {count} got the answer of execution {aff}");
                            let q = s3.lock().unwrap();
                            if let Some(b) = &q.bad {
                                return fail("statement-id", b.clone());
                            }
                            match q.execs.last() {
                                Some(Ok(ps)) => {
                                    ensure!(ps.len() == vals.len(), "count", "{} parameters arrived of {}", ps.len(), vals.len());
                                    for (i, (p, v)) in ps.iter().zip(&vals).enumerate() {
                                        ensure!(arrives(p, v), "value", "parameter {i} of {}: bound {}, arrived {} (type {}, unsigned {})", vals.len(), short(v), short(&p.value), p.ty, p.unsigned);
                                    }
                                }
                                Some(Err(e)) => return fail("undecodable", format!("the execute message for {} is malformed: {e}", short_row(&vals))),
                                None => return fail("answer", "no execute message arrived"),
                            }
                        }
                        Op::Wrong { vals, query } => {
                            let before = s3.lock().unwrap().messages;
                            let e = if query {
                                match st.query::<Value, Row>(&vals).await {
                                    Ok(_) => None,
                                    Err(e) => Some(e),
                                }
                            } else {
                                st.execute(&vals).await.err()
                            };
                            ensure!(matches!(e, Some(LibError::Runtime(RuntimeError::ParameterCountMismatch))), "count-accepted", "{} values for {n} parameters: {e:?}", vals.len());
                            let after = s3.lock().unwrap().messages;
                            ensure!(before == after, "count-sent", "something was sent for a refused call");
                        }
                    }
                }
                if !again {
                    break;
                }
            }
            must!("next command", conn.execute_query("x").await);
            Ok(())
        })
    })?;
    check_server(&link)?;
    let n = seen.lock().unwrap().long_commands;
    Ok(n)
}

async fn macro_run(st: &mut mysql_connector::PreparedStatement<'_>, vals: &[Value], query: bool, kind: u8) -> Result<u64, Fail> {
    macro_rules! go {
        ($v:expr, $t:ty) => {
            if query {
                let rs = must!("query", st.query::<$t, Row>($v).await);
                must!("finish", rs.finish().await).affected_rows()
            } else {
                must!("execute", st.execute($v).await).affected_rows()
            }
        };
    }
    Ok(match kind {
        0 => go!(vals, Value),
        1 => {
            let r: Vec<&Value> = vals.iter().collect();
            go!(&r, &Value)
        }
        _ => {
            let r: Vec<Named> = vals.iter().map(|v| Named("x", v.clone())).collect();
            let _ = r.first().map(|x| x.0);
            go!(&r, Named)
        }
    })
}

fn c05_inline(s: &mut Src, c: &mut Ctx) -> Res {
    let n = match s.below(6) {
        0 => s.usize(3),
        1..=3 => s.usize(20),
        4 => *s.pick(&[7usize, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257]),
        _ => s.usize(120),
    };
    let ops: Vec<Op> = (0..1 + s.usize(4))
        .map(|_| {
            let nulls = s.below(4);
            let vals = |s: &mut Src, n: usize| -> Vec<Value> {
                (0..n)
                    .map(|_| if nulls == 0 && s.chance(3, 4) { Value::Null } else { gen_value(s, false) })
                    .collect()
            };
            match s.below(8) {
                0 => {
                    let mut k = s.usize(n + 4);
                    if k == n {
                        k += 1;
                    }
                    Op::Wrong { vals: vals(s, k), query: s.bool() }
                }
                1 => Op::Reprepare,
                _ => Op::Run { vals: vals(s, n), query: s.bool(), kind: s.below(3) as u8 },
            }
        })
        .collect();
    let runs = ops.iter().filter(|o| matches!(o, Op::Run { .. })).count();
    c.nontrivial = n > 0 && runs > 0;
    if let Some(Op::Run { vals, .. }) = ops.iter().find(|o| matches!(o, Op::Run { .. })) {
        c.note(format!("{n} parameters, {runs} executions, {} operations, first: {}", ops.len(), short_row(vals)));
    }
    let g = gen_greeting(s);
    let plan = IoPlan::gen(s);
    run_params(plan, g, n, ops).map(|_| ())
}

/// totals around the size of one packet: inline, split or long data
fn c05_big(s: &mut Src, c: &mut Ctx) -> Res {
    let n = 1 + s.usize(6);
    let mut ops = Vec::new();
    let k = 1 + s.usize(2);
    for j in 0..k {
        let mut vals: Vec<Value> = (0..n).map(|_| gen_value(s, true)).collect();
        if j == 0 || s.bool() {
            // one or two large values
            let big = s.usize(n);
            let seed = s.below(1 << 30) | 1;
            let len = match s.below(4) {
                0 => MAX - 7 + s.usize(8),
                1 => {
                    // the whole message has about the size of a packet
                    let rest: u64 = vals.iter().enumerate().filter(|(i, _)| *i != big).map(|(_, v)| v.bin_len()).sum();
                    (MAX as u64 - 11 - ((n + 7) / 8) as u64 - 2 * n as u64 - rest - 4) as usize + s.usize(5) - 2
                }
                2 => MAX + s.usize(20),
                _ => *s.pick(&[MAX - 6, 2 * (MAX - 6), MAX - 7, 2 * MAX - 13, 2 * MAX]) + s.usize(3),
            };
            vals[big] = Value::Bytes(expand(seed, len));
            if s.chance(1, 3) {
                let o = s.usize(n);
                if o != big {
                    vals[o] = Value::Bytes(vec![]);
                }
            }
        }
        ops.push(Op::Run { vals, query: s.bool(), kind: s.below(2) as u8 });
    }
    c.nontrivial = true;
    if let Op::Run { vals, .. } = &ops[0] {
        c.note(format!("{k} executions, first: {}", short_row(vals)));
    }
    let g = gen_greeting(s);
    let plan = if s.chance(1, 4) { IoPlan::gen_big(s) } else { IoPlan::default() };
    let long = run_params(plan, g, n, ops)?;
    c.label(if long > 0 { "long-data" } else { "inline" });
    Ok(())
}

/// up to as many parameters as a statement can have, inline and as long data
fn c05_many(s: &mut Src, c: &mut Ctx) -> Res {
    let n = match s.below(4) {
        0 => 258 + s.usize(2000),
        1 => 1 << (8 + s.usize(9)),
        2 => *s.pick(&[32767usize, 32768, 32769, 65533, 65534, 65535]),
        _ => 258 + s.usize(65535 - 257),
    }
    .min(65535);
    let long = s.chance(1, 3);
    let pool: Vec<Value> = (0..6 + s.usize(30)).map(|_| gen_value(s, false)).collect();
    let nulls = s.below(4);
    let mut x = s.below(1 << 40) | 1;
    let mut next = |m: usize| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((x >> 33) % m as u64) as usize
    };
    let mut ops = Vec::new();
    for _ in 0..1 + s.usize(2) {
        let mut vals: Vec<Value> = (0..n)
            .map(|_| if next(4) < nulls as usize { Value::Null } else { pool[next(pool.len())].clone() })
            .collect();
        if long {
            // together beyond one packet, each of them far below
            let k = 20 + s.usize(60);
            let each = MAX / k + 1;
            for _ in 0..k {
                let i = if s.chance(1, 4) { n - 1 - s.usize(n.min(300)) } else { s.usize(n) };
                vals[i] = Value::Bytes(expand(s.below(1 << 30) | 1, each));
            }
        }
        ops.push(Op::Run { vals, query: s.bool(), kind: s.below(3) as u8 });
    }
    if s.chance(1, 3) {
        let k = if s.bool() { n % 256 } else { n - 1 };
        ops.insert(s.usize(ops.len() + 1), Op::Wrong { vals: vec![Value::Tiny(1); k], query: s.bool() });
    }
    c.nontrivial = true;
    c.note(format!("{n} parameters of {} kinds, {} operations{}", pool.len(), ops.len(), if long { ", long data" } else { "" }));
    let g = gen_greeting(s);
    let sent = run_params(IoPlan::default(), g, n, ops)?;
    c.label(if sent > 0 { "many, long-data" } else { "many, inline" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C05",
        level: "exploration",
        rule: "values of every kind at their boundaries, 0..65535 parameters, repeated and refused executions of one statement, totals around one packet with long data; non-trivial = at least one execution with parameters; oracle: an independent decoder of the execute message and of long data",
        assumptions: &["a zero TIME has no sign on the wire", "statement texts are opaque to the reference server; the number of parameters is announced by it"],
        parts: vec![part("inline", 120_000, 4_000_000, c05_inline), part("many", 700, 15_000, c05_many), part("big", 160, 5_000, c05_big)],
    }]
}
