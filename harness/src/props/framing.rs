//! C01 framing, C02 sequence numbers.
use super::results::*;
use crate::{engine::*, ensure, gen::*, mock::*, must, script::*, server::*, wire::*};
use mysql_connector::types::Value;

fn msg_len(s: &mut Src, big: bool) -> usize {
    if big {
        match s.below(3) {
            0 => *s.pick(&[MAX - 2, MAX - 1, MAX, MAX + 1, MAX + 2, 2 * MAX - 1, 2 * MAX, 2 * MAX + 1]),
            1 => *s.pick(&[1usize, 2]) * MAX + s.usize(20) - 10,
            _ => MAX - 70_000 + s.usize(140_000),
        }
    } else {
        match s.below(4) {
            0 => 1 + s.usize(40),
            1 => 1 + s.usize(3000),
            2 => *s.pick(&[1usize, 2, 250, 251, 255, 256, 257, 1023, 1024, 1025, 65534, 65535, 65536, 65537]),
            _ => 1 + s.usize(200_000),
        }
    }
}

/// ASCII text derived from a drawn seed
fn text(seed: u64, n: usize) -> String {
    let mut b = expand(seed | 1, n);
    for x in &mut b {
        *x = b' ' + (*x % 90);
    }
    String::from_utf8(b).unwrap()
}

#[derive(Clone, Debug)]
enum Msg {
    Query(usize, u64),
    Exec(usize, u64),
    Prepare(usize, u64),
    /// one parameter whose execute packet has exactly this length if inline
    Param(usize, u64),
    /// a result row whose packet has exactly this length
    Row(usize, u64),
    /// a binary result row
    BinRow(usize, u64),
    OkMsg(usize, u64),
}

fn gen_msg(s: &mut Src, big: bool) -> Msg {
    let k = s.below(7);
    let n = msg_len(s, big);
    let seed = s.below(1 << 30);
    match k {
        0 => Msg::Query(n, seed),
        1 => Msg::Exec(n, seed),
        2 => Msg::Prepare(n, seed),
        3 => Msg::Param(n, seed),
        4 => Msg::Row(n, seed),
        5 => Msg::BinRow(n, seed),
        _ => Msg::OkMsg(n, seed),
    }
}

/// length of the content such that `overhead` + length prefix + content == n (at least 1 byte of content)
fn content(n: usize, overhead: usize) -> usize {
    for pre in [1usize, 3, 4, 9] {
        if n > overhead + pre {
            let c = n - overhead - pre;
            let need = if c < 251 { 1 } else if c < 1 << 16 { 3 } else if c < 1 << 24 { 4 } else { 9 };
            if need == pre {
                return c;
            }
        }
    }
    1
}

#[derive(Clone, Copy, PartialEq)]
enum Via {
    Mock,
    MockBig,
    Tcp,
}

/// one session that ends with `disconnect`; the server must have been told so
fn drive<F>(srv: Server, plan: IoPlan, s: &mut Src, via: Via, huge: bool, f: F) -> Res
where
    F: for<'c> FnOnce(&'c mut mysql_connector::Connection) -> std::pin::Pin<Box<dyn std::future::Future<Output = Res> + 'c>>,
{
    #[cfg(all(feature = "time", feature = "tcp"))]
    if via == Via::Tcp {
        use crate::tcp::*;
        let cut = if huge { 1 << 16 } else { *s.pick(&[1usize << 30, 1 << 30, 7, 1000, 4096]) };
        let sv = serve_at(srv, cut, 1 + s.usize(200) as u8);
        let o = tcp_options(s, sv.addr);
        let r = run_tcp(async move {
            let mut conn = must!("connect", mysql_connector::Connection::connect(std::sync::Arc::new(o)).await);
            f(&mut conn).await?;
            must!("disconnect", conn.disconnect().await);
            Ok(())
        });
        let (srv, _, came) = sv.join();
        r?;
        ensure!(came, "tcp", "the connection goes elsewhere");
        ensure!(srv.bad.is_empty(), "client-protocol", "the server saw a protocol violation: {:?}", srv.bad);
        ensure!(srv.quit && srv.partial() == 0, "quit", "after disconnect: end of session seen {}, {} bytes of an unfinished message", srv.quit, srv.partial());
        return Ok(());
    }
    let _ = (s, via, huge);
    let link = Link::new(Box::new(srv), plan);
    session_quit(&link, true, f)?;
    check_server(&link)
}

fn c01(s: &mut Src, c: &mut Ctx, via: Via) -> Res {
    let big = via == Via::MockBig;
    let g = gen_greeting(s);
    let plan = if big { IoPlan::gen_big(s) } else { IoPlan::gen(s) };
    let k = if big { 1 + s.usize(2) } else { 1 + s.usize(5) };
    let huge = via == Via::Tcp && s.chance(1, 50);
    let msgs: Vec<Msg> = (0..k).map(|i| gen_msg(s, (big || huge) && i == 0)).collect();
    c.nontrivial = big || !plan.trivial() || via == Via::Tcp;
    for m in &msgs {
        let d = format!("{m:?}");
        c.label(d.split('(').next().unwrap().to_string());
    }
    c.note(format!("{msgs:?} {}", plan.show()));
    let (m2, dep) = (msgs.clone(), g.caps & cap::DEPRECATE_EOF != 0);
    let _ = dep;
    let mut at = 0usize;
    let mut long: std::collections::HashMap<u16, Vec<u8>> = Default::default();
    let srv = Server::simple(g, move |cmd| {
        let hash = |b: &[u8]| Resp::Ok(Ok_ { affected: b.len() as u64, insert_id: hash_bytes(b), ..Ok_::default() });
        let cur = m2.get(at).cloned();
        match (cmd, cur) {
            (Cmd::Query(b), _) if b == b"do 1" => Resp::Ok(Ok_ { affected: 4711, ..Ok_::default() }),
            (Cmd::Query(_), Some(Msg::Row(n, seed))) => {
                at += 1;
                Resp::rows(vec![Col::new("x", ct::BLOB)], vec![vec![Value::Bytes(expand(seed, content(n, 0)))], vec![Value::Bytes(b"z".to_vec())]])
            }
            (Cmd::Query(_), Some(Msg::OkMsg(n, seed))) => {
                at += 1;
                Resp::Ok(Ok_ { message: text(seed, content(n, 7)).into_bytes(), ..Ok_::default() })
            }
            (Cmd::Query(b), _) => {
                at += 1;
                hash(b)
            }
            (Cmd::Prepare(b), m) => {
                let (params, cols) = match m {
                    Some(Msg::Param(..)) => (vec![Col::new("?", ct::BLOB)], vec![]),
                    Some(Msg::BinRow(..)) => (vec![], vec![Col::new("x", ct::BLOB)]),
                    _ => (vec![], vec![]),
                };
                long.clear();
                // the id carries the hash of the text
                Resp::Prepared { id: hash_bytes(b) as u32, params, cols, warnings: 0 }
            }
            (Cmd::LongData { idx, data, .. }, _) => {
                long.entry(*idx).or_default().extend_from_slice(data);
                Resp::None
            }
            (Cmd::Execute(p), Some(m)) => {
                at += 1;
                match m {
                    Msg::BinRow(n, seed) => Resp::rows(vec![Col::new("x", ct::BLOB)], vec![vec![Value::Bytes(expand(seed, content(n, 2)))], vec![Value::Bytes(b"z".to_vec())]]),
                    Msg::Param(..) => match decode_execute(p, 1, &long) {
                        Ok(v) => match &v[0].value {
                            Value::Bytes(b) => hash(b),
                            x => panic!("PROPFAIL message|parameter arrived as {x:?}"),
                        },
                        Err(e) => panic!("PROPFAIL message|execute packet: {e}"),
                    },
                    _ => Resp::Ok(Ok_ { insert_id: exec_id(p).unwrap() as u64, ..Ok_::default() }),
                }
            }
            _ => Resp::ok(),
        }
    });
    drive(srv, plan, s, via, huge, move |conn| {
        Box::pin(async move {
            for m in msgs {
                match m {
                    Msg::Query(n, seed) | Msg::Exec(n, seed) => {
                        let q = text(seed, n - 1);
                        let (a, i) = if matches!(m, Msg::Exec(..)) {
                            let o = must!("execute_query", conn.execute_query(&q).await);
                            (o.affected_rows(), o.last_insert_id())
                        } else {
                            let rs = must!("query", conn.query::<Row>(&q).await);
                            let o = must!("finish", rs.finish().await);
                            (o.affected_rows(), o.last_insert_id())
                        };
                        ensure!((a, i) == (q.len() as u64, hash_bytes(q.as_bytes())), "message", "a query of {} bytes arrived as {a} bytes (or with other content)", q.len());
                    }
                    Msg::Prepare(n, seed) => {
                        let q = text(seed, n - 1);
                        let mut st = must!("prepare", conn.prepare_statement(&q).await);
                        let o = must!("execute", st.execute::<Value>(&[]).await);
                        ensure!(o.last_insert_id() == hash_bytes(q.as_bytes()) as u32 as u64, "message", "a statement text of {} bytes arrived changed", q.len());
                    }
                    Msg::Param(n, seed) => {
                        // 14 bytes before the value: command, id, flags, count, bitmap, bound flag, type
                        let b = expand(seed | 1, content(n, 14));
                        let (l, h) = (b.len() as u64, hash_bytes(&b));
                        let mut st = must!("prepare", conn.prepare_statement("p").await);
                        let o = must!("execute", st.execute(&[Value::Bytes(b)]).await);
                        ensure!(o.affected_rows() == l && o.last_insert_id() == h, "message", "a parameter of {l} bytes arrived as {} bytes (or with other content)", o.affected_rows());
                    }
                    Msg::Row(n, seed) | Msg::BinRow(n, seed) => {
                        let bin = matches!(m, Msg::BinRow(..));
                        let want = expand(seed, content(n, if bin { 2 } else { 0 }));
                        let rows = if bin {
                            let mut st = must!("prepare", conn.prepare_statement("r").await);
                            let mut rs = must!("query", st.query::<Value, Row>(&[]).await);
                            must!("rows", rs.collect().await)
                        } else {
                            let mut rs = must!("query", conn.query::<Row>("r").await);
                            must!("rows", rs.collect().await)
                        };
                        ensure!(rows.len() == 2, "message", "{} rows instead of 2", rows.len());
                        ensure!(rows[0].len() == 1 && matches!(&rows[0][0], Value::Bytes(b) if *b == want), "message", "a row packet of {n} bytes was reassembled to {}", short_row(&rows[0]));
                        ensure!(matches!(&rows[1][0], Value::Bytes(b) if b == b"z"), "message", "the row after a packet of {n} bytes is {}", short_row(&rows[1]));
                    }
                    Msg::OkMsg(n, seed) => {
                        let want = text(seed, content(n, 7));
                        let o = must!("execute_query", conn.execute_query("o").await);
                        ensure!(o.message() == Some(&want), "message", "a message of {} bytes arrived as {:?} bytes", want.len(), o.message().map(|m| m.len()));
                    }
                }
                let o = must!("next command", conn.execute_query("do 1").await);
                ensure!(o.affected_rows() == 4711, "next-command", "the next command got another answer");
            }
            Ok(())
        })
    })
}
#[cfg(all(feature = "time", feature = "tcp"))]
fn c01_tcp(s: &mut Src, c: &mut Ctx) -> Res {
    c01(s, c, Via::Tcp)
}
#[cfg(not(all(feature = "time", feature = "tcp")))]
fn c01_tcp(s: &mut Src, c: &mut Ctx) -> Res {
    c01_small(s, c)
}
fn c01_small(s: &mut Src, c: &mut Ctx) -> Res {
    c01(s, c, Via::Mock)
}
fn c01_big(s: &mut Src, c: &mut Ctx) -> Res {
    c01(s, c, Via::MockBig)
}

/// login messages: long user and database names, every stream behaviour
fn c01_login(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_greeting(s);
    let mut plan = IoPlan::gen(s);
    if s.chance(1, 2) {
        plan.buffered = Some(usize::MAX);
    }
    let n = if s.chance(1, 8) { MAX - 200 + s.usize(400) } else { s.usize(2000) };
    let seed = s.below(1 << 30);
    if n > 100_000 && matches!(plan.write, Chunk::One | Chunk::UpTo(_)) {
        plan.write = Chunk::UpTo(65_000);
    }
    c.nontrivial = !plan.trivial() || n > 2000;
    c.note(format!("user of {n} bytes, {}", plan.show()));
    let user = text(seed, n);
    let u2 = user.clone();
    let link = Link::new(Box::new(Server::simple(g, |_| Resp::ok())), plan);
    let l2 = link.clone();
    let r = run(async move {
        let mut o = options::<false>(&l2);
        o.user = u2;
        o.db_name = Some("d".into());
        let mut conn = must!("connect", mysql_connector::Connection::connect(std::sync::Arc::new(o)).await);
        must!("command", conn.execute_query("x").await);
        Ok(())
    });
    match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("connect")),
    }
    check_server(&link)?;
    let got = link.with::<Server, _>(|s| s.login.clone().unwrap().user);
    ensure!(got == user.as_bytes(), "message", "the login request arrived changed");
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02_script(s: &mut Src, c: &mut Ctx) -> Res {
    let sc = Script::gen(s, 4);
    let plan = IoPlan::gen(s);
    let link = sc.link(plan.clone());
    let clean = match run(sc.run(&link)) {
        Ok(t) => t,
        Err(_) => return Err(hang("clean conversation")),
    };
    if let Some((k, d)) = &clean.fatal {
        return fail("unexpected-error", format!("correct sequence numbers were rejected: {k:?} {d}"));
    }
    let ends = link.with::<Server, _>(|x| x.sess.ends.clone());
    let sent = ends.len() as u64;
    c.note(format!("{} packets; {}", sent, sc.show()));
    c.nontrivial = true;
    // every packet in turn (up to a bound), one wrong number each
    let tries = sent.min(24);
    for j in 0..tries {
        let k = if sent <= 24 { j } else { s.below(sent) };
        let d = *s.pick(&[1u8, 255, 2, 128, 16]);
        let d = if s.chance(1, 3) { 1 + s.below(255) as u8 } else { d };
        let link = sc.link(plan.clone());
        link.with::<Server, _>(|x| x.sess.bad_seq = Some((k, d)));
        if k == 0 {
            // the greeting is already queued: patch it
            let mut l = link.lock();
            if let Some(Seg::Data(v, _)) = l.out.segs.front_mut() {
                v[3] = v[3].wrapping_add(d);
            }
        }
        c.evals += 1;
        let t = match run(sc.run(&link)) {
            Ok(t) => t,
            Err(_) => return Err(hang("conversation with a wrong sequence number")),
        };
        prefix(&clean, &t)?;
        // everything that needs the packet must be missing
        let start = if k == 0 { 0 } else { ends[k as usize - 1] };
        let usable = clean.obs.iter().filter(|o| o.read <= start).count();
        ensure!(t.obs.len() <= usable, "accepted", "packet {k} (of {sent}) carries a sequence number off by {d}, but {:?} was delivered", t.obs.last().map(|o| &o.what));
        match &t.fatal {
            Some((Kind::OutOfSync | Kind::Protocol | Kind::Io, _)) => {}
            x => return fail("accepted", format!("packet {k} (of {sent}) carries a sequence number off by {d}: the conversation ended with {x:?}")),
        }
        ensure!(t.obs.len() == usable, "early", "packet {k} is wrong, but a call that does not need it failed: {:?}", t.fatal);
    }
    Ok(())
}

/// wrap-around in long responses, and a wrong number far into one
fn c02_long(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_greeting(s);
    let n = 200 + s.usize(700);
    let binary = s.bool();
    let wrong = s.bool();
    let at = s.usize(n);
    let d = if s.bool() { 1 + s.below(255) as u8 } else { *s.pick(&[1u8, 255, 128]) };
    let reading = s.below(3);
    c.nontrivial = true;
    c.note(format!("{n} rows binary={binary} wrong={} off by {d} reading={reading}", if wrong { at.to_string() } else { "none".into() }));
    let cols = vec![Col::new("x", ct::LONG)];
    let rows: Vec<Row> = (0..n).map(|i| vec![Value::Int(i as i32)]).collect();
    let rs = Resp::rows(cols.clone(), rows);
    let mut srv = Server::simple(g.clone(), move |cmd| match cmd {
        Cmd::Query(q) if q == b"do 1" => Resp::ok(),
        Cmd::Query(_) | Cmd::Execute(_) => rs.clone(),
        Cmd::Prepare(_) => Resp::Prepared { id: 1, params: vec![], cols: cols.clone(), warnings: 0 },
        _ => Resp::None,
    });
    if wrong {
        // packets before row `at`: greeting, login answer, [prepare: 1 + 1 (+eof)], count, column (+eof)
        let eof = (g.caps & cap::DEPRECATE_EOF == 0) as u64;
        let k = 2 + if binary { 2 + eof } else { 0 } + 2 + eof + at as u64;
        srv.sess.bad_seq = Some((k, d));
    }
    let link = Link::new(Box::new(srv), IoPlan::default());
    session(&link, move |conn| {
        Box::pin(async move {
            macro_rules! go {
                ($rs:expr) => {{
                    let mut rs = $rs;
                    match reading {
                        0 => {
                            let mut got = 0;
                            let err = loop {
                                match rs.next().await {
                                    Ok(Some(r)) => {
                                        ensure!(same_row(&r, &[Value::Int(got as i32)]), "value", "row {got} is {}", short_row(&r));
                                        got += 1;
                                    }
                                    Ok(None) => break None,
                                    Err(e) => break Some(e),
                                }
                            };
                            let want = if wrong { at } else { n };
                            ensure!(got == want, "accepted", "{got} rows delivered, expected {want}");
                            (err, got)
                        }
                        1 => match rs.collect().await {
                            Ok(v) => (None, v.len()),
                            Err(e) => (Some(e), 0),
                        },
                        _ => match rs.finish().await {
                            Ok(_) => (None, n),
                            Err(e) => (Some(e), 0),
                        },
                    }
                }};
            }
            let (err, got) = if binary {
                let mut st = must!("prepare", conn.prepare_statement("p").await);
                go!(must!("query", st.query::<Value, Row>(&[]).await))
            } else {
                go!(must!("query", conn.query::<Row>("q").await))
            };
            match (wrong, err) {
                (false, None) => {
                    ensure!(got == n, "row-count", "{got} of {n} rows");
                    must!("next command", conn.execute_query("do 1").await);
                    Ok(())
                }
                (false, Some(e)) => Err(e2f("reading correctly numbered rows", &e)),
                (true, Some(e)) if kind(&e) != Kind::Server && kind(&e) != Kind::TimedOut => Ok(()),
                (true, e) => fail("accepted", format!("a wrong sequence number at row {at} of {n} ended in {e:?}")),
            }
        })
    })
}

/// packets of more than 16 MiB: every chunk carries its own sequence number
fn c02_big(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_greeting(s);
    let eof = (g.caps & cap::DEPRECATE_EOF == 0) as u64;
    let kind_ = s.below(3); // text row, binary row, message
    let whole = 1 + s.usize(2);
    let len = whole * MAX + *s.pick(&[0usize, 0, 1, 2, 500]);
    let chunks = (len / MAX + 1) as u64;
    let before = if kind_ == 2 { 0 } else { s.usize(300) };
    let overhead = [0usize, 2, 7][kind_ as usize];
    let seed = s.u64();
    let n = content(len, overhead);
    // the chunk whose number is wrong (or none); `chunks` is the packet after
    let wrong = if s.chance(1, 5) { None } else { Some(s.below(chunks + (kind_ != 2) as u64)) };
    let d = if s.bool() { *s.pick(&[1u8, 255, 2, 128]) } else { 1 + s.below(255) as u8 };
    c.nontrivial = true;
    c.label(format!("{}-{}", ["text", "binary", "message"][kind_ as usize], match wrong {
        None => "clean",
        Some(k) if k + 1 < chunks => "full chunk",
        Some(k) if k < chunks => "last chunk",
        _ => "packet after",
    }));
    c.note(format!("packet of {len} bytes in {chunks} chunks after {before} rows; wrong chunk {wrong:?} off by {d}"));
    let mut rows: Vec<Row> = (0..before).map(|i| vec![Value::Bytes(vec![b'0' + (i % 10) as u8])]).collect();
    rows.push(vec![Value::Bytes(expand(seed, n))]);
    rows.push(vec![Value::Bytes(b"z".to_vec())]);
    let want = rows.clone();
    let cols = vec![Col::new("x", ct::BLOB)];
    let rs = Resp::rows(cols.clone(), rows);
    let msg = if kind_ == 2 { text(seed, n) } else { String::new() };
    let msg2 = msg.clone();
    let mut srv = Server::simple(g, move |cmd| match cmd {
        Cmd::Query(q) if q == b"do 1" => Resp::ok(),
        Cmd::Query(_) if kind_ == 2 => Resp::Ok(Ok_ { message: msg2.clone().into_bytes(), ..Ok_::default() }),
        Cmd::Query(_) | Cmd::Execute(_) => rs.clone(),
        Cmd::Prepare(_) => Resp::Prepared { id: 1, params: vec![], cols: cols.clone(), warnings: 0 },
        _ => Resp::None,
    });
    if let Some(w) = wrong {
        // greeting, login answer, then the response
        let first = 2 + match kind_ {
            0 => 2 + eof + before as u64,
            1 => 2 + eof + 2 + eof + before as u64,
            _ => 0,
        };
        srv.sess.bad_seq = Some((first + w, d));
    }
    let link = Link::new(Box::new(srv), IoPlan::default());
    session(&link, move |conn| {
        Box::pin(async move {
            macro_rules! go {
                ($rs:expr) => {{
                    let mut rs = $rs;
                    let mut got = 0;
                    let err = loop {
                        match rs.next().await {
                            Ok(Some(r)) => {
                                ensure!(got < want.len() && same_row(&r, &want[got]), "value", "row {got} is {}", short_row(&r));
                                got += 1;
                            }
                            Ok(None) => break None,
                            Err(e) => break Some(e),
                        }
                    };
                    let ok = match wrong {
                        None => want.len(),
                        Some(k) if k < chunks => before,
                        Some(_) => before + 1,
                    };
                    ensure!(got == ok, "accepted", "{got} rows delivered, expected {ok}");
                    err
                }};
            }
            let err = match kind_ {
                0 => go!(must!("query", conn.query::<Row>("q").await)),
                1 => {
                    let mut st = must!("prepare", conn.prepare_statement("p").await);
                    go!(must!("query", st.query::<Value, Row>(&[]).await))
                }
                _ => match conn.execute_query("q").await {
                    Ok(o) => {
                        ensure!(wrong.is_none(), "accepted", "chunk {wrong:?} of an OK packet is off by {d}, but the packet was accepted");
                        ensure!(o.message() == Some(&msg), "value", "a message of {} bytes arrived as {:?} bytes", msg.len(), o.message().map(|m| m.len()));
                        None
                    }
                    Err(e) => Some(e),
                },
            };
            match (wrong, err) {
                (None, None) => {
                    must!("next command", conn.execute_query("do 1").await);
                    Ok(())
                }
                (None, Some(e)) => Err(e2f("reading correctly numbered chunks", &e)),
                (Some(_), Some(e)) if kind(&e) != Kind::Server && kind(&e) != Kind::TimedOut => Ok(()),
                (Some(k), e) => fail("accepted", format!("a wrong sequence number at chunk {k} of {chunks} ended in {e:?}")),
            }
        })
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "commands, parameters, rows and messages of chosen exact packet lengths through a fragmenting/delaying/buffering stream or a real TCP socket, the session ends with disconnect; the server answers with length and hash of what it reassembled; non-trivial = non-trivial stream behaviour or a message around a multiple of 2^24-1",
            assumptions: &["messages up to 2 packets of 16 MiB and a bit"],
            parts: vec![part("small", 12_000, 400_000, c01_small), part("big", 220, 4_000, c01_big), part("login", 4_000, 100_000, c01_login), part("tcp", 300, 10_000, c01_tcp)],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "a generated conversation is run cleanly and then once per server packet (up to 24) with that packet's sequence number altered; long responses wrap around; each chunk of a packet of 16-32 MiB in turn; every case is non-trivial",
            assumptions: &[],
            parts: vec![part("script", 6_000, 200_000, c02_script), part("long", 4_000, 100_000, c02_long), part("big", 120, 2_000, c02_big)],
        },
    ]
}
