//! C12: arbitrary server input.
use super::results::*;
use crate::{alloc, crypto::*, engine::*, ensure, gen::*, mock::*, script::*, server::*, wire::*};
use mysql_connector::types::{AuthPlugin, Value};
use std::{sync::Arc, time::Duration};

fn lying_numbers(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        0 => vec![0xfb],
        1 => vec![0xfc, 0xff, 0xff],
        2 => vec![0xfd, 0xff, 0xff, 0xff],
        3 => vec![0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        4 => vec![0xfe, 0, 0, 0, 0, 0, 0, 0, 0x80],
        5 => {
            let mut v = vec![0xfe];
            v.extend_from_slice(&s.u64().to_le_bytes());
            v
        }
        6 => {
            let mut v = vec![0xfd];
            v.extend_from_slice(&(s.below(1 << 24) as u32).to_le_bytes()[..3]);
            v
        }
        _ => vec![0xff, 0xff],
    }
}

/// change the payload of a packet
fn mutate(s: &mut Src, p: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = p.to_vec();
    match s.below(9) {
        0 => {
            for _ in 0..1 + s.usize(4) {
                if !v.is_empty() {
                    let i = s.usize(v.len());
                    v[i] = if s.bool() { *s.pick(&[0u8, 1, 2, 4, 8, 12, 0x7f, 0x80, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]) } else { s.below(256) as u8 };
                }
            }
            (v, "bytes changed")
        }
        1 => {
            v.truncate(s.usize(p.len() + 1));
            (v, "cut short")
        }
        2 => {
            let k = 1 + s.usize(40);
            v.extend(s.blob(k));
            (v, "extended")
        }
        3 => (s.bytes(60), "replaced"),
        4 => {
            let k = s.usize(400);
            (s.blob(k), "replaced by a blob")
        }
        5 | 6 => {
            // a length or count that lies
            let x = lying_numbers(s);
            let i = s.usize(v.len() + 1);
            let cut = s.usize(4).min(v.len() - i);
            v.splice(i..i + cut, x);
            (v, "number altered")
        }
        7 => {
            if !v.is_empty() {
                v[0] = *s.pick(&[0u8, 1, 0xfb, 0xfe, 0xff, 0x0a, 2, 3, 4, 0xfc, 0xfd]);
            }
            if s.bool() {
                v.truncate(1 + s.usize(12));
            }
            (v, "first byte changed")
        }
        _ => {
            let i = s.usize(v.len() + 1);
            let j = i + s.usize(v.len() - i + 1);
            if s.bool() {
                v.drain(i..j);
            } else {
                let x = v[i..j].to_vec();
                v.splice(i..i, x);
            }
            (v, "spliced")
        }
    }
}

fn framed(p: &[u8], seq: u8) -> Vec<u8> {
    let mut b = (p.len() as u32).to_le_bytes()[..3].to_vec();
    b.push(seq);
    b.extend_from_slice(p);
    b
}

/// memory allowed for what was received; `honest`: no packet header lies about the length
fn check_memory(received: u64, honest: bool) -> Res {
    // one announced packet may be allocated before it is received
    let base = if honest { 3 << 20 } else { (3 << 20) + 2 * (16 << 20) };
    let allowed = base + 400 * received;
    let peak = alloc::peak() as u64;
    ensure!(peak <= allowed, "memory", "{peak} bytes were in use although only {received} bytes had been received");
    Ok(())
}

fn cpu_guard(t0: u64, what: &str) -> Res {
    let used = cpu_ms() - t0;
    ensure!(used < 20_000, "cpu", "{what} took {used} ms of CPU time");
    Ok(())
}

fn c12_mutated(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sc = Script::gen(s, 4);
    sc.timeout = Duration::from_millis(50);
    // how often each packet is altered
    let focus = s.below(4);
    let first = match focus {
        0 => s.below(3),
        1 => s.below(6),
        _ => s.below(40),
    };
    let mut left = 1 + s.below(3);
    let lie = s.chance(1, 12);
    // the closure draws from its own tape-derived source
    let mut seeds: Vec<u64> = (0..4).map(|_| s.below(1 << 40)).collect();
    let notes = Arc::new(std::sync::Mutex::new(Vec::new()));
    let n2 = notes.clone();
    let m: Mutate = Box::new(move |k, p, seq| {
        if k < first || left == 0 {
            return None;
        }
        left -= 1;
        let seed = seeds.pop().unwrap_or(1);
        let mut s = Src::random(seed);
        let s = &mut s;
        if lie {
            let mut b = framed(p, seq);
            let x = s.usize(3);
            b[x] = s.below(256) as u8;
            n2.lock().unwrap().push(format!("packet {k}: header lies"));
            return Some(b);
        }
        let (v, how) = mutate(s, p);
        n2.lock().unwrap().push(format!("packet {k}: {how}"));
        if v.len() >= MAX {
            return None;
        }
        Some(match s.below(20) {
            0 => {
                let mut b = framed(&v, seq);
                b.extend(framed(&v, seq.wrapping_add(1)));
                b
            }
            1 => Vec::new(),
            _ => framed(&v, seq),
        })
    });
    let close = s.bool();
    let plan = IoPlan::gen(s);
    let link = sc.link_with(plan.clone(), Some(m));
    link.lock().closed = close;
    alloc::mark();
    let t0 = cpu_ms();
    let t = match crate::mock::run(sc.run(&link)) {
        Ok(t) => t,
        Err(_) => return Err(hang("a call after strange server input")),
    };
    let received = link.lock().read_total;
    let notes = notes.lock().unwrap().clone();
    c.nontrivial = !notes.is_empty();
    if let Some((k, _)) = &t.fatal {
        c.label(format!("ended-{k:?}"));
    } else {
        c.label("survived");
    }
    c.note(format!("{}; {}; {} calls completed, then {:?}", notes.join(", "), sc.show(), t.obs.len(), t.fatal.as_ref().map(|f| &f.0)));
    check_memory(received, !lie)?;
    cpu_guard(t0, "the conversation")
}

/// one packet of a conversation, in every way that is one cut or one byte away
fn c12_near(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sc = Script::gen(s, 3);
    sc.timeout = Duration::from_millis(50);
    let plan = IoPlan::default();
    let seen: Arc<std::sync::Mutex<Vec<Vec<u8>>>> = Default::default();
    let s2 = seen.clone();
    let link = sc.link_with(plan.clone(), Some(Box::new(move |_, p, _| {
        s2.lock().unwrap().push(p.to_vec());
        None
    })));
    if crate::mock::run(sc.run(&link)).is_err() {
        return Err(hang("clean conversation"));
    }
    let packets = seen.lock().unwrap().clone();
    let k = match s.below(4) {
        0 => 0,
        1 => s.usize(packets.len().min(4)),
        _ => s.usize(packets.len()),
    };
    let p = &packets[k];
    let mut ways: Vec<(Vec<u8>, String)> = Vec::new();
    let near = p.len().min(130);
    for l in 0..near {
        ways.push((p[..l].to_vec(), format!("cut to {l}")));
        if l < 60 {
            ways.push((p[..p.len() - 1 - l].to_vec(), format!("cut by {}", l + 1)));
            ways.push((p[l + 1..].to_vec(), format!("without the first {}", l + 1)));
        }
        let mut v = p.to_vec();
        for b in [0u8, 1, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff] {
            v[l] = b;
            ways.push((v.clone(), format!("byte {l} set to {b}")));
        }
        for d in [1, 255] {
            v[l] = p[l].wrapping_add(d);
            ways.push((v.clone(), format!("byte {l} set to {}", v[l])));
        }
    }
    for b in [0u8, 1, 0xfb, 0xff] {
        for n in [1, 2, 3, 9] {
            let mut v = p.to_vec();
            v.resize(v.len() + n, b);
            ways.push((v, format!("followed by {n} bytes {b}")));
        }
    }
    c.nontrivial = true;
    c.note(format!("packet {k} of {} ({} bytes) altered in {} ways; {}", packets.len(), p.len(), ways.len(), sc.show()));
    for (v, how) in ways {
        let v2 = v.clone();
        let link = sc.link_with(plan.clone(), Some(Box::new(move |j, _, seq| (j == k as u64).then(|| framed(&v2, seq)))));
        link.lock().closed = true;
        alloc::mark();
        c.evals += 1;
        if crate::mock::run(sc.run(&link)).is_err() {
            return fail("hang", format!("packet {k} {how} ({v:02x?}): a call waits for ever"));
        }
        let received = link.lock().read_total;
        check_memory(received, true)?;
    }
    Ok(())
}

/// a peer that sends whatever it likes, a packet sequence per client message
struct Noise {
    src: Src,
    greeting: Option<Vec<u8>>,
    raw: bool,
    seq: u8,
    buf: Vec<u8>,
    total: u64,
}
impl Noise {
    fn packet(&mut self) -> Vec<u8> {
        let s = &mut self.src;
        match s.below(10) {
            0 => s.bytes(30),
            1 => Ok_::default().packet(0, 0),
            2 => Ok_::default().packet(0xfe, 0),
            3 => vec![0xfe, 0, 0, 2, 0],
            4 => gen_err(s).packet(),
            5 => {
                let k = s.below(4);
                let mut v = Vec::new();
                put_lenenc(&mut v, k);
                v
            }
            6 => gen_col(s).packet(),
            7 => {
                let k = s.usize(80);
                s.blob(k)
            }
            8 => prepare_ok(s.below(3) as u32, s.below(3) as u16, s.below(3) as u16, 0),
            _ => {
                let mut b = vec![*s.pick(&[0u8, 1, 0xfb, 0xfe, 0xff, 10])];
                b.extend(s.bytes(12));
                b
            }
        }
    }
    fn burst(&mut self, out: &mut Out) {
        if self.total > 20_000 {
            out.seg(Seg::Eof);
            return;
        }
        let n = 1 + self.src.usize(6);
        for _ in 0..n {
            if self.raw {
                let k = self.src.usize(40);
                let b = self.src.blob(k);
                self.total += b.len() as u64;
                out.bytes(b);
            } else {
                let p = self.packet();
                let b = framed(&p, self.seq);
                self.total += b.len() as u64;
                self.seq = self.seq.wrapping_add(1);
                out.bytes(b);
            }
        }
    }
}
impl Peer for Noise {
    fn start(&mut self, out: &mut Out) {
        match self.greeting.take() {
            Some(g) => {
                out.bytes(framed(&g, 0));
            }
            None => self.burst(out),
        }
    }
    fn input(&mut self, bytes: &[u8], out: &mut Out) {
        self.buf.extend_from_slice(bytes);
        loop {
            if self.buf.len() < 4 {
                return;
            }
            let n = self.buf[0] as usize | (self.buf[1] as usize) << 8 | (self.buf[2] as usize) << 16;
            if self.buf.len() < n + 4 {
                return;
            }
            self.seq = self.buf[3].wrapping_add(1);
            self.buf.drain(..n + 4);
            self.burst(out);
        }
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

fn c12_noise(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sc = Script::gen(s, 4);
    sc.timeout = Duration::from_millis(50);
    let raw = s.chance(1, 8);
    let mut greeting = None;
    let kind = s.below(6);
    if kind > 0 {
        let mut g = sc.greeting.packet();
        if kind == 5 {
            g = mutate(s, &g).0;
        }
        greeting = Some(g);
    }
    let peer = Noise { src: Src::random(s.below(1 << 40)), greeting, raw, seq: 0, buf: vec![], total: 0 };
    let link = Link::new(Box::new(peer), IoPlan::default());
    alloc::mark();
    let t0 = cpu_ms();
    let t = match crate::mock::run(sc.run(&link)) {
        Ok(t) => t,
        Err(_) => return Err(hang("a call after strange server input")),
    };
    let received = link.lock().read_total;
    c.nontrivial = true;
    c.label(if t.stopped { "no-connection" } else { "connected" });
    c.note(format!("{} random {}; login {:?}; {} calls completed, then {:?}", received, if raw { "bytes" } else { "packets" }, sc.auth, t.obs.len(), t.fatal.as_ref().map(|f| &f.0)));
    check_memory(received, !raw)?;
    cpu_guard(t0, "the conversation")
}

/// well-formed login messages in any order, with challenges of any length
fn c12_login(s: &mut Src, c: &mut Ctx) -> Res {
    use super::login::{gen_hostile, HKEY};
    let mut h = gen_hostile(s, true);
    if s.bool() {
        let mut sw = vec![0xfe];
        sw.extend_from_slice(s.pick(&["caching_sha2_password", "caching_sha2_password", "mysql_native_password", "mysql_clear_password"]).as_bytes());
        sw.push(0);
        let n = *s.pick(&[0usize, 0, 1, 2, 8, 19, 20, 21, 40, 300]);
        sw.extend(s.bytes(n));
        let mut key = vec![1];
        key.extend(key_of(HKEY).pem(s.bool(), 64, "\n"));
        h.batches = vec![vec![sw], vec![vec![1, 4]], vec![key], vec![Ok_::default().packet(0, 0)]];
        if s.chance(1, 4) {
            let at = s.usize(h.batches.len());
            let b = &mut h.batches[at][0];
            *b = mutate(s, b).0;
        }
    }
    c.nontrivial = h.batches.len() > 1;
    c.note(h.show());
    alloc::mark();
    let t0 = cpu_ms();
    let (_, _, r, _) = h.run(gen_greeting(s))?;
    c.label(if r.is_ok() { "connected" } else { "no-connection" });
    cpu_guard(t0, "the login")
}

/// a login that answers the request for a key with something else
fn c12_key(s: &mut Src, c: &mut Ctx) -> Res {
    let k = s.pick(&[336usize, 344, 400, 512, 520, 1024, 1025, 2048]);
    let key = keys().iter().find(|x| x.bits >= *k).unwrap();
    let pk8 = s.bool();
    let mut der = if pk8 { key.pkcs8() } else { key.pkcs1() };
    let kind = s.below(7);
    let mut armor = (if pk8 { "PUBLIC KEY" } else { "RSA PUBLIC KEY" }).to_string();
    match kind {
        0 | 1 => der = mutate(s, &der).0,
        2 => {
            // numbers of any size and sign
            let num = |s: &mut Src| {
                let n = match s.below(4) {
                    0 => s.usize(3),
                    1 => s.usize(70),
                    2 => s.usize(600),
                    _ => s.usize(40_000),
                };
                let mut b = s.blob(n);
                if s.bool() && !b.is_empty() {
                    b[0] |= 0x80;
                }
                tlv(2, &b)
            };
            let mut body = num(s);
            body.extend(num(s));
            der = tlv(0x30, &body);
            if pk8 {
                let mut bits = vec![0u8];
                bits.extend(der);
                let mut x = tlv(0x30, &[6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0]);
                x.extend(tlv(3, &bits));
                der = tlv(0x30, &x);
            }
        }
        3 => armor = s.pick(&["PUBLIC", "RSA PRIVATE KEY", "", "-----", "CERTIFICATE"]).to_string(),
        _ => {}
    }
    let width = *s.pick(&[64usize, 1, 76, 100_000]);
    let mut text = pem(&armor, &der, width, *s.pick(&["\n", "\r\n"]));
    if kind >= 4 {
        text = mutate(s, &text).0;
    }
    let n = text.len();
    let mut step = 0;
    let mut g = Greeting { plugin: "caching_sha2_password".into(), ..Greeting::default() };
    g.caps |= cap::DEPRECATE_EOF;
    let srv = Server::new(
        g,
        Box::new(move |_, _, s, out| {
            step += 1;
            match step {
                1 => s.send(out, &[1, 4]),
                2 => {
                    let mut p = vec![1];
                    p.extend_from_slice(&text);
                    s.send(out, &p);
                }
                _ => {
                    let p = Ok_::default().packet(0, s.caps);
                    s.send(out, &p);
                    return true;
                }
            }
            false
        }),
        Box::new(|_, s, out| s.respond(out, &Resp::ok(), false, false)),
    );
    let link = Link::new(Box::new(srv), IoPlan::default());
    let l2 = link.clone();
    let pw = s.string(30);
    alloc::mark();
    let t0 = cpu_ms();
    let r = match crate::mock::run(async move {
        let mut o = options::<false>(&l2);
        o.auth_plugin = Some(AuthPlugin::Sha2);
        o.password = pw.replace('\0', "x");
        o.timeout = Duration::from_millis(50);
        mysql_connector::Connection::connect(Arc::new(o)).await.map(|_| ())
    }) {
        Ok(r) => r,
        Err(_) => return Err(hang("connect with a strange key")),
    };
    c.nontrivial = true;
    c.label(if r.is_ok() { "accepted" } else { "refused" });
    c.note(format!("key text of {n} bytes, variation {kind}: {}", if r.is_ok() { "connected".into() } else { format!("{:?}", kind_of(&r)) }));
    let received = link.lock().read_total;
    check_memory(received, true)?;
    cpu_guard(t0, "connecting")
}
fn kind_of(r: &Result<(), mysql_connector::Error>) -> Option<Kind> {
    r.as_ref().err().map(kind)
}

/// cells of every type with arbitrary content in both protocols, read as plain values
fn c12_cells(s: &mut Src, c: &mut Ctx) -> Res {
    let g = gen_greeting(s);
    let n = 1 + s.usize(4);
    let cols: Vec<Col> = (0..n)
        .map(|_| {
            let mut x = gen_col(s);
            if s.chance(1, 6) {
                x.ty = if s.bool() { *s.pick(ct::ALL) } else { s.below(256) as u8 };
            }
            x
        })
        .collect();
    let binary = s.bool();
    let rows: Vec<Vec<u8>> = (0..1 + s.usize(3))
        .map(|_| {
            let mut b = Vec::new();
            if binary {
                b.push(0);
                let k = (n + 9) / 8;
                b.extend(if s.bool() { vec![0; k] } else { s.blob(k) });
                if s.chance(1, 4) {
                    b.extend(s.bytes(40));
                } else {
                    for c in &cols {
                        match c.ty {
                            ct::DATE | ct::DATETIME | ct::TIMESTAMP | ct::TIME => {
                                let l = *s.pick(&[0u8, 4, 7, 8, 11, 12, 1, 5, 255]);
                                b.push(l);
                                b.extend(if s.chance(1, 3) { vec![0xff; l.min(12) as usize] } else { s.blob(l.min(12) as usize) });
                            }
                            ct::TINY => b.extend(s.blob(1)),
                            ct::SHORT | ct::YEAR => b.extend(s.blob(2)),
                            ct::LONG | ct::INT24 | ct::FLOAT => b.extend(s.blob(4)),
                            ct::LONGLONG | ct::DOUBLE => b.extend(s.blob(8)),
                            _ => {
                                if s.chance(1, 4) {
                                    b.extend(lying_numbers(s))
                                } else {
                                    let v = s.bytes(10);
                                    put_lenstr(&mut b, &v)
                                }
                            }
                        }
                    }
                }
            } else {
                for c in &cols {
                    match s.below(12) {
                        0 => b.push(0xfb),
                        1 => b.extend(lying_numbers(s)),
                        _ => {
                            let t = gen_digits(s, c.ty);
                            put_lenstr(&mut b, &t)
                        }
                    }
                }
            }
            if s.chance(1, 10) {
                let k = s.usize(b.len() + 1);
                b.truncate(k);
            }
            // these would be other packets, not rows
            if matches!(b.first(), Some(0xfe | 0xff)) {
                b[0] = 0xfd;
            }
            b
        })
        .collect();
    c.nontrivial = true;
    c.note(format!("{} protocol, types {:?}, rows {:?}", if binary { "binary" } else { "text" }, cols.iter().map(|c| c.ty).collect::<Vec<_>>(), rows.iter().map(|r| String::from_utf8_lossy(r).into_owned()).collect::<Vec<_>>()));
    let old = g.caps & cap::DEPRECATE_EOF == 0;
    let mut packets = vec![vec![n as u8]];
    packets.extend(cols.iter().map(|c| c.packet()));
    if old {
        packets.push(vec![0xfe, 0, 0, 2, 0]);
    }
    packets.extend(rows.iter().cloned());
    packets.push(if old { vec![0xfe, 0, 0, 2, 0] } else { Ok_::default().packet(0xfe, 0) });
    let cc = cols.clone();
    let srv = Server::simple(g, move |cmd| match cmd {
        Cmd::Query(q) if q == b"do 1" => Resp::Ok(Ok_ { affected: 4711, ..Ok_::default() }),
        Cmd::Query(_) | Cmd::Execute(_) => Resp::Raw(packets.clone()),
        Cmd::Prepare(_) => Resp::Prepared { id: 1, params: vec![], cols: cc.clone(), warnings: 0 },
        _ => Resp::None,
    });
    let link = Link::new(Box::new(srv), IoPlan::default());
    alloc::mark();
    session(&link, move |conn| {
        Box::pin(async move {
            let mut got = 0;
            let mut calls = 0;
            macro_rules! go {
                ($rs:expr) => {
                    match $rs {
                        Ok(mut rs) => loop {
                            match rs.next().await {
                                Ok(None) => break,
                                Ok(Some(r)) => {
                                    got += 1;
                                    uses(&r);
                                }
                                Err(e) => {
                                    ensure!(kind(&e) != Kind::TimedOut, "wedged", "reading rows waits for data the server never announced");
                                    if kind(&e) == Kind::OutOfSync {
                                        break;
                                    }
                                }
                            }
                            calls += 1;
                            if calls > 20 {
                                break;
                            }
                            ensure!(got <= 3, "endless", "more rows than were sent");
                        },
                        Err(e) => ensure!(kind(&e) != Kind::TimedOut, "wedged", "the query waits for data the server never announced"),
                    }
                };
            }
            if binary {
                match conn.prepare_statement("p").await {
                    Ok(mut st) => go!(st.query::<Value, Row>(&[]).await),
                    Err(e) => ensure!(kind(&e) != Kind::TimedOut, "wedged", "prepare waits for data the server never announced"),
                }
            } else {
                go!(conn.query::<Row>("q").await);
            }
            match conn.execute_query("do 1").await {
                Ok(o) => ensure!(o.affected_rows() == 4711, "next-command", "the next command got another answer"),
                Err(e) => ensure!(kind(&e) != Kind::TimedOut, "wedged", "the next command waits for data the server never announced"),
            }
            Ok(())
        })
    })?;
    let received = link.lock().read_total;
    check_memory(received, true)
}

/// text near what the type expects
fn gen_digits(s: &mut Src, ty: u8) -> Vec<u8> {
    let chars: &[u8] = match ty {
        ct::DATE | ct::DATETIME | ct::TIMESTAMP | ct::TIME => b"0123456789-: .",
        ct::FLOAT | ct::DOUBLE => b"0123456789.-e",
        _ => b"0123456789-+",
    };
    match s.below(5) {
        0 => s.bytes(12),
        1 => {
            let t = match ty {
                ct::TIME => "-838:59:59.000000",
                ct::DATE => "2020-12-31",
                ct::DATETIME | ct::TIMESTAMP => "2020-12-31 23:59:59.123456",
                _ => "-12345",
            };
            let mut v = t.as_bytes().to_vec();
            for _ in 0..1 + s.usize(2) {
                let i = s.usize(v.len());
                match s.below(3) {
                    0 => v[i] = *s.pick(chars),
                    1 => {
                        v.remove(i);
                        if v.is_empty() {
                            v.push(b'0')
                        }
                    }
                    _ => v.insert(i, *s.pick(b"0123456789-:. \xff")),
                }
            }
            v
        }
        _ => {
            let n = s.usize(30);
            (0..n).map(|_| *s.pick(chars)).collect()
        }
    }
}

/// values that were accepted can be used
fn uses(r: &[Value]) {
    use mysql_connector::types::SimpleValue;
    for v in r {
        let _ = format!("{v:?}");
        let _ = format!("{:?}", v.value());
        macro_rules! to {
            ($($t:ty),*) => { $( let _: Result<$t, _> = std::convert::TryInto::<$t>::try_into(v.clone()); )* };
        }
        to!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool, String, Vec<u8>, chrono::NaiveDate, chrono::NaiveDateTime, chrono::Duration);
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        level: "exploration",
        rule: "conversations with altered server packets at every position (part near: one packet in every way that is one cut or one byte value away) (bytes, lengths, counts, first bytes, order, header), free-running noise servers, altered and arbitrary keys, arbitrary cells of every column type; non-trivial = at least one packet was altered; oracle: every call returns without panic, memory stays below 400 x received + 3 MiB (+ announced packets), CPU time below 20 s, no waiting for unannounced data",
        assumptions: &["pauses of the server are covered by C13", "virtual time; an endless loop is recognised by 60 s of CPU time in one case"],
        parts: vec![part("mutated", 250_000, 3_000_000, c12_mutated), part("near", 2_500, 60_000, c12_near), part("noise", 150_000, 2_000_000, c12_noise), part("login", 40_000, 500_000, c12_login), part("key", 15_000, 150_000, c12_key), part("cells", 250_000, 2_000_000, c12_cells)],
    }]
}
