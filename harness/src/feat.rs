//! What a build of the library (with some of its optional features) does with a given tape.
//! Builds with other features must do the same; see `props/features.rs`.
use crate::{engine::*, gen::*, mock::*, script::*, server::*, wire::*};
use mysql_connector::{
    pool::{AsyncPool, AsyncPoolTrait},
    types::{AuthPlugin, Hex},
    Connection, ConnectionOptions,
};
use std::{
    io::{BufRead, Write},
    sync::Arc,
    time::Duration,
};

pub const FEATURES: [(&str, bool); 4] = [("time", cfg!(feature = "time")), ("tcp", cfg!(feature = "tcp")), ("rsa", cfg!(feature = "rsa")), ("json", cfg!(feature = "json"))];

/// Which builds must agree on a line: all of them, those that agree on a feature, those with it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Scope {
    All,
    SameRsa,
    WithTcp,
    WithJson,
    /// never allowed
    Bad,
}
pub type Seen = Vec<(Scope, String)>;

impl Scope {
    pub const ALL: [(Scope, char); 5] = [(Scope::All, 'a'), (Scope::SameRsa, 'r'), (Scope::WithTcp, 't'), (Scope::WithJson, 'j'), (Scope::Bad, 'b')];
    pub fn letter(self) -> char {
        Scope::ALL.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn read(c: char) -> Scope {
        Scope::ALL.iter().find(|x| x.1 == c).map_or(Scope::Bad, |x| x.0)
    }
}

pub fn name(bits: [bool; 4]) -> String {
    let v: Vec<&str> = FEATURES.iter().zip(bits).filter(|x| x.1).map(|x| x.0 .0).collect();
    if v.is_empty() {
        "none".into()
    } else {
        v.join("-")
    }
}

/// one line of a tape in, one line of observations out
pub fn serve() {
    install_hook();
    println!("{}", name(FEATURES.map(|x| x.1)));
    // a case that uses CPU time without end
    let at = Arc::new(std::sync::atomic::AtomicU64::new(u64::MAX));
    let a2 = at.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let x = a2.load(std::sync::atomic::Ordering::SeqCst);
        if x != u64::MAX && cpu_ms() > x + 40_000 {
            std::process::exit(88);
        }
    });
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let tape: Vec<u64> = l.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
        at.store(cpu_ms(), std::sync::atomic::Ordering::SeqCst);
        let mut seen = Seen::new();
        if let Err((loc, msg)) = catch(|| observe(&mut Src::replay(tape), &mut seen)) {
            seen.push((Scope::Bad, format!("panic at {loc}: {msg}")));
        }
        at.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        let line = seen.iter().map(|(s, t)| format!("{}{}", s.letter(), t.replace(['\n', '\t'], " "))).collect::<Vec<_>>().join("\t");
        println!("{line}");
        let _ = std::io::stdout().flush();
    }
}

pub const KINDS: [&str; 6] = ["conversation", "fault", "defaults", "methods", "pool", "values"];

fn observe(s: &mut Src, seen: &mut Seen) {
    match s.below(KINDS.len() as u64) {
        0 => conversation(s, seen, false),
        1 => conversation(s, seen, true),
        2 => defaults(s, seen),
        3 => methods(s, seen),
        4 => pool(s, seen),
        _ => values(s, seen),
    }
}

fn needs_rsa(a: Auth) -> bool {
    !matches!(a, Auth::Native | Auth::NativeSwitch | Auth::Clear)
}

fn conversation(s: &mut Src, seen: &mut Seen, fault: bool) {
    let mut sc = Script::gen(s, 3);
    let plan = IoPlan::gen(s);
    sc.timeout = Duration::from_millis(s.range(1, 20_000));
    let kind = s.below(4);
    let (at, of) = (s.below(1000), s.bool());
    let err = *s.pick(&[std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::TimedOut, std::io::ErrorKind::WouldBlock]);
    let wait = Duration::from_millis(s.range(0, 20_000));
    let go = |plan: IoPlan| {
        let link = sc.link(plan);
        link.lock().record = Some(vec![]);
        let t = run(sc.run(&link));
        (t, link)
    };
    let show = |t: &Result<Trace, Stuck>, link: &Link, bytes: bool| -> String {
        let l = link.lock();
        match t {
            Err(e) => format!("{e:?} after {} / {} bytes", l.read_total, l.write_total),
            Ok(t) => format!(
                "{:?} fatal {:?} {:?} after {:?}; {} bytes read, {} written, hash {:x}, {} flushes",
                t.obs,
                t.fatal,
                t.fatal_time,
                t.after,
                l.read_total,
                l.write_total,
                if bytes { hash_bytes(l.record.as_deref().unwrap_or_default()) } else { 0 },
                l.flushes
            ),
        }
    };
    let (t, link) = go(plan.clone());
    let rsa = needs_rsa(sc.auth);
    // encrypted passwords are padded at random
    let same = !matches!(sc.auth, Auth::Sha2FullKnownKey | Auth::Sha2FullAskKey);
    let scope = if rsa { Scope::SameRsa } else { Scope::All };
    match &t {
        Err(e) => seen.push((Scope::Bad, format!("{e:?} in a conversation without a fault ({})", sc.show()))),
        Ok(t) if rsa && !cfg!(feature = "rsa") => {
            // this build does not know the method
            if t.fatal.is_none() || !t.obs.is_empty() {
                seen.push((Scope::Bad, format!("a login by caching_sha2_password without the feature gave {:?} {:?}", t.obs, t.fatal)));
            }
            let rec = link.lock().record.clone().unwrap_or_default();
            if sc.password.len() > 5 && rec.windows(sc.password.len()).any(|w| w == sc.password.as_bytes()) {
                seen.push((Scope::Bad, "the password was sent in clear to a server that announces caching_sha2_password".into()));
            }
        }
        Ok(t) => {
            if t.fatal.is_some() && !fault {
                seen.push((Scope::Bad, format!("a conversation without a fault failed: {:?} ({})", t.fatal, sc.show())));
            }
        }
    }
    seen.push((scope, show(&t, &link, same)));
    if !fault {
        return;
    }
    let (r, w) = {
        let l = link.lock();
        (l.read_total, l.write_total)
    };
    let mut p = plan;
    let f = match kind {
        0 => Fault::Eof,
        1 => Fault::Err(err),
        _ => Fault::Stall,
    };
    if kind == 3 {
        // nothing fails, but the writes take their time
        p.write_delay = Some(wait);
    } else if of && w > 0 {
        p.write_fault = Some((at * w / 1000, if f == Fault::Eof { Fault::Zero } else { f }));
    } else if r > 0 {
        p.read_fault = Some((at * r / 1000, f));
    }
    let (t, link) = go(p);
    if let Err(e) = &t {
        seen.push((Scope::Bad, format!("{e:?} in a conversation with a fault ({})", sc.show())));
    }
    seen.push((scope, show(&t, &link, same)));
}

pub fn base<const S: bool>(link: Option<&Link>) -> ConnectionOptions<Mock<S>> {
    let mut o = ConnectionOptions::<Mock<S>>::default();
    if let Some(l) = link {
        o.connection = Dial::One(l.clone());
    }
    #[cfg(not(feature = "time"))]
    {
        o.sleep = Some(&|d| Box::pin(tokio::time::sleep(d)));
    }
    o
}

fn connect_with<const S: bool>(o: ConnectionOptions<Mock<S>>, link: &Link, seen: &mut Seen) -> String {
    link.lock().record = Some(vec![]);
    let mut announced = None;
    let r = run(async {
        let t0 = tokio::time::Instant::now();
        let r = Connection::connect(Arc::new(o)).await;
        let d = t0.elapsed();
        match r {
            Ok(mut c) => {
                announced = Some(c.data().auth_plugin());
                let e = c.execute_query("do 1").await.map(|o| o.affected_rows());
                format!("connected {d:?} {e:?} {:?} {:?} {}", c.data().version(), c.data().capabilities(), c.data().max_allowed_packet())
            }
            Err(e) => format!("{:?} {d:?} {}", kind(&e), format!("{e:?}").chars().take(300).collect::<String>()),
        }
    });
    seen.push((Scope::SameRsa, format!("method {announced:?}")));
    let l = link.lock();
    format!("{r:?}; client bytes {:x}", hash_bytes(l.record.as_deref().unwrap_or_default()))
}

/// the default options: their values, and what they do
fn defaults(s: &mut Src, seen: &mut Seen) {
    let o = base::<false>(None);
    seen.push((
        Scope::All,
        format!("defaults: {:?} {:?} {:?} {:?} {:?} {:?} {}", o.user, o.password, o.db_name, o.connection, o.max_allowed_packet, o.timeout, o.allow_cleartext_password),
    ));
    seen.push((Scope::SameRsa, format!("default method {:?} {o:?}", o.auth_plugin)));
    // only a user, a password and where to connect to: the strongest method this build knows works
    let mut g = gen_greeting(s);
    let rsa = cfg!(feature = "rsa");
    g.plugin = if rsa { "caching_sha2_password" } else { "mysql_native_password" }.into();
    let password = s.string(8);
    let link = Link::new(Box::new(Server::new(g.clone(), auth_fn(if rsa { Auth::Sha2Fast } else { Auth::Native }, vec![], String::new()), Box::new(|_, x, out| x.respond(out, &Resp::ok(), false, false)))), IoPlan::default());
    let mut o = base::<false>(Some(&link));
    o.user = "root".into();
    o.password = password.clone();
    let r = connect_with(o, &link, seen);
    let want = match password.as_bytes() {
        [] => vec![],
        p if rsa => crate::crypto::sha2_proof(&g.nonce, p),
        p => crate::crypto::native_proof(&g.nonce, p),
    };
    let got = link.with::<Server, _>(|x| x.login.as_ref().map(|l| l.auth.clone()));
    if !r.contains("connected") || got.as_ref() != Some(&want) {
        seen.push((Scope::Bad, format!("default options, a server that announces {}: {r}; proof {got:?}, expected {want:?}", g.plugin)));
    }
    // the default does not keep a build from a method it knows
    let mut g = gen_greeting(s);
    let names = ["mysql_native_password", "mysql_clear_password"];
    let (announced, account) = (s.usize(2), s.usize(2));
    g.plugin = names[announced].into();
    let password = s.string(8);
    if !rsa {
        let answer = Arc::new(std::sync::Mutex::new(None));
        let a2 = answer.clone();
        let mut asked = announced == account;
        let srv = Server::new(
            g.clone(),
            Box::new(move |m, l, x, out| {
                if !asked {
                    asked = true;
                    let p = [&b"\xfe"[..], names[account].as_bytes(), b"\0ABCDEFGHIJKLMNOPQRST\0"].concat();
                    x.send(out, &p);
                    return false;
                }
                *a2.lock().unwrap() = Some(if announced == account { l.auth.clone() } else { m.to_vec() });
                let p = Ok_::default().packet(0, x.caps);
                x.send(out, &p);
                true
            }),
            Box::new(|_, x, out| x.respond(out, &Resp::ok(), false, false)),
        );
        let link = Link::new(Box::new(srv), IoPlan::default());
        let mut o = base::<false>(Some(&link));
        o.user = "root".into();
        o.password = password.clone();
        o.allow_cleartext_password = true;
        let r = connect_with(o, &link, seen);
        let nonce: &[u8] = if announced == account { &g.nonce } else { b"ABCDEFGHIJKLMNOPQRST" };
        let mut want = match password.as_bytes() {
            p if account == 1 => p.to_vec(),
            [] => vec![],
            p => crate::crypto::native_proof(nonce, p),
        };
        let mut got = answer.lock().unwrap().clone();
        if account == 1 {
            // the terminating zero is optional
            want.retain(|x| *x != 0);
            got.iter_mut().for_each(|x| x.retain(|x| *x != 0));
        }
        if !r.contains("connected") || got.as_ref() != Some(&want) {
            seen.push((Scope::Bad, format!("default options that permit clear text, a server that announces {} for an account with {}: {r}; proof {got:?}, expected {want:?}", g.plugin, names[account])));
        }
    }
    let g = gen_greeting(s);
    let stall = s.bool();
    let srv = Server::simple(g, |_| Resp::ok());
    let mut plan = IoPlan::gen(s);
    if stall {
        plan.read_fault = Some((s.below(120), Fault::Stall));
    }
    let link = Link::new(Box::new(srv), plan);
    let mut o = base::<false>(Some(&link));
    o.user = "root".into();
    o.password = s.string(8);
    o.auth_plugin = Some(AuthPlugin::Native);
    let r = connect_with(o, &link, seen);
    seen.push((Scope::All, r));
}

/// forced and announced methods, some of them unknown
fn methods(s: &mut Src, seen: &mut Seen) {
    let mut g = gen_greeting(s);
    let known = ["mysql_native_password", "mysql_clear_password", "no_such_password"];
    let announced = s.usize(4);
    g.plugin = if announced == 3 { "caching_sha2_password" } else { known[announced] }.into();
    let forced = s.below(3);
    let allow = s.bool();
    let secure = s.bool();
    let switch = if s.bool() { Some(s.usize(4)) } else { None };
    let password = s.string(8);
    let timeout = Duration::from_millis(s.range(1, 5000));
    let mut first = true;
    let nonce = g.nonce.clone();
    let sw = switch.map(|i| if i == 3 { "caching_sha2_password" } else { known[i] });
    let mut inner = auth_fn(Auth::Native, nonce, password.clone());
    let srv = Server::new(
        g,
        Box::new(move |m, l, x, out| match sw {
            Some(n) if std::mem::take(&mut first) => {
                let mut p = vec![0xfe];
                p.extend_from_slice(n.as_bytes());
                p.push(0);
                p.extend_from_slice(b"ABCDEFGHIJKLMNOPQRST\0");
                x.send(out, &p);
                false
            }
            _ => inner(m, l, x, out),
        }),
        Box::new(|_, x, out| x.respond(out, &Resp::ok(), false, false)),
    );
    let link = Link::new(Box::new(srv), IoPlan::gen(s));
    macro_rules! with {
        ($s:literal) => {{
            let mut o = base::<$s>(Some(&link));
            o.user = "root".into();
            o.password = password;
            o.timeout = timeout;
            o.allow_cleartext_password = allow;
            o.auth_plugin = [None, Some(AuthPlugin::Native), Some(AuthPlugin::Clear)][forced as usize];
            connect_with(o, &link, seen)
        }};
    }
    let r = if secure { with!(true) } else { with!(false) };
    // a forced method hides the announced one; a switch to an unknown method names it
    let rsa = (announced == 3 && forced == 0) || switch == Some(3);
    if rsa && !cfg!(feature = "rsa") && r.contains("connected") {
        seen.push((Scope::Bad, format!("connected although the server asked for caching_sha2_password: {r}")));
    }
    seen.push((if rsa { Scope::SameRsa } else { Scope::All }, r));
}

/// several users of a pool of connections
fn pool(s: &mut Src, seen: &mut Seen) {
    let fails: Vec<bool> = (0..6).map(|_| s.chance(1, 4)).collect();
    let users = 1 + s.usize(4);
    let holds: Vec<u64> = (0..users).map(|_| s.below(2000)).collect();
    let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let n2 = n.clone();
    let mut o = base::<false>(None);
    o.user = "root".into();
    o.auth_plugin = Some(AuthPlugin::Native);
    o.connection = Dial::Many(Arc::new(move || {
        let i = n2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if fails.get(i) == Some(&true) {
            return Err(std::io::ErrorKind::ConnectionRefused.into());
        }
        let id = i as u64;
        Ok(Link::new(Box::new(Server::simple(Greeting::default(), move |_| Resp::Ok(Ok_ { affected: id, ..Ok_::default() }))), IoPlan::default()))
    }));
    let r = run(async {
        let pool = AsyncPool::<Connection, _, 2>::new(Arc::new(o));
        let log = std::cell::RefCell::new(Vec::new());
        let user = |i: usize| {
            let (pool, log, hold) = (&pool, &log, holds[i]);
            async move {
                match pool.get().await {
                    Err(e) => log.borrow_mut().push(format!("{i}: {:?}", kind(&e))),
                    Ok(mut c) => {
                        let a = c.execute_query("do 1").await.map(|o| o.affected_rows()).map_err(|e| kind(&e));
                        log.borrow_mut().push(format!("{i}: {a:?}"));
                        tokio::time::sleep(Duration::from_millis(hold)).await;
                        let a = c.execute_query("do 1").await.map(|o| o.affected_rows()).map_err(|e| kind(&e));
                        log.borrow_mut().push(format!("{i}: {a:?}"));
                    }
                }
            }
        };
        tokio::join!(
            async { user(0).await },
            async {
                if users > 1 {
                    user(1).await
                }
            },
            async {
                if users > 2 {
                    user(2).await
                }
            },
            async {
                if users > 3 {
                    user(3).await
                }
            }
        );
        log.into_inner()
    });
    if r.is_err() {
        seen.push((Scope::Bad, format!("{r:?} in a pool of two connections")));
    }
    seen.push((Scope::All, format!("{r:?} {} connections", n.load(std::sync::atomic::Ordering::SeqCst))));
}

/// values, and what only exists with a feature
fn values(s: &mut Src, seen: &mut Seen) {
    let b = s.bytes(20);
    let h = Hex::new(b.clone());
    let shown = h.to_string();
    seen.push((Scope::All, format!("{shown} {:?} {:?}", shown.parse::<Hex>(), Hex::try_from_hex(&b).map_err(|_| ()))));
    for v in gen_params(s) {
        seen.push((Scope::All, format!("{v} {v:?}")));
    }
    for n in [&b"mysql_native_password"[..], b"mysql_clear_password\0", b"no_such_password", &b] {
        seen.push((Scope::All, format!("{:?}", AuthPlugin::from_bytes(n))));
    }
    seen.push((Scope::SameRsa, format!("{:?}", AuthPlugin::from_bytes(b"caching_sha2_password"))));
    let t = s.string(12);
    #[cfg(feature = "json")]
    {
        let j = serde_json::to_string(&h);
        let back = j.as_ref().ok().map(|j| serde_json::from_str::<Hex>(j));
        if !matches!(&back, Some(Ok(x)) if *x == h) {
            seen.push((Scope::Bad, format!("{shown} as JSON is {j:?}, read back {back:?}")));
        }
        seen.push((Scope::WithJson, format!("{j:?} {:?}", serde_json::from_value::<Hex>(serde_json::Value::String(t.clone())).map_err(|e| e.to_string()))));
    }
    #[cfg(feature = "tcp")]
    {
        let o = mysql_connector::TcpStreamOptions::default();
        seen.push((Scope::WithTcp, format!("{:?} {} {} secure {}", o.host, o.port, o.nodelay, <mysql_connector::TcpStream as mysql_connector::Stream>::SECURE)));
        if s.chance(1, 8) {
            // a session over a real socket of the loopback network
            let rows = s.usize(5) as u64;
            let srv = Server::simple(Greeting::default(), move |c| match c {
                Cmd::Query(_) => Resp::rows(vec![Col::new("c", ct::LONG)], (0..rows).map(|i| vec![mysql_connector::types::Value::Int(i as i32)]).collect()),
                Cmd::Quit => Resp::None,
                _ => Resp::ok(),
            });
            let sv = crate::tcp::serve(srv, 1 + s.usize(50));
            let mut o = crate::tcp::tcp_options(s, sv.addr);
            o.password = t;
            let r = crate::tcp::run_tcp(async {
                let mut c = Connection::connect(Arc::new(o)).await.map_err(|e| format!("{e:?}"))?;
                let r = c.query::<crate::props::results::Row>("q").await.map_err(|e| format!("{e:?}"))?.collect().await.map_err(|e| format!("{e:?}"))?;
                c.disconnect().await.map_err(|e| format!("{e:?}"))?;
                Ok::<_, String>(r)
            });
            let (srv, rec, came) = sv.join();
            seen.push((Scope::WithTcp, format!("{r:?} {came} {:x} {:?}", hash_bytes(&rec), srv.bad)));
        }
    }
    let _ = t;
}
