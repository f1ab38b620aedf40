//! C08 authentication, C09 acceptance, C10 secrecy, C11 login request and connection facts.
use super::results::*;
use crate::{crypto::*, done, engine::*, ensure, gen::*, mock::*, must, server::*, wire::*};
use mysql_connector::{types::AuthPlugin, types::Value, Connection, Error, PublicKey};
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Native,
    Sha2,
    Clear,
}
const METHODS: [M; 3] = [M::Native, M::Sha2, M::Clear];
impl M {
    fn name(self) -> &'static str {
        match self {
            M::Native => "mysql_native_password",
            M::Sha2 => "caching_sha2_password",
            M::Clear => "mysql_clear_password",
        }
    }
    fn plugin(self) -> AuthPlugin {
        match self {
            M::Native => AuthPlugin::Native,
            M::Sha2 => AuthPlugin::Sha2,
            M::Clear => AuthPlugin::Clear,
        }
    }
}

fn gen_nonce(s: &mut Src) -> Vec<u8> {
    let b = s.blob(20);
    // MySQL's own challenges contain neither zeros nor `$`, those of other servers may
    if s.chance(1, 6) {
        let mut b = b;
        match s.below(4) {
            0 => b[19] = 0,
            1 => b[0] = 0,
            2 => {
                let at = s.usize(20);
                b[at..].fill(0)
            }
            _ => b[s.usize(20)] = 0,
        }
        return b;
    }
    let ascii = s.chance(2, 3);
    b.iter().map(|x| if ascii { x & 0x7f } else { *x }).map(|x| if x == 0 || x == b'$' { x + 1 } else { x }).collect()
}

fn gen_password(s: &mut Src) -> String {
    let p = match s.below(8) {
        0 => String::new(),
        1 => s.string(1),
        2 => s.string(40),
        3 => "p".repeat(*s.pick(&[1usize, 19, 20, 21, 22, 63, 64, 65, 127, 128, 200, 250, 255])),
        4 => "ü".repeat(1 + s.usize(120)),
        _ => {
            let n = 1 + s.usize(24);
            (0..n).map(|_| *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&/()=?#'\"\\") as char).collect()
        }
    };
    p.replace('\0', "0")
}

/// one login scenario with a truthful server
#[derive(Clone, Debug)]
struct Case {
    method: M,
    announced: M,
    /// another method is announced, which the client does not know
    unknown: Option<&'static str>,
    forced: bool,
    password: String,
    /// the account's password
    account: String,
    cached: bool,
    always_switch: bool,
    secure: bool,
    key: usize,
    known_key: bool,
    pem: (bool, usize, &'static str),
    nonce1: Vec<u8>,
    nonce2: Vec<u8>,
    plugin_nul: bool,
    allow_clear: bool,
    settings: bool,
}

fn gen_case(s: &mut Src, wrong: bool) -> Case {
    let method = *s.pick(&METHODS);
    let announced = *s.pick(&METHODS);
    let password = gen_password(s);
    let account = if wrong {
        match s.below(3) {
            0 => format!("{password}x"),
            1 => {
                let mut p = password.clone();
                p.pop();
                if p == password {
                    "a".into()
                } else {
                    p
                }
            }
            _ => format!("other{}", s.below(1000)),
        }
    } else {
        password.clone()
    };
    let forced = s.bool();
    let initial = if forced { method } else { announced };
    Case {
        method,
        announced,
        unknown: if forced && s.chance(1, 5) { Some(*s.pick(&["sha256_password", "client_ed25519", "dialog", "auth_gssapi_client", "mysql_old_password", "", "Mysql_native_password", "mysql_native_passwor"])) } else { None },
        forced,
        password,
        account,
        cached: s.bool(),
        always_switch: s.chance(1, 4),
        secure: s.bool(),
        key: {
            let big = s.chance(1, 12);
            s.usize(if big { keys().len() } else { 15 })
        },
        known_key: s.chance(1, 3),
        pem: (s.bool(), *s.pick(&[64usize, 64, 76, 10_000]), *s.pick(&["\n", "\r\n"])),
        nonce1: gen_nonce(s),
        nonce2: gen_nonce(s),
        plugin_nul: s.chance(3, 4),
        allow_clear: method == M::Clear || initial == M::Clear || s.chance(1, 4),
        settings: s.chance(1, 4),
    }
}

impl Case {
    fn full(&self) -> bool {
        self.method == M::Sha2 && !self.cached && !self.password.is_empty()
    }
    fn fits(&self) -> bool {
        !(self.full() && !self.secure) || self.password.len() + 1 <= keys()[self.key].room()
    }
    /// a proof in the login request has at most 255 bytes
    fn in_domain(&self) -> bool {
        self.password.len() < 255
    }
    fn show(&self) -> String {
        format!(
            "{:?} account, announced {}, forced {}, password of {} bytes, cached {}, switch {}, secure {}, {} bit key known {}, settings {}",
            self.method, self.unknown.unwrap_or(self.announced.name()), self.forced, self.password.len(), self.cached, self.always_switch || (!self.forced && self.announced != self.method), self.secure, keys()[self.key].bits, self.known_key, self.settings
        )
    }
    fn greeting(&self, g: &mut Greeting) {
        g.plugin = self.unknown.unwrap_or(self.announced.name()).into();
        g.plugin_nul = self.plugin_nul;
        g.nonce = self.nonce1.clone();
    }
    async fn connect<const S: bool>(&self, link: &Link) -> Result<Connection, Error> {
        let mut o = options::<S>(link);
        o.password = self.password.clone();
        o.auth_plugin = if self.forced { Some(self.method.plugin()) } else { None };
        // the default has to be no
        if self.allow_clear {
            o.allow_cleartext_password = true;
        }
        if self.known_key {
            let k = &keys()[self.key];
            o.server_key = Some(Arc::new(PublicKey::new(k.n.clone(), k.e.clone())));
        }
        if self.settings {
            o.max_allowed_packet = None;
        }
        Connection::connect(Arc::new(o)).await
    }
}

/// what happened on the server
#[derive(Default, Debug)]
struct Verdict {
    accepted: bool,
    rejected: Option<String>,
    /// messages sent during login (after the greeting)
    sent: usize,
    err: Option<SrvErr>,
}

#[derive(Clone, Debug)]
enum Deviation {
    Err(SrvErr),
    Bytes(Vec<u8>),
    Nothing,
}

/// a server which follows the protocol; message number `.0` is replaced by the deviation
fn truthful(c: Case, v: Arc<Mutex<Verdict>>, dev: Option<(usize, Deviation, bool)>) -> AuthFn {
    let mut state = 0;
    let mut nonce = c.nonce1.clone();
    Box::new(move |msg, login, ss, out| {
        let mut q = v.lock().unwrap();
        let mut silent = false;
        // true: goes on
        let send = |q: &mut Verdict, ss: &mut Sess, out: &mut Out, p: &[u8]| -> bool {
            let n = q.sent;
            q.sent += 1;
            if let Some((at, d, eof)) = &dev {
                if n > *at {
                    return false;
                }
                if n == *at {
                    match d {
                        Deviation::Err(e) => ss.send(out, &e.packet()),
                        Deviation::Bytes(b) => ss.send(out, b),
                        Deviation::Nothing => {}
                    }
                    if *eof {
                        out.seg(Seg::Eof);
                    }
                    return false;
                }
            }
            ss.send(out, p);
            true
        };
        let ok = Ok_::default().packet(0, ss.caps);
        let denied = SrvErr::new(1045, "28000", "Access denied");
        let k = &keys()[c.key];
        macro_rules! accept {
            () => {{
                if send(&mut q, ss, out, &ok) {
                    q.accepted = true;
                    return true;
                }
                return false;
            }};
        }
        macro_rules! deny {
            ($($a:tt)*) => {{
                q.rejected = Some(format!($($a)*));
                q.err = Some(denied.clone());
                send(&mut q, ss, out, &denied.packet());
                state = 9;
                return false;
            }};
        }
        let pw = c.account.as_bytes();
        let mut data: Option<Vec<u8>> = None;
        match state {
            0 => {
                let p = login.plugin.clone().unwrap_or_default();
                if p != c.method.name().as_bytes() || c.always_switch {
                    let mut m = vec![0xfe];
                    m.extend_from_slice(c.method.name().as_bytes());
                    m.push(0);
                    m.extend_from_slice(&c.nonce2);
                    m.push(0);
                    nonce = c.nonce2.clone();
                    state = 1;
                    send(&mut q, ss, out, &m);
                    return false;
                }
                data = Some(login.auth.clone());
            }
            1 => data = Some(msg.to_vec()),
            2 | 3 => {
                let mut want = pw.to_vec();
                want.push(0);
                if c.secure {
                    if msg == want {
                        accept!()
                    }
                    deny!("full exchange on a secure stream: {} bytes arrived instead of the {} of the password", msg.len(), want.len());
                }
                if state == 2 && msg == [2] {
                    let mut m = vec![1];
                    m.extend(k.pem(c.pem.0, c.pem.1, c.pem.2));
                    state = 3;
                    send(&mut q, ss, out, &m);
                    return false;
                }
                match k.decrypt(msg) {
                    Ok(x) if xor_nonce(&x, &nonce) == want => accept!(),
                    Ok(x) => deny!("decrypted {} bytes which are not the password with the challenge", x.len()),
                    Err(e) => deny!("undecryptable: {e}"),
                }
            }
            _ => silent = true,
        }
        if silent {
            return false;
        }
        let data = data.unwrap();
        match c.method {
            M::Native => {
                if data == native_proof(&nonce, pw) {
                    accept!()
                }
                deny!("wrong native proof {data:02x?}")
            }
            M::Clear => {
                if data == pw || data.strip_suffix(&[0]) == Some(pw) {
                    accept!()
                }
                deny!("wrong clear password of {} bytes", data.len())
            }
            M::Sha2 => {
                if pw.is_empty() {
                    if data.is_empty() || data == [0] {
                        accept!()
                    }
                    deny!("proof for an empty password: {data:02x?}")
                }
                if data != sha2_proof(&nonce, pw) {
                    deny!("wrong sha2 proof {data:02x?}")
                }
                if c.cached {
                    if !send(&mut q, ss, out, &[1, 3]) {
                        return false;
                    }
                    accept!()
                }
                state = 2;
                send(&mut q, ss, out, &[1, 4]);
                false
            }
        }
    })
}

fn login_run(c: &Case, g: Greeting, plan: IoPlan, dev: Option<(usize, Deviation, bool)>, command: bool) -> Result<(Result<(), Error>, Verdict, Link), Fail> {
    let v = Arc::new(Mutex::new(Verdict::default()));
    let mut g = g;
    c.greeting(&mut g);
    let srv = Server::new(
        g,
        truthful(c.clone(), v.clone(), dev),
        Box::new(|cmd, ss, out| {
            let r = match cmd {
                Cmd::Query(q) if q == b"select @@max_allowed_packet" => Resp::rows(vec![Col::new("@@max_allowed_packet", ct::LONGLONG).flags(FLAG_UNSIGNED)], vec![vec![Value::ULong(1 << 24)]]),
                _ => Resp::Ok(Ok_ { affected: 4711, ..Ok_::default() }),
            };
            ss.respond(out, &r, false, false)
        }),
    );
    let link = Link::new(Box::new(srv), plan);
    let (l2, c2) = (link.clone(), c.clone());
    let r = run(async move {
        let r = if c2.secure { c2.connect::<true>(&l2).await } else { c2.connect::<false>(&l2).await };
        let mut conn = match r {
            Ok(x) => x,
            Err(e) => return Ok(Err(e)),
        };
        if command {
            let o = must!("command after the login", conn.execute_query("x").await);
            ensure!(o.affected_rows() == 4711, "command", "the first command returned {:?}", done!(o));
        }
        Ok(Ok(()))
    });
    let r = match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("connect")),
    };
    let v = std::mem::take(&mut *v.lock().unwrap());
    Ok((r, v, link))
}

fn c08(s: &mut Src, c: &mut Ctx) -> Res {
    let case = gen_case(s, false);
    let g = gen_greeting(s);
    let plan = IoPlan::gen(s);
    if !case.in_domain() {
        return Ok(());
    }
    c.nontrivial = !case.password.is_empty();
    c.note(case.show());
    c.label(format!("{:?}{}{}", case.method, if case.full() { " full" } else { "" }, if case.secure { " secure" } else { "" }));
    let (r, v, link) = login_run(&case, g, plan, None, true)?;
    if !case.fits() {
        c.label("does not fit the key");
        ensure!(r.is_err(), "accepted", "a password too long for the key was accepted by the server");
        return Ok(());
    }
    if let Some(why) = &v.rejected {
        return fail("wrong-proof", format!("{}: {why}", case.show()));
    }
    if let Err(e) = r {
        return fail("refused", format!("{}: connect fails with {e:?}", case.show()));
    }
    ensure!(v.accepted, "not-accepted", "connected without being accepted");
    check_server(&link)
}

// ---------------------------------------------------------------- C09

fn c09_wrong(s: &mut Src, c: &mut Ctx) -> Res {
    let case = gen_case(s, true);
    if !case.in_domain() || case.account.len() > 254 {
        return Ok(());
    }
    c.nontrivial = true;
    c.note(case.show());
    let g = gen_greeting(s);
    let (r, v, _) = login_run(&case, g, IoPlan::gen(s), None, false)?;
    match r {
        Ok(()) => fail("accepted", format!("{}: connected although the password is wrong ({v:?})", case.show())),
        Err(e) => {
            match &v.err {
                Some(err) => ensure!(is_err(&e, err), "wrong-error", "the server rejects with {err:?}, reported is {e:?}"),
                None => ensure!(kind(&e) != Kind::Server, "wrong-error", "no rejection was sent, reported is {e:?}"),
            }
            Ok(())
        }
    }
}

fn c09_deviate(s: &mut Src, c: &mut Ctx) -> Res {
    let case = gen_case(s, false);
    if !case.in_domain() || !case.fits() {
        return Ok(());
    }
    let g = gen_greeting(s);
    let (r, v, _) = login_run(&case, g.clone(), IoPlan::default(), None, false)?;
    if r.is_err() {
        return fail("refused", format!("{}: connect fails with {:?}", case.show(), r.err()));
    }
    c.nontrivial = true;
    c.note(format!("{} messages, {}", v.sent, case.show()));
    let err = gen_err(s);
    let plan = IoPlan::gen(s);
    for at in 0..v.sent {
        let mut devs = vec![
            Deviation::Err(err.clone()),
            Deviation::Nothing,
            Deviation::Bytes(vec![]),
            Deviation::Bytes(vec![1]),
            Deviation::Bytes(vec![1, 2]),
            Deviation::Bytes(vec![1, 5, 0]),
            Deviation::Bytes(vec![0xfe]),
            Deviation::Bytes(vec![0xfb, 0]),
            Deviation::Bytes(b"\xfeunknown_method\0abc\0".to_vec()),
            Deviation::Bytes(Ok_::default().old_eof()),
            Deviation::Bytes(Ok_::default().packet(0xfe, 0)),
            Deviation::Bytes({
                let mut b = vec![2];
                b.extend(Ok_::default().packet(0, 0));
                b
            }),
            Deviation::Bytes({
                let mut b = s.bytes(12);
                if let Some(x @ (0 | 0xff)) = b.first_mut() {
                    *x = 7;
                }
                b
            }),
        ];
        // a confirmation of the cached password without the final packet
        devs.push(Deviation::Bytes(vec![1, 3]));
        devs.push(Deviation::Bytes(vec![1, 4]));
        for d in devs {
            c.evals += 1;
            let eof = s.chance(3, 4);
            let (r, v, _) = login_run(&case, g.clone(), plan.clone(), Some((at, d.clone(), eof)), false)?;
            let what = format!("{}: message {at} of the login is {d:?}", case.show());
            match (r, &d) {
                (Ok(()), _) => return fail("accepted", format!("{what}, connect succeeds ({v:?})")),
                (Err(e), Deviation::Err(x)) => ensure!(is_err(&e, x), "wrong-error", "{what}, reported is {e:?}"),
                (Err(e), _) => ensure!(kind(&e) != Kind::Server, "invented", "{what}, reported as server error {e:?}"),
            }
        }
    }
    Ok(())
}

/// a server that says anything at any time
#[derive(Clone, Debug)]
pub(super) struct Hostile {
    greet: M,
    nonce: Vec<u8>,
    forced: Option<M>,
    password: String,
    allow: bool,
    secure: bool,
    pinned: bool,
    /// what follows each client message
    pub(super) batches: Vec<Vec<Vec<u8>>>,
}
pub(super) const HKEY: usize = 520;
const PINNED: usize = 767;

pub(super) fn gen_hostile(s: &mut Src, with_ok: bool) -> Hostile {
    let n = 8 + s.usize(13);
    let password: String = (0..n).map(|_| *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&/()=?") as char).collect();
    let challenge = |s: &mut Src| match s.below(5) {
        0 => vec![0; 20],
        1 => s.bytes(30),
        2 => vec![s.below(256) as u8; s.usize(30)],
        _ => gen_nonce(s),
    };
    let mut nonce = challenge(s);
    nonce.resize(20, 0);
    let batches = (0..1 + s.usize(5))
        .map(|_| {
            (0..match s.below(6) {
                0 => 0,
                1 => 2,
                2 => 3,
                _ => 1,
            })
                .map(|_| match s.below(if with_ok { 12 } else { 11 }) {
                    0..=2 => {
                        let mut m = vec![0xfe];
                        m.extend_from_slice(s.pick(&METHODS).name().as_bytes());
                        m.push(0);
                        m.extend(challenge(s));
                        if s.chance(3, 4) {
                            m.push(0);
                        }
                        m
                    }
                    3 | 4 | 5 => vec![1, 4],
                    6 => vec![1, 3],
                    7 | 8 => {
                        let mut m = vec![1];
                        m.extend(key_of(HKEY).pem(s.bool(), 64, "\n"));
                        m
                    }
                    9 => vec![*s.pick(&[1u8, 2, 0xfe, 0xfb]), s.below(256) as u8],
                    10 => gen_err(s).packet(),
                    _ => Ok_::default().packet(0, 0),
                })
                .collect()
        })
        .collect();
    Hostile {
        greet: *s.pick(&METHODS),
        nonce,
        forced: if s.chance(1, 3) { Some(*s.pick(&METHODS)) } else { None },
        password,
        allow: s.chance(1, 4),
        secure: s.chance(1, 4),
        pinned: s.chance(1, 4),
        batches,
    }
}

impl Hostile {
    fn server(&self, g: Greeting) -> (Server, Arc<Mutex<bool>>) {
        let mut g = g;
        g.plugin = self.greet.name().into();
        g.nonce = self.nonce.clone();
        let mut it = self.batches.clone().into_iter();
        let sent_ok = Arc::new(Mutex::new(false));
        let s2 = sent_ok.clone();
        let srv = Server::new(
            g,
            Box::new(move |_m, _l, ss, out| {
                match it.next() {
                    Some(b) => b.iter().for_each(|p| {
                        if p.first() == Some(&0) {
                            *s2.lock().unwrap() = true;
                        }
                        ss.send(out, p)
                    }),
                    None => out.seg(Seg::Eof),
                }
                false
            }),
            Box::new(|_, _, _| {}),
        );
        (srv, sent_ok)
    }
    /// as `run`, over the library's own TCP stream
    #[cfg(all(feature = "time", feature = "tcp"))]
    fn run_tcp(&self, s: &mut Src, g: Greeting) -> (Vec<u8>, Vec<Vec<u8>>) {
        use crate::tcp::*;
        let (srv, _) = self.server(g);
        let sv = serve(srv, 1 << 30);
        let mut o = tcp_options(s, sv.addr);
        o.password = self.password.clone();
        // servers that do not answer
        o.timeout = Duration::from_millis(100);
        // the default is to force a method, and not to allow clear text
        if self.forced.is_some() || s.bool() {
            o.auth_plugin = self.forced.map(M::plugin);
        }
        if self.allow {
            o.allow_cleartext_password = true;
        }
        if self.pinned {
            let k = key_of(PINNED);
            o.server_key = Some(Arc::new(PublicKey::new(k.n.clone(), k.e.clone())));
        }
        let _ = run_tcp(async move { Connection::connect(Arc::new(o)).await.map(|_| ()) });
        let (srv, rec, _) = sv.join();
        (rec, srv.auth_msgs.clone())
    }
    async fn connect<const S: bool>(&self, link: &Link) -> Result<Connection, Error> {
        let mut o = options::<S>(link);
        o.password = self.password.clone();
        o.auth_plugin = self.forced.map(M::plugin);
        // the default has to be no
        if self.allow {
            o.allow_cleartext_password = true;
        }
        if self.pinned {
            let k = key_of(PINNED);
            o.server_key = Some(Arc::new(PublicKey::new(k.n.clone(), k.e.clone())));
        }
        Connection::connect(Arc::new(o)).await
    }
    /// what the client wrote, its messages and the result
    pub(super) fn run(&self, g: Greeting) -> Result<(Vec<u8>, Vec<Vec<u8>>, Result<(), Error>, bool), Fail> {
        let (srv, sent_ok) = self.server(g);
        let link = Link::new(Box::new(srv), IoPlan::default());
        link.lock().record = Some(vec![]);
        let (l2, h) = (link.clone(), self.clone());
        let r = crate::mock::run(async move {
            if h.secure {
                h.connect::<true>(&l2).await.map(|_| ())
            } else {
                h.connect::<false>(&l2).await.map(|_| ())
            }
        });
        let r = match r {
            Ok(x) => x,
            Err(_) => return Err(hang("connect")),
        };
        let rec = link.lock().record.clone().unwrap();
        let msgs = link.with::<Server, _>(|x| x.auth_msgs.clone());
        let ok = *sent_ok.lock().unwrap();
        Ok((rec, msgs, r, ok))
    }
    pub(super) fn show(&self) -> String {
        let m: Vec<String> = self
            .batches
            .iter()
            .map(|b| {
                b.iter()
                    .map(|p| match p.first() {
                        Some(0xfe) if p.len() > 10 => format!("switch to {}", String::from_utf8_lossy(&p[1..p.len().min(15)])),
                        Some(1) if p.len() > 10 => "key".into(),
                        Some(0xff) => "error".into(),
                        Some(0) => "ok".into(),
                        _ => format!("{p:02x?}"),
                    })
                    .collect::<Vec<_>>()
                    .join("+")
            })
            .collect();
        format!("announced {:?}, forced {:?}, cleartext allowed {}, secure {}, key pinned {}: {}", self.greet, self.forced, self.allow, self.secure, self.pinned, m.join(" / "))
    }
}

fn c09_hostile(s: &mut Src, c: &mut Ctx) -> Res {
    let ok = s.bool();
    let h = gen_hostile(s, ok);
    let g = gen_greeting(s);
    c.nontrivial = h.batches.iter().any(|b| !b.is_empty());
    c.note(h.show());
    let (_, _, r, sent_ok) = h.run(g)?;
    if r.is_ok() {
        c.label("connected");
        ensure!(sent_ok, "accepted", "{}: connect succeeds although the server never confirmed the login", h.show());
        // the method is switched once: whoever asks again would be given a proof for a challenge of its choice each time
        let before = h.batches.iter().flatten().take_while(|p| p.first() != Some(&0));
        let switches = before.filter(|p| p.first() == Some(&0xfe) && p.len() > 2).count();
        ensure!(switches < 2, "switches", "{}: connect follows {switches} requests to switch the method", h.show());
        if switches == 1 {
            c.label("connected after a switch");
        }
    }
    Ok(())
}

fn find(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.windows(needle.len()).any(|w| w == needle)
}

fn c10(s: &mut Src, c: &mut Ctx) -> Res {
    let h = gen_hostile(s, true);
    let g = gen_greeting(s);
    c.note(h.show());
    let (rec, msgs, _, _) = h.run(g)?;
    c10_judge(&h, &rec, &msgs, c)
}
/// TCP is not secure, and nothing is allowed by default
#[cfg(all(feature = "time", feature = "tcp"))]
fn c10_tcp(s: &mut Src, c: &mut Ctx) -> Res {
    let mut h = gen_hostile(s, true);
    h.secure = false;
    let g = gen_greeting(s);
    c.note(h.show());
    let (rec, msgs) = h.run_tcp(s, g);
    c10_judge(&h, &rec, &msgs, c)
}
#[cfg(not(all(feature = "time", feature = "tcp")))]
use c10 as c10_tcp;
fn c10_judge(h: &Hostile, rec: &[u8], msgs: &[Vec<u8>], c: &mut Ctx) -> Res {
    c.nontrivial = msgs.len() > 1;
    let pw = h.password.as_bytes();
    // when is the password permitted on the wire?
    let initial = h.forced.unwrap_or(h.greet);
    let sent = || h.batches.iter().flatten();
    let clear_asked = initial == M::Clear || sent().any(|p| p.starts_with(b"\xfemysql_clear_password\0"));
    let full_asked = sent().any(|p| p.starts_with(&[1, 4]));
    let clear_ok = h.allow && clear_asked;
    if !clear_ok && !(h.secure && full_asked) {
        ensure!(!find(rec, pw), "plain", "{}: the client wrote the password", h.show());
        let rev: Vec<u8> = pw.iter().rev().copied().collect();
        ensure!(!find(rec, &rev), "plain", "{}: the client wrote the password backwards", h.show());
    } else {
        c.label("plain permitted");
    }
    // combined with any challenge the server has sent
    let mut challenges = vec![h.nonce.clone()];
    for p in sent() {
        if p.first() == Some(&0xfe) {
            if let Some(i) = p.iter().position(|x| *x == 0) {
                challenges.push(p[i + 1..].to_vec());
            }
        }
    }
    let mut more = vec![];
    for n in &challenges {
        let mut t = n.clone();
        while t.last() == Some(&0) {
            t.pop();
        }
        more.push(t);
        more.push(n.strip_suffix(&[0]).unwrap_or(n).to_vec());
        let mut z = n.clone();
        z.resize(20, 0);
        more.push(z);
        more.push(n.iter().take(8).copied().collect());
    }
    challenges.extend(more);
    challenges.retain(|n| !n.is_empty() && n.iter().any(|x| *x != 0));
    challenges.sort();
    challenges.dedup();
    for n in &challenges {
        for k in 0..n.len() {
            let x: Vec<u8> = pw.iter().enumerate().map(|(i, b)| b ^ n[(i + k) % n.len()]).collect();
            // a challenge that is zero over the password's length: covered by the test for the password itself
            ensure!(x == pw || !find(rec, &x), "masked", "{}: the client wrote the password merely combined with the challenge {n:02x?}", h.show());
        }
    }
    // with a known server key no other key is used
    if h.pinned {
        for m in msgs {
            ensure!(m.len() != key_of(HKEY).octets() || key_of(HKEY).decrypt(m).is_err(), "other-key", "{}: the password was encrypted with a key sent by the server although the key is known", h.show());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

/// where the library's own stream connects to, and how
#[cfg(all(feature = "time", feature = "tcp"))]
fn c11_tcp(s: &mut Src, c: &mut Ctx) -> Res {
    use mysql_connector::{Stream, TcpStream, TcpStreamOptions};
    let host = 1 + s.usize(250);
    let l = crate::tcp::listen(host as u8);
    let addr = l.local_addr().unwrap();
    // two sockets: the same port at another address
    let other = std::net::TcpListener::bind((format!("127.0.0.{}", host % 250 + 1), addr.port()));
    let o = TcpStreamOptions { host: addr.ip().to_string(), port: addr.port(), nodelay: s.bool() };
    c.nontrivial = host > 1;
    c.note(format!("{o:?}"));
    crate::tcp::run_tcp(async {
        let t = must!("connect", <TcpStream as Stream>::connect(&o).await.map_err(Error::from));
        let (peer, delay) = (t.peer_addr().unwrap(), t.nodelay().unwrap());
        ensure!(peer == addr, "address", "configured {addr}, connected to {peer}");
        ensure!(delay == o.nodelay, "nodelay", "configured {}, set {delay}", o.nodelay);
        Ok(())
    })?;
    drop(other);
    Ok(())
}

fn c11(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = gen_greeting(s);
    // any other capability the server may announce
    let extra = s.below(1 << 32) as u32;
    g.caps |= match s.below(4) {
        0 => extra,
        1 => 0xffff_ffff & !cap::DEPRECATE_EOF,
        2 => extra & 0xffff_0000,
        _ => 0,
    };
    if s.chance(1, 4) {
        g.caps &= !(cap::DEPRECATE_EOF | cap::TRANSACTIONS | cap::PS_MULTI_RESULTS | cap::MULTI_RESULTS | cap::LONG_PASSWORD | cap::FOUND_ROWS | cap::LONG_FLAG);
    }
    let (a, b, d) = (s.below(20) as u16, s.below(60) as u16, match s.below(3) {
        0 => s.below(10) as u16,
        1 => s.below(100) as u16,
        _ => *s.pick(&[0u16, 1, 3, 255, 256, 999, 65535]),
    });
    // MariaDB marks its versions with the prefix 5.5.5-; there is no MariaDB 5.5.5
    let d = if (a, b, d) == (5, 5, 5) { 6 } else { d };
    let (version, maria) = match s.below(9) {
        0 => (format!("{a}.{b}.{d}"), false),
        1 => (format!("{a}.{b}.{d}-log"), false),
        2 => (format!("{a}.{b}.{d}-0ubuntu0.22.04.1"), false),
        3 => (format!("{a}.{b}.{d}-MariaDB"), true),
        4 => (format!("5.5.5-{a}.{b}.{d}-MariaDB"), true),
        5 => (format!("5.5.5-{a}.{b}.{d}-MariaDB-1:10.6.12+maria~ubu2004"), true),
        6 => (format!("{a}.{b}.{d}-MariaDB-log"), true),
        7 => (format!("{a}.{b}.{d}-{}", s.string(10).replace('\0', "")), false),
        _ => (format!("{a}.{b}.{d}+dfsg-enterprise-commercial-advanced"), false),
    };
    let maria = maria || version.contains("MariaDB");
    g.version = version.clone();
    g.id = s.int(0, u32::MAX as i128) as u32;
    g.charset = s.below(256) as u8;
    g.status = s.below(1 << 16) as u16 & STATUS_MASK;
    let announced = *s.pick(&[M::Native, M::Sha2]);
    g.plugin = announced.name().into();
    g.plugin_nul = s.chance(3, 4);
    g.nonce = gen_nonce(s);
    let text = |s: &mut Src| match s.below(5) {
        0 => String::new(),
        1 => "n".repeat(*s.pick(&[16usize, 32, 80, 250, 251, 300])),
        2 => s.string(60),
        _ => s.string(12),
    }
    .replace('\0', "0");
    let user = text(s);
    let db = if s.bool() { Some(text(s)) } else { None };
    let limit = match s.below(4) {
        0 => None,
        1 => Some(*s.pick(&[0usize, 1, 1024, (1 << 24) - 1, 1 << 24, 1 << 30, u32::MAX as usize])),
        _ => Some(s.int(0, u32::MAX as i128) as usize),
    };
    let server_limit = *s.pick(&[1024u64, 65536, 4 << 20, 16 << 20, (16 << 20) - 1, 64 << 20, 1 << 30, 0, u32::MAX as u64]);
    let server_limit = if s.bool() { s.int(0, 1 << 34) as u64 } else { server_limit };
    let forced = if s.bool() { Some(*s.pick(&[M::Native, M::Sha2])) } else { None };
    let password = gen_password(s);
    let chosen = forced.unwrap_or(announced);
    c.nontrivial = true;
    c.note(format!("version {version:?}, id {}, capabilities {:#x}, user {:?}, database {:?}, limit {limit:?}/{server_limit}, announced {announced:?}, forced {forced:?}", g.id, g.caps, user.chars().take(20).collect::<String>(), db.as_ref().map(|x| x.chars().take(20).collect::<String>())));
    let srv = Server::new(
        g.clone(),
        Box::new(|_m, _l, ss, out| {
            let p = Ok_::default().packet(0, ss.caps);
            ss.send(out, &p);
            true
        }),
        Box::new(move |cmd, ss, out| {
            let r = match cmd {
                Cmd::Query(_) => Resp::rows(
                    vec![Col::new("@@max_allowed_packet", ct::LONGLONG).flags(FLAG_UNSIGNED)],
                    vec![vec![Value::ULong(server_limit)]],
                ),
                _ => Resp::ok(),
            };
            ss.respond(out, &r, false, false)
        }),
    );
    let link = Link::new(Box::new(srv), IoPlan::gen(s));
    let (l2, u2, d2, p2) = (link.clone(), user.clone(), db.clone(), password.clone());
    let (gid, gcaps) = (g.id, g.caps);
    let declared = Arc::new(Mutex::new(0u32));
    let d3 = declared.clone();
    let r = run(async move {
        let mut o = options::<false>(&l2);
        o.user = u2;
        o.password = p2;
        o.db_name = d2;
        o.max_allowed_packet = limit;
        o.auth_plugin = forced.map(M::plugin);
        o.timeout = Duration::from_secs(5);
        let conn = match Connection::connect(Arc::new(o)).await {
            Ok(x) => x,
            Err(e) => return Err(e2f("connect", &e)),
        };
        let d = conn.data();
        ensure!(d.id() == gid, "id", "connection id {} reported as {}", gid, d.id());
        ensure!(d.version() == (a, b, d_of(d)), "version", "version {version:?} reported as {:?}", d.version());
        ensure!(d.is_mariadb() == maria, "vendor", "version {version:?}: MariaDB {}", d.is_mariadb());
        let want = match limit {
            Some(x) => x as u64,
            None => server_limit,
        };
        ensure!(d.max_allowed_packet() as u64 == want, "max-packet", "configured {limit:?}, server {server_limit}: reported {}", d.max_allowed_packet());
        if forced.is_none() {
            ensure!(d.auth_plugin() == announced.plugin(), "method", "announced method {announced:?} reported as {:?}", d.auth_plugin());
        }
        let caps = d.capabilities().bits();
        ensure!(caps & !gcaps == 0, "capabilities", "reported capabilities {caps:#x} exceed the announced {gcaps:#x}");
        *d3.lock().unwrap() = caps;
        Ok(d.version().2)
    });
    let got_patch = match r {
        Ok(x) => x?,
        Err(_) => return Err(hang("connect")),
    };
    ensure!(got_patch == d, "version", "version {:?}: third component reported as {got_patch}", g.version);
    check_server(&link)?;
    let login = link.with::<Server, _>(|x| x.login.clone());
    let Some(l) = login else { return fail("login", "no login request") };
    ensure!(l.user == user.as_bytes(), "user", "user {user:?} sent as {:?}", String::from_utf8_lossy(&l.user));
    ensure!(l.db.as_deref() == db.as_ref().map(|x| x.as_bytes()), "database", "database {db:?} sent as {:?}", l.db.as_ref().map(|x| String::from_utf8_lossy(x)));
    ensure!(l.plugin.as_deref() == Some(chosen.name().as_bytes()), "method", "method {chosen:?} sent as {:?}", l.plugin.as_ref().map(|x| String::from_utf8_lossy(x)));
    if let Some(x) = limit {
        ensure!(l.max_packet as usize == x, "limit", "packet limit {x} sent as {}", l.max_packet);
    }
    let proof = if chosen == M::Native { native_proof(&g.nonce, password.as_bytes()) } else { sha2_proof(&g.nonce, password.as_bytes()) };
    ensure!(l.auth == proof || (proof.is_empty() && l.auth == [0]), "proof", "proof of {chosen:?} sent as {:02x?}", l.auth);
    let utf8 = |x: u8| matches!(x, 33 | 45 | 46 | 76 | 83 | 192..=215 | 223 | 224..=247 | 255);
    ensure!(utf8(l.charset), "charset", "character set {} is not UTF-8", l.charset);
    if (a, b, d) >= (5, 5, 3) {
        ensure!(matches!(l.charset, 45 | 46 | 224..=247 | 255), "charset", "character set {} cannot carry all characters although the server {:?} has one", l.charset, g.version);
    } else {
        ensure!(l.charset == 33 || l.charset == 83 || (192..=215).contains(&l.charset), "charset", "character set {} is unknown to the server {:?}", l.charset, g.version);
    }
    let caps = *declared.lock().unwrap();
    let opt = cap::DEPRECATE_EOF | cap::SESSION_TRACK;
    ensure!(caps & opt == l.caps & opt, "capabilities", "reported capabilities {caps:#x} differ from the declared {:#x}", l.caps);
    Ok(())
}
fn d_of(d: &mysql_connector::ConnectionData) -> u16 {
    d.version().2
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            level: "exploration",
            rule: "account method x announced method x forced method x switch x cached x secure x key (22 sizes) known or asked, generated passwords and challenges; non-trivial = a password that is not empty; oracle: a server that recomputes the proof (OAEP decryption with its private key), then a command",
            assumptions: &["passwords contain no NUL and have less than 255 bytes", "a forced method is the account's method (another one is refused by design)", "clear-text is allowed where the method is used"],
            parts: vec![part("logins", 200_000, 3_000_000, c08)],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "wrong passwords; every server message of a generated login replaced by 15 kinds of rejections, incomplete or unknown packets; free-running servers; oracle: connect succeeds only if an OK packet was sent, rejections are reported exactly",
            assumptions: &["malformed OK packets are not generated"],
            parts: vec![part("wrong-password", 80_000, 1_000_000, c09_wrong), part("deviations", 6_000, 150_000, c09_deviate), part("free-running", 300_000, 3_000_000, c09_hostile)],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "a hostile server sends generated sequences of method switches, cached-password answers, keys, confirmations and garbage; every byte the client writes is recorded, also over the library's own TCP stream with default options; non-trivial = the client sent more than the login request; oracle: neither the password nor the password combined with a challenge appears unless permitted; a known key is the only one used",
            assumptions: &["recoverable means: plain, reversed or XOR-combined with any challenge at any offset", "passwords of 8 to 20 characters so that chance matches are impossible"],
            parts: vec![part("hostile", 600_000, 6_000_000, c10), part("tcp", 2_000, 40_000, c10_tcp)],
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "generated greetings (versions, vendors, capabilities, challenges, ids) and options: every case is non-trivial; real TCP connections to addresses of the loopback network: non-trivial = another address than 127.0.0.1; oracle: an independent decoder of the login request, the greeting's own values, and the socket's peer and options",
            assumptions: &["servers announce PROTOCOL_41, SECURE_CONNECTION, PLUGIN_AUTH and CONNECT_WITH_DB", "versions begin with three numbers", "no NUL in names", "the configured packet limit fits 32 bits"],
            parts: vec![
                part("facts", 300_000, 4_000_000, c11),
                #[cfg(all(feature = "time", feature = "tcp"))]
                part("tcp", 2_000, 20_000, c11_tcp),
            ],
        },
    ]
}
