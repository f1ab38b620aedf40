//! A generated conversation (login and commands) whose observations can be compared between a
//! clean run and runs with faults.
use crate::{crypto::*, engine::*, gen::*, mock::*, server::*, wire::*};
use mysql_connector::{
    types::{AuthPlugin, Value},
    Connection, ConnectionOptions, Error,
};
use std::{sync::Arc, time::Duration};
use tokio::time::Instant;

use crate::props::results::Row;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Auth {
    Native,
    NativeSwitch,
    Sha2Fast,
    Sha2FullKnownKey,
    Sha2FullAskKey,
    Sha2Secure,
    SwitchToSha2,
    Clear,
}
pub const AUTHS: &[Auth] = &[Auth::Native, Auth::NativeSwitch, Auth::Sha2Fast, Auth::Sha2FullKnownKey, Auth::Sha2FullAskKey, Auth::Sha2Secure, Auth::SwitchToSha2, Auth::Clear];

#[derive(Clone, Debug)]
pub enum Step {
    Exec { prep: Option<Vec<Value>>, ok: Ok_, err: Option<SrvErr> },
    Query { prep: Option<Vec<Value>>, rs: Rs, read: How },
    PrepErr { err: SrvErr },
}
#[derive(Clone, Copy, Debug)]
pub enum How {
    Rows,
    Collect,
    One,
    Drop(usize),
    Finish(usize),
}

/// stands for: the field is left as `Default` set it
pub const DEFAULT_TIMEOUT: Duration = Duration::ZERO;

#[derive(Clone, Debug)]
pub struct Script {
    pub greeting: Greeting,
    pub auth: Auth,
    pub password: String,
    pub settings: bool,
    pub db: Option<String>,
    pub steps: Vec<Step>,
    pub timeout: Duration,
    /// the conversation ends with `disconnect`
    pub quit: bool,
}

pub fn gen_params(s: &mut Src) -> Vec<Value> {
    (0..s.usize(4))
        .map(|_| match s.below(5) {
            0 => Value::Null,
            1 => Value::Int(s.int(-5, 1 << 20) as i32),
            2 => Value::Bytes(s.bytes(10)),
            3 => gen_time(s),
            _ => Value::Double(gen_f64(s)),
        })
        .collect()
}

impl Script {
    pub fn gen(s: &mut Src, max_steps: usize) -> Script {
        let mut greeting = gen_greeting(s);
        let auth = *s.pick(AUTHS);
        greeting.plugin = match auth {
            Auth::Native | Auth::NativeSwitch => "mysql_native_password",
            Auth::SwitchToSha2 => "mysql_native_password",
            Auth::Clear => "mysql_clear_password",
            _ => "caching_sha2_password",
        }
        .into();
        let password = match s.below(3) {
            0 => "pw".to_string(),
            1 => "s3cr3t".to_string(),
            _ => "pässwörd".to_string(),
        };
        let n = 1 + s.usize(max_steps);
        let steps = (0..n)
            .map(|_| {
                let prep = if s.bool() { Some(gen_params(s)) } else { None };
                match s.below(8) {
                    0..=1 => Step::Exec { prep, ok: gen_small_ok(s), err: None },
                    2 => Step::Exec { prep, ok: Ok_::default(), err: Some(gen_small_err(s)) },
                    3 => Step::PrepErr { err: gen_small_err(s) },
                    k => {
                        let t = gen_table(s, 3, 3, false);
                        let mut t = t;
                        for c in &mut t.cols {
                            c.name.truncate(if c.name.is_ascii() { 5 } else { c.name.len() });
                        }
                        let end = if k == 4 { End::Err(gen_small_err(s)) } else { End::Done(gen_small_ok(s)) };
                        let read = match s.below(6) {
                            0 | 1 => How::Rows,
                            2 => How::Collect,
                            3 => How::One,
                            4 => How::Drop(s.usize(3)),
                            _ => How::Finish(s.usize(3)),
                        };
                        Step::Query { prep, rs: t.rs(end), read }
                    }
                }
            })
            .collect();
        Script { greeting, auth, password, settings: s.chance(1, 4), db: if s.bool() { Some("db1".into()) } else { None }, steps, timeout: Duration::from_secs(10), quit: s.bool() }
    }

    pub fn show(&self) -> String {
        let st: Vec<String> = self
            .steps
            .iter()
            .map(|x| match x {
                Step::Exec { prep, err, .. } => format!("exec(prepared={} err={})", prep.is_some(), err.is_some()),
                Step::PrepErr { .. } => "prepare-error".into(),
                Step::Query { prep, rs, read } => format!("query(prepared={} {}x{} {:?} err={})", prep.is_some(), rs.cols.len(), rs.rows.len(), read, matches!(rs.end, End::Err(_))),
            })
            .collect();
        format!("login {:?} eof={} settings={} [{}]", self.auth, if self.greeting.caps & cap::DEPRECATE_EOF != 0 { "new" } else { "old" }, self.settings, st.join(", "))
    }

    pub fn link(&self, plan: IoPlan) -> Link {
        self.link_with(plan, None)
    }
    pub fn link_with(&self, plan: IoPlan, mutate: Option<Mutate>) -> Link {
        let steps = self.steps.clone();
        let mut srv = Server::new(
            self.greeting.clone(),
            auth_fn(self.auth, self.greeting.nonce.clone(), self.password.clone()),
            Box::new(move |c, s, out| {
                let idx = |q: &[u8]| -> Option<usize> { std::str::from_utf8(q).ok()?.strip_prefix('q')?.parse().ok() };
                let r = match c {
                    Cmd::Query(q) if q == b"select @@max_allowed_packet" => Resp::rows(vec![Col::new("@@max_allowed_packet", ct::LONGLONG).flags(FLAG_UNSIGNED)], vec![vec![Value::ULong(1 << 24)]]),
                    Cmd::Query(q) => answer(idx(q).and_then(|i| steps.get(i))),
                    Cmd::Prepare(q) => match idx(q).and_then(|i| steps.get(i).map(|x| (i, x))) {
                        Some((_, Step::PrepErr { err })) => Resp::Err(err.clone()),
                        Some((i, Step::Exec { prep, .. })) => prepared(i, prep, &[]),
                        Some((i, Step::Query { prep, rs, .. })) => prepared(i, prep, &rs.cols),
                        None => Resp::ok(),
                    },
                    Cmd::Execute(p) => answer(exec_id(p).and_then(|i| steps.get(i as usize))),
                    c if c.has_response() => Resp::ok(),
                    _ => Resp::None,
                };
                s.respond(out, &r, matches!(c, Cmd::Execute(_)), false);
            }),
        );
        srv.sess.track_ends = true;
        srv.sess.mutate = mutate;
        let link = Link::new(Box::new(srv), plan);
        link.lock().out.no_merge = true;
        link
    }

    fn timeout(&self) -> Duration {
        if self.timeout == DEFAULT_TIMEOUT {
            ConnectionOptions::<Mock<false>>::default().timeout
        } else {
            self.timeout
        }
    }

    async fn connect(&self, link: &Link) -> Result<Connection, Error> {
        let plugin = match self.auth {
            Auth::Native | Auth::NativeSwitch | Auth::SwitchToSha2 | Auth::Clear => None,
            #[cfg(feature = "rsa")]
            _ => Some(AuthPlugin::Sha2),
            #[cfg(not(feature = "rsa"))]
            _ => None::<AuthPlugin>,
        };
        if self.auth == Auth::Sha2Secure {
            let mut o = options::<true>(link);
            o.password = self.password.clone();
            o.auth_plugin = plugin;
            o.db_name = self.db.clone();
            o.timeout = self.timeout();
            if self.settings {
                o.max_allowed_packet = None;
            }
            return Connection::connect(Arc::new(o)).await;
        }
        let mut o = options::<false>(link);
        o.password = self.password.clone();
        o.auth_plugin = plugin;
        o.db_name = self.db.clone();
        o.timeout = self.timeout();
        if self.auth == Auth::Clear {
            o.allow_cleartext_password = true;
        }
        #[cfg(feature = "rsa")]
        if self.auth == Auth::Sha2FullKnownKey {
            let k = key_of(512);
            o.server_key = Some(Arc::new(mysql_connector::PublicKey::new(k.n.clone(), k.e.clone())));
        }
        if self.settings {
            o.max_allowed_packet = None;
        }
        Connection::connect(Arc::new(o)).await
    }

    pub async fn run(&self, link: &Link) -> Trace {
        let mut t = Trace::default();
        let t0 = Instant::now();
        let mut conn = match self.connect(link).await {
            Err(e) => {
                t.error(link, t0, &e);
                t.stopped = true;
                return t;
            }
            Ok(c) => c,
        };
        t.ok(link, "connected".into());
        self.steps(&mut conn, link, &mut t).await;
        if t.fatal.is_none() && self.quit {
            let t0 = Instant::now();
            match conn.disconnect().await {
                Ok(()) => t.ok(link, "disconnected".into()),
                Err(e) => {
                    t.error(link, t0, &e);
                }
            }
            return t;
        }
        if t.fatal.is_some() {
            for _ in 0..2 {
                t.after.push(match conn.execute_query("after").await {
                    Ok(o) => Ok(o.affected_rows()),
                    Err(e) => Err(kind(&e)),
                });
            }
        }
        t
    }

    async fn steps(&self, conn: &mut Connection, link: &Link, t: &mut Trace) {
        macro_rules! tri {
            ($e:expr) => {{
                let t0 = Instant::now();
                match $e.await {
                    Ok(x) => x,
                    Err(e) => {
                        if t.error(link, t0, &e) {
                            continue;
                        }
                        return;
                    }
                }
            }};
        }
        macro_rules! read {
            ($rs:expr, $how:expr) => {{
                let mut rs = $rs;
                t.ok(link, format!("columns {:?}", rs.columns().iter().map(|c| c.name().to_string()).collect::<Vec<_>>()));
                let next = |r: Option<Row>| match r {
                    Some(r) => format!("row {}", digest(&r)),
                    None => "no more rows".into(),
                };
                match $how {
                    How::Rows => {
                        loop {
                            let t0 = Instant::now();
                            match rs.next().await {
                                Ok(r) => {
                                    let end = r.is_none();
                                    t.ok(link, next(r));
                                    if end {
                                        break;
                                    }
                                }
                                Err(e) => {
                                    if t.error(link, t0, &e) {
                                        break;
                                    }
                                    return;
                                }
                            }
                        }
                    }
                    How::Collect => {
                        let v = tri!(rs.collect());
                        t.ok(link, format!("rows {}", v.iter().map(|r| digest(r)).collect::<Vec<_>>().join("|")));
                    }
                    How::One => {
                        let v = tri!(rs.one());
                        t.ok(link, next(v));
                    }
                    How::Drop(k) => {
                        let mut stop = false;
                        for _ in 0..k {
                            let t0 = Instant::now();
                            match rs.next().await {
                                Ok(r) => t.ok(link, next(r)),
                                Err(e) => {
                                    if !t.error(link, t0, &e) {
                                        return;
                                    }
                                    stop = true;
                                }
                            }
                            if stop {
                                break;
                            }
                        }
                    }
                    How::Finish(k) => {
                        let mut stop = false;
                        for _ in 0..k {
                            let t0 = Instant::now();
                            match rs.next().await {
                                Ok(r) => t.ok(link, next(r)),
                                Err(e) => {
                                    if !t.error(link, t0, &e) {
                                        return;
                                    }
                                    stop = true;
                                }
                            }
                            if stop {
                                break;
                            }
                        }
                        if stop {
                            continue;
                        }
                        let o = tri!(rs.finish());
                        t.ok(link, format!("finished {} {:?}", o.warnings(), o.message()));
                    }
                }
            }};
        }
        for (i, st) in self.steps.iter().enumerate() {
            let sql = format!("q{i}");
            match st {
                Step::PrepErr { .. } => {
                    tri!(conn.prepare_statement(&sql));
                    t.ok(link, "prepared?".into());
                }
                Step::Exec { prep: None, .. } => {
                    let o = tri!(conn.execute_query(&sql));
                    t.ok(link, format!("ok {} {} {:?}", o.affected_rows(), o.last_insert_id(), o.message()));
                }
                Step::Exec { prep: Some(p), .. } => {
                    let mut s = tri!(conn.prepare_statement(&sql));
                    t.ok(link, "prepared".into());
                    let o = tri!(s.execute(p));
                    t.ok(link, format!("ok {} {} {:?}", o.affected_rows(), o.last_insert_id(), o.message()));
                }
                Step::Query { prep: None, read, .. } => {
                    let rs = tri!(conn.query::<Row>(&sql));
                    read!(rs, *read);
                }
                Step::Query { prep: Some(p), read, .. } => {
                    let mut s = tri!(conn.prepare_statement(&sql));
                    t.ok(link, "prepared".into());
                    let rs = tri!(s.query::<Value, Row>(p));
                    read!(rs, *read);
                }
            }
        }
        // whatever is left of the last result is read by a last command
        let t0 = Instant::now();
        match conn.execute_query("q999").await {
            Ok(_) => t.ok(link, "last".into()),
            Err(e) => {
                t.error(link, t0, &e);
            }
        }
    }
}

fn prepared(i: usize, prep: &Option<Vec<Value>>, cols: &[Col]) -> Resp {
    let n = prep.as_ref().map_or(0, |p| p.len());
    Resp::Prepared { id: i as u32, params: (0..n).map(|_| Col::new("?", ct::VAR_STRING)).collect(), cols: cols.to_vec(), warnings: 0 }
}
fn answer(st: Option<&Step>) -> Resp {
    match st {
        Some(Step::Exec { err: Some(e), .. }) | Some(Step::PrepErr { err: e }) => Resp::Err(e.clone()),
        Some(Step::Exec { ok, .. }) => Resp::Ok(ok.clone()),
        Some(Step::Query { rs, .. }) => Resp::Rows(rs.clone()),
        None => Resp::ok(),
    }
}

fn digest(r: &[Value]) -> String {
    r.iter().map(short).collect::<Vec<_>>().join(",")
}

pub fn gen_small_ok(s: &mut Src) -> Ok_ {
    Ok_ { affected: s.below(300), insert_id: s.below(300), status: status::AUTOCOMMIT, warnings: s.below(300) as u16, message: s.string(4).into_bytes(), ..Ok_::default() }
}
pub fn gen_small_err(s: &mut Src) -> SrvErr {
    SrvErr::new(1000 + s.below(2000) as u16, "42S02", &s.string(6))
}

pub fn auth_fn(kind: Auth, nonce: Vec<u8>, password: String) -> AuthFn {
    let mut step = 0;
    let _ = (nonce, password);
    Box::new(move |_m, _l, s, out| {
        step += 1;
        let ok = |s: &mut Sess, out: &mut Out| {
            let p = Ok_::default().packet(0, s.caps);
            s.send(out, &p);
            true
        };
        let switch = |s: &mut Sess, out: &mut Out, name: &str| {
            let mut p = vec![0xfe];
            p.extend_from_slice(name.as_bytes());
            p.push(0);
            p.extend_from_slice(b"ABCDEFGHIJKLMNOPQRST\0");
            s.send(out, &p);
            false
        };
        match (kind, step) {
            (Auth::Native | Auth::Clear, _) => ok(s, out),
            (Auth::NativeSwitch, 1) => switch(s, out, "mysql_native_password"),
            (Auth::SwitchToSha2, 1) => switch(s, out, "caching_sha2_password"),
            (Auth::NativeSwitch, _) => ok(s, out),
            (Auth::Sha2Fast | Auth::SwitchToSha2, _) => {
                s.send(out, &[1, 3]);
                ok(s, out)
            }
            (Auth::Sha2Secure | Auth::Sha2FullKnownKey | Auth::Sha2FullAskKey, 1) => {
                s.send(out, &[1, 4]);
                false
            }
            (Auth::Sha2FullAskKey, 2) => {
                let mut p = vec![1];
                p.extend(key_of(512).pem(true, 64, "\n"));
                s.send(out, &p);
                false
            }
            _ => ok(s, out),
        }
    })
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub what: String,
    pub read: u64,
    pub written: u64,
}

#[derive(Default, Debug)]
pub struct Trace {
    pub obs: Vec<Obs>,
    /// an error that is not a server error ended the conversation
    pub fatal: Option<(Kind, String)>,
    /// virtual time the failing call took
    pub fatal_time: Duration,
    pub stopped: bool,
    pub after: Vec<Result<u64, Kind>>,
}

impl Trace {
    fn ok(&mut self, link: &Link, what: String) {
        let l = link.lock();
        self.obs.push(Obs { what, read: l.read_total, written: l.write_total });
    }
    /// true: a server error, the conversation goes on
    fn error(&mut self, link: &Link, t0: Instant, e: &Error) -> bool {
        let k = kind(e);
        let d: String = format!("{e:?}").chars().take(300).collect();
        if k == Kind::Server {
            self.ok(link, format!("server error {d}"));
            true
        } else {
            self.fatal_time = t0.elapsed();
            self.fatal = Some((k, d));
            false
        }
    }
}

/// compare a run with a fault to the clean one: everything observed must be a prefix
pub fn prefix(clean: &Trace, t: &Trace) -> Res {
    for (i, o) in t.obs.iter().enumerate() {
        match clean.obs.get(i) {
            Some(c) if c.what == o.what => {}
            c => return fail("invented", format!("observation {i} is {:?}, without the fault it is {:?}", o.what, c.map(|c| &c.what))),
        }
    }
    Ok(())
}
