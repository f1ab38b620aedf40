//! Reference server: connection phase, command phase, response encoding.
use crate::{
    mock::{Out, Peer, Seg},
    wire::*,
};
use mysql_connector::types::Value;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Greeting {
    pub version: String,
    pub id: u32,
    pub nonce: Vec<u8>,
    pub caps: u32,
    pub charset: u8,
    pub status: u16,
    pub plugin: String,
    /// write the terminating NUL of the plugin name
    pub plugin_nul: bool,
    /// announced length of the challenge; the rest up to it is zeros
    pub auth_len: u8,
}

pub const BASE_CAPS: u32 = cap::LONG_PASSWORD
    | cap::FOUND_ROWS
    | cap::LONG_FLAG
    | cap::CONNECT_WITH_DB
    | cap::PROTOCOL_41
    | cap::TRANSACTIONS
    | cap::SECURE_CONNECTION
    | cap::MULTI_RESULTS
    | cap::PS_MULTI_RESULTS
    | cap::PLUGIN_AUTH;

impl Default for Greeting {
    fn default() -> Self {
        Greeting {
            version: "8.0.36".into(),
            id: 7,
            nonce: b"abcdefghijklmnopqrst".to_vec(),
            caps: BASE_CAPS | cap::DEPRECATE_EOF,
            charset: 45,
            status: status::AUTOCOMMIT,
            plugin: "mysql_native_password".into(),
            plugin_nul: true,
            auth_len: 21,
        }
    }
}

impl Greeting {
    pub fn packet(&self) -> Vec<u8> {
        let mut b = vec![10];
        b.extend_from_slice(self.version.as_bytes());
        b.push(0);
        b.extend_from_slice(&self.id.to_le_bytes());
        b.extend_from_slice(&self.nonce[..8]);
        b.push(0);
        b.extend_from_slice(&(self.caps as u16).to_le_bytes());
        b.push(self.charset);
        b.extend_from_slice(&self.status.to_le_bytes());
        b.extend_from_slice(&((self.caps >> 16) as u16).to_le_bytes());
        b.push(if self.caps & cap::PLUGIN_AUTH != 0 { self.auth_len } else { 0 });
        b.extend_from_slice(&[0; 10]);
        b.extend_from_slice(&self.nonce[8..20]);
        let rest = if self.caps & cap::PLUGIN_AUTH != 0 { self.auth_len.saturating_sub(20) as usize } else { 1 };
        b.resize(b.len() + rest.max(1), 0);
        if self.caps & cap::PLUGIN_AUTH != 0 {
            b.extend_from_slice(self.plugin.as_bytes());
            if self.plugin_nul {
                b.push(0);
            }
        }
        b
    }
}

/// The client's login request, decoded under the flags it declares.
#[derive(Clone, Debug, Default)]
pub struct Login {
    pub caps: u32,
    pub max_packet: u32,
    pub charset: u8,
    pub user: Vec<u8>,
    pub auth: Vec<u8>,
    pub db: Option<Vec<u8>>,
    pub plugin: Option<Vec<u8>>,
}

impl Login {
    pub fn parse(p: &[u8]) -> Result<Login, String> {
        let mut r = Rd(p);
        let caps = r.u32()?;
        if caps & cap::PROTOCOL_41 == 0 {
            return Err("client does not declare PROTOCOL_41".into());
        }
        let max_packet = r.u32()?;
        let charset = r.u8()?;
        if r.take(23)?.iter().any(|x| *x != 0) {
            return Err("filler not zero".into());
        }
        let user = r.nulstr()?.to_vec();
        let auth = if caps & cap::LENENC_AUTH != 0 {
            r.lenstr()?.to_vec()
        } else if caps & cap::SECURE_CONNECTION != 0 {
            let n = r.u8()?;
            r.take(n as usize)?.to_vec()
        } else {
            r.nulstr()?.to_vec()
        };
        let db = if caps & cap::CONNECT_WITH_DB != 0 { Some(r.nulstr()?.to_vec()) } else { None };
        let plugin = if caps & cap::PLUGIN_AUTH != 0 { Some(r.nulstr()?.to_vec()) } else { None };
        if caps & cap::CONNECT_ATTRS != 0 {
            let n = r.lenenc()?;
            r.take(n as usize)?;
        }
        if !r.0.is_empty() {
            return Err(format!("{} trailing bytes in login request", r.0.len()));
        }
        Ok(Login { caps, max_packet, charset, user, auth, db, plugin })
    }
}

// ---------------------------------------------------------------- responses

#[derive(Clone, Debug)]
pub struct Rs {
    pub cols: Vec<Col>,
    pub rows: Vec<Vec<Value>>,
    pub styles: Vec<Vec<Style>>,
    pub end: End,
    /// status/warnings of the EOF after the column definitions (old protocol)
    pub mid: Ok_,
}

#[derive(Clone, Debug)]
pub enum End {
    Done(Ok_),
    Err(SrvErr),
}

#[derive(Clone, Debug)]
pub enum Resp {
    Ok(Ok_),
    Err(SrvErr),
    Rows(Rs),
    Multi(Vec<Resp>),
    Prepared { id: u32, params: Vec<Col>, cols: Vec<Col>, warnings: u16 },
    PrepErrAfter { id: u32, err: SrvErr },
    Raw(Vec<Vec<u8>>),
    Delayed(Duration, Box<Resp>),
    None,
}

impl Resp {
    pub fn ok() -> Resp {
        Resp::Ok(Ok_::default())
    }
    pub fn err(code: u16, state: &str, msg: &str) -> Resp {
        Resp::Err(SrvErr::new(code, state, msg))
    }
    pub fn rows(cols: Vec<Col>, rows: Vec<Vec<Value>>) -> Resp {
        Resp::Rows(Rs { cols, rows, styles: vec![], end: End::Done(Ok_::default()), mid: Ok_::default() })
    }
}

pub struct Sess {
    pub caps: u32,
    pub seq: u8,
    /// packets sent since the connection began
    pub sent: u64,
    /// flip the sequence number of packet number .0 by .1
    pub bad_seq: Option<(u64, u8)>,
    pub delay_before_packet: Option<Duration>,
    /// a pause after that many bytes of every packet (including its header)
    pub delay_inside: Option<(usize, Duration)>,
    /// bounds of the packets sent: end offsets in the byte stream
    pub ends: Vec<u64>,
    pub bytes: u64,
    pub track_ends: bool,
    /// replaces the bytes of a packet (number, payload) → raw bytes to send, None: send as usual
    pub mutate: Option<Mutate>,
}
pub type Mutate = Box<dyn FnMut(u64, &[u8], u8) -> Option<Vec<u8>> + Send>;

impl Sess {
    pub fn send(&mut self, out: &mut Out, payload: &[u8]) {
        if let Some(m) = &mut self.mutate {
            if let Some(raw) = m(self.sent, payload, self.seq) {
                self.bytes += raw.len() as u64;
                self.seq = self.seq.wrapping_add(1);
                self.sent += 1;
                out.bytes(raw);
                return;
            }
        }
        let mut p = payload;
        loop {
            let n = p.len().min(MAX);
            let mut seq = self.seq;
            if let Some((k, d)) = self.bad_seq {
                if k == self.sent {
                    seq = seq.wrapping_add(d);
                }
            }
            let mut b = Vec::with_capacity(n + 4);
            b.extend_from_slice(&(n as u32).to_le_bytes()[..3]);
            b.push(seq);
            b.extend_from_slice(&p[..n]);
            if let Some(d) = self.delay_before_packet {
                out.seg(Seg::Delay(d));
            }
            self.bytes += b.len() as u64;
            if self.track_ends {
                self.ends.push(self.bytes);
            }
            match self.delay_inside {
                Some((k, d)) if k < b.len() => {
                    let rest = b.split_off(k);
                    out.bytes(b);
                    out.seg(Seg::Delay(d));
                    out.bytes(rest);
                }
                _ => out.bytes(b),
            }
            self.seq = self.seq.wrapping_add(1);
            self.sent += 1;
            p = &p[n..];
            if n < MAX {
                break;
            }
        }
    }
    pub fn deprecate_eof(&self) -> bool {
        self.caps & cap::DEPRECATE_EOF != 0
    }
    pub fn send_end(&mut self, out: &mut Out, ok: &Ok_) {
        let p = if self.deprecate_eof() { ok.packet(0xfe, self.caps) } else { ok.old_eof() };
        self.send(out, &p);
    }
    pub fn respond(&mut self, out: &mut Out, r: &Resp, binary: bool, more: bool) {
        let fix = |o: &Ok_| {
            let mut o = o.clone();
            if more {
                o.status |= status::MORE_RESULTS
            } else {
                o.status &= !status::MORE_RESULTS
            }
            o
        };
        match r {
            Resp::Ok(o) => {
                let p = fix(o).packet(0, self.caps);
                self.send(out, &p)
            }
            Resp::Err(e) => self.send(out, &e.packet()),
            Resp::Rows(rs) => {
                let mut h = Vec::new();
                put_lenenc(&mut h, rs.cols.len() as u64);
                self.send(out, &h);
                for c in &rs.cols {
                    self.send(out, &c.packet());
                }
                if !self.deprecate_eof() {
                    let e = fix(&rs.mid).old_eof();
                    self.send(out, &e);
                }
                for (i, row) in rs.rows.iter().enumerate() {
                    let st: &[Style] = rs.styles.get(i).map(|x| &x[..]).unwrap_or(&[]);
                    let p = if binary { bin_row(row, st) } else { text_row(row, st) };
                    self.send(out, &p);
                }
                match &rs.end {
                    End::Done(o) => {
                        let o = fix(o);
                        self.send_end(out, &o)
                    }
                    End::Err(e) => self.send(out, &e.packet()),
                }
            }
            // a server refuses more than one result of a prepared statement to a client that has not asked for them
            Resp::Multi(v) if binary && v.len() > 1 && self.caps & cap::PS_MULTI_RESULTS == 0 => {
                let e = SrvErr::new(1312, "0A000", "can't return a result set in the given context");
                self.send(out, &e.packet())
            }
            Resp::Multi(v) => {
                for (i, r) in v.iter().enumerate() {
                    self.respond(out, r, binary, i + 1 < v.len());
                }
            }
            Resp::Prepared { id, params, cols, warnings } => {
                self.send(out, &prepare_ok(*id, cols.len() as u16, params.len() as u16, *warnings));
                for c in params {
                    self.send(out, &c.packet());
                }
                if !params.is_empty() && !self.deprecate_eof() {
                    self.send(out, &Ok_::default().old_eof());
                }
                for c in cols {
                    self.send(out, &c.packet());
                }
                if !cols.is_empty() && !self.deprecate_eof() {
                    self.send(out, &Ok_::default().old_eof());
                }
            }
            Resp::PrepErrAfter { err, .. } => self.send(out, &err.packet()),
            Resp::Raw(v) => {
                for p in v {
                    self.send(out, p);
                }
            }
            Resp::Delayed(d, r) => {
                out.seg(Seg::Delay(*d));
                self.respond(out, r, binary, more);
            }
            Resp::None => {}
        }
    }
}

pub type CmdFn = Box<dyn FnMut(&Cmd, &mut Sess, &mut Out) + Send>;
/// returns true when the login is finished and the command phase begins
pub type AuthFn = Box<dyn FnMut(&[u8], &Login, &mut Sess, &mut Out) -> bool + Send>;

pub struct Server {
    pub greeting: Greeting,
    pub login: Option<Login>,
    pub sess: Sess,
    pub in_command_phase: bool,
    auth: AuthFn,
    cmd: CmdFn,
    raw: Vec<u8>,
    raw_off: usize,
    msg: Vec<u8>,
    /// sequence number expected next from the client (None: a new command)
    expect: Option<u8>,
    /// deviations of the client from the protocol
    pub bad: Vec<String>,
    pub log: Vec<Cmd>,
    pub keep_log: bool,
    /// what to send instead of a greeting
    pub instead: Option<Vec<u8>>,
    pub packets_in: u64,
    /// all complete messages of the connection phase from the client
    pub auth_msgs: Vec<Vec<u8>>,
    pub quit: bool,
    pub check_unread: bool,
    pub muted: bool,
}

pub fn accept_all() -> AuthFn {
    Box::new(|_msg, _l, s, out| {
        let p = Ok_::default().packet(0, s.caps);
        s.send(out, &p);
        true
    })
}

impl Server {
    pub fn new(greeting: Greeting, auth: AuthFn, cmd: CmdFn) -> Server {
        Server {
            greeting,
            login: None,
            sess: Sess { caps: 0, seq: 0, sent: 0, bad_seq: None, delay_before_packet: None, delay_inside: None, ends: vec![], bytes: 0, track_ends: false, mutate: None },
            in_command_phase: false,
            auth,
            cmd,
            raw: Vec::new(),
            raw_off: 0,
            msg: Vec::new(),
            expect: Some(1),
            bad: Vec::new(),
            log: Vec::new(),
            keep_log: true,
            instead: None,
            packets_in: 0,
            auth_msgs: Vec::new(),
            quit: false,
            check_unread: false,
            muted: false,
        }
    }
    /// answers every command with the closure's response
    pub fn simple(greeting: Greeting, mut f: impl FnMut(&Cmd) -> Resp + Send + 'static) -> Server {
        Server::new(
            greeting,
            accept_all(),
            Box::new(move |c, s, out| {
                let r = f(c);
                s.respond(out, &r, matches!(c, Cmd::Execute(_)), false);
            }),
        )
    }
    fn packet(&mut self, seq: u8, payload: Vec<u8>, out: &mut Out) {
        self.packets_in += 1;
        let len = payload.len();
        match self.expect {
            Some(e) => {
                if seq != e {
                    self.bad.push(format!("packet with sequence {seq}, expected {e} (message so far {} bytes)", self.msg.len()));
                }
            }
            None => {
                if seq != 0 {
                    self.bad.push(format!("command begins with sequence {seq}"));
                }
                if self.check_unread && out.unread() > 0 {
                    let cmd = payload.first().copied().unwrap_or(0);
                    self.bad.push(format!("command {cmd} sent while {} response bytes are unread", out.unread()));
                }
            }
        }
        self.expect = Some(seq.wrapping_add(1));
        if self.msg.is_empty() {
            self.msg = payload;
        } else {
            self.msg.extend_from_slice(&payload);
        }
        if len == MAX {
            return;
        }
        let m = std::mem::take(&mut self.msg);
        self.sess.seq = seq.wrapping_add(1);
        if self.in_command_phase {
            let c = Cmd::parse(m);
            if c == Cmd::Quit {
                self.quit = true;
            }
            if !self.muted {
                (self.cmd)(&c, &mut self.sess, out);
            }
            if self.keep_log {
                self.log.push(c);
            }
            self.expect = None;
        } else {
            if self.login.is_none() {
                match Login::parse(&m) {
                    Ok(l) => {
                        self.sess.caps = l.caps & self.greeting.caps;
                        if l.caps & !self.greeting.caps & !cap::CONNECT_ATTRS != 0 {
                            self.bad.push(format!("client declares capabilities {:#x} the server did not offer", l.caps & !self.greeting.caps));
                        }
                        self.login = Some(l);
                    }
                    Err(e) => {
                        self.bad.push(format!("login request: {e}"));
                        self.muted = true;
                        return;
                    }
                }
            }
            self.auth_msgs.push(m.clone());
            let l = self.login.clone().unwrap();
            if !self.muted && (self.auth)(&m, &l, &mut self.sess, out) {
                self.in_command_phase = true;
                self.expect = None;
            } else {
                self.expect = Some(self.sess.seq);
            }
        }
    }
}

impl Peer for Server {
    fn start(&mut self, out: &mut Out) {
        let p = match &self.instead {
            Some(p) => p.clone(),
            None => self.greeting.packet(),
        };
        self.sess.send(out, &p);
        self.expect = Some(self.sess.seq);
    }
    fn input(&mut self, bytes: &[u8], out: &mut Out) {
        self.raw.extend_from_slice(bytes);
        loop {
            let r = &self.raw[self.raw_off..];
            if r.len() < 4 {
                break;
            }
            let n = r[0] as usize | (r[1] as usize) << 8 | (r[2] as usize) << 16;
            if r.len() < 4 + n {
                break;
            }
            let seq = r[3];
            let payload = r[4..4 + n].to_vec();
            self.raw_off += 4 + n;
            self.packet(seq, payload, out);
        }
        if self.raw_off > 0 {
            self.raw.drain(..self.raw_off);
            self.raw_off = 0;
        }
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// bytes of an unfinished packet left over from the client
impl Server {
    pub fn partial(&self) -> usize {
        self.raw.len() + self.msg.len()
    }
}
