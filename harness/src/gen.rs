//! Shared generators and client helpers.
use crate::{
    engine::Src,
    mock::*,
    server::*,
    wire::*,
};
use mysql_connector::{types::{AuthPlugin, Value}, Connection, ConnectionOptions, Error};
use std::{sync::Arc, time::Duration};

// ---------------------------------------------------------------- client helpers

pub fn options<const S: bool>(link: &Link) -> ConnectionOptions<Mock<S>> {
    ConnectionOptions {
        user: "root".into(),
        password: String::new(),
        db_name: None,
        connection: Dial::One(link.clone()),
        max_allowed_packet: Some(64 << 20),
        timeout: Duration::from_secs(10),
        auth_plugin: Some(AuthPlugin::Native),
        #[cfg(not(feature = "time"))]
        sleep: Some(&|d| Box::pin(tokio::time::sleep(d))),
        // no clear text passwords, no known key
        ..ConnectionOptions::default()
    }
}

pub async fn connect(link: &Link) -> Result<Connection, Error> {
    Connection::connect(Arc::new(options::<false>(link))).await
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kind {
    Server,
    TimedOut,
    Io,
    OutOfSync,
    Protocol,
    Runtime,
}

pub fn kind(e: &Error) -> Kind {
    use mysql_connector::error::{Error as E, ProtocolError as P};
    match e {
        E::Server(_) => Kind::Server,
        E::Runtime(_) => Kind::Runtime,
        E::Protocol(P::Io(e)) if e.kind() == std::io::ErrorKind::TimedOut => Kind::TimedOut,
        E::Protocol(P::Io(_)) => Kind::Io,
        E::Protocol(P::OutOfSync) => Kind::OutOfSync,
        E::Protocol(_) => Kind::Protocol,
    }
}

/// Is `e` the server error `s`, exactly?
pub fn is_err(e: &Error, s: &SrvErr) -> bool {
    if kind(e) != Kind::Server {
        return false;
    }
    let d = format!("{e:?}");
    d.contains(&format!("code: {},", s.code)) && d.contains(&format!("state: {:?}", std::str::from_utf8(&s.state).unwrap())) && d.contains(&format!("message: {:?}", s.msg))
}
pub fn is_err_nostate(e: &Error, s: &SrvErr) -> bool {
    if kind(e) != Kind::Server {
        return false;
    }
    let d = format!("{e:?}");
    d.contains(&format!("code: {},", s.code)) && d.contains(&format!("message: {:?}", s.msg))
}

/// violations the reference server noticed
pub fn server_bad(link: &Link) -> Option<String> {
    link.with::<Server, _>(|s| s.bad.first().cloned())
}

// ---------------------------------------------------------------- generators

pub fn gen_name(s: &mut Src) -> String {
    match s.below(12) {
        0 => String::new(),
        1 => "a".repeat(*s.pick(&[249usize, 250, 251, 252, 253, 254, 255, 256, 300])),
        2 => "ä".repeat(*s.pick(&[1usize, 124, 125, 126, 127, 128])),
        3 | 4 => s.string(12),
        5 => format!("{}.{}", s.string(3), s.string(3)),
        _ => {
            let n = 1 + s.usize(6);
            (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
        }
    }
}

pub const SUPPORTED: &[u8] = &[
    ct::TINY, ct::SHORT, ct::LONG, ct::LONGLONG, ct::INT24, ct::YEAR, ct::FLOAT, ct::DOUBLE, ct::NULL, ct::TIMESTAMP, ct::DATE, ct::TIME,
    ct::DATETIME, ct::DECIMAL, ct::VARCHAR, ct::BIT, ct::JSON, ct::NEWDECIMAL, ct::ENUM, ct::SET, ct::TINY_BLOB, ct::MEDIUM_BLOB,
    ct::LONG_BLOB, ct::BLOB, ct::VAR_STRING, ct::STRING, ct::GEOMETRY,
];

pub fn gen_col(s: &mut Src) -> Col {
    let ty = *s.pick(SUPPORTED);
    let rich = s.chance(1, 3);
    let mut c = Col::new("c", ty);
    c.name = gen_name(s);
    if rich {
        c.schema = gen_name(s);
        c.table = gen_name(s);
        c.org_table = gen_name(s);
        c.org_name = gen_name(s);
        c.charset = s.below(65536) as u16;
        c.length = s.below(1 << 32) as u32;
        c.decimals = s.below(256) as u8;
        c.flags = s.below(65536) as u16;
    } else {
        c.flags = if s.bool() { FLAG_UNSIGNED } else { 0 };
    }
    c
}

pub fn gen_f32(s: &mut Src) -> f32 {
    match s.below(5) {
        0 => *s.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 16777216.0, 16777217.0, 1e10, 1e-10, 123456.79]),
        1 => s.int(-100000, 100000) as f32 / *s.pick(&[1.0f32, 10.0, 100.0, 8.0]),
        _ => loop {
            let f = f32::from_bits(s.below(1 << 32) as u32);
            if f.is_finite() {
                break f;
            }
            return 1.5;
        },
    }
}
pub fn gen_f64(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => *s.pick(&[0.0f64, -0.0, 1.0, -1.0, 0.1, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, 1e22, 1e23, 1e-7, 123456789.123456789]),
        1 => s.int(-100000, 100000) as f64 / *s.pick(&[1.0f64, 10.0, 100.0, 8.0]),
        _ => {
            let f = f64::from_bits(s.u64());
            if f.is_finite() {
                f
            } else {
                2.5
            }
        }
    }
}

pub fn gen_len(s: &mut Src, big: bool) -> usize {
    match s.below(12) {
        0 => 0,
        1..=7 => s.usize(20),
        8 => *s.pick(&[249usize, 250, 251, 252, 253, 254, 255, 256, 257]),
        9 => s.usize(2000),
        10 if big => *s.pick(&[65534usize, 65535, 65536, 65537]),
        11 if big => s.usize(100_000),
        _ => s.usize(300),
    }
}

pub fn gen_bytes_val(s: &mut Src, big: bool) -> Vec<u8> {
    let n = gen_len(s, big);
    if n <= 20 {
        let mut b = s.bytes(20);
        b.truncate(n);
        b
    } else {
        s.blob(n)
    }
}

pub fn gen_usec(s: &mut Src) -> u32 {
    match s.below(3) {
        0 => 0,
        1 => *s.pick(&[1u32, 10, 100_000, 999_999, 500_000, 123_456, 50, 1000, 120_000, 10_000]),
        _ => s.below(1_000_000) as u32,
    }
}

pub fn gen_date(s: &mut Src) -> (u16, u8, u8) {
    match s.below(4) {
        0 => (0, 0, 0),
        1 => *s.pick(&[(9999u16, 12u8, 31u8), (1000, 1, 1), (1970, 1, 1), (2024, 2, 29), (0, 1, 1), (2020, 0, 0), (1, 2, 3)]),
        _ => (s.range(0, 9999) as u16, s.range(0, 12) as u8, s.range(0, 31) as u8),
    }
}
pub fn gen_hms(s: &mut Src) -> (u8, u8, u8) {
    match s.below(3) {
        0 => (0, 0, 0),
        1 => *s.pick(&[(23u8, 59u8, 59u8), (0, 0, 1), (0, 1, 0), (1, 0, 0), (12, 0, 0)]),
        _ => (s.below(24) as u8, s.below(60) as u8, s.below(60) as u8),
    }
}
/// a TIME value within MySQL's range (±838:59:59.999999); zero is never negative
pub fn gen_time(s: &mut Src) -> Value {
    let (h, m, sec) = gen_hms(s);
    let d = match s.below(3) {
        0 => 0,
        1 => *s.pick(&[1u32, 33, 34]),
        _ => s.below(35) as u32,
    };
    let h = if d == 34 { h.min(22) } else { h };
    let us = gen_usec(s);
    let neg = s.chance(1, 3) && (d, h, m, sec, us) != (0, 0, 0, 0, 0);
    Value::Time(neg, d, h, m, sec, us)
}

pub fn gen_cell(s: &mut Src, c: &Col, big: bool) -> (Value, Style) {
    let mut st = Style::default();
    if c.ty == ct::NULL {
        return (Value::Null, st);
    }
    if c.flags & FLAG_NOT_NULL == 0 && s.chance(1, 6) {
        return (Value::Null, st);
    }
    let u = c.unsigned();
    let v = match c.ty {
        ct::TINY => {
            if u {
                Value::UTiny(s.int(0, 255) as u8)
            } else {
                Value::Tiny(s.int(-128, 127) as i8)
            }
        }
        ct::SHORT | ct::YEAR => {
            if u {
                Value::UShort(s.int(0, 65535) as u16)
            } else {
                Value::Short(s.int(-32768, 32767) as i16)
            }
        }
        ct::LONG => {
            if u {
                Value::UInt(s.int(0, u32::MAX as i128) as u32)
            } else {
                Value::Int(s.int(i32::MIN as i128, i32::MAX as i128) as i32)
            }
        }
        ct::INT24 => {
            if u {
                Value::UInt(s.int(0, 0xff_ffff) as u32)
            } else {
                Value::Int(s.int(-0x80_0000, 0x7f_ffff) as i32)
            }
        }
        ct::LONGLONG => {
            if u {
                Value::ULong(s.int(0, u64::MAX as i128) as u64)
            } else {
                Value::Long(s.int(i64::MIN as i128, i64::MAX as i128) as i64)
            }
        }
        ct::FLOAT => Value::Float(gen_f32(s)),
        ct::DOUBLE => Value::Double(gen_f64(s)),
        ct::DATE => {
            let (y, m, d) = gen_date(s);
            Value::Date(y, m, d)
        }
        ct::DATETIME | ct::TIMESTAMP => {
            let (y, m, d) = gen_date(s);
            let (h, mi, sec) = gen_hms(s);
            Value::Datetime(y, m, d, h, mi, sec, gen_usec(s))
        }
        // beyond MySQL's range, but within that of `Value::Time`
        ct::TIME if s.chance(1, 16) => match gen_time(s) {
            Value::Time(neg, _, h, m, sec, us) => Value::Time(neg, s.int(35, (u32::MAX / 24 - 1) as i128) as u32, h, m, sec, us),
            v => v,
        },
        ct::TIME => gen_time(s),
        _ => Value::Bytes(gen_bytes_val(s, big)),
    };
    st.frac = s.below(7) as u8;
    st.longer = s.below(4) as u8;
    st.exp = s.bool();
    st.close = c.ty == ct::FLOAT && s.chance(1, 3);
    st.zerofill = if u && s.chance(1, 4) { s.below(21) as u8 } else { 0 };
    (v, st)
}

pub fn gen_ok(s: &mut Src) -> Ok_ {
    let n = |s: &mut Src| -> u64 {
        match s.below(4) {
            0 => 0,
            1 => *s.pick(&[1u64, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, 0xffff_ffff, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63]),
            2 => s.below(1000),
            _ => s.u64(),
        }
    };
    let affected = n(s);
    let insert_id = n(s);
    let mut status = s.below(65536) as u16 & !(status::MORE_RESULTS | status::SESSION_CHANGED);
    if s.bool() {
        status = status::AUTOCOMMIT;
    }
    let warnings = s.int(0, 65535) as u16;
    let message = match s.below(4) {
        0 | 1 => String::new(),
        2 => s.string(20),
        _ => "m".repeat(*s.pick(&[1usize, 250, 251, 300, 70000])),
    };
    Ok_ {
        affected,
        insert_id,
        status,
        warnings,
        message: message.into_bytes(),
        session: if s.chance(1, 4) { Some(s.bytes(12)) } else { None },
        widths: (s.below(4) as u8, s.below(4) as u8),
        omit_message: s.bool(),
    }
}

pub fn gen_err(s: &mut Src) -> SrvErr {
    let code = match s.below(3) {
        0 => *s.pick(&[1040u16, 1045, 1064, 1205, 1062, 1, 255, 256, 65534, 65535, 0xfefe, 0xff00, 0]),
        _ => s.below(65536) as u16,
    };
    let state: Vec<u8> = (0..5).map(|_| *s.pick(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")).collect();
    let msg = match s.below(5) {
        0 => String::new(),
        1 => "x".repeat(*s.pick(&[250usize, 251, 512, 5000])),
        _ => s.string(30),
    };
    SrvErr { code, state: state.try_into().unwrap(), msg }
}

pub struct Table {
    pub cols: Vec<Col>,
    pub rows: Vec<Vec<Value>>,
    pub styles: Vec<Vec<Style>>,
}

pub fn gen_table(s: &mut Src, max_cols: usize, max_rows: usize, big: bool) -> Table {
    let nc = match s.below(8) {
        0 => 1,
        1 => *s.pick(&[5usize, 6, 7, 8, 9, 13, 14, 15, 16, 17]),
        _ => 1 + s.usize(max_cols.min(8)),
    }
    .min(max_cols);
    let cols: Vec<Col> = (0..nc).map(|_| gen_col(s)).collect();
    let nr = s.usize(max_rows + 1);
    let mut rows = Vec::new();
    let mut styles = Vec::new();
    for _ in 0..nr {
        let mut r = Vec::new();
        let mut st = Vec::new();
        for c in &cols {
            let (v, t) = gen_cell(s, c, big);
            r.push(v);
            st.push(t);
        }
        rows.push(r);
        styles.push(st);
    }
    Table { cols, rows, styles }
}

impl Table {
    pub fn rs(&self, end: End) -> Rs {
        Rs { cols: self.cols.clone(), rows: self.rows.clone(), styles: self.styles.clone(), end, mid: Ok_::default() }
    }
    pub fn show(&self) -> String {
        let t: Vec<String> = self.cols.iter().take(8).map(|c| format!("{}{}", c.ty, if c.unsigned() { "u" } else { "" })).collect();
        format!("{} cols(types {}…) × {} rows, first row {}", self.cols.len(), t.join(","), self.rows.len(), self.rows.first().map(|r| short_row(r)).unwrap_or("-".into()))
    }
}

pub fn columns_equal(got: &[mysql_connector::types::Column], want: &[Col]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} columns reported, {} sent", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        if g.name() != w.name || g.org_name() != w.org_name || g.table() != w.table || g.org_table() != w.org_table {
            return Err(format!("column names: got {:?}/{:?}/{:?}/{:?}, sent {:?}/{:?}/{:?}/{:?}", g.name(), g.org_name(), g.table(), g.org_table(), w.name, w.org_name, w.table, w.org_table));
        }
        if g.r#type() as u8 != w.ty {
            return Err(format!("column type: got {}, sent {}", g.r#type() as u8, w.ty));
        }
        if g.flags().bits() != w.flags {
            return Err(format!("column flags: got {:#x}, sent {:#x}", g.flags().bits(), w.flags));
        }
    }
    Ok(())
}

/// greeting with or without the new end-of-rows encoding
pub fn gen_greeting(s: &mut Src) -> Greeting {
    let mut g = Greeting::default();
    if s.chance(1, 3) {
        g.caps &= !cap::DEPRECATE_EOF;
    }
    if s.chance(1, 3) {
        g.caps |= cap::SESSION_TRACK | cap::MULTI_STATEMENTS | cap::LENENC_AUTH | cap::CONNECT_ATTRS;
    }
    if s.chance(1, 6) {
        g.auth_len = *s.pick(&[0u8, 1, 8, 13, 20, 22, 23, 40, 128, 254, 255]);
    }
    g
}
