//! Independent MySQL wire encoding/decoding (server side).
use mysql_connector::types::Value;
use std::collections::HashMap;

pub const MAX: usize = 0xFF_FFFF;

pub mod cap {
    pub const LONG_PASSWORD: u32 = 1;
    pub const FOUND_ROWS: u32 = 2;
    pub const LONG_FLAG: u32 = 4;
    pub const CONNECT_WITH_DB: u32 = 8;
    pub const COMPRESS: u32 = 0x20;
    pub const LOCAL_FILES: u32 = 0x80;
    pub const PROTOCOL_41: u32 = 0x200;
    pub const SSL: u32 = 0x800;
    pub const TRANSACTIONS: u32 = 0x2000;
    pub const SECURE_CONNECTION: u32 = 0x8000;
    pub const MULTI_STATEMENTS: u32 = 1 << 16;
    pub const MULTI_RESULTS: u32 = 1 << 17;
    pub const PS_MULTI_RESULTS: u32 = 1 << 18;
    pub const PLUGIN_AUTH: u32 = 1 << 19;
    pub const CONNECT_ATTRS: u32 = 1 << 20;
    pub const LENENC_AUTH: u32 = 1 << 21;
    pub const SESSION_TRACK: u32 = 1 << 23;
    pub const DEPRECATE_EOF: u32 = 1 << 24;
    pub const OPTIONAL_METADATA: u32 = 1 << 25;
    pub const QUERY_ATTRIBUTES: u32 = 1 << 27;
}

pub mod status {
    pub const IN_TRANS: u16 = 1;
    pub const AUTOCOMMIT: u16 = 2;
    pub const MORE_RESULTS: u16 = 8;
    pub const SESSION_CHANGED: u16 = 0x4000;
}

pub mod ct {
    pub const DECIMAL: u8 = 0;
    pub const TINY: u8 = 1;
    pub const SHORT: u8 = 2;
    pub const LONG: u8 = 3;
    pub const FLOAT: u8 = 4;
    pub const DOUBLE: u8 = 5;
    pub const NULL: u8 = 6;
    pub const TIMESTAMP: u8 = 7;
    pub const LONGLONG: u8 = 8;
    pub const INT24: u8 = 9;
    pub const DATE: u8 = 10;
    pub const TIME: u8 = 11;
    pub const DATETIME: u8 = 12;
    pub const YEAR: u8 = 13;
    pub const NEWDATE: u8 = 14;
    pub const VARCHAR: u8 = 15;
    pub const BIT: u8 = 16;
    pub const TIMESTAMP2: u8 = 17;
    pub const DATETIME2: u8 = 18;
    pub const TIME2: u8 = 19;
    pub const TYPED_ARRAY: u8 = 20;
    pub const UNKNOWN: u8 = 243;
    pub const JSON: u8 = 245;
    pub const NEWDECIMAL: u8 = 246;
    pub const ENUM: u8 = 247;
    pub const SET: u8 = 248;
    pub const TINY_BLOB: u8 = 249;
    pub const MEDIUM_BLOB: u8 = 250;
    pub const LONG_BLOB: u8 = 251;
    pub const BLOB: u8 = 252;
    pub const VAR_STRING: u8 = 253;
    pub const STRING: u8 = 254;
    pub const GEOMETRY: u8 = 255;

    pub const STRINGS: &[u8] = &[
        DECIMAL, VARCHAR, BIT, JSON, NEWDECIMAL, ENUM, SET, TINY_BLOB, MEDIUM_BLOB, LONG_BLOB, BLOB, VAR_STRING, STRING, GEOMETRY,
    ];
    pub const INTS: &[u8] = &[TINY, SHORT, LONG, LONGLONG, INT24, YEAR];
    pub const ALL: &[u8] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 243, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255,
    ];
}

pub const FLAG_NOT_NULL: u16 = 1;
pub const FLAG_UNSIGNED: u16 = 32;
pub const FLAG_ZEROFILL: u16 = 64;

pub fn put_lenenc(b: &mut Vec<u8>, n: u64) {
    if n < 251 {
        b.push(n as u8)
    } else if n < 1 << 16 {
        b.push(0xfc);
        b.extend_from_slice(&(n as u16).to_le_bytes())
    } else if n < 1 << 24 {
        b.push(0xfd);
        b.extend_from_slice(&(n as u32).to_le_bytes()[..3])
    } else {
        b.push(0xfe);
        b.extend_from_slice(&n.to_le_bytes())
    }
}
/// encode with a chosen (possibly wider than needed) width: 0 = minimal, 1 = fc, 2 = fd, 3 = fe
pub fn put_lenenc_w(b: &mut Vec<u8>, n: u64, w: u8) {
    match w {
        1 if n < 1 << 16 => {
            b.push(0xfc);
            b.extend_from_slice(&(n as u16).to_le_bytes())
        }
        2 if n < 1 << 24 => {
            b.push(0xfd);
            b.extend_from_slice(&(n as u32).to_le_bytes()[..3])
        }
        3 => {
            b.push(0xfe);
            b.extend_from_slice(&n.to_le_bytes())
        }
        _ => put_lenenc(b, n),
    }
}
pub fn put_lenstr(b: &mut Vec<u8>, s: &[u8]) {
    put_lenenc(b, s.len() as u64);
    b.extend_from_slice(s)
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("short: need {n}, have {}", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn lenenc(&mut self) -> Result<u64, String> {
        Ok(match self.u8()? {
            0xfc => self.u16()? as u64,
            0xfd => {
                let b = self.take(3)?;
                b[0] as u64 | (b[1] as u64) << 8 | (b[2] as u64) << 16
            }
            0xfe => self.u64()?,
            x @ 0..=250 => x as u64,
            x => return Err(format!("bad lenenc lead {x:#x}")),
        })
    }
    pub fn lenstr(&mut self) -> Result<&'a [u8], String> {
        let n = self.lenenc()?;
        if n > self.0.len() as u64 {
            return Err(format!("lenenc string of {n} in {}", self.0.len()));
        }
        self.take(n as usize)
    }
    pub fn nulstr(&mut self) -> Result<&'a [u8], String> {
        let p = self.0.iter().position(|x| *x == 0).ok_or("missing NUL")?;
        let s = &self.0[..p];
        self.0 = &self.0[p + 1..];
        Ok(s)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ok_ {
    pub affected: u64,
    pub insert_id: u64,
    pub status: u16,
    pub warnings: u16,
    pub message: Vec<u8>,
    pub session: Option<Vec<u8>>,
    /// lenenc widths for (affected, insert id)
    pub widths: (u8, u8),
    /// how the message is written: 0 length-encoded, 1 omitted when empty
    pub omit_message: bool,
}

impl Ok_ {
    pub fn packet(&self, header: u8, caps: u32) -> Vec<u8> {
        let mut b = vec![header];
        put_lenenc_w(&mut b, self.affected, self.widths.0);
        put_lenenc_w(&mut b, self.insert_id, self.widths.1);
        let mut st = self.status;
        if self.session.is_some() && caps & cap::SESSION_TRACK != 0 {
            st |= status::SESSION_CHANGED;
        }
        b.extend_from_slice(&st.to_le_bytes());
        b.extend_from_slice(&self.warnings.to_le_bytes());
        let track = self.session.is_some() && caps & cap::SESSION_TRACK != 0;
        if !self.message.is_empty() || track || !self.omit_message {
            put_lenstr(&mut b, &self.message);
        }
        if track {
            put_lenstr(&mut b, self.session.as_ref().unwrap());
        }
        b
    }
    pub fn old_eof(&self) -> Vec<u8> {
        let mut b = vec![0xfe];
        b.extend_from_slice(&self.warnings.to_le_bytes());
        b.extend_from_slice(&self.status.to_le_bytes());
        b
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SrvErr {
    pub code: u16,
    pub state: [u8; 5],
    pub msg: String,
}
impl SrvErr {
    pub fn new(code: u16, state: &str, msg: &str) -> Self {
        SrvErr { code, state: state.as_bytes().try_into().unwrap(), msg: msg.into() }
    }
    pub fn packet(&self) -> Vec<u8> {
        let mut b = vec![0xff];
        b.extend_from_slice(&self.code.to_le_bytes());
        b.push(b'#');
        b.extend_from_slice(&self.state);
        b.extend_from_slice(self.msg.as_bytes());
        b
    }
    /// error in place of the greeting: no SQL state yet
    pub fn packet_nostate(&self) -> Vec<u8> {
        let mut b = vec![0xff];
        b.extend_from_slice(&self.code.to_le_bytes());
        b.extend_from_slice(self.msg.as_bytes());
        b
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub schema: String,
    pub table: String,
    pub org_table: String,
    pub name: String,
    pub org_name: String,
    pub charset: u16,
    pub length: u32,
    pub ty: u8,
    pub flags: u16,
    pub decimals: u8,
}
impl Col {
    pub fn new(name: &str, ty: u8) -> Col {
        Col {
            schema: "db".into(),
            table: "t".into(),
            org_table: "t".into(),
            name: name.into(),
            org_name: name.into(),
            charset: 45,
            length: 1024,
            ty,
            flags: 0,
            decimals: 0,
        }
    }
    pub fn flags(mut self, f: u16) -> Col {
        self.flags = f;
        self
    }
    pub fn unsigned(&self) -> bool {
        self.flags & FLAG_UNSIGNED != 0
    }
    pub fn packet(&self) -> Vec<u8> {
        let mut b = Vec::new();
        put_lenstr(&mut b, b"def");
        put_lenstr(&mut b, self.schema.as_bytes());
        put_lenstr(&mut b, self.table.as_bytes());
        put_lenstr(&mut b, self.org_table.as_bytes());
        put_lenstr(&mut b, self.name.as_bytes());
        put_lenstr(&mut b, self.org_name.as_bytes());
        b.push(0x0c);
        b.extend_from_slice(&self.charset.to_le_bytes());
        b.extend_from_slice(&self.length.to_le_bytes());
        b.push(self.ty);
        b.extend_from_slice(&self.flags.to_le_bytes());
        b.push(self.decimals);
        b.extend_from_slice(&[0, 0]);
        b
    }
}

pub fn prepare_ok(id: u32, cols: u16, params: u16, warnings: u16) -> Vec<u8> {
    let mut b = vec![0];
    b.extend_from_slice(&id.to_le_bytes());
    b.extend_from_slice(&cols.to_le_bytes());
    b.extend_from_slice(&params.to_le_bytes());
    b.push(0);
    b.extend_from_slice(&warnings.to_le_bytes());
    b
}

/// presentation choices for one cell
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// fraction digits for temporal text (at least what the value needs)
    pub frac: u8,
    pub zerofill: u8,
    /// float exponent notation
    pub exp: bool,
    /// extra length step for binary temporal values
    pub longer: u8,
    /// 32 bit float written with all the digits of a number just above the middle between it and its neighbour
    pub close: bool,
}

/// A decimal number that is nearest to `x` among the 32 bit floats but is not if it is rounded to 64 bits before:
/// the (exact) middle between `x` and its neighbour towards zero, and a little more.
fn close_float(x: f32) -> Vec<u8> {
    let a = x.abs();
    if a == 0.0 || !a.is_finite() {
        return format!("{x}").into_bytes();
    }
    let below = f32::from_bits(a.to_bits() - 1);
    let middle = (a as f64 + below as f64) / 2.0;
    format!("{}{middle:.160}1", if x < 0.0 { "-" } else { "" }).into_bytes()
}

fn frac(us: u32, digits: u8) -> String {
    let full = format!("{us:06}");
    let mut need = 6;
    while need > 0 && full.as_bytes()[need - 1] == b'0' {
        need -= 1;
    }
    let d = need.max(digits.min(6) as usize);
    if d == 0 {
        String::new()
    } else {
        format!(".{}", &full[..d])
    }
}

pub fn text_of(v: &Value, st: Style) -> Option<Vec<u8>> {
    fn int(neg: bool, digits: String, z: u8) -> Vec<u8> {
        if neg {
            format!("-{digits}").into_bytes()
        } else {
            format!("{:0>w$}", digits, w = z as usize).into_bytes()
        }
    }
    macro_rules! i {
        ($x:expr) => {
            int(*$x < 0, $x.unsigned_abs().to_string(), 0)
        };
    }
    macro_rules! u {
        ($x:expr) => {
            int(false, $x.to_string(), st.zerofill)
        };
    }
    Some(match v {
        Value::Null => return None,
        Value::Tiny(x) => i!(x),
        Value::Short(x) => i!(x),
        Value::Int(x) => i!(x),
        Value::Long(x) => i!(x),
        Value::UTiny(x) => u!(x),
        Value::UShort(x) => u!(x),
        Value::UInt(x) => u!(x),
        Value::ULong(x) => u!(x),
        Value::Float(x) => {
            if st.close {
                close_float(*x)
            } else if st.exp {
                format!("{x:e}").into_bytes()
            } else {
                format!("{x}").into_bytes()
            }
        }
        Value::Double(x) => {
            if st.exp {
                format!("{x:e}").into_bytes()
            } else {
                format!("{x}").into_bytes()
            }
        }
        Value::Bytes(b) => b.clone(),
        Value::Date(y, m, d) => format!("{y:04}-{m:02}-{d:02}").into_bytes(),
        Value::Datetime(y, m, d, h, i, s, us) => format!("{y:04}-{m:02}-{d:02} {h:02}:{i:02}:{s:02}{}", frac(*us, st.frac)).into_bytes(),
        Value::Time(neg, d, h, i, s, us) => {
            format!("{}{:02}:{i:02}:{s:02}{}", if *neg { "-" } else { "" }, *d as u64 * 24 + *h as u64, frac(*us, st.frac)).into_bytes()
        }
    })
}

pub fn text_row(cells: &[Value], styles: &[Style]) -> Vec<u8> {
    let mut b = Vec::new();
    for (i, c) in cells.iter().enumerate() {
        match text_of(c, styles.get(i).copied().unwrap_or_default()) {
            None => b.push(0xfb),
            Some(t) => put_lenstr(&mut b, &t),
        }
    }
    b
}

pub fn bin_value(b: &mut Vec<u8>, v: &Value, st: Style) {
    match v {
        Value::Null => {}
        Value::Tiny(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::Short(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::Int(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::Long(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::UTiny(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::UShort(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::UInt(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::ULong(x) => b.extend_from_slice(&x.to_le_bytes()),
        Value::Float(x) => b.extend_from_slice(&x.to_bits().to_le_bytes()),
        Value::Double(x) => b.extend_from_slice(&x.to_bits().to_le_bytes()),
        Value::Bytes(x) => put_lenstr(b, x),
        Value::Date(y, m, d) => {
            let zero = *y == 0 && *m == 0 && *d == 0;
            let step = (if zero { 0 } else { 1 }).max(st.longer.min(3));
            b.push([0, 4, 7, 11][step as usize]);
            if step >= 1 {
                b.extend_from_slice(&y.to_le_bytes());
                b.extend_from_slice(&[*m, *d]);
            }
            if step >= 2 {
                b.extend_from_slice(&[0; 3]);
            }
            if step >= 3 {
                b.extend_from_slice(&[0; 4]);
            }
        }
        Value::Datetime(y, m, d, h, i, s, us) => {
            let need = if *us != 0 {
                3
            } else if (*h, *i, *s) != (0, 0, 0) {
                2
            } else if (*y, *m, *d) != (0, 0, 0) {
                1
            } else {
                0
            };
            let step = need.max(st.longer.min(3));
            b.push([0, 4, 7, 11][step as usize]);
            if step >= 1 {
                b.extend_from_slice(&y.to_le_bytes());
                b.extend_from_slice(&[*m, *d]);
            }
            if step >= 2 {
                b.extend_from_slice(&[*h, *i, *s]);
            }
            if step >= 3 {
                b.extend_from_slice(&us.to_le_bytes());
            }
        }
        Value::Time(neg, d, h, i, s, us) => {
            let need = if *us != 0 {
                2
            } else if *neg || *d != 0 || (*h, *i, *s) != (0, 0, 0) {
                1
            } else {
                0
            };
            let step = need.max(st.longer.min(2));
            b.push([0, 8, 12][step as usize]);
            if step >= 1 {
                b.push(*neg as u8);
                b.extend_from_slice(&d.to_le_bytes());
                b.extend_from_slice(&[*h, *i, *s]);
            }
            if step >= 2 {
                b.extend_from_slice(&us.to_le_bytes());
            }
        }
    }
}

pub fn bin_row(cells: &[Value], styles: &[Style]) -> Vec<u8> {
    let mut b = vec![0];
    let mut bm = vec![0u8; (cells.len() + 9) / 8];
    for (i, c) in cells.iter().enumerate() {
        if *c == Value::Null {
            bm[(i + 2) / 8] |= 1 << ((i + 2) % 8);
        }
    }
    b.extend_from_slice(&bm);
    for (i, c) in cells.iter().enumerate() {
        bin_value(&mut b, c, styles.get(i).copied().unwrap_or_default());
    }
    b
}

// ---------------------------------------------------------------- commands from the client

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Quit,
    Query(Vec<u8>),
    Prepare(Vec<u8>),
    Execute(Vec<u8>),
    LongData { id: u32, idx: u16, data: Vec<u8> },
    Close(u32),
    Reset(u32),
    Ping,
    Other(Vec<u8>),
}

impl Cmd {
    pub fn parse(p: Vec<u8>) -> Cmd {
        match p.first() {
            Some(1) => Cmd::Quit,
            Some(3) => Cmd::Query(p[1..].to_vec()),
            Some(14) => Cmd::Ping,
            Some(22) => Cmd::Prepare(p[1..].to_vec()),
            Some(23) => Cmd::Execute(p),
            Some(24) if p.len() >= 7 => Cmd::LongData {
                id: u32::from_le_bytes(p[1..5].try_into().unwrap()),
                idx: u16::from_le_bytes(p[5..7].try_into().unwrap()),
                data: p[7..].to_vec(),
            },
            Some(25) if p.len() == 5 => Cmd::Close(u32::from_le_bytes(p[1..5].try_into().unwrap())),
            Some(26) if p.len() == 5 => Cmd::Reset(u32::from_le_bytes(p[1..5].try_into().unwrap())),
            _ => Cmd::Other(p),
        }
    }
    pub fn has_response(&self) -> bool {
        !matches!(self, Cmd::Quit | Cmd::LongData { .. } | Cmd::Close(_))
    }
}

/// One decoded statement parameter.
#[derive(Clone, Debug, PartialEq)]
pub struct Param {
    pub ty: u8,
    pub unsigned: bool,
    pub value: Value,
}

pub fn exec_id(p: &[u8]) -> Option<u32> {
    p.get(1..5).map(|x| u32::from_le_bytes(x.try_into().unwrap()))
}

/// Decode a COM_STMT_EXECUTE the way a server does.
pub fn decode_execute(p: &[u8], nparams: usize, long: &HashMap<u16, Vec<u8>>) -> Result<Vec<Param>, String> {
    let mut r = Rd(&p[1..]);
    let _id = r.u32()?;
    let flags = r.u8()?;
    if flags != 0 {
        return Err(format!("cursor flags {flags}"));
    }
    let it = r.u32()?;
    if it != 1 {
        return Err(format!("iteration count {it}"));
    }
    if nparams == 0 {
        if !r.0.is_empty() {
            return Err(format!("{} trailing bytes", r.0.len()));
        }
        return Ok(vec![]);
    }
    let bm = r.take((nparams + 7) / 8)?;
    let bound = r.u8()?;
    if bound != 1 {
        return Err(format!("new-params-bound {bound}"));
    }
    let mut tys = Vec::new();
    for _ in 0..nparams {
        let t = r.u8()?;
        let f = r.u8()?;
        if f & 0x7f != 0 {
            return Err(format!("param flag {f:#x}"));
        }
        tys.push((t, f & 0x80 != 0));
    }
    let mut out = Vec::new();
    for (i, (t, uns)) in tys.into_iter().enumerate() {
        let value = if let Some(d) = long.get(&(i as u16)) {
            Value::Bytes(d.clone())
        } else if bm[i / 8] & (1 << (i % 8)) != 0 {
            Value::Null
        } else {
            match t {
                // a server reads some value unless the bitmap says there is none
                ct::NULL => return Err(format!("parameter {i} is of the type NULL, but not null in the bitmap")),
                ct::TINY => {
                    let x = r.u8()?;
                    if uns {
                        Value::UTiny(x)
                    } else {
                        Value::Tiny(x as i8)
                    }
                }
                ct::SHORT | ct::YEAR => {
                    let x = r.u16()?;
                    if uns {
                        Value::UShort(x)
                    } else {
                        Value::Short(x as i16)
                    }
                }
                ct::LONG | ct::INT24 => {
                    let x = r.u32()?;
                    if uns {
                        Value::UInt(x)
                    } else {
                        Value::Int(x as i32)
                    }
                }
                ct::LONGLONG => {
                    let x = r.u64()?;
                    if uns {
                        Value::ULong(x)
                    } else {
                        Value::Long(x as i64)
                    }
                }
                ct::FLOAT => Value::Float(f32::from_bits(r.u32()?)),
                ct::DOUBLE => Value::Double(f64::from_bits(r.u64()?)),
                ct::DATE | ct::DATETIME | ct::TIMESTAMP => {
                    let n = r.u8()?;
                    if ![0, 4, 7, 11].contains(&n) {
                        return Err(format!("datetime length {n}"));
                    }
                    let (mut y, mut m, mut d, mut h, mut mi, mut s, mut us) = (0, 0, 0, 0, 0, 0, 0);
                    if n >= 4 {
                        y = r.u16()?;
                        m = r.u8()?;
                        d = r.u8()?;
                    }
                    if n >= 7 {
                        h = r.u8()?;
                        mi = r.u8()?;
                        s = r.u8()?;
                    }
                    if n >= 11 {
                        us = r.u32()?;
                    }
                    if t == ct::DATE {
                        Value::Date(y, m, d)
                    } else {
                        Value::Datetime(y, m, d, h, mi, s, us)
                    }
                }
                ct::TIME => {
                    let n = r.u8()?;
                    if ![0, 8, 12].contains(&n) {
                        return Err(format!("time length {n}"));
                    }
                    let (mut neg, mut d, mut h, mut mi, mut s, mut us) = (false, 0, 0, 0, 0, 0);
                    if n >= 8 {
                        neg = r.u8()? != 0;
                        d = r.u32()?;
                        h = r.u8()?;
                        mi = r.u8()?;
                        s = r.u8()?;
                    }
                    if n >= 12 {
                        us = r.u32()?;
                    }
                    Value::Time(neg, d, h, mi, s, us)
                }
                x if ct::STRINGS.contains(&x) => Value::Bytes(r.lenstr()?.to_vec()),
                x => return Err(format!("parameter type {x}")),
            }
        };
        out.push(Param { ty: t, unsigned: uns, value });
    }
    if !r.0.is_empty() {
        return Err(format!("{} trailing bytes after parameters", r.0.len()));
    }
    Ok(out)
}

/// Bitwise equality (floats by bits).
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}
pub fn same_row(a: &[Value], b: &[Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

pub fn short(v: &Value) -> String {
    match v {
        Value::Bytes(b) if b.len() > 24 => format!("Bytes({} bytes, hash {:x})", b.len(), crate::engine::hash_bytes(b)),
        x => format!("{x:?}"),
    }
}
pub fn short_row(r: &[Value]) -> String {
    let mut s: Vec<String> = r.iter().take(8).map(short).collect();
    if r.len() > 8 {
        s.push(format!("… {} values", r.len()));
    }
    format!("[{}]", s.join(", "))
}
