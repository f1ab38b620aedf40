//! C15 conversions, C16 escapes, C17 printed values, C18 hex.
use super::params::gen_value;
use crate::{engine::*, ensure, gen::*, sql::*};
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta, Timelike};
use mysql_connector::{
    error::ParseError,
    types::{Hex, IdentifierEscape, StringEscape, UnquotedIdentifierEscape, Value},
};
use std::{panic::AssertUnwindSafe, str::FromStr};

// ---------------------------------------------------------------- C15

/// any value at all, including components no server sends
fn wild_value(s: &mut Src) -> Value {
    let big = |s: &mut Src| s.int(0, u32::MAX as i128) as u32;
    let byte = |s: &mut Src| match s.below(3) {
        0 => s.below(256) as u8,
        1 => *s.pick(&[0u8, 1, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 255]),
        _ => s.below(24) as u8,
    };
    let micro = |s: &mut Src| match s.below(4) {
        0 => s.int(0, u32::MAX as i128) as u32,
        1 => *s.pick(&[999_999u32, 1_000_000, 1_000_001, 1_500_000, 1_999_999, 2_000_000, 4_294_967]),
        _ => gen_usec(s),
    };
    match s.below(6) {
        0 => Value::Date(s.int(0, 65535) as u16, byte(s), byte(s)),
        1 => Value::Datetime(s.int(0, 65535) as u16, byte(s), byte(s), byte(s), byte(s), byte(s), micro(s)),
        2 => Value::Time(s.bool(), big(s), byte(s), byte(s), byte(s), micro(s)),
        3 => Value::Float(f32::from_bits(s.below(1 << 32) as u32)),
        4 => Value::Double(f64::from_bits(s.u64())),
        _ => gen_value(s, false),
    }
}

fn int_of(v: &Value) -> Option<i128> {
    Some(match v {
        Value::Tiny(x) => *x as i128,
        Value::Short(x) => *x as i128,
        Value::Int(x) => *x as i128,
        Value::Long(x) => *x as i128,
        Value::UTiny(x) => *x as i128,
        Value::UShort(x) => *x as i128,
        Value::UInt(x) => *x as i128,
        Value::ULong(x) => *x as i128,
        _ => return None,
    })
}

fn micros_of(v: &Value) -> Option<i128> {
    match v {
        Value::Time(neg, d, h, m, s, us) => {
            let x = (((*d as i128 * 24 + *h as i128) * 60 + *m as i128) * 60 + *s as i128) * 1_000_000 + *us as i128;
            Some(if *neg { -x } else { x })
        }
        _ => None,
    }
}

fn nanos(d: &Duration) -> i128 {
    d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128
}

/// a Rust type that values convert to
trait Target: Sized + std::fmt::Debug {
    const NAME: &'static str;
    /// is this what the value denotes?
    fn ok(&self, v: &Value) -> bool;
    /// must the conversion succeed?
    fn must(v: &Value) -> bool;
}

macro_rules! int_target {
    ($($t:ty, $var:ident);*) => { $(
        impl Target for $t {
            const NAME: &'static str = stringify!($t);
            fn ok(&self, v: &Value) -> bool { int_of(v) == Some(*self as i128) }
            fn must(v: &Value) -> bool { matches!(v, Value::$var(_)) }
        }
    )* };
}
int_target!(i8, Tiny; i16, Short; i32, Int; i64, Long; u8, UTiny; u16, UShort; u32, UInt; u64, ULong);

impl Target for f32 {
    const NAME: &'static str = "f32";
    fn ok(&self, v: &Value) -> bool {
        match v {
            Value::Float(x) => x.to_bits() == self.to_bits() || (x.is_nan() && self.is_nan()),
            Value::Double(x) => *x == *self as f64,
            v => int_of(v).is_some_and(|x| x.unsigned_abs() < 1 << 24 && x == *self as i128),
        }
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Float(_))
    }
}
impl Target for f64 {
    const NAME: &'static str = "f64";
    fn ok(&self, v: &Value) -> bool {
        match v {
            Value::Double(x) => x.to_bits() == self.to_bits() || (x.is_nan() && self.is_nan()),
            Value::Float(x) => *x as f64 == *self,
            v => int_of(v).is_some_and(|x| x.unsigned_abs() < 1 << 53 && x == *self as i128),
        }
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Double(_))
    }
}
impl Target for bool {
    const NAME: &'static str = "bool";
    fn ok(&self, v: &Value) -> bool {
        int_of(v).is_some_and(|x| *self == (x != 0))
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Tiny(_))
    }
}
impl Target for String {
    const NAME: &'static str = "String";
    fn ok(&self, v: &Value) -> bool {
        matches!(v, Value::Bytes(b) if b == self.as_bytes())
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Bytes(b) if std::str::from_utf8(b).is_ok())
    }
}
impl Target for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn ok(&self, v: &Value) -> bool {
        matches!(v, Value::Bytes(b) if b == self)
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Bytes(_))
    }
}
impl Target for Hex {
    const NAME: &'static str = "Hex";
    fn ok(&self, v: &Value) -> bool {
        matches!(v, Value::Bytes(b) if *b == self.0)
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Bytes(_))
    }
}
fn days_in_month(y: u16, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 0,
    }
}
impl Target for NaiveDate {
    const NAME: &'static str = "NaiveDate";
    fn ok(&self, v: &Value) -> bool {
        match v {
            Value::Date(y, m, d) | Value::Datetime(y, m, d, ..) => (self.year(), self.month(), self.day()) == (*y as i32, *m as u32, *d as u32),
            _ => false,
        }
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Date(y, m, d) if *d > 0 && *d <= days_in_month(*y, *m))
    }
}
impl Target for NaiveDateTime {
    const NAME: &'static str = "NaiveDateTime";
    fn ok(&self, v: &Value) -> bool {
        let (y, m, d, h, mi, s, us) = match v {
            Value::Datetime(y, m, d, h, mi, s, us) => (*y, *m, *d, *h, *mi, *s, *us),
            Value::Date(y, m, d) => (*y, *m, *d, 0, 0, 0, 0),
            _ => return false,
        };
        (self.year(), self.month(), self.day(), self.hour(), self.minute(), self.second()) == (y as i32, m as u32, d as u32, h as u32, mi as u32, s as u32)
            && self.nanosecond() as u64 == us as u64 * 1000
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Datetime(y, m, d, h, mi, s, us) if *d > 0 && *d <= days_in_month(*y, *m) && *h < 24 && *mi < 60 && *s < 60 && *us < 1_000_000)
    }
}
impl Target for Duration {
    const NAME: &'static str = "Duration";
    fn ok(&self, v: &Value) -> bool {
        micros_of(v).is_some_and(|x| x * 1000 == nanos(self))
    }
    fn must(v: &Value) -> bool {
        matches!(v, Value::Time(_, _, h, m, s, us) if *h < 24 && *m < 60 && *s < 60 && *us < 1_000_000)
    }
}

fn convert<T: Target>(v: &Value) -> Res
where
    Value: TryInto<T, Error = ParseError> + TryInto<Option<T>, Error = ParseError>,
{
    let n = T::NAME;
    let plain: Result<T, ParseError> = v.clone().try_into();
    let opt: Result<Option<T>, ParseError> = v.clone().try_into();
    let null = matches!(v, Value::Null);
    match &plain {
        Ok(x) => ensure!(x.ok(v), "wrong-value", "{v:?} converts to the {n} {x:?}"),
        Err(e) => ensure!(!T::must(v), "refused", "{v:?} does not convert to {n}: {e:?}"),
    }
    match (&opt, &plain) {
        (Ok(None), _) => ensure!(null, "none", "{v:?} converts to None of Option<{n}>"),
        (Ok(Some(x)), _) => ensure!(!null && x.ok(v), "wrong-value", "{v:?} converts to Some({x:?}) of Option<{n}>"),
        (Err(e), Err(_)) => ensure!(!null, "null", "NULL does not convert to Option<{n}>: {e:?}"),
        (Err(e), Ok(_)) => return fail("option", format!("{v:?} converts to {n} but not to Option<{n}>: {e:?}")),
    }
    Ok(())
}

fn c15_from_value(s: &mut Src, c: &mut Ctx) -> Res {
    let kinds = s.below(4096);
    let v = if kinds & 1 == 0 { gen_value(s, false) } else { wild_value(s) };
    c.nontrivial = v != Value::Null;
    c.note(format!("{v:?}").chars().take(80).collect::<String>());
    c.label(format!("{v:?}").split('(').next().unwrap().to_string());
    c.evals += 32;
    convert::<i8>(&v)?;
    convert::<i16>(&v)?;
    convert::<i32>(&v)?;
    convert::<i64>(&v)?;
    convert::<u8>(&v)?;
    convert::<u16>(&v)?;
    convert::<u32>(&v)?;
    convert::<u64>(&v)?;
    convert::<f32>(&v)?;
    convert::<f64>(&v)?;
    convert::<bool>(&v)?;
    convert::<String>(&v)?;
    convert::<Vec<u8>>(&v)?;
    convert::<Hex>(&v)?;
    convert::<NaiveDate>(&v)?;
    convert::<NaiveDateTime>(&v)?;
    convert::<Duration>(&v)?;
    Ok(())
}

/// value there and back, plain and optional
fn back<T: Target>(x: T, mk: impl Fn() -> T, same: impl Fn(&T, &T) -> bool) -> Res
where
    Value: TryInto<T, Error = ParseError> + TryInto<Option<T>, Error = ParseError>,
    T: TryInto<Value>,
    <T as TryInto<Value>>::Error: std::fmt::Debug,
{
    let n = T::NAME;
    let v: Value = match x.try_into() {
        Ok(v) => v,
        Err(e) => return fail("refused", format!("the {n} {:?} does not convert to a value: {e:?}", mk())),
    };
    ensure!(v != Value::Null, "null", "the {n} {:?} becomes NULL", mk());
    let o: Value = match Value::try_from(Some(mk())) {
        Ok(v) => v,
        Err(e) => return fail("refused", format!("Some({:?}) does not convert to a value: {e:?}", mk())),
    };
    ensure!(format!("{v:?}") == format!("{o:?}"), "option", "{:?} becomes {v:?}, as an option {o:?}", mk());
    match <Value as TryInto<T>>::try_into(v.clone()) {
        Ok(y) => ensure!(same(&y, &mk()), "round-trip", "the {n} {:?} comes back as {y:?} (value {v:?})", mk()),
        Err(e) => return fail("round-trip", format!("the {n} {:?} becomes {v:?}, which does not convert back: {e:?}", mk())),
    }
    match <Value as TryInto<Option<T>>>::try_into(o) {
        Ok(Some(y)) => ensure!(same(&y, &mk()), "round-trip", "the option {:?} comes back as {y:?}", mk()),
        e => return fail("round-trip", format!("the option {:?} comes back as {e:?}", mk())),
    }
    match Value::try_from(None::<T>) {
        Ok(Value::Null) => {}
        e => return fail("null", format!("None of {n} becomes {e:?}")),
    }
    match <Value as TryInto<Option<T>>>::try_into(Value::Null) {
        Ok(None) => Ok(()),
        e => fail("null", format!("NULL becomes {e:?} of Option<{n}>")),
    }
}

fn gen_duration(s: &mut Src) -> Duration {
    match s.below(5) {
        0 => Duration::nanoseconds(s.int(i64::MIN as i128, i64::MAX as i128) as i64),
        1 => Duration::microseconds(s.rangei(-5_000_000, 5_000_000)),
        2 => Duration::milliseconds(s.int(-i64::MAX as i128, i64::MAX as i128) as i64),
        3 => *s.pick(&[TimeDelta::MAX, TimeDelta::MIN, Duration::zero(), Duration::nanoseconds(-1), Duration::nanoseconds(-999), Duration::microseconds(-1), Duration::nanoseconds(-1001), Duration::seconds(-1), Duration::milliseconds(-86_400_001)]),
        _ => Duration::seconds(s.rangei(-4_000_000, 4_000_000)) + Duration::microseconds(s.rangei(-999_999, 999_999)),
    }
}

fn gen_naive(s: &mut Src) -> NaiveDateTime {
    let date = match s.below(4) {
        0 => *s.pick(&[NaiveDate::MIN, NaiveDate::MAX, NaiveDate::from_ymd_opt(0, 1, 1).unwrap(), NaiveDate::from_ymd_opt(-1, 12, 31).unwrap(), NaiveDate::from_ymd_opt(65535, 12, 31).unwrap(), NaiveDate::from_ymd_opt(65536, 1, 1).unwrap(), NaiveDate::from_ymd_opt(9999, 12, 31).unwrap(), NaiveDate::from_ymd_opt(2000, 2, 29).unwrap()]),
        1 => NaiveDate::from_num_days_from_ce_opt(s.rangei(NaiveDate::MIN.num_days_from_ce() as i64, NaiveDate::MAX.num_days_from_ce() as i64) as i32).unwrap(),
        _ => NaiveDate::from_num_days_from_ce_opt(s.rangei(1, 3_652_059) as i32).unwrap(),
    };
    let time = match s.below(3) {
        0 => NaiveTime::from_hms_opt(0, 0, 0).unwrap(),
        1 => NaiveTime::from_hms_micro_opt(s.below(24) as u32, s.below(60) as u32, s.below(60) as u32, gen_usec(s)).unwrap(),
        _ => NaiveTime::from_hms_nano_opt(s.below(24) as u32, s.below(60) as u32, s.below(60) as u32, s.below(1_000_000_000) as u32).unwrap(),
    };
    NaiveDateTime::new(date, time)
}

fn c15_to_value(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    c.evals += 4;
    macro_rules! ints {
        ($($i:literal $t:ty),*) => { |s: &mut Src, i: u64| -> Option<(Res, String)> { match i { $($i => {
            let x = s.int(<$t>::MIN as i128, <$t>::MAX as i128) as $t;
            Some((back(x, || x, |a, b| a == b), format!("{} {x}", stringify!($t))))
        })* _ => None } } };
    }
    let f = ints!(0 i8, 1 i16, 2 i32, 3 i64, 4 u8, 5 u16, 6 u32, 7 u64);
    let i = s.below(18);
    if let Some((r, n)) = f(s, i) {
        c.label(n.split(' ').next().unwrap().to_string());
        c.note(n);
        return r;
    }
    match i {
        8 => {
            let x = if s.bool() { gen_f32(s) } else { f32::from_bits(s.below(1 << 32) as u32) };
            c.label("f32");
            c.note(format!("f32 {x:?}"));
            back(x, || x, |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
        }
        9 => {
            let x = if s.bool() { gen_f64(s) } else { f64::from_bits(s.u64()) };
            c.label("f64");
            c.note(format!("f64 {x:?}"));
            back(x, || x, |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
        }
        10 => {
            let x = s.bool();
            c.label("bool");
            c.note(format!("bool {x}"));
            back(x, || x, |a, b| a == b)
        }
        11 => {
            let x = s.string(30);
            c.label("String");
            c.note(format!("String {x:?}"));
            back(x.clone(), || x.clone(), |a, b| a == b)
        }
        12 => {
            let x = gen_bytes_val(s, false);
            c.label("Vec<u8>");
            c.note(format!("Vec<u8> {} bytes", x.len()));
            back(x.clone(), || x.clone(), |a, b| a == b)
        }
        13 => {
            let x = gen_bytes_val(s, false);
            c.label("Hex");
            c.note(format!("Hex {} bytes", x.len()));
            back(Hex::new(x.clone()), || Hex::new(x.clone()), |a, b| a == b)
        }
        14 => {
            let x = gen_naive(s).date();
            c.label("NaiveDate");
            c.note(format!("NaiveDate {x}"));
            if !(0..=65535).contains(&x.year()) {
                return match Value::try_from(x) {
                    Err(_) => Ok(()),
                    Ok(v) => fail("wrapped", format!("{x} becomes {v:?}")),
                };
            }
            back(x, || x, |a, b| a == b)
        }
        15 => {
            let x = gen_naive(s);
            c.label("NaiveDateTime");
            c.note(format!("NaiveDateTime {x}"));
            if !(0..=65535).contains(&x.year()) {
                return match Value::try_from(x) {
                    Err(_) => Ok(()),
                    Ok(v) => fail("wrapped", format!("{x} becomes {v:?}")),
                };
            }
            let cut = |a: &NaiveDateTime| a.with_nanosecond(a.nanosecond() / 1000 * 1000).unwrap();
            back(x, || x, |a, b| *a == cut(b))
        }
        _ => {
            let x = gen_duration(s);
            c.label("Duration");
            c.note(format!("Duration {x:?}"));
            duration(x)
        }
    }
}

fn duration(x: Duration) -> Res {
    let total = nanos(&x) / 1000;
    let days = total.abs() / 86_400_000_000;
    let v = Value::from(x);
    let got = micros_of(&v);
    if days > u32::MAX as i128 {
        let low = (total.abs() % 86_400_000_000 + (days & 0xffff_ffff) * 86_400_000_000) * total.signum();
        ensure!(got != Some(low), "duration-beyond-u32-days", "the duration {x:?} of {days} days becomes {v:?}");
        return fail("wrapped", format!("the duration {x:?} of {days} days becomes {v:?}"));
    }
    ensure!(got == Some(total), "wrong-value", "the duration {x:?} becomes {v:?}");
    ensure!(matches!(v, Value::Time(_, _, h, m, s, us) if h < 24 && m < 60 && s < 60 && us < 1_000_000), "denormalised", "the duration {x:?} becomes {v:?}");
    back(x, || x, |a, b| nanos(a) == nanos(b) / 1000 * 1000)
}

/// fixed cases, one per index
fn c15_edges(s: &mut Src, c: &mut Ctx) -> Res {
    let micro = [0i64, 1, -1, 999_999, -999_999, 1_000_000, -1_000_000, 1_000_001, -1_000_001, 59_999_999, -59_999_999, 86_399_999_999, -86_399_999_999, 86_400_000_000, -86_400_000_000, 3_020_399_999_999, -3_020_399_999_999];
    let i = s.usize(micro.len() + 4);
    c.nontrivial = true;
    let x = match i {
        i if i < micro.len() => Duration::microseconds(micro[i]),
        i if i == micro.len() => Duration::days(1 << 32) + Duration::microseconds(5),
        i if i == micro.len() + 1 => Duration::days((1 << 32) - 1),
        i if i == micro.len() + 2 => TimeDelta::MIN,
        _ => TimeDelta::MAX,
    };
    c.note(format!("{x:?}"));
    duration(x)
}

// ---------------------------------------------------------------- C16

/// statements around the text under test: before, after
const AROUND: [(&str, &str); 9] = [
    ("", ""),
    ("select ", ""),
    ("select ", " from t"),
    ("insert into t values (", ")"),
    ("insert into t values (1,", ",'x')"),
    ("update t set a=", ", b=1"),
    ("select * from t where a = ", " and b = \"q\""),
    ("select ", " -- end\n, 2"),
    ("select 'a\\'b', ", ", `c``d`"),
];

/// the tokens the text contributes to a statement
fn embedded(pre: &str, text: &str, post: &str) -> Result<Vec<Tok>, String> {
    let (a, b) = (lex(pre)?, lex(post)?);
    let all = lex(&format!("{pre}{text}{post}"))?;
    if all.len() < a.len() + b.len() || all[..a.len()] != a[..] || all[all.len() - b.len()..] != b[..] {
        return Err(format!("the statement around the text changes: {all:?}"));
    }
    Ok(all[a.len()..all.len() - b.len()].to_vec())
}

fn text_input(s: &mut Src) -> String {
    match s.below(4) {
        0 => {
            let n = s.usize(12);
            (0..n).map(|_| *s.pick(&['\'', '"', '\\', '`', '\0', '\n', '\r', '\t', '\u{8}', '\u{1a}', ' ', 'a', 'n', '0', '%', '_', '-', '#', '/', '*', '\u{ffff}', '\u{10000}', '\u{3000}', 'Z'])).collect()
        }
        1 => s.string(200),
        _ => s.string(12),
    }
}

fn string_literal(x: &str, c: &mut Ctx, around: (&str, &str)) -> Res {
    let t = StringEscape(x).to_string();
    c.evals += 1;
    match embedded(around.0, &t, around.1) {
        Err(e) => fail("not-a-literal", format!("the string {x:?} is written as {t:?}: {e}")),
        Ok(toks) => match &toks[..] {
            [Tok::Str(y)] if y == x => Ok(()),
            [Tok::Str(y)] if *y == x.replace('\u{1a}', "z") && t.contains("\\z") => fail("z-escape", format!("the string {x:?} is written as {t:?}, which denotes {y:?}")),
            o => fail("other-string", format!("the string {x:?} is written as {t:?}, which denotes {o:?}")),
        },
    }
}

fn identifier(x: &str, c: &mut Ctx, around: (&str, &str)) -> Res {
    let allowed: String = x.chars().filter(|y| ('\u{1}'..='\u{ffff}').contains(y)).collect();
    let t = IdentifierEscape(x).to_string();
    c.evals += 2;
    match embedded(around.0, &t, around.1) {
        Err(e) => return fail("not-an-identifier", format!("the identifier {x:?} is written as {t:?}: {e}")),
        Ok(toks) => match &toks[..] {
            // trailing white space other than spaces may go as well
            [Tok::Quoted(y)] if allowed.strip_prefix(y.as_str()).is_some_and(|r| r.chars().all(char::is_whitespace)) => {
                ensure!(!y.ends_with(' '), "trailing-space", "the identifier {x:?} is written as {t:?}")
            }
            o => return fail("other-identifier", format!("the identifier {x:?} is written as {t:?}, which denotes {o:?}")),
        },
    }
    let want: String = x.chars().filter(|y| matches!(y, '0'..='9' | 'a'..='z' | 'A'..='Z' | '$' | '_' | '\u{80}'..='\u{ffff}')).collect();
    let t = UnquotedIdentifierEscape(x).to_string();
    ensure!(t == want, "unquoted", "the unquoted identifier {x:?} is written as {t:?} instead of {want:?}");
    Ok(())
}

fn c16(s: &mut Src, c: &mut Ctx) -> Res {
    let x = text_input(s);
    let around = *s.pick(&AROUND);
    c.nontrivial = x.chars().any(|y| !y.is_ascii_alphanumeric());
    c.note(format!("{x:?}"));
    identifier(&x, c, around)?;
    string_literal(&x, c, around)
}

/// every character alone, doubled and between letters
fn c16_chars(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.below(0x110000 / 64);
    c.nontrivial = true;
    c.note(format!("characters U+{:04X} to U+{:04X}", i * 64, i * 64 + 63));
    let mut finding = Ok(());
    for k in 0..64 {
        let Some(ch) = char::from_u32((i * 64 + k) as u32) else { continue };
        for x in [format!("{ch}"), format!("{ch}{ch}"), format!("a{ch}b"), format!("a{ch}"), format!("{ch} "), format!("\\{ch}"), format!("{ch}\\")] {
            identifier(&x, c, ("select ", ", 1"))?;
            match string_literal(&x, c, ("select ", ", 1")) {
                Err(f) if f.sig == "z-escape" => finding = Err(f),
                r => r?,
            }
        }
    }
    finding
}

// ---------------------------------------------------------------- C17

fn two(t: &str) -> Option<u32> {
    if t.len() == 2 && t.bytes().all(|b| b.is_ascii_digit()) {
        t.parse().ok()
    } else {
        None
    }
}
fn read_date(t: &str) -> Option<(u32, u32, u32)> {
    let p: Vec<&str> = t.split('-').collect();
    if p.len() != 3 || p[0].len() != 4 || !p[0].bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some((p[0].parse().ok()?, two(p[1])?, two(p[2])?))
}
/// hours, minutes, seconds, microseconds
fn read_time(t: &str) -> Option<(u64, u32, u32, u32)> {
    let (t, us) = match t.split_once('.') {
        None => (t, 0),
        Some((t, f)) => {
            if f.is_empty() || f.len() > 6 || !f.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            (t, f.parse::<u32>().ok()? * 10u32.pow(6 - f.len() as u32))
        }
    };
    let p: Vec<&str> = t.split(':').collect();
    if p.len() != 3 || p[0].len() < 2 || !p[0].bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some((p[0].parse().ok()?, two(p[1])?, two(p[2])?, us))
}

/// does the literal denote the value?
pub fn denotes(toks: &[Tok], v: &Value) -> Result<(), String> {
    let (neg, num) = match toks {
        [Tok::Num(n)] => (false, Some(n.as_str())),
        [Tok::Punct("-"), Tok::Num(n)] => (true, Some(n.as_str())),
        _ => (false, None),
    };
    let text = match toks {
        [Tok::Str(t)] => Some(t.as_str()),
        _ => None,
    };
    let bad = || Err("another value".to_string());
    if let Some(want) = int_of(v) {
        let n = num.ok_or("not a number")?;
        let x: i128 = n.parse().map_err(|_| format!("{n} is not an integer"))?;
        return if (if neg { -x } else { x }) == want { Ok(()) } else { bad() };
    }
    let yes = match v {
        Value::Null => matches!(toks, [Tok::Word(w)] if w.eq_ignore_ascii_case("null")),
        Value::Float(x) => {
            let y: f32 = number(num.ok_or("not a number")?)?.parse().map_err(|e| format!("{e}"))?;
            // a DOUBLE literal is stored into a FLOAT by rounding it again
            let z: f64 = number(num.unwrap())?.parse().map_err(|e| format!("{e}"))?;
            let sg = if neg { -1.0 } else { 1.0 };
            y * sg == *x && (z as f32) * sg == *x
        }
        Value::Double(x) => {
            let y: f64 = number(num.ok_or("not a number")?)?.parse().map_err(|e| format!("{e}"))?;
            (if neg { -y } else { y }) == *x
        }
        Value::Bytes(b) => match toks {
            [Tok::Hex(h)] => h == b,
            [Tok::Str(t)] => t.as_bytes() == &b[..],
            _ => false,
        },
        Value::Date(y, m, d) => read_date(text.ok_or("not a string")?).ok_or("not a date")? == (*y as u32, *m as u32, *d as u32),
        Value::Datetime(y, m, d, h, mi, s, us) => {
            let (a, b) = text.ok_or("not a string")?.split_once([' ', 'T']).ok_or("no time part")?;
            read_date(a).ok_or("not a date")? == (*y as u32, *m as u32, *d as u32) && read_time(b).ok_or("not a time")? == (*h as u64, *mi as u32, *s as u32, *us)
        }
        Value::Time(..) => {
            let t = text.ok_or("not a string")?;
            let (n, t) = match t.strip_prefix('-') {
                Some(t) => (true, t),
                None => (false, t),
            };
            let (h, m, s, us) = read_time(t).ok_or("not a time")?;
            if m > 59 || s > 59 {
                return Err("not a time".into());
            }
            let x = ((h as i128 * 60 + m as i128) * 60 + s as i128) * 1_000_000 + us as i128;
            micros_of(v) == Some(if n { -x } else { x })
        }
        _ => unreachable!(),
    };
    if yes {
        Ok(())
    } else {
        bad()
    }
}

fn printable(v: &Value) -> bool {
    match v {
        Value::Float(x) => x.is_finite(),
        Value::Double(x) => x.is_finite(),
        Value::Date(y, m, d) => *y <= 9999 && *m <= 12 && *d <= 31,
        Value::Datetime(y, m, d, h, mi, s, us) => *y <= 9999 && *m <= 12 && *d <= 31 && *h < 24 && *mi < 60 && *s < 60 && *us < 1_000_000,
        Value::Time(_, _, h, m, s, us) => *h < 24 && *m < 60 && *s < 60 && *us < 1_000_000,
        _ => true,
    }
}

fn c17(s: &mut Src, c: &mut Ctx) -> Res {
    let v = if s.chance(1, 5) { wild_value(s) } else { gen_value(s, true) };
    let around = *s.pick(&AROUND);
    let shown: String = format!("{v:?}").chars().take(200).collect();
    c.note(&shown);
    c.label(format!("{v:?}").split('(').next().unwrap().to_string());
    let t = match catch(AssertUnwindSafe(|| v.to_string())) {
        Ok(t) => t,
        Err((_, e)) => return fail("panic", format!("printing {shown} panics: {e}")),
    };
    if !printable(&v) {
        return Ok(());
    }
    c.nontrivial = v != Value::Null;
    let t2: String = t.chars().take(200).collect();
    match embedded(around.0, &t, around.1) {
        Err(e) => fail("not-a-literal", format!("{shown} is printed as {t2}: {e}")),
        Ok(toks) => match denotes(&toks, &v) {
            Ok(()) => Ok(()),
            Err(e) => fail("other-value", format!("{shown} is printed as {t2}: {e}")),
        },
    }
}

/// all small integers, all short byte strings
fn c17_small(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.below(65536);
    c.nontrivial = true;
    c.note(format!("{i}"));
    let mut vs = vec![Value::Short(i as u16 as i16), Value::UShort(i as u16), Value::Bytes(vec![(i >> 8) as u8, i as u8])];
    if i < 256 {
        vs.extend([Value::Tiny(i as u8 as i8), Value::UTiny(i as u8), Value::Bytes(vec![i as u8])]);
    }
    let (h, m) = ((i / 60 % 24) as u8, (i % 60) as u8);
    vs.push(Value::Time(i & 1 == 1, (i / 1440) as u32, h, m, (i % 59) as u8, (i * 15) as u32 % 1_000_000));
    vs.push(Value::Datetime((i % 10_000) as u16, (i % 13) as u8, (i % 32) as u8, h, m, (i % 60) as u8, (i * 17) as u32 % 1_000_000));
    vs.push(Value::Date((i % 10_000) as u16, (i % 13) as u8, (i % 32) as u8));
    vs.push(Value::Float(f32::from_bits((i as u32) << 16)));
    vs.push(Value::Double(f64::from_bits(i << 48)));
    for v in vs {
        if !printable(&v) {
            continue;
        }
        c.evals += 1;
        let t = v.to_string();
        match lex(&t).and_then(|x| denotes(&x, &v)) {
            Ok(()) => {}
            Err(e) => return fail("other-value", format!("{v:?} is printed as {t}: {e}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn ref_parse(t: &[u8]) -> Option<Vec<u8>> {
    let t = match t {
        [b'0', b'x' | b'X', r @ ..] => r,
        t => t,
    };
    if t.len() % 2 != 0 {
        return None;
    }
    let nib = |b: u8| match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    };
    t.chunks(2).map(|p| Some(nib(p[0])? << 4 | nib(p[1])?)).collect()
}

/// every entry point on one text
fn hex_parse(t: &[u8]) -> Res {
    let want = ref_parse(t);
    let show = String::from_utf8_lossy(&t[..t.len().min(80)]).into_owned();
    let judge = |what: &str, r: Result<Option<Vec<u8>>, (String, String)>| -> Res {
        match r {
            Err((_, m)) => fail("panic", format!("{what}({show:?}) panics: {m}")),
            Ok(got) => {
                ensure!(got == want, "parse", "{what}({show:?}) = {:?}, expected {:?}", got.map(|x| x.into_iter().take(40).collect::<Vec<_>>()), want.clone().map(|x| x.into_iter().take(40).collect::<Vec<_>>()));
                Ok(())
            }
        }
    };
    let bytes = |r: Option<Hex>| r.map(|x| x.into_bytes());
    judge("try_from_hex bytes", catch(|| bytes(Hex::try_from_hex(t).ok())))?;
    judge("try_from_hex vec", catch(|| bytes(Hex::try_from_hex(t.to_vec()).ok())))?;
    let Ok(st) = std::str::from_utf8(t) else { return Ok(()) };
    judge("try_from_hex str", catch(|| bytes(Hex::try_from_hex(st).ok())))?;
    judge("from_str", catch(|| bytes(Hex::from_str(st).ok())))?;
    judge("str::parse", catch(|| bytes(st.parse::<Hex>().ok())))?;
    // as JSON: from text, with every character escaped, from a tree, from a reader
    let plain = serde_json::to_string(st).unwrap();
    judge("serde_json::from_str", catch(|| bytes(serde_json::from_str::<Hex>(&plain).ok())))?;
    let escaped: String = format!("\"{}\"", st.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>());
    judge("serde_json::from_str escaped", catch(|| bytes(serde_json::from_str::<Hex>(&escaped).ok())))?;
    judge("serde_json::from_value", catch(|| bytes(serde_json::from_value::<Hex>(serde_json::Value::String(st.into())).ok())))?;
    judge("serde_json::from_reader", catch(|| bytes(serde_json::from_reader::<_, Hex>(plain.as_bytes()).ok())))?;
    Ok(())
}

fn hex_round(b: &[u8], s: &mut Src) -> Res {
    let h = || Hex::new(b.to_vec());
    let show = format!("{:02x?}", &b[..b.len().min(40)]);
    let t = h().to_string();
    let same = |what: &str, r: Result<Hex, String>| -> Res {
        match r {
            Ok(x) if x.0 == b => Ok(()),
            r => fail("round-trip", format!("{show} printed as {} comes back through {what} as {r:?}", t.chars().take(80).collect::<String>())),
        }
    };
    ensure!(ref_parse(t.as_bytes()).as_deref() == Some(b), "printed", "{show} is printed as {t}");
    ensure!(t.starts_with("0x") && t.len() == 2 + 2 * b.len(), "printed", "{show} is printed as {t}");
    ensure!(serde_json::to_value(h()).ok() == Some(serde_json::Value::String(t.clone())), "serialised", "{show} is printed as {t} but serialised as {:?}", serde_json::to_value(h()));
    // every letter case, with and without prefix
    let digits = t.strip_prefix("0x").unwrap_or(&t).to_string();
    let mut forms = vec![t.clone(), digits.clone(), digits.to_uppercase(), format!("0X{digits}"), format!("0x{}", digits.to_uppercase()), format!("0X{}", digits.to_uppercase())];
    forms.push(digits.chars().map(|x| if s.bool() { x.to_ascii_uppercase() } else { x }).collect());
    for f in forms {
        hex_parse(f.as_bytes())?;
        same("FromStr", Hex::from_str(&f).map_err(|e| e.to_string()))?;
        same("try_from_hex", Hex::try_from_hex(f.as_bytes()).map_err(|e| e.to_string()))?;
    }
    // serialisation formats
    let j = serde_json::to_string(&h()).map_err(|e| e.to_string());
    same("serde_json", j.clone().and_then(|j| serde_json::from_str(&j).map_err(|e| e.to_string())))?;
    same("serde_json in a map key position's value", serde_json::to_value(h()).map_err(|e| e.to_string()).and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string())))?;
    same("serde_json reader", j.and_then(|j| serde_json::from_reader(j.as_bytes()).map_err(|e| e.to_string())))?;
    same("bincode", bincode::serialize(&h()).map_err(|e| e.to_string()).and_then(|x| bincode::deserialize(&x).map_err(|e| e.to_string())))?;
    same("bincode reader", bincode::serialize(&h()).map_err(|e| e.to_string()).and_then(|x| bincode::deserialize_from(&x[..]).map_err(|e| e.to_string())))?;
    let mut cb = vec![];
    same("ciborium", ciborium::into_writer(&h(), &mut cb).map_err(|e| e.to_string()).and_then(|_| ciborium::from_reader(&cb[..]).map_err(|e| e.to_string())))?;
    same("ron", ron::to_string(&h()).map_err(|e| e.to_string()).and_then(|x| ron::from_str(&x).map_err(|e| format!("{x}: {e}"))))?;
    same("ron with struct names", ron::ser::to_string_pretty(&h(), ron::ser::PrettyConfig::default().struct_names(true)).map_err(|e| e.to_string()).and_then(|x| ron::from_str(&x).map_err(|e| format!("{x}: {e}"))))?;
    // and through a database value
    same("Value", TryInto::<Hex>::try_into(Value::from(h())).map_err(|e| format!("{e:?}")))?;
    ensure!(*h() == b && Vec::from(h()) == b && h().into_bytes() == b, "bytes", "{show} has other bytes");
    Ok(())
}

fn c18_round(s: &mut Src, c: &mut Ctx) -> Res {
    let big = s.chance(1, 100);
    let b = gen_bytes_val(s, big);
    c.nontrivial = !b.is_empty();
    c.note(format!("{} bytes", b.len()));
    hex_round(&b, s)
}

fn c18_parse(s: &mut Src, c: &mut Ctx) -> Res {
    let mut t: Vec<u8> = vec![];
    match s.below(5) {
        0 => t.extend(b"0x"),
        1 => t.extend(b"0X"),
        _ => {}
    }
    let n = s.usize(10);
    match s.below(4) {
        0 => t.extend(s.bytes(10)),
        1 => t.extend(s.string(8).into_bytes()),
        2 => t.extend((0..n).map(|_| *s.pick(b"0123456789abcdefABCDEFxXgG-+ @`/:\0"))),
        _ => {
            t.extend((0..n).map(|_| *s.pick(b"0123456789abcdefABCDEF")));
            if !t.is_empty() && s.bool() {
                let i = s.usize(t.len());
                t[i] = s.below(256) as u8;
            }
        }
    }
    c.nontrivial = !t.is_empty();
    c.label(if ref_parse(&t).is_some() { "valid" } else { "invalid" });
    c.note(format!("{:?}", String::from_utf8_lossy(&t)));
    hex_parse(&t)
}

/// all texts of up to two bytes (with and without prefix) and the round trip of all two-byte strings
fn c18_short(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.below(65536);
    let (a, b) = ((i >> 8) as u8, i as u8);
    c.nontrivial = true;
    c.note(format!("{a:02x} {b:02x}"));
    hex_parse(&[a, b])?;
    hex_parse(&[b'0', b'x', a, b])?;
    if i < 256 {
        hex_parse(&[b])?;
        hex_parse(&[b'0', b'X', b])?;
        hex_parse(b"")?;
        hex_parse(b"0x")?;
        hex_round(&[b], s)?;
        hex_round(&[], s)?;
    }
    ensure!(Hex::from_str(&Hex::new(vec![a, b]).to_string()).is_ok_and(|x| x.0 == [a, b]), "round-trip", "{a:02x}{b:02x}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            level: "exploration",
            rule: "the value is not NULL",
            assumptions: &["leap seconds are out of domain", "a date-time converts to its date part when a date is asked for", "infallible conversions of numbers to bool accept every integer"],
            parts: vec![walk("edges", 21, 21, c15_edges), part("from-value", 2_000_000, 60_000_000, c15_from_value), part("to-value", 2_000_000, 30_000_000, c15_to_value)],
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "the text contains a character that is not an ASCII letter or digit",
            assumptions: &["default sql_mode (backslash escapes on, ANSI_QUOTES off), utf8mb4", "the reference lexer is our reading of the MySQL manual"],
            parts: vec![walk("characters", 0x110000 / 64, 0x110000 / 64, c16_chars), part("texts", 600_000, 30_000_000, c16)],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "a value in MySQL's range other than NULL",
            assumptions: &["default sql_mode", "NaN, infinities and temporal values outside MySQL's ranges only have to print without panicking", "default formatting (no width or precision)"],
            parts: vec![walk("small", 65536, 65536, c17_small), part("values", 400_000, 20_000_000, c17)],
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "the text or byte string is not empty",
            assumptions: &["serialisation formats: JSON, bincode, CBOR, RON"],
            parts: vec![walk("short", 65536, 65536, c18_short), part("round-trip", 60_000, 2_000_000, c18_round), part("parse", 400_000, 20_000_000, c18_parse)],
        },
    ]
}
