//! C29 RSA encryption of the password and public keys.
use super::results::*;
use crate::{crypto::*, engine::*, ensure, gen::*, mock::*, server::*, wire::*};
use base64::{engine::general_purpose::STANDARD, Engine as _};
use mysql_connector::{types::AuthPlugin, Connection, PublicKey};
use num::{bigint::BigUint, Integer, One, Zero};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------ making keys

fn big(s: &mut Src, bits: usize) -> BigUint {
    let b = s.blob(bits.div_ceil(8));
    let mut n = BigUint::from_bytes_be(&b);
    n %= BigUint::one() << bits;
    n
}

fn prime(p: &BigUint) -> bool {
    const SMALL: [u32; 30] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113];
    for q in SMALL {
        let q = BigUint::from(q);
        if *p == q {
            return true;
        }
        if (p % &q).is_zero() {
            return false;
        }
    }
    let one = BigUint::one();
    let m = p - &one;
    let r = m.trailing_zeros().unwrap();
    let d = &m >> r;
    'bases: for a in SMALL.iter().take(8) {
        let mut x = BigUint::from(*a).modpow(&d, p);
        if x == one || x == m {
            continue;
        }
        for _ in 1..r {
            x = &x * &x % p;
            if x == m {
                continue 'bases;
            }
        }
        return false;
    }
    true
}

fn gen_prime(s: &mut Src, bits: usize) -> BigUint {
    // the two highest bits set: the product has exactly the sum of the sizes
    let mut p = big(s, bits) | (BigUint::from(3u8) << (bits - 2)) | BigUint::one();
    while !prime(&p) {
        p += 2u8;
        if p.bits() as usize > bits {
            p = (BigUint::from(3u8) << (bits - 2)) | BigUint::one();
        }
    }
    p
}

fn inverse(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    let e = num::BigInt::from(a.clone()).extended_gcd(&num::BigInt::from(m.clone()));
    if !e.gcd.is_one() {
        return None;
    }
    let m = num::BigInt::from(m.clone());
    (((e.x % &m) + &m) % &m).to_biguint()
}

/// a fresh key; its modulus has exactly `bits` bits
fn gen_key(s: &mut Src, bits: usize) -> Key {
    let pb = bits / 2 - if s.chance(1, 3) { s.usize(20) } else { 0 };
    let p = gen_prime(s, pb);
    let mut q = gen_prime(s, bits - pb);
    while q == p || !prime(&q) {
        q += 2u8;
    }
    let n = &p * &q;
    let phi = (&p - 1u8) * (&q - 1u8);
    let e: BigUint = match s.below(6) {
        0 => BigUint::from(3u8),
        1 => BigUint::from(17u8),
        2 => BigUint::from(65537u32),
        3 => (BigUint::one() << 32) + 15u8,
        4 => {
            let k = 2 + s.usize(62);
            big(s, k) + 3u8
        }
        // as large as the modulus
        _ => (big(s, bits) % &n) + 3u8,
    };
    let mut e = e | BigUint::one();
    loop {
        if e >= phi {
            e = BigUint::from(3u8);
        }
        if let Some(d) = inverse(&e, &phi) {
            return Key { bits, n, e, d };
        }
        e += 2u8;
    }
}

// ------------------------------------------------------------ encryption

struct Heard {
    cipher: Option<Vec<u8>>,
    asked: bool,
}

fn encrypt_case(c: &mut Ctx, key: &Key, password: String, known: bool, pem: Vec<u8>, nonce: Vec<u8>, switch: Option<Vec<u8>>, plan: IoPlan) -> Result<Option<Vec<u8>>, Fail> {
    let heard = Arc::new(Mutex::new(Heard { cipher: None, asked: false }));
    let g = Greeting { nonce: nonce.clone(), plugin: "caching_sha2_password".into(), ..Greeting::default() };
    let (h, sw, p2) = (heard.clone(), switch.clone(), pem);
    let mut state = if switch.is_some() { 0 } else { 1 };
    let srv = Server::new(
        g,
        Box::new(move |msg, _l, ss, out| {
            match state {
                0 => {
                    let mut m = vec![0xfe];
                    m.extend_from_slice(b"caching_sha2_password\0");
                    m.extend_from_slice(sw.as_ref().unwrap());
                    m.push(0);
                    state = 1;
                    ss.send(out, &m);
                }
                1 => {
                    state = 2;
                    ss.send(out, &[1, 4]);
                }
                2 if msg == [2] => {
                    h.lock().unwrap().asked = true;
                    let mut m = vec![1];
                    m.extend_from_slice(&p2);
                    state = 3;
                    ss.send(out, &m);
                }
                _ => {
                    h.lock().unwrap().cipher = Some(msg.to_vec());
                    let p = Ok_::default().packet(0, ss.caps);
                    ss.send(out, &p);
                    return true;
                }
            }
            false
        }),
        Box::new(|_, ss, out| ss.respond(out, &Resp::ok(), false, false)),
    );
    let link = Link::new(Box::new(srv), plan);
    let mut o = options::<false>(&link);
    o.password = password.clone();
    o.auth_plugin = Some(AuthPlugin::Sha2);
    if known {
        o.server_key = Some(Arc::new(PublicKey::new(key.n.clone(), key.e.clone())));
    }
    let r = match run(Connection::connect(Arc::new(o))) {
        Ok(r) => r,
        Err(_) => return Err(hang("the login")),
    };
    let heard = heard.lock().unwrap();
    let mut want = password.into_bytes();
    want.push(0);
    let what = format!("{} bit key with a {} bit exponent, {} bytes", key.bits, key.e.bits(), want.len());
    let nonce = switch.unwrap_or(nonce);
    if want.len() > key.room() || key.octets() < 42 {
        c.label("does not fit");
        ensure!(heard.cipher.is_none(), "sent", "{what} do not fit: something is sent nevertheless");
        match r {
            Ok(_) => fail("accepted", format!("{what} do not fit: the login succeeds")),
            Err(e) if matches!(kind(&e), Kind::Runtime | Kind::Protocol) => Ok(None),
            Err(e) => fail("error", format!("{what} do not fit: {e:?}")),
        }
    } else {
        c.label(if want.len() == key.room() { "fits exactly" } else { "fits" });
        let Some(cipher) = &heard.cipher else {
            return fail("refused", format!("{what} fit, but no password is sent: {:?}", r.err()));
        };
        c.label(match cipher.first() {
            Some(0) => "leading zero",
            _ => "no leading zero",
        });
        ensure!(heard.asked != known, "asked", "{what}: the server's key is {}, asked {}", if known { "known" } else { "not known" }, heard.asked);
        match key.decrypt(cipher) {
            Err(e) => fail("undecryptable", format!("{what}: {e}")),
            Ok(x) => {
                ensure!(xor_nonce(&x, &nonce) == want, "message", "{what}: decrypts to {} bytes which are not the password with the challenge", x.len());
                ensure!(r.is_ok(), "login", "{what}: {:?}", r.err());
                Ok(Some(cipher.clone()))
            }
        }
    }
}

fn gen_pw(s: &mut Src, n: usize) -> String {
    // n bytes without NUL
    let ascii = s.bool();
    let mut out = String::new();
    let seed = s.u64();
    let mut i = 0;
    while out.len() < n {
        let x = mix(seed, i);
        i += 1;
        let ch = if ascii || x % 3 > 0 { char::from(1 + (x >> 8) as u8 % 127) } else { *['ä', '日', '😀'].get((x >> 8) as usize % 3).unwrap() };
        if out.len() + ch.len_utf8() <= n {
            out.push(ch);
        } else {
            out.push('x');
        }
    }
    out
}
fn nonce(s: &mut Src) -> Vec<u8> {
    let seed = s.u64();
    expand(seed | 1, 20).into_iter().map(|b| if b == 0 { 1 } else { b }).collect()
}
fn layout(s: &mut Src) -> (usize, &'static str) {
    (*s.pick(&[64usize, 1, 3, 20, 63, 65, 76, 80, 10_000]), *s.pick(&["\n", "\r\n", "\r", "\n\n", " \n", "\n\t", "\n  ", " "]))
}

fn encrypt_with(s: &mut Src, c: &mut Ctx, key: &Key, twice: bool) -> Res {
    let room = key.room();
    let len = match s.below(4) {
        // around the limit (the terminating zero counts)
        0 | 1 => (room + 2).saturating_sub(s.usize(5)),
        2 => 1 + s.usize(room.max(1)),
        _ => 1 + s.usize(2 * room + 40),
    };
    // a login request holds at most 255 bytes of other data, but the password may be longer
    let password = gen_pw(s, len.max(1));
    let known = s.chance(1, 3);
    let (w, nl) = layout(s);
    let pem = key.pem(s.bool(), w, nl);
    let (n1, sw) = (nonce(s), if s.chance(1, 3) { Some(nonce(s)) } else { None });
    let plan = IoPlan::gen(s);
    c.note(format!("{} bit key, exponent {:x}, password of {} bytes, {}known", key.bits, key.e, password.len(), if known { "" } else { "un" }));
    c.nontrivial = password.len() + 1 <= room;
    let first = encrypt_case(c, key, password.clone(), known, pem.clone(), n1.clone(), sw.clone(), plan.clone())?;
    if let Some(x) = first.filter(|_| twice) {
        let second = encrypt_case(c, key, password, known, pem, n1, sw, plan)?;
        ensure!(Some(x) != second, "not randomised", "encrypting the same password for the same challenge twice gives the same bytes");
    }
    Ok(())
}

fn c29_fresh(s: &mut Src, c: &mut Ctx) -> Res {
    let bits = match s.below(8) {
        // too small for anything
        0 => 280 + s.usize(64),
        1 => 335 + s.usize(20),
        2 => 505 + s.usize(20),
        _ => 340 + s.usize(180),
    };
    let key = gen_key(s, bits);
    if key.n.bits() as usize != bits {
        return fail("harness", format!("the key has {} instead of {bits} bits", key.n.bits()));
    }
    encrypt_with(s, c, &key, false)
}

fn c29_sizes(s: &mut Src, c: &mut Ctx) -> Res {
    let i = s.below(u64::MAX) as usize;
    let key = &keys()[i % keys().len()];
    encrypt_with(s, c, key, true)
}

// ------------------------------------------------------------ reading keys

fn key_parts(s: &mut Src) -> (BigUint, BigUint) {
    let bits = match s.below(5) {
        0 => *s.pick(&[512usize, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4095, 4096, 8192, 16384]),
        1 => 16 + s.usize(300),
        _ => 300 + s.usize(2000),
    };
    let n = big(s, bits) | (BigUint::one() << (bits - 1)) | BigUint::one();
    let eb = match s.below(4) {
        0 => 2,
        1 => 17,
        2 => 2 + s.usize(62),
        _ if bits <= 3072 => 2 + s.usize(bits - 2),
        _ => 64,
    };
    let e = (big(s, eb.min(bits - 1)) | BigUint::one()).max(BigUint::from(3u8));
    if e >= n {
        (n, BigUint::from(3u8))
    } else {
        (n, e)
    }
}

fn same_key(k: &PublicKey, n: &BigUint, e: &BigUint, what: &str) -> Res {
    ensure!(k.modulus() == n, "modulus", "{what}: modulus {:x} instead of {n:x}", k.modulus());
    ensure!(k.exponent() == e, "exponent", "{what}: exponent {:x} instead of {e:x}", k.exponent());
    let octets = n.to_bytes_be().len();
    ensure!(k.num_octets() == octets, "octets", "{what}: {} octets instead of {octets}", k.num_octets());
    Ok(())
}

fn c29_read(s: &mut Src, c: &mut Ctx) -> Res {
    let (n, e) = key_parts(s);
    let k = Key { bits: n.bits() as usize, n: n.clone(), e: e.clone(), d: BigUint::zero() };
    let p8 = s.bool();
    let (w, nl) = layout(s);
    let mut pem = k.pem(p8, w, nl);
    match s.below(4) {
        0 => {
            // no line end after the last line
            while pem.last().is_some_and(|b| b.is_ascii_whitespace()) {
                pem.pop();
            }
        }
        1 => pem.extend_from_slice(b"\n \r\n"),
        2 => {
            pem.splice(0..0, *b"\n  ");
        }
        _ => {}
    }
    c.note(format!("{} bits, exponent {} bits, {}, lines of {w} ended by {nl:?}", k.bits, e.bits(), if p8 { "SubjectPublicKeyInfo" } else { "RSAPublicKey" }));
    c.nontrivial = true;
    let what = format!("{} bit key, exponent {e:x}, {} in lines of {w}", k.bits, if p8 { "SubjectPublicKeyInfo" } else { "RSAPublicKey" });
    match PublicKey::try_from_pem(&pem) {
        Ok(x) => same_key(&x, &n, &e, &what)?,
        Err(x) => return fail("rejected", format!("{what}: {x:?}: {}", String::from_utf8_lossy(&pem))),
    }
    match PublicKey::try_from_pkcs1(&k.pkcs1()) {
        Ok(x) => same_key(&x, &n, &e, &what)?,
        Err(x) => return fail("rejected", format!("{what}: pkcs1 {x:?}")),
    }
    // the parameters of the algorithm may be left out
    let der = if s.bool() {
        k.pkcs8()
    } else {
        let mut bits = vec![0];
        bits.extend(k.pkcs1());
        let mut b = tlv(0x30, &tlv(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]));
        b.extend(tlv(3, &bits));
        tlv(0x30, &b)
    };
    match PublicKey::try_from_pkcs8(&der) {
        Ok(x) => same_key(&x, &n, &e, &what)?,
        Err(x) => return fail("rejected", format!("{what}: pkcs8 {x:?}")),
    }
    same_key(&PublicKey::new(n.clone(), e.clone()), &n, &e, "new")
}

fn c29_malformed(s: &mut Src, c: &mut Ctx) -> Res {
    let (n, e) = key_parts(s);
    let k = Key { bits: n.bits() as usize, n: n.clone(), e, d: BigUint::zero() };
    let p8 = s.bool();
    let der = if p8 { k.pkcs8() } else { k.pkcs1() };
    let label = if p8 { "PUBLIC KEY" } else { "RSA PUBLIC KEY" };
    let other = if p8 { "RSA PUBLIC KEY" } else { "PUBLIC KEY" };
    let (w, nl) = layout(s);
    let good = pem(label, &der, w, nl);
    let text = String::from_utf8(good.clone()).unwrap();
    c.nontrivial = true;
    // positions of the tags in the encoding
    let tags = |der: &[u8], p8: bool| -> Vec<usize> {
        let skip = |p: usize| -> (usize, usize) {
            // start and end of the contents
            let l = der[p + 1];
            if l < 0x80 {
                (p + 2, p + 2 + l as usize)
            } else {
                let m = (l & 0x7f) as usize;
                let n = der[p + 2..p + 2 + m].iter().fold(0usize, |a, b| a << 8 | *b as usize);
                (p + 2 + m, p + 2 + m + n)
            }
        };
        let mut v = vec![0];
        let mut p = skip(0).0;
        if p8 {
            v.push(p);
            p = skip(p).1;
            v.push(p);
            p = skip(p).0 + 1;
            v.push(p);
            p = skip(p).0;
        }
        v.push(p);
        v.push(skip(p).1);
        v
    };
    let (how, bytes): (String, Vec<u8>) = match s.below(11) {
        0 => {
            let i = s.usize(der.len());
            (format!("encoding cut after {i} of {} bytes", der.len()), pem(label, &der[..i], w, nl))
        }
        1 => {
            let t = tags(&der, p8);
            let i = t[s.usize(t.len())];
            let mut d = der.clone();
            d[i] = match s.below(3) {
                0 => d[i] ^ (1 << s.below(8)),
                1 => 0,
                _ => {
                    if d[i] == 4 {
                        5
                    } else {
                        4
                    }
                }
            };
            (format!("tag at {i} is {:#x}", d[i]), pem(label, &d, w, nl))
        }
        2 => (format!("labelled {other}"), pem(other, &der, w, nl)),
        3 => ("different labels".into(), text.replace(&format!("END {label}"), &format!("END {other}")).into_bytes()),
        4 => {
            // a character that does not belong there
            let start = text.find("KEY-----").unwrap() + 8;
            let end = text.find("-----END").unwrap();
            let body: Vec<usize> = (start..end).filter(|i| !text.as_bytes()[*i].is_ascii_whitespace()).collect();
            let mut b = good.clone();
            let i = *s.pick(&body);
            b[i] = *s.pick(b"!-_\0\x7f\x80\xff.,*#");
            (format!("byte {:#x} in the body", b[i]), b)
        }
        5 => {
            let i = s.usize(good.len() - 6);
            (format!("text cut after {i} bytes"), good[..i].to_vec())
        }
        6 => {
            let i = text.find("-----BEGIN").unwrap() + s.usize(15);
            let mut b = good.clone();
            b[i] ^= 0x20;
            if b[i].is_ascii_whitespace() || good[i].is_ascii_whitespace() {
                b[i] = b'?';
            }
            (format!("header with {:?} at {i}", b[i] as char), b)
        }
        9 => {
            // bits of the bit string that are not used
            let mut d = k.pkcs8();
            let t = tags(&d, true);
            d[t[3] - 1] = 1 + s.below(255) as u8;
            (format!("unused bits: {}", d[t[3] - 1]), pem("PUBLIC KEY", &d, w, nl))
        }
        7 => ("no body".into(), pem(label, &[], w, nl)),
        8 => {
            // a length that reaches beyond the end
            let t = tags(&der, p8);
            let i = t[s.usize(t.len())] + 1;
            let mut d = der.clone();
            d[i] = *s.pick(&[0xff, 0xfe, 0x89, 0x88, 0x90]);
            (format!("length byte {:#x} at {i}", d[i]), pem(label, &d, w, nl))
        }
        _ => {
            // another base64 length
            let b64 = STANDARD.encode(&der);
            let cut = b64.trim_end_matches('=').len() - if b64.ends_with('=') { 0 } else { 1 };
            (format!("base64 of {cut} characters"), format!("-----BEGIN {label}-----\n{}\n-----END {label}-----\n", &b64[..cut]).into_bytes())
        }
    };
    c.note(format!("{} bits, {how}", k.bits));
    c.label(how.split(" at ").next().unwrap().split(|c: char| c.is_ascii_digit()).next().unwrap().trim().to_string());
    match PublicKey::try_from_pem(&bytes) {
        Err(_) => Ok(()),
        Ok(x) => fail("accepted", format!("{how}: accepted as modulus {:x}, exponent {:x}: {}", x.modulus(), x.exponent(), String::from_utf8_lossy(&bytes))),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "encryption: the password fits; reading and malformed: always",
        assumptions: &["keys are generated by the harness; primes pass Miller-Rabin with eight bases", "passwords contain no NUL", "exponent 1 and even moduli are out of domain", "text before the header is out of domain"],
        parts: vec![part("fresh", 20_000, 600_000, c29_fresh), walk("sizes", 4_600, 69_000, c29_sizes), part("read", 100_000, 1_000_000, c29_read), part("malformed", 300_000, 2_000_000, c29_malformed)],
    }]
}
