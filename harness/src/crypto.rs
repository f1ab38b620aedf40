//! Server-side cryptography: test keys, DER/PEM encoding, OAEP decryption, password proofs.
use base64::{engine::general_purpose::STANDARD, Engine as _};
use num::BigUint;
use sha1::{Digest, Sha1};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Key {
    pub bits: usize,
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
}

pub fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        include_str!("../data/keys.txt")
            .lines()
            .map(|l| {
                let f: Vec<&str> = l.split_whitespace().collect();
                let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
                Key { bits: f[0].parse().unwrap(), n: h(f[1]), e: h(f[2]), d: h(f[3]) }
            })
            .collect()
    })
}
pub fn key_of(bits: usize) -> &'static Key {
    keys().iter().find(|k| k.bits == bits).unwrap()
}

pub fn der_len(out: &mut Vec<u8>, n: usize) {
    if n < 128 {
        out.push(n as u8)
    } else {
        let b = n.to_be_bytes();
        let z = b.iter().take_while(|x| **x == 0).count();
        out.push(0x80 | (b.len() - z) as u8);
        out.extend_from_slice(&b[z..]);
    }
}
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    der_len(&mut v, body.len());
    v.extend_from_slice(body);
    v
}
pub fn der_uint(n: &BigUint) -> Vec<u8> {
    let mut b = n.to_bytes_be();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    tlv(2, &b)
}
impl Key {
    pub fn octets(&self) -> usize {
        (self.bits + 7) / 8
    }
    pub fn pkcs1(&self) -> Vec<u8> {
        let mut b = der_uint(&self.n);
        b.extend(der_uint(&self.e));
        tlv(0x30, &b)
    }
    pub fn pkcs8(&self) -> Vec<u8> {
        let mut alg = tlv(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]);
        alg.extend(tlv(5, &[]));
        let mut bits = vec![0];
        bits.extend(self.pkcs1());
        let mut b = tlv(0x30, &alg);
        b.extend(tlv(3, &bits));
        tlv(0x30, &b)
    }
    pub fn pem(&self, pkcs8: bool, width: usize, nl: &str) -> Vec<u8> {
        pem(if pkcs8 { "PUBLIC KEY" } else { "RSA PUBLIC KEY" }, &if pkcs8 { self.pkcs8() } else { self.pkcs1() }, width, nl)
    }
    /// RSA-OAEP (SHA-1, empty label) decryption
    pub fn decrypt(&self, c: &[u8]) -> Result<Vec<u8>, String> {
        let k = self.octets();
        if c.len() != k {
            return Err(format!("ciphertext has {} bytes, the key {}", c.len(), k));
        }
        let c = BigUint::from_bytes_be(c);
        if c >= self.n {
            return Err("ciphertext not below the modulus".into());
        }
        let m = c.modpow(&self.d, &self.n).to_bytes_be();
        let mut em = vec![0u8; k - m.len().min(k)];
        em.extend(m);
        if em.len() != k || k < 42 || em[0] != 0 {
            return Err("decrypted block does not begin with 0".into());
        }
        let mut seed = em[1..21].to_vec();
        let mut db = em[21..].to_vec();
        for (a, b) in seed.iter_mut().zip(mgf1(&db, 20)) {
            *a ^= b;
        }
        let mask = mgf1(&seed, db.len());
        for (a, b) in db.iter_mut().zip(mask) {
            *a ^= b;
        }
        if db[..20] != Sha1::digest([])[..] {
            return Err("label hash does not match".into());
        }
        let p = db[20..].iter().position(|x| *x != 0).ok_or("no separator")? + 20;
        if db[p] != 1 {
            return Err("wrong separator".into());
        }
        Ok(db[p + 1..].to_vec())
    }
    /// longest message that fits
    pub fn room(&self) -> usize {
        self.octets().saturating_sub(42)
    }
}

pub fn pem(label: &str, der: &[u8], width: usize, nl: &str) -> Vec<u8> {
    let b = STANDARD.encode(der);
    let mut s = format!("-----BEGIN {label}-----{nl}");
    for c in b.as_bytes().chunks(width.max(1)) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push_str(nl);
    }
    s.push_str(&format!("-----END {label}-----{nl}"));
    s.into_bytes()
}

fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len {
        let mut h = Sha1::new();
        h.update(seed);
        h.update(i.to_be_bytes());
        out.extend_from_slice(&h.finalize());
        i += 1;
    }
    out.truncate(len);
    out
}

/// what a server with account password `pw` expects from mysql_native_password
pub fn native_proof(nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    if pw.is_empty() {
        return vec![];
    }
    let h1 = Sha1::digest(pw);
    let h2 = Sha1::digest(h1);
    let mut h = Sha1::new();
    h.update(nonce);
    h.update(h2);
    h.finalize().iter().zip(h1).map(|(a, b)| a ^ b).collect()
}
pub fn sha2_proof(nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    use sha2::Sha256;
    if pw.is_empty() {
        return vec![];
    }
    let h1 = Sha256::digest(pw);
    let h2 = Sha256::digest(h1);
    let mut h = Sha256::new();
    h.update(h2);
    h.update(nonce);
    h.finalize().iter().zip(h1).map(|(a, b)| a ^ b).collect()
}
pub fn xor_nonce(b: &[u8], nonce: &[u8]) -> Vec<u8> {
    b.iter().enumerate().map(|(i, x)| x ^ nonce[i % nonce.len()]).collect()
}
