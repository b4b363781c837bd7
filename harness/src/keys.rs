//! RSA key pairs (made with openssl, committed) and verification under their public halves.

use std::sync::OnceLock;

use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09};

use crate::rfc;

pub struct Key {
    pub name: &'static str,
    pub bits: usize,
    pub p06: rsa_sha1_06::RsaPrivateKey,
    pub p09: rsa_sha1_09::RsaPrivateKey,
    pub k06: oauth::RsaSha1,
    pub k09: oauth::Rsa09Sha1,
    /// The key as PKCS#8 DER.
    pub pkcs8: Vec<u8>,
    n: Vec<u8>,
    e: Vec<u8>,
    /// What is private of it, in RSAPrivateKey's order: d, p, q, d mod p-1, d mod q-1, 1/q mod p.
    pub private: Vec<Vec<u8>>,
}

/// Reads one DER element: `(tag, contents, rest)`.
fn der(b: &[u8]) -> (u8, &[u8], &[u8]) {
    let tag = b[0];
    let (len, head) = if b[1] < 0x80 {
        (b[1] as usize, 2)
    } else {
        let k = (b[1] & 0x7f) as usize;
        (b[2..2 + k].iter().fold(0, |a, &x| a << 8 | x as usize), 2 + k)
    };
    (tag, &b[head..head + len], &b[head + len..])
}

fn wrap(tag: u8, contents: &[u8]) -> Vec<u8> {
    let mut out = vec![tag];
    let n = contents.len();
    if n < 0x80 {
        out.push(n as u8);
    } else if n < 0x100 {
        out.extend([0x81, n as u8]);
    } else {
        out.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    out.extend_from_slice(contents);
    out
}

fn trim(b: &[u8]) -> Vec<u8> {
    let i = b.iter().position(|&x| x != 0).unwrap_or(b.len());
    b[i..].to_vec()
}

impl Key {
    fn new(name: &'static str, pkcs1: &[u8]) -> Key {
        // PrivateKeyInfo { version, algorithm, OCTET STRING { RSAPrivateKey { version, n, e, … } } }
        const RSA: &[u8] = &[
            0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00,
        ];
        let info = [&[0x02, 0x01, 0x00], RSA, &wrap(0x04, pkcs1)].concat();
        let pkcs8 = &*wrap(0x30, &info);
        let (_, key, _) = der(pkcs1);
        let (_, _, rest) = der(key);
        let (_, n, rest) = der(rest);
        let (_, e, mut rest) = der(rest);
        let mut private = Vec::new();
        while !rest.is_empty() {
            let (_, x, r) = der(rest);
            private.push(trim(x));
            rest = r;
        }
        let (n, e) = (trim(n), trim(e));
        let p06: rsa_sha1_06::RsaPrivateKey =
            rsa_sha1_06::DecodePrivateKey::from_pkcs8_der(pkcs8).expect("key for rsa 0.6");
        let p09: rsa_sha1_09::RsaPrivateKey =
            rsa_sha1_09::DecodePrivateKey::from_pkcs8_der(pkcs8).expect("key for rsa 0.9");
        Key {
            name,
            bits: n.len() * 8 - n[0].leading_zeros() as usize,
            k06: oauth::RsaSha1::new(p06.clone()),
            k09: oauth::Rsa09Sha1::new(p09.clone()),
            p06,
            p09,
            pkcs8: pkcs8.to_vec(),
            n,
            e,
            private,
        }
    }

    /// The ways in which a number, or one of its 64-bit digits, or its bytes, that is private may show in a text.
    pub fn private_texts(&self) -> Vec<String> {
        let mut out = Vec::new();
        for x in &self.private {
            let hex: String = x.iter().map(|b| format!("{:02x}", b)).collect();
            out.extend([hex[..32].to_string(), hex[..32].to_uppercase()]);
            out.push(x[..8].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "));
            for limb in x.rchunks(8) {
                let limb = limb.iter().fold(0u64, |a, &b| a << 8 | u64::from(b));
                if limb >> 40 != 0 {
                    out.extend([format!("{}", limb), format!("{:x}", limb), format!("{:X}", limb)]);
                }
            }
        }
        out
    }

    /// Verifies a raw RSASSA-PKCS1-v1_5 signature with SHA-1 under the public key.
    pub fn verify(&self, sig: &[u8], msg: &[u8]) -> Result<(), String> {
        rfc::rsa_verify(&self.n, &self.e, sig, msg).map_err(|e| format!("key {}: {}", self.name, e))
    }
}

macro_rules! keys {
    ($($name:literal),* $(,)?) => {
        pub const NAMES: &[&str] = &[$($name),*];
        pub fn all() -> &'static [Key] {
            static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
            KEYS.get_or_init(|| vec![$(
                Key::new($name, include_bytes!(concat!("../keys/", $name, ".der"))),
            )*])
        }
    };
}

keys! {
    "512-1", "512-2", "640-1", "640-2", "768-1", "768-2", "768-e3", "1016-1", "1016-2", "1024-1",
    "1024-2", "1024-e17", "1031-1", "1031-2", "1032-1", "1032-2", "1033-1", "1033-2", "2048-1",
    "2048-2",
}

/// The smallest key, for checks that need some RSA method only.
pub fn small() -> &'static Key {
    &all()[0]
}
