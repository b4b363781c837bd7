//! An independent reading of RFC 5849 and RFC 3986, sharing no code with the library or its
//! dependencies: percent encoding, SHA-1, HMAC, base64, signature base strings, and a server that
//! takes a signed message apart and verifies it.

pub fn is_unreserved(b: u8) -> bool {
    matches!(b, b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~')
}

/// RFC 5849 section 3.6.
pub fn enc(s: &str) -> String {
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    let mut out = String::with_capacity(s.len());
    for &b in s.as_bytes() {
        if is_unreserved(b) {
            out.push(b as char);
        } else {
            out.push('%');
            out.push(HEX[(b >> 4) as usize] as char);
            out.push(HEX[(b & 15) as usize] as char);
        }
    }
    out
}

fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'A'..=b'F' => Some(b - b'A' + 10),
        b'a'..=b'f' => Some(b - b'a' + 10),
        _ => None,
    }
}

/// Strict percent-decoding: every `%` must start an escape and the result must be UTF-8.
pub fn dec(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let (h, l) = match (b.get(i + 1), b.get(i + 2)) {
                (Some(&h), Some(&l)) => (h, l),
                _ => return Err(format!("truncated percent escape in {:?}", s)),
            };
            match (hexval(h), hexval(l)) {
                (Some(h), Some(l)) => out.push(h << 4 | l),
                _ => return Err(format!("bad percent escape in {:?}", s)),
            }
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).map_err(|_| format!("not UTF-8 after decoding {:?}", s))
}

/// Whether `s` consists of unreserved characters and upper-case escapes only.
pub fn is_canonical(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if is_unreserved(b[i]) {
            i += 1;
        } else if b[i] == b'%'
            && i + 2 < b.len()
            && b[i + 1..i + 3]
                .iter()
                .all(|c| matches!(c, b'0'..=b'9' | b'A'..=b'F'))
        {
            i += 3;
        } else {
            return false;
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------
// SHA-1, HMAC, base64

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut msg = data.to_vec();
    let bitlen = (data.len() as u64) * 8;
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&bitlen.to_be_bytes());
    for block in msg.chunks(64) {
        let mut w = [0u32; 80];
        for (i, c) in block.chunks(4).enumerate() {
            w[i] = u32::from_be_bytes([c[0], c[1], c[2], c[3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, &wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & c) | (!b & d), 0x5A827999),
                20..=39 => (b ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for (o, x) in out.chunks_mut(4).zip(h) {
        o.copy_from_slice(&x.to_be_bytes());
    }
    out
}

pub fn hmac_sha1(key: &[u8], msg: &[u8]) -> [u8; 20] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..20].copy_from_slice(&sha1(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let ih = sha1(&inner);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&ih);
    sha1(&outer)
}

pub fn base64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (u32::from(c[0]) << 16)
            | (u32::from(*c.get(1).unwrap_or(&0)) << 8)
            | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                out.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

pub fn unbase64(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Err(format!("base64 length of {:?}", s));
    }
    let mut out = Vec::new();
    for (ci, c) in b.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|&&x| x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return Err(format!("base64 padding of {:?}", s));
        }
        let mut n = 0u32;
        for &x in &c[..4 - pad] {
            let v = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return Err(format!("base64 character in {:?}", s)),
            };
            n = n << 6 | u32::from(v);
        }
        n <<= 6 * pad;
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if bytes[3 - pad..].iter().any(|&b| b != 0) {
            return Err(format!("base64 trailing bits of {:?}", s));
        }
        out.extend_from_slice(&bytes[..3 - pad]);
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// Signature base string

/// RFC 5849 section 3.4.1.3.2: parameters given *already encoded*, normalised.
pub fn normalize(mut encoded: Vec<(String, String)>) -> String {
    encoded.sort();
    let parts: Vec<String> = encoded
        .iter()
        .map(|(k, v)| format!("{}={}", k, v))
        .collect();
    parts.join("&")
}

/// Base string from decoded parameters.
pub fn base_string(method: &str, uri: &str, params: &[(String, String)]) -> String {
    let p = params.iter().map(|(k, v)| (enc(k), enc(v))).collect();
    base_string_enc(method, uri, p)
}

/// Base string from encoded parameters.
pub fn base_string_enc(method: &str, uri: &str, params: Vec<(String, String)>) -> String {
    format!("{}&{}&{}", enc(method), enc(uri), enc(&normalize(params)))
}

pub fn signing_key(client_secret: &str, token_secret: Option<&str>) -> String {
    format!("{}&{}", enc(client_secret), enc(token_secret.unwrap_or("")))
}

pub fn hmac_signature(base: &str, client_secret: &str, token_secret: Option<&str>) -> String {
    base64(&hmac_sha1(
        signing_key(client_secret, token_secret).as_bytes(),
        base.as_bytes(),
    ))
}

// ---------------------------------------------------------------------------------------------
// Taking messages apart

/// Parses an `Authorization` header of the shape the library documents, returning `(name, raw
/// value)` pairs in order. Values may contain only unreserved characters and upper-case escapes.
pub fn parse_header(h: &str) -> Result<Vec<(String, String)>, String> {
    let rest = h
        .strip_prefix("OAuth ")
        .ok_or_else(|| format!("header does not start with the scheme: {:?}", h))?;
    let mut out = Vec::new();
    for item in rest.split(',') {
        let (k, v) = item
            .split_once('=')
            .ok_or_else(|| format!("header item without '=': {:?} in {:?}", item, h))?;
        let v = v
            .strip_prefix('"')
            .and_then(|v| v.strip_suffix('"'))
            .ok_or_else(|| format!("header value not quoted: {:?} in {:?}", item, h))?;
        if !is_canonical(k) || k.is_empty() {
            return Err(format!("header name {:?} in {:?}", k, h));
        }
        if !is_canonical(v) {
            return Err(format!("header value not canonical: {:?} in {:?}", v, h));
        }
        out.push((k.to_string(), v.to_string()));
    }
    Ok(out)
}

/// Splits an urlencoded string into raw pairs; the empty string has no pairs.
pub fn split_form(s: &str) -> Result<Vec<(String, String)>, String> {
    if s.is_empty() {
        return Ok(Vec::new());
    }
    s.split('&')
        .map(|p| {
            p.split_once('=')
                .map(|(k, v)| (k.to_string(), v.to_string()))
                .ok_or_else(|| format!("pair without '=': {:?} in {:?}", p, s))
        })
        .collect()
}

/// Decodes an urlencoded string into pairs, strictly (`+` is not accepted as a space: the library
/// never produces one, and a plain one would be ambiguous).
pub fn parse_form(s: &str) -> Result<Vec<(String, String)>, String> {
    split_form(s)?
        .into_iter()
        .map(|(k, v)| {
            if k.contains('+') || v.contains('+') {
                return Err(format!("ambiguous plus sign in {:?}", s));
            }
            Ok((dec(&k)?, dec(&v)?))
        })
        .collect()
}

/// A message as an RFC 5849 server sees it: all parameters decoded, and the signature set apart.
pub struct ServerView {
    pub params: Vec<(String, String)>,
    pub signature: String,
    pub method_name: String,
}

impl ServerView {
    pub fn new(params: Vec<(String, String)>) -> Result<Self, String> {
        let sigs: Vec<_> = params
            .iter()
            .filter(|(k, _)| k == "oauth_signature")
            .collect();
        if sigs.len() != 1 {
            return Err(format!("{} oauth_signature parameters", sigs.len()));
        }
        let signature = sigs[0].1.clone();
        let m: Vec<_> = params
            .iter()
            .filter(|(k, _)| k == "oauth_signature_method")
            .collect();
        if m.len() != 1 {
            return Err(format!("{} oauth_signature_method parameters", m.len()));
        }
        let method_name = m[0].1.clone();
        Ok(ServerView {
            signature,
            method_name,
            params: params
                .into_iter()
                .filter(|(k, _)| k != "oauth_signature")
                .collect(),
        })
    }

    pub fn base_string(&self, method: &str, uri: &str) -> String {
        base_string(method, uri, &self.params)
    }

    pub fn verify(
        &self,
        method: &str,
        uri: &str,
        client_secret: &str,
        token_secret: Option<&str>,
    ) -> Result<(), String> {
        let expected = match &*self.method_name {
            "HMAC-SHA1" => hmac_signature(
                &self.base_string(method, uri),
                client_secret,
                token_secret,
            ),
            "PLAINTEXT" => signing_key(client_secret, token_secret),
            m => return Err(format!("signature method {:?}", m)),
        };
        if expected != self.signature {
            return Err(format!(
                "signature rejected: got {:?}, server computed {:?}\n  base string: {:?}",
                self.signature,
                expected,
                self.base_string(method, uri)
            ));
        }
        Ok(())
    }
}

/// Verifies a PKCS#1 v1.5 SHA-1 signature (RFC 8017 section 8.2.2) by modular exponentiation.
pub fn rsa_verify(n: &[u8], e: &[u8], sig: &[u8], msg: &[u8]) -> Result<(), String> {
    use num_bigint_dig::BigUint;
    let nn = BigUint::from_bytes_be(n);
    let k = (nn.bits() + 7) / 8;
    if sig.len() != k {
        return Err(format!("RSA signature has {} bytes, modulus {}", sig.len(), k));
    }
    let s = BigUint::from_bytes_be(sig);
    if s >= nn {
        return Err("RSA signature representative out of range".into());
    }
    let m = s.modpow(&BigUint::from_bytes_be(e), &nn).to_bytes_be();
    let mut em = vec![0; k - m.len()];
    em.extend_from_slice(&m);
    const PREFIX: &[u8] = &[
        0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14,
    ];
    let mut t = PREFIX.to_vec();
    t.extend_from_slice(&sha1(msg));
    let mut expected = vec![0x00, 0x01];
    expected.resize(k - t.len() - 1, 0xFF);
    expected.push(0);
    expected.extend_from_slice(&t);
    if em != expected {
        return Err("RSA signature does not verify".into());
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|b| format!("{:02x}", b)).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hex(&sha1(b"")), "da39a3ee5e6b4b0d3255bfef95601890afd80709");
        assert_eq!(hex(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
        assert_eq!(
            hex(&sha1(&vec![b'a'; 1_000_000])),
            "34aa973cd4c4daa4f61eeb2bdbad27316534016f"
        );
        // RFC 2202
        assert_eq!(
            hex(&hmac_sha1(&[0x0b; 20], b"Hi There")),
            "b617318655057264e28bc0b6fb378c8ef146be00"
        );
        assert_eq!(
            hex(&hmac_sha1(&[0xaa; 80], b"Test Using Larger Than Block-Size Key - Hash Key First")),
            "aa4ae5e15272d00e95705637ce8a3b55ed402112"
        );
        assert_eq!(base64(b"fooba"), "Zm9vYmE=");
        assert_eq!(base64(b"foob"), "Zm9vYg==");
        assert_eq!(unbase64("Zm9vYg==").unwrap(), b"foob");
        // RFC 5849 section 3.4.1.1 (base string example)
        let p = |k: &str, v: &str| (k.to_string(), v.to_string());
        let params = vec![
            p("b5", "=%3D"), p("a3", "a"), p("c@", ""), p("a2", "r b"),
            p("oauth_consumer_key", "9djdj82h48djs9d2"), p("oauth_token", "kkk9d7dh3k39sjv7"),
            p("oauth_signature_method", "HMAC-SHA1"), p("oauth_timestamp", "137131201"),
            p("oauth_nonce", "7d8f3e4a"), p("c2", ""), p("a3", "2 q"),
        ];
        let b = base_string("POST", "http://example.com/request", &params);
        assert_eq!(b, "POST&http%3A%2F%2Fexample.com%2Frequest&a2%3Dr%2520b%26a3%3D2%2520q%26a3%3Da%26b5%3D%253D%25253D%26c%2540%3D%26c2%3D%26oauth_consumer_key%3D9djdj82h48djs9d2%26oauth_nonce%3D7d8f3e4a%26oauth_signature_method%3DHMAC-SHA1%26oauth_timestamp%3D137131201%26oauth_token%3Dkkk9d7dh3k39sjv7");
        assert_eq!(hmac_signature(&b, "j49sk3j29djd", Some("dh893hdasih9")), "r6/TJjbCOr97/+UU0NsvSne7s5g=");
    }
}
