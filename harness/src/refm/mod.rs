//! Independent reference model of RFC 6376 as implemented by viadkim: written
//! from the RFC text and viadkim's documentation, whole-message and naive where
//! viadkim is streaming and incremental. Shares no code with viadkim; the data
//! types of viadkim's public API are used only to name expected results.

pub mod canon;
pub mod qp;
pub mod rec;
pub mod sha;
pub mod sig;
pub mod tags;
pub mod verify;

/// Header as (name, raw value) pairs.
pub type Hdrs = Vec<(String, Vec<u8>)>;

pub fn eq_nocase(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| lower(x) == lower(y))
}

pub fn lower(b: u8) -> u8 {
    if (b'A'..=b'Z').contains(&b) { b + 32 } else { b }
}

pub fn lower_str(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii() { lower(c as u8) as char } else { c }).collect()
}

pub fn sha256(b: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(b).to_vec()
}

pub fn sha1(b: &[u8]) -> Vec<u8> {
    use sha1::Digest;
    sha1::Sha1::digest(b).to_vec()
}

// RFC 5322 header field name
pub fn valid_field_name(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| (33..=126).contains(&b) && b != b':')
}

// RFC 5322 unstructured/folded body, as documented for FieldBody: lines are
// separated by CRLF only; continuation lines start with WSP and are not blank;
// no control characters except tab
pub fn valid_field_body(v: &[u8]) -> bool {
    let mut lines: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\r' && v.get(i + 1) == Some(&b'\n') {
            lines.push(vec![]);
            i += 2;
        } else {
            lines.last_mut().unwrap().push(v[i]);
            i += 1;
        }
    }
    lines.iter().enumerate().all(|(n, l)| {
        l.iter().all(|&b| b == 9 || (b >= 32 && b != 127))
            && (n == 0
                || (matches!(l.first(), Some(b' ' | b'\t'))
                    && l.iter().any(|&b| b != b' ' && b != b'\t')))
    })
}

// RFC 4648 Base64 with padding. Err(false): not Base64; Err(true): only the
// unused trailing bits are not zero.
pub fn b64_decode(s: &[u8]) -> Result<Vec<u8>, bool> {
    fn val(c: u8) -> Option<u32> {
        const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        A.iter().position(|&x| x == c).map(|p| p as u32)
    }
    if s.len() % 4 != 0 {
        return Err(false);
    }
    let mut out = vec![];
    let mut noncanon = false;
    let n = s.len() / 4;
    for (qi, q) in s.chunks(4).enumerate() {
        let pad = if qi + 1 == n {
            q.iter().rev().take_while(|&&c| c == b'=').count()
        } else {
            0
        };
        if pad > 2 {
            return Err(false);
        }
        let mut x = 0u32;
        for &c in &q[..4 - pad] {
            x = (x << 6) | val(c).ok_or(false)?;
        }
        x <<= 6 * pad;
        let b = x.to_be_bytes();
        out.extend(&b[1..4 - pad]);
        if b[4 - pad..].iter().any(|&z| z != 0) {
            noncanon = true;
        }
    }
    if noncanon { Err(true) } else { Ok(out) }
}

pub fn b64_encode(s: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.chunks(3) {
        let mut x = 0u32;
        for i in 0..3 {
            x = (x << 8) | *c.get(i).unwrap_or(&0) as u32;
        }
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(x >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
