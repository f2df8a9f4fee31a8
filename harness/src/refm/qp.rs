//! RFC 6376, section 2.11: DKIM-Quoted-Printable.

/// dkim-safe-char, extended to UTF-8 (RFC 8616): %x21-3A / %x3C / %x3E-7E
pub fn safe(c: char) -> bool {
    ('!'..=':').contains(&c) || c == '<' || ('>'..='~').contains(&c) || !c.is_ascii()
}

fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

/// Decodes; input is a string containing only well-formed, separate FWS.
/// Whitespace is ignored everywhere, including inside of encoded octets.
pub fn decode(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    for i in 0..b.len() {
        match b[i] {
            b'\r' if b.get(i + 1) != Some(&b'\n')
                || !matches!(b.get(i + 2), Some(b' ' | b'\t')) => return None,
            b'\n' if i == 0 || b[i - 1] != b'\r' => return None,
            _ => {}
        }
    }
    let cs: Vec<char> =
        s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')).collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '=' {
            let a = *cs.get(i + 1)?;
            let b = *cs.get(i + 2)?;
            if !a.is_ascii() || !b.is_ascii() {
                return None;
            }
            out.push(hexval(a as u8)? * 16 + hexval(b as u8)?);
            i += 3;
        } else if safe(cs[i]) {
            out.extend(cs[i].to_string().as_bytes());
            i += 1;
        } else {
            return None;
        }
    }
    Some(out)
}

/// RFC 2045 qp-section in a tag value (n= tag): whitespace counts.
pub fn decode_section(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'=' => {
                out.push(hexval(*b.get(i + 1)?)? * 16 + hexval(*b.get(i + 2)?)?);
                i += 3;
            }
            b' ' | b'\t' => {
                out.push(b[i]);
                i += 1;
            }
            x if x >= 0x80 || safe(x as char) => {
                out.push(x);
                i += 1;
            }
            _ => return None,
        }
    }
    Some(out)
}

/// Encodes: well-formed UTF-8 characters that are safe stay, every other
/// octet becomes =XX.
pub fn encode(bytes: &[u8], special: Option<char>, ascii_only: bool) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < bytes.len() {
        // longest valid char at i
        let mut ch = None;
        for n in 1..=4.min(bytes.len() - i) {
            if let Ok(s) = std::str::from_utf8(&bytes[i..i + n]) {
                ch = s.chars().next();
                break;
            }
        }
        match ch {
            Some(c) if safe(c) && Some(c) != special && (c.is_ascii() || !ascii_only) => {
                out.push(c);
                i += c.len_utf8();
            }
            Some(c) => {
                for k in 0..c.len_utf8() {
                    out.push_str(&format!("={:02X}", bytes[i + k]));
                }
                i += c.len_utf8();
            }
            None => {
                out.push_str(&format!("={:02X}", bytes[i]));
                i += 1;
            }
        }
    }
    out
}
