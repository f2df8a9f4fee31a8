//! RFC 6376, section 3.4, on whole inputs.

use super::*;

fn wsp(b: u8) -> bool {
    b == b' ' || b == b'\t'
}

/// Splits at CRLF only. The last element is what follows the last CRLF.
fn lines(body: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < body.len() {
        if body[i..].starts_with(b"\r\n") {
            out.push(vec![]);
            i += 2;
        } else {
            out.last_mut().unwrap().push(body[i]);
            i += 1;
        }
    }
    out
}

/// Section 3.4.3: "converts *CRLF at the end of the body to a single CRLF".
pub fn body_simple(body: &[u8]) -> Vec<u8> {
    let mut b = body.to_vec();
    while b.ends_with(b"\r\n") {
        b.truncate(b.len() - 2);
    }
    b.extend(b"\r\n");
    b
}

/// Section 3.4.4.
pub fn body_relaxed(body: &[u8]) -> Vec<u8> {
    let mut ls: Vec<Vec<u8>> = lines(body)
        .into_iter()
        .map(|l| {
            let mut o: Vec<u8> = vec![];
            let mut in_ws = false;
            for b in l {
                if wsp(b) {
                    in_ws = true;
                } else {
                    if in_ws {
                        o.push(b' ');
                    }
                    in_ws = false;
                    o.push(b);
                }
            }
            o
        })
        .collect();
    while ls.last().is_some_and(|l| l.is_empty()) {
        ls.pop();
    }
    let mut out = vec![];
    for l in ls {
        out.extend(l);
        out.extend(b"\r\n");
    }
    out
}

/// The relaxed algorithm does not say what to do with a last line that lacks
/// its CRLF and consists of whitespace only; viadkim's source says so too.
pub fn relaxed_unspecified(body: &[u8]) -> bool {
    let ls = lines(body);
    let last = ls.last().unwrap();
    !last.is_empty() && last.iter().all(|&b| wsp(b))
}

pub fn body(relaxed: bool, body: &[u8]) -> Vec<u8> {
    if relaxed { body_relaxed(body) } else { body_simple(body) }
}

/// Sections 3.4.1 and 3.4.2, without the final CRLF.
pub fn header(relaxed: bool, name: &str, value: &[u8]) -> Vec<u8> {
    if !relaxed {
        let mut o = name.as_bytes().to_vec();
        o.push(b':');
        o.extend(value);
        return o;
    }
    let mut o: Vec<u8> = name.bytes().map(lower).collect();
    o.push(b':');
    // unfold
    let mut v: Vec<u8> = vec![];
    let mut i = 0;
    while i < value.len() {
        if value[i..].starts_with(b"\r\n") {
            i += 2;
        } else {
            v.push(value[i]);
            i += 1;
        }
    }
    // every run of WSP is one SP; none at either end
    let words: Vec<&[u8]> = v.split(|&b| wsp(b)).filter(|w| !w.is_empty()).collect();
    o.extend(words.join(&b' '));
    o
}

/// Section 5.4.2: for each name in turn, the last not yet used occurrence.
/// Returns indexes into `hdrs`.
pub fn select(hdrs: &Hdrs, names: &[String]) -> Vec<usize> {
    let mut remaining: Vec<usize> = (0..hdrs.len()).collect();
    let mut out = vec![];
    for n in names {
        if let Some(p) = remaining.iter().rposition(|&i| eq_nocase(&hdrs[i].0, n)) {
            out.push(remaining.remove(p));
        }
    }
    out
}

pub fn headers(relaxed: bool, hdrs: &Hdrs, names: &[String]) -> Vec<u8> {
    let mut o = vec![];
    for i in select(hdrs, names) {
        o.extend(header(relaxed, &hdrs[i].0, &hdrs[i].1));
        o.extend(b"\r\n");
    }
    o
}

/// The DKIM-Signature value with the value of its b= tag (including
/// surrounding whitespace) deleted; section 3.5, 3.7.
pub fn blank_b(value: &str) -> String {
    let mut out = vec![];
    let mut done = false;
    for seg in value.split(';') {
        let is_b = !done
            && seg.split_once('=').is_some_and(|(n, _)| {
                n.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) == "b"
            });
        if is_b {
            let (n, _) = seg.split_once('=').unwrap();
            out.push(format!("{n}="));
            done = true;
        } else {
            out.push(seg.to_owned());
        }
    }
    out.join(";")
}
