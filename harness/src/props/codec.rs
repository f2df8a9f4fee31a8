//! C10: codecs; C21: header data types.

use super::*;
use crate::{
    engine::{facet, show, table, vtable, Ctx, Res},
    ensure, ensure_eq,
    gen,
    refm::{self, qp, tags},
};
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
};
use viadkim::{
    decode_base64, encode_base64,
    header::{FieldBody, FieldName, HeaderFields},
    quoted_printable,
};

pub static C10: Prop = Prop {
    id: "C10",
    rule: "Byte strings of text, special and malformed UTF-8 bytes, encoded with and without an additional \
           character and ASCII-only; strings over the alphabet of the encodings; every string up to length 4 \
           over 15 symbols. Non-trivial: the encoded form differs from the input, or the decoder input has an \
           encoded octet. Oracle: round trip, and independent codec.",
    facets: &[
        table("all short strings", 54_241, c10_short),
        vtable("all octets", 256, 20, 400, c10_octets),
        facet("encode", 120_000, 3_000_000, c10_encode),
        facet("decode", 120_000, 3_000_000, c10_decode),
        facet("Base64", 80_000, 2_000_000, c10_base64),
        facet("large", 300, 10_000, |c| large(c, c10_encode)),
        facet("large, Base64", 300, 10_000, |c| large(c, c10_base64)),
    ],
    pre: false,
};

fn c10_round(c: &mut Ctx, b: &[u8], special: Option<char>) -> Res {
    for ascii in [false, true] {
        let e = if ascii {
            quoted_printable::encode_ascii_only(b, special)
        } else {
            quoted_printable::encode(b, special)
        };
        c.nontrivial |= e.as_bytes() != b;
        ensure_eq!(e, qp::encode(b, special, ascii), "encoding of {:?}, special {special:?}, ASCII only: {ascii}", show(b));
        ensure!(!ascii || e.is_ascii(), "ASCII-only encoding is not ASCII: {e:?}");
        let mut rest = e.as_str();
        while let Some(ch) = rest.chars().next() {
            let ok = if ch == '=' {
                rest.len() >= 3
                    && rest.as_bytes()[1..3].iter().all(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(b))
            } else {
                qp::safe(ch) && Some(ch) != special
            };
            ensure!(ok, "encoded form of {:?} has a character not allowed there: {e:?}", show(b));
            rest = &rest[if ch == '=' { 3 } else { ch.len_utf8() }..];
        }
        ensure_eq!(
            quoted_printable::decode(&e).map_err(|_| ()),
            Ok(b.to_vec()),
            "decoding {e:?} made from {:?}",
            show(b)
        );
        // folding whitespace in between is ignored
        let f = crate::text::fold_between(c, &e);
        if !tags::out_of_domain(&f) {
            ensure_eq!(quoted_printable::decode(&f).map_err(|_| ()), Ok(b.to_vec()), "decoding folded {f:?}");
        }
        // the other decoder agrees where there is no whitespace
        ensure_eq!(
            quoted_printable::decode_qp_section(&e).map_err(|_| ()),
            Ok(b.to_vec()),
            "decoding {e:?} as qp-section"
        );
    }
    Ok(())
}

fn qp_bytes(c: &mut Ctx) -> Vec<u8> {
    let n = if c.large { gen::threshold(c, 30_000) } else { c.size(12) };
    let mut v = vec![];
    for _ in 0..n {
        match c.weighted(&[40, 30, 20, 10]) {
            0 => v.extend(gen::word(c)),
            1 => v.push(c.below(256) as u8),
            2 => {
                const T: [&[u8]; 13] = [
                    b"=", b";", b"|", b":", b" ", b"\r\n", b"\t", b"\xc3\xa4", b"\xe2\x82", b"\xf0\x9f\x98\x80",
                    b"\xff", b"\x7f", b"\xed\xa0\x80",
                ];
                v.extend(T[c.idx(T.len())]);
            }
            _ => v.extend(c.pick(&["\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{85}", "\u{a0}"]).as_bytes()),
        }
    }
    v
}

fn c10_encode(c: &mut Ctx) -> Res {
    let b = qp_bytes(c);
    let sp = match c.weighted(&[3, 3, 2, 1]) {
        0 => None,
        1 => Some('|'),
        2 => Some(':'),
        _ => Some(c.pick_copy(&['@', 'a', 'ä', '=', '\u{10ffff}', '0', 'A', '<'])),
    };
    // a special character that appears in the encoding itself cannot be encoded away
    let sp = sp.filter(|s| !matches!(s, '=' | '0' | 'A'));
    c.id(&b);
    c.note(|| format!("{:?} special {sp:?}", show(&b)));
    c10_round(c, &b, sp)
}

fn c10_octets(c: &mut Ctx) -> Res {
    let b = c.below(256) as u8;
    c.id([b]);
    c.note(|| format!("octet {b:#x}"));
    for sp in [None, Some('|'), Some(':')] {
        c10_round(c, &[b], sp)?;
        c10_round(c, &[b'a', b, b'b'], sp)?;
        c10_round(c, &[b, 0x80], sp)?;
        c10_round(c, &[0xc3, b], sp)?;
    }
    // every encoded octet, in both cases
    for e in [format!("={b:02X}"), format!("={b:02x}"), format!("= {b:02x}")] {
        ensure_eq!(quoted_printable::decode(&e).ok(), Some(vec![b]), "decoding {e:?}");
    }
    c.nontrivial = true;
    Ok(())
}

fn c10_decode_check(c: &mut Ctx, s: &str) -> Res {
    c.id(s);
    c.note(|| format!("{s:?}"));
    c.nontrivial = s.contains('=');
    if !tags::out_of_domain(s) {
        let got = quoted_printable::decode(s).ok();
        c.class(if got.is_some() { "decoded" } else { "refused" });
        ensure_eq!(got, qp::decode(s), "decoding {s:?}");
    }
    ensure_eq!(
        quoted_printable::decode_qp_section(s).ok(),
        qp::decode_section(s),
        "decoding {s:?} as qp-section"
    );
    Ok(())
}

const QP: [&str; 15] =
    ["a", "=", "4", "F", "e", " ", "\r\n", "\t", ";", "ä", "G", "|", "\r", "\n", "\u{7f}"];

fn c10_short(c: &mut Ctx) -> Res {
    let mut i = c.below(54_241);
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= 15;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(QP[(i % 15) as usize]);
        i /= 15;
    }
    c10_decode_check(c, &s)
}

fn c10_decode(c: &mut Ctx) -> Res {
    let n = c.range(0, 14);
    let s: String = (0..n).map(|_| c.pick(&["a", "=", "=41", "=c3=A4", "=F", "=3", "=3D", " ", "\r\n ", "\t", ";", "ä", "G", "=0d=0a", "|", "= 4\t1", "=4\r\n 1", "\r\n", "\u{80}", "=é", "0"]).to_owned()).collect();
    c10_decode_check(c, &s)
}

fn c10_base64(c: &mut Ctx) -> Res {
    if c.bool() {
        let n = if c.large { crate::gen::threshold(c, 70_000) } else { c.size(70) };
        let b: Vec<u8> = (0..n).map(|_| c.below(256) as u8).collect();
        c.id(&b);
        c.nontrivial = n > 0;
        c.note(|| format!("bytes {:?}", show(&b)));
        let e = encode_base64(&b);
        ensure_eq!(e, refm::b64_encode(&b), "Base64 of {:?}", show(&b));
        ensure_eq!(decode_base64(&e).ok(), Some(b), "decoding {e:?}");
    } else {
        let n = c.range(0, 12);
        let s: String = (0..n)
            .map(|_| c.pick(&["A", "Q", "=", "/", "+", "z", "0", "==", " ", "-", "ä", "AAAA", "\n"]).to_owned())
            .collect();
        c.id(&s);
        c.note(|| format!("string {s:?}"));
        c.nontrivial = s.len() >= 4;
        match refm::b64_decode(s.as_bytes()) {
            Err(true) => c.class("non-canonical, not judged"),
            r => {
                c.class(if r.is_ok() { "decoded" } else { "refused" });
                ensure_eq!(decode_base64(&s).ok(), r.ok(), "decoding Base64 {s:?}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

pub static C21: Prop = Prop {
    id: "C21",
    rule: "Candidate names and bodies near the grammar's edge, every octet at every place of a short name and \
           body, all short bodies over 7 symbols, header texts with CRLF or LF line ends, collections of 0–4 fields. Non-trivial: the \
           candidate has a character or fold at the edge of the grammar. Oracle: independent grammar predicates, \
           independent splitter, round trip.",
    facets: &[
        table("octets", 256, c21_octets),
        table("all short bodies", 19_608, c21_bodies),
        facet("names", 80_000, 2_000_000, c21_names),
        facet("bodies", 80_000, 2_000_000, c21_body),
        facet("header texts", 80_000, 2_000_000, c21_texts),
        facet("headers", 20_000, 500_000, c21_collections),
        facet("large", 200, 6_000, |c| large(c, c21_texts)),
    ],
    pre: false,
};

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn name_check(s: &str) -> Res {
    let got = FieldName::new(s);
    ensure_eq!(got.is_ok(), refm::valid_field_name(s), "whether {s:?} is a field name");
    if let Ok(n) = got {
        ensure!(n.as_ref() == s, "field name {s:?} changed to {:?}", n.as_ref());
        ensure!(n.to_string() == s, "field name {s:?} displayed as {n}");
    }
    Ok(())
}

fn body_check(b: &[u8]) -> Res {
    let got = FieldBody::new(b);
    ensure_eq!(got.is_ok(), refm::valid_field_body(b), "whether {:?} is a field body", show(b));
    if let Ok(n) = got {
        ensure!(n.as_ref() == b, "field body {:?} changed to {:?}", show(b), show(n.as_ref()));
    }
    Ok(())
}

fn c21_octets(c: &mut Ctx) -> Res {
    let b = c.below(256) as u8;
    c.id([b]);
    c.nontrivial = true;
    c.note(|| format!("octet {b:#x}"));
    let ch = char::from(b);
    for s in [format!("{ch}"), format!("{ch}a"), format!("a{ch}"), format!("a{ch}b")] {
        name_check(&s)?;
    }
    for v in [
        vec![b], vec![b, b'a'], vec![b'a', b], vec![b' ', b, b'c'], vec![b'\r', b'\n', b, b'a'],
        vec![b'\r', b'\n', b' ', b], vec![b'a', b'\r', b'\n', b'\t', b, b'z'], vec![b'\r', b, b' ', b'a'],
        vec![b, b'\n', b' ', b'a'],
    ] {
        body_check(&v)?;
    }
    Ok(())
}

fn c21_bodies(c: &mut Ctx) -> Res {
    // up to length 5 over 7 symbols: 19608 strings
    let mut i = c.below(19_608);
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= 7;
        len += 1;
    }
    const S: [&[u8]; 7] = [b"\r\n", b" ", b"a", b"\t", b"\r", b"\n", b"\xe9"];
    let mut b = vec![];
    for _ in 0..len {
        b.extend(S[(i % 7) as usize]);
        i /= 7;
    }
    c.id(&b);
    c.nontrivial = b.contains(&b'\r') || b.contains(&b'\n');
    c.note(|| format!("{:?}", show(&b)));
    body_check(&b)
}

fn c21_names(c: &mut Ctx) -> Res {
    let n = c.range(0, 5);
    let s: String = (0..n)
        .map(|_| c.pick(&["a", "From", "Z", ":", " ", "!", "~", ";", "\u{7f}", "\t", "é", "K", "\u{212a}", "0", "-", "", "\r\n ", "@", "`", "[", "{"]).to_owned())
        .collect();
    c.id(&s);
    c.note(|| format!("{s:?}"));
    c.nontrivial = s.bytes().any(|b| !b.is_ascii_alphanumeric());
    name_check(&s)?;
    if let Ok(a) = FieldName::new(s.as_str()) {
        c.class("valid name");
        let t = match c.below(4) {
            0 => gen::case_mix(c, &s),
            1 => s.to_ascii_uppercase(),
            2 => format!("{s}a"),
            _ => s.replace('@', "`").replace('[', "{"),
        };
        let b = FieldName::new(t.as_str()).unwrap();
        let eq = refm::eq_nocase(&s, &t);
        ensure_eq!(a == b, eq, "equality of field names {s:?} and {t:?}");
        ensure_eq!(a == t.as_str(), eq, "equality of field name {s:?} with string {t:?}");
        let mut set = HashSet::new();
        set.insert(a.clone());
        ensure_eq!(set.contains(&b), eq, "set lookup of {t:?} in a set of {s:?}");
        ensure!(!eq || hash_of(&a) == hash_of(&b), "equal field names {s:?}, {t:?} hash differently");
    }
    Ok(())
}

fn c21_body(c: &mut Ctx) -> Res {
    let mut b = gen::field_body(c);
    for _ in 0..c.range(0, 2) {
        let at = c.idx(b.len() + 1);
        let t: &[u8] = [
            &b"\r"[..], b"\n", b"\r\n", b"\r\n ", b"\0", b"\x7f", b"\t", b" ", b"\r\n\t \r\n x", b"\x80", b"\x1f", b"\r\n\r\n a", b"\x0b", b"\x0c",
        ][c.idx(14)];
        b.splice(at..at, t.iter().copied());
    }
    if c.chance(1, 6) && !b.is_empty() {
        let at = c.idx(b.len());
        b.remove(at);
    }
    c.id(&b);
    c.note(|| format!("{:?}", show(&b)));
    c.nontrivial = b.iter().any(|x| *x < 32 || *x == 127);
    c.class(if refm::valid_field_body(&b) { "valid" } else { "invalid" });
    body_check(&b)?;
    // as part of a header
    let n = gen::field_name(c);
    let h = vec![("From".to_owned(), b" x".to_vec()), (n.clone(), b.clone())];
    let got = HeaderFields::from_vec(h.clone());
    ensure_eq!(got.is_ok(), refm::valid_field_body(&b), "header with {n:?}: {:?}", show(&b));
    if let Ok(g) = got {
        ensure!(same(&g, &h), "header changed: {g:?} from {h:?}");
        let v: Vec<(FieldName, FieldBody)> = g.clone().into();
        ensure!(HeaderFields::new(v).ok().as_ref() == Some(&g), "header does not survive conversion");
    }
    Ok(())
}

/// Whole headers of any number of fields, none included.
fn c21_collections(c: &mut Ctx) -> Res {
    let n = c.below(5);
    let mut h = vec![];
    for _ in 0..n {
        let name = if c.chance(1, 6) {
            c.pick(&["", " ", "a b", "a:", ":", "\u{e4}", "X-\u{7f}", "From\t"]).to_owned()
        } else {
            gen::field_name(c)
        };
        let body = if c.chance(1, 6) {
            c.pick(&["\r\n", "\n a", "x\r", "\0", " a\r\n\r\n b", " a\r\nb", "\r\n "]).as_bytes().to_vec()
        } else {
            gen::field_body(c)
        };
        h.push((name, body));
    }
    c.id(format!("{h:?}"));
    c.note(|| format!("{h:?}"));
    let want = !h.is_empty() && h.iter().all(|(n, b)| refm::valid_field_name(n) && refm::valid_field_body(b));
    c.nontrivial = n != 1;
    c.class(if want { "accepted" } else { "refused" });
    let got = HeaderFields::from_vec(h.clone());
    ensure_eq!(got.is_ok(), want, "header of fields {h:?}");
    if let Ok(g) = &got {
        ensure!(same(g, &h), "header changed: {g:?} from {h:?}");
    }
    let v: Option<Vec<(FieldName, FieldBody)>> = h
        .iter()
        .map(|(n, b)| Some((FieldName::new(n.as_str()).ok()?, FieldBody::new(&b[..]).ok()?)))
        .collect();
    if let Some(mut v) = v {
        // memory reserved makes no difference
        v.reserve(c.range(0, 20));
        ensure_eq!(HeaderFields::new(v).ok(), got.ok(), "header of valid fields {h:?}");
    }
    Ok(())
}

fn same(g: &HeaderFields, h: &refm::Hdrs) -> bool {
    g.as_ref().len() == h.len()
        && g.as_ref().iter().zip(h).all(|(a, b)| a.0.as_ref() == b.0 && a.1.as_ref() == &b.1[..])
        && g.clone().into_iter().count() == h.len()
}

/// Splits at LF, taking a CR in front of it along; folds with CRLF.
fn ref_parse(s: &str) -> Option<refm::Hdrs> {
    let mut lines: Vec<&str> = s.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let last = lines.len().wrapping_sub(1);
    let mut out: refm::Hdrs = vec![];
    for (i, l) in lines.iter().enumerate() {
        let l = if i == last && !s.ends_with('\n') { l } else { l.strip_suffix('\r').unwrap_or(l) };
        if l.starts_with(' ') || l.starts_with('\t') {
            let (_, v) = out.last_mut()?;
            v.extend(b"\r\n");
            v.extend(l.as_bytes());
        } else {
            let (n, v) = l.split_once(':')?;
            out.push((n.to_owned(), v.as_bytes().to_vec()));
        }
    }
    (!out.is_empty() && out.iter().all(|(n, v)| refm::valid_field_name(n) && refm::valid_field_body(v)))
        .then_some(out)
}

fn c21_texts(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 5);
    let h: refm::Hdrs =
        h.into_iter().map(|(n, v)| (n, String::from_utf8_lossy(&v).into_owned().into_bytes())).collect();
    let lf = c.bool();
    let mut s = String::new();
    for (n, v) in &h {
        s.push_str(n);
        s.push(':');
        s.push_str(std::str::from_utf8(v).unwrap());
        s.push_str("\r\n");
    }
    if lf {
        s = s.replace("\r\n", "\n");
    }
    let mut intact = true;
    if c.chance(1, 4) {
        // line end of the last line is optional
        s.truncate(s.trim_end_matches(['\r', '\n']).len());
    }
    if c.bool() {
        intact = false;
        s = crate::text::mutate_raw(c, s);
    }
    c.id(&s);
    c.note(|| format!("{s:?}"));
    c.nontrivial = h.iter().any(|x| x.1.contains(&b'\n')) || !intact;
    let got = s.parse::<HeaderFields>();
    let want = ref_parse(&s);
    c.class(if want.is_some() { "parsed" } else { "refused" });
    if intact {
        ensure!(want.as_ref() == Some(&h), "HARNESS: reference header parser");
    }
    match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(same(&g, &w), "header text parsed differently: {g:?}, expected {w:?}\n   text {s:?}");
            // written out, it parses back
            let t: String = g
                .as_ref()
                .iter()
                .map(|(n, v)| format!("{n}:{}\r\n", std::str::from_utf8(v.as_ref()).unwrap()))
                .collect();
            ensure!(t.parse::<HeaderFields>().ok().as_ref() == Some(&g), "header written out does not parse back: {t:?}");
        }
        (Err(_), None) => {}
        (g, w) => {
            return crate::engine::fail(format!("header text {s:?}: got {g:?}, expected {w:?}"));
        }
    }
    Ok(())
}
