//! C11, C24: the formatted signature header.

use super::*;
use crate::{
    engine::{facet, show, table, Ctx, Res},
    ensure, ensure_eq,
    env,
    gen::{self, Order, Req, BL, PRE, TS},
    keys,
    refm::{
        self,
        sig::{self, Alg},
        tags, Hdrs,
    },
};
use super::roundtrip::{note_msg, note_req};
use std::time::Duration;
use viadkim::signer::SigningOutput;

// ---------------------------------------------------------------- C11

pub static C11: Prop = Prop {
    id: "C11",
    rule: "Accepted requests with every line width from 1 to 100 and some huge ones, indentations of 1 to 10 \
           characters, default, alphabetical, reverse and random tag orders, ASCII-only on and off, all keys, long \
           names, wide characters, copied headers, extra tags. Non-trivial: more than one line. Oracle: tag order \
           computed from the request, every line checked for break opportunities, library and reference parser.",
    facets: &[
        table("widths and keys", 1_300, c11_widths),
        facet("layouts", 20_000, 500_000, c11_layouts),
        facet("large", 150, 5_000, |c| large(c, c11_layouts)),
        facet("names", 15_000, 400_000, c11_names),
    ],
    pre: true,
};

/// Tag names in the order in which they are to appear.
fn tag_order(r: &Req, o: &SigningOutput) -> Vec<String> {
    let mut v: Vec<&str> = vec!["v", "d"];
    if r.identity.is_some() {
        v.push("i");
    }
    v.extend(["s", "a"]);
    if r.hc || r.bc {
        v.push("c");
    }
    if r.length != BL::None {
        v.push("l");
    }
    if r.time != TS::None {
        v.push("t");
    }
    if r.valid.is_some() {
        v.push("x");
    }
    v.extend(["h", "bh", "b"]);
    if !o.signature.copied_headers.is_empty() {
        v.push("z");
    }
    let mut v: Vec<String> = v.into_iter().map(|x| x.to_owned()).collect();
    v.extend(r.ext.iter().map(|e| e.0.clone()));
    // insertion sort, stable
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && r.order.cmp(&v[j - 1], &v[j]).is_gt() {
            v.swap(j - 1, j);
            j -= 1;
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Part {
    Name,
    /// Value without break opportunities.
    Solid,
    H,
    /// b=, bh=: may be broken anywhere.
    Loose,
    /// z=, in the name of a header field
    ZName,
    ZValue,
}

/// Checks line breaking of the header text.
fn layout(r: &Req, o: &SigningOutput) -> Result<usize, String> {
    let mut text = format!("{}:{}", o.header_name, o.header_value);
    // extra tags with folding of their own are not laid out
    let mut own_folds = false;
    for (n, v) in &r.ext {
        if v.contains("\r\n") {
            own_folds = true;
            let t = format!("{n}={v}");
            if !text.contains(&t) {
                return Err(format!("extra tag {t:?} not found as it is"));
            }
            text = text.replace(&t, &t.replace("\r\n", "\u{1}\u{1}"));
        }
    }
    let prefix = o.header_name.chars().count() + 1;
    let mut part = Part::Name;
    let mut name = String::new();
    let lines: Vec<&str> = text.split("\r\n").collect();
    for (li, line) in lines.iter().enumerate() {
        let cs: Vec<char> = line.chars().collect();
        let start = if li == 0 {
            prefix
        } else {
            if !line.starts_with(&r.indent) {
                return Err(format!("line {li} does not start with the indentation: {line:?}"));
            }
            let n = r.indent.chars().count();
            if matches!(cs.get(n), None | Some(' ' | '\t')) {
                return Err(format!("line {li} is not just indented: {line:?}"));
            }
            n
        };
        // positions before which a break would have been possible
        let mut breaks = vec![];
        for i in start..cs.len() {
            let ch = cs[i];
            match part {
                Part::Name => match ch {
                    ' ' => breaks.push(i),
                    '=' => {
                        part = match name.as_str() {
                            "h" => Part::H,
                            "b" | "bh" => Part::Loose,
                            "z" => Part::ZName,
                            _ => Part::Solid,
                        };
                        name.clear();
                    }
                    c => name.push(c),
                },
                _ if ch == ';' => part = Part::Name,
                Part::Solid => {}
                Part::H => {
                    if i > start && cs[i - 1] == ':' {
                        breaks.push(i);
                    }
                }
                Part::Loose => breaks.push(i),
                Part::ZName => {
                    if i > start && cs[i - 1] == '|' {
                        breaks.push(i);
                    }
                    if ch == ':' {
                        part = Part::ZValue;
                    }
                }
                Part::ZValue => {
                    breaks.push(i);
                    if ch == '|' {
                        part = Part::ZName;
                    }
                }
            }
        }
        breaks.retain(|&b| b > start || li == 0);
        if own_folds {
            continue;
        }
        let excess = cs.len().saturating_sub(r.width);
        let semi = cs.last() == Some(&';');
        if excess > 0 && !(excess == 1 && semi) && !breaks.is_empty() {
            return Err(format!("line {li} is {} characters long and could be broken: {line:?}", cs.len()));
        }
    }
    Ok(lines.len())
}

fn uform(s: &str) -> String {
    let (u, r) = idna::domain_to_unicode(s);
    if r.is_ok() { u } else { s.to_owned() }
}

fn judge(c: &mut Ctx, r: &Req, o: &SigningOutput) -> Res {
    let v = &o.header_value;
    ensure_eq!(o.header_name, r.header_name, "header name");
    ensure_eq!(o.format_header().to_string(), format!("{}:{v}", r.header_name), "format_header");
    ensure!(refm::valid_field_body(v.as_bytes()), "not a valid header field body: {v:?}");
    let (n, b) = o.to_header_field();
    ensure_eq!(n.as_ref(), r.header_name.as_str(), "to_header_field name");
    ensure!(b.as_ref() == v.as_bytes(), "to_header_field body {:?} for {v:?}", show(b.as_ref()));
    if r.ascii && r.ext.iter().all(|(_, v)| v.is_ascii()) {
        ensure!(v.is_ascii(), "not ASCII: {v:?}");
    }
    match layout(r, o) {
        Ok(n) => c.nontrivial |= n > 1,
        Err(e) => return crate::engine::fail(format!("{e}\n   {v:?}")),
    }
    let tl = match tags::parse(v) {
        Ok(t) => t,
        Err(e) => return crate::engine::fail(format!("not a tag list ({e:?}): {v:?}")),
    };
    let names: Vec<String> = tl.iter().map(|t| t.0.clone()).collect();
    ensure_eq!(names, tag_order(r, o), "tag order");

    // the value parses back to the signature data
    let s: DkimSignature = match v.parse() {
        Ok(s) => s,
        Err(e) => return crate::engine::fail(format!("header value does not parse: {e:?}\n   {v:?}")),
    };
    let g = &o.signature;
    ensure_eq!(s.algorithm, g.algorithm, "algorithm");
    ensure_eq!(s.signature_data, g.signature_data, "signature data");
    ensure_eq!(s.body_hash, g.body_hash, "body hash");
    ensure_eq!(s.canonicalization, g.canonicalization, "canonicalization");
    ensure_eq!(
        s.signed_headers.iter().map(|x| x.as_ref()).collect::<Vec<_>>(),
        g.signed_headers.iter().map(|x| x.as_ref()).collect::<Vec<_>>(),
        "signed headers"
    );
    ensure_eq!(s.body_length, g.body_length, "body length");
    ensure_eq!((s.timestamp, s.expiration), (g.timestamp, g.expiration), "times");
    ensure_eq!(
        s.copied_headers.iter().map(|x| (x.0.as_ref(), x.1.to_vec())).collect::<Vec<_>>(),
        g.copied_headers.iter().map(|x| (x.0.as_ref(), x.1.to_vec())).collect::<Vec<_>>(),
        "copied headers"
    );
    let mut e = (s.ext_tags.to_vec(), g.ext_tags.to_vec());
    if r.order != Order::Default {
        e.0.sort();
        e.1.sort();
    }
    ensure_eq!(e.0, e.1, "extra tags");
    let local = |s: &DkimSignature| s.identity.as_ref().map(|i| i.local_part.clone());
    ensure_eq!(local(&s), local(g), "local part");
    // names: in ASCII form if asked for, else in Unicode form; the same name
    let mut name = |what: &str, got: &str, want: &str, tld: bool| -> Res {
        let a = |x: &str| refm::lower_str(&sig::name_to_ascii(x, tld).unwrap_or_default());
        ensure_eq!(a(got), a(want), "{what}");
        let form = if r.ascii { sig::name_to_ascii(want, tld).unwrap() } else { uform(want) };
        ensure!(refm::eq_nocase(got, &form), "{what}: got {got:?}, expected form {form:?}");
        c.class_if(!form.is_ascii(), "with Unicode names");
        Ok(())
    };
    name("domain", s.domain.as_ref(), g.domain.as_ref(), true)?;
    name("selector", s.selector.as_ref(), g.selector.as_ref(), false)?;
    if let (Some(a), Some(b)) = (&s.identity, &g.identity) {
        name("identity domain", a.domain.as_ref(), b.domain.as_ref(), true)?;
    }
    match sig::parse(v, PRE) {
        sig::Parsed::Ok(x) => {
            let d = sig_diff(&x, &s);
            ensure!(d.is_empty(), "parsed differs from reference: {d}\n   {v:?}");
        }
        sig::Parsed::Err(e) => return crate::engine::fail(format!("malformed header value: {e:?}\n   {v:?}")),
        sig::Parsed::Unspecified => {}
    }
    Ok(())
}

fn run(c: &mut Ctx, h: &Hdrs, body: &[u8], r: &Req) -> Res {
    note_msg(c, h, body);
    note_req(c, r);
    let out = match env::sign(h, std::slice::from_ref(r), &[body.to_vec()]) {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("request refused: {e:?}")),
    };
    if let Some(Ok(o)) = out.first() {
        judge(c, r, o)?;
    }
    Ok(())
}

fn c11_layouts(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 8);
    let mut r = gen::req(c, &h, |_| 4);
    if c.chance(1, 3) {
        r.indent = c.pick(&["\t\t", "   ", "          ", " \t", "\t "]).to_owned();
    }
    if c.bool() {
        // long folded values are not laid out, see above
        r.ext.retain(|e| !e.1.contains("\r\n"));
    }
    run(c, &h, b"abc\r\n", &r)
}

/// Long and wide names everywhere.
fn c11_names(c: &mut Ctx) -> Res {
    let n = c.range(1, 12);
    let mut h: Hdrs = (0..n)
        .map(|_| {
            let l = c.range(1, 30);
            let name: String = (0..l).map(|_| c.pick(&["a", "B", "-", "x"]).to_owned()).collect();
            (name, b" v".to_vec())
        })
        .collect();
    h.push(("From".into(), b" x".to_vec()));
    let mut r = gen::plain_req(c, &h);
    (r.width, r.indent, r.order, r.header_name, r.ascii) = gen::format(c);
    r.identity = None;
    let labels = c.range(1, 6);
    let mut d: Vec<String> = (0..labels)
        .map(|_| c.pick(&["a", "mail", "b\u{fc}cher", "\u{4f8b}\u{3048}", "xn--bcher-kva", "a-rather-long-label-of-a-domain-name", "EXAMPLE", "xn--r8jz45g"]).to_owned())
        .collect();
    r.selector = d.join(".");
    d.push("example".into());
    r.domain = d.join(".");
    if c.bool() {
        let l = c.pick(&["joe", "\"\u{e4} ;\"", "\u{4f8b}", "averyveryverylonglocalpartthatgoesonandon"]).to_owned();
        let sub = c.pick(&["", "x.", "\u{fc}.", "xn--bcher-kva."]);
        r.identity = Some((if c.bool() { Some(l) } else { None }, format!("{sub}{}", r.domain)));
    }
    if sig::name_to_ascii(&format!("x.xn--bcher-kva.{}", r.domain), true).is_none() {
        return Ok(());
    }
    r.headers = Some(gen::signed_names(c, &h));
    r.copy = c.chance(1, 4);
    let ne = c.weighted(&[2, 1, 1]);
    r.ext = (0..ne)
        .map(|k| {
            let l = c.range(0, 40);
            (format!("e{}{k}", "x".repeat(c.range(0, 12))), "v".repeat(l))
        })
        .collect();
    run(c, &h, b"", &r)
}

/// All widths with all keys, for several tag orders.
fn c11_widths(c: &mut Ctx) -> Res {
    let i = c.below(1_300) as usize;
    let width = i % 130 + 1;
    let k = i / 130;
    let key = keys::acceptable()[if k < 8 { k } else { keys::acceptable().len() + k - 10 }];
    let h: Hdrs = vec![
        ("From".into(), b" Me <me@example.org>".to_vec()),
        ("Subject".into(), b" \xc3\xa4\xe2\x99\xa5 = 1;2|3".to_vec()),
        ("X|".into(), b" ".to_vec()),
    ];
    for (o, indent) in [(Order::Default, "\t"), (Order::Shuffle(i as u64), "  "), (Order::Reverse, "        ")] {
        let r = Req {
            key,
            alg: if key.is_rsa() { Alg::RsaSha256 } else { Alg::Ed25519 },
            hc: true,
            bc: width % 2 == 0,
            domain: "example.org".into(),
            selector: "brisbane".into(),
            headers: Some(["From", "Subject", "X|", "Date"].map(String::from).to_vec()),
            identity: Some((Some("me".into()), "example.org".into())),
            length: BL::None,
            time: TS::Exact(1_700_000_000),
            valid: Some(Duration::from_secs(1)),
            copy: width % 3 != 0,
            ext: vec![("r".into(), "y".into())],
            width,
            indent: indent.into(),
            order: o,
            header_name: "DKIM-Signature".into(),
            ascii: width % 5 == 0,
        };
        run(c, &h, b"", &r)?;
        c.extra_evals += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

pub static C24: Prop = Prop {
    id: "C24",
    rule: "Headers with field names over all printable characters and values with 8-bit bytes, valid and malformed \
           UTF-8, folding, and every special character; signed with copying on or off, at all line widths, ASCII-only \
           on or off. Every byte value in a name and in a value is tried. Non-trivial: a copied name or value needs \
           encoding. Oracle: the header itself; library and reference parser of z=.",
    facets: &[
        table("each byte", 512, c24_bytes),
        facet("copies", 25_000, 600_000, c24_copies),
        facet("large", 150, 5_000, |c| large(c, c24_copies)),
    ],
    pre: false,
};

fn c24_run(c: &mut Ctx, h: &Hdrs, r: &Req) -> Res {
    note_msg(c, h, b"");
    note_req(c, r);
    let out = match env::sign(h, std::slice::from_ref(r), &[]) {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("request refused: {e:?}")),
    };
    let Some(Ok(o)) = out.first() else { return Ok(()) };
    let signed = r.headers.clone().unwrap_or_else(|| super::roundtrip::auto_headers(h));
    let want: Vec<(String, Vec<u8>)> = if r.copy {
        h.iter().filter(|(n, _)| signed.iter().any(|s| refm::eq_nocase(s, n))).cloned().collect()
    } else {
        vec![]
    };
    c.class_if(r.copy, "with copies");
    let list = |s: &DkimSignature| -> Vec<(String, Vec<u8>)> {
        s.copied_headers.iter().map(|(n, v)| (n.as_ref().to_owned(), v.to_vec())).collect()
    };
    c.nontrivial = want
        .iter()
        .any(|(n, v)| n.bytes().chain(v.iter().copied()).any(|b| !b.is_ascii_graphic() || b";=|".contains(&b)));
    ensure_eq!(list(&o.signature), want, "copied headers in the signature data");
    match tags::parse(&o.header_value) {
        Ok(t) => ensure_eq!(t.iter().filter(|t| t.0 == "z").count(), usize::from(r.copy), "number of z= tags"),
        Err(e) => return crate::engine::fail(format!("not a tag list ({e:?}): {:?}", o.header_value)),
    }
    match o.header_value.parse::<DkimSignature>() {
        Ok(s) => ensure_eq!(list(&s), want, "copied headers in the parsed header\n   {:?}", o.header_value),
        Err(e) => return crate::engine::fail(format!("produced header does not parse: {e:?}\n   {:?}", o.header_value)),
    }
    match sig::parse(&o.header_value, PRE) {
        sig::Parsed::Ok(s) => ensure_eq!(s.z, want, "copied headers as read by the reference"),
        sig::Parsed::Err(e) => return crate::engine::fail(format!("malformed header: {e:?}\n   {:?}", o.header_value)),
        sig::Parsed::Unspecified => c.class("not judged by reference"),
    }
    // refolded in transit: still the same
    let t = o.header_value.replace("\r\n", "");
    match t.parse::<DkimSignature>() {
        Ok(s) => ensure_eq!(list(&s), want, "copied headers in the unfolded header\n   {t:?}"),
        Err(e) => return crate::engine::fail(format!("unfolded header does not parse: {e:?}\n   {t:?}")),
    }
    Ok(())
}

fn c24_copies(c: &mut Ctx) -> Res {
    let mut h = gen::hdrs(c, 8);
    for (n, v) in h.iter_mut() {
        if c.chance(1, 4) && !refm::eq_nocase(n, "From") {
            let l = c.range(1, 5);
            *n = (0..l).map(|_| (33 + c.below(94)) as u8 as char).filter(|&x| x != ':').collect();
            if n.is_empty() {
                *n = "=".into();
            }
        }
        if c.chance(1, 4) {
            let l = c.range(1, 12);
            *v = (0..l)
                .map(|_| match c.weighted(&[3, 3, 2]) {
                    0 => c.pick_copy(&b" \t=|;:~!0Aaf"[..]),
                    1 => 0x80 + c.below(128) as u8,
                    _ => 33 + c.below(94) as u8,
                })
                .collect();
        }
    }
    let mut r = gen::plain_req(c, &h);
    r.key = keys::get(c.pick(&["eda", "eda", "eda", "rsa1024"]));
    r.alg = if r.key.is_rsa() { Alg::RsaSha256 } else { Alg::Ed25519 };
    (r.width, r.indent, r.order, r.header_name, r.ascii) = gen::format(c);
    r.copy = c.chance(7, 8);
    if c.chance(3, 4) {
        r.headers = Some(gen::signed_names(c, &h));
    } else {
        r.headers = None;
    }
    c24_run(c, &h, &r)
}

fn c24_bytes(c: &mut Ctx) -> Res {
    let i = c.below(512);
    let b = (i % 256) as u8;
    let mut h: Hdrs = vec![("From".into(), b" x".to_vec())];
    if i < 256 {
        let v = vec![b' ', b'a', b, b, b'4', b'1'];
        if !refm::valid_field_body(&v) {
            return Ok(());
        }
        h.push(("To".into(), v));
    } else {
        if !(33..127).contains(&b) || b == b':' || b == b';' {
            return Ok(());
        }
        h.push((format!("A{}4{}", b as char, b as char), b" v".to_vec()));
    }
    let signed: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    let mut g = Ctx::new(crate::engine::Tape::given(vec![]), false);
    for (width, ascii) in [(78, false), (78, true), (1, false), (9, true), (20, false)] {
        let mut r = gen::plain_req(&mut g, &h);
        r.headers = Some(signed.clone());
        r.copy = true;
        r.width = width;
        r.ascii = ascii;
        c24_run(c, &h, &r)?;
        c.extra_evals += 1;
    }
    Ok(())
}
