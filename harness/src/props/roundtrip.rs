//! C01, C12, C23: what signing accepts, produces, and that it verifies.

use super::*;
use crate::{
    engine::{facet, show, table, vtable, Ctx, Res},
    ensure, ensure_eq,
    env::{self, Mock, Plan},
    gen::{self, Order, Req, BL, PRE, TS},
    keys,
    refm::{
        self, canon,
        sig::{self, Alg},
        tags,
        verify::{self as rv, Dns},
        Hdrs,
    },
};
use std::{
    collections::HashMap,
    time::{Duration, SystemTime},
};
use viadkim::{
    signer::{RequestError as RE, SigningError, SigningOutput},
    verifier::{VerificationResult, VerificationStatus},
};

// ---------------------------------------------------------------- common

/// What signing must give for an accepted request; several if not determined.
pub fn expected(r: &Req, body: &[u8]) -> Vec<Option<SigningError>> {
    let mut e = vec![];
    if let BL::Exact(n) = r.length {
        if r.bc && canon::relaxed_unspecified(body) {
            e.push(None);
            e.push(Some(SigningError::InsufficientContent));
        } else if n > canon::body(r.bc, body).len() as u64 {
            e.push(Some(SigningError::InsufficientContent));
        }
    }
    if let (TS::Exact(u64::MAX), Some(_)) = (r.time, r.valid) {
        // no later time can be represented
        e.push(Some(SigningError::Overflow));
    }
    if e.is_empty() {
        e.push(None);
    }
    e
}

/// Makes key record names distinct for distinct keys.
pub fn separate(rs: &mut [Req]) {
    for i in 0..rs.len() {
        let n = rs[i].record().0;
        if rs[..i].iter().any(|r| r.key.name != rs[i].key.name && r.record().0.eq_ignore_ascii_case(&n)) {
            rs[i].selector = format!("sep{i}");
        }
    }
}

pub fn mock(rs: &[Req]) -> Mock {
    Mock::records(rs.iter().map(|r| {
        let (n, t) = r.record();
        (n, t)
    }))
}

pub fn prepend(h: &Hdrs, o: &[&SigningOutput]) -> Hdrs {
    let mut v: Hdrs =
        o.iter().map(|o| (o.header_name.clone(), o.header_value.clone().into_bytes())).collect();
    v.extend(h.iter().cloned());
    v
}

pub fn note_msg(c: &mut Ctx, h: &Hdrs, body: &[u8]) {
    c.id(format!("{h:?}"));
    c.id(body);
    c.note(|| {
        let hs: Vec<String> = h.iter().map(|(n, v)| format!("{n}:{}", show(v))).collect();
        format!("header {hs:?} body {:?}", show(body))
    });
}

pub fn note_req(c: &mut Ctx, r: &Req) {
    c.id(format!("{r:?}"));
    c.note(|| format!("{r:?}"));
}

fn all_good(rs: &[VerificationResult]) -> bool {
    rs.iter().all(|r| r.status == VerificationStatus::Success)
}

fn statuses(rs: &[VerificationResult]) -> String {
    format!("{:?}", rs.iter().map(|r| &r.status).collect::<Vec<_>>())
}

pub fn clen(body: &[u8]) -> impl Fn(bool) -> u64 + '_ {
    move |relaxed| canon::body(relaxed, body).len() as u64
}

// ---------------------------------------------------------------- C01

pub static C01: Prop = Prop {
    id: "C01",
    rule: "Messages with repeated, folded, 8-bit header fields and bodies of CR, LF, whitespace runs; 1 to 10 \
           accepted requests over all options; the body fed in random chunks to signer and verifier; several \
           signing hops; every line width with every key. Non-trivial: a signature with at least one \
           non-default option. Oracle: the own verifier under no extra policy, the reference verifier, and the \
           documented conditions for errors.",
    facets: &[
        vtable("widths", 240, 2, 20, c01_widths),
        facet("requests", 12_000, 400_000, c01_requests),
        facet("many", 600, 20_000, c01_many),
        facet("large", 200, 6_000, |c| large(c, c01_requests)),
        facet("hops", 1_500, 50_000, c01_hops),
        facet("defaults", 3_000, 80_000, c01_defaults),
    ],
    pre: true,
};

fn c01_check(c: &mut Ctx, h: &Hdrs, body: &[u8], rs: &[Req]) -> Res {
    note_msg(c, h, body);
    for r in rs {
        note_req(c, r);
    }
    let chunks = gen::chunks(c, body);
    let obey = c.bool();
    let out = match env::sign_obey(h, rs, &chunks, obey) {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("request refused: {e:?}")),
    };
    ensure_eq!(out.len(), rs.len(), "number of signing results");
    for (i, (o, r)) in out.iter().zip(rs).enumerate() {
        let want = expected(r, body);
        let got = o.as_ref().err().copied();
        ensure!(want.contains(&got), "signing result of request {i}: got error {got:?}, expected one of {want:?}");
    }
    let good: Vec<(&Req, &SigningOutput)> =
        rs.iter().zip(&out).filter_map(|(r, o)| Some((r, o.as_ref().ok()?))).collect();
    c.class_if(good.is_empty(), "no signature produced");
    if good.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    let outs: Vec<&SigningOutput> = good.iter().map(|g| g.1).collect();
    let h2 = prepend(h, &outs);
    for (r, o) in &good {
        ensure!(refm::valid_field_body(o.header_value.as_bytes()), "not a valid header field: {:?} for {r:?}", o.header_value);
    }
    let m = mock(rs);
    let chunks = gen::chunks(c, body);
    let run = env::verify_full(&m, &h2, &chunks, &env::config(&env::lax()), c.bool());
    let res = run.results.unwrap_or_default();
    ensure_eq!(res.len(), good.len(), "number of verification results");
    ensure!(all_good(&res), "produced signatures do not verify: {}\n   {:?}", statuses(&res), outs.iter().map(|o| &o.header_value).collect::<Vec<_>>());
    // the reference agrees
    let plans = m.plans.clone();
    let mut dns = |n: &str| plans.get(&n.to_ascii_lowercase()).map_or(Dns::Records(vec![]), |p: &Plan| p.answer.clone());
    for o in rv::verify(&h2, body, &env::lax(), PRE, &mut dns) {
        if let Some(s) = &o.status {
            ensure!(s.contains(&rv::Exp::Success), "reference verifier refuses signature {}: {s:?}\n   {:?}", o.index, h2[o.index]);
        } else {
            c.class("not judged by reference");
        }
    }
    Ok(())
}

fn c01_requests(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 9);
    let body = gen::body(c);
    let n = 1 + c.weighted(&[6, 2, 1]);
    let mut rs: Vec<Req> = (0..n).map(|_| gen::req(c, &h, clen(&body))).collect();
    separate(&mut rs);
    for r in &rs {
        c.class_if(r.length != BL::None, "with body length");
        c.class_if(r.copy, "with copied headers");
        c.class_if(r.ascii, "ASCII only");
        c.class_if(!r.ext.is_empty(), "with extra tags");
        c.class_if(r.identity.is_some(), "with identity");
        c.class_if(r.width < 20, "narrow lines");
        c.class_if(r.order != Order::Default, "own tag order");
        c.class_if(r.headers.is_none(), "automatic header selection");
    }
    c01_check(c, &h, &body, &rs)
}

fn c01_many(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 6);
    let body = gen::body(c);
    let n = c.range(4, 10);
    let mut rs: Vec<Req> = (0..n).map(|_| gen::req(c, &h, clen(&body))).collect();
    separate(&mut rs);
    c01_check(c, &h, &body, &rs)
}

/// Every width from 1 with every kind of key, an eventful request.
fn c01_widths(c: &mut Ctx) -> Res {
    let i = c.below(240) as usize;
    let width = i / 2 + 1;
    let h: Hdrs = vec![
        ("From".into(), b" a@example.org".to_vec()),
        ("X;=|\\".into(), b" n".to_vec()),
        ("Subject".into(), b" \xc3\xa4=; |\r\n\t:x \xff".to_vec()),
        ("To".into(), b"".to_vec()),
    ];
    for key in ["eda", "rsa1024", "rsa1025", "rsa2048"] {
        let key = keys::get(key);
        let r = Req {
            key,
            alg: if key.is_rsa() { Alg::RsaSha256 } else { Alg::Ed25519 },
            hc: width % 2 == 0,
            bc: width % 3 == 0,
            domain: "mail.b\u{fc}cher.example".into(),
            selector: "s1.s2".into(),
            headers: Some(["From", "X|=", "subject", "to", "To", "From", "Date"].map(String::from).to_vec()),
            identity: Some((Some("\"a ;\u{e4}\"".into()), "x.mail.b\u{fc}cher.example".into())),
            length: BL::Content,
            time: TS::Exact(1_700_000_000),
            valid: Some(Duration::from_secs(3600)),
            copy: true,
            ext: vec![("foo".into(), "x y\r\n z".into()), ("e".into(), "".into())],
            width,
            indent: if i % 3 == 0 { "\t".into() } else { "  ".into() },
            order: if i % 2 == 0 { Order::Default } else { Order::Shuffle(i as u64) },
            header_name: "DKIM-Signature".into(),
            ascii: i % 4 < 2,
        };
        c01_check(c, &h, b"Hello \r\n\r\n", &[r])?;
        c.extra_evals += 1;
    }
    Ok(())
}

/// A request as made by `SignRequest::new`, nothing changed.
fn c01_defaults(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 12);
    let body = gen::body(c);
    let key = gen::key(c);
    let alg = gen::alg_for(c, key);
    let mut r = gen::plain_req(c, &h);
    r.key = key;
    r.alg = alg;
    (r.hc, r.bc) = (true, false);
    r.headers = None;
    r.identity = None;
    r.time = TS::Now;
    r.valid = Some(Duration::from_secs(60 * 60 * 24 * 5));
    r.header_name = "DKIM-Signature".into();
    note_msg(c, &h, &body);
    note_req(c, &r);
    c.nontrivial = true;
    let sr = viadkim::signer::SignRequest::new(
        DomainName_new(&r.domain),
        viadkim::signature::Selector::new(r.selector.as_str()).unwrap(),
        gen::v_alg(alg),
        &key.signing,
    );
    let chunks = gen::chunks(c, &body);
    let mut s = match viadkim::signer::Signer::prepare_signing(env::headers(&h), [sr]) {
        Ok(s) => s,
        Err(e) => return crate::engine::fail(format!("default request refused: {e:?}")),
    };
    for x in &chunks {
        s.process_body_chunk(x);
    }
    let t0 = now();
    let out = env::block_on(s.sign());
    let t1 = now();
    ensure!(out.len() == 1, "one result");
    let o = match &out[0] {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("default request fails: {e:?}")),
    };
    c23_judge(c, &r, o, &h, &body, t0, t1)?;
    // with the default configuration: but small keys and old algorithms are
    // refused by it, and now is now
    let cfg = viadkim::verifier::Config {
        min_key_bits: 0,
        allow_sha1: true,
        lookup_timeout: Duration::from_secs(5),
        ..Default::default()
    };
    let h2 = prepend(&h, &[o]);
    let res = env::verify(&mock(&[r]), &h2, &body, &cfg);
    ensure!(res.len() == 1 && all_good(&res), "signature of a default request does not verify by default: {}\n   {:?}", statuses(&res), o.header_value);
    Ok(())
}

#[allow(non_snake_case)]
fn DomainName_new(s: &str) -> viadkim::signature::DomainName {
    viadkim::signature::DomainName::new(s).unwrap()
}

fn now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}

/// Signed, extended and signed again on the way.
fn c01_hops(c: &mut Ctx) -> Res {
    let mut h = gen::hdrs(c, 6);
    let body = gen::body(c);
    let hops = c.range(2, 4);
    let mut recs: HashMap<String, (String, Vec<u8>)> = HashMap::new();
    let mut outs = 0;
    note_msg(c, &h, &body);
    for k in 0..hops {
        let n = c.range(1, 2);
        let mut rs: Vec<Req> = (0..n)
            .map(|_| {
                let mut r = gen::req(c, &h, clen(&body));
                // absent names must not be signed: hops add fields
                if let Some(v) = &mut r.headers {
                    v.retain(|x| !x.to_ascii_lowercase().starts_with("x-hop"));
                }
                r.selector = format!("hop{k}");
                r
            })
            .collect();
        for (i, r) in rs.iter_mut().enumerate() {
            r.selector = format!("hop{k}-{i}");
            note_req(c, r);
            recs.insert(r.record().0, r.record());
        }
        let chunks = gen::chunks(c, &body);
        let out = match env::sign(&h, &rs, &chunks) {
            Ok(o) => o,
            Err(e) => return crate::engine::fail(format!("request refused: {e:?}")),
        };
        let good: Vec<&SigningOutput> = out.iter().filter_map(|o| o.as_ref().ok()).collect();
        outs += good.len();
        h = prepend(&h, &good);
        // trace fields between
        for _ in 0..c.range(0, 2) {
            let v = gen::field_body(c);
            h.insert(0, (c.pick(&["X-Hop", "x-hop", "X-HOP-2"]).to_owned(), v));
        }
    }
    c.nontrivial = outs >= 2;
    let m = Mock::records(recs.into_values());
    let res = env::verify(&m, &h, &body, &env::config(&env::lax()));
    ensure_eq!(res.len(), outs, "number of verification results after {hops} hops");
    ensure!(all_good(&res), "signatures of earlier hops do not verify: {}", statuses(&res));
    Ok(())
}

// ---------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12",
    rule: "Headers with and without From; 0 to 12 requests, each usable or with one or more of: key of the other \
           type, From not listed, unlistable name, identity outside the domain (also by label boundary, case and \
           IDNA form), zero or sub-second validity, extra tags with bad or standard or doubled names or bad \
           values, other header name, bad indentation. Accepted requests among which are some with RSA keys too short to sign. Non-trivial: at \
           least one defect or at least two requests. \
           Oracle: the documented conditions, each checked independently of order; signing \
           fails for the short keys (RFC 8017: modulus shorter than hash, prefix and eleven octets) and only for these.",
    facets: &[
        table("single defects", 400, c12_single),
        facet("sets", 30_000, 600_000, c12_sets),
        facet("short keys", 4_000, 80_000, c12_short_keys),
    ],
    pre: true,
};

/// Keys too short to sign with spoil only their own request.
fn c12_short_keys(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 5);
    let body = gen::body(c);
    let n = c.range(1, 6);
    let mut rs: Vec<Req> = vec![];
    for _ in 0..n {
        let mut r = gen::req(c, &h, |_| 0);
        r.length = BL::None;
        if r.key.is_rsa() && c.bool() {
            r.key = &keys::tiny()[c.idx(4)];
        }
        rs.push(r);
    }
    c.id(format!("{h:?}{body:?}{rs:?}"));
    c.note(|| format!("{h:?} {:?} {rs:?}", show(&body)));
    let fits = |r: &Req| r.key.fits(r.alg == Alg::RsaSha1);
    c.nontrivial = rs.iter().any(|r| !fits(r));
    c.class_if(rs.iter().any(|r| r.key.bits < 500 && fits(r)), "short key that fits");
    let chunks = gen::chunks(c, &body);
    let got = env::sign(&h, &rs, &chunks);
    let Ok(got) = got else {
        return crate::engine::fail(format!("requests not accepted: {:?}", got.err()));
    };
    ensure_eq!(got.len(), rs.len(), "number of results");
    for (i, (r, g)) in rs.iter().zip(&got).enumerate() {
        match g {
            Ok(_) => ensure!(fits(r), "signature {i} made with the key {} too short for it", r.key.name),
            Err(SigningError::SigningFailure) => ensure!(!fits(r), "signature {i} not made with key {}", r.key.name),
            // something else is wrong as well
            Err(e) => ensure!(expected(r, &body).contains(&Some(*e)), "signature {i}: {e:?}"),
        }
        // the same as by itself
        if matches!(r.time, TS::Exact(_)) || r.time == TS::None && r.valid.is_none() {
            let alone = env::sign(&h, std::slice::from_ref(r), &chunks).expect("accepted").remove(0);
            ensure_eq!(
                g.as_ref().ok().map(|o| o.format_header().to_string()),
                alone.ok().map(|o| o.format_header().to_string()),
                "signature {i} by itself"
            );
        }
    }
    Ok(())
}

const BAD_EXT: [(&str, &str); 34] = [
    ("v", "1"), ("a", "rsa-sha256"), ("b", ""), ("bh", "x"), ("c", "simple"), ("d", "x"), ("h", "From"),
    ("i", "@x"), ("l", "1"), ("s", "x"), ("t", "1"), ("x", "1"), ("z", "From:x"), ("q", "foo"), ("", "x"),
    ("1a", "x"), ("_a", "x"), ("a-b", "x"), ("\u{e4}", "x"), ("a b", "x"), ("foo", ";"), ("foo", "a;b"),
    ("foo", "a\nb"), ("foo", "a\r\nb"), ("foo", "a\0b"), ("foo", "a\u{7f}"), ("foo", "a\rb"), ("foo=", "x"),
    ("fo;o", "x"), ("foo ", "x"), ("q", "dns/txt"), ("foo\r\n ", "x"), ("foo", "a\u{1f}b"), ("a.b", "x"),
];

const GOOD_EXT: [(&str, &str); 12] = [
    ("V", "1"), ("A", "x"), ("Bh", "y"), ("Z", ""), ("foo", ""), ("f_1", "a=b:c"), ("vv", "1"), ("dd", "x y"),
    ("foo", "a\r\n b"), ("e", "\u{e4}\u{4e2d}"), ("Q", "x"), ("aLongTagNameThatIsStillFine_123", "~!<"),
];

/// (name, spoil)
const DEFECTS: u64 = 10;

fn spoil(c: &mut Ctx, r: &mut Req, which: u64) {
    match which {
        0 => {
            let other = if r.key.is_rsa() { "eda" } else { "rsa1024" };
            r.key = keys::get(other);
        }
        1 => {
            let mut v = r.headers.clone().unwrap_or_else(|| vec!["To".into(), "Date".into()]);
            v.retain(|x| !refm::eq_nocase(x, "From"));
            r.headers = Some(v);
        }
        2 => {
            let mut v = r.headers.clone().unwrap_or_else(|| vec!["From".into()]);
            let at = c.idx(v.len() + 1);
            v.insert(at, c.pick(&[";", "a;b", "From;", ";From"]).into());
            r.headers = Some(v);
        }
        3 => {
            let d = c.pick(&["example.com", "a.example.com", "b\u{fc}cher.example"]).to_owned();
            let i = match c.below(6) {
                0 => "example.net".to_owned(),
                1 => format!("not{d}"),
                2 => "com".to_owned(),
                3 => format!("{d}.x"),
                4 => d.split_once('.').unwrap().1.to_owned(),
                _ => "xn--bcher-kva.example.com".to_owned(),
            };
            r.domain = d;
            r.identity = Some((gen::local_part(c), i));
        }
        4 => {
            r.valid = Some(match c.below(3) {
                0 => Duration::ZERO,
                1 => Duration::from_nanos(1),
                _ => Duration::from_nanos(999_999_999),
            })
        }
        5 => {
            let (n, v) = BAD_EXT[c.idx(BAD_EXT.len())];
            let at = c.idx(r.ext.len() + 1);
            r.ext.insert(at, (n.into(), v.into()));
        }
        6 => {
            let n = c.pick(&["foo", "X"]).to_owned();
            r.ext.insert(0, (n.clone(), "1".into()));
            r.ext.push((n, c.pick(&["1", "2"]).into()));
        }
        7 => {
            r.header_name = c
                .pick(&["", "DKIM-Signatur", "DKIM-Signature ", "DKIM-Signature:", "X-DKIM-Signature", "DKIM_Signature", "DKIM-S\u{131}gnature", "DKIM-\u{17f}ignature"])
                .to_owned()
        }
        8 => {
            r.indent = c.pick(&["", "x", " x", "\n", "\r\n ", " \r", "\u{a0}", " \u{3000}", "\u{0b}", ">"]).to_owned()
        }
        _ => {
            // not a defect: forms of identity and tags that are fine
            match c.below(3) {
                0 => {
                    r.domain = "b\u{fc}cher.example".into();
                    r.identity = Some((None, c.pick(&["xn--bcher-kva.example", "B\u{dc}CHER.example", "a.XN--BCHER-KVA.Example"]).into()));
                }
                1 => {
                    let (n, v) = GOOD_EXT[c.idx(GOOD_EXT.len())];
                    if !r.ext.iter().any(|e| e.0 == n) {
                        r.ext.push((n.into(), v.into()));
                    }
                }
                _ => r.valid = Some(Duration::from_secs(1)),
            }
        }
    }
}

/// The errors that apply to a request.
fn applicable(r: &Req) -> Vec<RE> {
    let mut e = vec![];
    if r.key.is_rsa() != r.alg.is_rsa() {
        e.push(RE::IncompatibleKeyType);
    }
    if let Some(v) = &r.headers {
        if !v.iter().any(|x| refm::eq_nocase(x, "From")) {
            e.push(RE::FromHeaderNotSigned);
        }
        if v.iter().any(|x| x.contains(';')) {
            e.push(RE::InvalidSignedFieldName);
        }
    }
    if let Some((_, d)) = &r.identity {
        let (i, d) = (sig::name_to_ascii(d, true).unwrap(), sig::name_to_ascii(&r.domain, true).unwrap());
        if !sig::eq_or_below(&i, &d) {
            e.push(RE::DomainMismatch);
        }
    }
    if r.valid.is_some_and(|d| d < Duration::from_secs(1)) {
        e.push(RE::ZeroExpirationDuration);
    }
    const STD: [&str; 14] = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];
    for (k, (n, v)) in r.ext.iter().enumerate() {
        // as a tag list of its own
        let text = format!("{n}={v};");
        let ok = !n.contains(|c: char| !c.is_ascii_alphanumeric() && c != '_')
            && !v.contains(';')
            && matches!(tags::parse(&text), Ok(t) if t.len() == 1 && t[0].0 == *n);
        if !ok || STD.contains(&n.as_str()) || r.ext[..k].iter().any(|(m, _)| m == n) {
            e.push(RE::InvalidExtTags);
        }
    }
    if !refm::eq_nocase(&r.header_name, "DKIM-Signature") {
        e.push(RE::InvalidDkimSignatureHeaderName);
    }
    if r.indent.is_empty() || !r.indent.chars().all(|c| c == ' ' || c == '\t') {
        e.push(RE::InvalidIndentationWhitespace);
    }
    e
}

fn c12_check(c: &mut Ctx, h: &Hdrs, body: &[u8], rs: &[Req]) -> Res {
    note_msg(c, h, body);
    for r in rs {
        note_req(c, r);
    }
    let mut errs: Vec<RE> = rs.iter().flat_map(applicable).collect();
    if !h.iter().any(|(n, _)| refm::eq_nocase(n, "From")) {
        errs.push(RE::MissingFromHeader);
    }
    if rs.is_empty() {
        errs.push(RE::EmptyRequests);
    }
    if rs.len() > 10 {
        errs.push(RE::TooManyRequests);
    }
    match env::sign(h, rs, &[body.to_vec()]) {
        Ok(out) => {
            c.class("accepted");
            ensure!(errs.is_empty(), "unusable requests accepted, expected one of {errs:?}");
            ensure_eq!(out.len(), rs.len(), "number of signing results");
            for (i, (o, r)) in out.iter().zip(rs).enumerate() {
                let want = expected(r, body);
                let got = o.as_ref().err().copied();
                ensure!(want.contains(&got), "signing result of request {i}: got error {got:?}, expected one of {want:?}");
                if let Ok(o) = o {
                    ensure!(
                        o.signature.domain.as_ref() == r.domain && o.signature.selector.as_ref() == r.selector,
                        "result {i} is not for request {i}"
                    );
                }
            }
        }
        Err(e) => {
            c.class("refused");
            ensure!(!errs.is_empty(), "usable requests refused: {e:?}");
            ensure!(errs.contains(&e), "reported error {e:?} does not apply, applicable are {errs:?}");
        }
    }
    Ok(())
}

fn c12_sets(c: &mut Ctx) -> Res {
    let mut h = gen::hdrs(c, 5);
    if c.chance(1, 12) {
        h.retain(|x| !refm::eq_nocase(&x.0, "From"));
        if h.is_empty() {
            h.push(("To".into(), vec![]));
        }
    }
    let body = if c.chance(1, 4) { gen::body(c) } else { b"x\r\n".to_vec() };
    let n = match c.weighted(&[1, 8, 6, 2, 2]) {
        0 => 0,
        1 => 1,
        2 => c.range(2, 4),
        3 => 10,
        _ => c.range(9, 12),
    };
    let quick = n > 4;
    let mut rs: Vec<Req> = vec![];
    for _ in 0..n {
        let mut r = gen::req(c, &h, clen(&body));
        if quick {
            r.key = keys::get("eda");
            r.alg = Alg::Ed25519;
        }
        rs.push(r);
    }
    let defects = if n == 0 { 0 } else { c.weighted(&[4, 5, 2, 1]) };
    for _ in 0..defects {
        let i = c.idx(n);
        let w = c.below(DEFECTS);
        spoil(c, &mut rs[i], w);
    }
    c.nontrivial = defects > 0 || n > 1;
    c12_check(c, &h, &body, &rs)
}

fn c12_single(c: &mut Ctx) -> Res {
    let i = c.below(400);
    let h: Hdrs = vec![("from".into(), b" x".to_vec()), ("To".into(), b"y".to_vec())];
    let mut g = Ctx::new(crate::engine::Tape::given(vec![]), false);
    let mut r = gen::plain_req(&mut g, &h);
    r.headers = if i % 2 == 0 { None } else { Some(vec!["FROM".into()]) };
    let (which, k) = (i % DEFECTS, i / DEFECTS);
    let mut g = Ctx::new(crate::engine::Tape::given(match which {
        2 => vec![k, k / 4],
        3 => vec![k / 6, k, 0],
        9 => vec![k, k / 3],
        _ => vec![k, k],
    }), false);
    spoil(&mut g, &mut r, which);
    c.nontrivial = true;
    c12_check(c, &h, b"x", &[r])
}

// ---------------------------------------------------------------- C23

pub static C23: Prop = Prop {
    id: "C23",
    rule: "Messages and accepted requests as for C01. Every part of the returned signature, and of the returned \
           header text as read by the reference parser, is compared with the request and with reference body \
           hashes and header selection; the signature value is checked by bare arithmetic over the reference's \
           signed data. Non-trivial: a signature was produced. Oracle: request and reference model.",
    facets: &[
        facet("statements", 15_000, 400_000, c23_statements),
        facet("selection", 15_000, 400_000, c23_selection),
        facet("large", 150, 5_000, |c| large(c, c23_statements)),
        facet("times", 10_000, 200_000, c23_times),
    ],
    pre: true,
};

pub fn auto_headers(h: &Hdrs) -> Vec<String> {
    const DEF: [&str; 19] = [
        "From", "Reply-To", "Subject", "Date", "To", "Cc", "Resent-Date", "Resent-From", "Resent-To",
        "Resent-Cc", "In-Reply-To", "References", "List-Id", "List-Help", "List-Unsubscribe",
        "List-Subscribe", "List-Post", "List-Owner", "List-Archive",
    ];
    h.iter()
        .rev()
        .filter(|(n, _)| DEF.iter().any(|d| refm::eq_nocase(d, n)))
        .map(|x| x.0.clone())
        .collect()
}

fn c23_judge(c: &mut Ctx, r: &Req, o: &SigningOutput, h: &Hdrs, body: &[u8], t0: u64, t1: u64) -> Res {
    let s = &o.signature;
    ensure_eq!(s.domain.as_ref(), r.domain.as_str(), "domain");
    ensure_eq!(s.selector.as_ref(), r.selector.as_str(), "selector");
    ensure_eq!(gen::r_alg(s.algorithm), r.alg, "algorithm");
    ensure_eq!(s.canonicalization.header == CA::Relaxed, r.hc, "header canonicalization");
    ensure_eq!(s.canonicalization.body == CA::Relaxed, r.bc, "body canonicalization");
    let i = s.identity.as_ref().map(|i| (i.local_part.as_ref().map(|l| l.to_string()), i.domain.as_ref().to_owned()));
    ensure_eq!(i, r.identity, "identity");
    let e: Vec<(String, String)> = s.ext_tags.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    ensure_eq!(e, r.ext, "extra tags");
    match r.time {
        TS::None => ensure_eq!(s.timestamp, None, "timestamp"),
        TS::Exact(t) => ensure_eq!(s.timestamp, Some(t), "timestamp"),
        TS::Now => ensure!(s.timestamp.is_some_and(|t| t0 <= t && t <= t1), "timestamp {:?} is not now, {t0}..{t1}", s.timestamp),
    }
    match (r.valid, s.expiration) {
        (None, x) => ensure_eq!(x, None, "expiration"),
        (Some(v), Some(x)) => {
            // fractions of a second cannot be expressed
            let v = v.as_secs();
            let ok = match s.timestamp {
                Some(t) => x == t.saturating_add(v),
                None => (t0.saturating_add(v)..=t1.saturating_add(v)).contains(&x),
            };
            ensure!(ok, "expiration {x} for timestamp {:?} and validity {v}", s.timestamp);
            ensure!(s.timestamp.map_or(true, |t| t < x), "expiration not after timestamp");
        }
        (Some(_), None) => return crate::engine::fail("no expiration"),
    }
    let hs: Vec<String> = s.signed_headers.iter().map(|x| x.as_ref().to_owned()).collect();
    let want = r.headers.clone().unwrap_or_else(|| auto_headers(h));
    ensure_eq!(hs, want, "signed headers");

    if !(r.bc && canon::relaxed_unspecified(body)) {
        let cb = canon::body(r.bc, body);
        let (n, l) = match r.length {
            BL::None => (cb.len() as u64, None),
            BL::Content => (cb.len() as u64, Some(cb.len() as u64)),
            BL::Exact(n) => (n, Some(n)),
        };
        ensure_eq!(s.body_length, l, "body length");
        ensure_eq!(s.body_hash.to_vec(), r.alg.hash(&cb[..n as usize]), "body hash");
    }

    // the header text says the same, by the reference parser
    let h2 = prepend(h, &[o]);
    let rs = match sig::parse(&o.header_value, PRE) {
        sig::Parsed::Ok(x) => *x,
        sig::Parsed::Err(e) => return crate::engine::fail(format!("header text is malformed: {e:?}\n   {:?}", o.header_value)),
        sig::Parsed::Unspecified => {
            c.class("header text not judged");
            return Ok(());
        }
    };
    let ascii = |d: &str, tld| refm::lower_str(&sig::name_to_ascii(d, tld).unwrap());
    ensure_eq!(refm::lower_str(&rs.d_ascii), ascii(&r.domain, true), "d= tag");
    ensure_eq!(refm::lower_str(&rs.s_ascii), ascii(&r.selector, false), "s= tag");
    ensure_eq!(rs.alg, r.alg, "a= tag");
    ensure_eq!((rs.relaxed_header, rs.relaxed_body), (r.hc, r.bc), "c= tag");
    ensure_eq!(rs.h, want, "h= tag");
    ensure_eq!(
        rs.i.as_ref().map(|(l, d)| (l.clone(), ascii(d, true))),
        r.identity.as_ref().map(|(l, d)| (l.clone(), ascii(d, true))),
        "i= tag"
    );
    ensure_eq!(rs.l, s.body_length, "l= tag");
    ensure_eq!(rs.t, s.timestamp, "t= tag");
    ensure_eq!(rs.x, s.expiration, "x= tag");
    let mut e: Vec<(String, String)> = r.ext.clone();
    let mut g = rs.ext.clone();
    if r.order != Order::Default {
        e.sort();
        g.sort();
    }
    ensure_eq!(g, e, "extra tags in header text");
    ensure_eq!(rs.bh, s.body_hash.to_vec(), "bh= tag");
    ensure_eq!(rs.b, s.signature_data.to_vec(), "b= tag");
    let hash = rv::data_hash(&h2, 0, &rs);
    let ok = match (&r.key.rsa, &r.key.ed) {
        (Some(k), _) => rv::rsa_ok(&k.to_public_key(), r.alg == Alg::RsaSha1, &hash, &rs.b),
        (_, Some(k)) => rv::ed_ok(&k.verifying_key(), &hash, &rs.b),
        _ => unreachable!(),
    };
    ensure!(ok, "the signature value is not valid over the returned header\n   {:?}", o.header_value);
    Ok(())
}

fn c23_run(c: &mut Ctx, h: &Hdrs, body: &[u8], rs: &[Req]) -> Res {
    note_msg(c, h, body);
    for r in rs {
        note_req(c, r);
    }
    let t0 = now();
    let chunks = gen::chunks(c, body);
    let out = match env::sign(h, rs, &chunks) {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("request refused: {e:?}")),
    };
    let t1 = now();
    ensure_eq!(out.len(), rs.len(), "number of signing results");
    for (o, r) in out.iter().zip(rs) {
        match o {
            Ok(o) => {
                c.nontrivial = true;
                ensure!(expected(r, body).contains(&None), "signed, expected {:?}", expected(r, body));
                c23_judge(c, r, o, h, body, t0, t1)?;
            }
            Err(e) => ensure!(expected(r, body).contains(&Some(*e)), "unexpected error {e:?}"),
        }
    }
    Ok(())
}

fn c23_statements(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 8);
    let body = gen::body(c);
    let n = 1 + c.weighted(&[6, 2, 1]);
    let rs: Vec<Req> = (0..n).map(|_| gen::req(c, &h, clen(&body))).collect();
    c23_run(c, &h, &body, &rs)
}

/// Which header fields are signed, and in which order.
fn c23_selection(c: &mut Ctx) -> Res {
    const N: [&str; 26] = [
        "From", "Reply-To", "Subject", "Date", "To", "Cc", "Resent-Date", "Resent-From", "Resent-To",
        "Resent-Cc", "In-Reply-To", "References", "List-Id", "List-Help", "List-Unsubscribe",
        "List-Subscribe", "List-Post", "List-Owner", "List-Archive", "Sender", "Received", "Bcc",
        "Resent-Sender", "Return-Path", "Comments", "Content-Type",
    ];
    let n = c.range(1, 14);
    let mut h: Hdrs = (0..n)
        .map(|_| {
            let s = c.pick(&N);
            let s = if c.chance(1, 10) { format!("{s}x") } else { s.to_owned() };
            let s = gen::case_mix(c, &s);
            let v = if c.bool() { b" x".to_vec() } else { gen::field_body(c) };
            (s, v)
        })
        .collect();
    let at = c.idx(h.len() + 1);
    h.insert(at, (gen::case_mix(c, "From"), b" me".to_vec()));
    let mut r = gen::plain_req(c, &h);
    r.key = keys::get("eda");
    r.alg = Alg::Ed25519;
    if c.chance(3, 4) {
        r.headers = None;
    } else {
        r.headers = Some(gen::signed_names(c, &h));
    }
    c23_run(c, &h, b"body\r\n", &[r])
}

fn c23_times(c: &mut Ctx) -> Res {
    let h: Hdrs = vec![("From".into(), b" x".to_vec())];
    let mut r = gen::plain_req(c, &h);
    r.key = keys::get("eda");
    r.alg = Alg::Ed25519;
    let m = u64::MAX;
    let near = |c: &mut Ctx, x: u64| x.saturating_sub(5).saturating_add(c.below(11));
    r.time = match c.below(4) {
        0 => TS::None,
        1 => TS::Now,
        2 => {
            let at = c.pick_copy(&[0, 1 << 31, 1 << 32, 10_000_000_000, 999_999_999_999, m]);
            TS::Exact(near(c, at))
        }
        _ => TS::Exact(c.u64()),
    };
    r.valid = match c.below(5) {
        0 => None,
        1 => Some(Duration::new(1 + c.below(4), c.pick_copy(&[0, 1, 500_000_000, 999_999_999]))),
        2 => {
            let at = c.pick_copy(&[m, 1 << 32, 1 << 33, 1 << 63]);
            Some(Duration::from_secs(near(c, at)))
        }
        3 => Some(Duration::from_secs(match r.time {
            // just up to the limit, and over
            TS::Exact(t) => (m - t).saturating_sub(2).saturating_add(c.below(5)).max(1),
            _ => 1 + c.below(10),
        })),
        _ => Some(Duration::from_secs(1 + c.u64() / 2)),
    };
    c23_run(c, &h, b"", &[r])
}
