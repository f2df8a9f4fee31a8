//! C02, C03: what verification reports.

use super::*;
use crate::{
    engine::{facet, table, vtable, Ctx, Res},
    ensure, ensure_eq,
    env::{self, Mock},
    gen::{self, PRE},
    keys::{self, Key},
    refm::{
        self, canon,
        sig::{self, Alg},
        verify::{self as rv, RConfig},
        Hdrs,
    },
    scene::{self, Scene},
    text::{self, Forge},
};
use viadkim::verifier::{VerificationResult, VerificationStatus};

// ---------------------------------------------------------------- C03

pub static C03: Prop = Prop {
    id: "C03",
    rule: "Messages with 0 to 6 signatures made by the reference signer (all options, also with unacceptable keys), \
           in part damaged afterwards by tag edits, raw edits, tampering; key records valid, edited, several, \
           non-UTF-8, lookup errors, no answer; configurations with limits near the values occurring; random chunks. \
           Non-trivial: at least one signature was judged. Oracle: reference verifier written from RFC 6376 and the \
           documentation; status, index, parsed signature and reported record of each result compared.",
    facets: &[
        facet("scenes", 12_000, 500_000, c03_scenes),
        facet("signature texts", 12_000, 500_000, c03_texts),
        facet("record texts", 12_000, 500_000, c03_records),
        facet("order of checks", 12_000, 400_000, c03_order),
        facet("large", 200, 6_000, |c| large(c, c03_scenes)),
    ],
    pre: true,
};

/// Compares with the reference verifier.
pub fn judge(c: &mut Ctx, s: &Scene, res: &[VerificationResult]) -> Res {
    judge_within(c, s, res, 10_000)
}

/// The same, with a lookup timeout in milliseconds.
pub fn judge_within(c: &mut Ctx, s: &Scene, res: &[VerificationResult], timeout: u64) -> Res {
    let mut dns = scene::dns_of(&s.plans, timeout);
    let want = rv::verify(&s.hdrs, &s.body, &s.cfg, PRE, &mut dns);
    ensure_eq!(
        res.iter().map(|r| r.index).collect::<Vec<_>>(),
        want.iter().map(|o| o.index).collect::<Vec<_>>(),
        "indexes of results"
    );
    for (r, o) in res.iter().zip(&want) {
        let at = format!("signature at index {}", o.index);
        match &o.status {
            None => c.class("status not judged"),
            Some(e) => {
                c.nontrivial = true;
                c.class(match &r.status {
                    VerificationStatus::Success => "success",
                    VerificationStatus::Failure(f) => failure_class(f),
                });
                ensure!(
                    e.iter().any(|e| e.admits(&r.status)),
                    "{at}: status {:?}, expected {e:?}\n   key record reported: {:?}",
                    r.status,
                    r.key_record
                );
            }
        }
        if o.rec.is_none() && o.sig.is_none() {
            continue;
        }
        match (&o.sig, &r.signature) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                let d = sig_diff(a, b);
                ensure!(d.is_empty(), "{at}: reported signature differs: {d}");
            }
            (a, b) => return crate::engine::fail(format!("{at}: reported signature: got {b:?}, expected {a:?}")),
        }
        if let Some(e) = &o.rec {
            match (e, &r.key_record) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    let d = rec_diff(a, b);
                    ensure!(d.is_empty(), "{at}: reported key record differs: {d}");
                }
                (a, b) => return crate::engine::fail(format!("{at}: reported key record: got {b:?}, expected {a:?}")),
            }
        }
    }
    Ok(())
}

fn failure_class(f: &viadkim::verifier::VerificationError) -> &'static str {
    use viadkim::verifier::{PolicyError as P, VerificationError as E};
    match f {
        E::DkimSignatureFormat(_) => "signature format",
        E::Overflow => "overflow",
        E::NoKeyFound => "no key found",
        E::InvalidKeyDomain => "invalid key domain",
        E::Timeout => "timeout",
        E::KeyLookup => "key lookup",
        E::KeyRecordFormat(_) => "key record format",
        E::WrongKeyType => "wrong key type",
        E::KeyRevoked => "key revoked",
        E::DisallowedHashAlgorithm => "disallowed hash algorithm",
        E::DomainMismatch => "domain mismatch",
        E::VerificationFailure(_) => "verification failure",
        E::InsufficientContent => "insufficient content",
        E::BodyHashMismatch => "body hash mismatch",
        E::Policy(p) => match p {
            P::RequiredHeaderNotSigned => "policy: required header not signed",
            P::UnsignedHeaderOccurrence => "policy: unsigned header occurrence",
            P::UnsignedContent => "policy: unsigned content",
            P::SignatureExpired => "policy: expired",
            P::TimestampInFuture => "policy: timestamp in future",
            P::Sha1HashAlgorithm => "policy: SHA-1",
            P::KeyTooSmall => "policy: key too small",
        },
    }
}

pub fn run(c: &mut Ctx, s: &Scene) -> Vec<VerificationResult> {
    let chunks = gen::chunks(c, &s.body);
    let obey = c.bool();
    env::verify_full(&s.mock(), &s.hdrs, &chunks, &env::config(&s.cfg), obey).results.unwrap_or_default()
}

fn c03_scenes(c: &mut Ctx) -> Res {
    let s = scene::any(c, 6);
    s.note(c);
    let r = run(c, &s);
    judge(c, &s, &r)
}

/// One signature of any text, with a record where it points.
fn c03_texts(c: &mut Ctx) -> Res {
    let mut hdrs = gen::hdrs(c, 4);
    let body = b"x \r\n\r\n".to_vec();
    let cfg = scene::config(c, &hdrs);
    let key = gen::key(c);
    let value = match c.weighted(&[3, 1]) {
        0 => {
            // signed, with tags of any value
            let mut f = scene::forge(c, &hdrs, &body, &cfg);
            f.key = key;
            f.alg = gen::alg_for(c, key);
            if c.bool() {
                let v = text::sig_value(c, "d");
                f.d = v;
            }
            if c.bool() {
                let v = text::sig_value(c, "s");
                f.s = v;
            }
            if c.chance(1, 3) {
                let v = text::sig_value(c, "i");
                f.i = Some(v);
            }
            if c.chance(1, 4) {
                let t = c.pick(&["q", "z", "t", "x", "l", "v", "foo", "h"]).to_owned();
                let v = text::sig_value(c, &t);
                f.ext.push((t, v));
            }
            if c.chance(1, 4) {
                f.h = text::sig_value(c, "h").split(':').map(|x| x.to_owned()).collect();
            }
            let v = f.make(c, &hdrs, &body, None).1;
            if c.chance(1, 4) { scene::damage(c, &v) } else { v }
        }
        _ => text::sig_text(c).into_bytes(),
    };
    if !refm::valid_field_body(&value) {
        return Ok(());
    }
    let mut plans = std::collections::HashMap::new();
    if let Ok(v) = std::str::from_utf8(&value) {
        if let sig::Parsed::Ok(r) = sig::parse(v, PRE) {
            let t = scene::record(c, key).into_bytes();
            plans.insert(
                rv::query_name(&r).to_ascii_lowercase(),
                env::Plan { delay: Some(0), answer: rv::Dns::Records(vec![Ok(t)]) },
            );
        }
    }
    hdrs.insert(0, ("DKIM-Signature".into(), value));
    let s = Scene { hdrs, body, cfg, plans };
    s.note(c);
    let r = run(c, &s);
    judge(c, &s, &r)
}

/// A valid signature, with one to three records of any text.
fn c03_records(c: &mut Ctx) -> Res {
    let mut hdrs: Hdrs = vec![("From".into(), b" me".to_vec())];
    let body = b"hi\r\n".to_vec();
    let cfg = scene::config(c, &hdrs);
    let mut f = text::forge(c, &hdrs, &body);
    f.l = None;
    let mut recs = vec![];
    let n = 1 + c.weighted(&[4, 2, 1, 1]);
    for _ in 0..n {
        recs.push(match c.weighted(&[3, 3, 2]) {
            0 => {
                // for the right key, edited
                let alt = c.bool();
                let mut t = text::valid_rec_tags(c, f.key, alt);
                text::edit_tags(c, &mut t, &text::REC_TAGS, text::rec_value);
                let style = c.below(3);
                Ok(text::render(c, &t, style, "").into_bytes())
            }
            1 => scene::bad_record(c),
            _ => Ok(scene::record(c, f.key).into_bytes()),
        });
    }
    let s = f.make(c, &hdrs, &body, None);
    hdrs.insert(0, s);
    let plans = [(
        f.record_name(),
        env::Plan { delay: Some(0), answer: rv::Dns::Records(recs) },
    )]
    .into();
    let s = Scene { hdrs, body, cfg, plans };
    s.note(c);
    let r = run(c, &s);
    judge(c, &s, &r)
}

/// Several things wrong at once: the first in the order is reported.
fn c03_order(c: &mut Ctx) -> Res {
    let mut hdrs: Hdrs = vec![("From".into(), b" me".to_vec()), ("To".into(), b" you".to_vec())];
    let mut body = b"hello\r\nworld\r\n".to_vec();
    let mut cfg = RConfig::default();
    let mut f = Forge::simple(gen::key(c), "example.com", "sel", &["From", "To"]);
    let bits = c.below(1 << 10);
    let on = |i: u32| bits >> i & 1 == 1;
    let pol = c.below(6);
    if on(0) && c.chance(1, 2) {
        // header policy
        match pol {
            0 => cfg.required = vec!["To".into(), "Subject".into()],
            1 => hdrs.push(("from".into(), b" him".to_vec())),
            2 => f.x = Some(cfg.now - cfg.tolerance),
            3 => f.t = Some(cfg.now + cfg.tolerance + 1),
            4 => {
                cfg.forbid_unsigned_content = true;
                f.l = Some(3)
            }
            _ => f.l = Some(10_000),
        }
    }
    let mut recs: Vec<Result<Vec<u8>, std::io::ErrorKind>> = vec![];
    let p = if f.key.is_rsa() { &f.key.spki } else { &f.key.raw };
    let mut t = format!("k={}", f.key.k());
    if on(1) && c.chance(1, 2) {
        t = if f.key.is_rsa() { "k=ed25519".into() } else { "k=rsa".into() };
    }
    if on(2) && c.chance(1, 2) {
        t.push_str(if PRE { ";h=sha1" } else { ";h=sha256" });
    }
    if on(3) && c.chance(1, 2) {
        t.push_str(";t=s");
        f.i = Some(c.pick(&["@example.com", "@a.example.com", "x@EXAMPLE.com"]).into());
    }
    t.push_str(";p=");
    t.push_str(&match c.weighted(&[5, 1, 1, 1]) {
        0 => refm::b64_encode(p),
        1 => "".into(),
        2 => "YWJj".into(),
        _ => refm::b64_encode(&gen::any_key(c).spki),
    });
    if on(4) {
        cfg.min_key_bits = c.pick_copy(&[1024, 1025, 2048, 4096, 0]);
    }
    recs.push(Ok(t.into_bytes()));
    if f.l.is_none() && c.chance(1, 4) {
        f.l = Some(c.pick_copy(&[14, 13, 7, 0]));
    }
    let bh = (on(5) && c.chance(1, 2)).then(|| f.alg.hash(b"?"));
    let mut s = f.make(c, &hdrs, &body, bh);
    if on(6) && c.chance(1, 2) {
        hdrs[1].1.push(b'!');
    }
    if on(7) {
        match c.below(4) {
            0 => body.extend(b"more\r\n"),
            1 => body.truncate(7),
            _ => {}
        }
    }
    if on(8) && c.chance(1, 4) {
        s.1 = scene::damage(c, &s.1);
    }
    let answer = if on(9) && c.chance(1, 4) {
        rv::Dns::Error(c.pick_copy(&scene::KINDS))
    } else {
        rv::Dns::Records(recs)
    };
    hdrs.insert(0, s);
    let plans = [(f.record_name(), env::Plan { delay: Some(0), answer })].into();
    let s = Scene { hdrs, body, cfg, plans };
    s.note(c);
    let r = run(c, &s);
    judge(c, &s, &r)
}

// ---------------------------------------------------------------- C02

pub static C02: Prop = Prop {
    id: "C02",
    rule: "Messages with 1 to 3 genuine signatures, then one to three changes: to any byte of header fields, \
           signature headers, body, order, case, added and removed fields, exchanged signature values and tags, \
           replaced keys. Separately: forgeries with the right key but wrong data, wrong padding, wrong hash. \
           Non-trivial: the message was changed or the signature forged. Oracle: an ideal signature scheme; a \
           signature may succeed only if key, signature value, signed data and covered body are together those of \
           a genuine signature, and then must.",
    facets: &[
        facet("tampering", 20_000, 700_000, c02_tamper),
        facet("every byte", 400, 20_000, c02_bytes),
        facet("exchanges", 6_000, 200_000, c02_exchange),
        facet("wrong data", 6_000, 200_000, c02_wrong_data),
        facet("wrong body hash", 4_000, 150_000, c02_wrong_body_hash),
        facet("large", 400, 10_000, |c| large(c, c02_tamper)),
        vtable("forged values", 400, 5, 100, c02_forged),
    ],
    pre: true,
};

/// What a genuine signature binds together.
#[derive(Clone, PartialEq)]
struct Bound {
    alg: &'static str,
    data: Vec<u8>,
    b: Vec<u8>,
    body: Vec<u8>,
    relaxed_body: bool,
    key: &'static str,
}

/// Which key each query name leads to.
type KeyMap = Vec<(String, &'static Key)>;

enum Seen {
    /// Cannot succeed.
    No,
    Unspecified,
    Sig(Bound, bool),
}

fn bound(hdrs: &Hdrs, i: usize, body: &[u8], keys: &KeyMap, cfg: &RConfig) -> Seen {
    let Ok(v) = std::str::from_utf8(&hdrs[i].1) else { return Seen::No };
    let rs = match sig::parse(v, PRE) {
        sig::Parsed::Ok(r) => r,
        sig::Parsed::Err(_) => return Seen::No,
        sig::Parsed::Unspecified => return Seen::Unspecified,
    };
    if rs.relaxed_body && canon::relaxed_unspecified(body) {
        return Seen::Unspecified;
    }
    let Some(covered) = scene::covered(&rs, body) else { return Seen::No };
    let q = rv::query_name(&rs);
    let Some((_, key)) = keys.iter().find(|(n, _)| n.eq_ignore_ascii_case(&q)) else { return Seen::No };
    let mut data = canon::headers(rs.relaxed_header, hdrs, &rs.h);
    data.extend(canon::header(rs.relaxed_header, &hdrs[i].0, canon::blank_b(v).as_bytes()));
    let pol = rv::header_policy(&rs, hdrs, cfg).is_empty()
        && !(cfg.forbid_unsigned_content && covered != canon::body(rs.relaxed_body, body));
    let b = Bound {
        alg: rs.alg.name(),
        data,
        b: rs.b,
        body: covered,
        relaxed_body: rs.relaxed_body,
        key: key.name,
    };
    Seen::Sig(b, pol)
}

fn sig_indexes(h: &Hdrs) -> Vec<usize> {
    (0..h.len()).filter(|&i| refm::eq_nocase(&h[i].0, "DKIM-Signature")).collect()
}

fn genuine(hdrs: &Hdrs, body: &[u8], keys: &KeyMap, cfg: &RConfig) -> Option<Vec<Bound>> {
    let mut v = vec![];
    for i in sig_indexes(hdrs) {
        match bound(hdrs, i, body, keys, cfg) {
            Seen::Sig(b, _) => v.push(b),
            _ => return None,
        }
    }
    Some(v)
}

fn mock_of(keys: &KeyMap) -> Mock {
    Mock::records(keys.iter().map(|(n, k)| {
        let p = if k.is_rsa() { &k.spki } else { &k.raw };
        (n.clone(), format!("v=DKIM1; k={}; p={}", k.k(), refm::b64_encode(p)).into_bytes())
    }))
}

fn ideal(
    c: &mut Ctx,
    genuine: &[Bound],
    hdrs: &Hdrs,
    body: &[u8],
    keys: &KeyMap,
    cfg: &RConfig,
) -> Res {
    let chunks = gen::chunks(c, body);
    let res = env::verify_full(&mock_of(keys), hdrs, &chunks, &env::config(cfg), false).results.unwrap_or_default();
    for r in &res {
        let ok = r.status == VerificationStatus::Success;
        match bound(hdrs, r.index, body, keys, cfg) {
            Seen::Unspecified => c.class("not judged"),
            Seen::No => {
                ensure!(!ok, "signature at index {} reported successful, but it cannot be", r.index);
                c.class("fails");
            }
            Seen::Sig(b, pol) => {
                let want = pol && genuine.contains(&b);
                c.class(if want { "succeeds" } else { "fails" });
                ensure!(
                    ok == want,
                    "signature at index {}: status {:?}, but signed content {} that of a genuine signature (policy {})",
                    r.index,
                    r.status,
                    if genuine.contains(&b) { "is" } else { "is not" },
                    if pol { "permits" } else { "forbids" }
                );
            }
        }
    }
    Ok(())
}

fn c02_note(c: &mut Ctx, label: &str, h: &Hdrs, body: &[u8]) {
    c.id(format!("{h:?}"));
    c.id(body);
    c.note(|| {
        let hs: Vec<String> =
            h.iter().map(|(n, v)| format!("{n}:{}", String::from_utf8_lossy(v).escape_debug())).collect();
        format!("{label} header {hs:#?} body {:?}", crate::engine::show(body))
    });
}

fn c02_config(c: &mut Ctx, h: &Hdrs) -> RConfig {
    let mut cfg = env::lax();
    cfg.min_key_bits = 0;
    cfg.forbidden_unsigned = match c.weighted(&[4, 2, 1]) {
        0 => vec!["From".into()],
        1 => vec![],
        _ => {
            let i = c.idx(h.len());
            vec!["from".into(), h[i].0.clone()]
        }
    };
    cfg.forbid_unsigned_content = c.chance(1, 4);
    cfg
}

/// A message with genuine signatures, and the keys in DNS.
fn c02_signed(c: &mut Ctx, max: usize) -> (Hdrs, Vec<u8>, KeyMap, Vec<Forge>) {
    let mut h = gen::hdrs(c, 6);
    let body = gen::body(c);
    let n = c.range(1, max);
    let mut keys: KeyMap = vec![];
    let mut fs = vec![];
    let mut sigs = vec![];
    for k in 0..n {
        let mut f = text::forge(c, &h, &body);
        if f.l.is_some_and(|l| l > canon::body(f.bc, &body).len() as u64) {
            f.l = None;
        }
        // one key per name
        if keys.iter().any(|(m, x)| m.eq_ignore_ascii_case(&f.record_name()) && x.name != f.key.name) {
            f.s = format!("uniq{k}");
        }
        if !keys.iter().any(|(m, _)| m.eq_ignore_ascii_case(&f.record_name())) {
            keys.push((f.record_name(), f.key));
        }
        sigs.push(f.make(c, &h, &body, None));
        fs.push(f);
    }
    scene::insert(c, &mut h, sigs);
    (h, body, keys, fs)
}

fn c02_tamper(c: &mut Ctx) -> Res {
    let (mut h, mut body, mut keys, _) = c02_signed(c, 3);
    let cfg = c02_config(c, &h);
    let Some(g) = genuine(&h, &body, &keys, &cfg) else { return Ok(()) };
    c02_note(c, "signed", &h, &body);
    let before = (h.clone(), body.clone());
    let n = 1 + c.weighted(&[5, 2, 1]);
    for _ in 0..n {
        if c.chance(1, 12) {
            // another key in DNS
            let k = gen::key(c);
            let i = c.idx(keys.len());
            keys[i].1 = k;
        } else {
            scene::tamper(c, &mut h, &mut body);
        }
    }
    c.nontrivial = before != (h.clone(), body.clone());
    c02_note(c, "tampered", &h, &body);
    ideal(c, &g, &h, &body, &keys, &cfg)
}

/// One small message; every byte position of header, signature and body.
fn c02_bytes(c: &mut Ctx) -> Res {
    let mut h: Hdrs = vec![
        ("From".into(), b" a\r\n\tb".to_vec()),
        ("X".into(), b"1".to_vec()),
        ("To".into(), b" c  d ".to_vec()),
        ("x".into(), b" 2".to_vec()),
    ];
    let body = b"hi  you\r\n\r\n \r\n".to_vec();
    let mut f = Forge::simple(gen::key(c), "example.com", "sel", &["From", "To", "x"]);
    if f.key.is_rsa() && c.chance(2, 3) {
        f.key = keys::get("eda");
        f.alg = Alg::Ed25519;
    }
    (f.hc, f.bc) = (c.bool(), c.bool());
    f.style = c.below(3);
    if c.bool() {
        f.l = Some(c.below(5));
    }
    if c.bool() {
        f.h.push("X".into());
    }
    let s = f.make(c, &h, &body, None);
    h.insert(1, s);
    let keys: KeyMap = vec![(f.record_name(), f.key)];
    let cfg = c02_config(c, &h);
    let g = genuine(&h, &body, &keys, &cfg).unwrap();
    c02_note(c, "signed", &h, &body);
    c.nontrivial = true;
    let m = mock_of(&keys);
    let _ = m;
    let salt = c.below(64) as usize;
    for i in 0..h.len() {
        for p in 0..h[i].1.len() {
            let mut h2 = h.clone();
            match (p + salt) % 4 {
                0 => h2[i].1[p] ^= 1 << ((p + salt) / 4 % 7),
                1 => {
                    h2[i].1.remove(p);
                }
                2 => h2[i].1.insert(p, b' '),
                _ => h2[i].1.insert(p, b'A'),
            }
            if refm::valid_field_body(&h2[i].1) {
                c.extra_evals += 1;
                ideal(c, &g, &h2, &body, &keys, &cfg).map_err(|mut e| {
                    e.msg = format!("changed byte {p} of field {i} to {:?}: {}", String::from_utf8_lossy(&h2[i].1), e.msg);
                    e
                })?;
            }
        }
    }
    const TAILS: [&[u8]; 9] =
        [b" ", b";", b"\xff", b"\xff;", b"; x=\xc3", b"; n=1", b"\xc3\xa4", b"\r\n ", b"; b=AAAA"];
    for i in 0..h.len() {
        for t in TAILS {
            let mut h2 = h.clone();
            h2[i].1.extend_from_slice(t);
            if !refm::valid_field_body(&h2[i].1) {
                continue;
            }
            c.extra_evals += 1;
            ideal(c, &g, &h2, &body, &keys, &cfg).map_err(|mut e| {
                e.msg = format!("appended {t:?} to field {i}: {}", e.msg);
                e
            })?;
        }
    }
    for p in 0..=body.len() {
        let mut b2 = body.clone();
        match (p + salt) % 4 {
            0 if p < body.len() => b2[p] ^= 1 << ((p + salt) / 4 % 8),
            1 if p < body.len() => {
                b2.remove(p);
            }
            2 => b2.insert(p, b' '),
            _ => b2.insert(p, b'A'),
        }
        c.extra_evals += 1;
        ideal(c, &g, &h, &b2, &keys, &cfg).map_err(|mut e| {
            e.msg = format!("body changed at {p} to {:?}: {}", crate::engine::show(&b2), e.msg);
            e
        })?;
    }
    Ok(())
}

/// Tags of one signature put into the other, headers of one message put into
/// another.
fn c02_exchange(c: &mut Ctx) -> Res {
    let (mut h, mut body, keys, _) = c02_signed(c, 3);
    let cfg = c02_config(c, &h);
    let Some(mut g) = genuine(&h, &body, &keys, &cfg) else { return Ok(()) };
    let idx = sig_indexes(&h);
    c02_note(c, "signed", &h, &body);
    match c.weighted(&[4, 2, 2]) {
        0 => {
            // exchange tags
            let (i, j) = (idx[c.idx(idx.len())], idx[c.idx(idx.len())]);
            let get = |v: &[u8]| refm::tags::parse(std::str::from_utf8(v).unwrap()).unwrap();
            let (mut a, b) = (get(&h[i].1), get(&h[j].1));
            let n = c.range(1, 2);
            for _ in 0..n {
                let t = c.pick(&["b", "bh", "h", "d", "s", "c", "a", "l", "i"]);
                match (a.iter().position(|x| x.0 == t), b.iter().find(|x| x.0 == t)) {
                    (Some(p), Some(x)) => a[p].1 = x.1.clone(),
                    (None, Some(x)) => {
                        let at = c.idx(a.len() + 1);
                        a.insert(at, x.clone())
                    }
                    (Some(p), None) => {
                        a.remove(p);
                    }
                    _ => {}
                }
            }
            h[i].1 = text::render(c, &a, 1, "").into_bytes();
        }
        1 => {
            // the signatures on another message
            let (h2, b2, _, _) = c02_signed(c, 1);
            let h2: Hdrs = h2.into_iter().filter(|x| !refm::eq_nocase(&x.0, "DKIM-Signature")).collect();
            let sigs: Vec<_> = idx.iter().map(|&i| h[i].clone()).collect();
            h = h2;
            scene::insert(c, &mut h, sigs);
            if c.bool() {
                body = b2;
            }
        }
        _ => {
            // a signature over another body; then its b= and bh= are used here
            let b2 = b"another body\r\n".to_vec();
            let plain: Hdrs = h.iter().filter(|x| !refm::eq_nocase(&x.0, "DKIM-Signature")).cloned().collect();
            let (n, k) = keys[0].clone();
            let mut f = text::forge(c, &plain, &b2);
            f.key = k;
            f.alg = gen::alg_for(c, k);
            // at the same name: given by the first signature
            let v = std::str::from_utf8(&h[idx[0]].1).unwrap().to_owned();
            let sig::Parsed::Ok(r) = sig::parse(&v, PRE) else { return Ok(()) };
            (f.d, f.s, f.i, f.l) = (r.d.clone(), r.s.clone(), None, None);
            if !f.record_name().eq_ignore_ascii_case(&n) {
                return Ok(());
            }
            let s = f.make(c, &plain, &b2, None);
            let mut h2 = plain.clone();
            h2.insert(0, s.clone());
            if let Some(x) = genuine(&h2, &b2, &keys, &cfg) {
                g.extend(x);
            }
            h.insert(0, s);
            if c.bool() {
                body = b2;
            }
        }
    }
    c.nontrivial = true;
    c02_note(c, "changed", &h, &body);
    ideal(c, &g, &h, &body, &keys, &cfg)
}

/// Signatures by the right key over data that is not quite right.
fn c02_wrong_data(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 6);
    let body = gen::body(c);
    let mut f = text::forge(c, &h, &body);
    f.l = None;
    if canon::relaxed_unspecified(&body) {
        f.bc = false;
    }
    // make, then sign again over something else
    let (name, v) = f.make(c, &h, &body, None);
    let v = String::from_utf8(v).unwrap();
    let blank = canon::blank_b(&v);
    let right = |hc: bool| {
        let mut d = canon::headers(hc, &h, &f.h);
        d.extend(canon::header(hc, &name, blank.as_bytes()));
        d
    };
    let good = right(f.hc);
    let k = c.below(14);
    let mut alg = f.alg;
    let data: Vec<u8> = match k {
        0 => right(!f.hc),
        1 => [&good[..], b"\r\n"].concat(),
        2 => {
            // b= value not deleted
            let mut d = canon::headers(f.hc, &h, &f.h);
            d.extend(canon::header(f.hc, &name, v.as_bytes()));
            d
        }
        3 => canon::headers(f.hc, &h, &f.h),
        4 => canon::header(f.hc, &name, blank.as_bytes()),
        5 => {
            // own header first
            let mut d = canon::header(f.hc, &name, blank.as_bytes());
            d.extend(b"\r\n");
            d.extend(canon::headers(f.hc, &h, &f.h));
            d
        }
        6 => {
            // top-down selection
            let mut r = h.clone();
            r.reverse();
            let mut d = canon::headers(f.hc, &r, &f.h);
            d.extend(canon::header(f.hc, &name, blank.as_bytes()));
            d
        }
        7 => {
            // message order instead of list order
            let mut s = canon::select(&h, &f.h);
            s.sort();
            let mut d = vec![];
            for i in s {
                d.extend(canon::header(f.hc, &h[i].0, &h[i].1));
                d.extend(b"\r\n");
            }
            d.extend(canon::header(f.hc, &name, blank.as_bytes()));
            d
        }
        8 => {
            // every name at most once
            let mut names: Vec<String> = vec![];
            for n in &f.h {
                if !names.iter().any(|m| refm::eq_nocase(m, n)) {
                    names.push(n.clone());
                }
            }
            let mut d = canon::headers(f.hc, &h, &names);
            d.extend(canon::header(f.hc, &name, blank.as_bytes()));
            d
        }
        9 => {
            // absent fields as empty ones
            let mut d = vec![];
            let mut used: Vec<usize> = vec![];
            for n in &f.h {
                let i = (0..h.len()).rev().find(|i| !used.contains(i) && refm::eq_nocase(&h[*i].0, n));
                match i {
                    Some(i) => {
                        used.push(i);
                        d.extend(canon::header(f.hc, &h[i].0, &h[i].1));
                    }
                    None => d.extend(canon::header(f.hc, n, b"")),
                }
                d.extend(b"\r\n");
            }
            d.extend(canon::header(f.hc, &name, blank.as_bytes()));
            d
        }
        10 => good.to_ascii_lowercase(),
        11 => {
            // bare LF
            good.iter().copied().filter(|&b| b != b'\r').collect()
        }
        12 => {
            if f.key.is_rsa() && PRE {
                alg = if alg == Alg::RsaSha1 { Alg::RsaSha256 } else { Alg::RsaSha1 };
            }
            good.clone()
        }
        _ => {
            // whole value of b= with its tag deleted
            blank.replace("b=", "").into_bytes()
        }
    };
    let b = f.key.sign(alg == Alg::RsaSha1, &alg.hash(&data));
    let tags = refm::tags::parse(&v).unwrap();
    let old = &tags.iter().find(|t| t.0 == "b").unwrap().1;
    let v2 = v.replacen(old.as_str(), &refm::b64_encode(&b), 1);
    let is_good = data == good && alg == f.alg;
    c.class_if(is_good, "same data after all");
    let mut hdrs = h.clone();
    hdrs.insert(0, (name.clone(), v2.into_bytes()));
    c02_note(c, "forged", &hdrs, &body);
    c.nontrivial = !is_good;
    let keys: KeyMap = vec![(f.record_name(), f.key)];
    let res = env::verify(&mock_of(&keys), &hdrs, &body, &env::config(&env::lax()));
    ensure_eq!(res.len(), 1, "number of results");
    // check that only the b= value was replaced
    if let Seen::Sig(b2, _) = bound(&hdrs, 0, &body, &keys, &env::lax()) {
        if b2.data != good || b2.b != b {
            return Ok(());
        }
    } else {
        return Ok(());
    }
    ensure_eq!(
        res[0].status == VerificationStatus::Success,
        is_good,
        "signature over data of kind {k}, status {:?}",
        res[0].status
    );
    Ok(())
}

/// Genuine signatures that state something else as the body hash.
fn c02_wrong_body_hash(c: &mut Ctx) -> Res {
    let h = gen::hdrs(c, 4);
    let mut body = gen::body(c);
    let mut f = text::forge(c, &h, &body);
    if canon::relaxed_unspecified(&body) {
        body = b"x \r\n y\r\n\r\n".to_vec();
    }
    let cb = canon::body(f.bc, &body);
    if f.l.is_some_and(|l| l > cb.len() as u64) {
        f.l = None;
    }
    let cov = &cb[..f.l.map_or(cb.len(), |l| l as usize)];
    let right = f.alg.hash(cov);
    let kind = c.below(14);
    let bh = match kind {
        0 => right.clone(),
        1..=3 => text::wrong_hash(c, &right),
        4 => f.alg.hash(&body),
        5 => f.alg.hash(&canon::body(!f.bc, &body)),
        6 => f.alg.hash(&cb),
        7 => f.alg.hash(&right),
        8 => f.alg.hash(&[cov, b"\r\n"].concat()),
        9 => f.alg.hash(b""),
        10 => f.alg.hash(&cov[..cov.len().saturating_sub(2)]),
        11 => {
            if f.alg == Alg::RsaSha1 {
                refm::sha256(cov)
            } else {
                refm::sha1(cov)
            }
        }
        12 => refm::b64_encode(&right).into_bytes(),
        _ => f.alg.hash(&cov.to_ascii_lowercase()),
    };
    let s = f.make(c, &h, &body, Some(bh.clone()));
    let mut hdrs = h;
    hdrs.insert(0, s);
    c02_note(c, "other body hash", &hdrs, &body);
    c.nontrivial = bh != right;
    let keys: KeyMap = vec![(f.record_name(), f.key)];
    let chunks = gen::chunks(c, &body);
    let res = env::verify_full(&mock_of(&keys), &hdrs, &chunks, &env::config(&env::lax()), false).results.unwrap_or_default();
    ensure_eq!(res.len(), 1, "number of results");
    ensure_eq!(
        res[0].status == VerificationStatus::Success,
        bh == right,
        "body hash of kind {kind}, {} of {} octets, status {:?}",
        bh.len(),
        right.len(),
        res[0].status
    );
    Ok(())
}

/// Signature values that a sloppy check of the padding or length would accept.
fn c02_forged(c: &mut Ctx) -> Res {
    use rsa::{traits::PrivateKeyParts, traits::PublicKeyParts, BigUint};
    let i = c.below(400);
    let key = keys::get(["rsa1024", "rsa1025", "rsa1024e3", "rsa2048", "eda"][(i % 5) as usize]);
    let kind = i / 5 % 40;
    let round = i / 200;
    let h: Hdrs = vec![("From".into(), format!(" m{round}").into_bytes())];
    let body = b"x\r\n";
    let f = Forge::simple(key, "example.com", "sel", &["From"]);
    let (name, v) = f.make(c, &h, body, None);
    let v = String::from_utf8(v).unwrap();
    let mut data = canon::headers(true, &h, &f.h);
    data.extend(canon::header(true, &name, canon::blank_b(&v).as_bytes()));
    let hash = refm::sha256(&data);
    let tags = refm::tags::parse(&v).unwrap();
    let old = refm::b64_decode(&refm::tags::strip_ws(&tags.iter().find(|t| t.0 == "b").unwrap().1)).unwrap();

    let mut want = false;
    let value: Option<Vec<u8>> = if let Some(k) = &key.rsa {
        const D256: &[u8] =
            &[0x30, 0x31, 0x30, 0x0d, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1, 5, 0, 4, 0x20];
        const D256_NONULL: &[u8] =
            &[0x30, 0x2f, 0x30, 0x0b, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1, 4, 0x20];
        const D1: &[u8] = &[0x30, 0x21, 0x30, 9, 6, 5, 0x2b, 0x0e, 3, 2, 0x1a, 5, 0, 4, 0x14];
        let len = (k.n().bits() + 7) / 8;
        let pad = |first: &[u8], fill: u8, t: &[u8]| -> Vec<u8> {
            let mut em = first.to_vec();
            em.resize(len - t.len() - 1, fill);
            em.push(0);
            em.extend(t);
            em
        };
        let t = [D256, &hash].concat();
        let em = match kind {
            0 => {
                want = true;
                pad(&[0, 1], 0xff, &t)
            }
            1 => pad(&[0, 2], 0xff, &t),
            2 => pad(&[0, 0], 0xff, &t),
            3 => pad(&[0, 1], 0xfe, &t),
            4 => pad(&[0, 1], 0, &t),
            5 => pad(&[0, 1], 0xff, &hash),
            6 => pad(&[0, 1], 0xff, &[D256_NONULL, &hash].concat()),
            7 => pad(&[0, 1], 0xff, &[D1, &refm::sha1(&data)].concat()),
            8 => pad(&[0, 1], 0xff, &[D256, &refm::sha256(&hash)[..]].concat()),
            9 => {
                // hash not at the end (Bleichenbacher 2006)
                let mut em = vec![0, 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0];
                em.extend(&t);
                em.resize(len, 0);
                em
            }
            10 => {
                let mut em = pad(&[0, 1], 0xff, &t);
                let n = em.len();
                em[n - 1] ^= 1;
                em
            }
            11 => {
                let mut em = pad(&[0, 1], 0xff, &t);
                em[5] = 0xfe;
                em
            }
            12 => {
                let mut em = pad(&[0, 1], 0xff, &t);
                em[3] = 0;
                em
            }
            13 => vec![0; len],
            14 => {
                let mut em = vec![0; len - hash.len()];
                em.extend(&hash);
                em
            }
            15 => pad(&[0, 1], 0xff, &[D256, &hash[..31]].concat()),
            16 => pad(&[0, 1], 0xff, &[D256, &refm::sha1(&data)].concat()),
            17 => pad(&[0, 1], 0xff, &[&t[..], b"\0"].concat()),
            _ => vec![],
        };
        let sign = |em: &[u8]| {
            let s = BigUint::from_bytes_be(em).modpow(k.d(), k.n()).to_bytes_be();
            let mut o = vec![0; len - s.len()];
            o.extend(s);
            o
        };
        if !em.is_empty() {
            Some(sign(&em))
        } else {
            let s = sign(&pad(&[0, 1], 0xff, &t));
            match kind {
                18 => Some([&[0u8][..], &s].concat()),
                19 => Some([&s[..], &[0]].concat()),
                20 => Some(s[1..].to_vec()),
                21 => Some(s[..len - 1].to_vec()),
                22 => {
                    // s + n: the same number modulo n
                    let x = BigUint::from_bytes_be(&s) + k.n();
                    Some(x.to_bytes_be())
                }
                23 => {
                    let x = k.n() - BigUint::from_bytes_be(&s);
                    Some(x.to_bytes_be())
                }
                24 => Some(vec![0; len]),
                25 => Some([vec![0; len - 1], vec![1]].concat()),
                26 => Some(k.n().to_bytes_be()),
                27 => Some(vec![0xff; len]),
                28 => Some(vec![1]),
                29 => Some(hash.clone()),
                30 => Some(keys::get("rsa1024b").sign(false, &hash)),
                31 => Some(keys::get("eda").sign(false, &hash)),
                32 => Some([&s[..], &s].concat()),
                33 => {
                    let mut s = s;
                    s.reverse();
                    Some(s)
                }
                _ => None,
            }
        }
    } else {
        // Ed25519
        const L: [u8; 32] = [
            0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0,
            0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
        ];
        let s = old.clone();
        match kind {
            0 => {
                want = true;
                Some(s)
            }
            1 => {
                // S + L
                let mut s = s;
                let mut carry = 0u16;
                for i in 0..32 {
                    let x = s[32 + i] as u16 + L[i] as u16 + carry;
                    s[32 + i] = x as u8;
                    carry = x >> 8;
                }
                Some(s)
            }
            2 => Some(vec![0; 64]),
            3 => Some([vec![1], vec![0; 63]].concat()),
            4 => Some(s[..63].to_vec()),
            5 => Some([&s[..], &[0]].concat()),
            6 => Some([&s[32..], &s[..32]].concat()),
            7 => Some(keys::get("edb").sign(false, &hash)),
            8 => {
                // over the data instead of its hash
                Some(key.sign(false, &data))
            }
            9 => Some(key.sign(false, &refm::sha256(&hash))),
            10 => Some(key.sign(false, &refm::sha1(&data))),
            11 => Some(vec![0xff; 64]),
            12 => Some(s[..32].to_vec()),
            k @ 13..=39 => {
                let mut s = s;
                let bit = ((k - 13) * 19 + round * 7) as usize % 512;
                s[bit / 8] ^= 1 << (bit % 8);
                Some(s)
            }
            _ => None,
        }
    };
    let Some(value) = value else { return Ok(()) };
    if kind == 30 && key.name == "rsa1024b" {
        return Ok(());
    }
    let v2 = v.replacen(tags.iter().find(|t| t.0 == "b").unwrap().1.as_str(), &refm::b64_encode(&value), 1);
    let hdrs: Hdrs = vec![(name, v2.into_bytes()), h[0].clone()];
    c02_note(c, "forged", &hdrs, body);
    c.nontrivial = true;
    let keys: KeyMap = vec![(f.record_name(), f.key)];
    let res = env::verify(&mock_of(&keys), &hdrs, body, &env::config(&env::lax()));
    ensure_eq!(res.len(), 1, "number of results");
    ensure_eq!(
        res[0].status == VerificationStatus::Success,
        want,
        "forged signature value of kind {kind} with key {}, status {:?}",
        key.name,
        res[0].status
    );
    Ok(())
}

