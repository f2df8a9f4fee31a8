//! C04 to C07: canonicalization, hashing, chunking, limits.

use super::*;
use crate::{
    engine::{facet, show, table, Ctx, Res},
    ensure, ensure_eq,
    env::{self, Mock},
    gen::{self, v_canon},
    refm::{self, canon, verify::RConfig, Hdrs},
    text,
};
use viadkim::{
    canonicalize::{canonicalize_header, canonicalize_headers, BodyCanonicalizer},
    message_hash::{compute_data_hash, BodyHashError, BodyHasherBuilder, BodyHasherKey, BodyHasherStance},
    verifier::{PolicyError, VerificationError, VerificationStatus},
};

pub fn canon_chunks(relaxed: bool, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut b = BodyCanonicalizer::new(v_canon(relaxed));
    let mut o = vec![];
    for c in chunks {
        o.extend(b.canonicalize_chunk(c));
    }
    o.extend(b.finish());
    o
}

// ---------------------------------------------------------------- C04

pub static C04: Prop = Prop {
    id: "C04",
    rule: "Bodies are token sequences over CRLF, lone CR and LF, space, tab, NUL, 8-bit and ordinary bytes, \
           cut into chunks; and every string up to length 7 over {CR, LF, SP, TAB, a}. Non-trivial: the \
           canonical form differs from the body. Oracle: whole-input reference canonicalization.",
    facets: &[
        table("exhaustive", 98_000, c04_exhaustive),
        facet("random", 150_000, 3_000_000, c04_random),
        facet("large", 600, 15_000, |c| large(c, c04_random)),
    ],
    pre: false,
};

fn c04_check(c: &mut Ctx, body: &[u8], chunks: &[Vec<u8>]) -> Res {
    for relaxed in [false, true] {
        if relaxed && canon::relaxed_unspecified(body) {
            c.class("unspecified relaxed form, not judged");
            continue;
        }
        let want = canon::body(relaxed, body);
        let got = canon_chunks(relaxed, chunks);
        if want != body {
            c.nontrivial = true;
        }
        ensure!(
            got == want,
            "{} body canonicalization of {:?}\n   got      {:?}\n   expected {:?}",
            if relaxed { "relaxed" } else { "simple" },
            show(body),
            show(&got),
            show(&want)
        );
        c.class_if(relaxed && want.is_empty() && !body.is_empty(), "relaxed form is empty");
        c.class_if(!relaxed && want == b"\r\n" && !body.is_empty(), "simple form is a lone CRLF");
    }
    Ok(())
}

fn c04_exhaustive(c: &mut Ctx) -> Res {
    // lengths 0 to 7 over 5 symbols: 97656 strings
    let mut i = c.below(98_000);
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= 5;
        len += 1;
    }
    if len > 7 {
        return Ok(());
    }
    let mut body = vec![];
    for _ in 0..len {
        body.push(b"a\r\n \t"[(i % 5) as usize]);
        i /= 5;
    }
    c.note(|| format!("body {:?}", show(&body)));
    c.id(&body);
    c04_check(c, &body, &[body.clone()])?;
    let bytes: Vec<Vec<u8>> = body.chunks(1).map(|x| x.to_vec()).collect();
    c.extra_evals += 1;
    c04_check(c, &body, &bytes)
}

fn c04_random(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let ch = gen::chunks(c, &body);
    c.note(|| format!("body {:?} in {} chunks", show(&body), ch.len()));
    c.id(&body);
    c.class_if(body.ends_with(b"\r\n"), "ends with CRLF");
    c.class_if(!body.ends_with(b"\r\n"), "no final CRLF");
    c04_check(c, &body, &ch)
}

// ---------------------------------------------------------------- C05

pub static C05: Prop = Prop {
    id: "C05",
    rule: "Random bodies (as for C04) cut in two random ways, with one to ten body hash requests of random \
           length limit, hash and canonicalization. Non-trivial: the two divisions differ and the body has at \
           least 2 bytes. Oracle: metamorphic, result of one division equals that of the other, and of each \
           request alone.",
    facets: &[
        facet("canonicalizer", 60_000, 1_500_000, c05_canon),
        facet("hasher", 60_000, 1_500_000, c05_hasher),
        facet("signer and verifier", 3_000, 60_000, c05_high),
        facet("large", 300, 10_000, |c| large(c, c05_hasher)),
        facet("large, signer and verifier", 100, 4_000, |c| large(c, c05_high)),
    ],
    pre: true,
};

fn c05_canon(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let a = gen::chunks(c, &body);
    let b = gen::chunks(c, &body);
    c.id(&body);
    c.nontrivial = a != b && body.len() > 1;
    c.note(|| format!("body {:?} chunks {} vs {}", show(&body), a.len(), b.len()));
    for r in [false, true] {
        let (x, y, z) = (canon_chunks(r, &a), canon_chunks(r, &b), canon_chunks(r, &[body.clone()]));
        ensure!(
            x == y && y == z,
            "canonical body (relaxed: {r}) depends on chunks: {:?} / {:?} / whole {:?}, body {:?}",
            show(&x),
            show(&y),
            show(&z),
            show(&body)
        );
    }
    Ok(())
}

fn hash_algs() -> Vec<HashAlgorithm> {
    HashAlgorithm::all()
}

pub fn hkey(c: &mut Ctx, body: &[u8]) -> BodyHasherKey {
    let relaxed = c.bool();
    let len = canon::body(relaxed, body).len();
    let n = match c.weighted(&[3, 3, 3, 1, 1]) {
        0 => None,
        1 => Some(len),
        2 => Some(c.idx(len + 1)),
        3 => Some(len + 1 + c.idx(3)),
        _ => Some(c.pick_copy(&[0, 1, usize::MAX, len.saturating_sub(1), len.saturating_sub(2)])),
    };
    let algs = hash_algs();
    let alg = algs[c.idx(algs.len())];
    (n, alg, v_canon(relaxed))
}

#[allow(clippy::type_complexity)]
fn run_hasher(
    keys: &[BodyHasherKey],
    trunc: bool,
    chunks: &[Vec<u8>],
    obey: bool,
) -> (Vec<Option<Result<(Vec<u8>, usize), BodyHashError>>>, Vec<BodyHasherStance>) {
    let mut b = BodyHasherBuilder::new(trunc);
    for k in keys {
        b.register_canonicalization(k.0, k.1, k.2);
    }
    let mut h = b.build();
    let mut st = vec![];
    for c in chunks {
        let s = h.hash_chunk(c);
        st.push(s);
        if obey && s == BodyHasherStance::Done {
            break;
        }
    }
    let r = h.finish();
    (
        keys.iter()
            .map(|k| {
                r.get(k).map(|x| match x {
                    Ok((h, n)) => Ok((h.to_vec(), *n)),
                    Err(e) => Err(*e),
                })
            })
            .collect(),
        st,
    )
}

fn c05_hasher(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let n = c.range(1, 10);
    let keys: Vec<_> = (0..n).map(|_| hkey(c, &body)).collect();
    let a = gen::chunks(c, &body);
    let b = gen::chunks(c, &body);
    let trunc = c.bool();
    c.id(&body);
    c.id(format!("{keys:?}"));
    c.nontrivial = a != b && body.len() > 1;
    c.class_if(n > 1, "several requests");
    c.note(|| format!("body {:?} keys {keys:?} fail_on_truncation={trunc}", show(&body)));
    let (x, _) = run_hasher(&keys, trunc, &a, false);
    let (y, _) = run_hasher(&keys, trunc, &b, false);
    ensure_eq!(x, y, "body hash results depend on the chunks, body {:?}", show(&body));
    let (o, _) = run_hasher(&keys, trunc, &b, true);
    ensure_eq!(o, y, "stopping when told so changes body hash results, body {:?}", show(&body));
    for (i, k) in keys.iter().enumerate() {
        let (alone, _) = run_hasher(&[*k], trunc, &[body.clone()], false);
        ensure_eq!(x[i], alone[0], "body hash result of {k:?} depends on other requests, body {:?}", show(&body));
        c.extra_evals += 1;
    }
    Ok(())
}

fn c05_high(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let h = gen::hdrs(c, 4);
    let n = c.range(1, 3);
    let mut reqs: Vec<_> = (0..n)
        .map(|_| gen::req(c, &h, |r| canon::body(r, &body).len() as u64))
        .collect();
    for r in &mut reqs {
        // only a fixed time gives comparable signatures
        if r.time == gen::TS::Now {
            r.time = gen::TS::None;
        }
        if r.time == gen::TS::None {
            r.valid = None;
        }
    }
    let a = gen::chunks(c, &body);
    let b = gen::chunks(c, &body);
    c.id(&body);
    c.id(format!("{reqs:?}"));
    c.nontrivial = a != b && body.len() > 1;
    c.note(|| format!("body {:?} {reqs:?}", show(&body)));
    let x = env::sign(&h, &reqs, &a);
    let y = env::sign(&h, &reqs, &b);
    ensure!(x == y, "signatures depend on the chunks: {x:?} vs {y:?}");
    let Ok(x) = x else { return crate::engine::fail("request refused") };
    for (i, r) in reqs.iter().enumerate() {
        let alone = env::sign(&h, &[r.clone()], &a).map(|mut v| v.remove(0));
        ensure!(
            alone.as_ref() == Ok(&x[i]),
            "signature {i} depends on other requests: {:?} alone {alone:?}",
            x[i]
        );
    }
    // verification
    let mut signed = h.clone();
    for s in x.iter().flatten() {
        signed.insert(0, (s.header_name.clone(), s.header_value.clone().into_bytes()));
    }
    if c.bool() {
        let f = text::forge(c, &h, &body).make(c, &h, &body, None);
        signed.insert(0, f);
    }
    let mock = Mock::records(reqs.iter().map(|r| r.record()));
    let cfg = RConfig { forbid_unsigned_content: c.bool(), ..env::lax() };
    let cfg = env::config(&cfg);
    let vx = env::verify_full(&mock, &signed, &a, &cfg, false).results;
    let vy = env::verify_full(&mock, &signed, &b, &cfg, false).results;
    ensure!(vx == vy, "verification results depend on the chunks: {vx:?} vs {vy:?}");
    let vo = env::verify_full(&mock, &signed, &b, &cfg, true).results;
    ensure!(vo == vy, "stopping when told so changes verification results: {vo:?} vs {vy:?}");
    Ok(())
}

// ---------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06",
    rule: "Random bodies and chunk divisions with length limits from 0 past the canonical length, at the body \
           hasher, the signer and the verifier, with and without forbidding unsigned content. Non-trivial: a \
           limit is given. Oracle: prefix of the reference canonical body, standard hash function.",
    facets: &[
        facet("hasher", 80_000, 2_000_000, c06_hasher),
        facet("every limit", 3_000, 60_000, c06_every),
        facet("signer", 6_000, 100_000, c06_signer),
        facet("verifier", 6_000, 100_000, c06_verifier),
        facet("large, hasher", 300, 10_000, |c| large(c, c06_hasher)),
        facet("large, signer", 200, 6_000, |c| large(c, c06_signer)),
        facet("large, verifier", 300, 8_000, |c| large(c, c06_verifier)),
    ],
    pre: true,
};

fn hash(a: HashAlgorithm, b: &[u8]) -> Vec<u8> {
    if super::hash_name(a) == "sha1" { refm::sha1(b) } else { refm::sha256(b) }
}

fn c06_expect(
    k: &BodyHasherKey,
    trunc: bool,
    body: &[u8],
) -> Result<(Vec<u8>, usize), BodyHashError> {
    let cb = canon::body(k.2 == CA::Relaxed, body);
    match k.0 {
        None => Ok((hash(k.1, &cb), cb.len())),
        Some(n) if n > cb.len() => Err(BodyHashError::InsufficientInput),
        Some(n) if n < cb.len() && trunc => Err(BodyHashError::InputTruncated),
        Some(n) => Ok((hash(k.1, &cb[..n]), n)),
    }
}

fn c06_hasher(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let n = c.range(1, 4);
    let keys: Vec<_> = (0..n).map(|_| hkey(c, &body)).collect();
    let ch = gen::chunks(c, &body);
    let trunc = c.bool();
    let obey = c.bool();
    c.id(&body);
    c.id(format!("{keys:?}{trunc}"));
    c.nontrivial = keys.iter().any(|k| k.0.is_some());
    c.note(|| format!("body {:?} keys {keys:?} fail_on_truncation={trunc} obey={obey}", show(&body)));
    let (r, st) = run_hasher(&keys, trunc, &ch, obey);
    c.class_if(st.contains(&BodyHasherStance::Done), "told that no more input is needed");
    for (k, got) in keys.iter().zip(&r) {
        if k.2 == CA::Relaxed && canon::relaxed_unspecified(&body) {
            c.class("unspecified relaxed form, not judged");
            continue;
        }
        let want = Some(c06_expect(k, trunc, &body));
        c.class_if(matches!(want, Some(Err(BodyHashError::InsufficientInput))), "insufficient");
        c.class_if(matches!(want, Some(Err(BodyHashError::InputTruncated))), "truncated");
        c.class_if(matches!(want, Some(Ok(_))) && k.0.is_some(), "limited");
        ensure_eq!(*got, want, "body hash for {k:?}, fail_on_truncation={trunc}, body {:?}", show(&body));
    }
    // once done, always done; and never done while a result needs all input
    if let Some(p) = st.iter().position(|s| *s == BodyHasherStance::Done) {
        ensure!(
            keys.iter().all(|k| k.0.is_some()),
            "told that no more input is needed although an unlimited hash was requested: {keys:?}"
        );
        ensure!(
            st[p..].iter().all(|s| *s == BodyHasherStance::Done),
            "stance went back from Done"
        );
    }
    Ok(())
}

fn c06_every(c: &mut Ctx) -> Res {
    let mut body = gen::body(c);
    body.truncate(40);
    let relaxed = c.bool();
    if relaxed && canon::relaxed_unspecified(&body) {
        return Ok(());
    }
    let trunc = c.bool();
    let ch = gen::chunks(c, &body);
    c.id(&body);
    c.nontrivial = true;
    c.note(|| format!("all limits for body {:?} relaxed={relaxed}", show(&body)));
    let len = canon::body(relaxed, &body).len();
    for n in 0..len + 3 {
        let k = (Some(n), HashAlgorithm::Sha256, v_canon(relaxed));
        let (r, _) = run_hasher(&[k], trunc, &ch, false);
        ensure_eq!(
            r[0],
            Some(c06_expect(&k, trunc, &body)),
            "limit {n}, relaxed={relaxed}, fail_on_truncation={trunc}, body {:?}",
            show(&body)
        );
        c.extra_evals += 1;
    }
    Ok(())
}

fn c06_signer(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let h = gen::hdrs(c, 2);
    let n = c.range(1, 3);
    let reqs: Vec<_> = (0..n)
        .map(|_| {
            let mut r = gen::plain_req(c, &h);
            r.length = match c.weighted(&[1, 2, 5]) {
                0 => gen::BL::None,
                1 => gen::BL::Content,
                _ => {
                    let len = canon::body(r.bc, &body).len() as u64;
                    gen::BL::Exact(match c.below(4) {
                        0 => len,
                        1 => c.below(len + 1),
                        2 => len + 1,
                        _ => c.pick_copy(&[0, 1, len.saturating_sub(1), u64::MAX, 1 << 40]),
                    })
                }
            };
            r
        })
        .collect();
    let ch = gen::chunks(c, &body);
    let obey = c.bool();
    c.id(&body);
    c.id(format!("{reqs:?}"));
    c.note(|| format!("body {:?} {:?}", show(&body), reqs.iter().map(|r| (r.length, r.bc)).collect::<Vec<_>>()));
    let out = match env::sign_obey(&h, &reqs, &ch, obey) {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("request refused: {e:?}")),
    };
    for (r, o) in reqs.iter().zip(&out) {
        if r.bc && canon::relaxed_unspecified(&body) {
            continue;
        }
        let cb = canon::body(r.bc, &body);
        c.nontrivial |= r.length != gen::BL::None;
        let want = match r.length {
            gen::BL::None => Some((None, &cb[..])),
            gen::BL::Content => Some((Some(cb.len() as u64), &cb[..])),
            gen::BL::Exact(n) if n > cb.len() as u64 => None,
            gen::BL::Exact(n) => Some((Some(n), &cb[..n as usize])),
        };
        match (want, o) {
            (None, Err(viadkim::SigningError::InsufficientContent)) => c.class("insufficient content"),
            (Some((l, data)), Ok(s)) => {
                ensure_eq!(s.signature.body_length, l, "l= for {:?}, body {:?}", r.length, show(&body));
                ensure_eq!(
                    s.signature.body_hash.to_vec(),
                    r.alg.hash(data),
                    "bh= for {:?} relaxed={}, body {:?}",
                    r.length,
                    r.bc,
                    show(&body)
                );
                c.class("signed");
            }
            (w, o) => {
                return crate::engine::fail(format!(
                    "body length {:?} of canonical length {}: expected {}, got {o:?}",
                    r.length,
                    cb.len(),
                    if w.is_some() { "success" } else { "InsufficientContent" }
                ))
            }
        }
    }
    Ok(())
}

fn c06_verifier(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let h: Hdrs = vec![("From".into(), b" a@example.com".to_vec())];
    let mut f = text::Forge::simple(crate::keys::get("eda"), "example.com", "sel", &["From"]);
    f.bc = c.bool();
    if f.bc && canon::relaxed_unspecified(&body) {
        return Ok(());
    }
    let cb = canon::body(f.bc, &body);
    let len = cb.len() as u64;
    f.l = match c.weighted(&[1, 3, 3, 3, 2]) {
        0 => None,
        1 => Some(len),
        2 => Some(c.below(len + 1)),
        3 => Some(len + 1 + c.below(3)),
        _ => Some(c.pick_copy(&[0, 1, len.saturating_sub(1), u64::MAX, 1 << 32])),
    };
    let sig = f.make(c, &h, &body, None);
    let mut hs = h.clone();
    hs.insert(0, sig);
    let forbid = c.bool();
    let other = c.chance(1, 4);
    if other {
        // another signature, that covers everything
        let mut g = f.clone();
        g.l = None;
        g.bc = !f.bc;
        let s = g.make(c, &h, &body, None);
        hs.push(s);
    }
    let ch = gen::chunks(c, &body);
    let obey = c.bool();
    c.nontrivial = f.l.is_some();
    c.id(&body);
    c.id(format!("{:?}{forbid}", f.l));
    c.note(|| format!("body {:?} (canonical length {len}) l={:?} forbid={forbid} obey={obey}", show(&body), f.l));
    let cfg = RConfig { forbid_unsigned_content: forbid, ..env::lax() };
    let run = env::verify_full(&Mock::records([f.record()]), &hs, &ch, &env::config(&cfg), obey);
    let st = &run.results.as_ref().unwrap()[0].status;
    let want = match f.l {
        Some(l) if l > len => VerificationStatus::Failure(VerificationError::InsufficientContent),
        Some(l) if l < len && forbid => {
            VerificationStatus::Failure(VerificationError::Policy(PolicyError::UnsignedContent))
        }
        _ => VerificationStatus::Success,
    };
    c.class(match want {
        VerificationStatus::Success => "success",
        VerificationStatus::Failure(VerificationError::InsufficientContent) => "insufficient content",
        _ => "unsigned content",
    });
    ensure_eq!(
        *st,
        want,
        "l={:?}, canonical length {len}, forbid_unsigned_content={forbid}, body {:?}, in {} chunks, obeying stance: {obey}",
        f.l,
        show(&body),
        ch.len()
    );
    Ok(())
}

// ---------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    rule: "Random headers of valid field names and bodies (names from a small set with case variants, so that \
           names repeat) and random lists of names. Non-trivial: some name occurs more than once in the header \
           or the list. Oracle: reference selection and canonicalization; data hash over both.",
    facets: &[
        facet("fields", 60_000, 1_500_000, c07_field),
        facet("selection", 80_000, 2_000_000, c07_select),
        facet("data hash", 30_000, 600_000, c07_data_hash),
        facet("large, selection", 300, 10_000, |c| large(c, c07_select)),
        facet("large, data hash", 300, 10_000, |c| large(c, c07_data_hash)),
    ],
    pre: true,
};

fn c07_field(c: &mut Ctx) -> Res {
    let name = gen::field_name(c);
    let value = gen::field_body(c);
    c.id(&name);
    c.id(&value);
    c.note(|| format!("{name}:{:?}", show(&value)));
    for relaxed in [false, true] {
        let mut got = vec![];
        canonicalize_header(&mut got, v_canon(relaxed), &name, &value);
        let want = canon::header(relaxed, &name, &value);
        c.nontrivial |= relaxed && want != canon::header(false, &name, &value);
        ensure!(
            got == want,
            "header canonicalization (relaxed: {relaxed}) of {name}:{:?}\n   got      {:?}\n   expected {:?}",
            show(&value),
            show(&got),
            show(&want)
        );
    }
    Ok(())
}

fn sel_case(c: &mut Ctx) -> (Hdrs, Vec<String>) {
    let h = if !c.large && c.chance(2, 3) { gen::small_hdrs(c, 8) } else { gen::hdrs(c, 8) };
    let n = if c.large && c.bool() { gen::threshold(c, 700) } else { c.range(0, 10) };
    let names: Vec<String> = (0..n)
        .map(|_| match c.weighted(&[6, 2]) {
            0 => {
                let i = c.idx(h.len());
                gen::case_mix(c, &h[i].0)
            }
            _ => gen::field_name(c),
        })
        .collect();
    (h, names)
}

fn dup(v: &[String]) -> bool {
    (0..v.len()).any(|i| v[..i].iter().any(|x| refm::eq_nocase(x, &v[i])))
}

fn c07_select(c: &mut Ctx) -> Res {
    let (h, names) = sel_case(c);
    c.id(format!("{h:?}{names:?}"));
    c.note(|| format!("header {:?} list {names:?}", h.iter().map(|x| &x.0).collect::<Vec<_>>()));
    let hn: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    c.nontrivial = dup(&names) || dup(&hn);
    let vh = env::headers(&h);
    for relaxed in [false, true] {
        let got = canonicalize_headers(v_canon(relaxed), &vh, &env::names(&names));
        let want = canon::headers(relaxed, &h, &names);
        ensure!(
            got == want,
            "canonical headers (relaxed: {relaxed}) for {names:?} of {h:?}\n   got      {:?}\n   expected {:?}",
            show(&got),
            show(&want)
        );
    }
    Ok(())
}

fn c07_data_hash(c: &mut Ctx) -> Res {
    let (h, names) = sel_case(c);
    let relaxed = c.bool();
    let dn = gen::case_mix(c, "DKIM-Signature");
    let dv = loop {
        let v = gen::field_body(c);
        if let Ok(s) = String::from_utf8(v) {
            break s;
        }
        // shrinks towards an empty value
        if c.t.rec.len() > 3000 {
            break String::new();
        }
    };
    let algs = hash_algs();
    let alg = algs[c.idx(algs.len())];
    c.id(format!("{h:?}{names:?}{dv}"));
    let hn: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    c.nontrivial = dup(&names) || dup(&hn);
    c.note(|| format!("relaxed={relaxed} names {names:?} of {h:?} with {dn}:{dv:?}"));
    let got = compute_data_hash(alg, v_canon(relaxed), &env::headers(&h), &env::names(&names), &dn, &dv);
    let mut data = canon::headers(relaxed, &h, &names);
    data.extend(canon::header(relaxed, &dn, dv.as_bytes()));
    ensure_eq!(got.to_vec(), hash(alg, &data), "data hash of {:?}", show(&data));
    Ok(())
}

