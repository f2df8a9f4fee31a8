//! C31: processing time stays in proportion to the input.

use super::{memory::long_text, *};
use crate::{
    engine::{facet, show, Ctx, Failure, Res},
    ensure,
    env::{self, Mock},
    gen,
    refm::Hdrs,
    scene,
    text::Forge,
};
use viadkim::{
    canonicalize::{self, BodyCanonicalizer},
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::BodyHasherBuilder,
    quoted_printable,
    signature::{DomainName, Identity, Selector},
    signer::Signer,
    verifier::Verifier,
};

pub static C31: Prop = Prop {
    id: "C31",
    rule: "Texts, headers, lists of names, signatures, and bodies of up to some 300 KB of a repeated pattern or made of \
           very many small parts, parsed, decoded, encoded, canonicalized, hashed, verified and signed. Non-trivial: input \
           of at least 20 KB. Oracle: the processor time used, counted for the thread, against a limit proportional to \
           the size of the input (for the selection of header fields, to names listed times header fields), with a margin \
           of more than ten times what is used; a time beyond it must show three times.",
    facets: &[
        facet("texts", 2_000, 40_000, c31_texts),
        facet("names", 2_000, 40_000, c31_names),
        facet("headers", 1_500, 30_000, c31_headers),
        facet("body", 1_500, 30_000, c31_body),
        facet("verification", 1_200, 24_000, c31_verify),
        facet("signing", 1_000, 20_000, c31_sign),
    ],
    pre: true,
};

/// The processor time this thread has used, in nanoseconds.
fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: writes to the given struct only
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// Nanoseconds for each octet of input, and beside.
const EACH: u64 = if cfg!(debug_assertions) { 1_600 } else { 800 };
const BESIDE: u64 = 50_000_000;
/// For each header field looked at for a listed name.
const LOOK: u64 = 120;

/// Runs it within the time allowed for so much input; more counts only if it does so again and again.
fn timed<T>(what: &str, len: usize, extra: u64, f: impl Fn() -> T) -> Result<T, Failure> {
    let most = BESIDE + EACH * len as u64 + extra;
    let mut seen = vec![];
    loop {
        let t = now();
        let r = f();
        let t = now() - t;
        if std::env::var("RATIO").is_ok() {
            eprintln!("RATIO {:.3} {what} {len} {extra} {:.1} ms", t as f64 / most as f64, t as f64 / 1e6);
        }
        if t <= most {
            return Ok(r);
        }
        seen.push(t / 1_000_000);
        ensure!(
            seen.len() < 3 && t < 10 * most,
            "{what}: an input of {len} octets takes {seen:?} ms of processor time, more than {} ms",
            most / 1_000_000
        );
    }
}

/// Debug assertions look at what remains of the input, again and again.
const MAX: usize = if cfg!(debug_assertions) { 60_000 } else { 300_000 };

fn c31_texts(c: &mut Ctx) -> Res {
    c.large = true;
    let s = long_text(c, MAX);
    let n = s.len();
    c.id(&s);
    c.note(|| show(s.as_bytes()));
    c.nontrivial = n >= 20_000;
    c.extra_evals += 8;
    timed("parsing a signature", n, 0, || drop(s.parse::<DkimSignature>()))?;
    timed("parsing a record", n, 0, || drop(s.parse::<DkimKeyRecord>()))?;
    timed("decoding Quoted-Printable", n, 0, || drop(quoted_printable::decode(&s)))?;
    timed("encoding Quoted-Printable", n, 0, || quoted_printable::encode(s.as_bytes(), Some('|')))?;
    timed("decoding Base64", n, 0, || drop(viadkim::decode_base64(&s)))?;
    timed("encoding Base64", n, 0, || viadkim::encode_base64(&s))?;
    timed("parsing a header", n, 0, || drop(s.parse::<HeaderFields>()))?;
    let t = s.replace(';', "\r\n").replace('=', ":");
    timed("parsing a header", n, 0, || drop(t.parse::<HeaderFields>()))?;
    timed("making a header field", n, 0, || drop(FieldBody::new(s.as_bytes())))?;
    // one field of very many lines
    let line = c.pick(&["a", " a", "ab=c;", "\u{e4}", "a very long line of the field, repeated"]);
    let end = c.pick(&["\r\n ", "\n\t", "\r\n \r\n ", "\r\n\t "]);
    let t = format!("A: a{}\r\nB: b", format!("{end}{line}").repeat(c.range(1, MAX) / (line.len() + end.len())));
    c.id(&t);
    timed("parsing a header of one field", t.len(), 0, || drop(t.parse::<HeaderFields>()))?;
    timed("making a header field of lines", t.len(), 0, || drop(FieldBody::new(&t.as_bytes()[2..])))?;
    Ok(())
}

fn c31_names(c: &mut Ctx) -> Res {
    let unit = c.pick(&["a.", "a", "xn--a-.", "\u{e4}.", "\u{e4}", "\u{6f22}", "-", "_a.", "0.", "\\\"", "\\", "@", ".", "xn--", "A\u{308}", "\u{301}"]);
    let run = unit.repeat((c.range(1, 100_000) / unit.len()).max(1));
    let s = match c.below(5) {
        0 => run,
        1 => format!("{run}com"),
        2 => format!("\"{run}\"@example.com"),
        3 => format!("{run}@example.com"),
        _ => format!("a@{run}com"),
    };
    let n = s.len();
    c.id(&s);
    c.note(|| show(s.as_bytes()));
    c.nontrivial = n >= 20_000;
    c.extra_evals += 3;
    timed("reading a domain name", n, 0, || drop(DomainName::new(&*s)))?;
    timed("reading a selector", n, 0, || drop(Selector::new(&*s)))?;
    timed("reading an identity", n, 0, || drop(Identity::new(&s)))?;
    timed("reading a field name", n, 0, || drop(FieldName::new(&*s)))?;
    Ok(())
}

/// A header of many fields or long ones, with a From field.
fn header(c: &mut Ctx, max: usize) -> Hdrs {
    let mut h: Hdrs = vec![];
    let unit = c.pick(&["a", " ", " b", "\r\n c", "\t", "\u{e4}", "=", ";", "\r\n\t"]);
    let each = match c.below(4) {
        0 => c.range(1, 20),
        1 => c.range(1, 300),
        2 => c.range(300, 5_000),
        _ => c.range(5_000, 100_000),
    };
    let len = c.range(1_000, max);
    let distinct = c.bool();
    for i in 0..(len / (each + 10)).clamp(1, 6_000) {
        let v = format!(" a{}a", unit.repeat(each / unit.len()));
        // no blank lines
        let v = if FieldBody::new(v.as_bytes()).is_ok() { v } else { format!(" a{}", "b\r\n c".repeat(each / 6)) };
        let name = if distinct { format!("X-{i}") } else { c.pick(&["Received", "X", "from", "DKIM-Signature"]).into() };
        h.push((name, v.into_bytes()));
    }
    let at = c.range(0, h.len());
    h.insert(at, ("From".into(), b" me".to_vec()));
    h
}

fn size(h: &Hdrs) -> usize {
    h.iter().map(|x| x.0.len() + x.1.len() + 4).sum()
}

fn listed(c: &mut Ctx, h: &Hdrs, max: usize) -> Vec<String> {
    let mut v = vec!["From".to_owned()];
    for _ in 0..c.range(0, max) {
        v.push(match c.below(4) {
            0 => "X".into(),
            1 => c.pick(&["Received", "From", "absent"]).into(),
            _ => h[c.idx(h.len())].0.clone(),
        });
    }
    v
}

fn c31_headers(c: &mut Ctx) -> Res {
    let h = header(c, MAX);
    let most = c.pick_copy(&[300, 300, 300, 3_000]);
    let names = listed(c, &h, most);
    let n = size(&h);
    let looks = LOOK * (names.len() * h.len()) as u64;
    let sel: usize = names.iter().map(|n| n.len()).sum();
    c.id(format!("{n}{:?}{names:?}", h.last()));
    c.note(|| format!("{} fields of {n} octets, such as {:?}: {}; {} names", h.len(), h[0].0, show(&h[0].1), names.len()));
    c.nontrivial = n >= 20_000;
    c.extra_evals += 5;
    let hs = env::headers(&h);
    let list = env::names(&names);
    for relaxed in [false, true] {
        timed("canonicalizing a header", n + sel, looks, || {
            canonicalize::canonicalize_headers(gen::v_canon(relaxed), &hs, &list)
        })?;
    }
    timed("collecting header fields", n, 0, || HeaderFields::from_vec(h.clone()).unwrap())?;
    let text: String = h.iter().map(|(n, v)| format!("{n}:{}\r\n", String::from_utf8_lossy(v))).collect();
    timed("parsing a header", text.len(), 0, || drop(text.parse::<HeaderFields>()))?;
    timed("selecting header fields", n, 0, || {
        viadkim::signer::select_headers(&hs, |n| n.as_ref().len() < 10).count()
    })?;
    Ok(())
}

fn c31_body(c: &mut Ctx) -> Res {
    let mut unit = vec![];
    for _ in 0..c.range(1, 4) {
        gen::body_token(c, &mut unit);
    }
    if unit.is_empty() {
        unit.push(b' ');
    }
    let len = c.range(1_000, 400_000);
    let body: Vec<u8> = unit.iter().copied().cycle().take(len).collect();
    let step = match c.below(4) {
        0 => c.range(1, 3),
        1 => c.range(3, 100),
        2 => c.range(100, 10_000),
        _ => len,
    };
    let relaxed = c.bool();
    let limits: Vec<Option<usize>> = (0..c.range(1, 4)).map(|_| c.bool().then(|| c.range(0, 2 * len))).collect();
    let strict = c.bool();
    c.id(format!("{unit:?}{len}{step}{relaxed}{limits:?}"));
    c.note(|| format!("{len} octets of {:?} in chunks of {step}, relaxed: {relaxed}, limits {limits:?}", show(&unit)));
    c.nontrivial = len >= 20_000;
    c.extra_evals += 1;
    // something for each chunk
    let chunks = (len / step) as u64 * 3_000;
    timed("canonicalizing a body", len, chunks, || {
        let mut k = BodyCanonicalizer::new(gen::v_canon(relaxed));
        let mut n = 0;
        for x in body.chunks(step) {
            n += k.canonicalize_chunk(x).len();
        }
        n + k.finish().len()
    })?;
    let times = limits.len() as u64;
    timed("hashing a body", len, times * (chunks + len as u64 * 200), || {
        let mut b = BodyHasherBuilder::new(strict);
        for l in &limits {
            b.register_canonicalization(*l, viadkim::crypto::HashAlgorithm::Sha256, gen::v_canon(relaxed));
        }
        let mut b = b.build();
        for x in body.chunks(step) {
            let _ = b.hash_chunk(x);
        }
        b.finish()
    })?;
    Ok(())
}

fn c31_verify(c: &mut Ctx) -> Res {
    let mut h = header(c, MAX / 2);
    let n_sigs = c.range(1, 4);
    let mut recs = vec![];
    let mut looks = 0;
    let mut sel = 0;
    for _ in 0..n_sigs {
        let mut f = Forge::simple(crate::keys::get(c.pick(&["eda", "edb", "rsa1024"])), "example.com", "sel", &[]);
        f.s = c.pick(&["sel", "s2", "s3"]).into();
        let most = c.pick_copy(&[300, 300, 3_000]);
        f.h = listed(c, &h, most);
        f.hc = c.bool();
        looks += LOOK * (f.h.len() * (h.len() + n_sigs)) as u64;
        sel += f.h.iter().map(|x| x.len() + 1).sum::<usize>();
        match c.below(4) {
            0 => {
                let most = c.pick_copy(&[3_000, 3_000, 20_000]);
                for i in 0..c.range(1, most) {
                    f.ext.push((format!("x{i}"), c.pick(&["1", "", "a b"]).into()));
                }
            }
            1 => f.ext.push(("z".into(), "a:b|".repeat(c.range(0, 10_000)) + "a:b")),
            _ => {}
        }
        sel += f.ext.iter().map(|x| x.0.len() + x.1.len() + 4).sum::<usize>();
        let (_, v) = f.make(c, &h, b"hi", None);
        let v = if c.chance(1, 4) { scene::damage(c, &v) } else { v };
        if FieldBody::new(&*v).is_err() {
            return Ok(());
        }
        h.insert(0, ("DKIM-Signature".into(), v));
        recs.push(f.record());
    }
    let hs = env::headers(&h);
    let mut k = env::lax();
    k.max_signatures = 10;
    if c.bool() {
        k.required = vec!["From".into()];
        k.forbidden_unsigned = vec!["From".into(), "Received".into(), "X".into()];
        looks += LOOK * 3 * h.len() as u64 * 10;
    }
    let cfg = env::config(&k);
    let n = size(&h);
    c.id(format!("{n}{:?}", h[0]));
    c.note(|| format!("{} fields of {n} octets, {n_sigs} signatures made, the last one {}", h.len(), show(&h[0].1)));
    c.nontrivial = n >= 20_000;
    let ok = timed("verifying a header", n + 10 * sel + n * n_sigs, looks + 10 * 20_000_000, || {
        let mock = Mock::records(recs.clone());
        env::block_on(async { Verifier::verify_header(&mock, &hs, &cfg).await }).map(|v| v.finish().len())
    })?;
    c.class_if(ok.is_some(), "signatures");
    Ok(())
}

fn c31_sign(c: &mut Ctx) -> Res {
    c.large = c.chance(1, 3);
    let h = header(c, MAX / 3);
    let mut r = gen::plain_req(c, &h);
    r.key = crate::keys::get(c.pick(&["eda", "edb", "rsa1024"]));
    r.alg = gen::alg_for(c, r.key);
    r.copy = c.bool();
    if c.bool() {
        r.headers = Some(listed(c, &h, 300));
    }
    if c.chance(1, 3) {
        for i in 0..c.range(1, 2_000) {
            r.ext.push((format!("x{i}"), c.pick(&["1", "", "a b"]).into()));
        }
    }
    r.width = c.pick_copy(&[40, 72, 78, 1_000]);
    r.indent = c.pick(&["\t", "  "]).into();
    let n = size(&h) + format!("{r:?}").len();
    let from = h.iter().filter(|x| x.0.eq_ignore_ascii_case("from")).count();
    let names = r.headers.as_ref().map_or(from, |s| s.len());
    c.id(format!("{n}{r:?}"));
    c.note(|| format!("{} fields of {} octets, {r:?}", h.len(), size(&h)));
    c.nontrivial = n >= 20_000;
    let ok = timed("signing", 4 * n, 3 * LOOK * (names * h.len()) as u64 + 50_000_000, || {
        let mut s = Signer::prepare_signing(env::headers(&h), [r.build()]).ok()?;
        let _ = s.process_body_chunk(b"hi");
        Some(env::block_on(s.sign()).len())
    })?;
    c.class_if(ok.is_some(), "signed");
    Ok(())
}
