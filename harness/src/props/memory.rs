//! C29: memory.

use super::{canon::hkey, *};
use crate::{
    engine::{facet, show, Ctx, Res},
    ensure,
    env::{self, Mock},
    gen::{self},
    mem,
    refm::Hdrs,
    scene::{self, Scene},
    text::{self, Forge},
};
use std::{
    future::{poll_fn, Future},
    pin::pin,
    task::Poll,
    time::Duration,
};
use viadkim::{
    canonicalize::{self, BodyCanonicalizer},
    header::HeaderFields,
    message_hash::{BodyHasherBuilder, BodyHasherStance},
    quoted_printable,
    signer::Signer,
    verifier::Verifier,
};

pub static C29: Prop = Prop {
    id: "C29",
    rule: "Bodies of about 400 KB, of a repeated pattern of text, blank lines, whitespace, CR and LF, in chunks of any \
           size, fed to canonicalizer, hasher, signer, verifier; verification and signing sessions of all kinds and \
           outcomes, 150 times each, completed or dropped on the way; signatures, records, headers and encoded texts of \
           up to 100 KB. Non-trivial: all but sessions without signature. Oracle: octets in use, counted by the \
           allocator: what is retained does not grow with the body, nothing remains after the session, and no call \
           needs more than a fixed multiple of its input.",
    facets: &[
        facet("body", 3_000, 60_000, c29_body),
        facet("sessions alike", 1_000, 25_000, c29_alike),
        facet("sessions differing", 150, 4_000, c29_differing),
        facet("texts", 6_000, 120_000, c29_texts),
        facet("verification", 1_500, 30_000, c29_header),
        facet("signing", 1_500, 30_000, c29_signing),
    ],
    pre: true,
};

/// What may be retained of a body, whatever its length.
const RETAINED: isize = 32_768;
const BODY: usize = 400_000;

enum Consumer {
    Canon(BodyCanonicalizer),
    Hasher(viadkim::message_hash::BodyHasher),
    Signer(Signer<&'static viadkim::SigningKey>),
    Verifier(Verifier),
}

impl Consumer {
    fn feed(&mut self, b: &[u8]) -> BodyHasherStance {
        match self {
            Self::Canon(x) => {
                drop(x.canonicalize_chunk(b));
                BodyHasherStance::Interested
            }
            Self::Hasher(x) => x.hash_chunk(b),
            Self::Signer(x) => x.process_body_chunk(b),
            Self::Verifier(x) => x.process_body_chunk(b),
        }
    }
}

fn c29_body(c: &mut Ctx) -> Res {
    let mut unit = vec![];
    for _ in 0..c.weighted(&[0, 5, 3, 2, 1, 1, 1]) {
        gen::body_token(c, &mut unit);
    }
    let text = !unit.contains(&b'\r');
    let lens: Vec<usize> = (0..c.range(1, 4))
        .map(|_| match c.weighted(&[1, 2, 4, 2]) {
            0 => c.range(0, 3),
            1 => c.range(1, 100),
            2 => c.range(100, 5_000),
            _ => c.range(5_000, 100_000),
        })
        .collect();
    let kind = c.weighted(&[3, 3, 2, 2]);
    let h: Hdrs = vec![("From".into(), b" me".to_vec()), ("To".into(), b" you".to_vec())];
    let mut what = String::new();
    let mut k = match kind {
        0 => {
            let relaxed = c.bool();
            what = format!("relaxed: {relaxed}");
            Consumer::Canon(BodyCanonicalizer::new(gen::v_canon(relaxed)))
        }
        1 => {
            let mut b = BodyHasherBuilder::new(c.bool());
            for _ in 0..c.range(1, 10) {
                let mut k = hkey(c, &unit);
                if c.bool() {
                    k.0 = k.0.map(|_| c.range(0, 2 * BODY));
                }
                what += &format!("{k:?} ");
                b.register_canonicalization(k.0, k.1, k.2);
            }
            Consumer::Hasher(b.build())
        }
        2 => {
            let rs: Vec<_> = (0..c.range(1, 4)).map(|_| gen::req(c, &h, |_| BODY as u64)).collect();
            what += &format!("{rs:?}");
            match Signer::prepare_signing(env::headers(&h), rs.iter().map(|r| r.build())) {
                Ok(s) => Consumer::Signer(s),
                Err(_) => return Ok(()),
            }
        }
        _ => {
            let mut hs = h.clone();
            let mut recs = vec![];
            for _ in 0..c.range(1, 4) {
                let key = gen::key(c);
                let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
                f.bc = c.bool();
                if c.bool() {
                    f.l = Some(c.range(0, 2 * BODY) as u64);
                }
                let (_, v) = f.make(c, &h, b"hi", None);
                hs.insert(0, ("DKIM-Signature".into(), v));
                recs.push(f.record());
            }
            let mock = Mock::records(recs);
            let mut cfg = env::config(&env::lax());
            cfg.forbid_unsigned_content = c.bool();
            what = format!("{hs:?}");
            Consumer::Verifier(env::block_on(Verifier::verify_header(&mock, &env::headers(&hs), &cfg)).unwrap())
        }
    };
    c.id(format!("{unit:?}{lens:?}{what}"));
    c.nontrivial = true;
    c.class(["canonicalizer", "hasher", "signer", "verifier"][kind]);
    c.note(|| format!("unit {:?} in chunks of {lens:?}, {what}", show(&unit)));
    let longest = lens.iter().copied().max().unwrap() + unit.len();
    let mut src = unit.repeat(longest / unit.len() + 2);
    src.truncate(longest + unit.len());
    let base = mem::live();
    let mut fed = 0;
    let mut at = 0;
    for i in 0..20_000 {
        let n = lens[i % lens.len()];
        let chunk = &src[at..at + n];
        at = (at + n) % unit.len();
        fed += n;
        let (_, peak) = mem::peak(|| k.feed(chunk));
        let kept = mem::live() - base;
        ensure!(
            kept <= RETAINED,
            "{kept} octets are retained after {fed} octets of a body, in chunks of {lens:?} of {:?}",
            show(&unit)
        );
        if text {
            let most = RETAINED as usize + 32 * n;
            ensure!(peak <= most, "a chunk of {n} octets of text takes {peak} octets of memory");
        }
        if fed > BODY {
            break;
        }
    }
    Ok(())
}

/// One session, dropped after so many polls or chunks.
#[derive(Clone)]
enum Session {
    Verify { s: Scene, chunks: Vec<Vec<u8>>, quit: Option<usize> },
    Sign { h: Hdrs, rs: Vec<gen::Req>, chunks: Vec<Vec<u8>>, quit: Option<usize> },
}

fn session(c: &mut Ctx) -> Session {
    let quit = c.chance(1, 3).then(|| c.below(5) as usize);
    if c.chance(3, 4) {
        let s = scene::any(c, 4);
        let chunks = gen::chunks(c, &s.body);
        Session::Verify { s, chunks, quit }
    } else {
        let h = gen::hdrs(c, 5);
        let body = gen::body(c);
        let rs = (0..c.range(1, 2))
            .map(|_| {
                let n = crate::refm::canon::body(false, &body).len() as u64;
                let mut r = gen::req(c, &h, |_| n);
                if r.key.name.starts_with("rsa") && c.chance(5, 6) {
                    r.key = gen::key(c);
                }
                r.alg = gen::alg_for(c, r.key);
                r
            })
            .collect();
        let chunks = gen::chunks(c, &body);
        Session::Sign { h, rs, chunks, quit }
    }
}

/// Runs it, and says how much more memory is in use then than before.
fn run(s: &Session) -> isize {
    let base = mem::live();
    match s {
        Session::Verify { s, chunks, quit } => {
            let mock = s.mock();
            let h = env::headers(&s.hdrs);
            let cfg = env::config(&s.cfg);
            env::block_on(async {
                let v = {
                    let mut f = pin!(Verifier::verify_header(&mock, &h, &cfg));
                    let mut polls = 0;
                    poll_fn(|cx| {
                        if *quit == Some(polls) {
                            return Poll::Ready(None);
                        }
                        polls += 1;
                        f.as_mut().poll(cx)
                    })
                    .await
                };
                if let Some(mut v) = v {
                    for x in chunks.iter().take(quit.unwrap_or(usize::MAX)) {
                        let _ = v.process_body_chunk(x);
                    }
                    if quit.is_none() {
                        drop(v.finish());
                    }
                }
                // whatever was left to other tasks ends now
                tokio::time::sleep(Duration::from_secs(3_600)).await;
            });
        }
        Session::Sign { h, rs, chunks, quit } => {
            if let Ok(mut g) = Signer::prepare_signing(env::headers(h), rs.iter().map(|r| r.build())) {
                for x in chunks.iter().take(quit.unwrap_or(usize::MAX)) {
                    let _ = g.process_body_chunk(x);
                }
                if quit.is_none() {
                    drop(env::block_on(g.sign()));
                }
            }
        }
    }
    mem::live() - base
}

fn note_session(c: &mut Ctx, s: &Session) {
    match s {
        Session::Verify { s, chunks, quit } => {
            s.note(c);
            c.note(|| format!("{} chunks, dropped at {quit:?}", chunks.len()));
            c.class_if(quit.is_some(), "dropped");
            c.class_if(quit.is_none(), "verified");
        }
        Session::Sign { h, rs, chunks, quit } => {
            c.id(format!("{h:?}{rs:?}"));
            c.note(|| format!("{h:?} {rs:?} {} chunks, dropped at {quit:?}", chunks.len()));
            c.class("signed");
        }
    }
}

fn c29_alike(c: &mut Ctx) -> Res {
    let s = session(c);
    note_session(c, &s);
    c.nontrivial = match &s {
        Session::Verify { s, .. } => s.hdrs.iter().any(|h| h.0.eq_ignore_ascii_case("DKIM-Signature")),
        _ => true,
    };
    let n = 100;
    for _ in 0..50 {
        run(&s);
    }
    let mut kept = 0;
    for _ in 0..n {
        kept += run(&s);
    }
    c.extra_evals += n;
    ensure!(kept < 4_096, "{n} sessions, one after the other, leave {kept} octets of memory in use");
    Ok(())
}

fn c29_differing(c: &mut Ctx) -> Res {
    let all: Vec<Session> = (0..150).map(|_| session(c)).collect();
    note_session(c, &all[0]);
    c.nontrivial = true;
    for s in &all[..50] {
        run(s);
    }
    let kept: isize = all[50..].iter().map(run).sum();
    c.extra_evals += 100;
    ensure!(kept < 8_192, "100 different sessions, one after the other, leave {kept} octets of memory in use");
    Ok(())
}

/// Octets of memory for each octet of input, and beside.
const TIMES: usize = 200;
const BESIDE: usize = 100_000;

fn bounded<T>(what: &str, len: usize, f: impl FnOnce() -> T) -> Result<T, crate::engine::Failure> {
    let (r, peak) = mem::peak(f);
    if std::env::var("RATIO").is_ok() {
        eprintln!("RATIO {what} {len} {peak} {:.1}", peak as f64 / len.max(1) as f64);
    }
    ensure!(peak <= TIMES * len + BESIDE, "{what}: an input of {len} octets takes {peak} octets of memory");
    Ok(r)
}

/// A long text of some repeated pattern, as (part of) a signature, record, or other.
pub fn long_text(c: &mut Ctx, max: usize) -> String {
    let kind = c.below(6);
    let unit = match kind {
        0 => {
            let mut u = String::new();
            for _ in 0..c.range(1, 4) {
                u += c.pick(&["x=1;", " y = a b ; ", ":", "From:", "=20", "=", ";", " \r\n ", "a", "|", "x:y|", "\u{e4}", "AAAA"]);
            }
            u
        }
        1 => text::ws(c, 3).to_owned() + c.pick(&["h", "z", "a=b;", "t=y;"]),
        _ => c.pick(&[":", "a:", "a|b:c|", "=41", " ", "A", "s:y:", "\u{1f600}"]).to_owned(),
    };
    let n = c.range(1, max) / unit.len().max(1);
    let run = unit.repeat(n.max(1));
    match c.below(7) {
        0 => run.clone(),
        1 => format!("{}; p=AAAA", run.trim_end_matches(';')),
        2 => format!("v=1; a=rsa-sha256; b=AAAA; bh=AAAA; d=example.com; s=s; h=From; {run}"),
        3 => format!("v=1; a=rsa-sha256; b=AAAA; bh=AAAA; d=example.com; s=s; h=From:{run}x"),
        4 => format!("v=1; a=rsa-sha256; b=AAAA; bh=AAAA; d=example.com; s=s; h=From; z={run}"),
        5 => format!("v=DKIM1; p=AAAA; {}={run}", c.pick(&["n", "s", "h", "t"])),
        _ => {
            let mut v = text::valid_sig_tags(c);
            // unique tags
            for i in 0..c.range(1, max / 12) {
                v.push((format!("x{i}"), "1".into()));
            }
            text::render(c, &v, 0, "")
        }
    }
}

fn c29_texts(c: &mut Ctx) -> Res {
    c.large = true;
    c.nontrivial = true;
    let s = long_text(c, 60_000);
    c.id(&s);
    c.note(|| show(s.as_bytes()));
    bounded("parsing a signature", s.len(), || s.parse::<viadkim::signature::DkimSignature>().map(drop).map_err(drop))?.ok();
    bounded("parsing a record", s.len(), || s.parse::<DkimKeyRecord>().map(drop).map_err(drop))?.ok();
    bounded("decoding Quoted-Printable", s.len(), || quoted_printable::decode(&s).map(drop).map_err(drop))?.ok();
    bounded("encoding Quoted-Printable", s.len(), || quoted_printable::encode(s.as_bytes(), Some('|')))?;
    bounded("decoding Base64", s.len(), || viadkim::decode_base64(&s).map(drop).map_err(drop))?.ok();
    bounded("parsing a header", s.len(), || s.parse::<HeaderFields>().map(drop).map_err(drop))?.ok();
    let t = s.replace(';', "\r\n").replace('=', ":");
    bounded("parsing a header", t.len(), || t.parse::<HeaderFields>().map(drop).map_err(drop))?.ok();
    Ok(())
}

fn c29_header(c: &mut Ctx) -> Res {
    c.large = true;
    let s = scene::any(c, 9);
    s.note(c);
    c.nontrivial = true;
    let h = env::headers(&s.hdrs);
    let names = gen::signed_names(c, &s.hdrs);
    let len: usize = s.hdrs.iter().map(|x| x.0.len() + x.1.len()).sum();
    let sel: usize = names.iter().map(|n| n.len() + 8).sum();
    let names = env::names(&names);
    let relaxed = c.bool();
    bounded("canonicalizing a header", len + sel, || canonicalize::canonicalize_headers(gen::v_canon(relaxed), &h, &names))?;
    let mock = s.mock();
    let cfg = env::config(&s.cfg);
    let dns: usize = s.plans.values().map(|p| format!("{p:?}").len()).sum();
    let v = bounded("verifying a header", len + 4 * dns, || {
        env::block_on(async { Verifier::verify_header(&mock, &h, &cfg).await.is_some() })
    })?;
    c.class_if(v, "signatures");
    Ok(())
}

fn c29_signing(c: &mut Ctx) -> Res {
    c.large = true;
    let h = gen::hdrs(c, 5);
    let mut r = gen::req(c, &h, |_| 2);
    if c.chance(4, 5) {
        // not one more line for each character
        r.width = r.width.max(40);
    }
    c.id(format!("{h:?}{r:?}"));
    c.nontrivial = true;
    c.note(|| format!("{r:?}"));
    let len: usize = h.iter().map(|x| x.0.len() + x.1.len()).sum::<usize>() + format!("{r:?}").len();
    // with each line of at least one character, indentation comes on top
    let lines = if r.width < 40 { 1 + r.indent.len() } else { 1 };
    let hs = env::headers(&h);
    let q = r.build();
    bounded("signing", len * lines, || {
        Signer::prepare_signing(hs, [q]).ok().map(|mut s| {
            let _ = s.process_body_chunk(b"hi");
            drop(env::block_on(s.sign()))
        })
    })?;
    Ok(())
}
