//! C25, C26, C27: defaults, textual forms, and the low-level interface.

use super::{verify::judge_within, *};
use crate::{
    engine::{facet, table, vtable, Ctx, Res},
    ensure, ensure_eq,
    env::{self, Plan},
    gen::{self, PRE},
    keys,
    refm::{
        self, canon,
        sig::{self, Alg},
        verify::{self as rv, Dns, RConfig},
    },
    scene::{self, Scene},
    text::{self, Forge},
};
use std::time::{Duration, SystemTime};
use viadkim::{
    canonicalize::{self, BodyCanonicalizer},
    crypto::{self, SigningKey, VerifyingKey},
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::{self, BodyHasherBuilder},
    signature::{Canonicalization, DomainName, Identity, Selector, SigningAlgorithm},
    signer::{self, BodyLength, HeaderSelection, OutputFormat, SignRequest, Signer, Timestamp},
    verifier::{Config, PolicyError, VerificationError, VerificationStatus},
    CanonicalStr, DkimResult,
};

// ---------------------------------------------------------------- C25

pub static C25: Prop = Prop {
    id: "C25",
    rule: "Scenes as in C03 under the default configuration, with up to 14 signatures, times around now ± 5 minutes, \
           key sizes around 1024 bits, lookups around 10 seconds; signatures with times relative to the system clock; \
           requests left at their defaults for random messages. Non-trivial: a signature was judged, or made. Oracle: \
           reference verifier with the documented defaults; documented defaults of requests.",
    facets: &[
        facet("verifier", 6_000, 200_000, c25_verifier),
        vtable("system clock", 16, 60, 1_000, c25_clock),
        facet("signer", 4_000, 150_000, c25_signer),
        table("values", 1, c25_values),
        table("passing time", 8, c25_passing),
    ],
    pre: true,
};

fn c25_verifier(c: &mut Ctx) -> Res {
    let mut hdrs = gen::hdrs(c, 7);
    let body = gen::body(c);
    let cfg = RConfig { now: c.pick_copy(&[1_700_000_000, 1_700_000_000, 299, 300, 1 << 33]), ..Default::default() };
    let n = match c.weighted(&[6, 3, 2]) {
        0 => c.range(1, 2),
        1 => c.range(3, 9),
        _ => c.range(10, 14),
    };
    let forges: Vec<Forge> = (0..n)
        .map(|_| {
            let mut f = scene::forge(c, &hdrs, &body, &cfg);
            if c.chance(1, 3) {
                let t = scene::time(c, &cfg);
                if c.bool() { f.t = Some(t) } else { f.x = Some(t) }
            }
            if matches!((f.t, f.x), (Some(t), Some(x)) if t >= x) {
                f.t = None;
            }
            f
        })
        .collect();
    let mut plans = scene::plans(c, &forges, 1);
    if c.chance(1, 4) {
        for p in plans.values_mut() {
            p.delay = c.pick_copy(&[Some(0), Some(9_999), Some(10_001), Some(9_000), Some(11_000), Some(5_000), None]);
        }
    }
    let sigs = forges.iter().map(|f| f.make(c, &hdrs, &body, None)).collect();
    scene::insert(c, &mut hdrs, sigs);
    let s = Scene { hdrs, body, cfg, plans };
    s.note(c);
    let config = Config {
        fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(s.cfg.now)),
        ..Default::default()
    };
    let r = env::verify_full(&s.mock(), &s.hdrs, &[s.body.clone()], &config, c.bool());
    judge_within(c, &s, &r.results.unwrap_or_default(), 10_000)
}

/// With nothing at all configured: the system clock decides.
fn c25_clock(c: &mut Ctx) -> Res {
    let i = c.below(16);
    // seconds from the border; none lies so near that the clock can cross it
    let d = match i / 4 {
        0 => -100_000,
        1 => -20,
        2 => 20,
        _ => 100_000,
    } + c.below(15) as i64;
    let now = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs() as i64;
    let key = gen::key(c);
    if key.bits < 1024 && key.is_rsa() {
        return Ok(());
    }
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    let mut want = None;
    if i & 1 == 0 {
        // valid until five minutes after the expiration
        f.x = Some((now - 300 + d) as u64);
        if d < 0 {
            want = Some(PolicyError::SignatureExpired);
        }
    } else {
        f.t = Some((now + 300 + d) as u64);
        if d > 0 {
            want = Some(PolicyError::TimestampInFuture);
        }
    }
    if i & 2 == 2 {
        // a limited length is acceptable
        f.l = Some(0);
    }
    let mut hdrs = vec![("From".to_owned(), b" me".to_vec()), ("To".to_owned(), b" you".to_vec())];
    let body = b"hello\r\n".to_vec();
    let s = f.make(c, &hdrs, &body, None);
    hdrs.insert(0, s);
    c.id(format!("{i} {d} {}", key.name));
    c.note(|| format!("times relative to the system clock: case {i}, {d} s from the border, key {}", key.name));
    c.nontrivial = true;
    let mock = env::Mock::records([f.record()]);
    let r = env::verify(&mock, &hdrs, &body, &Config::default());
    ensure!(r.len() == 1, "one result");
    let want = match want {
        None => VerificationStatus::Success,
        Some(p) => VerificationStatus::Failure(VerificationError::Policy(p)),
    };
    ensure_eq!(&r[0].status, &want, "status with the border {d} s away");
    Ok(())
}

fn unix_now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}

/// The same judged again when some seconds have passed. What happens at the very border is left to the other facets:
/// a result counts only if the clock was on one side of it before and after.
fn c25_passing(c: &mut Ctx) -> Res {
    let i = c.below(8);
    let key = keys::get(["eda", "rsa1024"][(i % 2) as usize]);
    let hdrs = vec![("From".to_owned(), b" me".to_vec())];
    let body = b"hello\r\n".to_vec();
    let start = unix_now();
    let border = start + 2;
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    let future = i & 2 == 2;
    if future { f.t = Some(border + 300) } else { f.x = Some(border - 300) }
    let mut h2 = hdrs.clone();
    h2.insert(0, f.make(c, &hdrs, &body, None));
    c.id(i.to_string());
    c.note(|| format!("border two seconds ahead, {}", if future { "timestamp in the future" } else { "expiration" }));
    c.nontrivial = true;
    let mock = env::Mock::records([f.record()]);
    let failure = |p| VerificationStatus::Failure(VerificationError::Policy(p));
    let want = if future {
        [failure(PolicyError::TimestampInFuture), VerificationStatus::Success]
    } else {
        [VerificationStatus::Success, failure(PolicyError::SignatureExpired)]
    };
    for round in 0..2 {
        let before = unix_now();
        let r = env::verify(&mock, &h2, &body, &Config::default());
        let after = unix_now();
        ensure!(r.len() == 1, "one result");
        if (before >= border) == (after >= border) {
            let w = &want[usize::from(after >= border)];
            ensure_eq!(&r[0].status, w, "round {round}, {} s from the border", after as i64 - border as i64);
        }
        let req = SignRequest::new(
            DomainName::new("example.com").unwrap(),
            Selector::new("sel").unwrap(),
            gen::v_alg(gen::alg_for(c, key)),
            &key.signing,
        );
        let before = unix_now();
        let mut sg = match Signer::prepare_signing(env::headers(&hdrs), [req]) {
            Ok(x) => x,
            Err(e) => return crate::engine::fail(format!("default request refused: {e:?}")),
        };
        let _ = sg.process_body_chunk(&body);
        let out = env::block_on(sg.sign());
        let after = unix_now();
        match &out[..] {
            [Ok(o)] => {
                let t = o.signature.timestamp.unwrap_or(0);
                ensure!(before <= t && t <= after, "timestamp {t} between {before} and {after}, round {round}");
            }
            x => return crate::engine::fail(format!("default request failed: {x:?}")),
        }
        while round == 0 && unix_now() <= border {
            std::thread::sleep(Duration::from_millis(100));
        }
    }
    Ok(())
}

const RECOMMENDED: [&str; 19] = [
    "from", "reply-to", "subject", "date", "to", "cc", "resent-date", "resent-from", "resent-to", "resent-cc",
    "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-subscribe", "list-post",
    "list-owner", "list-archive",
];

fn c25_signer(c: &mut Ctx) -> Res {
    let mut hdrs = gen::hdrs(c, 9);
    // the recommended names, and ones close to them
    let n = c.size(10);
    for _ in 0..n {
        let at = c.idx(hdrs.len() + 1);
        let name = match c.weighted(&[4, 1, 1]) {
            0 => {
                let i = c.idx(RECOMMENDED.len());
                gen::case_mix(c, RECOMMENDED[i])
            }
            1 => c.pick(&["Return-Path", "Received", "Comments", "Keywords", "Resent-Sender", "Sender", "Message-ID"]).to_owned(),
            _ => c.pick(&["List", "List-", "List-Idx", "Resent", "Fro", "Datex", "X-To", "Reply", "DKIM-Signature"]).to_owned(),
        };
        hdrs.insert(at, (name, gen::field_body(c)));
    }
    let body = gen::body(c);
    let key = gen::key(c);
    let alg = gen::alg_for(c, key);
    let (d, s) = (gen::domain(c), gen::selector(c));
    c.id(format!("{hdrs:?}{d}{s}{}", key.name));
    c.note(|| format!("default request for {hdrs:?}, {d} {s} {}", key.name));
    let req = SignRequest::new(
        DomainName::new(d.as_str()).unwrap(),
        Selector::new(s.as_str()).unwrap(),
        gen::v_alg(alg),
        &key.signing,
    );
    let before = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
    let mut sg = match Signer::prepare_signing(env::headers(&hdrs), [req]) {
        Ok(x) => x,
        Err(e) => return crate::engine::fail(format!("default request refused: {e:?}")),
    };
    for ch in gen::chunks(c, &body) {
        let _ = sg.process_body_chunk(&ch);
    }
    let out = env::block_on(sg.sign());
    let after = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
    ensure!(out.len() == 1, "one result");
    let o = match &out[0] {
        Ok(o) => o,
        Err(e) => return crate::engine::fail(format!("default request failed: {e:?}")),
    };
    c.nontrivial = true;
    let g = &o.signature;
    ensure_eq!(o.header_name.as_str(), "DKIM-Signature", "header name");
    ensure_eq!(g.canonicalization.to_string().as_str(), "relaxed/simple", "canonicalization");
    let want: Vec<&str> = hdrs
        .iter()
        .rev()
        .map(|h| h.0.as_str())
        .filter(|n| RECOMMENDED.iter().any(|r| refm::eq_nocase(r, n)))
        .collect();
    let got: Vec<&str> = g.signed_headers.iter().map(|n| n.as_ref()).collect();
    ensure!(
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| refm::eq_nocase(a, b)),
        "signed headers {got:?}, expected {want:?}"
    );
    let t = g.timestamp.unwrap_or(0);
    ensure!(before <= t && t <= after, "timestamp {:?} at {before}", g.timestamp);
    ensure_eq!(g.expiration, Some(t + 5 * 86_400), "expiration for timestamp {t}");
    ensure!(g.identity.is_none() && g.body_length.is_none(), "identity or body length not asked for");
    ensure!(g.copied_headers.is_empty() && g.ext_tags.is_empty(), "copied headers or additional tags not asked for");
    // layout: tabs, and at most 78 characters where there is a choice
    let lines: Vec<&str> = o.format_header_text();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            ensure!(l.starts_with('\t') && !l[1..].starts_with([' ', '\t']), "indentation of {l:?}");
        }
        if l.chars().count() > 79 {
            // only a single word may be as long
            let w = l.trim_start_matches('\t');
            let w = w.split_once(':').map_or(w, |x| if i == 0 { x.1 } else { w });
            ensure!(!w.trim().contains("; "), "line too long: {l:?}");
        }
    }
    let mut h2 = hdrs.clone();
    h2.insert(0, (o.header_name.clone(), o.header_value.clone().into_bytes()));
    if hdrs.iter().any(|h| refm::eq_nocase(&h.0, "DKIM-Signature")) || (key.is_rsa() && key.bits < 1024) || alg == Alg::RsaSha1 {
        return Ok(());
    }
    // goes together with the default verifier
    let f = Forge::simple(key, &d, &s, &[]);
    let r = env::verify(&env::Mock::records([f.record()]), &h2, &body, &Config::default());
    ensure!(r.len() == 1 && r[0].status == VerificationStatus::Success, "not verified: {r:?}");
    Ok(())
}

trait Lines {
    fn format_header_text(&self) -> Vec<&str>;
}

impl Lines for viadkim::SigningOutput {
    fn format_header_text(&self) -> Vec<&str> {
        self.header_value.split("\r\n").collect()
    }
}

fn c25_values(c: &mut Ctx) -> Res {
    c.below(1);
    c.id("values");
    c.nontrivial = true;
    let k = Config::default();
    ensure_eq!(k.lookup_timeout, Duration::from_secs(10), "lookup_timeout");
    ensure_eq!(k.max_signatures, 10, "max_signatures");
    ensure_eq!(k.headers_required_in_signature.len(), 0, "headers_required_in_signature");
    ensure!(k.headers_forbidden_to_be_unsigned == [FieldName::new("From").unwrap()], "headers_forbidden_to_be_unsigned");
    ensure_eq!(k.min_key_bits, 1024, "min_key_bits");
    ensure!(
        !(k.allow_sha1 || k.forbid_unsigned_content || k.allow_expired || k.allow_timestamp_in_future),
        "flags {k:?}"
    );
    ensure_eq!(k.time_tolerance, Duration::from_secs(300), "time_tolerance");
    ensure_eq!(k.fixed_system_time, None, "fixed_system_time");
    let o = OutputFormat::default();
    ensure_eq!(o.header_name.as_str(), "DKIM-Signature", "header_name");
    ensure_eq!(o.line_width.get(), 78, "line_width");
    ensure_eq!(o.indentation.as_str(), "\t", "indentation");
    ensure!(o.tag_order.is_none() && !o.ascii_only, "format {o:?}");
    ensure_eq!(BodyLength::default(), BodyLength::NoLimit, "body length");
    ensure_eq!(Timestamp::default(), Timestamp::Now, "timestamp");
    ensure_eq!(HeaderSelection::default(), HeaderSelection::Auto, "header selection");
    ensure_eq!(Canonicalization::default().to_string().as_str(), "simple/simple", "canonicalization");
    ensure_eq!(ServiceType::default(), ServiceType::Any, "service type");
    let set = |v: Vec<FieldName>| {
        let mut v: Vec<String> = v.iter().map(|n| n.as_ref().to_ascii_lowercase()).collect();
        v.sort();
        v
    };
    let mut want: Vec<String> = RECOMMENDED.iter().map(|s| s.to_string()).collect();
    want.sort();
    ensure_eq!(set(signer::default_signed_headers()), want, "default_signed_headers");
    ensure_eq!(
        set(signer::default_unsigned_headers()),
        vec!["comments".to_owned(), "keywords".to_owned(), "received".to_owned(), "return-path".to_owned()],
        "default_unsigned_headers"
    );
    let all: Vec<&str> = {
        let mut v: Vec<&str> = HashAlgorithm::all().into_iter().map(hash_name).collect();
        v.sort();
        v
    };
    ensure_eq!(all, if PRE { vec!["sha1", "sha256"] } else { vec!["sha256"] }, "HashAlgorithm::all");
    Ok(())
}

// ---------------------------------------------------------------- C26

pub static C26: Prop = Prop {
    id: "C26",
    rule: "Names of algorithms, canonicalizations, key types, hash algorithms, service types, flags and results in any \
           case, with characters added, removed and exchanged, joined by any number of slashes; free strings; domain \
           names, selectors, identities, field names as in C17 and C21. Non-trivial: the text is accepted, or is one \
           edit away from one that is. Oracle: the list of names in the RFCs.",
    facets: &[
        facet("algorithms", 20_000, 2_000_000, c26_algorithms),
        facet("names", 5_000, 500_000, c26_names),
        table("values", 1, c26_values),
    ],
    pre: true,
};

fn c26_algorithms(c: &mut Ctx) -> Res {
    const W: [&str; 16] = [
        "simple", "relaxed", "rsa-sha256", "ed25519-sha256", "rsa-sha1", "rsa", "sha256", "sha1", "ed25519", "nofws",
        "rsa-sha512", "ed25519-sha1", "", "rsa-sha-256", "email", "y",
    ];
    let n = match c.weighted(&[6, 6, 1]) {
        0 => 1,
        1 => 2,
        _ => c.range(3, 4),
    };
    let mut s = String::new();
    for k in 0..n {
        if k > 0 {
            s.push_str(c.pick(&["/", "/", "/", "/", "//", "\\", " / ", "-", ":"]));
        }
        let w = W[c.weighted(&[12, 12, 5, 5, 5, 1, 1, 1, 1, 2, 1, 1, 2, 1, 1, 1])];
        s.push_str(&gen::case_mix(c, w));
    }
    if c.chance(1, 3) {
        // one character
        let mut v: Vec<char> = s.chars().collect();
        let at = c.idx(v.len() + 1);
        match c.below(3) {
            0 => v.insert(at, c.pick_copy(&[' ', '\t', '/', 's', '2', '\n', '\0', 'ſ', '*', ';'])),
            1 if at < v.len() => {
                v.remove(at);
            }
            _ if at < v.len() => v[at] = c.pick_copy(&['ſ', 'ı', 'K', '_', 'x', '5', 'S', '\u{131}']),
            _ => {}
        }
        s = v.into_iter().collect();
    }
    c.id(&s);
    c.note(|| format!("text {s:?}"));
    let l = refm::lower_str(&s);
    let half = |x: &str| match x {
        "simple" => Some(CA::Simple),
        "relaxed" => Some(CA::Relaxed),
        _ => None,
    };
    let canon = match l.split('/').collect::<Vec<_>>()[..] {
        [h] => half(h).map(|h| (h, CA::Simple)),
        [h, b] => half(h).zip(half(b)),
        _ => None,
    };
    let alg = match l.as_str() {
        "rsa-sha256" => Some(gen::v_alg(Alg::RsaSha256)),
        "ed25519-sha256" => Some(gen::v_alg(Alg::Ed25519)),
        "rsa-sha1" if PRE => Some(gen::v_alg(Alg::RsaSha1)),
        _ => None,
    };
    c.nontrivial = canon.is_some() || alg.is_some() || l.contains("sha") || l.contains('/');
    c.class_if(canon.is_some(), "canonicalization");
    c.class_if(alg.is_some(), "algorithm");
    ensure_eq!(s.parse::<CA>().ok(), half(&l), "canonicalization algorithm {s:?}");
    ensure_eq!(s.parse::<Canonicalization>().ok().map(|x| (x.header, x.body)), canon, "canonicalization {s:?}");
    ensure_eq!(s.parse::<SigningAlgorithm>().ok(), alg, "algorithm {s:?}");
    if let Some((h, b)) = canon {
        let t = Canonicalization::from((h, b)).to_string();
        let body = if b == CA::Simple { "simple" } else { "relaxed" };
        ensure_eq!(t, format!("{}/{body}", l.split('/').next().unwrap()), "printed form");
    }
    if let Some(a) = alg {
        ensure_eq!(a.to_string(), l, "printed form");
    }
    Ok(())
}

fn c26_names(c: &mut Ctx) -> Res {
    let s = match c.below(3) {
        0 => gen::domain(c),
        1 => gen::selector(c),
        _ => text::odd_name(c),
    };
    let id = text::id_text(c);
    let n = gen::field_name(c);
    c.id(format!("{s} {id} {n}"));
    c.note(|| format!("{s:?} {id:?} {n:?}"));
    if let Ok(d) = DomainName::new(s.as_str()) {
        c.nontrivial = true;
        ensure_eq!(d.to_string(), s, "domain as text");
        ensure!(s.parse::<DomainName>().as_ref() == Ok(&d), "{s:?} parses differently");
        ensure!(d.as_ref() == s, "domain as str");
    }
    if let Ok(d) = Selector::new(s.as_str()) {
        c.nontrivial = true;
        ensure_eq!(d.to_string(), s, "selector as text");
        ensure!(s.parse::<Selector>().as_ref() == Ok(&d), "{s:?} parses differently");
        ensure!(d.as_ref() == s, "selector as str");
    }
    if let Ok(i) = Identity::new(&id) {
        c.nontrivial = true;
        ensure_eq!(i.to_string(), id, "identity as text");
        ensure!(id.parse::<Identity>().as_ref() == Ok(&i), "{id:?} parses differently");
        let j = Identity::from_domain(i.domain.clone());
        ensure!(j.local_part.is_none() && j.domain == i.domain, "identity of a domain");
        ensure_eq!(j.to_string(), format!("@{}", i.domain.as_ref()), "identity without local part");
    }
    let f = FieldName::new(n.as_str()).unwrap();
    ensure_eq!(f.to_string(), n, "field name as text");
    Ok(())
}

fn c26_values(c: &mut Ctx) -> Res {
    c.below(1);
    c.id("values");
    c.nontrivial = true;
    macro_rules! text {
        ($($v:expr => $t:expr),* $(,)?) => {$(
            ensure_eq!($v.canonical_str(), $t, "canonical text");
            ensure_eq!($v.to_string().as_str(), $t, "printed text");
            ensure_eq!(format!("{:>1}", $v).as_str(), $t, "printed text");
        )*};
    }
    text!(
        KeyType::Rsa => "rsa", KeyType::Ed25519 => "ed25519", HashAlgorithm::Sha256 => "sha256",
        ServiceType::Any => "*", ServiceType::Email => "email",
        SelectorFlag::Testing => "y", SelectorFlag::NoSubdomains => "s",
        CA::Simple => "simple", CA::Relaxed => "relaxed",
        DkimResult::None => "none", DkimResult::Pass => "pass", DkimResult::Fail => "fail",
        DkimResult::Policy => "policy", DkimResult::Neutral => "neutral", DkimResult::Temperror => "temperror",
        DkimResult::Permerror => "permerror",
    );
    #[cfg(feature = "pre")]
    text!(HashAlgorithm::Sha1 => "sha1");
    for h in HashAlgorithm::all() {
        for k in [KeyType::Rsa, KeyType::Ed25519] {
            let a = SigningAlgorithm::from_parts(k, h);
            let t = format!("{k}-{h}");
            ensure_eq!(a.is_some(), t != "ed25519-sha1", "{t}");
            if let Some(a) = a {
                text!(a => t.as_str());
                ensure_eq!((a.key_type(), a.hash_algorithm()), (k, h), "components of {t}");
                ensure_eq!(<(KeyType, HashAlgorithm)>::from(a), (k, h), "components of {t}");
            }
        }
    }
    for h in [CA::Simple, CA::Relaxed] {
        for b in [CA::Simple, CA::Relaxed] {
            let t = format!("{h}/{b}");
            text!(Canonicalization::from((h, b)) => t.as_str());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

pub static C27: Prop = Prop {
    id: "C27",
    rule: "Messages with signatures made by the reference signer, whole or damaged, or by Signer; the public building \
           blocks put together by hand in two ways. Signatures made by hand from those blocks. Non-trivial: the \
           signature could be parsed and a key read. Oracle: Verifier's result under a configuration without policy.",
    facets: &[
        facet("verifying", 8_000, 300_000, c27_verify),
        facet("signing", 4_000, 150_000, c27_sign),
    ],
    pre: true,
};

/// Other body hashes wanted from the same hasher.
fn others(c: &mut Ctx, b: &mut BodyHasherBuilder, body: &[u8]) {
    let all = HashAlgorithm::all();
    for _ in 0..c.size(3) {
        let len = if c.bool() { None } else { Some(c.idx(body.len() + 3)) };
        b.register_canonicalization(len, all[c.idx(all.len())], c.pick_copy(&[CA::Simple, CA::Relaxed]));
    }
}

/// Verification by hand.
fn by_hand(
    c: &mut Ctx,
    headers: &HeaderFields,
    index: usize,
    body: &[u8],
    record: &[u8],
) -> Option<Result<(), &'static str>> {
    let (name, value) = &headers.as_ref()[index];
    let value = std::str::from_utf8(value.as_ref()).ok()?;
    let s: DkimSignature = value.parse().ok()?;
    let rec: DkimKeyRecord = std::str::from_utf8(record).ok()?.parse().ok()?;
    let (kt, ha) = s.algorithm.into();
    usize::try_from(s.body_length.unwrap_or(0)).ok()?;
    Some((|| {
        if rec.key_type != kt || !rec.hash_algorithms.contains(&ha) || rec.key_data.is_empty() {
            return Err("key record does not fit");
        }
        if let (true, Some(i)) = (rec.flags.contains(&SelectorFlag::NoSubdomains), &s.identity) {
            if !(i.domain.eq_or_subdomain_of(&s.domain) && s.domain.eq_or_subdomain_of(&i.domain)) {
                return Err("key record does not fit");
            }
        }
        let key = VerifyingKey::from_key_data(kt, &rec.key_data).map_err(|_| "key cannot be read")?;
        key.validate_min_key_size().map_err(|_| "key too small")?;
        let blank = canon::blank_b(value);
        let ca = s.canonicalization.header;
        let hash = if c.bool() {
            message_hash::compute_data_hash(ha, ca, headers, &s.signed_headers, name.as_ref(), &blank)
        } else {
            let mut d = canonicalize::canonicalize_headers(ca, headers, &s.signed_headers);
            canonicalize::canonicalize_header(&mut d, ca, name, &blank);
            crypto::digest(ha, d)
        };
        let ok = match &key {
            VerifyingKey::Rsa(k) => crypto::verify_rsa(k, ha, &hash, &s.signature_data).is_ok(),
            VerifyingKey::Ed25519(k) => crypto::verify_ed25519(k, &hash, &s.signature_data).is_ok(),
        };
        if !ok {
            return Err("signature does not verify");
        }
        let bh = if c.bool() {
            let mut b = BodyHasherBuilder::new(false);
            let k = message_hash::body_hasher_key(&s);
            b.register_canonicalization(k.0, k.1, k.2);
            others(c, &mut b, body);
            let mut h = b.build();
            for ch in gen::chunks(c, body) {
                let _ = h.hash_chunk(&ch);
            }
            match h.finish().get(&k) {
                Some(Ok((h, _))) => h.clone(),
                Some(Err(_)) => return Err("body too short"),
                None => return Err("no answer for a registered body hash"),
            }
        } else {
            let mut bc = BodyCanonicalizer::new(s.canonicalization.body);
            let mut v = vec![];
            for ch in gen::chunks(c, body) {
                v.extend(bc.canonicalize_chunk(&ch));
            }
            v.extend(bc.finish());
            if let Some(l) = s.body_length {
                if l > v.len() as u64 {
                    return Err("body too short");
                }
                v.truncate(l as usize);
            }
            crypto::digest(ha, v)
        };
        if bh != s.body_hash { Err("body hash differs") } else { Ok(()) }
    })())
}

fn c27_verify(c: &mut Ctx) -> Res {
    let mut hdrs = gen::hdrs(c, 6);
    let mut body = gen::body(c);
    let f = text::forge(c, &hdrs, &body);
    let bh = c.chance(1, 10).then(|| text::wrong_hash(c, &f.body_hash(&body)));
    let mut s = f.make(c, &hdrs, &body, bh);
    if c.chance(1, 8) {
        s.1 = scene::damage(c, &s.1);
    }
    let at = c.idx(hdrs.len() + 1);
    hdrs.insert(at, s);
    if c.chance(1, 4) {
        scene::tamper(c, &mut hdrs, &mut body);
    }
    let rec = if c.chance(1, 6) { scene::bad_record(c) } else { Ok(scene::record(c, f.key).into_bytes()) };
    let Ok(rec) = rec else { return Ok(()) };
    c.id(format!("{hdrs:?}{body:?}{rec:?}"));
    c.note(|| format!("{hdrs:?} body {:?} record {:?}", crate::engine::show(&body), String::from_utf8_lossy(&rec)));
    let headers = env::headers(&hdrs);
    let mock = env::Mock::new(
        Default::default(),
        Some(Plan { delay: Some(0), answer: Dns::Records(vec![Ok(rec.clone())]) }),
    );
    let res = env::verify(&mock, &hdrs, &body, &env::config(&env::lax()));
    for r in &res {
        let hand = by_hand(c, &headers, r.index, &body, &rec);
        c.nontrivial |= matches!(hand, Some(Ok(()) | Err("signature does not verify" | "body hash differs" | "body too short")));
        match &hand {
            Some(Ok(())) => c.class("verified by hand"),
            Some(Err(e)) => c.class(e),
            None => c.class("not parsed"),
        }
        ensure!(
            (r.status == VerificationStatus::Success) == (hand == Some(Ok(()))),
            "Verifier says {:?}, by hand {hand:?}",
            r.status
        );
    }
    Ok(())
}

fn c27_sign(c: &mut Ctx) -> Res {
    let hdrs = gen::hdrs(c, 6);
    let body = gen::body(c);
    let f = text::forge(c, &hdrs, &body);
    if canon::relaxed_unspecified(&body) && f.bc {
        return Ok(());
    }
    c.id(format!("{hdrs:?}{body:?}{}{}{:?}", f.key.name, f.d, f.h));
    c.note(|| format!("by hand for {hdrs:?} body {:?} {} {} {:?}", crate::engine::show(&body), f.key.name, f.d, f.h));
    // body hash
    let (hc, bc) = (gen::v_canon(f.hc), gen::v_canon(f.bc));
    let alg = gen::v_alg(f.alg);
    let ha = alg.hash_algorithm();
    let len = f.l.and_then(|l| usize::try_from(l).ok()).filter(|l| *l <= canon::body(f.bc, &body).len());
    let mut b = BodyHasherBuilder::new(c.bool());
    b.register_canonicalization(len, ha, bc);
    others(c, &mut b, &body);
    let mut h = b.build();
    for ch in gen::chunks(c, &body) {
        if h.hash_chunk(&ch) == message_hash::BodyHasherStance::Done {
            break;
        }
    }
    let (bh, n) = match h.finish().get(&(len, ha, bc)) {
        Some(Ok((h, n))) => (h.clone(), *n),
        // content beyond the limit, and that was asked to be an error
        Some(Err(_)) if len.is_some() => {
            c.class("truncated");
            return Ok(());
        }
        x => return crate::engine::fail(format!("body hash {x:?}")),
    };
    ensure!(bh.to_vec() == f.body_hash_of(&body, len), "body hash");
    // header
    let names: Vec<FieldName> = env::names(&f.h);
    let mut v = format!(
        " v=1; a={alg}; c={hc}/{bc}; d={}; s={};\r\n\tbh={}; h={};{} b=",
        f.d,
        f.s,
        viadkim::encode_base64(&bh),
        f.h.join(":"),
        if len.is_some() { format!(" l={n};") } else { String::new() },
    );
    let headers = env::headers(&hdrs);
    let hash = message_hash::compute_data_hash(ha, hc, &headers, &names, &f.name, &v);
    let sig = match &f.key.signing {
        SigningKey::Rsa(k) => match crypto::sign_rsa(ha, k, &hash) {
            Ok(s) => s,
            Err(e) => return crate::engine::fail(format!("sign_rsa: {e:?}")),
        },
        SigningKey::Ed25519(k) => crypto::sign_ed25519(k, &hash),
    };
    v.push_str(&viadkim::encode_base64(sig));
    ensure!(FieldBody::new(v.as_bytes()).is_ok(), "header field by hand is not valid: {v:?}");
    let mut h2 = hdrs.clone();
    h2.insert(0, (f.name.clone(), v.into_bytes()));
    let has_sig = hdrs.iter().any(|h| refm::eq_nocase(&h.0, "DKIM-Signature"));
    if has_sig {
        return Ok(());
    }
    c.nontrivial = true;
    let r = env::verify(&env::Mock::records([f.record()]), &h2, &body, &env::config(&env::lax()));
    ensure!(r.len() == 1 && r[0].status == VerificationStatus::Success, "made by hand, not verified: {r:?}");
    Ok(())
}
