//! C13, C14, C19, C20: configuration, key record constraints, result mapping,
//! RFC 8301.

use super::*;
use crate::{
    engine::{facet, table, vtable, Ctx, Res},
    ensure, ensure_eq,
    env::{self, Mock, Plan},
    gen::{self, PRE},
    keys::{self, Key},
    refm::{
        self,
        sig::Alg,
        verify::{Dns, RConfig},
        Hdrs,
    },
    scene,
    text::{self, Forge},
};
use std::{
    io::ErrorKind,
    time::{Duration, SystemTime},
};
use viadkim::{
    crypto::VerificationError as CErr,
    record::DkimKeyRecordError as RK,
    signature::{DkimSignatureError, DkimSignatureErrorKind as SK},
    verifier::{
        Config, DkimResult, PolicyError as PE, VerificationError as VE, VerificationResult,
        VerificationStatus as VS,
    },
};

fn small_key(c: &mut Ctx) -> &'static Key {
    keys::get(c.pick(&["eda", "eda", "edb", "rsa1024", "rsa1025"]))
}

fn note(c: &mut Ctx, h: &Hdrs, body: &[u8], cfg: &Config) {
    c.id(format!("{h:?}{body:?}{cfg:?}"));
    c.note(|| {
        let hs: Vec<String> =
            h.iter().map(|(n, v)| format!("{n}:{}", String::from_utf8_lossy(v).escape_debug())).collect();
        format!("header {hs:#?} body {:?} config {cfg:?}", crate::engine::show(body))
    });
}

fn one(m: &Mock, h: &Hdrs, body: &[u8], cfg: &Config) -> Result<VerificationResult, crate::engine::Failure> {
    let mut r = env::verify(m, h, body, cfg);
    ensure_eq!(r.len(), 1, "number of results");
    Ok(r.pop().unwrap())
}

// ---------------------------------------------------------------- C13

pub static C13: Prop = Prop {
    id: "C13",
    rule: "Signatures that are valid otherwise, with each policy setting on both sides of and exactly at its limit: \
           expiration and timestamp around now and tolerance (fixed and real clock, extreme values), required and \
           must-be-signed names with repeated occurrences and mixed case, every RSA key size with every near minimum, \
           SHA-1, body length shorter than and equal to the body; any number of settings at once; switched off again; \
           maximum numbers of signatures. Non-trivial: some condition holds or is missed by one. Oracle: the \
           documented conditions, on plain integers and lists.",
    facets: &[
        vtable("times", 3 * 8 * 7 * 4 * 2, 3, 60, c13_times),
        facet("times at large", 20_000, 400_000, c13_times_rand),
        facet("real clock", 1_500, 20_000, c13_real_clock),
        facet("header names", 30_000, 800_000, c13_names),
        facet("key sizes", 6_000, 150_000, c13_keys),
        facet("unsigned content", 10_000, 300_000, c13_content),
        facet("combined", 12_000, 400_000, c13_combined),
        facet("number of signatures", 4_000, 120_000, c13_max),
        facet("large", 40, 1_500, |c| large(c, c13_max)),
    ],
    pre: true,
};

/// Everything permitted.
fn open() -> Config {
    Config {
        lookup_timeout: Duration::from_secs(10),
        max_signatures: 10,
        headers_required_in_signature: vec![],
        headers_forbidden_to_be_unsigned: vec![],
        min_key_bits: 0,
        allow_sha1: true,
        forbid_unsigned_content: false,
        allow_expired: true,
        allow_timestamp_in_future: true,
        time_tolerance: Duration::ZERO,
        fixed_system_time: Some(SystemTime::UNIX_EPOCH),
    }
}

fn at(secs: u64, nanos: u32) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::new(secs, nanos)
}

struct One {
    h: Hdrs,
    body: Vec<u8>,
    m: Mock,
}

fn signed(c: &mut Ctx, f: &Forge, h: &Hdrs, body: &[u8]) -> One {
    let s = f.make(c, h, body, None);
    let mut h = h.clone();
    h.insert(0, s);
    One { h, body: body.to_vec(), m: Mock::records([f.record()]) }
}

fn plain() -> Hdrs {
    vec![("From".into(), b" me".to_vec()), ("To".into(), b" you".to_vec())]
}

fn judge_policy(c: &mut Ctx, o: &One, cfg: &Config, want: &[PE]) -> Res {
    note(c, &o.h, &o.body, cfg);
    let r = one(&o.m, &o.h, &o.body, cfg)?;
    if want.is_empty() {
        ensure_eq!(r.status, VS::Success, "status");
    } else {
        let ok = matches!(r.status, VS::Failure(VE::Policy(p)) if want.contains(&p));
        ensure!(ok, "status {:?}, expected a failure due to policy: {want:?}", r.status);
        ensure_eq!(r.status.to_dkim_result(), DkimResult::Policy, "DKIM result");
    }
    Ok(())
}

/// The conditions on times, in wide arithmetic.
fn time_errors(x: Option<u64>, t: Option<u64>, now: u64, tol: u64, cfg: &Config) -> Vec<PE> {
    let mut e = vec![];
    if let Some(x) = x {
        if !cfg.allow_expired && now as i128 >= x as i128 + tol as i128 {
            e.push(PE::SignatureExpired);
        }
    }
    if let Some(t) = t {
        if !cfg.allow_timestamp_in_future && t as i128 > now as i128 + tol as i128 {
            e.push(PE::TimestampInFuture);
        }
    }
    e
}

fn c13_times(c: &mut Ctx) -> Res {
    let i = c.below(3 * 8 * 7 * 4 * 2);
    let which = i % 3; // x, t, both
    let tol = [0u64, 1, 2, 5, 300, 86_400, 1 << 40, u64::MAX][(i / 3 % 8) as usize];
    let off = (i / 24 % 7) as i128 - 3;
    let flags = i / 168 % 4;
    let nanos = [0, 999_999_999][(i / 672 % 2) as usize];
    let now = 1_700_000_000u64;
    let clamp = |v: i128| v.clamp(0, u64::MAX as i128) as u64;
    let x = clamp(now as i128 - tol as i128 + off);
    let t = clamp(now as i128 + tol as i128 + off);
    let mut f = Forge::simple(keys::get("eda"), "example.com", "sel", &["From"]);
    if which != 1 {
        f.x = Some(x);
    }
    if which != 0 {
        f.t = Some(t);
    }
    if which == 2 && f.x <= f.t {
        // must be after the timestamp; only one of the two can be at a limit
        f.x = f.t.map(|t| t.saturating_add(1));
        if f.x == f.t {
            return Ok(());
        }
    }
    let cfg = Config {
        allow_expired: flags & 1 != 0,
        allow_timestamp_in_future: flags & 2 != 0,
        time_tolerance: Duration::new(tol, nanos),
        fixed_system_time: Some(at(now, nanos)),
        ..open()
    };
    let o = signed(c, &f, &plain(), b"x\r\n");
    c.nontrivial = true;
    let e = time_errors(f.x, f.t, now, tol, &cfg);
    judge_policy(c, &o, &cfg, &e)
}

fn c13_times_rand(c: &mut Ctx) -> Res {
    let now = match c.below(5) {
        0 => c.below(5),
        1 => 1_700_000_000,
        2 => (1 << 32) - 2 + c.below(4),
        3 => c.below(1 << 40),
        _ => i64::MAX as u64 - c.below(1 << 34),
    };
    let tol = match c.below(6) {
        0 => 0,
        1 => 300,
        2 => c.below(10),
        3 => now.saturating_sub(2).saturating_add(c.below(5)),
        4 => u64::MAX - c.below(4),
        _ => (u64::MAX - now).saturating_sub(c.below(4)),
    };
    let near = |c: &mut Ctx| {
        let b = match c.below(4) {
            0 => now as i128 + tol as i128,
            1 => now as i128 - tol as i128,
            2 => now as i128,
            _ => c.u64() as i128,
        };
        (b + c.below(9) as i128 - 4).clamp(0, u64::MAX as i128) as u64
    };
    let mut f = Forge::simple(keys::get("eda"), "example.com", "sel", &["From"]);
    if c.chance(2, 3) {
        f.x = Some(near(c));
    }
    if c.chance(2, 3) {
        f.t = Some(near(c));
    }
    if let (Some(x), Some(t)) = (f.x, f.t) {
        if x <= t {
            if c.bool() {
                f.x = None;
            } else {
                f.t = None;
            }
        }
    }
    let nanos = c.pick_copy(&[0, 1, 500_000_000, 999_999_999]);
    let Some(fixed) = SystemTime::UNIX_EPOCH.checked_add(Duration::new(now, nanos)) else { return Ok(()) };
    let before_epoch = now == 0 && c.chance(1, 3);
    let cfg = Config {
        allow_expired: c.chance(1, 5),
        allow_timestamp_in_future: c.chance(1, 5),
        time_tolerance: Duration::new(tol, c.pick_copy(&[0, 1, 999_999_999])),
        fixed_system_time: Some(if before_epoch {
            SystemTime::UNIX_EPOCH - Duration::from_secs(c.below(100_000))
        } else {
            fixed
        }),
        ..open()
    };
    let o = signed(c, &f, &plain(), b"x\r\n");
    let e = time_errors(f.x, f.t, now, tol, &cfg);
    c.nontrivial = f.x.is_some() || f.t.is_some();
    c.class(match (e.is_empty(), c.nontrivial) {
        (true, true) => "within limits",
        (false, _) => "beyond a limit",
        _ => "no times",
    });
    judge_policy(c, &o, &cfg, &e)
}

/// Without a fixed system time, the real one counts.
fn c13_real_clock(c: &mut Ctx) -> Res {
    let now = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
    let tol = c.pick_copy(&[0u64, 300, 5000, 1_000_000]);
    let mut f = Forge::simple(keys::get("eda"), "example.com", "sel", &["From"]);
    // far enough from the limits for the time the check takes
    let d = c.pick_copy(&[1000i128, -1000, 100_000, -100_000]);
    let cfg = Config {
        allow_expired: false,
        allow_timestamp_in_future: false,
        time_tolerance: Duration::from_secs(tol),
        fixed_system_time: None,
        ..open()
    };
    let e = if c.bool() {
        let x = (now as i128 - tol as i128 + d).max(0) as u64;
        f.x = Some(x);
        time_errors(Some(x), None, now, tol, &cfg)
    } else {
        let t = (now as i128 + tol as i128 + d) as u64;
        f.t = Some(t);
        time_errors(None, Some(t), now, tol, &cfg)
    };
    // (case identity must not depend on the clock)
    c.id(format!("{tol}{d}{}", f.x.is_some()));
    c.nontrivial = true;
    let o = signed(c, &f, &plain(), b"x\r\n");
    let r = one(&o.m, &o.h, &o.body, &cfg)?;
    let got = match &r.status {
        VS::Success => vec![],
        VS::Failure(VE::Policy(p)) => vec![*p],
        s => return crate::engine::fail(format!("status {s:?}")),
    };
    ensure_eq!(got, e, "policy error for x={:?} t={:?} at {now} with tolerance {tol}", f.x, f.t);
    Ok(())
}

fn mixed(c: &mut Ctx, s: &str) -> String {
    gen::case_mix(c, s)
}

fn c13_names(c: &mut Ctx) -> Res {
    const N: [&str; 6] = ["From", "To", "X", "Xa", "Subject", "Absent"];
    let n = c.range(0, 6);
    let mut h: Hdrs = vec![];
    for k in 0..n {
        let s = c.pick(&N[..5]);
        h.push((mixed(c, s), format!(" {k}").into_bytes()));
    }
    let pos = c.idx(h.len() + 1);
    h.insert(pos, (mixed(c, "From"), b" me".to_vec()));
    let mut signed_h: Vec<String> = vec![];
    // about as many as there are
    for (name, _) in &h {
        if c.chance(3, 4) {
            signed_h.push(name.clone());
        }
    }
    let extra = c.below(3);
    for _ in 0..extra {
        let s = c.pick(&N);
        signed_h.push(mixed(c, s));
    }
    if !signed_h.iter().any(|x| refm::eq_nocase(x, "From")) {
        signed_h.push("From".into());
    }
    text::shuffle(c, &mut signed_h);
    let mut f = Forge::simple(keys::get("eda"), "example.com", "sel", &[]);
    f.h = signed_h.clone();
    f.hc = c.bool();
    let list = |c: &mut Ctx, w: u64| -> Vec<String> {
        let n = if c.chance(w, 10) { c.range(1, 3) } else { 0 };
        (0..n)
            .map(|_| {
                let s = c.pick(&N);
                mixed(c, s)
            })
            .collect()
    };
    let (req, forb) = (list(c, 5), list(c, 7));
    let cfg = Config {
        headers_required_in_signature: env::names(&req),
        headers_forbidden_to_be_unsigned: env::names(&forb),
        ..open()
    };
    let count = |v: &[String], n: &str| v.iter().filter(|x| x.eq_ignore_ascii_case(n)).count();
    let present: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    let mut e = vec![];
    if req.iter().any(|r| count(&signed_h, r) == 0) {
        e.push(PE::RequiredHeaderNotSigned);
    }
    if forb.iter().any(|r| count(&signed_h, r) < count(&present, r)) {
        e.push(PE::UnsignedHeaderOccurrence);
    }
    c.class(if e.is_empty() { "accepted" } else { "refused" });
    c.nontrivial = !req.is_empty() || !forb.is_empty();
    let o = signed(c, &f, &h, b"x\r\n");
    judge_policy(c, &o, &cfg, &e)?;
    if e.len() == 1 {
        // switched off
        let mut cfg = cfg;
        if e[0] == PE::RequiredHeaderNotSigned {
            cfg.headers_required_in_signature.clear();
        } else {
            cfg.headers_forbidden_to_be_unsigned.clear();
        }
        judge_policy(c, &o, &cfg, &[])?;
    }
    Ok(())
}

fn c13_keys(c: &mut Ctx) -> Res {
    let key = keys::acceptable()[c.idx(keys::acceptable().len())];
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    let min = match c.weighted(&[6, 1, 1]) {
        0 => (key.bits + c.range(0, 17)).saturating_sub(8),
        1 => c.pick_copy(&[0, 1, 512, 1024, 2048, 2049, 4096, usize::MAX]),
        _ => c.range(500, 4200),
    };
    let sha1 = PRE && key.is_rsa() && c.chance(1, 3);
    if sha1 {
        f.alg = Alg::RsaSha1;
    }
    let cfg = Config { min_key_bits: min, allow_sha1: c.bool(), ..open() };
    let e = if sha1 && !cfg.allow_sha1 {
        vec![PE::Sha1HashAlgorithm]
    } else if key.is_rsa() && key.bits < min {
        vec![PE::KeyTooSmall]
    } else {
        vec![]
    };
    c.class(if e.is_empty() { "accepted" } else { "refused" });
    c.nontrivial = key.is_rsa();
    let o = signed(c, &f, &plain(), b"x\r\n");
    judge_policy(c, &o, &cfg, &e)
}

fn c13_content(c: &mut Ctx) -> Res {
    let body = gen::body(c);
    let mut f = Forge::simple(keys::get("eda"), "example.com", "sel", &["From"]);
    f.bc = c.bool();
    if f.bc && refm::canon::relaxed_unspecified(&body) {
        f.bc = false;
    }
    let n = refm::canon::body(f.bc, &body).len() as u64;
    f.l = match c.weighted(&[1, 4, 4, 2]) {
        0 => None,
        1 => Some(n),
        2 => Some(n.saturating_sub(1 + c.below(3))),
        _ => Some(c.below(n + 1)),
    };
    let forbid = c.chance(2, 3);
    let cfg = Config { forbid_unsigned_content: forbid, ..open() };
    let short = f.l.is_some_and(|l| l < n);
    c.nontrivial = f.l.is_some();
    c.class(if short { "content left unsigned" } else { "all signed" });
    let o = signed(c, &f, &plain(), &body);
    note(c, &o.h, &o.body, &cfg);
    let chunks = gen::chunks(c, &body);
    let r = env::verify_full(&o.m, &o.h, &chunks, &cfg, c.bool()).results.unwrap();
    let want = if short && forbid { VS::Failure(VE::Policy(PE::UnsignedContent)) } else { VS::Success };
    ensure_eq!(r[0].status, want, "status for l={:?} of {n} bytes, forbidden {forbid}", f.l);
    Ok(())
}

/// Any settings at once; then those that hit are switched off one after another.
fn c13_combined(c: &mut Ctx) -> Res {
    let mut h = gen::small_hdrs(c, 5);
    h.push((mixed(c, "From"), b" me".to_vec()));
    let body = b"hello\r\nyou\r\n".to_vec();
    let now = 1_700_000_000;
    let key = small_key(c);
    let mut f = Forge::simple(key, "example.com", "sel", &[]);
    f.alg = gen::alg_for(c, key);
    f.h = gen::signed_names(c, &h);
    if c.bool() {
        f.x = Some(now + c.below(3) - 1);
    }
    if c.bool() {
        f.t = Some(now + c.below(3) - 1);
    }
    if let (Some(x), Some(t)) = (f.x, f.t) {
        if x <= t {
            f.x = None;
        }
    }
    if c.bool() {
        f.l = Some(c.pick_copy(&[0, 3, 11, 12]));
    }
    let list = |c: &mut Ctx| -> Vec<String> {
        let n = c.below(3);
        (0..n)
            .map(|_| {
                let i = c.idx(h.len());
                mixed(c, &h[i].0)
            })
            .collect()
    };
    let (req, forb) = (list(c), list(c));
    let mut cfg = Config {
        headers_required_in_signature: env::names(&req),
        headers_forbidden_to_be_unsigned: env::names(&forb),
        min_key_bits: c.pick_copy(&[0, 1024, 1025, 2048]),
        allow_sha1: c.bool(),
        forbid_unsigned_content: c.bool(),
        allow_expired: c.bool(),
        allow_timestamp_in_future: c.bool(),
        fixed_system_time: Some(at(now, 0)),
        ..open()
    };
    let count = |v: &[String], n: &str| v.iter().filter(|x| x.eq_ignore_ascii_case(n)).count();
    let present: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    let mut e = vec![];
    if req.iter().any(|r| count(&f.h, r) == 0) {
        e.push(PE::RequiredHeaderNotSigned);
    }
    if forb.iter().any(|r| count(&f.h, r) < count(&present, r)) {
        e.push(PE::UnsignedHeaderOccurrence);
    }
    e.extend(time_errors(f.x, f.t, now, 0, &cfg));
    if f.alg == Alg::RsaSha1 && !cfg.allow_sha1 {
        e.push(PE::Sha1HashAlgorithm);
    }
    let mut phases = vec![e];
    phases.push(if key.is_rsa() && key.bits < cfg.min_key_bits { vec![PE::KeyTooSmall] } else { vec![] });
    phases.push(if f.l.is_some_and(|l| l < 12) && cfg.forbid_unsigned_content { vec![PE::UnsignedContent] } else { vec![] });
    let o = signed(c, &f, &h, &body);
    c.nontrivial = phases.iter().any(|p| !p.is_empty());
    loop {
        let want = phases.iter().find(|p| !p.is_empty()).cloned().unwrap_or_default();
        judge_policy(c, &o, &cfg, &want)?;
        c.extra_evals += 1;
        if want.is_empty() {
            return Ok(());
        }
        let r = one(&o.m, &o.h, &o.body, &cfg)?;
        let VS::Failure(VE::Policy(p)) = r.status else { unreachable!() };
        match p {
            PE::RequiredHeaderNotSigned => cfg.headers_required_in_signature.clear(),
            PE::UnsignedHeaderOccurrence => cfg.headers_forbidden_to_be_unsigned.clear(),
            PE::UnsignedContent => cfg.forbid_unsigned_content = false,
            PE::SignatureExpired => cfg.allow_expired = true,
            PE::TimestampInFuture => cfg.allow_timestamp_in_future = true,
            PE::Sha1HashAlgorithm => cfg.allow_sha1 = true,
            PE::KeyTooSmall => cfg.min_key_bits = 0,
        }
        for ph in &mut phases {
            ph.retain(|x| *x != p);
        }
    }
}

fn c13_max(c: &mut Ctx) -> Res {
    let s = scene::any(c, if c.large { 40 } else { 9 });
    let mut cfg = s.cfg.clone();
    cfg.max_signatures = usize::MAX;
    let m = s.mock();
    let all = env::verify(&m, &s.hdrs, &s.body, &env::config(&cfg));
    let total = s.hdrs.iter().filter(|h| h.0.eq_ignore_ascii_case("DKIM-Signature")).count();
    ensure_eq!(all.len(), total, "number of results without a maximum");
    s.note(c);
    for max in 0..=total + 1 {
        cfg.max_signatures = max;
        let m = s.mock();
        let r = env::verify(&m, &s.hdrs, &s.body, &env::config(&cfg));
        c.extra_evals += 1;
        c.nontrivial |= max < total;
        ensure!(
            r.len() == total.min(max) && r[..] == all[..r.len()],
            "with maximum {max} of {total} signatures, results differ from the first {max} of all:\n   got {r:?}\n   all {all:?}"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub static C14: Prop = Prop {
    id: "C14",
    rule: "Valid signatures with one key record over all combinations of key type, hash list, flags, key data and \
           identity; with 1 to 7 records of known kinds in any order; several signatures that share the records. \
           Non-trivial: a record with a constraint, or several records. Oracle: the expected status of each record \
           kind by construction, and the rule success of any tried, else the last.",
    facets: &[
        vtable("one record", 2 * 6 * 10 * 8 * 9, 2, 40, c14_one),
        facet("several records", 15_000, 500_000, c14_several),
        facet("shared records", 8_000, 250_000, c14_shared),
        facet("no subdomains", 8_000, 250_000, c14_subdomains),
    ],
    pre: true,
};

fn p_of(k: &Key) -> String {
    refm::b64_encode(if k.is_rsa() { &k.spki } else { &k.raw })
}

fn c14_one(c: &mut Ctx) -> Res {
    let i = c.below(2 * 6 * 10 * 8 * 9) as usize;
    let key = keys::get(["eda", "rsa1024"][i % 2]);
    // (text, key type; None: unsupported)
    let (kt, kty) = [
        ("", Some(true)),
        ("k=rsa;", Some(true)),
        ("k=ed25519;", Some(false)),
        ("k=RSA ;", Some(true)),
        ("k=Ed25519;", Some(false)),
        ("k=foo;", None),
    ][i / 2 % 6];
    // (text, sha256 ok, sha1 ok)
    let (ht, h256, h1) = [
        ("", true, true),
        ("h=sha256;", true, false),
        ("h=sha1;", false, true),
        ("h=sha1:sha256;", true, true),
        ("h=foo;", false, false),
        ("h=foo:SHA256;", true, false),
        ("h=Sha1 : x;", false, true),
        ("h=sha256:sha256;", true, false),
        ("h=sha2 : sha512;", false, false),
        ("h= sha256 : foo ;", true, false),
    ][i / 12 % 10];
    // (text, no subdomains)
    let (tt, nosub) = [
        ("", false),
        ("t=y;", false),
        ("t=s;", true),
        ("t=y:s;", true),
        ("t=S;", true),
        ("t=foo:s:bar;", true),
        ("t=sy;", false),
        ("t=foo;", false),
    ][i / 120 % 8];
    let (it, differs) = [
        (None, false),
        (Some("@example.com"), false),
        (Some("joe@example.com"), false),
        (Some("@EXAMPLE.com"), false),
        (Some("@sub.example.com"), true),
        (Some("joe@a.b.example.com"), true),
        (Some("=40sub.Example.com"), true),
        (Some("joe@Example.COM"), false),
        (Some("@example.com.example.com"), true),
    ][i / 960 % 9];
    let sha1 = PRE && key.is_rsa() && i / 7 % 3 == 0;
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    f.i = it.map(|s| s.replace("=40", "@"));
    if sha1 {
        f.alg = Alg::RsaSha1;
    }
    let ptxt = ["p=", "p=YWJj", "x"][if i / 11 % 23 == 0 { i / 3 % 2 } else { 2 }];
    let p = if ptxt == "x" { format!("p={}", p_of(key)) } else { ptxt.to_owned() };
    let txt = format!("v=DKIM1;{kt}{ht}{tt}{p}");
    c.id(format!("{i}"));
    c.note(|| format!("{txt} with {} i={:?}", f.alg.name(), f.i));
    c.nontrivial = true;

    let usable_hash = h256 || (PRE && h1);
    let mut want: Vec<VE> = vec![];
    if kty.is_none() {
        want.push(VE::KeyRecordFormat(RK::UnsupportedKeyType));
    }
    if !usable_hash {
        want.push(VE::KeyRecordFormat(RK::NoSupportedHashAlgorithms));
    }
    if want.is_empty() {
        if kty != Some(key.is_rsa()) {
            want.push(VE::WrongKeyType);
        }
        if ptxt == "p=" {
            want.push(VE::KeyRevoked);
        }
        if !(if sha1 { h1 } else { h256 }) {
            want.push(VE::DisallowedHashAlgorithm);
        }
        if nosub && differs {
            want.push(VE::DomainMismatch);
        }
        if want.is_empty() && ptxt == "p=YWJj" {
            want.push(VE::VerificationFailure(CErr::InvalidKey));
        }
    }
    let s = f.make(c, &plain(), b"x\r\n", None);
    let mut h = plain();
    h.insert(0, s);
    let m = Mock::records([(f.record_name(), txt.into_bytes())]);
    let r = one(&m, &h, b"x\r\n", &open())?;
    match &r.status {
        VS::Success => ensure!(want.is_empty(), "success, expected one of {want:?}"),
        VS::Failure(e) => ensure!(want.contains(e), "failure {e:?}, expected {want:?} (empty: success)"),
    }
    Ok(())
}

/// A record, and what it leads to for an Ed25519 signature made with `eda`.
fn known_record(c: &mut Ctx, key: &'static Key, sub: bool) -> (Result<Vec<u8>, ErrorKind>, Result<(), VE>) {
    let other = if key.is_rsa() {
        keys::get(if key.name == "rsa1024b" { "rsa1024" } else { "rsa1024b" })
    } else {
        keys::get(if key.name == "edb" { "eda" } else { "edb" })
    };
    let wrong_type = if key.is_rsa() { keys::get("eda") } else { keys::get("rsa1024") };
    let k = key.k();
    let p = p_of(key);
    let (t, e): (String, Result<(), VE>) = match c.weighted(&[4, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1]) {
        0 => (format!("{}k={k};p={p}", c.pick(&["v=DKIM1;", "", "v=DKIM1; t=y;", "n=x;"])), Ok(())),
        1 => (
            format!("k={k};p={}", p_of(other)),
            Err(VE::VerificationFailure(CErr::VerificationFailure)),
        ),
        2 => (format!("k={};p={}", wrong_type.k(), p_of(wrong_type)), Err(VE::WrongKeyType)),
        3 => (format!("v=DKIM1;k={k};p="), Err(VE::KeyRevoked)),
        4 => (format!("k={k};h=foo;p={p}"), Err(VE::KeyRecordFormat(RK::NoSupportedHashAlgorithms))),
        5 => (
            format!("k={k};t=s;p={p}"),
            if sub { Err(VE::DomainMismatch) } else { Ok(()) },
        ),
        6 => (format!("k=foo;p={p}"), Err(VE::KeyRecordFormat(RK::UnsupportedKeyType))),
        7 => (format!("p={p};;"), Err(VE::KeyRecordFormat(RK::TagListFormat))),
        8 => (format!("k={k}"), Err(VE::KeyRecordFormat(RK::MissingKeyTag))),
        9 => (format!("v=DKIM2;k={k};p={p}"), Err(VE::KeyRecordFormat(RK::IncompatibleVersion))),
        10 => (format!("k={k};p=YWJj"), Err(VE::VerificationFailure(CErr::InvalidKey))),
        11 => {
            let b = format!("k={k};p={p};n=\u{e9}").chars().map(|c| c as u8).collect::<Vec<u8>>();
            return (Ok(b), Err(VE::KeyRecordFormat(RK::RecordFormat)));
        }
        _ => return (Err(c.pick_copy(&scene::KINDS)), Err(VE::KeyRecordFormat(RK::RecordFormat))),
    };
    (Ok(t.into_bytes()), e)
}

/// Acceptable statuses for the given records; `None` if which are tried is not
/// determined.
fn of_records(rs: &[Result<(), VE>]) -> Option<Result<(), VE>> {
    let n = rs.len();
    if rs[..n.min(2)].iter().any(|r| r.is_ok()) || rs[n - 1].is_ok() {
        return Some(Ok(()));
    }
    if rs.iter().any(|r| r.is_ok()) {
        return None;
    }
    Some(rs[n - 1].clone())
}

fn same(got: &VS, want: &Result<(), VE>) -> bool {
    match (got, want) {
        (VS::Success, Ok(())) => true,
        (VS::Failure(a), Err(b)) => a == b,
        _ => false,
    }
}

fn c14_several(c: &mut Ctx) -> Res {
    let key = small_key(c);
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    let sub = c.bool();
    f.i = if sub { Some("@x.example.com".into()) } else { None };
    let n = c.range(1, 7);
    let rs: Vec<_> = (0..n).map(|_| known_record(c, key, sub)).collect();
    let want = of_records(&rs.iter().map(|r| r.1.clone()).collect::<Vec<_>>());
    let s = f.make(c, &plain(), b"x\r\n", None);
    let mut h = plain();
    h.insert(0, s);
    let plan = Plan { delay: Some(0), answer: Dns::Records(rs.iter().map(|r| r.0.clone()).collect()) };
    c.note(|| scene::show_plan(&plan));
    c.id(scene::show_plan(&plan));
    c.id(key.name);
    let m = Mock::new([(f.record_name(), plan)].into(), None);
    c.nontrivial = n > 1;
    let r = one(&m, &h, b"x\r\n", &open())?;
    match want {
        None => c.class("not determined"),
        Some(w) => {
            c.class(if w.is_ok() { "success" } else { "failure" });
            ensure!(same(&r.status, &w), "status {:?}, expected {w:?}", r.status);
            // the record reported is the one the status is due to
            if let (VS::Success, Some(k)) = (&r.status, &r.key_record) {
                let d = if key.is_rsa() { &key.spki } else { &key.raw };
                ensure!(&k.key_data[..] == &d[..], "reported key record is not the one that led to success");
            }
            ensure_eq!(
                r.key_record.is_some(),
                !matches!(&r.status, VS::Failure(VE::KeyRecordFormat(_))),
                "presence of key record"
            );
        }
    }
    Ok(())
}

/// Several signatures looking up the same records, each with its own outcome.
fn c14_shared(c: &mut Ctx) -> Res {
    let n = c.range(2, 4);
    let body = b"x\r\n";
    let nrec = c.range(1, 4);
    let (key_a, key_b) = (keys::get("eda"), keys::get("rsa1024"));
    // each record: which key, s flag, allowed hashes
    let mut recs = vec![];
    for _ in 0..nrec {
        let k = if c.bool() { key_b } else { key_a };
        let s = c.bool();
        let h = c.weighted(&[3, 1, 1]);
        let p = c.weighted(&[5, 1]);
        recs.push((k, s, h, p));
    }
    let txts: Vec<Result<Vec<u8>, ErrorKind>> = recs
        .iter()
        .map(|(k, s, h, p)| {
            let mut t = format!("v=DKIM1;k={};", k.k());
            if *s {
                t.push_str("t=s;");
            }
            t.push_str(["", "h=sha256;", "h=sha1:foo;"][*h]);
            t.push_str("p=");
            if *p == 0 {
                t.push_str(&p_of(k));
            }
            Ok(t.into_bytes())
        })
        .collect();
    let mut h = plain();
    let mut wants = vec![];
    let mut sigs = vec![];
    for k in 0..n {
        let key = if c.bool() { key_b } else { key_a };
        let mut f = Forge::simple(key, "Example.com", c.pick(&["sel", "SEL"]), &["From"]);
        f.alg = gen::alg_for(c, key);
        let sub = c.bool();
        f.i = sub.then(|| "@x.example.com".to_owned());
        f.ext.push(("k".into(), k.to_string()));
        let broken = c.chance(1, 6);
        let mut s = f.make(c, &h, body, broken.then(|| vec![1; 32]));
        if c.chance(1, 8) {
            s.0 = "dkim-signature".into();
        }
        let outs: Vec<Result<(), VE>> = recs
            .iter()
            .map(|(rk, sflag, hs, p)| {
                if *hs == 2 && !PRE {
                    return Err(VE::KeyRecordFormat(RK::NoSupportedHashAlgorithms));
                }
                if rk.is_rsa() != key.is_rsa() {
                    return Err(VE::WrongKeyType);
                }
                if *p != 0 {
                    return Err(VE::KeyRevoked);
                }
                let sha1 = f.alg == Alg::RsaSha1;
                if (*hs == 1 && sha1) || (*hs == 2 && !sha1) {
                    return Err(VE::DisallowedHashAlgorithm);
                }
                if *sflag && sub {
                    return Err(VE::DomainMismatch);
                }
                Ok(())
            })
            .collect();
        let mut w = of_records(&outs);
        if broken && w == Some(Ok(())) {
            w = Some(Err(VE::BodyHashMismatch));
        }
        // (with several things wrong, any of them may be named)
        let multi = recs.last().is_some_and(|(rk, sf, hs, p)| {
            let sha1 = f.alg == Alg::RsaSha1;
            let wrong = [
                rk.is_rsa() != key.is_rsa(),
                *p != 0,
                (*hs == 1 && sha1) || (*hs == 2 && !sha1),
                *sf && sub,
            ];
            wrong.iter().filter(|x| **x).count() > 1 && !(*hs == 2 && !PRE)
        });
        wants.push((w, multi));
        sigs.push((f, s));
    }
    let name = sigs[0].0.record_name();
    // the header name is signed, so a changed case needs relaxed: it is
    let hs: Vec<_> = sigs.iter().map(|x| x.1.clone()).collect();
    scene::insert(c, &mut h, hs);
    let plan = Plan { delay: Some(0), answer: Dns::Records(txts) };
    c.note(|| scene::show_plan(&plan));
    note(c, &h, body, &open());
    c.id(scene::show_plan(&plan));
    c.nontrivial = true;
    let m = Mock::new([(name, plan)].into(), None);
    let res = env::verify(&m, &h, body, &open());
    ensure_eq!(res.len(), n, "number of results");
    for (i, (r, (w, multi))) in res.iter().zip(&wants).enumerate() {
        if let Some(w) = w {
            if *multi && w.is_err() {
                ensure!(r.status != VS::Success, "signature {i}: success, expected {w:?}");
            } else {
                ensure!(same(&r.status, w), "signature {i}: status {:?}, expected {w:?}", r.status);
            }
        }
    }
    Ok(())
}

/// The flag compares domains in ASCII form, ignoring case.
fn c14_subdomains(c: &mut Ctx) -> Res {
    const BASE: [(&str, &str); 5] = [
        ("example.com", "example.com"),
        ("b\u{fc}cher.example", "xn--bcher-kva.example"),
        ("a.\u{4f8b}\u{3048}.\u{30c6}\u{30b9}\u{30c8}", "a.xn--r8jz45g.xn--zckzah"),
        ("x_y.mail.example", "x_y.mail.example"),
        ("stra\u{df}e.example", "xn--strae-oqa.example"),
    ];
    let (u, a) = BASE[c.idx(BASE.len())];
    let form = |c: &mut Ctx| match c.below(4) {
        0 => u.to_owned(),
        1 => a.to_owned(),
        2 => a.to_ascii_uppercase(),
        _ => u.to_uppercase().replace("SS", "\u{df}"),
    };
    let d = form(c);
    let mut i = form(c);
    let below = c.chance(1, 2);
    if below {
        i = format!("{}.{i}", c.pick(&["x", "\u{e4}", "XN--4CA", "a.b"]));
    }
    // the last kind of form might not be the same name for every letter
    let asc = |s: &str| refm::sig::name_to_ascii(s, true).map(|x| x.to_ascii_lowercase());
    let (Some(da), Some(ia)) = (asc(&d), asc(&i)) else { return Ok(()) };
    if !refm::sig::eq_or_below(&ia, &da) {
        return Ok(());
    }
    let differs = ia != da;
    let mut f = Forge::simple(keys::get("eda"), &d, "sel", &["From"]);
    f.i = Some(format!("{}@{i}", c.pick(&["", "joe"])));
    let s = f.make(c, &plain(), b"x\r\n", None);
    let mut h = plain();
    h.insert(0, s);
    let flag = c.bool();
    let txt = format!("k=ed25519;{}p={}", if flag { c.pick(&["t=s;", "t=y:s;", "t=S ;"]) } else { "" }, p_of(f.key));
    let m = Mock::records([(f.record_name(), txt.into_bytes())]);
    note(c, &h, b"x\r\n", &open());
    c.id([flag as u8]);
    c.nontrivial = flag;
    let r = one(&m, &h, b"x\r\n", &open())?;
    let want = if flag && differs { VS::Failure(VE::DomainMismatch) } else { VS::Success };
    ensure_eq!(r.status, want, "status for d={d} i={i}, flag s {flag}");
    Ok(())
}

// ---------------------------------------------------------------- C19

pub static C19: Prop = Prop {
    id: "C19",
    rule: "Every verification status, constructed directly with arbitrary attached data, and statuses arising from \
           verification of generated scenes. Non-trivial: a failure status. Oracle: table of documented results.",
    facets: &[
        table("all statuses", (ALL_STATUSES * 4) as u64, c19_all),
        table("keywords", 7, c19_keywords),
        facet("arising", 15_000, 400_000, c19_arising),
    ],
    pre: true,
};

const FORMAT: [(SK, DkimResult); 30] = {
    use DkimResult::{Neutral as N, Permerror as P};
    [
        (SK::Utf8Encoding, N),
        (SK::TagListFormat, N),
        (SK::IncompatibleVersion, N),
        (SK::UnsupportedAlgorithm, N),
        (SK::InvalidBase64, N),
        (SK::UnsupportedCanonicalization, N),
        (SK::InvalidDomain, N),
        (SK::InvalidSignedHeaderName, N),
        (SK::InvalidIdentity, N),
        (SK::InvalidBodyLength, N),
        (SK::InvalidQueryMethod, N),
        (SK::NoSupportedQueryMethods, N),
        (SK::InvalidSelector, N),
        (SK::InvalidTimestamp, N),
        (SK::InvalidExpiration, N),
        (SK::InvalidCopiedHeaderField, N),
        (SK::HistoricAlgorithm, P),
        (SK::EmptySignatureTag, P),
        (SK::EmptyBodyHashTag, P),
        (SK::EmptySignedHeadersTag, P),
        (SK::FromHeaderNotSigned, P),
        (SK::MissingVersionTag, P),
        (SK::MissingAlgorithmTag, P),
        (SK::MissingSignatureTag, P),
        (SK::MissingBodyHashTag, P),
        (SK::MissingDomainTag, P),
        (SK::MissingSignedHeadersTag, P),
        (SK::MissingSelectorTag, P),
        (SK::DomainMismatch, P),
        (SK::ExpirationNotAfterTimestamp, P),
    ]
};

const RECORD: [(RK, DkimResult); 13] = {
    use DkimResult::{Neutral as N, Permerror as P};
    [
        (RK::RecordFormat, N),
        (RK::TagListFormat, N),
        (RK::IncompatibleVersion, N),
        (RK::InvalidHashAlgorithm, N),
        (RK::NoSupportedHashAlgorithms, N),
        (RK::UnsupportedKeyType, N),
        (RK::InvalidQuotedPrintable, N),
        (RK::InvalidBase64, N),
        (RK::InvalidServiceType, N),
        (RK::NoSupportedServiceTypes, N),
        (RK::InvalidFlag, N),
        (RK::MisplacedVersionTag, P),
        (RK::MissingKeyTag, P),
    ]
};

const OTHER: [(VE, DkimResult); 22] = {
    use DkimResult::{Fail, Neutral, Permerror, Policy, Temperror};
    [
        (VE::Overflow, Neutral),
        (VE::NoKeyFound, Permerror),
        (VE::InvalidKeyDomain, Permerror),
        (VE::Timeout, Temperror),
        (VE::KeyLookup, Temperror),
        (VE::WrongKeyType, Permerror),
        (VE::KeyRevoked, Permerror),
        (VE::DisallowedHashAlgorithm, Permerror),
        (VE::DomainMismatch, Permerror),
        (VE::VerificationFailure(CErr::InvalidKey), Permerror),
        (VE::VerificationFailure(CErr::InsufficientKeySize), Permerror),
        (VE::VerificationFailure(CErr::VerificationFailure), Fail),
        (VE::InsufficientContent, Permerror),
        (VE::BodyHashMismatch, Fail),
        (VE::Policy(PE::RequiredHeaderNotSigned), Policy),
        (VE::Policy(PE::UnsignedHeaderOccurrence), Policy),
        (VE::Policy(PE::UnsignedContent), Policy),
        (VE::Policy(PE::SignatureExpired), Policy),
        (VE::Policy(PE::TimestampInFuture), Policy),
        (VE::Policy(PE::Sha1HashAlgorithm), Policy),
        (VE::Policy(PE::KeyTooSmall), Policy),
        (VE::Policy(PE::KeyTooSmall), Policy),
    ]
};

const ALL_STATUSES: usize = 1 + 30 + 13 + 22;

fn documented(s: &VS) -> DkimResult {
    match s {
        VS::Success => DkimResult::Pass,
        VS::Failure(VE::DkimSignatureFormat(e)) => FORMAT.iter().find(|x| x.0 == e.kind).unwrap().1,
        VS::Failure(VE::KeyRecordFormat(e)) => RECORD.iter().find(|x| x.0 == *e).unwrap().1,
        VS::Failure(e) => OTHER.iter().find(|x| x.0 == *e).unwrap().1,
    }
}

fn judge_mapping(s: &VS) -> Res {
    let want = documented(s);
    ensure_eq!(s.to_dkim_result(), want, "DKIM result of {s:?}");
    ensure_eq!(s.clone().to_dkim_result(), want, "DKIM result of a copy of {s:?}");
    // what it is due to can be shown
    if let VS::Failure(e) = s {
        use std::error::Error;
        ensure!(!e.to_string().is_empty(), "no text for {e:?}");
        let mut src = e.source();
        while let Some(x) = src {
            ensure!(!x.to_string().is_empty(), "no text for {x:?}");
            src = x.source();
        }
    }
    Ok(())
}

fn c19_all(c: &mut Ctx) -> Res {
    let i = c.below((ALL_STATUSES * 4) as u64) as usize;
    let (k, extra) = (i % ALL_STATUSES, i / ALL_STATUSES);
    let s = match k {
        0 => VS::Success,
        1..=30 => {
            let mut e = DkimSignatureError::new(FORMAT[k - 1].0);
            let x = |b: bool| b.then(|| Box::<str>::from("x"));
            e.algorithm_str = x(extra & 1 != 0);
            e.signature_data_str = x(extra & 2 != 0);
            e.domain_str = x(extra == 3);
            VS::Failure(VE::DkimSignatureFormat(e))
        }
        31..=43 => VS::Failure(VE::KeyRecordFormat(RECORD[k - 31].0)),
        _ => VS::Failure(OTHER[k - 44].0.clone()),
    };
    c.id(format!("{s:?}"));
    c.note(|| format!("{s:?} is {:?}", documented(&s)));
    c.nontrivial = s != VS::Success;
    judge_mapping(&s)
}

fn c19_keywords(c: &mut Ctx) -> Res {
    let i = c.below(7) as usize;
    let (r, k) = [
        (DkimResult::None, "none"),
        (DkimResult::Pass, "pass"),
        (DkimResult::Fail, "fail"),
        (DkimResult::Policy, "policy"),
        (DkimResult::Neutral, "neutral"),
        (DkimResult::Temperror, "temperror"),
        (DkimResult::Permerror, "permerror"),
    ][i];
    c.id(k);
    c.nontrivial = true;
    ensure_eq!(r.to_string(), k, "keyword");
    ensure_eq!(format!("{r:?}"), k, "debug form");
    Ok(())
}

fn c19_arising(c: &mut Ctx) -> Res {
    let s = scene::any(c, 4);
    s.note(c);
    let r = super::verify::run(c, &s);
    // the result that the reference's status leads to
    let mut dns = scene::dns_of(&s.plans, 10_000);
    let want = refm::verify::verify(&s.hdrs, &s.body, &s.cfg, PRE, &mut dns);
    for (r, w) in r.iter().zip(&want) {
        c.nontrivial |= r.status != VS::Success;
        let got = r.status.to_dkim_result();
        c.class(match got {
            DkimResult::None => "none",
            DkimResult::Pass => "pass",
            DkimResult::Fail => "fail",
            DkimResult::Policy => "policy",
            DkimResult::Neutral => "neutral",
            DkimResult::Temperror => "temperror",
            DkimResult::Permerror => "permerror",
        });
        judge_mapping(&r.status)?;
        if let Some(e) = &w.status {
            use refm::verify::Exp;
            let mut res = vec![];
            for e in e {
                match e {
                    Exp::Success => res.push(DkimResult::Pass),
                    Exp::Format(k) => res.extend(k.iter().map(|k| FORMAT.iter().find(|x| x.0 == *k).unwrap().1)),
                    Exp::Record(k) => res.extend(k.iter().map(|k| RECORD.iter().find(|x| x.0 == *k).unwrap().1)),
                    Exp::Err(e) => res.push(documented(&VS::Failure(e.clone()))),
                }
            }
            ensure!(res.contains(&got), "result {got} for {:?}, expected {res:?}", r.status);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

pub static C20: Prop = Prop {
    id: "C20",
    rule: "Signatures by every RSA test key (512 to 4096 bits), and keys of any other size without a known private key, \
           with each algorithm the build knows and the name rsa-sha1 in any case, under configurations that try to \
           permit everything; records that name sha1; both builds. Non-trivial: a small key or SHA-1. Oracle: the \
           limits of RFC 8301 by bit size.",
    facets: &[
        vtable("keys and configurations", 15 * 2 * 14 * 2, 2, 30, c20_table),
        facet("any modulus", 4_000, 100_000, c20_modulus),
        facet("sha1", 8_000, 200_000, c20_sha1),
        facet("scenes", 8_000, 300_000, c20_scenes),
    ],
    pre: true,
};

fn hard_min() -> usize {
    if PRE { 512 } else { 1024 }
}

fn c20_table(c: &mut Ctx) -> Res {
    let i = c.below(15 * 2 * 14 * 2) as usize;
    let key = &keys::all()[i % 15];
    let sha1 = i / 15 % 2 == 1;
    let min = [0, 1, 511, 512, 513, 768, 1016, 1017, 1023, 1024, 1025, 2048, 2049, 4096][i / 30 % 14];
    let allow = i / 420 % 2 == 1;
    if !key.is_rsa() && sha1 {
        return Ok(());
    }
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    if sha1 {
        f.alg = Alg::RsaSha1;
    }
    let cfg = Config { min_key_bits: min, allow_sha1: allow, ..open() };
    let o = signed(c, &f, &plain(), b"x\r\n");
    note(c, &o.h, &o.body, &cfg);
    c.nontrivial = sha1 || key.is_rsa() && key.bits < 1024;
    let r = one(&o.m, &o.h, &o.body, &cfg)?;
    let want = if sha1 && !PRE {
        ensure!(
            matches!(&r.status, VS::Failure(VE::DkimSignatureFormat(e)) if e.kind == SK::HistoricAlgorithm),
            "SHA-1 signature: {:?}",
            r.status
        );
        return Ok(());
    } else if sha1 && !allow {
        VS::Failure(VE::Policy(PE::Sha1HashAlgorithm))
    } else if key.is_rsa() && key.bits < hard_min() {
        VS::Failure(VE::VerificationFailure(CErr::InsufficientKeySize))
    } else if key.is_rsa() && key.bits < min {
        VS::Failure(VE::Policy(PE::KeyTooSmall))
    } else {
        VS::Success
    };
    ensure_eq!(r.status, want, "{} with {} bits, minimum {min}, SHA-1 allowed {allow}", f.alg.name(), key.bits);
    Ok(())
}

/// Keys of any size: too small ones are refused before anything else.
fn c20_modulus(c: &mut Ctx) -> Res {
    use rsa::{pkcs1::EncodeRsaPublicKey, pkcs8::EncodePublicKey, BigUint};
    let bits = match c.weighted(&[4, 4, 2]) {
        0 => 1024 + c.below(33) - 16,
        1 => 512 + c.below(33) - 16,
        _ => 64 + c.below(2000),
    } as usize;
    let mut n: Vec<u8> = (0..(bits + 7) / 8).map(|_| c.below(256) as u8).collect();
    let top = (bits - 1) % 8;
    n[0] &= ((1u16 << (top + 1)) - 1) as u8;
    n[0] |= 1 << top;
    *n.last_mut().unwrap() |= 1;
    let n = BigUint::from_bytes_be(&n);
    let e = c.pick_copy(&[65_537u64, 3, 17, 5]);
    let Some(Ok(k)) = crate::engine::ref_guard(|| rsa::RsaPublicKey::new(n.clone(), e.into())) else {
        c.class("not a key");
        return Ok(());
    };
    let der = if c.bool() { k.to_public_key_der().unwrap().to_vec() } else { k.to_pkcs1_der().unwrap().as_bytes().to_vec() };
    ensure_eq!(n.bits(), bits, "harness: bits");
    c.id(&der);
    c.note(|| format!("modulus of {bits} bits, exponent {e}"));
    c.nontrivial = true;
    let small = bits < hard_min();
    let v = viadkim::crypto::VerifyingKey::from_key_data(KeyType::Rsa, &der);
    let v = match v {
        Ok(v) => v,
        Err(e) => return crate::engine::fail(format!("key of {bits} bits not read: {e}")),
    };
    ensure_eq!(v.key_size(), Some(bits), "key size");
    ensure_eq!(v.validate_min_key_size().is_err(), small, "refusal of key of {bits} bits");
    // in verification
    let f = Forge::simple(keys::get("rsa1024"), "example.com", "sel", &["From"]);
    let s = f.make(c, &plain(), b"x\r\n", None);
    let mut h = plain();
    h.insert(0, s);
    let txt = format!("p={}", refm::b64_encode(&der));
    let m = Mock::records([(f.record_name(), txt.into_bytes())]);
    let min = c.pick_copy(&[0, bits, bits + 1, 1024, 2048]);
    let cfg = Config { min_key_bits: min, ..open() };
    let r = one(&m, &h, b"x\r\n", &cfg)?;
    let want = if small {
        VE::VerificationFailure(CErr::InsufficientKeySize)
    } else if bits < min {
        VE::Policy(PE::KeyTooSmall)
    } else {
        VE::VerificationFailure(CErr::VerificationFailure)
    };
    ensure_eq!(r.status, VS::Failure(want), "status with key of {bits} bits, minimum {min}");
    Ok(())
}

fn c20_sha1(c: &mut Ctx) -> Res {
    let key = keys::get(c.pick(&["rsa1024", "rsa2048", "rsa1025"]));
    let mut f = Forge::simple(key, "example.com", "sel", &["From"]);
    f.alg = Alg::RsaSha1;
    f.bc = c.bool();
    f.hc = c.bool();
    let body = b"hello\r\n";
    let (name, v) = f.make(c, &plain(), body, None);
    // the algorithm name in any case, only where it is not signed as such
    let name_changed = c.chance(1, 2);
    let a = if name_changed { c.pick(&["RSA-SHA1", "rsa-SHA1", "Rsa-Sha1"]) } else { "rsa-sha1" };
    let v = String::from_utf8(v).unwrap().replacen("rsa-sha1", a, 1);
    let mut h = plain();
    h.insert(0, (name, v.into_bytes()));
    let (ht, ok1) = [("", true), ("h=sha1;", true), ("h=sha1:sha256;", true), ("h=sha256;", false), ("h=SHA1:x;", true)]
        [c.idx(5)];
    let has256 = ht.is_empty() || ht.contains("256");
    let txt = format!("v=DKIM1;{ht}p={}", p_of(key));
    // reading the record
    let rec = txt.parse::<DkimKeyRecord>();
    if PRE {
        let r = match &rec {
            Ok(r) => r,
            Err(e) => return crate::engine::fail(format!("record {txt}: {e:?}")),
        };
        ensure_eq!(r.hash_algorithms.iter().any(|x| hash_name(*x) == "sha1"), ok1, "SHA-1 in {txt}");
    } else {
        match &rec {
            Ok(r) => {
                ensure!(has256, "a record without SHA-256 is usable: {txt}");
                ensure!(r.hash_algorithms.iter().all(|x| hash_name(*x) == "sha256"), "SHA-1 in {txt}");
            }
            Err(e) => {
                ensure!(!has256, "record {txt}: {e:?}");
                ensure_eq!(*e, RK::NoSupportedHashAlgorithms, "cause for {txt}");
            }
        }
    }
    let m = Mock::records([(f.record_name(), txt.clone().into_bytes())]);
    let allow = c.bool();
    let cfg = Config { allow_sha1: allow, ..open() };
    note(c, &h, body, &cfg);
    c.id(&txt);
    c.nontrivial = true;
    let r = one(&m, &h, body, &cfg)?;
    if !PRE {
        ensure!(
            matches!(&r.status, VS::Failure(VE::DkimSignatureFormat(e)) if e.kind == SK::HistoricAlgorithm),
            "SHA-1 signature: {:?}",
            r.status
        );
        ensure!(a.parse::<viadkim::signature::SigningAlgorithm>().is_err(), "{a} is a signing algorithm");
        return Ok(());
    }
    let want = if !allow {
        VS::Failure(VE::Policy(PE::Sha1HashAlgorithm))
    } else if !ok1 {
        VS::Failure(VE::DisallowedHashAlgorithm)
    } else if name_changed {
        VS::Failure(VE::VerificationFailure(CErr::VerificationFailure))
    } else {
        VS::Success
    };
    ensure_eq!(r.status, want, "SHA-1 signature, allowed {allow}, record {txt}");
    Ok(())
}

/// No scene at all leads to success with what RFC 8301 forbids.
fn c20_scenes(c: &mut Ctx) -> Res {
    let mut hdrs = gen::hdrs(c, 4);
    let body = gen::body(c);
    let cfg: RConfig = RConfig { max_signatures: 100, min_key_bits: 0, ..env::lax() };
    let n = c.range(1, 3);
    let mut plans = std::collections::HashMap::new();
    let mut sigs = vec![];
    for k in 0..n {
        let mut f = text::forge(c, &hdrs, &body);
        f.key = &keys::all()[1 + c.idx(keys::all().len() - 1)];
        f.alg = if !f.key.is_rsa() { Alg::Ed25519 } else { c.pick_copy(&[Alg::RsaSha256, Alg::RsaSha1]) };
        f.s = format!("s{k}");
        f.l = None;
        let nrec = c.range(1, 3);
        let mut recs = vec![];
        for _ in 0..nrec {
            recs.push(if c.bool() { Ok(scene::record(c, f.key).into_bytes()) } else { scene::bad_record(c) });
        }
        plans.insert(f.record_name(), Plan { delay: Some(0), answer: Dns::Records(recs) });
        let mut s = f.make(c, &hdrs, &body, None);
        if c.chance(1, 4) {
            s.1 = scene::damage(c, &s.1);
        }
        sigs.push(s);
    }
    scene::insert(c, &mut hdrs, sigs);
    let s = scene::Scene { hdrs, body, cfg, plans };
    s.note(c);
    let res = super::verify::run(c, &s);
    for r in &res {
        if r.status != VS::Success {
            continue;
        }
        c.nontrivial = true;
        let (Some(sg), Some(k)) = (&r.signature, &r.key_record) else {
            return crate::engine::fail("success without signature and key record");
        };
        let sha1 = gen::r_alg(sg.algorithm) == Alg::RsaSha1;
        ensure!(PRE || !sha1, "success with SHA-1");
        if sg.algorithm.key_type() == KeyType::Rsa {
            use rsa::traits::PublicKeyParts;
            let Some(k) = refm::verify::read_rsa(&k.key_data) else {
                return crate::engine::fail("success with unreadable key");
            };
            ensure!(k.n().bits() >= hard_min(), "success with a key of {} bits", k.n().bits());
            c.class_if(k.n().bits() < 1024, "success with small key");
        }
        c.class_if(sha1, "success with SHA-1");
    }
    super::verify::judge(c, &s, &res)
}
