//! No input makes the library panic (C18).
//!
//! A panic of the code under test is turned into a failure by the engine, an
//! abort, stack overflow or hang by the watchdog. The build has overflow checks
//! and debug assertions on.

use super::Prop;
use crate::{
    engine::{facet, show, table, Ctx, Res},
    ensure,
    env::{self, block_on, Mock, Plan},
    gen::{self, PRE},
    keys,
    refm::{self, sig, verify::Dns, Hdrs},
    scene::{self, Scene},
    text,
};
use std::{
    collections::{hash_map::DefaultHasher, HashMap},
    error::Error,
    fmt::{Debug, Display},
    hash::{Hash, Hasher},
    num::NonZeroUsize,
    str::FromStr,
    time::{Duration, SystemTime},
};
use viadkim::{
    canonicalize::{canonicalize_headers, BodyCanonicalizer},
    crypto::{self, CountingHasher, HashAlgorithm, KeyType, VerifyingKey},
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::{compute_data_hash, BodyHasherBuilder},
    quoted_printable as qp,
    record::DkimKeyRecord,
    signature::{
        Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity, Selector,
        SigningAlgorithm,
    },
    signer::{select_headers, BodyLength, HeaderSelection, SignRequest, Signer, Timestamp},
    verifier::{Config, VerificationStatus, Verifier},
    SigningKey,
};

pub static C18: Prop = Prop {
    id: "C18",
    rule: "Hostile bytes and texts: pieces of the grammars, lone delimiters, long runs, numbers around limits, \
        control characters, multi-byte and special Unicode characters, invalid UTF-8, and valid inputs with \
        edits, up to 200 KB, given to each public entry point and to whole verification and signing flows with \
        hostile records, configurations and requests; DER keys with hostile integers, lengths and tags. Every \
        error and result is also formatted. The build under test has overflow checks and debug assertions on. \
        Non-trivial: the input is not empty.",
    facets: &[
        facet("header data", 8_000, 600_000, header_data),
        facet("signatures and records", 8_000, 600_000, texts),
        facet("names and identities", 8_000, 600_000, names),
        facet("codecs", 10_000, 800_000, codecs),
        facet("public keys", 6_000, 300_000, public_keys),
        facet("private keys", 1_500, 60_000, private_keys),
        table("degenerate private keys", 7 * 7 * 3, degenerate),
        facet("canonicalization and hashing", 5_000, 300_000, bodies),
        facet("verification", 5_000, 300_000, verification),
        facet("signing", 4_000, 200_000, signing),
        facet("long inputs", 60, 2_000, long),
    ],
    pre: true,
};

// ---------------------------------------------------------------- generators

const ODD: [&str; 34] = [
    "\0", "\u{1}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "ß", "ſ", "İ", "ı", "Ⱥ", "K", "é", "e\u{301}",
    "中", "\u{200b}", "\u{200d}", "\u{202e}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{ffff}", "ﬀ", "。", "．", "∕",
    "Ａ", "😀", "\u{1f1e6}", "\u{e0001}", "\u{10ffff}", "א", "\u{0345}",
];

const PIECES: [&str; 62] = [
    "", " ", "\t", "\r\n", "\r\n ", "\n", "\r", ";", "=", ":", ",", "|", "@", ".", "-", "_", "\"", "\\", "/", "+",
    "0", "1", "9", "a", "Z", "=0", "=20", "=C3", "=ff", "=F", "=\r\n A", "==", "v=1", "v=DKIM1", "a=rsa-sha256",
    "a=ed25519-sha256", "b=", "bh=", "bh=YWJj", "b=YQ==", "c=relaxed/", "d=example.com", "s=sel", "h=From", "h=:",
    "i=@example.com", "l=", "l=18446744073709551615", "t=18446744073709551616", "x=99999999999999999999999999",
    "q=dns/txt", "z=From:x", "z=a:=|", "k=rsa", "k=ed25519", "p=", "p=AAAA", "n==3D", "s=email:*", "t=y:s", "xn--",
    "xn--bcher-kva",
];

fn piece(c: &mut Ctx) -> String {
    match c.weighted(&[8, 3, 2, 1, 1]) {
        0 => c.pick(&PIECES).to_owned(),
        1 => c.pick(&ODD).to_owned(),
        2 => ((0x20 + c.below(0x60)) as u8 as char).to_string(),
        3 => char::from_u32(c.below(0x11_0000) as u32).unwrap_or('\u{d7ff}').to_string(),
        _ => {
            let p = if c.bool() { c.pick(&PIECES) } else { c.pick(&ODD) };
            p.repeat(c.pick_copy(&[2, 3, 63, 64, 65, 253, 254, 300]))
        }
    }
}

fn junk(c: &mut Ctx, max: usize) -> String {
    let n = c.size(max);
    (0..n).map(|_| piece(c)).collect()
}

/// Edits of a valid text.
fn edited(c: &mut Ctx, mut s: String) -> String {
    let n = c.range(0, 3);
    for _ in 0..n {
        let mut at = c.idx(s.len() + 1);
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        match c.below(4) {
            0 => s.insert_str(at, &piece(c)),
            1 => s.truncate(at),
            2 => {
                if at < s.len() {
                    s.remove(at);
                }
            }
            _ => {
                let t = s[at..].to_owned();
                s.insert_str(0, &t);
            }
        }
    }
    s
}

fn bytes(c: &mut Ctx, s: String) -> Vec<u8> {
    let mut b = s.into_bytes();
    let n = if c.chance(1, 3) { c.range(1, 3) } else { 0 };
    for _ in 0..n {
        let at = c.idx(b.len() + 1);
        match c.below(3) {
            0 => b.insert(at, c.below(256) as u8),
            1 if at < b.len() => b[at] = c.below(256) as u8,
            _ => b.truncate(at),
        }
    }
    b
}

fn sig_junk(c: &mut Ctx) -> String {
    match c.weighted(&[4, 3, 2]) {
        0 => text::sig_text(c),
        1 => {
            let s = text::sig_text(c);
            edited(c, s)
        }
        _ => junk(c, 20),
    }
}

fn rec_junk(c: &mut Ctx) -> String {
    match c.weighted(&[4, 3, 2]) {
        0 => text::rec_text(c),
        1 => {
            let s = text::rec_text(c);
            edited(c, s)
        }
        _ => junk(c, 20),
    }
}

fn halg(c: &mut Ctx) -> HashAlgorithm {
    let a = HashAlgorithm::all();
    a[c.idx(a.len())]
}

fn canon(c: &mut Ctx) -> CanonicalizationAlgorithm {
    gen::v_canon(c.bool())
}

// ---------------------------------------------------------------- poking

fn poke<T: Debug>(x: &T) {
    let _ = std::hint::black_box(format!("{x:?} {x:#?}"));
}

fn poke_display<T: Debug + Display>(x: &T) {
    poke(x);
    let _ = std::hint::black_box(format!("{x} {x:5}"));
}

fn poke_err(e: &dyn Error) {
    let mut e = Some(e);
    let mut n = 0;
    while let Some(x) = e {
        let _ = std::hint::black_box(format!("{x} {x:?}"));
        e = x.source();
        n += 1;
        assert!(n < 100, "endless chain of error sources");
    }
}

fn hash<T: Hash>(x: &T) {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    std::hint::black_box(h.finish());
}

fn outcome<T: Debug, E: Error>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(x) => {
            poke(&x);
            Some(x)
        }
        Err(e) => {
            poke_err(&e);
            None
        }
    }
}

fn input(c: &mut Ctx, b: &[u8]) {
    c.id(b);
    c.nontrivial = c.nontrivial || !b.is_empty();
    c.note(|| format!("{} bytes {:?}", b.len(), show(&b[..b.len().min(3_000)])));
}

// ---------------------------------------------------------------- facets

fn use_headers(h: &HeaderFields, c: &mut Ctx) {
    poke(h);
    let mut names: Vec<FieldName> = h.as_ref().iter().map(|f| f.0.clone()).collect();
    if c.bool() {
        names.reverse();
    }
    names.extend(names.clone());
    for a in [true, false] {
        std::hint::black_box(canonicalize_headers(gen::v_canon(a), h, &names));
    }
    let _ = select_headers(h, |n| *n == "From").count();
}

fn header_data(c: &mut Ctx) -> Res {
    match c.below(4) {
        0 => {
            let s = junk(c, 12);
            input(c, s.as_bytes());
            if let Some(n) = outcome(FieldName::new(s.as_str())) {
                hash(&n);
                poke_display(&n);
                let _ = n == s.as_str();
            }
        }
        1 => {
            let s = junk(c, 20);
            let b = bytes(c, s);
            input(c, &b);
            if let Some(f) = outcome(FieldBody::new(b)) {
                hash(&f);
            }
        }
        2 => {
            let n = c.range(0, 6);
            let mut v = vec![];
            for _ in 0..n {
                let name = if c.bool() { gen::field_name(c) } else { junk(c, 3) };
                let s = junk(c, 8);
                v.push((name, bytes(c, s)));
            }
            input(c, format!("{v:?}").as_bytes());
            if let Some(h) = outcome(HeaderFields::from_vec(v)) {
                use_headers(&h, c);
            }
        }
        _ => {
            let s = if c.bool() {
                let h = gen::hdrs(c, 5);
                let s: String = h.iter().map(|(n, v)| format!("{n}:{}\r\n", String::from_utf8_lossy(v))).collect();
                edited(c, s)
            } else {
                junk(c, 30)
            };
            input(c, s.as_bytes());
            if let Some(h) = outcome(HeaderFields::from_str(&s)) {
                use_headers(&h, c);
            }
        }
    }
    Ok(())
}

fn texts(c: &mut Ctx) -> Res {
    if c.bool() {
        let s = sig_junk(c);
        input(c, s.as_bytes());
        c.class("signature");
        match DkimSignature::from_str(&s) {
            Ok(x) => {
                c.class("parsed");
                poke(&x);
                hash(&x);
                for n in [&x.domain.to_ascii(), &x.domain.to_unicode(), &x.selector.to_ascii(), &x.selector.to_unicode()] {
                    std::hint::black_box(n);
                }
                let _ = viadkim::message_hash::body_hasher_key(&x);
                let (k, h): (KeyType, HashAlgorithm) = x.algorithm.into();
                let _ = SigningAlgorithm::from_parts(k, h);
            }
            Err(e) => {
                poke_err(&e);
            }
        }
    } else {
        let s = rec_junk(c);
        input(c, s.as_bytes());
        c.class("record");
        match DkimKeyRecord::from_str(&s) {
            Ok(x) => {
                c.class("parsed");
                poke(&x);
                hash(&x);
                x.is_testing();
                let _ = VerifyingKey::from_key_data(x.key_type, &x.key_data).map(|k| poke(&k)).map_err(|e| poke_err(&*e));
            }
            Err(e) => poke_err(&e),
        }
    }
    Ok(())
}

fn name_junk(c: &mut Ctx) -> String {
    match c.weighted(&[3, 3, 3]) {
        0 => {
            let n = text::odd_name(c);
            edited(c, n)
        }
        1 => {
            let n = c.range(1, 5);
            let mut v = vec![];
            for _ in 0..n {
                let m = c.range(0, 4);
                let l: String = (0..m).map(|_| piece(c)).collect();
                v.push(if c.chance(1, 3) { format!("xn--{l}") } else { l });
            }
            v.join(c.pick(&[".", ".", "。", ".."]))
        }
        _ => junk(c, 8),
    }
}

fn names(c: &mut Ctx) -> Res {
    let s = match c.below(3) {
        0 => format!("{}@{}", junk(c, 3), name_junk(c)),
        _ => name_junk(c),
    };
    input(c, s.as_bytes());
    let other = name_junk(c);
    if let Some(d) = outcome(DomainName::new(s.as_str())) {
        c.class("domain");
        poke_display(&d);
        hash(&d);
        let (a, u) = (d.to_ascii(), d.to_unicode());
        let _ = outcome(DomainName::new(a));
        let _ = outcome(DomainName::new(u));
        for o in [other.as_str(), "example.com", s.as_str()] {
            if let Ok(o) = DomainName::new(o) {
                let _ = (d.eq_or_subdomain_of(&o), o.eq_or_subdomain_of(&d), d == o);
            }
        }
        poke_display(&Identity::from_domain(d));
    }
    if let Some(x) = outcome(Selector::new(s.as_str())) {
        c.class("selector");
        poke_display(&x);
        hash(&x);
        let _ = outcome(Selector::new(x.to_ascii()));
        let _ = outcome(Selector::new(x.to_unicode()));
    }
    if let Some(i) = outcome(Identity::new(&s)) {
        c.class("identity");
        poke_display(&i);
        hash(&i);
    }
    let _ = outcome(DomainName::from_str(&s));
    let _ = outcome(Selector::from_str(&s));
    let _ = outcome(Identity::from_str(&s));
    let _ = outcome(SigningAlgorithm::from_str(&s));
    let _ = outcome(CanonicalizationAlgorithm::from_str(&s));
    let _ = outcome(Canonicalization::from_str(&s));
    Ok(())
}

fn codecs(c: &mut Ctx) -> Res {
    let s = if c.bool() { junk(c, 20) } else { text::sig_value(c, "z") };
    let b = bytes(c, s.clone());
    input(c, &b);
    let _ = outcome(qp::decode(&s));
    let _ = outcome(qp::decode_qp_section(&s));
    let _ = outcome(viadkim::decode_base64(&s));
    std::hint::black_box(viadkim::encode_base64(&b));
    let ch = match c.weighted(&[3, 2, 2]) {
        0 => None,
        1 => Some(c.pick_copy(&['|', ';', '=', ' ', 'a', '%', '\r', '\n', '\0'])),
        _ => c.pick(&ODD).chars().next(),
    };
    // characters outside of dkim-safe-char have no effect
    std::hint::black_box((qp::encode(&b, ch), qp::encode_ascii_only(&b, ch)));
    Ok(())
}

// ---------------------------------------------------------------- DER

fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    match content.len() {
        n if n < 0x80 => v.push(n as u8),
        n if n < 0x100 => v.extend([0x81, n as u8]),
        n if n < 0x1_0000 => v.extend([0x82, (n >> 8) as u8, n as u8]),
        n => v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]),
    }
    v.extend_from_slice(content);
    v
}

fn int_of(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().skip_while(|&x| x == 0).collect();
    if v.first().map_or(true, |&x| x >= 0x80) {
        v.insert(0, 0);
    }
    der(2, &v)
}

/// An integer of some odd sort, or close to the given.
fn odd_int(c: &mut Ctx, real: &[u8], keep: u64) -> Vec<u8> {
    if c.chance(keep, 10) {
        return int_of(real);
    }
    match c.weighted(&[4, 2, 3, 1, 1, 1]) {
        0 => int_of(&[c.pick_copy(&[0, 1, 2, 3, 4, 5, 15, 255])]),
        1 => {
            let n = c.pick_copy(&[1usize, 4, 5, 8, 16, 64, 128, 129, 256, 512, 513]);
            let b = c.pick_copy(&[0xffu8, 0x80, 0x7f, 1]);
            int_of(&vec![b; n])
        }
        2 => {
            let mut v = real.to_vec();
            if !v.is_empty() {
                let at = c.idx(v.len());
                v[at] ^= 1 << c.below(8);
                if c.bool() {
                    let l = v.len() - 1;
                    v[l] ^= 1;
                }
            }
            int_of(&v)
        }
        3 => der(2, real), // possibly negative, not minimal
        4 => der(2, &[]),
        _ => der(c.pick_copy(&[2, 3, 4, 5, 0x30]), &[0, 0, 1]),
    }
}

fn break_der(c: &mut Ctx, mut d: Vec<u8>) -> Vec<u8> {
    if c.chance(1, 3) {
        let n = c.range(1, 3);
        for _ in 0..n {
            if d.is_empty() {
                break;
            }
            let at = if c.bool() { c.idx(d.len().min(40)) } else { c.idx(d.len()) };
            match c.below(4) {
                0 => d[at] = c.pick_copy(&[0, 1, 2, 3, 5, 6, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xff]),
                1 => d.truncate(at),
                2 => d.insert(at, c.below(256) as u8),
                _ => {
                    d.remove(at);
                }
            }
        }
    }
    d
}

const RSA_OID: &[u8] = &[0x30, 0x0d, 6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0];

fn public_keys(c: &mut Ctx) -> Res {
    use rsa::traits::PublicKeyParts;
    let k = crate::gen::any_key(c);
    let d = if let (Some(r), true) = (&k.rsa, c.chance(3, 4)) {
        let n = odd_int(c, &r.n().to_bytes_be(), 5);
        let e = odd_int(c, &r.e().to_bytes_be(), 5);
        let mut both = [n, e].concat();
        if c.chance(1, 8) {
            both.extend(der(2, &[1]));
        }
        let p = der(0x30, &both);
        if c.bool() {
            p
        } else {
            der(0x30, &[RSA_OID, &der(3, &[&[c.pick_copy(&[0u8, 0, 0, 1, 7, 255])][..], &p].concat())].concat())
        }
    } else {
        match c.below(4) {
            0 => k.spki.clone(),
            1 => k.raw.clone(),
            2 => (0..32).map(|_| c.below(256) as u8).collect(),
            _ => {
                let n = c.pick_copy(&[0usize, 1, 31, 32, 33, 44, 300]);
                let b = c.pick_copy(&[0u8, 1, 0xff, 0x30]);
                vec![b; n]
            }
        }
    };
    let d = break_der(c, d);
    input(c, &d);
    let h = crypto::digest(halg(c), &d);
    let m: Vec<u8> = match c.weighted(&[4, 1, 1]) {
        0 => h.to_vec(),
        1 => vec![],
        _ => vec![0xff; c.pick_copy(&[1, 19, 20, 32, 64, 1000])],
    };
    let n = c.pick_copy(&[0usize, 1, 63, 64, 65, 127, 128, 129, 256, 512, 5_000]);
    let b = c.pick_copy(&[0u8, 1, 0xff]);
    let s = if c.chance(1, 3) { k.sign(false, &h[..h.len().min(32)].repeat(2)[..32]) } else { vec![b; n] };
    for t in [KeyType::Rsa, KeyType::Ed25519] {
        match VerifyingKey::from_key_data(t, &d) {
            Ok(v) => {
                c.class(if t == KeyType::Rsa { "RSA key read" } else { "Ed25519 key read" });
                poke(&v);
                hash(&v);
                poke(&v.key_size());
                let _ = outcome(v.validate_min_key_size());
                for h in HashAlgorithm::all() {
                    match &v {
                        VerifyingKey::Rsa(k) => {
                            let _ = crypto::verify_rsa(k, h, &m, &s).map_err(|e| poke_err(&*e));
                        }
                        VerifyingKey::Ed25519(k) => {
                            let _ = crypto::verify_ed25519(k, &m, &s).map_err(|e| poke_err(&*e));
                        }
                    }
                }
            }
            Err(e) => poke_err(&*e),
        }
    }
    let _ = crypto::read_rsa_public_key(&d).map_err(|e| poke_err(&*e));
    let _ = crypto::read_ed25519_verifying_key(&d).map_err(|e| poke_err(&*e));
    // and by way of a whole verification
    if c.chance(1, 3) {
        let mut h: Hdrs = vec![("From".into(), b" me".to_vec())];
        let f = text::Forge::simple(k, "example.com", "sel", &["From"]);
        let x = f.make(c, &h, b"", None);
        h.insert(0, x);
        let rec = format!("k={}; p={}", k.k(), refm::b64_encode(&d)).into_bytes();
        let r = env::verify(&Mock::records([(f.record_name(), rec)]), &h, b"", &env::config(&env::lax()));
        ensure!(r.len() == 1, "number of results");
        poke(&r);
    }
    Ok(())
}

fn pem_of(d: &[u8], label: &str, width: usize, nl: &str) -> String {
    let b = refm::b64_encode(d);
    let lines: Vec<&str> = b.as_bytes().chunks(width).map(|l| std::str::from_utf8(l).unwrap()).collect();
    format!("-----BEGIN {label}-----{nl}{}{nl}-----END {label}-----{nl}", lines.join(nl))
}

/// The PEM text of a private key of odd components, or broken in other ways.
pub fn private_pem(c: &mut Ctx) -> String {
    use rsa::traits::{PrivateKeyParts, PublicKeyParts};
    let k = crate::gen::any_key(c);
    if c.chance(1, 6) {
        let s = if c.bool() { k.pem.to_owned() } else { junk(c, 15) };
        edited(c, s)
    } else {
        let inner = if let Some(r) = &k.rsa {
            let p = &r.primes()[0];
            let q = &r.primes()[1];
            let one = rsa::BigUint::from(1u32);
            let dp = r.d() % (p - &one);
            let dq = r.d() % (q - &one);
            let qi = r.qinv().and_then(|x| x.to_biguint()).unwrap_or(one.clone());
            let mut v = odd_version(c);
            let keep = if c.bool() { 9 } else { 6 };
            let alias = c.chance(1, 10);
            for x in [r.n(), r.e(), r.d(), p, if alias { p } else { q }, &dp, &dq, &qi].into_iter() {
                v.extend(odd_int(c, &x.to_bytes_be(), keep));
            }
            der(0x30, &v)
        } else {
            let n = c.pick_copy(&[32usize, 0, 31, 33, 64]);
            der(4, &vec![c.below(256) as u8; n])
        };
        let inner = break_der(c, inner);
        let alg = if k.is_rsa() ^ c.chance(1, 10) { RSA_OID.to_vec() } else { vec![0x30, 5, 6, 3, 0x2b, 0x65, 0x70] };
        let mut v = odd_version(c);
        v.extend(break_der(c, alg));
        v.extend(der(4, &inner));
        if c.chance(1, 6) {
            // attributes, public key
            let t = c.pick_copy(&[0xa0u8, 0xa1, 0x81]);
            let n = c.idx(40);
            v.extend(der(t, &vec![0; n]));
        }
        let d = der(0x30, &v);
        let d = break_der(c, d);
        let w = c.pick_copy(&[64, 76, 1, 10_000]);
        pem_of(&d, c.pick(&["PRIVATE KEY", "PRIVATE KEY", "PRIVATE KEY", "RSA PRIVATE KEY", ""]), w, c.pick(&["\n", "\r\n", "\r"]))
    }
}

/// Private keys that are degenerate in ways of their own.
fn degenerate(c: &mut Ctx) -> Res {
    use rsa::{traits::PrivateKeyParts, BigUint};
    let i = c.below(7 * 7 * 3);
    c.note(|| format!("case {i}"));
    let small = |k: u64| match k {
        0 => BigUint::from(0u32),
        1 => BigUint::from(1u32),
        2 => BigUint::from(2u32),
        3 => BigUint::from(3u32),
        4 => BigUint::from(4u32),
        5 => keys::get("rsa1024").rsa.as_ref().unwrap().primes()[0].clone(),
        _ => keys::get("rsa2048").rsa.as_ref().unwrap().primes()[1].clone(),
    };
    let (p, q) = (small(i % 7), small(i / 7 % 7));
    // modulus and exponents that fit, as far as that goes
    let e = BigUint::from([1u32, 3, 65537][(i / 49) as usize]);
    let (n, d) = (&p * &q, e.clone());
    let one = BigUint::from(1u32);
    let mut v = int_of(&[]);
    for x in [&n, &e, &d, &p, &q, &one, &one, &one] {
        v.extend(int_of(&x.to_bytes_be()));
    }
    let mut w = int_of(&[]);
    w.extend(RSA_OID);
    w.extend(der(4, &der(0x30, &v)));
    private_key(c, &pem_of(&der(0x30, &w), "PRIVATE KEY", 64, "\n"))
}

fn private_keys(c: &mut Ctx) -> Res {
    let pem = private_pem(c);
    private_key(c, &pem)
}

fn private_key(c: &mut Ctx, pem: &str) -> Res {
    input(c, pem.as_bytes());
    match SigningKey::from_pkcs8_pem(pem) {
        Err(e) => poke_err(&e),
        Ok(k) => {
            c.class("loaded");
            let _ = (k.key_type(), k.signature_length());
            match &k {
                SigningKey::Rsa(r) => {
                    for h in HashAlgorithm::all() {
                        for m in [&crypto::digest(h, b"x")[..], b"", b"short"] {
                            match crypto::sign_rsa(h, r, m) {
                                Ok(s) => {
                                    std::hint::black_box(s);
                                }
                                Err(e) => poke_err(&*e),
                            }
                        }
                    }
                }
                SigningKey::Ed25519(e) => {
                    std::hint::black_box(crypto::sign_ed25519(e, b"x"));
                }
            }
            // sign a message with it
            let alg = match k.key_type() {
                KeyType::Rsa => SigningAlgorithm::RsaSha256,
                KeyType::Ed25519 => SigningAlgorithm::Ed25519Sha256,
            };
            let r = SignRequest::new(
                DomainName::new("example.com").unwrap(),
                Selector::new("s").unwrap(),
                alg,
                k,
            );
            let h = env::headers(&vec![("From".into(), b" x".to_vec())]);
            match Signer::prepare_signing(h, [r]) {
                Err(e) => poke_err(&e),
                Ok(s) => {
                    for x in block_on(s.sign()) {
                        let _ = outcome(x);
                    }
                }
            }
        }
    }
    Ok(())
}

fn odd_version(c: &mut Ctx) -> Vec<u8> {
    if c.chance(1, 12) {
        odd_int(c, &[0], 0)
    } else {
        int_of(&[])
    }
}

// ---------------------------------------------------------------- bodies

fn odd_len(c: &mut Ctx) -> Option<usize> {
    match c.weighted(&[2, 3, 2]) {
        0 => None,
        1 => Some(c.range(0, 40)),
        _ => Some(c.pick_copy(&[usize::MAX, usize::MAX - 1, 0, 1, 1 << 32, 1 << 63])),
    }
}

fn bodies(c: &mut Ctx) -> Res {
    let b = if c.bool() {
        gen::body(c)
    } else {
        let s = junk(c, 20);
        bytes(c, s)
    };
    input(c, &b);
    let chunks = gen::chunks(c, &b);
    let mut k = BodyCanonicalizer::new(canon(c));
    let mut total = 0;
    for x in &chunks {
        total += k.canonicalize_chunk(x).len();
    }
    total += k.finish().len();
    ensure!(total <= b.len() + 2, "canonical body of {} bytes is of {total} bytes", b.len());

    let mut bb = BodyHasherBuilder::new(c.bool());
    let n = c.range(0, 5);
    let mut reg = vec![];
    for _ in 0..n {
        let key = (odd_len(c), halg(c), canon(c));
        bb.register_canonicalization(key.0, key.1, key.2);
        reg.push(key);
    }
    let mut h = bb.build();
    for x in &chunks {
        let _ = h.hash_chunk(x);
    }
    let r = h.finish();
    poke(&r);
    for key in &reg {
        match r.get(key) {
            None => return crate::engine::fail(format!("no result for body hash request {key:?}")),
            Some(Err(e)) => poke_err(e),
            Some(Ok(_)) => {}
        }
    }
    let mut ch = CountingHasher::new(halg(c), odd_len(c));
    for x in &chunks {
        let _ = ch.update(x);
        let _ = ch.is_done();
    }
    let _ = outcome(ch.finish());

    // header hashing
    let mut hd = gen::hdrs(c, 4);
    let extra = junk(c, 5).into_bytes();
    if refm::valid_field_body(&extra) {
        hd.push((gen::field_name(c), extra));
    }
    let v = junk(c, 6);
    if refm::valid_field_body(v.as_bytes()) {
        let mut n = gen::signed_names(c, &hd);
        n.retain(|x| refm::valid_field_name(x));
        std::hint::black_box(compute_data_hash(
            halg(c),
            canon(c),
            &env::headers(&hd),
            &env::names(&n),
            "DKIM-Signature",
            &v,
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- flows

fn duration(c: &mut Ctx) -> Duration {
    match c.below(6) {
        0 => Duration::MAX,
        1 => Duration::ZERO,
        2 => Duration::from_nanos(c.below(3)),
        3 => Duration::new(u64::MAX, 0),
        4 => Duration::from_secs(c.u64()),
        _ => Duration::from_secs(c.below(100_000)),
    }
}

fn odd_config(c: &mut Ctx, base: &refm::verify::RConfig) -> Config {
    let mut k = env::config(base);
    if c.chance(1, 3) {
        k.time_tolerance = duration(c);
    }
    if c.chance(1, 3) {
        let d = duration(c);
        let t = if c.bool() { SystemTime::UNIX_EPOCH.checked_add(d) } else { SystemTime::UNIX_EPOCH.checked_sub(d) };
        k.fixed_system_time = t;
    }
    if c.chance(1, 6) {
        k.lookup_timeout = c.pick_copy(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1 << 20)]);
    }
    k
}

fn verification(c: &mut Ctx) -> Res {
    let mut s = match c.weighted(&[4, 3]) {
        0 => scene::any(c, 4),
        _ => {
            let hdrs = gen::hdrs(c, 4);
            let cfg = scene::config(c, &hdrs);
            let body = gen::body(c);
            Scene { hdrs, body, cfg, plans: HashMap::new() }
        }
    };
    let n = c.range(0, 4);
    for _ in 0..n {
        let t = sig_junk(c);
        let v = bytes(c, t);
        if refm::valid_field_body(&v) {
            if let sig::Parsed::Ok(r) = sig::parse(&String::from_utf8_lossy(&v), PRE) {
                let q = refm::verify::query_name(&r).to_ascii_lowercase();
                let t = rec_junk(c);
                let b = bytes(c, t);
                s.plans.entry(q).or_insert(Plan { delay: Some(0), answer: Dns::Records(vec![Ok(b)]) });
            }
            let at = c.idx(s.hdrs.len() + 1);
            s.hdrs.insert(at, ("DKIM-Signature".into(), v));
        }
    }
    // hostile answers
    let mut ns: Vec<String> = s.plans.keys().cloned().collect();
    ns.sort();
    for n in ns {
        if c.chance(1, 4) {
            let m = c.pick_copy(&[1usize, 2, 3, 4, 50]);
            let v = (0..m)
                .map(|_| {
                    if c.chance(1, 6) {
                        Err(c.pick_copy(&scene::KINDS))
                    } else {
                        let t = rec_junk(c);
                        Ok(bytes(c, t))
                    }
                })
                .collect();
            s.plans.insert(n, Plan { delay: Some(c.below(5)), answer: Dns::Records(v) });
        }
    }
    s.note(c);
    c.nontrivial = true;
    let cfg = odd_config(c, &s.cfg);
    let h = env::headers(&s.hdrs);
    poke(&cfg);
    let chunks = gen::chunks(c, &s.body);
    let r = block_on(async {
        let Some(mut v) = Verifier::verify_header(&s.mock(), &h, &cfg).await else { return vec![] };
        for x in &chunks {
            let _ = v.process_body_chunk(x);
        }
        v.finish()
    });
    for x in &r {
        poke(x);
        hash(x);
        ensure!(x.index < s.hdrs.len(), "index {} of result", x.index);
        match &x.status {
            VerificationStatus::Success => c.class("success"),
            VerificationStatus::Failure(e) => {
                c.class("failure");
                poke_err(e);
            }
        }
        poke_display(&x.status.to_dkim_result());
    }
    Ok(())
}

fn signing(c: &mut Ctx) -> Res {
    let mut h = gen::hdrs(c, 5);
    if c.chance(1, 4) {
        let t = junk(c, 10);
        let v = bytes(c, t);
        if refm::valid_field_body(&v) {
            h.push((gen::case_mix(c, "From"), v));
        }
    }
    let body = gen::body(c);
    let n = c.weighted(&[1, 8, 4, 1, 1]);
    let n = if n == 4 { 11 } else { n };
    let mut reqs = vec![];
    let mut desc = vec![];
    for _ in 0..n {
        let q = gen::req(c, &h, |_| body.len() as u64);
        let mut r = q.build();
        // anything goes in texts and numbers
        if c.chance(1, 4) {
            let m = c.range(1, 3);
            r.ext_tags.extend((0..m).map(|_| (junk(c, 2), junk(c, 6))));
        }
        if c.chance(1, 8) {
            r.format.header_name = junk(c, 2);
        }
        if c.chance(1, 8) {
            r.format.indentation = match c.below(3) {
                0 => " ".repeat(c.pick_copy(&[0, 1, 78, 100, 1_000])),
                1 => "\t".repeat(30),
                _ => junk(c, 2),
            };
        }
        if c.chance(1, 6) {
            let v = c.u64() as usize;
            r.format.line_width =
                NonZeroUsize::new(c.pick_copy(&[1usize, 2, 3, 7, usize::MAX, usize::MAX / 2, v])).unwrap_or(NonZeroUsize::MIN);
        }
        if c.chance(1, 6) {
            r.valid_duration = Some(duration(c));
        }
        if c.chance(1, 6) {
            r.timestamp = Timestamp::Exact(c.pick_copy(&[0, u64::MAX, u64::MAX - 1, 1 << 63]));
        }
        if c.chance(1, 6) {
            r.body_length = BodyLength::Exact(c.pick_copy(&[0, u64::MAX, 1 << 63, 1 << 32]));
        }
        if c.chance(1, 6) {
            let m = c.range(0, 12);
            let mut v = vec![];
            for _ in 0..m {
                let s = if c.bool() { gen::field_name(c) } else { junk(c, 3) };
                if let Ok(x) = FieldName::new(s) {
                    v.push(x);
                }
            }
            if c.bool() {
                v.push(FieldName::new("From").unwrap());
            }
            r.header_selection = HeaderSelection::Manual(v);
        }
        if c.chance(1, 8) {
            let t = junk(c, 3);
            if let Ok(i) = Identity::new(&format!("{t}@{}", q.domain)) {
                r.identity = Some(i);
            }
        }
        if c.chance(1, 8) {
            if let Ok(d) = DomainName::new(name_junk(c)) {
                r.domain = d;
            }
        }
        poke(&r);
        desc.push(format!("{r:?}"));
        reqs.push(r);
    }
    c.id(format!("{h:?}{body:?}{desc:?}"));
    c.note(|| format!("header {h:?} body {:?} requests {desc:#?}", show(&body)));
    c.nontrivial = n > 0;
    let chunks = gen::chunks(c, &body);
    let k = reqs.len();
    match Signer::prepare_signing(env::headers(&h), reqs) {
        Err(e) => {
            c.class("refused");
            poke_err(&e);
        }
        Ok(mut s) => {
            c.class("accepted");
            for x in &chunks {
                let _ = s.process_body_chunk(x);
            }
            let r = block_on(s.sign());
            ensure!(r.len() == k, "number of results: {}", r.len());
            for x in r {
                match x {
                    Ok(o) => {
                        poke(&o);
                        poke(&o.to_header_field());
                        let _ = o.format_header().to_string();
                    }
                    Err(e) => poke_err(&e),
                }
            }
        }
    }
    Ok(())
}

fn long(c: &mut Ctx) -> Res {
    let unit = match c.weighted(&[5, 2, 2]) {
        0 => piece(c),
        1 => junk(c, 4),
        _ => c
            .pick(&["From:", "a=b;", "=\r\n 2", "\r\n ", "a:b|", "=20", "\r\n", " \t", "a.", "ä.", "\"a\\\"", "AAAA", ": "])
            .to_owned(),
    };
    let unit = if unit.is_empty() { "x".to_owned() } else { unit };
    let total = c.pick_copy(&[70_000usize, 20_000, 200_000, 1_000]);
    let run = unit.repeat(total / unit.len() + 1);
    let pre = c.pick(&["", "v=1; a=ed25519-sha256; b=YWJj; bh=YWJj; d=example.com; s=sel; h=From:", "p=AAAA; n=", "x=", "z="]);
    let s = format!("{pre}{run}");
    c.id(&s);
    c.nontrivial = true;
    c.note(|| format!("{:?} followed by {unit:?} over {total} bytes", pre));
    let _ = DkimSignature::from_str(&s).map(|x| poke(&x)).map_err(|e| poke_err(&e));
    let _ = DkimKeyRecord::from_str(&s).map(|x| poke(&x)).map_err(|e| poke_err(&e));
    let _ = outcome(DomainName::new(s.as_str()));
    let _ = outcome(Selector::new(s.as_str()));
    let _ = outcome(Identity::new(&s));
    let _ = outcome(qp::decode(&s));
    let _ = outcome(qp::decode_qp_section(&s));
    let _ = outcome(viadkim::decode_base64(&s));
    let _ = qp::encode(s.as_bytes(), Some('|'));
    let _ = qp::encode_ascii_only(s.as_bytes(), None);
    let _ = outcome(HeaderFields::from_str(&s));
    let _ = SigningKey::from_pkcs8_pem(&s).map_err(|e| poke_err(&e));
    let _ = VerifyingKey::from_key_data(KeyType::Rsa, s.as_bytes());
    if refm::valid_field_body(s.as_bytes()) {
        let h: Hdrs = vec![
            ("DKIM-Signature".into(), s.clone().into_bytes()),
            ("From".into(), s.clone().into_bytes()),
            ("X".into(), s.clone().into_bytes()),
        ];
        let rec = Plan { delay: Some(0), answer: Dns::Records(vec![Ok(s.clone().into_bytes())]) };
        let r = env::verify(&Mock::new(HashMap::new(), Some(rec)), &h, s.as_bytes(), &env::config(&env::lax()));
        poke(&r);
        // copied to z=, at some width
        let mut q = gen::plain_req(c, &h);
        q.copy = true;
        q.headers = Some(vec!["From".into(), "X".into()]);
        q.width = c.pick_copy(&[78, 1, 998, usize::MAX]);
        let r = env::sign(&h, &[q], &[s.clone().into_bytes()]);
        ensure!(matches!(&r, Ok(v) if v.len() == 1), "signing a long message: {:?}", r.map(|v| v.len()));
    }
    // a header of very many fields, all signed
    if c.chance(1, 4) {
        let n = total / 100;
        let mut h: Hdrs = (0..n).map(|i| (if i % 2 == 0 { "a" } else { "B" }.to_owned(), b" x".to_vec())).collect();
        h.push(("From".into(), b" me".to_vec()));
        let mut q = gen::plain_req(c, &h);
        q.headers = Some(h.iter().map(|f| f.0.clone()).collect());
        let r = env::sign(&h, &[q], &[]);
        ensure!(matches!(&r, Ok(v) if v.len() == 1), "signing many header fields");
    }
    Ok(())
}
