//! Reference model of message verification: RFC 6376, section 6, with
//! viadkim's documented configuration.

use super::{
    canon, rec,
    sig::{self, Alg, RSig},
    *,
};
use crate::engine::ref_guard;
use rsa::{pkcs1::DecodeRsaPublicKey, pkcs8::DecodePublicKey, traits::PublicKeyParts, BigUint};
use std::io::ErrorKind;
use viadkim::{
    crypto::VerificationError as CErr,
    record::DkimKeyRecordError,
    signature::DkimSignatureErrorKind,
    verifier::{PolicyError, VerificationError as VErr, VerificationStatus},
};

#[derive(Clone, Debug)]
pub struct RConfig {
    pub max_signatures: usize,
    pub required: Vec<String>,
    pub forbidden_unsigned: Vec<String>,
    pub min_key_bits: usize,
    pub allow_sha1: bool,
    pub forbid_unsigned_content: bool,
    pub allow_expired: bool,
    pub allow_future: bool,
    pub tolerance: u64,
    pub now: u64,
}

impl Default for RConfig {
    fn default() -> Self {
        Self {
            max_signatures: 10,
            required: vec![],
            forbidden_unsigned: vec!["From".into()],
            min_key_bits: 1024,
            allow_sha1: false,
            forbid_unsigned_content: false,
            allow_expired: false,
            allow_future: false,
            tolerance: 300,
            now: 1_700_000_000,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Dns {
    Records(Vec<Result<Vec<u8>, ErrorKind>>),
    Error(ErrorKind),
    /// Never answers in time.
    TooSlow,
}

/// An acceptable final status.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Success,
    Format(Vec<DkimSignatureErrorKind>),
    Record(Vec<DkimKeyRecordError>),
    Err(VErr),
}

impl Exp {
    pub fn admits(&self, s: &VerificationStatus) -> bool {
        match (self, s) {
            (Exp::Success, VerificationStatus::Success) => true,
            (Exp::Format(ks), VerificationStatus::Failure(VErr::DkimSignatureFormat(e))) => {
                ks.contains(&e.kind)
            }
            (Exp::Record(ks), VerificationStatus::Failure(VErr::KeyRecordFormat(e))) => {
                ks.contains(e)
            }
            (Exp::Err(e), VerificationStatus::Failure(f)) => e == f,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// Index of the DKIM-Signature header field.
    pub index: usize,
    /// `None`: not judged.
    pub status: Option<Vec<Exp>>,
    /// The parsed signature, if it can be parsed.
    pub sig: Option<RSig>,
    /// Whether a parsed key record is to be reported (`None`: not judged).
    pub rec: Option<Option<rec::RRec>>,
}

pub fn hard_min_bits(pre: bool) -> usize {
    if pre { 512 } else { 1024 }
}

pub enum Key {
    Rsa(rsa::RsaPublicKey),
    Ed(ed25519_dalek::VerifyingKey),
}

pub fn read_rsa(data: &[u8]) -> Option<rsa::RsaPublicKey> {
    ref_guard(|| {
        rsa::RsaPublicKey::from_public_key_der(data)
            .ok()
            .or_else(|| rsa::RsaPublicKey::from_pkcs1_der(data).ok())
    })
    .flatten()
}

pub fn read_ed(data: &[u8]) -> Option<ed25519_dalek::VerifyingKey> {
    ref_guard(|| {
        if let Ok(b) = <[u8; 32]>::try_from(data) {
            return ed25519_dalek::VerifyingKey::from_bytes(&b).ok();
        }
        // SubjectPublicKeyInfo: fixed 12 octet prefix
        let prefix = [0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0x00];
        let k = data.strip_prefix(&prefix[..])?;
        ed25519_dalek::VerifyingKey::from_bytes(&<[u8; 32]>::try_from(k).ok()?).ok()
    })
    .flatten()
}

/// RSASSA-PKCS1-v1_5 on bare arithmetic.
pub fn rsa_ok(k: &rsa::RsaPublicKey, sha1: bool, hash: &[u8], s: &[u8]) -> bool {
    const P256: &[u8] = &[
        0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01,
        0x05, 0x00, 0x04, 0x20,
    ];
    const P1: &[u8] = &[
        0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14,
    ];
    let prefix = if sha1 { P1 } else { P256 };
    let n = k.n();
    let len = (n.bits() + 7) / 8;
    if s.len() != len || len < prefix.len() + hash.len() + 11 {
        return false;
    }
    let s = BigUint::from_bytes_be(s);
    if s >= *n {
        return false;
    }
    let m = s.modpow(k.e(), n).to_bytes_be();
    let mut em = vec![0u8; len - m.len()];
    em.extend(m);
    let mut want = vec![0, 1];
    want.resize(len - prefix.len() - hash.len() - 1, 0xff);
    want.push(0);
    want.extend(prefix);
    want.extend(hash);
    em == want
}

pub fn ed_ok(k: &ed25519_dalek::VerifyingKey, msg: &[u8], s: &[u8]) -> bool {
    use ed25519_dalek::Verifier;
    let Ok(b) = <[u8; 64]>::try_from(s) else { return false };
    k.verify(msg, &ed25519_dalek::Signature::from_bytes(&b)).is_ok()
}

/// The hash that is signed, for the signature in header field `index`.
pub fn data_hash(hdrs: &Hdrs, index: usize, rs: &RSig) -> Vec<u8> {
    let value = std::str::from_utf8(&hdrs[index].1).unwrap();
    let mut data = canon::headers(rs.relaxed_header, hdrs, &rs.h);
    data.extend(canon::header(rs.relaxed_header, &hdrs[index].0, canon::blank_b(value).as_bytes()));
    rs.alg.hash(&data)
}

fn eval_record(
    txt: &Result<Vec<u8>, ErrorKind>,
    rs: &RSig,
    hash: &[u8],
    cfg: &RConfig,
    pre: bool,
) -> (Option<Vec<Exp>>, Option<Option<rec::RRec>>) {
    let bad = || (Some(vec![Exp::Record(vec![DkimKeyRecordError::RecordFormat])]), Some(None));
    let Ok(txt) = txt else { return bad() };
    let Ok(txt) = std::str::from_utf8(txt) else { return bad() };
    let r = match rec::parse(txt, pre) {
        rec::Parsed::Ok(r) => *r,
        rec::Parsed::Err(e) => return (Some(vec![Exp::Record(e)]), Some(None)),
        rec::Parsed::Unspecified => return (None, None),
    };
    let some = Some(Some(r.clone()));
    let mut errs = vec![];
    if r.rsa != rs.alg.is_rsa() {
        errs.push(Exp::Err(VErr::WrongKeyType));
    }
    if r.p.is_empty() {
        errs.push(Exp::Err(VErr::KeyRevoked));
    }
    let hname = if rs.alg == Alg::RsaSha1 { "sha1" } else { "sha256" };
    if !r.h.contains(&hname) {
        errs.push(Exp::Err(VErr::DisallowedHashAlgorithm));
    }
    if r.t.contains(&"s") {
        if let Some((_, d)) = &rs.i {
            let ida = sig::name_to_ascii(d, true).unwrap();
            if lower_str(&ida) != lower_str(&rs.d_ascii) {
                errs.push(Exp::Err(VErr::DomainMismatch));
            }
        }
    }
    if !errs.is_empty() {
        return (Some(errs), some);
    }
    let key = if r.rsa {
        read_rsa(&r.p).map(Key::Rsa)
    } else {
        read_ed(&r.p).map(Key::Ed)
    };
    let st = match key {
        None => Exp::Err(VErr::VerificationFailure(CErr::InvalidKey)),
        Some(Key::Rsa(k)) if k.n().bits() < hard_min_bits(pre) => {
            Exp::Err(VErr::VerificationFailure(CErr::InsufficientKeySize))
        }
        Some(Key::Rsa(k)) if k.n().bits() < cfg.min_key_bits => {
            Exp::Err(VErr::Policy(PolicyError::KeyTooSmall))
        }
        Some(Key::Rsa(k)) if rsa_ok(&k, rs.alg == Alg::RsaSha1, hash, &rs.b) => Exp::Success,
        Some(Key::Ed(k)) if ed_ok(&k, hash, &rs.b) => Exp::Success,
        _ => Exp::Err(VErr::VerificationFailure(CErr::VerificationFailure)),
    };
    (Some(vec![st]), some)
}

pub fn header_policy(rs: &RSig, hdrs: &Hdrs, cfg: &RConfig) -> Vec<Exp> {
    let mut pol = vec![];
    let count = |v: &[String], n: &str| v.iter().filter(|h| eq_nocase(h, n)).count();
    if cfg.required.iter().any(|r| count(&rs.h, r) == 0) {
        pol.push(PolicyError::RequiredHeaderNotSigned);
    }
    let names: Vec<String> = hdrs.iter().map(|h| h.0.clone()).collect();
    if cfg.forbidden_unsigned.iter().any(|f| count(&rs.h, f) < count(&names, f)) {
        pol.push(PolicyError::UnsignedHeaderOccurrence);
    }
    if let (Some(x), false) = (rs.x, cfg.allow_expired) {
        if cfg.now as u128 >= x as u128 + cfg.tolerance as u128 {
            pol.push(PolicyError::SignatureExpired);
        }
    }
    if let (Some(t), false) = (rs.t, cfg.allow_future) {
        if t as u128 > cfg.now as u128 + cfg.tolerance as u128 {
            pol.push(PolicyError::TimestampInFuture);
        }
    }
    if rs.alg == Alg::RsaSha1 && !cfg.allow_sha1 {
        pol.push(PolicyError::Sha1HashAlgorithm);
    }
    pol.into_iter().map(|p| Exp::Err(VErr::Policy(p))).collect()
}

pub fn query_name(rs: &RSig) -> String {
    format!("{}._domainkey.{}.", rs.s_ascii, rs.d_ascii)
}

/// The expected results; empty if the header has no signature to evaluate.
pub fn verify(
    hdrs: &Hdrs,
    body: &[u8],
    cfg: &RConfig,
    pre: bool,
    dns: &mut dyn FnMut(&str) -> Dns,
) -> Vec<Outcome> {
    let idx: Vec<usize> = hdrs
        .iter()
        .enumerate()
        .filter(|(_, h)| eq_nocase(&h.0, "DKIM-Signature"))
        .map(|(i, _)| i)
        .take(cfg.max_signatures)
        .collect();
    let mut out = vec![];
    for index in idx {
        let mut o = Outcome { index, status: None, sig: None, rec: Some(None) };
        let done = |o: Outcome, s: Vec<Exp>| Outcome { status: Some(s), ..o };
        let value = match std::str::from_utf8(&hdrs[index].1) {
            Ok(v) => v,
            Err(_) => {
                out.push(done(o, vec![Exp::Format(vec![DkimSignatureErrorKind::Utf8Encoding])]));
                continue;
            }
        };
        let rs = match sig::parse(value, pre) {
            sig::Parsed::Ok(s) => *s,
            sig::Parsed::Err(e) => {
                out.push(done(o, vec![Exp::Format(e)]));
                continue;
            }
            sig::Parsed::Unspecified => {
                o.rec = None;
                out.push(o);
                continue;
            }
        };
        o.sig = Some(rs.clone());
        let pol = header_policy(&rs, hdrs, cfg);
        if !pol.is_empty() {
            out.push(done(o, pol));
            continue;
        }
        let txts = match dns(&query_name(&rs)) {
            Dns::Records(r) if r.is_empty() => Err(VErr::NoKeyFound),
            Dns::Records(r) => Ok(r),
            Dns::TooSlow => Err(VErr::Timeout),
            Dns::Error(ErrorKind::NotFound) => Err(VErr::NoKeyFound),
            Dns::Error(ErrorKind::InvalidInput) => Err(VErr::InvalidKeyDomain),
            Dns::Error(ErrorKind::TimedOut) => Err(VErr::Timeout),
            Dns::Error(_) => Err(VErr::KeyLookup),
        };
        let txts = match txts {
            Ok(t) => t,
            Err(e) => {
                out.push(done(o, vec![Exp::Err(e)]));
                continue;
            }
        };
        let hash = data_hash(hdrs, index, &rs);
        let evals: Vec<_> = txts.iter().map(|t| eval_record(t, &rs, &hash, cfg, pre)).collect();
        let n = evals.len();
        let good = |e: &(Option<Vec<Exp>>, Option<Option<rec::RRec>>)| {
            e.0.as_ref().is_some_and(|v| v == &[Exp::Success])
        };
        let surely: Vec<usize> = (0..n).filter(|&i| i < 2 || i == n - 1).collect();
        let maybe_mid = (0..n).any(|i| !surely.contains(&i) && (good(&evals[i]) || evals[i].0.is_none()));
        let unspec = surely.iter().any(|&i| evals[i].0.is_none());
        let hit = surely.iter().find(|&&i| good(&evals[i]));
        if unspec {
            o.rec = None;
            out.push(o);
            continue;
        }
        match hit {
            None if maybe_mid => {
                // Which records beyond the first two and the last are tried is
                // an implementation detail.
                o.rec = None;
                out.push(o);
                continue;
            }
            None => {
                let (s, r) = evals[n - 1].clone();
                o.rec = r;
                out.push(done(o, s.unwrap()));
                continue;
            }
            Some(&i) => {
                o.rec = if maybe_mid { None } else { evals[i].1.clone() };
            }
        }
        // body
        if rs.relaxed_body && canon::relaxed_unspecified(body) {
            out.push(o);
            continue;
        }
        out.push(done(o, vec![body_status(&rs, body, cfg)]));
    }
    out
}

pub fn body_status(rs: &RSig, body: &[u8], cfg: &RConfig) -> Exp {
    let cb = canon::body(rs.relaxed_body, body);
    let hashed: &[u8] = match rs.l {
        Some(l) if l > cb.len() as u64 => return Exp::Err(VErr::InsufficientContent),
        Some(l) if (l as usize) < cb.len() && cfg.forbid_unsigned_content => {
            return Exp::Err(VErr::Policy(PolicyError::UnsignedContent));
        }
        Some(l) => &cb[..l as usize],
        None => &cb,
    };
    if rs.alg.hash(hashed) == rs.bh {
        Exp::Success
    } else {
        Exp::Err(VErr::BodyHashMismatch)
    }
}
