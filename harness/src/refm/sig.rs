//! RFC 6376, section 3.5: the DKIM-Signature header field; domain names and
//! identities.

use super::{tags, *};
use viadkim::signature::DkimSignatureErrorKind as K;

// ---------------------------------------------------------------- names

fn ldh_label(l: &str) -> bool {
    let b = l.as_bytes();
    (1..=63).contains(&b.len())
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
        && b[0] != b'-'
        && b[b.len() - 1] != b'-'
}

/// The A-label form, if `s` is a usable name. `tld`: the last label must not
/// be all-numeric.
pub fn name_to_ascii(s: &str, tld: bool) -> Option<String> {
    let a = ref_guard_ascii(s)?;
    if a.is_empty() || a.len() > 253 {
        return None;
    }
    let labels: Vec<&str> = a.split('.').collect();
    if !labels.iter().all(|l| ldh_label(l)) {
        return None;
    }
    if tld && labels.last().unwrap().bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    // the U-label form must exist and be the same name; this excludes fake
    // A-labels that encode plain ASCII
    let u = crate::engine::ref_guard(|| idna::domain_to_unicode(s)).filter(|u| u.1.is_ok())?.0;
    if ref_guard_ascii(&u).as_ref() != Some(&a) {
        return None;
    }
    Some(a)
}

fn ref_guard_ascii(s: &str) -> Option<String> {
    crate::engine::ref_guard(|| idna::domain_to_ascii(s).ok()).flatten()
}

/// `a` equals `b` or is below it, both in A-label form.
pub fn eq_or_below(a: &str, b: &str) -> bool {
    let la: Vec<String> = a.split('.').map(lower_str).collect();
    let lb: Vec<String> = b.split('.').map(lower_str).collect();
    la.len() >= lb.len() && la[la.len() - lb.len()..] == lb[..]
}

fn atext(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(c) || !c.is_ascii()
}

/// RFC 5321, 4.1.2 with RFC 6531, 3.3; at most 64 octets.
pub fn valid_local_part(s: &str) -> bool {
    if s.len() > 64 {
        return false;
    }
    if s.starts_with('"') {
        let cs: Vec<char> = s.chars().collect();
        if cs.len() < 2 || cs[cs.len() - 1] != '"' {
            return false;
        }
        let inner = &cs[1..cs.len() - 1];
        let mut i = 0;
        while i < inner.len() {
            match inner[i] {
                '\\' => {
                    // quoted-pairSMTP: %d92 %d32-126
                    match inner.get(i + 1) {
                        Some(c) if (' '..='~').contains(c) => i += 2,
                        _ => return false,
                    }
                }
                '"' => return false,
                c if (' '..='~').contains(&c) || !c.is_ascii() => i += 1,
                _ => return false,
            }
        }
        true
    } else {
        s.split('.').all(|a| !a.is_empty() && a.chars().all(atext))
    }
}

/// (local part, domain)
pub fn identity(s: &str) -> Option<(Option<String>, String)> {
    let at = s.rfind('@')?;
    let (l, d) = (&s[..at], &s[at + 1..]);
    if !l.is_empty() && !valid_local_part(l) {
        return None;
    }
    name_to_ascii(d, true)?;
    Some((if l.is_empty() { None } else { Some(l.to_owned()) }, d.to_owned()))
}

// ---------------------------------------------------------------- signature

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    RsaSha256,
    RsaSha1,
    Ed25519,
}

impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            Alg::RsaSha256 => "rsa-sha256",
            Alg::RsaSha1 => "rsa-sha1",
            Alg::Ed25519 => "ed25519-sha256",
        }
    }
    pub fn is_rsa(self) -> bool {
        self != Alg::Ed25519
    }
    pub fn hash(self, b: &[u8]) -> Vec<u8> {
        if self == Alg::RsaSha1 { sha1(b) } else { sha256(b) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RSig {
    pub alg: Alg,
    pub b: Vec<u8>,
    pub bh: Vec<u8>,
    pub relaxed_header: bool,
    pub relaxed_body: bool,
    pub d: String,
    pub d_ascii: String,
    pub h: Vec<String>,
    pub i: Option<(Option<String>, String)>,
    pub l: Option<u64>,
    pub s: String,
    pub s_ascii: String,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub z: Vec<(String, Vec<u8>)>,
    pub ext: Vec<(String, String)>,
}

pub enum Parsed {
    Ok(Box<RSig>),
    /// Any of these errors describes the input.
    Err(Vec<K>),
    /// Not judged.
    Unspecified,
}

/// Whether this is a number as in the grammar: 1*DIGIT.
pub fn number(v: &str) -> Result<u64, ()> {
    if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
        return Err(());
    }
    let mut n: u64 = 0;
    for b in v.bytes() {
        n = n.checked_mul(10).ok_or(())?.checked_add((b - b'0') as u64).ok_or(())?;
    }
    Ok(n)
}

pub fn b64_tag(v: &str) -> Result<Vec<u8>, bool> {
    b64_decode(&tags::strip_ws(v))
}

/// `pre`: built with feature pre-rfc8301.
pub fn parse(s: &str, pre: bool) -> Parsed {
    if tags::out_of_domain(s) {
        return Parsed::Unspecified;
    }
    let tl = match tags::parse(s) {
        Ok(t) => t,
        Err(_) => return Parsed::Err(vec![K::TagListFormat]),
    };
    let get = |n: &str| tl.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str());

    let mut errs = vec![];
    let mut unspec = false;

    match get("v") {
        None => errs.push(K::MissingVersionTag),
        Some("1") => {}
        Some(_) => errs.push(K::IncompatibleVersion),
    }
    let alg = match get("a") {
        None => {
            errs.push(K::MissingAlgorithmTag);
            None
        }
        Some(v) => match lower_str(v).as_str() {
            "rsa-sha256" => Some(Alg::RsaSha256),
            "ed25519-sha256" => Some(Alg::Ed25519),
            "rsa-sha1" if pre => Some(Alg::RsaSha1),
            "rsa-sha1" => {
                errs.push(K::HistoricAlgorithm);
                None
            }
            _ => {
                errs.push(K::UnsupportedAlgorithm);
                None
            }
        },
    };
    let mut bytes = |n: &str, missing, empty, errs: &mut Vec<K>| match get(n) {
        None => {
            errs.push(missing);
            vec![]
        }
        Some(v) => match b64_tag(v) {
            Err(true) => {
                unspec = true;
                vec![]
            }
            Err(false) => {
                errs.push(K::InvalidBase64);
                vec![]
            }
            Ok(b) => {
                if b.is_empty() {
                    errs.push(empty);
                }
                b
            }
        },
    };
    let b = bytes("b", K::MissingSignatureTag, K::EmptySignatureTag, &mut errs);
    let bh = bytes("bh", K::MissingBodyHashTag, K::EmptyBodyHashTag, &mut errs);

    let (mut rh, mut rb) = (false, false);
    if let Some(v) = get("c") {
        let mut ps = v.splitn(2, '/');
        let mut one = |p: Option<&str>| match p.map(lower_str).as_deref() {
            None | Some("simple") => false,
            Some("relaxed") => true,
            _ => {
                errs.push(K::UnsupportedCanonicalization);
                false
            }
        };
        rh = one(ps.next());
        rb = one(ps.next());
    }
    let mut name = |n: &str, tld, missing, invalid, errs: &mut Vec<K>| match get(n) {
        None => {
            errs.push(missing);
            None
        }
        Some(v) => match name_to_ascii(v, tld) {
            Some(a) => Some((v.to_owned(), a)),
            None => {
                errs.push(invalid);
                None
            }
        },
    };
    let d = name("d", true, K::MissingDomainTag, K::InvalidDomain, &mut errs);
    let sel = name("s", false, K::MissingSelectorTag, K::InvalidSelector, &mut errs);

    let mut h = vec![];
    match get("h") {
        None => errs.push(K::MissingSignedHeadersTag),
        Some("") => errs.push(K::EmptySignedHeadersTag),
        Some(v) => {
            h = tags::colon_list(v);
            if !h.iter().all(|n| valid_field_name(n)) {
                errs.push(K::InvalidSignedHeaderName);
            } else if !h.iter().any(|n| eq_nocase(n, "from")) {
                errs.push(K::FromHeaderNotSigned);
            }
        }
    }
    let mut id = None;
    if let Some(v) = get("i") {
        id = qp::decode(v).and_then(|x| String::from_utf8(x).ok()).and_then(|x| identity(&x));
        match (&id, &d) {
            (None, _) => errs.push(K::InvalidIdentity),
            (Some((_, idom)), Some((_, da))) => {
                if !eq_or_below(&name_to_ascii(idom, true).unwrap(), da) {
                    errs.push(K::DomainMismatch);
                }
            }
            _ => {}
        }
    }
    let mut num = |n: &str, invalid, errs: &mut Vec<K>| match get(n) {
        None => None,
        Some(v) => match number(v) {
            Ok(n) => Some(n),
            Err(()) => {
                errs.push(invalid);
                None
            }
        },
    };
    let l = num("l", K::InvalidBodyLength, &mut errs);
    let t = num("t", K::InvalidTimestamp, &mut errs);
    let x = num("x", K::InvalidExpiration, &mut errs);
    if let (Some(t), Some(x)) = (t, x) {
        if x <= t {
            errs.push(K::ExpirationNotAfterTimestamp);
        }
    }
    if let Some(v) = get("q") {
        let m = tags::colon_list(v);
        if m.iter().any(|s| s.is_empty()) {
            errs.push(K::InvalidQueryMethod);
        }
        if !m.iter().any(|s| eq_nocase(s, "dns/txt")) {
            errs.push(K::NoSupportedQueryMethods);
        }
    }
    let mut z = vec![];
    if let Some(v) = get("z") {
        for piece in v.split('|') {
            let hv = qp::decode(piece).and_then(|p| {
                let c = p.iter().position(|&b| b == b':')?;
                let n = String::from_utf8(p[..c].to_vec()).ok()?;
                valid_field_name(&n).then(|| (n, p[c + 1..].to_vec()))
            });
            match hv {
                Some(hv) => z.push(hv),
                None => {
                    errs.push(K::InvalidCopiedHeaderField);
                    break;
                }
            }
        }
    }
    if unspec {
        return Parsed::Unspecified;
    }
    if !errs.is_empty() {
        return Parsed::Err(errs);
    }
    let (d, d_ascii) = d.unwrap();
    let (s, s_ascii) = sel.unwrap();
    const KNOWN: [&str; 14] =
        ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];
    let ext = tl.iter().filter(|(n, _)| !KNOWN.contains(&n.as_str())).cloned().collect();
    Parsed::Ok(Box::new(RSig {
        alg: alg.unwrap(),
        b,
        bh,
        relaxed_header: rh,
        relaxed_body: rb,
        d,
        d_ascii,
        h,
        i: id,
        l,
        s,
        s_ascii,
        t,
        x,
        z,
        ext,
    }))
}
