//! The checks: one module per group of properties, each property being a list
//! of facets.

use crate::{
    engine::{Ctx, Facet, Res},
    refm::{rec::RRec, sig::RSig},
};
use viadkim::{
    crypto::{HashAlgorithm, KeyType},
    record::{DkimKeyRecord, SelectorFlag, ServiceType},
    signature::{CanonicalizationAlgorithm as CA, DkimSignature},
};

pub mod api;
pub mod sessions;
pub mod canon;
pub mod codec;
pub mod cryp;
pub mod dns;
pub mod fmt;
pub mod memory;
pub mod names;
pub mod panics;
pub mod parse;
pub mod policy;
pub mod roundtrip;
pub mod secrets;
pub mod time;
pub mod verify;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub facets: &'static [Facet],
    /// Whether the build with feature pre-rfc8301 is checked as well.
    pub pre: bool,
}

/// The same check over large cases.
pub fn large(c: &mut Ctx, check: fn(&mut Ctx) -> Res) -> Res {
    c.large = true;
    check(c)
}

pub fn props() -> Vec<&'static Prop> {
    vec![
        &roundtrip::C01,
        &verify::C02,
        &verify::C03,
        &canon::C04,
        &canon::C05,
        &canon::C06,
        &canon::C07,
        &parse::C08,
        &parse::C09,
        &codec::C10,
        &fmt::C11,
        &roundtrip::C12,
        &policy::C13,
        &policy::C14,
        &dns::C15,
        &dns::C16,
        &names::C17,
        &panics::C18,
        &policy::C19,
        &policy::C20,
        &codec::C21,
        &cryp::C22,
        &roundtrip::C23,
        &fmt::C24,
        &api::C25,
        &api::C26,
        &api::C27,
        &sessions::C28,
        &memory::C29,
        &secrets::C30,
        &time::C31,
    ]
}

// ---------------------------------------------------------------- comparisons

/// Differences between a parsed signature and the reference's; empty if none.
pub fn sig_diff(r: &RSig, s: &DkimSignature) -> String {
    let mut d = vec![];
    macro_rules! cmp {
        ($n:expr, $a:expr, $b:expr) => {{
            let (a, b) = (&$a, &$b);
            if a != b {
                d.push(format!("{}: got {:?}, expected {:?}", $n, a, b));
            }
        }};
    }
    cmp!("a", crate::gen::r_alg(s.algorithm), r.alg);
    cmp!("b", s.signature_data.to_vec(), r.b);
    cmp!("bh", s.body_hash.to_vec(), r.bh);
    cmp!("c(header)", s.canonicalization.header == CA::Relaxed, r.relaxed_header);
    cmp!("c(body)", s.canonicalization.body == CA::Relaxed, r.relaxed_body);
    cmp!("d", s.domain.as_ref(), r.d.as_str());
    let h: Vec<String> = s.signed_headers.iter().map(|n| n.as_ref().to_owned()).collect();
    cmp!("h", h, r.h);
    let i = s.identity.as_ref().map(|i| {
        (i.local_part.as_ref().map(|l| l.to_string()), i.domain.as_ref().to_owned())
    });
    cmp!("i", i, r.i);
    cmp!("l", s.body_length, r.l);
    cmp!("s", s.selector.as_ref(), r.s.as_str());
    cmp!("t", s.timestamp, r.t);
    cmp!("x", s.expiration, r.x);
    let z: Vec<(String, Vec<u8>)> = s
        .copied_headers
        .iter()
        .map(|(n, v)| (n.as_ref().to_owned(), v.to_vec()))
        .collect();
    cmp!("z", z, r.z);
    let e: Vec<(String, String)> =
        s.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect();
    cmp!("ext", e, r.ext);
    d.join("; ")
}

pub fn hash_name(h: HashAlgorithm) -> &'static str {
    match h {
        HashAlgorithm::Sha256 => "sha256",
        #[cfg(feature = "pre")]
        HashAlgorithm::Sha1 => "sha1",
    }
}

pub fn rec_diff(r: &RRec, k: &DkimKeyRecord) -> String {
    let mut d = vec![];
    macro_rules! cmp {
        ($n:expr, $a:expr, $b:expr) => {{
            let (a, b) = (&$a, &$b);
            if a != b {
                d.push(format!("{}: got {:?}, expected {:?}", $n, a, b));
            }
        }};
    }
    fn sorted(mut v: Vec<&'static str>) -> Vec<&'static str> {
        v.sort();
        v
    }
    let h: Vec<&str> = k.hash_algorithms.iter().map(|h| hash_name(*h)).collect();
    // order is meaningful only if the tag is present, the default is a set
    if h != r.h {
        cmp!("h", sorted(h), sorted(r.h.clone()));
    }
    cmp!("k", k.key_type == KeyType::Rsa, r.rsa);
    cmp!("n", k.notes.as_ref().map(|n| n.to_string()), r.n);
    cmp!("p", k.key_data.to_vec(), r.p);
    let s: Vec<&str> = k
        .service_types
        .iter()
        .map(|s| match s {
            ServiceType::Any => "*",
            ServiceType::Email => "email",
        })
        .collect();
    cmp!("s", s, r.s);
    let t: Vec<&str> = k
        .flags
        .iter()
        .map(|f| match f {
            SelectorFlag::Testing => "y",
            SelectorFlag::NoSubdomains => "s",
        })
        .collect();
    cmp!("t", t, r.t);
    cmp!("testing", k.is_testing(), r.t.contains(&"y"));
    let e: Vec<(String, String)> =
        k.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect();
    cmp!("ext", e, r.ext);
    d.join("; ")
}
