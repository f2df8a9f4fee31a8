//! RFC 6376, section 3.6.1: key records.

use super::{sig::b64_tag, tags, *};
use viadkim::record::DkimKeyRecordError as K;

#[derive(Clone, Debug, PartialEq)]
pub struct RRec {
    /// Supported acceptable hash algorithms ("sha256", "sha1"), in order.
    pub h: Vec<&'static str>,
    pub rsa: bool,
    pub n: Option<String>,
    pub p: Vec<u8>,
    /// "*" or "email"
    pub s: Vec<&'static str>,
    /// "y" or "s"
    pub t: Vec<&'static str>,
    pub ext: Vec<(String, String)>,
}

pub enum Parsed {
    Ok(Box<RRec>),
    Err(Vec<K>),
    Unspecified,
}

pub fn parse(txt: &str, pre: bool) -> Parsed {
    if tags::out_of_domain(txt) {
        return Parsed::Unspecified;
    }
    let tl = match tags::parse(txt) {
        Ok(t) => t,
        Err(_) => return Parsed::Err(vec![K::TagListFormat]),
    };
    let get = |n: &str| tl.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str());
    let mut errs = vec![];

    if let Some(pos) = tl.iter().position(|(n, _)| n == "v") {
        if pos != 0 {
            errs.push(K::MisplacedVersionTag);
        }
        if pos == 0 && tl[0].1 != "DKIM1" {
            errs.push(K::IncompatibleVersion);
        }
    }
    fn list(
        v: Option<&str>,
        default: Vec<&'static str>,
        map: &[(&str, &'static str)],
        empty_item: K,
        none: Option<K>,
        errs: &mut Vec<K>,
    ) -> Vec<&'static str> {
        let Some(v) = v else { return default };
        let items = tags::colon_list(v);
        if items.iter().any(|i| i.is_empty()) {
            errs.push(empty_item);
            return default;
        }
        let known: Vec<&'static str> = items
            .iter()
            .filter_map(|i| map.iter().find(|(n, _)| eq_nocase(n, i)).map(|m| m.1))
            .collect();
        if known.is_empty() {
            errs.extend(none);
        }
        known
    }
    let mut hs = vec![("sha256", "sha256")];
    let mut hdef = vec!["sha256"];
    if pre {
        hs.push(("sha1", "sha1"));
        hdef.push("sha1");
    }
    let h = list(get("h"), hdef, &hs, K::InvalidHashAlgorithm, Some(K::NoSupportedHashAlgorithms), &mut errs);
    let s = list(
        get("s"),
        vec!["*"],
        &[("*", "*"), ("email", "email")],
        K::InvalidServiceType,
        Some(K::NoSupportedServiceTypes),
        &mut errs,
    );
    let t = list(get("t"), vec![], &[("y", "y"), ("s", "s")], K::InvalidFlag, None, &mut errs);
    let mut rsa = true;
    if let Some(v) = get("k") {
        match lower_str(v).as_str() {
            "rsa" => {}
            "ed25519" => rsa = false,
            _ => errs.push(K::UnsupportedKeyType),
        }
    }
    let mut n = None;
    if let Some(v) = get("n") {
        match qp::decode_section(v) {
            Some(b) => n = Some(String::from_utf8_lossy(&b).into_owned()),
            None => errs.push(K::InvalidQuotedPrintable),
        }
    }
    let mut p = vec![];
    match get("p") {
        None => errs.push(K::MissingKeyTag),
        Some(v) => match b64_tag(v) {
            Ok(b) => p = b,
            Err(true) => return Parsed::Unspecified,
            Err(false) => errs.push(K::InvalidBase64),
        },
    }
    if !errs.is_empty() {
        return Parsed::Err(errs);
    }
    const KNOWN: [&str; 7] = ["v", "h", "k", "n", "p", "s", "t"];
    let ext = tl.iter().filter(|(n, _)| !KNOWN.contains(&n.as_str())).cloned().collect();
    Parsed::Ok(Box::new(RRec { h, rsa, n, p, s, t, ext }))
}
