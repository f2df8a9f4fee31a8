//! C08, C09: parsing of signatures and key records.

use super::*;
use crate::{
    engine::{facet, table, Ctx, Res},
    ensure, ensure_eq,
    gen::{self, PRE},
    refm::{rec, sig, tags},
    text,
};
use viadkim::signature::DkimSignatureErrorKind as K;

pub static C08: Prop = Prop {
    id: "C08",
    rule: "Signature texts: valid tag lists with varied whitespace and order; the same with tags replaced by \
           valid and invalid values, dropped, doubled, renamed; raw character edits; every boundary value in \
           the tables. Non-trivial: the tag list is well-formed, so that signature rules decide. Oracle: \
           independent parser (accepted or not, all values, set of applicable causes).",
    facets: &[
        table("single tag values", 2_400, c08_values),
        table("numbers", 400, c08_numbers),
        facet("texts", 120_000, 2_500_000, c08_texts),
        facet("raw edits", 40_000, 800_000, c08_raw),
        facet("free", 40_000, 800_000, c08_free),
    ],
    pre: true,
};

fn c08_check(c: &mut Ctx, s: &str) -> Res {
    c.id(s);
    c.note(|| format!("{s:?}"));
    let got = s.parse::<DkimSignature>();
    if tags::out_of_domain(s) {
        c.class("whitespace with two line breaks, not judged");
        return Ok(());
    }
    let tl = tags::parse(s);
    c.nontrivial = tl.is_ok();
    if let Err(e) = &got {
        let want = |n: &str| {
            tl.as_ref().ok().and_then(|t| t.iter().find(|(k, _)| k == n)).map(|(_, v)| v.as_str())
        };
        for (n, v) in [
            ("a", &e.algorithm_str),
            ("b", &e.signature_data_str),
            ("d", &e.domain_str),
            ("i", &e.identity_str),
            ("s", &e.selector_str),
        ] {
            ensure_eq!(v.as_deref(), want(n), "raw string of tag {n}= in the error ({:?}) for {s:?}", e.kind);
        }
    }
    match (sig::parse(s, PRE), got) {
        (sig::Parsed::Unspecified, _) => c.class("non-canonical Base64, not judged"),
        (sig::Parsed::Ok(r), Ok(g)) => {
            c.class("accepted");
            let d = sig_diff(&r, &g);
            ensure!(d.is_empty(), "parsed signature differs: {d}\n   from {s:?}");
        }
        (sig::Parsed::Ok(_), Err(e)) => {
            return crate::engine::fail(format!("valid signature refused: {:?}\n   {s:?}", e.kind))
        }
        (sig::Parsed::Err(ks), Ok(_)) => {
            return crate::engine::fail(format!("invalid signature accepted, expected one of {ks:?}\n   {s:?}"))
        }
        (sig::Parsed::Err(ks), Err(e)) => {
            c.class(kind_class(e.kind));
            ensure!(
                ks.contains(&e.kind),
                "reported cause {:?} does not apply, applicable are {ks:?}\n   {s:?}",
                e.kind
            );
        }
    }
    Ok(())
}

fn kind_class(k: K) -> &'static str {
    match k {
        K::Utf8Encoding => "Utf8Encoding",
        K::TagListFormat => "TagListFormat",
        K::IncompatibleVersion => "IncompatibleVersion",
        K::HistoricAlgorithm => "HistoricAlgorithm",
        K::UnsupportedAlgorithm => "UnsupportedAlgorithm",
        K::InvalidBase64 => "InvalidBase64",
        K::EmptySignatureTag => "EmptySignatureTag",
        K::EmptyBodyHashTag => "EmptyBodyHashTag",
        K::UnsupportedCanonicalization => "UnsupportedCanonicalization",
        K::InvalidDomain => "InvalidDomain",
        K::InvalidSignedHeaderName => "InvalidSignedHeaderName",
        K::EmptySignedHeadersTag => "EmptySignedHeadersTag",
        K::FromHeaderNotSigned => "FromHeaderNotSigned",
        K::InvalidIdentity => "InvalidIdentity",
        K::InvalidBodyLength => "InvalidBodyLength",
        K::InvalidQueryMethod => "InvalidQueryMethod",
        K::NoSupportedQueryMethods => "NoSupportedQueryMethods",
        K::InvalidSelector => "InvalidSelector",
        K::InvalidTimestamp => "InvalidTimestamp",
        K::InvalidExpiration => "InvalidExpiration",
        K::InvalidCopiedHeaderField => "InvalidCopiedHeaderField",
        K::MissingVersionTag => "MissingVersionTag",
        K::MissingAlgorithmTag => "MissingAlgorithmTag",
        K::MissingSignatureTag => "MissingSignatureTag",
        K::MissingBodyHashTag => "MissingBodyHashTag",
        K::MissingDomainTag => "MissingDomainTag",
        K::MissingSignedHeadersTag => "MissingSignedHeadersTag",
        K::MissingSelectorTag => "MissingSelectorTag",
        K::DomainMismatch => "DomainMismatch",
        K::ExpirationNotAfterTimestamp => "ExpirationNotAfterTimestamp",
        #[allow(unreachable_patterns)]
        _ => "other kind",
    }
}

fn base_sig() -> Vec<(String, String)> {
    [
        ("v", "1"), ("a", "ed25519-sha256"), ("d", "example.com"), ("s", "sel"), ("h", "From"),
        ("bh", "YWJj"), ("b", "YWJj"),
    ]
    .map(|(a, b)| (a.to_owned(), b.to_owned()))
    .to_vec()
}

fn set(v: &mut Vec<(String, String)>, n: &str, val: &str) {
    match v.iter_mut().find(|(k, _)| k == n) {
        Some(t) => t.1 = val.to_owned(),
        None => v.push((n.to_owned(), val.to_owned())),
    }
}

/// Every value of every tag's value table in an otherwise valid signature: the
/// case number selects tag, and the value through the tape of its generator.
fn c08_values(c: &mut Ctx) -> Res {
    let i = c.below(2_400);
    let all = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z", "foo", "A"];
    let tag = all[(i % 16) as usize];
    let k = i / 16;
    // a tape that makes the generator's first choices enumerate
    let mut g = Ctx::new(crate::engine::Tape::given(vec![k, k / 5, k / 3, k]), false);
    let val = match tag {
        "d" | "s" => {
            if k < 40 {
                let mut g = Ctx::new(crate::engine::Tape::given(vec![k, 62, 62]), false);
                text::odd_name(&mut g)
            } else {
                let mut g = Ctx::new(crate::engine::Tape::seeded(k), false);
                text::name_value(&mut g, tag == "d")
            }
        }
        "i" | "l" | "t" | "x" => {
            let mut g = Ctx::new(crate::engine::Tape::seeded(k), false);
            text::sig_value(&mut g, tag)
        }
        _ => text::sig_value(&mut g, tag),
    };
    let mut v = base_sig();
    set(&mut v, tag, &val);
    let s: Vec<String> = v.iter().map(|(a, b)| format!("{a}={b}")).collect();
    c08_check(c, &s.join("; "))
}

fn c08_numbers(c: &mut Ctx) -> Res {
    let i = c.below(400);
    let max = u64::MAX as u128;
    let nums: Vec<String> = vec![
        "0".into(), "1".into(), "9".into(), "10".into(), "00".into(), "007".into(), max.to_string(),
        (max + 1).to_string(), (max - 1).to_string(), (max * 10).to_string(), format!("0{max}"),
        format!("{:0100}", 1), "1".repeat(76), "1".repeat(77), "".into(), "+1".into(), "-1".into(),
        "1 ".into(), " 1".into(), "1 1".into(), "1\r\n 1".into(), "0x1".into(), "1e1".into(), "1.".into(),
        "٣".into(), "１".into(), "1_0".into(), "4294967295".into(), "4294967296".into(),
        "999999999999".into(), "1000000000000".into(), "+0".into(), "-0".into(),
    ];
    let tag = ["l", "t", "x"][(i % 3) as usize];
    let n = &nums[(i / 3) as usize % nums.len()];
    let mut v = base_sig();
    set(&mut v, tag, n);
    if i >= 200 {
        // relation of t= and x=
        let t = [0u64, 5, u64::MAX - 1, u64::MAX][(i % 4) as usize];
        let x = [0u64, 1, 4, 5, 6, u64::MAX - 1, u64::MAX][(i / 4 % 7) as usize];
        v = base_sig();
        set(&mut v, "t", &t.to_string());
        set(&mut v, "x", &x.to_string());
        if i % 2 == 1 {
            v.reverse();
        }
    }
    let s: Vec<String> = v.iter().map(|(a, b)| format!("{a}={b}")).collect();
    c08_check(c, &s.join(";"))
}

fn c08_texts(c: &mut Ctx) -> Res {
    let s = text::sig_text(c);
    c08_check(c, &s)
}

fn c08_raw(c: &mut Ctx) -> Res {
    let v = text::valid_sig_tags(c);
    let style = c.below(3);
    let s = text::render(c, &v, style, "");
    let s = text::mutate_raw(c, s);
    c08_check(c, &s)
}

/// Free combination of small tokens.
fn c08_free(c: &mut Ctx) -> Res {
    let n = c.range(0, 12);
    let mut s = String::new();
    if c.bool() {
        s.push_str("v=1;a=ed25519-sha256;d=a.b;s=c;bh=YQ==;b=YQ==;h=from");
        if c.bool() {
            s.push(';');
        }
    }
    for _ in 0..n {
        s.push_str(c.pick(&[
            "a", "=", ";", "\r\n ", " ", "\t", "v=1", "b=", ":", "h=", "from", "z=", "|", "x", "1", "=41", "_",
            "é", "\r", "\n", "i=@a.b", "t=1", "x=2", "\u{7f}", "c=relaxed", ";;", "l=0",
        ]));
    }
    c08_check(c, &s)
}

// ---------------------------------------------------------------- C09

pub static C09: Prop = Prop {
    id: "C09",
    rule: "Key record texts: valid ones with varied tags, order and whitespace; the same with tags replaced by \
           valid and invalid values, dropped, doubled, renamed; raw character edits. Non-trivial: the tag list \
           is well-formed. Oracle: independent parser.",
    facets: &[
        table("single tag values", 400, c09_values),
        facet("texts", 120_000, 2_500_000, c09_texts),
        facet("free", 60_000, 1_000_000, c09_free),
    ],
    pre: true,
};

fn c09_check(c: &mut Ctx, s: &str) -> Res {
    c.id(s);
    c.note(|| format!("{s:?}"));
    let got = s.parse::<DkimKeyRecord>();
    if tags::out_of_domain(s) {
        c.class("whitespace with two line breaks, not judged");
        return Ok(());
    }
    c.nontrivial = tags::parse(s).is_ok();
    match (rec::parse(s, PRE), got) {
        (rec::Parsed::Unspecified, _) => c.class("non-canonical Base64, not judged"),
        (rec::Parsed::Ok(r), Ok(g)) => {
            c.class("accepted");
            c.class_if(r.p.is_empty(), "accepted, empty key");
            let d = rec_diff(&r, &g);
            ensure!(d.is_empty(), "parsed key record differs: {d}\n   from {s:?}");
        }
        (rec::Parsed::Ok(_), Err(e)) => {
            return crate::engine::fail(format!("valid key record refused: {e:?}\n   {s:?}"))
        }
        (rec::Parsed::Err(ks), Ok(_)) => {
            return crate::engine::fail(format!("invalid key record accepted, expected one of {ks:?}\n   {s:?}"))
        }
        (rec::Parsed::Err(ks), Err(e)) => {
            c.class("refused");
            ensure!(ks.contains(&e), "reported cause {e:?} does not apply, applicable are {ks:?}\n   {s:?}");
        }
    }
    Ok(())
}

fn c09_values(c: &mut Ctx) -> Res {
    let i = c.below(400);
    let tag = ["v", "h", "k", "n", "p", "s", "t", "foo"][(i % 8) as usize];
    let mut g = Ctx::new(crate::engine::Tape::given(vec![i / 8]), false);
    let val = text::rec_value(&mut g, tag);
    let mut v: Vec<(String, String)> = vec![];
    if i % 16 < 8 {
        v.push(("v".into(), "DKIM1".into()));
    }
    set(&mut v, "p", "YWJj");
    if tag == "v" && v.len() == 1 {
        // last
        v.push(("v".into(), val));
    } else {
        set(&mut v, tag, &val);
    }
    let s: Vec<String> = v.iter().map(|(a, b)| format!("{a}={b}")).collect();
    c09_check(c, &s.join("; "))
}

fn c09_texts(c: &mut Ctx) -> Res {
    let s = text::rec_text(c);
    c09_check(c, &s)
}

fn c09_free(c: &mut Ctx) -> Res {
    let n = c.range(0, 12);
    let mut s = String::new();
    if c.bool() {
        s.push_str(c.pick(&["v=DKIM1;p=YQ==", "p=YQ==", "p="]));
        if c.bool() {
            s.push(';');
        }
    }
    for _ in 0..n {
        s.push_str(c.pick(&[
            "a", "=", ";", "\r\n ", " ", "\t", "v=DKIM1", "p=", ":", "h=", "sha256", "s=", "*", "t=", "y", "=41",
            "n=", "é", "\r", "\n", "k=rsa", "k=ed25519", "email", "\u{7f}", ";;", "sha1", "p=YQ==",
        ]));
    }
    let _ = gen::PRE;
    c09_check(c, &s)
}
