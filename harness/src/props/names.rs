//! C17: domain names, selectors, identities.

use super::*;
use crate::{
    engine::{facet, table, Ctx, Res},
    ensure, ensure_eq,
    gen,
    refm::{self, sig},
    text,
};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};
use viadkim::signature::{DomainName, Identity, Selector};

pub static C17: Prop = Prop {
    id: "C17",
    rule: "Names from label pools with U-labels, A-labels, mixed case, and labels and names at the length \
           limits; every ASCII character at the start, middle and end of a label; pairs of names related by \
           prefixing, case and IDNA form; local parts of dot-string and quoted-string near the edge of the \
           grammar. Non-trivial: not a plain lowercase LDH name. Oracle: independent grammar, label-wise \
           relation, round trip.",
    facets: &[
        table("characters", 128, c17_chars),
        table("lengths", 600, c17_lengths),
        table("local part characters", 160, c17_local_chars),
        facet("names", 80_000, 2_000_000, c17_names),
        facet("pairs", 80_000, 2_000_000, c17_pairs),
        facet("identities", 80_000, 2_000_000, c17_ids),
    ],
    pre: false,
};

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn check_name(c: &mut Ctx, s: &str) -> Res {
    for tld in [true, false] {
        let kind = if tld { "domain name" } else { "selector" };
        let want = sig::name_to_ascii(s, tld);
        let (got, parsed) = if tld {
            (
                DomainName::new(s).ok().map(|d| (d.to_ascii(), d.to_unicode(), d.as_ref().to_owned(), d.to_string())),
                s.parse::<DomainName>().is_ok(),
            )
        } else {
            (
                Selector::new(s).ok().map(|d| (d.to_ascii(), d.to_unicode(), d.as_ref().to_owned(), d.to_string())),
                s.parse::<Selector>().is_ok(),
            )
        };
        ensure!(
            got.is_some() == want.is_some(),
            "{kind} {s:?}: accepted: {}, expected: {}",
            got.is_some(),
            want.is_some()
        );
        ensure!(parsed == got.is_some(), "{kind} {s:?}: FromStr and new disagree");
        let (Some((a, u, orig, disp)), Some(w)) = (got, want) else {
            c.class("refused");
            continue;
        };
        c.class("accepted");
        ensure_eq!(a, w, "ASCII form of {kind} {s:?}");
        ensure!(orig == s && disp == s, "{kind} {s:?} is not given back unchanged: {orig:?} {disp:?}");
        ensure!(a.is_ascii(), "ASCII form of {s:?} is not ASCII: {a:?}");
        // there and back
        for t in [&a, &u] {
            let back = if tld {
                DomainName::new(t.as_str()).ok().map(|d| (d.to_ascii(), d.to_unicode()))
            } else {
                Selector::new(t.as_str()).ok().map(|d| (d.to_ascii(), d.to_unicode()))
            };
            ensure_eq!(back, Some((a.clone(), u.clone())), "{kind} {s:?} via its other form {t:?}");
        }
    }
    Ok(())
}

fn plain(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_lowercase() || b == b'.')
}

fn c17_chars(c: &mut Ctx) -> Res {
    let ch = c.below(128) as u8 as char;
    c.id([ch as u8]);
    c.nontrivial = true;
    c.note(|| format!("character {ch:?}"));
    for s in [
        format!("{ch}"), format!("{ch}a"), format!("a{ch}"), format!("a{ch}b"), format!("a{ch}b.com"),
        format!("{ch}b.com"), format!("a{ch}.com"), format!("com.{ch}"), format!("com.a{ch}"),
        format!("ü{ch}.com"), format!("{ch}ü.com"), format!("x.{ch}.y"), format!("1.{ch}1"), format!("1{ch}"),
    ] {
        check_name(c, &s)?;
    }
    Ok(())
}

fn c17_lengths(c: &mut Ctx) -> Res {
    let i = c.below(600) as usize;
    let s = if i < 70 {
        format!("{}.com", "a".repeat(i))
    } else if i < 140 {
        // all labels but one at most 63
        let l = "b".repeat(63);
        format!("{l}.{l}.{l}.{}", "c".repeat(i - 70))
    } else if i < 220 {
        // U-labels near the limit of 63 octets in A-label form
        format!("{}.example", "ü".repeat(i - 140))
    } else if i < 300 {
        format!("ex.{}", "d".repeat(i - 220))
    } else if i < 450 {
        vec!["a"; i - 300 + 1].join(".")
    } else {
        format!("{}x", "中.".repeat(i - 450))
    };
    c.id(&s);
    c.nontrivial = true;
    c.note(|| format!("{} octets: {s:.60}", s.len()));
    check_name(c, &s)
}

fn c17_names(c: &mut Ctx) -> Res {
    let s = match c.weighted(&[6, 2, 2]) {
        0 => {
            if c.bool() {
                let n = c.range(1, 4);
                let v: Vec<String> = (0..n).map(|_| gen::label(c)).collect();
                v.join(".")
            } else {
                let dom = c.bool();
                text::name_value(c, dom)
            }
        }
        1 => {
            let d = gen::domain(c);
            text::mutate_raw(c, d)
        }
        _ => {
            let d = gen::domain(c);
            gen::case_mix(c, &d)
        }
    };
    c.id(&s);
    c.nontrivial = !plain(&s);
    c.note(|| format!("{s:?}"));
    check_name(c, &s)
}

fn pool_label(c: &mut Ctx) -> &'static str {
    c.pick(&["a", "b", "ab", "example", "com", "ü", "xn--tda", "中国", "xn--fiqs8s", "bücher", "xn--bcher-kva", "1", "x-y", "_s", "a1"])
}

fn c17_pairs(c: &mut Ctx) -> Res {
    let n = c.range(1, 3);
    let made = c.chance(1, 3);
    let la: Vec<String> = (0..n).map(|_| if made { gen::label(c) } else { pool_label(c).to_owned() }).collect();
    let mut a = la.join(".");
    if c.chance(1, 6) {
        a = a.to_uppercase();
    }
    let mut b = match c.weighted(&[4, 2, 2, 2, 2, 2, 2, 3]) {
        0 => {
            let n = c.range(1, 3);
            let l: Vec<_> = (0..n).map(|_| pool_label(c).to_owned()).collect();
            l.join(".")
        }
        1 => format!("{}.{a}", pool_label(c)),
        2 => format!("{}{a}", pool_label(c)),
        3 => la[1.min(la.len() - 1)..].join("."),
        4 => format!("{a}.{}", pool_label(c)),
        5 => format!("{}.{}.{a}", pool_label(c), pool_label(c)),
        6 => a.clone(),
        // something like a dot between
        _ => format!("{}{}{a}", pool_label(c), c.pick(&["-", "_", "。", "．", "1", "xn--", "a.", "-a", "é", "_."])),
    };
    b = match c.weighted(&[6, 4, 4, 4, 2, 2, 1]) {
        0 => b,
        1 => gen::case_mix(c, &b),
        2 => sig::name_to_ascii(&b, true).unwrap_or(b),
        3 => refm_unicode(&b),
        4 => b.to_uppercase(),
        5 => b.to_lowercase(),
        // one letter in the other case
        _ => {
            let n = c.idx(b.chars().count());
            b.chars()
                .enumerate()
                .map(|(i, x)| {
                    if i != n {
                        x.to_string()
                    } else if x.is_uppercase() {
                        x.to_lowercase().to_string()
                    } else {
                        x.to_uppercase().to_string()
                    }
                })
                .collect()
        }
    };
    c.id(format!("{a} {b}"));
    c.note(|| format!("{a:?} and {b:?}"));
    let (Ok(x), Ok(y)) = (DomainName::new(a.as_str()), DomainName::new(b.as_str())) else {
        c.class("not domain names");
        return Ok(());
    };
    c.nontrivial = true;
    let (wa, wb) = (sig::name_to_ascii(&a, true).unwrap(), sig::name_to_ascii(&b, true).unwrap());
    let eq = refm::eq_nocase(&a, &b);
    ensure_eq!(x == y, eq, "equality of {a:?} and {b:?}");
    ensure_eq!(y == x, eq, "equality of {b:?} and {a:?}");
    ensure!(!eq || hash_of(&x) == hash_of(&y), "equal names {a:?} and {b:?} hash differently");
    let (sx, sy) = (Selector::new(a.as_str()).unwrap(), Selector::new(b.as_str()).unwrap());
    ensure_eq!(sx == sy, eq, "equality of selectors {a:?} and {b:?}");
    ensure!(!eq || hash_of(&sx) == hash_of(&sy), "equal selectors {a:?} and {b:?} hash differently");
    for (p, q, wp, wq) in [(&x, &y, &wa, &wb), (&y, &x, &wb, &wa)] {
        let want = sig::eq_or_below(wp, wq);
        c.class(if want { "equal or below" } else { "not below" });
        ensure_eq!(p.eq_or_subdomain_of(q), want, "whether {p:?} is equal to or a subdomain of {q:?}");
    }
    Ok(())
}

fn refm_unicode(s: &str) -> String {
    crate::engine::ref_guard(|| idna::domain_to_unicode(s).0).unwrap_or_else(|| s.to_owned())
}

fn check_id(c: &mut Ctx, s: &str) -> Res {
    let want = sig::identity(s);
    let got = Identity::new(s);
    ensure!(
        got.is_ok() == want.is_some(),
        "identity {s:?}: accepted: {}, expected: {}",
        got.is_ok(),
        want.is_some()
    );
    let (Ok(g), Some((l, d))) = (got, want) else {
        c.class("refused");
        return Ok(());
    };
    c.class("accepted");
    ensure_eq!(g.local_part.as_deref(), l.as_deref(), "local part of {s:?}");
    ensure_eq!(g.domain.as_ref(), d.as_str(), "domain of {s:?}");
    ensure_eq!(g.to_string(), s, "identity written out");
    let back = Identity::new(&g.to_string()).unwrap();
    ensure!(back == g && hash_of(&back) == hash_of(&g), "identity {s:?} does not survive conversion");
    // local parts are compared literally, domains ignoring ASCII case
    let up = match &l {
        Some(l) => format!("{l}@{}", d.to_ascii_uppercase()),
        None => format!("@{}", d.to_ascii_uppercase()),
    };
    let u = Identity::new(&up).unwrap();
    ensure!(u == g && hash_of(&u) == hash_of(&g), "identities {s:?} and {up:?} differ");
    if let Some(l) = &l {
        let lu = l.to_ascii_uppercase();
        if let Ok(x) = Identity::new(&format!("{lu}@{d}")) {
            ensure!((x == g) == (lu == *l), "equality of {s:?} with its uppercase local part");
        }
    }
    if l.is_none() {
        ensure!(Identity::from_domain(DomainName::new(d.as_str()).unwrap()) == g, "from_domain of {d:?}");
    }
    Ok(())
}

fn c17_local_chars(c: &mut Ctx) -> Res {
    let i = c.below(160) as u32;
    let ch = if i < 128 { char::from_u32(i).unwrap() } else { ['\u{80}', '\u{85}', '\u{a0}', 'é', 'ſ', '\u{2028}', '\u{ff20}', '😀'][i as usize % 8] };
    c.id(ch.to_string());
    c.nontrivial = true;
    c.note(|| format!("character {ch:?}"));
    for s in [
        format!("{ch}@a.b"), format!("a{ch}@a.b"), format!("{ch}a@a.b"), format!("a{ch}b@a.b"),
        format!("\"{ch}\"@a.b"), format!("\"\\{ch}\"@a.b"), format!("\"a{ch}b\"@a.b"), format!("a.{ch}@a.b"),
        format!("\"a\"{ch}@a.b"), format!("\"a\\\\{ch}\"@a.b"), format!("{ch}@{ch}.b"),
    ] {
        check_id(c, &s)?;
        c.extra_evals += 1;
    }
    if i < 70 {
        // length limit, in octets
        let n = i as usize;
        for s in [
            format!("{}@a.b", "x".repeat(n)),
            format!("\"{}\"@a.b", "x".repeat(n)),
            format!("{}@a.b", "é".repeat(n / 2)),
            format!("x{}@a.b", "é".repeat(n / 2)),
            format!("\"{}\"@a.b", "\\\"".repeat(n / 2)),
        ] {
            check_id(c, &s)?;
        }
    }
    Ok(())
}

fn c17_ids(c: &mut Ctx) -> Res {
    let mut s = text::id_text(c);
    if c.chance(1, 5) {
        s = text::mutate_raw(c, s);
    }
    c.id(&s);
    c.nontrivial = s.bytes().any(|b| !b.is_ascii_alphanumeric() && b != b'.' && b != b'@');
    c.note(|| format!("{s:?}"));
    check_id(c, &s)
}
