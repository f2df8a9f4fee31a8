//! Generators of email and DKIM data.

use crate::{
    engine::{fnv, Ctx},
    keys::{self, Key},
    refm::{self, sig::Alg, Hdrs},
};
use std::{cmp::Ordering, time::Duration};
use viadkim::{
    header::FieldName,
    signature::{CanonicalizationAlgorithm, DomainName, Identity, Selector, SigningAlgorithm},
    signer::{BodyLength, HeaderSelection, OutputFormat, SignRequest, Timestamp},
};

pub const PRE: bool = cfg!(feature = "pre");

// ---------------------------------------------------------------- header

pub const COMMON: [&str; 16] = [
    "From", "To", "Subject", "Date", "Cc", "Reply-To", "Received", "Message-ID", "List-Id",
    "Resent-From", "Comments", "X-Foo", "References", "List-Archive", "Keywords", "Return-Path",
];

pub fn case_mix(c: &mut Ctx, s: &str) -> String {
    match c.weighted(&[6, 2, 1, 2]) {
        0 => s.to_owned(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => {
            let r = c.u64();
            s.chars()
                .enumerate()
                .map(|(i, ch)| {
                    if r >> (i % 64) & 1 == 1 {
                        if ch.is_ascii_uppercase() { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() }
                    } else {
                        ch
                    }
                })
                .collect()
        }
    }
}

/// The characters in upper case, where that is nothing but another case of them.
pub fn upper(s: &str) -> String {
    s.chars()
        .map(|x| {
            let mut u = x.to_uppercase();
            match (u.next(), u.next()) {
                (Some(y), None) if y.to_lowercase().eq([x]) => y,
                _ => x,
            }
        })
        .collect()
}

/// A valid header field name.
pub fn field_name(c: &mut Ctx) -> String {
    match c.weighted(&[70, 15, 15]) {
        0 => {
            let n = c.pick(&COMMON);
            case_mix(c, n)
        }
        1 => c.pick(&["X-Bar", "x-foo", "X-Foo2", "X-Fo", "From2", "A", "b"]).to_owned(),
        _ => {
            let n = c.range(1, 7);
            const A: &[u8] = b"aZ|=;!~-\"09_.<@^`{?#$(),[]\\/+*'%&>}";
            (0..n).map(|_| A[c.idx(A.len())] as char).collect()
        }
    }
}

pub fn word(c: &mut Ctx) -> Vec<u8> {
    match c.weighted(&[40, 15, 20, 15, 10]) {
        0 => c
            .pick(&["a", "hello", "World", "x@example.com", "foo", "bar", "0", "<a@b>", "Re"])
            .as_bytes()
            .to_vec(),
        1 => c
            .pick(&[";", "=", ":", "|", "\\", "\"", "=3B", "=", "=2", "b=", ";b=", "~", "!", "%"])
            .as_bytes()
            .to_vec(),
        2 => c.pick(&["ä", "♥", "中文", "é", "😀", "ö=|;", "ß"]).as_bytes().to_vec(),
        3 => {
            let n = c.range(1, 4);
            (0..n).map(|_| 0x80 + c.below(0x80) as u8).collect()
        }
        _ => {
            let n = if c.chance(1, 30) { c.range(60, 1500) } else { c.range(1, 60) };
            if n > 60 {
                // cheaply
                let a = 33 + c.below(94) as usize;
                return (0..n).map(|i| 33 + ((a + i * 7) % 94) as u8).collect();
            }
            (0..n).map(|_| 33 + c.below(94) as u8).collect()
        }
    }
}

/// Now and then, things come in large numbers.
pub fn many(c: &mut Ctx) -> bool {
    c.chance(1, if c.large { 2 } else { 25 })
}

/// A large number, often next to one at which a counter or buffer may end.
pub fn threshold(c: &mut Ctx, max: usize) -> usize {
    const AT: [usize; 9] = [256, 512, 1_000, 1_024, 4_096, 8_192, 16_384, 32_768, 131_072];
    let at = match c.weighted(&[3, 4, 2]) {
        0 => AT[c.idx(AT.len())] + c.range(0, 6),
        1 => 65_536 + c.range(0, 6),
        _ => return c.range(1, max),
    };
    if at > max {
        return c.pick_copy(&[256, 512]).min(max) - c.range(0, 6).min(max - 1);
    }
    at - 3
}

fn large_body(c: &mut Ctx) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..c.range(1, 2) {
        let mut t = vec![];
        match c.weighted(&[2, 1, 2, 2]) {
            0 => t.extend(b"\r\n"),
            1 => t.extend(c.pick(&[" ", "\t", " \r\n"]).bytes()),
            2 => body_token(c, &mut t),
            _ => {
                for _ in 0..c.range(2, 30) {
                    body_token(c, &mut t);
                }
            }
        }
        let n = threshold(c, 140_000);
        let n = if c.bool() && n * t.len() <= 200_000 { n } else { n / t.len() };
        for _ in 0..c.range(0, 3) {
            body_token(c, &mut v);
        }
        v.extend(t.repeat(n));
        for _ in 0..c.range(0, 3) {
            body_token(c, &mut v);
        }
    }
    v
}

/// A long field value.
fn long_value(c: &mut Ctx) -> Vec<u8> {
    let n = threshold(c, 80_000);
    let mut t = vec![];
    match c.weighted(&[2, 1, 2]) {
        0 => t.extend(word(c)),
        1 => t.extend(wsps(c)),
        _ => {
            for _ in 0..c.range(1, 8) {
                t.extend(c.pick(&["", " ", "\t ", "\r\n ", "\r\n\t"]).bytes());
                t.extend(word(c));
            }
        }
    }
    if t.is_empty() {
        t.push(b'x');
    }
    let mut v = b" a".to_vec();
    v.extend(t.repeat(n / t.len()));
    v.push(b'b');
    v
}

fn large_hdrs(c: &mut Ctx) -> Hdrs {
    let mut h: Hdrs = if c.bool() {
        let n = threshold(c, 1_100);
        let few = c.bool();
        (0..n)
            .map(|i| {
                let name = if few { c.pick(&["Received", "received", "X-Foo", "To"]).to_owned() } else { format!("X{i}") };
                (name, format!(" {i}").into_bytes())
            })
            .collect()
    } else {
        (0..c.range(1, 4)).map(|_| (field_name(c), long_value(c))).collect()
    };
    for _ in 0..c.range(0, 3) {
        let at = c.idx(h.len() + 1);
        let x = (field_name(c), field_body(c));
        h.insert(at, x);
    }
    let at = c.idx(h.len() + 1);
    h.insert(at, (case_mix(c, "From"), b" me <me@example.com>".to_vec()));
    h
}

fn wsps(c: &mut Ctx) -> Vec<u8> {
    c.pick(&[" ", "  ", "\t", " \t", "\t\t ", "   "]).as_bytes().to_vec()
}

/// A valid (folded) field value.
pub fn field_body(c: &mut Ctx) -> Vec<u8> {
    let n = if c.chance(1, 100) { c.range(10, 120) } else { c.size(10) };
    let mut v = vec![];
    for _ in 0..n {
        match c.weighted(&[50, 35, 15]) {
            0 => v.extend(word(c)),
            1 => v.extend(wsps(c)),
            _ => {
                v.extend(b"\r\n");
                v.extend(wsps(c));
                v.extend(word(c));
            }
        }
    }
    v
}

/// A header with at least one From field.
pub fn hdrs(c: &mut Ctx, max: usize) -> Hdrs {
    if c.large && c.chance(2, 3) {
        return large_hdrs(c);
    }
    let mut h: Hdrs = if max > 2 && many(c) {
        // many fields, often few names
        let n = c.range(max, 90);
        let few = c.bool();
        (0..n)
            .map(|i| {
                let name = if few { c.pick(&["Received", "received", "X-Foo", "To", "From"]).to_owned() } else { field_name(c) };
                (name, if c.chance(1, 8) { field_body(c) } else { format!(" {i}").into_bytes() })
            })
            .collect()
    } else {
        let n = c.range(0, max);
        (0..n).map(|_| (field_name(c), field_body(c))).collect()
    };
    let extra_from = if c.chance(1, 6) { 2 } else { 1 };
    for _ in 0..extra_from {
        let at = c.idx(h.len() + 1);
        let name = case_mix(c, "From");
        let b = if c.bool() { field_body(c) } else { b" me <me@example.com>".to_vec() };
        h.insert(at, (name, b));
    }
    h
}

/// A reduced alphabet, for properties in which repetitions matter.
pub fn small_hdrs(c: &mut Ctx, max: usize) -> Hdrs {
    let n = c.range(1, max);
    (0..n)
        .map(|_| {
            let name = c.pick(&["a", "A", "b", "B", "From", "from", "ab", "c"]).to_owned();
            (name, field_body(c))
        })
        .collect()
}

// ---------------------------------------------------------------- body

pub fn body(c: &mut Ctx) -> Vec<u8> {
    if c.large && c.chance(2, 3) {
        return large_body(c);
    }
    let mut v = vec![];
    match c.weighted(&[80, 12, 8]) {
        0 => {
            let n = c.size(50);
            for _ in 0..n {
                body_token(c, &mut v);
            }
        }
        1 => {
            // plain text
            let n = c.range(1, 12);
            for _ in 0..n {
                let m = c.range(0, 8);
                for _ in 0..m {
                    v.extend(word(c));
                    v.push(b' ');
                }
                v.extend(b"\r\n");
            }
        }
        _ => {
            // long runs
            let n = c.range(1, 4);
            for _ in 0..n {
                let mut t = vec![];
                body_token(c, &mut t);
                let m = c.range(0, 1500);
                for _ in 0..m {
                    v.extend(&t);
                }
                body_token(c, &mut v);
            }
        }
    }
    v
}

pub fn body_token(c: &mut Ctx, v: &mut Vec<u8>) {
    const T: [&[u8]; 20] = [
        b"a", b"\r\n", b" ", b"\r\n\r\n", b"\t", b"\r", b"\n", b"word", b"  ", b" \r\n", b"\r\r\n", b".",
        b"\0", b"\xff", b"\t \r\n", b"\xc3\xa4", b" \t", b"\r ", b"hello world", b"\x0b",
    ];
    v.extend(T[c.weighted(&[
        6, 9, 6, 5, 4, 4, 3, 2, 2, 4, 2, 1, 1, 1, 2, 1, 2, 2, 1, 1,
    ])]);
}

/// Cuts into chunks, possibly empty ones.
pub fn chunks(c: &mut Ctx, b: &[u8]) -> Vec<Vec<u8>> {
    if c.large && c.bool() {
        let n = threshold(c, 70_000);
        return b.chunks(n).map(|x| x.to_vec()).collect();
    }
    match c.weighted(&[2, 2, 4, 2]) {
        0 => vec![b.to_vec()],
        1 => b.chunks(1).map(|x| x.to_vec()).collect(),
        2 => {
            let n = c.range(1, 6);
            let mut cuts: Vec<usize> = (0..n).map(|_| c.idx(b.len() + 1)).collect();
            cuts.sort();
            let mut out = vec![];
            let mut last = 0;
            for x in cuts {
                out.push(b[last..x].to_vec());
                last = x;
            }
            out.push(b[last..].to_vec());
            out
        }
        _ => {
            let n = c.range(1, 7);
            let mut out = vec![vec![]];
            out.extend(b.chunks(n).map(|x| x.to_vec()));
            out.push(vec![]);
            out
        }
    }
}

// ---------------------------------------------------------------- names

pub const DOMAINS: [&str; 14] = [
    "example.com", "example.org", "mail.example.com", "EXAMPLE.Com", "ex-ample.net",
    "bücher.example", "xn--bcher-kva.example", "例え.テスト", "a.b.c.d.example",
    "x_y.example.org", "sub.BÜCHER.example", "123.example", "EXAMPLE.中国", "com",
];

pub const SELECTORS: [&str; 10] = [
    "sel", "Sel2", "s1.s2", "2023", "_x", "grün", "xn--grn-hoa", "brisbane", "7", "例え",
];

pub fn domain(c: &mut Ctx) -> String {
    match c.weighted(&[7, 1]) {
        0 => c.pick(&DOMAINS).to_owned(),
        _ => made_name(c, true),
    }
}

pub fn selector(c: &mut Ctx) -> String {
    match c.weighted(&[7, 1]) {
        0 => c.pick(&SELECTORS).to_owned(),
        _ => made_name(c, false),
    }
}

/// A label of any form that may or may not be valid.
pub fn label(c: &mut Ctx) -> String {
    const CH: [&str; 30] = [
        "a", "b", "z", "A", "Q", "0", "7", "-", "_", "ü", "Ä", "é", "ß", "ς", "Σ", "я", "Я", "中", "文", "ا", "ב",
        "ｆ", "Ｆ", "ı", "İ", "k", "\u{212a}", "ſ", "ǆ", "œ",
    ];
    let n = 1 + c.size(7);
    let mut s: String = (0..n).map(|_| CH[c.idx(CH.len())]).collect();
    if c.chance(1, 40) {
        s = s.repeat(c.range(2, 12));
    }
    s
}

/// A valid name of random labels.
pub fn made_name(c: &mut Ctx, dom: bool) -> String {
    let n = c.range(1, 4);
    let v: Vec<String> = (0..n).map(|_| label(c)).collect();
    let s = v.join(c.pick(&[".", ".", ".", "。"]));
    match crate::refm::sig::name_to_ascii(&s, dom) {
        Some(_) => s,
        None if dom => "example.com".into(),
        None => "sel".into(),
    }
}

pub fn local_part(c: &mut Ctx) -> Option<String> {
    match c.weighted(&[3, 4, 4]) {
        0 => None,
        1 => Some(c.pick(&["joe", "j.o+e", "j=o", "a|b", "me-2", "!#$%&'*"]).to_owned()),
        _ => Some(
            c.pick(&["jöe", "\"a;b @\\\" c\"", "\"\"", "\"a..b\"", "例.え", "\"x:y\"", "\"é\"", "\"a  b\"", "\"@\""])
                .to_owned(),
        ),
    }
}

// ---------------------------------------------------------------- sign requests

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BL {
    None,
    Content,
    Exact(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TS {
    None,
    Now,
    Exact(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order {
    Default,
    Alpha,
    Reverse,
    Shuffle(u64),
}

impl Order {
    pub fn cmp(self, a: &str, b: &str) -> Ordering {
        match self {
            Order::Default => Ordering::Equal,
            Order::Alpha => a.cmp(b),
            Order::Reverse => b.cmp(a),
            Order::Shuffle(s) => {
                let k = |x: &str| fnv(format!("{s}/{x}").as_bytes());
                k(a).cmp(&k(b)).then(a.cmp(b))
            }
        }
    }
}

#[derive(Clone)]
pub struct Req {
    pub key: &'static Key,
    pub alg: Alg,
    pub hc: bool,
    pub bc: bool,
    pub domain: String,
    pub selector: String,
    pub headers: Option<Vec<String>>,
    pub identity: Option<(Option<String>, String)>,
    pub length: BL,
    pub time: TS,
    pub valid: Option<Duration>,
    pub copy: bool,
    pub ext: Vec<(String, String)>,
    pub width: usize,
    pub indent: String,
    pub order: Order,
    pub header_name: String,
    pub ascii: bool,
}

impl std::fmt::Debug for Req {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "Req[{} {} c={}/{} d={} s={} h={:?} i={:?} l={:?} t={:?} x={:?} z={} ext={:?} width={} indent={:?} order={:?} name={} ascii={}]",
            self.key.name,
            self.alg.name(),
            if self.hc { "relaxed" } else { "simple" },
            if self.bc { "relaxed" } else { "simple" },
            self.domain,
            self.selector,
            self.headers,
            self.identity,
            self.length,
            self.time,
            self.valid,
            self.copy,
            self.ext,
            self.width,
            self.indent,
            self.order,
            self.header_name,
            self.ascii
        )
    }
}

pub fn v_alg(a: Alg) -> SigningAlgorithm {
    match a {
        Alg::RsaSha256 => SigningAlgorithm::RsaSha256,
        Alg::Ed25519 => SigningAlgorithm::Ed25519Sha256,
        #[cfg(feature = "pre")]
        Alg::RsaSha1 => SigningAlgorithm::RsaSha1,
        #[cfg(not(feature = "pre"))]
        Alg::RsaSha1 => unreachable!(),
    }
}

pub fn r_alg(a: SigningAlgorithm) -> Alg {
    match a {
        SigningAlgorithm::RsaSha256 => Alg::RsaSha256,
        SigningAlgorithm::Ed25519Sha256 => Alg::Ed25519,
        #[cfg(feature = "pre")]
        SigningAlgorithm::RsaSha1 => Alg::RsaSha1,
    }
}

pub fn v_canon(relaxed: bool) -> CanonicalizationAlgorithm {
    if relaxed { CanonicalizationAlgorithm::Relaxed } else { CanonicalizationAlgorithm::Simple }
}

impl Req {
    pub fn build(&self) -> SignRequest<&'static viadkim::SigningKey> {
        let mut r = SignRequest::new(
            DomainName::new(self.domain.as_str()).expect("generated domain"),
            Selector::new(self.selector.as_str()).expect("generated selector"),
            v_alg(self.alg),
            &self.key.signing,
        );
        r.canonicalization = (v_canon(self.hc), v_canon(self.bc)).into();
        r.header_selection = match &self.headers {
            None => HeaderSelection::Auto,
            Some(h) => HeaderSelection::Manual(
                h.iter().map(|n| FieldName::new(n.as_str()).expect("generated name")).collect(),
            ),
        };
        r.identity = self.identity.as_ref().map(|(l, d)| Identity {
            local_part: l.as_ref().map(|l| l.as_str().into()),
            domain: DomainName::new(d.as_str()).expect("generated identity domain"),
        });
        r.body_length = match self.length {
            BL::None => BodyLength::NoLimit,
            BL::Content => BodyLength::MessageContent,
            BL::Exact(n) => BodyLength::Exact(n),
        };
        r.timestamp = match self.time {
            TS::None => Timestamp::None,
            TS::Now => Timestamp::Now,
            TS::Exact(t) => Timestamp::Exact(t),
        };
        r.valid_duration = self.valid;
        r.copy_headers = self.copy;
        r.ext_tags = self.ext.clone();
        let order = self.order;
        r.format = OutputFormat {
            header_name: self.header_name.clone(),
            line_width: self.width.try_into().unwrap(),
            indentation: self.indent.clone(),
            tag_order: if order == Order::Default {
                None
            } else {
                Some(Box::new(move |a, b| order.cmp(a, b)))
            },
            ascii_only: self.ascii,
        };
        r
    }

    pub fn record(&self) -> (String, Vec<u8>) {
        let d = refm::sig::name_to_ascii(&self.domain, true).unwrap();
        let s = refm::sig::name_to_ascii(&self.selector, false).unwrap();
        let p = if self.key.is_rsa() { &self.key.spki } else { &self.key.raw };
        (
            format!("{s}._domainkey.{d}."),
            format!("v=DKIM1; k={}; p={}", self.key.k(), refm::b64_encode(p)).into_bytes(),
        )
    }
}

pub fn key(c: &mut Ctx) -> &'static Key {
    // Ed25519 is cheap, big RSA keys are not
    let w: &[u64] = if PRE { &[80, 40, 20, 16, 8, 8, 4, 4, 4, 4, 4, 8, 12, 1, 1] } else { &[90, 40, 20, 16, 8, 8, 4, 4, 1, 1] };
    keys::acceptable()[c.weighted(w)]
}

/// Any key, acceptable or not.
pub fn any_key(c: &mut Ctx) -> &'static Key {
    let all = keys::all();
    let n = all.len() - keys::LARGE;
    let i = if c.chance(1, 50) { n + c.idx(keys::LARGE) } else { c.idx(n) };
    &all[i]
}

pub fn alg_for(c: &mut Ctx, k: &Key) -> Alg {
    if !k.is_rsa() {
        Alg::Ed25519
    } else if PRE && c.chance(1, 3) {
        Alg::RsaSha1
    } else {
        Alg::RsaSha256
    }
}

pub const EXT_NAMES: [&str; 8] = ["r", "y2", "X_y", "foo", "B", "V", "long_tag_name_0123456789", "bb"];
pub const EXT_VALUES: [&str; 10] = [
    "", "y", "a:b", "x y", "x=y=", "a\r\n\tb", "é中", "~!<>:", "y   \t z",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
];

/// A request that is accepted for a header `h` (which has a From field).
pub fn req(c: &mut Ctx, h: &Hdrs, canon_len: impl Fn(bool) -> u64) -> Req {
    let key = key(c);
    let alg = alg_for(c, key);
    let (hc, bc) = (c.bool(), c.bool());
    let domain = domain(c);
    let headers = if c.chance(1, 3) {
        None
    } else {
        Some(signed_names(c, h))
    };
    let identity = if c.chance(2, 5) {
        let l = local_part(c);
        let d = match c.weighted(&[3, 2, 1, 1]) {
            0 => domain.clone(),
            1 => format!("sub.{domain}"),
            2 => upper(&domain),
            _ => format!("Ä.y.{domain}"),
        };
        Some((l, d))
    } else {
        None
    };
    let length = match c.weighted(&[5, 2, 3]) {
        0 => BL::None,
        1 => BL::Content,
        _ => {
            let n = canon_len(bc);
            BL::Exact(match c.weighted(&[3, 3, 1, 1]) {
                0 => n,
                1 => c.below(n + 1),
                2 => n + 1 + c.below(20),
                _ => c.u64(),
            })
        }
    };
    let time = match c.weighted(&[3, 2, 6, 2]) {
        0 => TS::None,
        1 => TS::Now,
        2 => TS::Exact(1_600_000_000 + c.below(200_000_000)),
        _ => TS::Exact(match c.below(4) {
            0 => 0,
            1 => c.below(10),
            2 => u64::MAX - c.below(6),
            _ => c.u64(),
        }),
    };
    let valid = match c.weighted(&[4, 4, 2]) {
        0 => None,
        1 => Some(Duration::from_secs(1 + c.below(1_000_000))),
        _ => Some(match c.below(4) {
            0 => Duration::new(1, 0),
            1 => Duration::new(1, 999_999_999),
            2 => Duration::from_secs(u64::MAX - c.below(4)),
            _ => Duration::new(1 + c.below(5), c.below(1_000_000_000) as u32),
        }),
    };
    let copy = c.chance(1, 3);
    let mut ext: Vec<(String, String)> = vec![];
    if c.chance(1, 3) {
        let n = if many(c) { c.range(4, 40) } else { c.range(1, 3) };
        for k in 0..n {
            let name = if n > 3 { format!("{}{k}", c.pick(&["a", "T", "x_", "zz"])) } else { c.pick(&EXT_NAMES).to_owned() };
            if !ext.iter().any(|(n, _)| *n == name) {
                ext.push((name, c.pick(&EXT_VALUES).to_owned()));
            }
        }
    }
    let (width, indent, order, header_name, ascii) = format(c);
    Req {
        key,
        alg,
        hc,
        bc,
        domain,
        selector: selector(c),
        headers,
        identity,
        length,
        time,
        valid,
        copy,
        ext,
        width,
        indent,
        order,
        header_name,
        ascii,
    }
}

pub fn format(c: &mut Ctx) -> (usize, String, Order, String, bool) {
    let width = match c.weighted(&[4, 4, 2, 1]) {
        0 => 78,
        1 => c.range(1, 100),
        2 => c.range(1, 20),
        _ => c.pick_copy(&[998, 5000, usize::MAX, 1, 2]),
    };
    let indent = c.pick(&["\t", " ", "  ", " \t ", "        "]).to_owned();
    let order = match c.weighted(&[5, 1, 1, 3]) {
        0 => Order::Default,
        1 => Order::Alpha,
        2 => Order::Reverse,
        _ => Order::Shuffle(c.below(1 << 20)),
    };
    (width, indent, order, case_mix(c, "DKIM-Signature"), c.chance(1, 3))
}

/// Names to sign: from the header, absent ones, repeated ones; including From
/// and excluding unusable ones.
pub fn signed_names(c: &mut Ctx, h: &Hdrs) -> Vec<String> {
    let n = if many(c) { c.range(9, 100) } else { c.range(0, 8) };
    let n = if c.large && c.bool() { threshold(c, 600) } else { n };
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let s = match c.weighted(&[6, 2, 1]) {
            0 => {
                let i = c.idx(h.len());
                case_mix(c, &h[i].0)
            }
            1 => field_name(c),
            _ => case_mix(c, "From"),
        };
        // naming the signature header itself is outside of what is judged
        if !s.contains(';') && !refm::eq_nocase(&s, "DKIM-Signature") {
            v.push(s);
        }
    }
    if !v.iter().any(|s| refm::eq_nocase(s, "From")) || c.chance(1, 8) {
        let at = c.idx(v.len() + 1);
        let f = case_mix(c, "From");
        v.insert(at, f);
    }
    v
}

/// A request in which most things are plain.
pub fn plain_req(c: &mut Ctx, h: &Hdrs) -> Req {
    let mut r = req(c, h, |_| 0);
    r.length = BL::None;
    r.time = TS::None;
    r.valid = None;
    r.ext = vec![];
    r.width = 78;
    r.indent = "\t".into();
    r.order = Order::Default;
    r.ascii = false;
    r.copy = false;
    r
}
