//! Whole verification scenes: a message with signatures made by the reference
//! implementation, key records in DNS, a configuration, and tampering.

use crate::{
    engine::{show, Ctx},
    env::{Mock, Plan},
    gen::{self, PRE},
    keys::Key,
    refm::{
        self, b64_encode, canon, sig, tags,
        verify::{Dns, RConfig},
        Hdrs,
    },
    text::{self, Forge},
};
use std::{collections::HashMap, io::ErrorKind};

#[derive(Clone)]
pub struct Scene {
    pub hdrs: Hdrs,
    pub body: Vec<u8>,
    pub cfg: RConfig,
    pub plans: HashMap<String, Plan>,
}

impl Scene {
    pub fn note(&self, c: &mut Ctx) {
        c.id(format!("{:?}{:?}{:?}", self.hdrs, self.body, self.cfg));
        c.note(|| {
            let hs: Vec<String> = self
                .hdrs
                .iter()
                .map(|(n, v)| format!("{n}:{}", String::from_utf8_lossy(v).escape_debug()))
                .collect();
            let mut p: Vec<String> = self.plans.iter().map(|(n, p)| format!("{n} => {}", show_plan(p))).collect();
            p.sort();
            format!("header {hs:#?} body {:?} dns {p:#?} config {:?}", show(&self.body), self.cfg)
        });
    }

    pub fn mock(&self) -> Mock {
        Mock::new(self.plans.clone(), None)
    }
}

pub fn show_plan(p: &Plan) -> String {
    let a = match &p.answer {
        Dns::Records(r) => format!(
            "{:?}",
            r.iter()
                .map(|x| match x {
                    Ok(b) => String::from_utf8_lossy(b).into_owned(),
                    Err(e) => format!("<{e:?}>"),
                })
                .collect::<Vec<_>>()
        ),
        a => format!("{a:?}"),
    };
    format!("{a} after {:?} ms", p.delay)
}

pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionRefused,
    ErrorKind::UnexpectedEof,
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::Unsupported,
];

/// How the reference sees the plans.
pub fn dns_of<'a>(plans: &'a HashMap<String, Plan>, timeout_ms: u64) -> impl FnMut(&str) -> Dns + 'a {
    let m: HashMap<String, &Plan> = plans.iter().map(|(n, p)| (n.to_ascii_lowercase(), p)).collect();
    move |n: &str| match m.get(&n.to_ascii_lowercase()) {
        None => Dns::Error(ErrorKind::NotFound),
        Some(p) if p.delay.map_or(true, |d| d > timeout_ms) => Dns::TooSlow,
        Some(p) => p.answer.clone(),
    }
}

// ---------------------------------------------------------------- configuration

pub fn config(c: &mut Ctx, h: &Hdrs) -> RConfig {
    let mut k = RConfig { now: 1_700_000_000, ..Default::default() };
    let name = |c: &mut Ctx| {
        if c.bool() {
            let i = c.idx(h.len());
            gen::case_mix(c, &h[i].0)
        } else {
            gen::field_name(c)
        }
    };
    // most scenes have few objections, so that what comes later is reached
    let n = match c.weighted(&[4, 4, 2]) {
        0 => 0,
        1 => c.range(1, 2),
        _ => c.range(3, 8),
    };
    for _ in 0..n {
        match c.below(9) {
            0 => k.max_signatures = c.pick_copy(&[1, 2, 3, 0, 100, usize::MAX, 10]),
            1 => {
                let n = c.range(1, 2);
                k.required = (0..n).map(|_| name(c)).collect();
            }
            2 => {
                k.forbidden_unsigned = if c.bool() {
                    vec![]
                } else {
                    let n = c.range(1, 3);
                    (0..n).map(|_| name(c)).collect()
                }
            }
            3 => {
                k.min_key_bits = c.pick_copy(&[
                    0, 512, 513, 768, 769, 1016, 1017, 1020, 1021, 1023, 1025, 1026, 1536, 1537, 2048, 2049, usize::MAX,
                ])
            }
            4 => k.allow_sha1 = true,
            5 => k.forbid_unsigned_content = true,
            6 => (k.allow_expired, k.allow_future) = c.pick_copy(&[(true, true), (true, false), (false, true)]),
            7 => k.tolerance = c.pick_copy(&[0, 1, 5, 86_400, 1 << 40, u64::MAX, u64::MAX - 1_700_000_000]),
            _ => k.now = c.pick_copy(&[0, 1, 300, 1 << 32, 1 << 40]),
        }
    }
    k
}

/// A time value near where the configuration draws its lines.
pub fn time(c: &mut Ctx, k: &RConfig) -> u64 {
    let t = match c.weighted(&[4, 4, 1, 1]) {
        0 => k.now as u128 + k.tolerance as u128,
        1 => (k.now as u128).saturating_sub(k.tolerance as u128),
        2 => k.now as u128,
        _ => c.u64() as u128,
    };
    let t = t.saturating_sub(3) + c.below(7) as u128;
    t.min(u64::MAX as u128) as u64
}

// ---------------------------------------------------------------- signatures

/// A signature that the configuration has no objections to, mostly.
pub fn forge(c: &mut Ctx, h: &Hdrs, body: &[u8], k: &RConfig) -> Forge {
    let mut f = text::forge(c, h, body);
    if c.chance(3, 4) {
        // sign what must be signed
        let count = |v: &[String], n: &str| v.iter().filter(|x| refm::eq_nocase(x, n)).count();
        let names: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
        let must = k.required.iter().map(|n| (n, 1));
        let must = must.chain(k.forbidden_unsigned.iter().map(|n| (n, count(&names, n))));
        for (n, m) in must {
            while count(&f.h, n) < m && !n.contains(';') && !refm::eq_nocase(n, "DKIM-Signature") {
                f.h.push(n.clone());
            }
        }
    }
    if c.chance(1, 6) {
        // not allowed by the build, or by the configuration
        f.key = gen::any_key(c);
        f.alg = if !f.key.is_rsa() {
            sig::Alg::Ed25519
        } else if PRE && c.bool() {
            sig::Alg::RsaSha1
        } else {
            sig::Alg::RsaSha256
        };
    }
    if c.chance(1, 8) {
        f.t = Some(time(c, k));
    }
    if c.chance(1, 8) {
        f.x = Some(time(c, k));
    }
    if c.chance(1, 8) {
        f.ext.push(("q".into(), c.pick(&["dns/txt", "DNS/txt", "x:dns/txt", "x", ""]).into()));
    }
    if c.chance(1, 8) {
        f.ext.push(("z".into(), c.pick(&["From:x|to:=20y", "a:", "x", "From:=ff"]).into()));
    }
    if c.chance(1, 3) {
        f.d = "example.com".into();
        f.s = c.pick(&["sel", "Sel", "s2"]).into();
        f.i = None;
    }
    f
}

/// Breaks or changes the text of a signature header in some way.
pub fn damage(c: &mut Ctx, v: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(v).into_owned();
    let r = match c.weighted(&[5, 2, 2, 1, 1]) {
        0 => match tags::parse(&s) {
            Ok(mut t) => {
                text::edit_tags(c, &mut t, &text::SIG_TAGS, text::sig_value);
                text::render(c, &t, 1, "")
            }
            Err(_) => s,
        },
        1 => text::mutate_raw(c, s),
        2 => text::sig_text(c),
        3 => {
            // change a bit of the signature value or body hash
            let mut b = s.into_bytes();
            if !b.is_empty() {
                let i = c.idx(b.len());
                b[i] = c.pick_copy(b"AQgw/+=0 ;:");
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        _ => {
            let mut b = s.into_bytes();
            b.extend_from_slice(c.pick(&[b"\xff".as_slice(), b"; x=\xc3", b"\xe4;", b"; \xc3\xa4=1"]));
            return if refm::valid_field_body(&b) { b } else { v.to_vec() };
        }
    };
    if refm::valid_field_body(r.as_bytes()) { r.into_bytes() } else { v.to_vec() }
}

/// The text of a key record for this key.
pub fn record(c: &mut Ctx, key: &Key) -> String {
    if c.chance(1, 2) {
        let p = if key.is_rsa() { &key.spki } else { &key.raw };
        return format!("v=DKIM1; k={}; p={}", key.k(), b64_encode(p));
    }
    let alt = c.bool();
    let t = text::valid_rec_tags(c, key, alt);
    let style = c.below(3);
    let end = c.pick(&["", ";"]);
    text::render(c, &t, style, end)
}

pub fn bad_record(c: &mut Ctx) -> Result<Vec<u8>, ErrorKind> {
    match c.weighted(&[4, 4, 2, 1, 1]) {
        0 => {
            let k = gen::key(c);
            let mut t = text::valid_rec_tags(c, k, false);
            text::edit_tags(c, &mut t, &text::REC_TAGS, text::rec_value);
            Ok(text::render(c, &t, 1, "").into_bytes())
        }
        1 => Ok(text::rec_text(c).into_bytes()),
        2 => {
            let k = gen::key(c);
            Ok(record(c, k).into_bytes())
        }
        3 => Ok(c.pick(&[b"\xff".as_slice(), b"", b"v=spf1 -all", b"v=DKIM1; p=\xff", b"p=", b"p"]).to_vec()),
        _ => Err(c.pick_copy(&KINDS)),
    }
}

pub fn plans(c: &mut Ctx, forges: &[Forge], trouble: u64) -> HashMap<String, Plan> {
    let mut m: HashMap<String, Plan> = HashMap::new();
    let mut names: Vec<String> = vec![];
    for f in forges {
        let n = f.record_name().to_ascii_lowercase();
        if !names.contains(&n) {
            names.push(n);
        }
    }
    for n in names {
        let mut recs: Vec<Result<Vec<u8>, ErrorKind>> = vec![];
        let mut seen: Vec<&str> = vec![];
        for f in forges {
            if f.record_name().eq_ignore_ascii_case(&n) && !seen.contains(&f.key.name) {
                seen.push(f.key.name);
                recs.push(Ok(record(c, f.key).into_bytes()));
            }
        }
        let mut delay = Some(0);
        let mut answer = None;
        if c.chance(trouble, 10) {
            match c.weighted(&[6, 2, 1, 1, 2]) {
                0 => {
                    let k = c.range(1, 3);
                    for _ in 0..k {
                        let at = c.idx(recs.len() + 1);
                        let r = bad_record(c);
                        recs.insert(at, r);
                    }
                    if c.bool() {
                        text::shuffle(c, &mut recs);
                    }
                }
                1 => answer = Some(Dns::Error(c.pick_copy(&KINDS))),
                2 => recs.clear(),
                3 => delay = None,
                _ => recs = vec![bad_record(c)],
            }
        }
        if delay.is_some() && c.chance(1, 4) {
            delay = Some(c.below(9_000));
        }
        m.insert(n, Plan { delay, answer: answer.unwrap_or(Dns::Records(recs)) });
    }
    m
}

/// Inserts signature headers without changing their order.
pub fn insert(c: &mut Ctx, h: &mut Hdrs, sigs: Vec<(String, Vec<u8>)>) {
    let mut at = 0;
    for s in sigs {
        if c.chance(1, 3) {
            at = at + c.idx(h.len() + 1 - at);
        }
        h.insert(at, s);
        at += 1;
    }
}

/// A scene with everything in it.
pub fn any(c: &mut Ctx, max_sigs: usize) -> Scene {
    let mut hdrs = gen::hdrs(c, 7);
    let mut body = gen::body(c);
    let cfg = config(c, &hdrs);
    let n = match c.weighted(&[1, 10, 6, 3]) {
        0 => 0,
        1 => 1,
        2 => 2.min(max_sigs),
        _ => c.range(1, max_sigs),
    };
    let n = if c.large && max_sigs > 8 { c.range(1, max_sigs) } else { n };
    let forges: Vec<Forge> = (0..n).map(|_| forge(c, &hdrs, &body, &cfg)).collect();
    let mut plans = plans(c, &forges, 4);
    let mut sigs = vec![];
    for f in &forges {
        let bh = c.chance(1, 10).then(|| {
            if c.bool() { f.alg.hash(b"something else") } else { text::wrong_hash(c, &f.body_hash(&body)) }
        });
        let mut s = f.make(c, &hdrs, &body, bh);
        if c.chance(1, 5) {
            s.1 = damage(c, &s.1);
            // records for where it points to now
            if let (sig::Parsed::Ok(r), true) = (sig::parse(&String::from_utf8_lossy(&s.1), PRE), c.bool()) {
                let n = refm::verify::query_name(&r).to_ascii_lowercase();
                let t = record(c, f.key).into_bytes();
                plans.entry(n).or_insert(Plan { delay: Some(0), answer: Dns::Records(vec![Ok(t)]) });
            }
        }
        if c.chance(1, 20) {
            sigs.push(s.clone());
        }
        sigs.push(s);
    }
    insert(c, &mut hdrs, sigs);
    if c.chance(1, 4) {
        tamper(c, &mut hdrs, &mut body);
    }
    Scene { hdrs, body, cfg, plans }
}

// ---------------------------------------------------------------- tampering

fn edit_bytes(c: &mut Ctx, v: &mut Vec<u8>) {
    const INS: [&[u8]; 10] = [b" ", b"x", b"\r\n ", b"\t", b"\r\n\t", b";", b"  ", b"\xff", b"0", b":"];
    match c.weighted(&[4, 3, 2, 1]) {
        0 => {
            let at = c.idx(v.len() + 1);
            let x = INS[c.idx(INS.len())];
            v.splice(at..at, x.iter().copied());
        }
        1 if !v.is_empty() => {
            let at = c.idx(v.len());
            v.remove(at);
        }
        2 if !v.is_empty() => {
            let at = c.idx(v.len());
            v[at] ^= c.pick_copy(&[0x20, 1, 2, 4, 8]);
        }
        _ => {
            if c.bool() {
                v.extend_from_slice(c.pick(&[b" ".as_slice(), b"\t ", b"\r\n ", b"!", b"\xff; x=1", b"; x"]));
            } else if v.len() > 1 {
                let at = c.idx(v.len() - 1);
                v.swap(at, at + 1);
            }
        }
    }
}

/// Changes a message; the result is a valid message still.
pub fn tamper(c: &mut Ctx, h: &mut Hdrs, body: &mut Vec<u8>) {
    match c.weighted(&[6, 3, 2, 2, 3, 2, 6]) {
        0 => {
            // the value of a field, or a signature header
            let i = c.idx(h.len());
            let mut v = h[i].1.clone();
            match c.weighted(&[10, 1, 1, 1]) {
                0 => edit_bytes(c, &mut v),
                // whitespace at either end
                1 => v.extend(c.pick(&[" ", "\t", "  ", "\t "]).bytes()),
                2 => {
                    let w = c.pick(&[" ", "\t", "\r\n "]);
                    v.splice(0..0, w.bytes());
                }
                _ => {
                    let n = v.iter().rev().take_while(|b| matches!(b, b' ' | b'\t')).count();
                    v.truncate(v.len() - n);
                }
            }
            if refm::valid_field_body(&v) {
                h[i].1 = v;
            }
        }
        1 => {
            // add a field, by a name that occurs or another
            let name = match c.weighted(&[3, 3, 1]) {
                0 => {
                    let i = c.idx(h.len());
                    h[i].0.clone()
                }
                1 => gen::case_mix(c, "From"),
                _ => gen::field_name(c),
            };
            let v = gen::field_body(c);
            let at = match c.weighted(&[2, 2, 1]) {
                0 => 0,
                1 => h.len(),
                _ => c.idx(h.len() + 1),
            };
            h.insert(at, (name, v));
        }
        2 => {
            if h.len() > 1 {
                let i = c.idx(h.len());
                h.remove(i);
            }
        }
        3 => {
            let (i, j) = (c.idx(h.len()), c.idx(h.len()));
            let x = h.remove(i);
            h.insert(j, x);
        }
        4 => {
            // case of a name; another name
            let i = c.idx(h.len());
            let n = h[i].0.clone();
            h[i].0 = match c.weighted(&[3, 1]) {
                0 => n.chars().map(|x| if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect(),
                _ => format!("{n}x"),
            };
        }
        5 => {
            // copy a field
            let (i, j) = (c.idx(h.len()), c.idx(h.len() + 1));
            let x = h[i].clone();
            h.insert(j, x);
        }
        _ => tamper_body(c, body),
    }
}

pub fn tamper_body(c: &mut Ctx, body: &mut Vec<u8>) {
    const END: [&[u8]; 10] =
        [b"\r\n", b" ", b"x", b"\r\n\r\n", b" \r\n", b"\t\r\n \r\n", b"\n", b"\r", b"x\r\n", b"<html>"];
    const MID: [&[u8]; 9] = [b" ", b"\t", b"\r\n", b"x", b" \t ", b"\n", b"\r", b"\0", b"\r\n\r\n"];
    match c.weighted(&[4, 4, 2, 2]) {
        0 => body.extend_from_slice(END[c.idx(END.len())]),
        1 => {
            let at = c.idx(body.len() + 1);
            let x = MID[c.idx(MID.len())];
            body.splice(at..at, x.iter().copied());
        }
        2 => {
            if !body.is_empty() {
                let at = c.idx(body.len());
                body.remove(at);
            }
        }
        _ => {
            if !body.is_empty() {
                let at = c.idx(body.len());
                body[at] ^= 1 << c.below(8);
            }
        }
    }
}

/// The canonical body bytes covered by a signature.
pub fn covered(rs: &sig::RSig, body: &[u8]) -> Option<Vec<u8>> {
    let cb = canon::body(rs.relaxed_body, body);
    match rs.l {
        None => Some(cb),
        Some(l) if l > cb.len() as u64 => None,
        Some(l) => Some(cb[..l as usize].to_vec()),
    }
}
