//! C30: private keys are not disclosed.

use super::*;
use crate::{
    engine::{facet, show, Ctx, Res, Tape},
    ensure,
    env,
    gen::{self, Req},
    keys::{self, Key},
    refm::{canon, Hdrs},
};
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    error::Error,
    process::{Command, Stdio},
    sync::OnceLock,
};
use viadkim::{
    crypto::{self, SigningKey},
    signer::Signer,
};

pub static C30: Prop = Prop {
    id: "C30",
    rule: "Private keys of all sizes, loaded or failing to load from (damaged) key files; signing requests of every kind, \
           accepted or not, signed or failing to; all that comes of it in text or octets, in ordinary, debugging and \
           alternate form, and all trace logging, is collected, in a process of its own also what is written to the \
           standard streams. Non-trivial: a private key was loaded or used. Oracle: no eight octets in a row of a secret \
           component of the key are found in it, raw, in hexadecimal, decimal or Base64.",
    facets: &[
        facet("keys", 6_000, 150_000, c30_keys),
        facet("signing", 6_000, 150_000, c30_signing),
        facet("streams", 120, 2_000, c30_streams),
    ],
    pre: true,
};

/// Octets in a row that count as disclosure.
const ROW: usize = 8;
/// Characters of Base64 and digits of a decimal number in a row.
const BASE64: usize = 12;
const DIGITS: usize = 24;

/// All pieces of the secrets of a key, in the forms in which they may turn up.
struct Secrets {
    raw: HashSet<[u8; ROW]>,
    hex: HashSet<[u8; 2 * ROW]>,
    base64: HashSet<[u8; BASE64]>,
    decimal: HashSet<[u8; DIGITS]>,
    /// Digits of a number kept in 64 bits, and successive ones of 32 bits.
    limbs: HashSet<u64>,
    half_limbs: HashSet<(u32, u32)>,
}

fn windows<const N: usize>(set: &mut HashSet<[u8; N]>, s: &[u8]) {
    set.extend(s.windows(N).map(|w| <[u8; N]>::try_from(w).unwrap()));
}

impl Secrets {
    fn of(k: &Key) -> &'static Self {
        static ALL: OnceLock<HashMap<&'static str, Secrets>> = OnceLock::new();
        &ALL.get_or_init(|| keys::all().iter().chain(keys::tiny()).map(|k| (k.name, Self::new(k))).collect())[k.name]
    }

    fn new(k: &Key) -> Self {
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut s = Self {
            raw: HashSet::new(),
            hex: HashSet::new(),
            base64: HashSet::new(),
            decimal: HashSet::new(),
            limbs: HashSet::new(),
            half_limbs: HashSet::new(),
        };
        if let Some(k) = &k.rsa {
            use rsa::traits::PrivateKeyParts;
            let (p, q) = (&k.primes()[0], &k.primes()[1]);
            let one = rsa::BigUint::from(1u32);
            let inv = |a: &rsa::BigUint, m: &rsa::BigUint| a.modpow(&(m - 2u32), m);
            let all = [
                k.d().clone(),
                p.clone(),
                q.clone(),
                k.d() % (p - &one),
                k.d() % (q - &one),
                inv(q, p),
            ];
            for n in all {
                parts.push(n.to_bytes_be());
                windows(&mut s.decimal, n.to_string().as_bytes());
                let le = n.to_bytes_le();
                let halves: Vec<u32> = le.chunks_exact(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
                s.half_limbs.extend(halves.windows(2).flat_map(|w| [(w[0], w[1]), (w[1], w[0])]));
                parts.push(halves.iter().flat_map(|x| x.to_be_bytes()).collect());
                s.limbs.extend(le.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
            }
        }
        if let Some(k) = &k.ed {
            parts.push(k.to_bytes().to_vec());
            parts.push(k.to_scalar_bytes().to_vec());
            parts.push(k.to_scalar().to_bytes().to_vec());
            parts.push(<sha2::Sha512 as sha2::Digest>::digest(k.to_bytes()).to_vec());
        }
        for mut p in parts {
            for _ in 0..2 {
                windows(&mut s.raw, &p);
                let hex: String = p.iter().map(|b| format!("{b:02x}")).collect();
                windows(&mut s.hex, hex.as_bytes());
                for shift in 0..3 {
                    let b = viadkim::encode_base64([vec![0; shift], p.clone()].concat());
                    let b = b.trim_end_matches('=');
                    // the first four characters and the last depend on what surrounds them
                    windows(&mut s.base64, &b.as_bytes()[4..b.len() - 1]);
                }
                p.reverse();
            }
        }
        s
    }

    fn has<const N: usize>(set: &HashSet<[u8; N]>, s: &[u8]) -> Option<String> {
        s.windows(N).find(|w| set.contains(*w)).map(show)
    }

    /// Looks for a secret in what was given out.
    fn find(&self, out: &[u8]) -> Option<String> {
        let lower = out.to_ascii_lowercase();
        let dense: Vec<u8> = out.iter().copied().filter(|b| !b.is_ascii_whitespace()).collect();
        // also as the items of a list: [1f, 2a], 1f:2a, 0x1f, 0x2a
        let hex: Vec<u8> = lower.iter().copied().filter(|b| b.is_ascii_hexdigit()).collect();
        let prefixed: Vec<u8> = {
            let t = String::from_utf8_lossy(&lower).replace("0x", "");
            t.bytes().filter(|b| b.is_ascii_hexdigit()).collect()
        };
        // lists of decimal numbers
        let mut list: Vec<u8> = vec![];
        let mut limb = None;
        let mut half = None;
        for n in out.split(|b| !b.is_ascii_digit()).filter(|n| !n.is_empty() && n.len() <= 20) {
            let n: u128 = std::str::from_utf8(n).unwrap().parse().unwrap();
            match u8::try_from(n) {
                Ok(b) => list.push(b),
                // something in between
                Err(_) => list.clear(),
            }
            if list.len() >= ROW && self.raw.contains(&list[list.len() - ROW..]) {
                return Some(format!("{:?}", &list[list.len() - ROW..]));
            }
            let this = u32::try_from(n).ok();
            if let (Some(a), Some(b)) = (half, this) {
                if self.half_limbs.contains(&(a, b)) {
                    return Some(format!("{a}, {b}"));
                }
            }
            half = this;
            limb = limb.or_else(|| u64::try_from(n).ok().filter(|n| self.limbs.contains(n)));
        }
        limb.map(|n| n.to_string())
            .or_else(|| Self::has(&self.raw, out))
            .or_else(|| Self::has(&self.hex, &hex))
            .or_else(|| Self::has(&self.hex, &prefixed))
            .or_else(|| Self::has(&self.base64, out))
            .or_else(|| Self::has(&self.base64, &dense))
            .or_else(|| Self::has(&self.decimal, out))
    }
}

thread_local! {
    static LOG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keeps all that is logged.
struct Log;

impl tracing::field::Visit for Log {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let s = format!("{}={v:?} {v:#?}\n", f.name());
        LOG.with(|l| l.borrow_mut().push_str(&s));
    }
}

impl tracing::Subscriber for Log {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Log);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Log);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Log);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// Everything that was given out, with what it is.
#[derive(Default)]
struct Given(Vec<(&'static str, Vec<u8>)>);

impl Given {
    fn octets(&mut self, what: &'static str, b: impl AsRef<[u8]>) {
        self.0.push((what, b.as_ref().to_vec()));
    }

    fn debug(&mut self, what: &'static str, x: &impl std::fmt::Debug) {
        self.octets(what, format!("{x:?}"));
        self.octets(what, format!("{x:#?}"));
        self.octets(what, format!("{x:02x?}"));
    }

    fn error(&mut self, what: &'static str, e: &(dyn Error + 'static)) {
        let mut e = Some(e);
        while let Some(x) = e {
            self.octets(what, x.to_string());
            self.debug(what, &x);
            e = x.source();
        }
    }

    /// Runs this with logging.
    fn logged<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        LOG.with(|l| l.borrow_mut().clear());
        let r = tracing::subscriber::with_default(Log, || f(self));
        let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        self.octets("the trace log", log);
        r
    }

    fn check(&self, keys: &[&Key]) -> Res {
        for k in keys {
            for (what, out) in &self.0 {
                if let Some(x) = Secrets::of(k).find(out) {
                    return crate::engine::fail(format!(
                        "{what} discloses a part of the private key {}: {x:?} in {:.2000}",
                        k.name,
                        show(out)
                    ));
                }
            }
        }
        Ok(())
    }
}

fn load(c: &mut Ctx, g: &mut Given) -> &'static Key {
    let k = if c.chance(1, 8) { &keys::tiny()[c.idx(4)] } else { gen::any_key(c) };
    let mut pem = k.pem.to_owned();
    for _ in 0..c.weighted(&[1, 2, 2]) {
        let n = pem.len().max(1);
        match c.below(9) {
            0 => pem = pem.replace("PRIVATE KEY", c.pick(&["RSA PRIVATE KEY", "PUBLIC KEY", "OPENSSH PRIVATE KEY", "EC PRIVATE KEY", ""])),
            1 => pem = pem.replace('\n', c.pick(&["\r\n", "", "\n\n", " \n"])),
            2 => pem.truncate(c.idx(n)),
            3 => pem.insert_str(c.idx(n), c.pick(&["A", "=", "\n", "\0", "ä", "-----END PRIVATE KEY-----"])),
            4 | 5 => {
                // one character of the data
                let at = c.range(28.min(n - 1), n - 1);
                if pem.is_char_boundary(at) && pem.is_char_boundary(at + 1) && pem.len() > at {
                    pem.replace_range(at..at + 1, c.pick(&["A", "B", "/", "z", "0"]));
                }
            }
            6 => pem = pem.lines().filter(|_| !c.chance(1, 8)).map(|l| format!("{l}\n")).collect(),
            7 => pem = format!("{}{pem}", c.pick(&["\n", "key:\n", "\u{feff}"])),
            _ => pem = pem.replace("MI", "MH"),
        }
    }
    c.id(&pem);
    c.note(|| format!("{pem:?}"));
    match SigningKey::from_pkcs8_pem(&pem) {
        Ok(k) => {
            c.class("loaded");
            c.nontrivial = true;
            g.debug("a private key in debugging form", &k);
            g.octets("the key type", k.key_type().to_string());
        }
        Err(e) => {
            c.class("refused");
            g.error("the error for a key file", &e);
        }
    }
    k
}

fn c30_keys(c: &mut Ctx) -> Res {
    let mut g = Given::default();
    let k = g.logged(|g| {
        let k = load(c, g);
        // the key, and a signature by itself
        g.debug("a private key in debugging form", &k.signing);
        let hash = c.u64().to_le_bytes().repeat(4);
        match &k.signing {
            SigningKey::Rsa(x) => match crypto::sign_rsa(viadkim::crypto::HashAlgorithm::Sha256, x, &hash) {
                Ok(s) => g.octets("a signature", s),
                Err(e) => g.error("the error for a signature", e.as_ref()),
            },
            SigningKey::Ed25519(x) => g.octets("a signature", crypto::sign_ed25519(x, &hash)),
        }
        k
    });
    c.nontrivial = true;
    g.check(&[k])
}

fn requests(c: &mut Ctx) -> (Hdrs, Vec<u8>, Vec<Req>) {
    c.large = c.chance(1, 20);
    let h = gen::hdrs(c, 5);
    let body = gen::body(c);
    let lens = [canon::body(false, &body).len() as u64, canon::body(true, &body).len() as u64];
    let n = c.weighted(&[0, 6, 3, 1]);
    let rs = (0..n)
        .map(|_| {
            let mut r = gen::req(c, &h, |relaxed| lens[usize::from(relaxed)]);
            match c.below(12) {
                0 => {
                    let k = gen::key(c);
                    r.alg = gen::alg_for(c, k);
                }
                1 => r.key = gen::any_key(c),
                2 if r.key.is_rsa() => r.key = &keys::tiny()[c.idx(4)],
                _ => {}
            }
            r
        })
        .collect();
    (h, body, rs)
}

fn sign(c: &mut Ctx, g: &mut Given) -> Vec<&'static Key> {
    let (h, body, rs) = requests(c);
    c.id(format!("{h:?}{body:?}{rs:?}"));
    c.note(|| format!("{h:?} {:?} {rs:?}", show(&body)));
    c.nontrivial = !rs.is_empty();
    g.logged(|g| {
        let built: Vec<_> = rs.iter().map(|r| r.build()).collect();
        for b in &built {
            g.debug("a signing request in debugging form", b);
        }
        match Signer::prepare_signing(env::headers(&h), built) {
            Ok(mut s) => {
                let _ = s.process_body_chunk(&body);
                for r in env::block_on(s.sign()) {
                    g.debug("a signing result in debugging form", &r);
                    match r {
                        Ok(o) => {
                            c.class("signed");
                            g.octets("the header field", o.format_header().to_string());
                            g.octets("the header name", &o.header_name);
                            g.octets("the header value", &o.header_value);
                            g.octets("the signature", &o.signature.signature_data);
                            g.octets("the body hash", &o.signature.body_hash);
                        }
                        Err(e) => {
                            c.class("not signed");
                            g.error("the error for a signing request", &e);
                        }
                    }
                }
            }
            Err(e) => {
                c.class("refused");
                g.error("the error for a signing request", &e);
            }
        }
    });
    let mut keys: Vec<&Key> = rs.iter().map(|r| r.key).collect();
    keys.dedup_by_key(|k| k.name);
    keys
}

fn c30_signing(c: &mut Ctx) -> Res {
    let mut g = Given::default();
    let keys = sign(c, &mut g);
    g.check(&keys)
}

/// What a process of its own does, for this seed: its streams must stay empty.
pub fn child(seed: u64) {
    let mut c = Ctx::new(Tape::seeded(seed), false);
    let mut g = Given::default();
    // no logging: a subscriber is what turns that on
    for _ in 0..20 {
        load(&mut c, &mut g);
        sign(&mut c, &mut g);
        let s = crate::scene::any(&mut c, 3);
        drop(env::verify(&s.mock(), &s.hdrs, &s.body, &env::config(&s.cfg)));
    }
}

fn c30_streams(c: &mut Ctx) -> Res {
    let seed = c.u64();
    c.id(seed.to_le_bytes());
    c.nontrivial = true;
    c.note(|| format!("process with seed {seed}"));
    let run = || -> std::io::Result<std::process::Output> {
        Command::new(std::env::current_exe()?)
            .args(["leaks", &seed.to_string()])
            .stdin(Stdio::null())
            .output()
    };
    // a process that cannot be started says nothing about the library
    let Ok(out) = run() else { return Ok(()) };
    if !out.status.success() {
        // panics are the subject of another property
        c.class("ended early");
        return Ok(());
    }
    c.extra_evals += 60;
    ensure!(out.stdout.is_empty(), "written to standard output: {:.1000}", show(&out.stdout));
    ensure!(out.stderr.is_empty(), "written to standard error: {:.1000}", show(&out.stderr));
    Ok(())
}
