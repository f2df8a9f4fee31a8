//! Key lookups (C15) and independence of signatures (C16).

use super::{large, verify, Prop};
use crate::{
    engine::{facet, table, vtable, Ctx, Res},
    ensure, ensure_eq,
    env::{self, block_on, Mock, Plan},
    gen::{self, PRE},
    keys,
    refm::{
        eq_nocase, sig,
        verify::{self as rv, Dns, RConfig},
        Hdrs,
    },
    scene::{self, Scene},
    text::{self, Forge},
};
use std::{
    collections::HashMap,
    future::Future,
    io::{self, ErrorKind},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};
use viadkim::{
    header::HeaderFields,
    verifier::{LookupTxt, VerificationError as VE, VerificationResult, VerificationStatus as VS, Verifier},
};

// ---------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15",
    rule: "Scenes of up to 12 signatures by the reference implementation over few or many selector and domain \
        pairs (letter case and IDNA spellings varied, some signatures malformed or refused by policy before any \
        lookup), every name with its own answer, error and virtual delay around the configured timeout; run \
        under a virtual clock with a DNS stand-in that records each query. Also lookups that wait for one \
        another, and lookups that are woken many times; verification abandoned at some time. Non-trivial: at least one query is expected, and for \
        the timing facets, at least two.",
    facets: &[
        facet("queries and time", 3_000, 150_000, c15_scenes),
        facet("same name", 2_000, 100_000, c15_dedup),
        facet("rendezvous", 500, 20_000, c15_rendezvous),
        facet("wakeups", 500, 20_000, c15_wakeups),
        facet("cancellation", 1_500, 60_000, c15_cancelled),
        vtable("error kinds", 12 * 4 * 3, 5, 100, c15_kinds),
        vtable("timeouts", 7 * 9, 10, 200, c15_timeouts),
    ],
    pre: true,
};

/// Pairs to be looked up; `None` if the reference cannot tell.
fn expected(h: &Hdrs, cfg: &RConfig) -> Option<Vec<String>> {
    let mut pairs: Vec<(String, String)> = vec![];
    let sigs = h.iter().filter(|h| eq_nocase(&h.0, "DKIM-Signature")).take(cfg.max_signatures);
    for (_, v) in sigs {
        let Ok(v) = std::str::from_utf8(v) else { continue };
        match sig::parse(v, PRE) {
            sig::Parsed::Ok(r) => {
                if rv::header_policy(&r, h, cfg).is_empty() {
                    let p = (r.s_ascii.to_ascii_lowercase(), r.d_ascii.to_ascii_lowercase());
                    if !pairs.contains(&p) {
                        pairs.push(p);
                    }
                }
            }
            sig::Parsed::Err(_) => {}
            sig::Parsed::Unspecified => return None,
        }
    }
    let mut v: Vec<String> = pairs.into_iter().map(|(s, d)| format!("{s}._domainkey.{d}.")).collect();
    v.sort();
    Some(v)
}

fn check_log(m: &Mock, want: &[String]) -> Res {
    let log = m.log.lock().unwrap();
    let mut got: Vec<String> = log.iter().map(|q| q.name.to_ascii_lowercase()).collect();
    got.sort();
    ensure_eq!(got, want, "names looked up");
    for q in log.iter() {
        ensure!(q.name.is_ascii() && q.name.ends_with('.'), "query for {:?}", q.name);
    }
    Ok(())
}

/// Latest time at which all lookups are known, in milliseconds.
fn deadline(m: &Mock, names: &[String], timeout: u64) -> u64 {
    names.iter().map(|n| m.plan(n).delay.map_or(timeout, |d| d.min(timeout))).max().unwrap_or(0)
}

fn check_time(took: u64, want: u64) -> Res {
    ensure!(took <= want + 3, "verification took {took} ms of virtual time, expected at most {want} ms");
    Ok(())
}

fn run_timed(m: &Mock, s: &Scene, timeout: Duration) -> env::VRun {
    let mut cfg = env::config(&s.cfg);
    cfg.lookup_timeout = timeout;
    env::verify_full(m, &s.hdrs, &[s.body.clone()], &cfg, false)
}

/// Delay on the near or far side of the timeout, but never equal.
fn delay(c: &mut Ctx, timeout: u64) -> Option<u64> {
    match c.weighted(&[3, 3, 2, 1, 1]) {
        0 => Some(0).filter(|_| timeout > 0),
        1 => Some(c.below(timeout.clamp(1, 20_000))).filter(|&d| d < timeout),
        2 => Some(timeout.min(1 << 40) + 5 + c.below(20_000)),
        3 => None,
        _ => Some(timeout.min(1 << 40).saturating_sub(5)).filter(|&d| d < timeout),
    }
}

fn timeout(c: &mut Ctx) -> u64 {
    c.pick_copy(&[10_000, 1_000, 50, 1, 5_000, 60_000, 3_600_000])
}

fn c15_scenes(c: &mut Ctx) -> Res {
    let mut s = scene::any(c, 12);
    let t = timeout(c);
    let mut names: Vec<String> = s.plans.keys().cloned().collect();
    names.sort();
    for n in names {
        s.plans.get_mut(&n).unwrap().delay = delay(c, t);
    }
    s.note(c);
    c.note(|| format!("lookup timeout {t} ms"));
    c.id(t.to_le_bytes());
    let m = s.mock();
    let r = run_timed(&m, &s, Duration::from_millis(t));
    let Some(want) = expected(&s.hdrs, &s.cfg) else { return Ok(()) };
    c.class(match want.len() {
        0 => "no query",
        1 => "one query",
        _ => "several queries",
    });
    check_log(&m, &want)?;
    check_time(r.took, deadline(&m, &want, t))?;
    verify::judge_within(c, &s, &r.results.unwrap_or_default(), t)?;
    c.nontrivial = !want.is_empty();
    Ok(())
}

/// Many signatures, few names, spelled differently.
fn c15_dedup(c: &mut Ctx) -> Res {
    const DOMS: [&[&str]; 5] = [
        &["example.com", "EXAMPLE.com", "Example.Com", "ｅxample.com"],
        &["bücher.example", "xn--bcher-kva.example", "XN--BCHER-KVA.EXAMPLE", "BÜCHER.Example"],
        &["example.org", "eXAMPLE.ORG"],
        &["sub.example.com", "SUB.example.com"],
        &["c.example", "C.example"],
    ];
    const SELS: [&[&str]; 4] = [
        &["sel", "SEL", "Sel"],
        &["brösel", "xn--brsel-jua", "BRÖSEL"],
        &["a.b", "A.b"],
        &["s-2", "S-2"],
    ];
    let mut hdrs: Hdrs = vec![("From".into(), b" me".to_vec())];
    let body = b"hello\r\n".to_vec();
    let nd = c.range(1, DOMS.len());
    let ns = c.range(1, SELS.len());
    let n = c.range(2, 14);
    let cfg = RConfig { max_signatures: c.pick_copy(&[100, 3, 10, 14]), now: 1000, ..Default::default() };
    let mut plans: HashMap<String, Plan> = HashMap::new();
    let mut sigs = vec![];
    for _ in 0..n {
        let (d, s) = (c.idx(nd), c.idx(ns));
        let key = keys::get(if c.chance(1, 4) { "rsa1024" } else { "eda" });
        let mut f = Forge::simple(key, c.pick(DOMS[d]), c.pick(SELS[s]), &["From"]);
        f.style = c.below(2);
        let refused = c.chance(1, 5);
        if refused {
            f.x = Some(1);
        }
        let mut x = f.make(c, &hdrs, &body, None);
        if c.chance(1, 6) {
            x.1 = scene::damage(c, &x.1);
        }
        sigs.push(x);
        let name = f.record_name().to_ascii_lowercase();
        if !plans.contains_key(&name) {
            let a = match c.weighted(&[4, 1, 1]) {
                0 => {
                    let mut r = vec![];
                    for k in ["eda", "rsa1024"] {
                        r.push(Ok(scene::record(c, keys::get(k)).into_bytes()));
                    }
                    Dns::Records(r)
                }
                1 => Dns::Error(c.pick_copy(&scene::KINDS)),
                _ => Dns::Records(vec![]),
            };
            plans.insert(name, Plan { delay: Some(c.below(2_000)), answer: a });
        }
    }
    scene::insert(c, &mut hdrs, sigs);
    let s = Scene { hdrs, body, cfg, plans };
    s.note(c);
    let m = s.mock();
    let r = run_timed(&m, &s, Duration::from_millis(10_000));
    let Some(want) = expected(&s.hdrs, &s.cfg) else { return Ok(()) };
    check_log(&m, &want)?;
    check_time(r.took, deadline(&m, &want, 10_000))?;
    verify::judge(c, &s, &r.results.unwrap_or_default())?;
    c.nontrivial = !want.is_empty();
    Ok(())
}

/// Lookups complete only once a number of them have been started.
#[derive(Clone)]
struct Meet {
    n: usize,
    record: Vec<u8>,
    state: Arc<Mutex<(usize, Vec<Waker>)>>,
}

struct Meeting {
    m: Meet,
    here: bool,
}

impl Future for Meeting {
    type Output = io::Result<Vec<io::Result<Vec<u8>>>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        let st = self.m.state.clone();
        let mut st = st.lock().unwrap();
        if !self.here {
            self.here = true;
            st.0 += 1;
            if st.0 >= self.m.n {
                st.1.drain(..).for_each(Waker::wake);
            }
        }
        if st.0 >= self.m.n {
            return Poll::Ready(Ok(vec![Ok(self.m.record.clone())]));
        }
        st.1.push(cx.waker().clone());
        Poll::Pending
    }
}

impl LookupTxt for Meet {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Meeting;
    fn lookup_txt(&self, _: &str) -> Meeting {
        Meeting { m: self.clone(), here: false }
    }
}

/// A message with `n` signatures of one key, each of a selector of its own.
fn many(c: &mut Ctx, n: usize) -> (Hdrs, Vec<Forge>) {
    let from: Hdrs = vec![("From".into(), b" me".to_vec())];
    let mut h = from.clone();
    let mut fs = vec![];
    for i in 0..n {
        let d = c.pick(&["example.com", "example.org", "x.bücher.example"]);
        let f = Forge::simple(keys::get("eda"), d, &format!("s{i}"), &["From"]);
        let x = f.make(c, &from, b"x\r\n", None);
        h.insert(i, x);
        fs.push(f);
    }
    (h, fs)
}

fn successes(r: &[VerificationResult], n: usize) -> Res {
    ensure_eq!(r.len(), n, "number of results");
    for x in r {
        ensure!(x.status == VS::Success, "signature at {}: status {:?}, expected success", x.index, x.status);
    }
    Ok(())
}

fn run_any<T: LookupTxt + Clone + 'static>(r: &T, h: &Hdrs, n: usize, t: Duration) -> (Vec<VerificationResult>, u64) {
    let mut cfg = env::config(&RConfig { max_signatures: n, ..env::lax() });
    cfg.lookup_timeout = t;
    let h: HeaderFields = env::headers(h);
    block_on(async {
        let t0 = tokio::time::Instant::now();
        let Some(mut v) = Verifier::verify_header(r, &h, &cfg).await else { return (vec![], 0) };
        let took = t0.elapsed().as_millis() as u64;
        let _ = v.process_body_chunk(b"x\r\n");
        (v.finish(), took)
    })
}

fn c15_rendezvous(c: &mut Ctx) -> Res {
    let n = c.range(2, 24);
    let (h, fs) = many(c, n);
    c.id(format!("{h:?}"));
    c.note(|| format!("{n} lookups that wait for one another"));
    c.nontrivial = true;
    let record = fs[0].record().1;
    let meet = Meet { n, record: record.clone(), state: Arc::default() };
    let (r, took) = run_any(&meet, &h, n, Duration::from_millis(1_000));
    successes(&r, n)?;
    check_time(took, 0)?;
    // one too few: everything times out, together
    let meet = Meet { n: n + 1, record, state: Arc::default() };
    let (r, took) = run_any(&meet, &h, n, Duration::from_millis(1_000));
    ensure_eq!(r.len(), n, "number of results");
    for x in &r {
        ensure_eq!(x.status, VS::Failure(VE::Timeout), "status of lookup without answer");
    }
    check_time(took, 1_000)
}

/// When verification ends, on account of a timeout or because it was abandoned,
/// its lookups end too.
fn c15_cancelled(c: &mut Ctx) -> Res {
    let mut s = scene::any(c, 8);
    let t = timeout(c).min(60_000);
    let mut names: Vec<String> = s.plans.keys().cloned().collect();
    names.sort();
    let mut slow = false;
    for n in names {
        let d = delay(c, t);
        slow |= d.map_or(true, |d| d > t);
        s.plans.get_mut(&n).unwrap().delay = d;
    }
    let quit = match c.below(4) {
        0 => None,
        1 => Some(0),
        2 => Some(c.below(t.max(1))),
        _ => Some(c.below(20)),
    };
    s.note(c);
    c.note(|| format!("lookup timeout {t} ms, abandoned after {quit:?} ms"));
    c.id(format!("{t}{quit:?}"));
    let m = s.mock();
    let mut cfg = env::config(&s.cfg);
    cfg.lookup_timeout = Duration::from_millis(t);
    let h = env::headers(&s.hdrs);
    let ended = block_on(async {
        let f = Verifier::verify_header(&m, &h, &cfg);
        let ended = match quit {
            None => {
                drop(f.await);
                true
            }
            Some(ms) => tokio::time::timeout(Duration::from_millis(ms), f).await.is_ok(),
        };
        tokio::time::sleep(Duration::from_millis(2)).await;
        ended
    });
    let started = m.log.lock().unwrap().len();
    c.nontrivial = started > 0 && (slow || !ended);
    c.class(if ended { "ended" } else { "abandoned" });
    ensure_eq!(Arc::strong_count(&m.log), 1, "copies of the resolver in use after verification, and the one given");
    block_on(async { tokio::time::sleep(Duration::from_secs(86_400)).await });
    ensure_eq!(m.log.lock().unwrap().len(), started, "lookups made after verification in addition to those before");
    Ok(())
}

/// Answers after having been polled and woken a number of times.
#[derive(Clone)]
struct Waking {
    turns: Arc<HashMap<String, (u64, bool)>>,
    record: Vec<u8>,
}

impl LookupTxt for Waking {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, name: &str) -> Self::Query<'_> {
        let (mut left, sleep) = self.turns.get(name).copied().unwrap_or((0, false));
        let record = self.record.clone();
        Box::pin(async move {
            while left > 0 {
                left -= 1;
                if sleep {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                } else {
                    let mut woken = false;
                    std::future::poll_fn(|cx| {
                        if std::mem::replace(&mut woken, true) {
                            return Poll::Ready(());
                        }
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    })
                    .await;
                }
            }
            Ok(vec![Ok(record)])
        })
    }
}

fn c15_wakeups(c: &mut Ctx) -> Res {
    let n = c.range(1, 8);
    let (h, fs) = many(c, n);
    let turns: HashMap<String, (u64, bool)> =
        fs.iter().map(|f| (f.record_name(), (c.below(60), c.bool()))).collect();
    c.id(format!("{h:?}"));
    c.note(|| {
        let mut t: Vec<_> = turns.iter().collect();
        t.sort();
        format!("lookups that answer after being woken: {t:?}")
    });
    c.nontrivial = n > 1;
    let most = turns.values().filter(|t| t.1).map(|t| t.0).max().unwrap_or(0);
    let w = Waking { turns: turns.into(), record: fs[0].record().1 };
    let (r, took) = run_any(&w, &h, n, Duration::from_secs(10));
    successes(&r, n)?;
    check_time(took, 2 * most)
}

/// One lookup failing among others that succeed, of each error kind.
fn c15_kinds(c: &mut Ctx) -> Res {
    let i = c.below(12 * 4 * 3) as usize;
    let (k, which, when) = (scene::KINDS[i % 12], i / 12 % 4, [0, 5, 700][i / 48]);
    let (h, fs) = many(c, 4);
    let mut plans = HashMap::new();
    for (j, f) in fs.iter().enumerate() {
        let answer = if j == which { Dns::Error(k) } else { Dns::Records(vec![Ok(f.record().1)]) };
        plans.insert(f.record_name(), Plan { delay: Some(if j == which { when } else { 10 * j as u64 }), answer });
    }
    c.note(|| format!("lookup {which} fails with {k:?} after {when} ms"));
    c.id(i.to_le_bytes());
    c.nontrivial = true;
    let (r, _) = run_any(&Mock::new(plans, None), &h, 4, Duration::from_secs(10));
    ensure_eq!(r.len(), 4, "number of results");
    let want = match k {
        ErrorKind::NotFound => VE::NoKeyFound,
        ErrorKind::InvalidInput => VE::InvalidKeyDomain,
        ErrorKind::TimedOut => VE::Timeout,
        _ => VE::KeyLookup,
    };
    for (j, x) in r.iter().enumerate() {
        let w = if j == which { VS::Failure(want.clone()) } else { VS::Success };
        ensure_eq!(x.status, w, "status of signature {j}");
        ensure_eq!(x.key_record.is_some(), j != which, "presence of key record");
    }
    Ok(())
}

fn c15_timeouts(c: &mut Ctx) -> Res {
    let i = c.below(63) as usize;
    let t = [
        Duration::ZERO,
        Duration::from_millis(1),
        Duration::from_millis(20),
        Duration::from_secs(9),
        Duration::from_secs(11),
        Duration::from_secs(1 << 30),
        Duration::MAX,
    ][i % 7];
    let d = [Some(0), Some(3), Some(25), Some(8_500), Some(9_500), Some(10_500), Some(11_500), Some(100_000), None][i / 7];
    let ms = t.as_millis();
    c.note(|| format!("timeout {t:?}, answer after {d:?} ms"));
    c.id(i.to_le_bytes());
    let answered = match d {
        // far future is as good as never for the other timeouts only
        None if ms > 1 << 20 => return Ok(()),
        None => false,
        Some(d) if d as u128 == ms => return Ok(()),
        Some(d) => (d as u128) < ms,
    };
    c.nontrivial = true;
    let (h, fs) = many(c, 2);
    let plans = fs
        .iter()
        .enumerate()
        .map(|(j, f)| {
            let delay = if j == 0 { d } else { Some(0) };
            (f.record_name(), Plan { delay, answer: Dns::Records(vec![Ok(f.record().1)]) })
        })
        .collect();
    let (r, took) = run_any(&Mock::new(plans, None), &h, 2, t);
    ensure_eq!(r.len(), 2, "number of results");
    let w = if answered { VS::Success } else { VS::Failure(VE::Timeout) };
    ensure_eq!(r[0].status, w, "status for answer after {d:?} ms with timeout {t:?}");
    if ms > 0 {
        ensure_eq!(r[1].status, VS::Success, "status for answer at once with timeout {t:?}");
    }
    check_time(took, if answered { d.unwrap() } else { ms as u64 })
}

// ---------------------------------------------------------------- C16

pub static C16: Prop = Prop {
    id: "C16",
    rule: "Scenes of signatures by the reference implementation, valid, broken, duplicated and sharing keys, with \
        troubled lookups; relations between runs of the library on related messages: with other signatures \
        removed, added, duplicated or permuted, the result of each remaining signature must be the same, and \
        results must be in header order with the right indexes. No model of the outcome is used. Non-trivial: \
        at least two signatures are evaluated.",
    facets: &[
        facet("alone", 2_500, 120_000, c16_alone),
        facet("permuted", 2_000, 100_000, c16_permuted),
        facet("added", 2_000, 100_000, c16_added),
        facet("many", 60, 2_000, c16_many),
        facet("large", 100, 4_000, |c| large(c, c16_alone)),
        facet("large and many", 60, 2_000, |c| large(c, c16_many)),
        facet("none", 1_500, 50_000, c16_none),
    ],
    pre: true,
};

fn is_sig(h: &(String, Vec<u8>)) -> bool {
    eq_nocase(&h.0, "DKIM-Signature")
}

fn at(h: &Hdrs) -> Vec<usize> {
    (0..h.len()).filter(|&i| is_sig(&h[i])).collect()
}

/// Whether other signature headers can be inputs of this one.
fn refers(v: &[u8]) -> bool {
    let v: Vec<u8> = v.iter().filter(|b| !b" \t\r\n".contains(b)).map(|b| b.to_ascii_lowercase()).collect();
    v.windows(14).any(|w| w == b"dkim-signature")
}

/// Policies must not name the signature header.
fn clean(k: &mut RConfig) {
    k.required.retain(|n| !eq_nocase(n, "DKIM-Signature"));
    k.forbidden_unsigned.retain(|n| !eq_nocase(n, "DKIM-Signature"));
}

fn show(r: &VerificationResult) -> String {
    format!("{:?} signature {:?} record {:?}", r.status, r.signature, r.key_record)
}

fn go(h: &Hdrs, s: &Scene) -> Option<Vec<VerificationResult>> {
    env::verify_full(&s.mock(), h, &[s.body.clone()], &env::config(&s.cfg), false).results
}

fn all(h: &Hdrs, s: &Scene) -> Result<Vec<VerificationResult>, crate::engine::Failure> {
    let r = go(h, s).unwrap_or_default();
    let want: Vec<usize> = at(h).into_iter().take(s.cfg.max_signatures).collect();
    ensure_eq!(r.iter().map(|r| r.index).collect::<Vec<_>>(), want, "indexes of results");
    Ok(r)
}

fn classes(c: &mut Ctx, r: &[VerificationResult]) {
    let ok = r.iter().filter(|r| r.status == VS::Success).count();
    c.class_if(ok == r.len() && ok > 1, "all succeed");
    c.class_if(ok > 0 && ok < r.len(), "some succeed");
    c.class_if(ok == 0 && !r.is_empty(), "none succeeds");
    c.nontrivial = r.len() > 1;
}

fn scene16(c: &mut Ctx, n: usize) -> Scene {
    let mut s = scene::any(c, n);
    clean(&mut s.cfg);
    s
}

fn c16_alone(c: &mut Ctx) -> Res {
    let s = scene16(c, 6);
    s.note(c);
    let r = all(&s.hdrs, &s)?;
    classes(c, &r);
    for x in &r {
        if refers(&s.hdrs[x.index].1) {
            continue;
        }
        let h: Hdrs =
            s.hdrs.iter().enumerate().filter(|(i, h)| *i == x.index || !is_sig(h)).map(|x| x.1.clone()).collect();
        let a = all(&h, &s)?;
        c.extra_evals += 1;
        ensure_eq!(a.len(), 1, "number of results for one signature");
        ensure_eq!(show(&a[0]), show(x), "result of the signature at {} when it is the only one", x.index);
    }
    Ok(())
}

fn c16_permuted(c: &mut Ctx) -> Res {
    let mut s = scene16(c, 6);
    s.cfg.max_signatures = 100;
    s.note(c);
    if at(&s.hdrs).iter().any(|&i| refers(&s.hdrs[i].1)) {
        return Ok(());
    }
    let r = all(&s.hdrs, &s)?;
    classes(c, &r);
    let slots = at(&s.hdrs);
    let mut perm: Vec<usize> = (0..slots.len()).collect();
    text::shuffle(c, &mut perm);
    let mut h = s.hdrs.clone();
    for (k, &p) in perm.iter().enumerate() {
        h[slots[k]] = s.hdrs[slots[p]].clone();
    }
    c.note(|| format!("order {perm:?}"));
    let q = all(&h, &s)?;
    for (k, &p) in perm.iter().enumerate() {
        ensure_eq!(show(&q[k]), show(&r[p]), "result of the signature at {}, moved to {}", slots[p], slots[k]);
    }
    Ok(())
}

fn c16_added(c: &mut Ctx) -> Res {
    let mut s = scene16(c, 4);
    s.cfg.max_signatures = 100;
    if at(&s.hdrs).iter().any(|&i| refers(&s.hdrs[i].1)) {
        return Ok(());
    }
    // added: of any sort, with lookups of names of their own or not
    let n = c.range(1, 4);
    let base: Hdrs = s.hdrs.iter().filter(|h| !is_sig(h)).cloned().collect();
    let mut add: Vec<(String, Vec<u8>)> = vec![];
    if base.is_empty() {
        return Ok(());
    }
    for _ in 0..n {
        let x = match c.weighted(&[3, 2, 2, 1]) {
            0 => {
                let f = scene::forge(c, &base, &s.body, &s.cfg);
                let name = f.record_name().to_ascii_lowercase();
                if !s.plans.contains_key(&name) {
                    let p = scene::plans(c, std::slice::from_ref(&f), 6);
                    s.plans.extend(p);
                }
                f.make(c, &base, &s.body, None)
            }
            1 => match at(&s.hdrs) {
                v if v.is_empty() => continue,
                v => s.hdrs[v[c.idx(v.len())]].clone(),
            },
            2 => match at(&s.hdrs) {
                v if v.is_empty() => continue,
                v => {
                    let (n, v) = s.hdrs[v[c.idx(v.len())]].clone();
                    (n, scene::damage(c, &v))
                }
            },
            _ => {
                let v = text::sig_text(c).into_bytes();
                if !crate::refm::valid_field_body(&v) {
                    continue;
                }
                ("DKIM-Signature".into(), v)
            }
        };
        add.push(x);
    }
    let mut marked: Vec<(Option<usize>, (String, Vec<u8>))> =
        s.hdrs.iter().cloned().enumerate().map(|(i, h)| (Some(i), h)).collect();
    for x in add {
        let p = c.idx(marked.len() + 1);
        marked.insert(p, (None, x));
    }
    s.note(c);
    let h: Hdrs = marked.iter().map(|m| m.1.clone()).collect();
    c.note(|| format!("with additions: {:?}", marked.iter().map(|m| m.0).collect::<Vec<_>>()));
    let before = all(&s.hdrs, &s)?;
    let after = all(&h, &s)?;
    classes(c, &after);
    for b in &before {
        let p = marked.iter().position(|m| m.0 == Some(b.index)).unwrap();
        let a = after.iter().find(|a| a.index == p);
        ensure!(a.is_some(), "no result for signature at {p}");
        ensure_eq!(show(a.unwrap()), show(b), "result of the signature at {} with others added", b.index);
    }
    Ok(())
}

/// Great numbers of signatures, duplicated and with bad ones between.
fn c16_many(c: &mut Ctx) -> Res {
    let mut base = scene16(c, 3);
    base.cfg.max_signatures = c.pick_copy(&[1_000, 10, 60]);
    let v = at(&base.hdrs);
    if v.is_empty() || v.iter().any(|&i| refers(&base.hdrs[i].1)) {
        return Ok(());
    }
    let (rest, sigs): (Hdrs, Hdrs) = base.hdrs.iter().cloned().partition(|h| !is_sig(h));
    let mut alone = vec![];
    for x in &sigs {
        let mut h = vec![x.clone()];
        h.extend(rest.iter().cloned());
        alone.push(show(&all(&h, &base)?[0]));
    }
    let n = if c.large { gen::threshold(c, 300) } else { c.range(10, 120) };
    let order: Vec<usize> = (0..n).map(|_| c.idx(sigs.len())).collect();
    base.note(c);
    c.note(|| format!("signatures {order:?} in front of the rest"));
    c.id(format!("{order:?}"));
    let mut h: Hdrs = order.iter().map(|&i| sigs[i].clone()).collect();
    h.extend(rest);
    let r = all(&h, &base)?;
    classes(c, &r);
    ensure_eq!(r.len(), n.min(base.cfg.max_signatures), "number of results");
    for (k, x) in r.iter().enumerate() {
        ensure_eq!(show(x), alone[order[k]], "result of signature {k} of {n}");
    }
    Ok(())
}

fn c16_none(c: &mut Ctx) -> Res {
    let mut h = gen::hdrs(c, 6);
    let n = c.below(3);
    for _ in 0..n {
        let at = c.idx(h.len() + 1);
        let name = c.pick(&["DKIM-Signatur", "DKIM-Signatures", "X-DKIM-Signature", "DomainKey-Signature", "DKIM_Signature", "ARC-Message-Signature"]);
        let v = text::sig_text(c).into_bytes();
        if crate::refm::valid_field_body(&v) {
            h.insert(at, (name.into(), v));
        }
    }
    h.retain(|x| !is_sig(x));
    if h.is_empty() {
        return Ok(());
    }
    let body = gen::body(c);
    let cfg = scene::config(c, &h);
    let s = Scene { hdrs: h, body, cfg, plans: HashMap::new() };
    s.note(c);
    c.nontrivial = true;
    let m = s.mock();
    let r = env::verify_full(&m, &s.hdrs, &[s.body.clone()], &env::config(&s.cfg), false);
    ensure!(r.results.is_none(), "verifier for a message without signatures: {:?}", r.results);
    ensure!(m.log.lock().unwrap().is_empty(), "DNS query for a message without signatures");
    Ok(())
}
