//! C28: sessions do not influence each other.

use super::{verify::judge, *};
use crate::{
    engine::{facet, show, Ctx, Res},
    ensure, ensure_eq,
    env::{self, Mock},
    gen::{self, Req, TS},
    refm::{canon, verify::Dns, Hdrs},
    scene::{self, Scene},
};
use std::{
    cell::Cell,
    future::{poll_fn, Future},
    pin::Pin,
    sync::Barrier,
    task::Poll,
};
use viadkim::{
    canonicalize::BodyCanonicalizer,
    message_hash::{BodyHasherBuilder, BodyHasherStance},
    signer::{RequestError, Signer, SigningError},
    verifier::{VerificationResult, VerificationStatus, Verifier},
};

pub static C28: Prop = Prop {
    id: "C28",
    rule: "Two to six sessions, each verifying a scene as in C03 or signing by random requests, many of them variations \
           of one another (same names with other records, other bodies, configurations, keys); run alone, then \
           interleaved in one task by a random schedule with some abandoned on the way, or in parallel threads, with and \
           without a subscriber to trace logging; copies of canonicalizers and builders made midway. Non-trivial: at \
           least two sessions end with a result. Oracle: each gives what it gives alone, and what the reference expects.",
    facets: &[
        facet("interleaved", 3_000, 100_000, c28_interleaved),
        facet("threads", 1_500, 40_000, c28_threads),
        facet("copies", 20_000, 800_000, c28_copies),
    ],
    pre: true,
};

#[derive(Clone)]
enum Session {
    Verify { s: Scene, chunks: Vec<Vec<u8>> },
    Sign { h: Hdrs, rs: Vec<Req>, body: Vec<u8>, chunks: Vec<Vec<u8>> },
}

type Made = Vec<Result<(String, String, DkimSignature), SigningError>>;

#[derive(Debug, PartialEq)]
enum Out {
    Verified(Option<Vec<VerificationResult>>),
    Signed(Result<Made, RequestError>),
}

thread_local! {
    static STEPPED: Cell<bool> = const { Cell::new(false) };
}

/// Gives way to other sessions.
async fn step() {
    let mut first = true;
    poll_fn(|_| {
        if std::mem::take(&mut first) {
            STEPPED.with(|s| s.set(true));
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

async fn run(s: &Session, mock: &Mock, obey: bool) -> Out {
    match s {
        Session::Verify { s, chunks } => {
            let h = env::headers(&s.hdrs);
            let cfg = env::config(&s.cfg);
            step().await;
            let v = Verifier::verify_header(mock, &h, &cfg).await;
            // neither is needed any more
            drop((h, cfg));
            step().await;
            let Some(mut v) = v else { return Out::Verified(None) };
            for ch in chunks {
                let st = v.process_body_chunk(ch);
                step().await;
                if obey && st == BodyHasherStance::Done {
                    break;
                }
            }
            Out::Verified(Some(v.finish()))
        }
        Session::Sign { h, rs, chunks, .. } => {
            let mut g = match Signer::prepare_signing(env::headers(h), rs.iter().map(|r| r.build())) {
                Ok(g) => g,
                Err(e) => return Out::Signed(Err(e)),
            };
            step().await;
            for ch in chunks {
                let st = g.process_body_chunk(ch);
                step().await;
                if obey && st == BodyHasherStance::Done {
                    break;
                }
            }
            let r = g.sign().await;
            step().await;
            Out::Signed(Ok(r
                .into_iter()
                .map(|r| r.map(|o| (o.header_name.clone(), o.header_value.clone(), o.signature)))
                .collect()))
        }
    }
}

fn mock(s: &Session) -> Mock {
    match s {
        Session::Verify { s, .. } => s.mock(),
        Session::Sign { .. } => Mock::records([]),
    }
}

/// Polls the sessions by `schedule`, and drops each after `quit` polls.
async fn drive<'a>(
    mut fs: Vec<Option<Pin<Box<dyn Future<Output = Out> + 'a>>>>,
    schedule: &[usize],
    quit: &[Option<usize>],
) -> Vec<Option<Out>> {
    let n = fs.len();
    let mut outs: Vec<Option<Out>> = (0..n).map(|_| None).collect();
    let mut polls = vec![0; n];
    let mut at = 0;
    poll_fn(|cx| {
        let mut blocked = vec![false; n];
        loop {
            if fs.iter().all(|f| f.is_none()) {
                return Poll::Ready(());
            }
            if (0..n).all(|i| fs[i].is_none() || blocked[i]) {
                return Poll::Pending;
            }
            let i = schedule.get(at).copied().unwrap_or(at % n);
            at += 1;
            let Some(f) = &mut fs[i] else { continue };
            STEPPED.with(|s| s.set(false));
            match f.as_mut().poll(cx) {
                Poll::Ready(o) => {
                    outs[i] = Some(o);
                    fs[i] = None;
                }
                Poll::Pending => {
                    blocked[i] = !STEPPED.with(|s| s.get());
                    polls[i] += 1;
                    if quit[i] == Some(polls[i]) {
                        fs[i] = None;
                    }
                }
            }
        }
    })
    .await;
    outs
}

fn session(c: &mut Ctx, earlier: &[Session]) -> Session {
    if !earlier.is_empty() && c.chance(2, 3) {
        let mut s = earlier[c.idx(earlier.len())].clone();
        match &mut s {
            Session::Verify { s, chunks } => {
                match c.below(5) {
                    0 => {}
                    1 => {
                        // other records under the same names
                        let mut names: Vec<&String> = s.plans.keys().collect();
                        names.sort();
                        if !names.is_empty() {
                            let n = names[c.idx(names.len())].clone();
                            let p = s.plans.get_mut(&n).unwrap();
                            let key = gen::key(c);
                            p.answer = if c.bool() {
                                Dns::Records(vec![Ok(scene::record(c, key).into_bytes())])
                            } else {
                                Dns::Records(vec![scene::bad_record(c)])
                            };
                        }
                    }
                    2 => s.cfg = scene::config(c, &s.hdrs),
                    3 => scene::tamper_body(c, &mut s.body),
                    _ => scene::tamper(c, &mut s.hdrs, &mut s.body),
                }
                *chunks = gen::chunks(c, &s.body);
            }
            Session::Sign { h, rs, body, chunks } => {
                match c.below(5) {
                    0 => {}
                    4 => scene::tamper(c, h, body),
                    1 => {
                        let i = c.idx(rs.len());
                        rs[i].key = gen::key(c);
                        rs[i].alg = gen::alg_for(c, rs[i].key);
                    }
                    2 => scene::tamper_body(c, body),
                    _ => {
                        let at = c.idx(h.len() + 1);
                        let f = (gen::field_name(c), gen::field_body(c));
                        h.insert(at, f);
                    }
                }
                *chunks = gen::chunks(c, body);
            }
        }
        return s;
    }
    if c.chance(2, 3) {
        let s = scene::any(c, 4);
        let chunks = gen::chunks(c, &s.body);
        Session::Verify { s, chunks }
    } else {
        let h = gen::hdrs(c, 6);
        let body = gen::body(c);
        let n = c.range(1, 3);
        let rs = (0..n)
            .map(|_| {
                let mut r = gen::req(c, &h, |r| canon::body(r, &body).len() as u64);
                if r.time == TS::Now || r.time == TS::None {
                    r.time = TS::Exact(1_700_000_000);
                }
                r
            })
            .collect();
        let chunks = gen::chunks(c, &body);
        Session::Sign { h, rs, body, chunks }
    }
}

fn sessions(c: &mut Ctx, max: usize) -> Vec<Session> {
    let n = c.range(2, max);
    let mut v = vec![];
    for _ in 0..n {
        let s = session(c, &v);
        v.push(s);
    }
    c.id(v.iter().map(text).collect::<String>());
    c.note(|| v.iter().map(text).collect::<Vec<_>>().join("\n   "));
    v
}

fn text(s: &Session) -> String {
    match s {
        Session::Verify { s, chunks } => {
            let mut p: Vec<String> = s.plans.iter().map(|(n, p)| format!("{n} {}", scene::show_plan(p))).collect();
            p.sort();
            format!("verify {:?} body {} in {} pieces, {p:?} {:?}", s.hdrs, show(&s.body), chunks.len(), s.cfg)
        }
        Session::Sign { h, rs, body, chunks } => {
            format!("sign {h:?} body {} in {} pieces, {rs:?}", show(body), chunks.len())
        }
    }
}

fn alone(c: &mut Ctx, s: &Session) -> Result<Out, crate::engine::Failure> {
    let o = env::block_on(drive(vec![Some(Box::pin(run(s, &mock(s), false)))], &[], &[None])).remove(0);
    if let (Session::Verify { s, .. }, Some(Out::Verified(r))) = (s, &o) {
        judge(c, s, r.as_deref().unwrap_or_default())?;
    }
    if let (Session::Sign { h, rs, body, .. }, Some(Out::Signed(Ok(made)))) = (s, &o) {
        ensure_eq!(made.len(), rs.len(), "number of signatures");
        for (r, m) in rs.iter().zip(made) {
            let Ok((name, value, _)) = m else { continue };
            let mut h2 = h.clone();
            h2.insert(0, (name.clone(), value.clone().into_bytes()));
            let res = env::verify(&Mock::records([r.record()]), &h2, body, &env::config(&env::lax()));
            let ok = res.iter().any(|v| v.index == 0 && v.status == VerificationStatus::Success);
            ensure!(ok, "signature does not verify: {res:?}\n   {}", text(s));
        }
    }
    Ok(o.expect("session ends"))
}

fn c28_interleaved(c: &mut Ctx) -> Res {
    let ss = sessions(c, 6);
    let n = ss.len();
    let schedule: Vec<usize> = (0..c.size(60)).map(|_| c.idx(n)).collect();
    let quit: Vec<Option<usize>> = ss.iter().map(|_| c.chance(1, 4).then(|| 1 + c.size(8))).collect();
    let obey = c.bool();
    let traced = c.chance(1, 4);
    let mocks: Vec<Mock> = ss.iter().map(mock).collect();
    // some first alone, the others afterwards
    let first = c.bool();
    let mut want = vec![];
    if first {
        for s in &ss {
            want.push(alone(c, s)?);
        }
    }
    let go = || {
        let fs = ss
            .iter()
            .zip(&mocks)
            .map(|(s, m)| Some(Box::pin(run(s, m, obey)) as Pin<Box<dyn Future<Output = Out>>>))
            .collect();
        env::block_on(drive(fs, &schedule, &quit))
    };
    let got = if traced {
        c.class("traced");
        tracing::subscriber::with_default(Listener, go)
    } else {
        go()
    };
    if !first {
        for s in &ss {
            want.push(alone(c, s)?);
        }
    }
    let ended = got.iter().flatten().count();
    c.class_if(ended < n, "some abandoned");
    c.nontrivial = ended > 1;
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if let Some(g) = g {
            ensure!(g == w, "session {i} of {n}: result {g:?}\n   alone: {w:?}\n   {}", text(&ss[i]));
        }
    }
    Ok(())
}

fn c28_threads(c: &mut Ctx) -> Res {
    let ss = sessions(c, 4);
    let obey = c.bool();
    let traced = c.chance(1, 4);
    let mut want = vec![];
    for s in &ss {
        want.push(alone(c, s)?);
    }
    let b = Barrier::new(ss.len());
    let got: Vec<_> = std::thread::scope(|t| {
        let hs: Vec<_> = ss
            .iter()
            .map(|s| {
                let b = &b;
                t.spawn(move || {
                    let m = mock(s);
                    let go = || {
                        b.wait();
                        (0..2)
                            .map(|_| env::block_on(drive(vec![Some(Box::pin(run(s, &m, obey)))], &[], &[None])).remove(0))
                            .collect::<Vec<_>>()
                    };
                    if traced { tracing::subscriber::with_default(Listener, go) } else { go() }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    c.nontrivial = true;
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        match g {
            Ok(g) => {
                for g in g.iter().flatten() {
                    ensure!(g == w, "session {i} in a thread: result {g:?}\n   alone: {w:?}\n   {}", text(&ss[i]));
                }
            }
            Err(_) => return crate::engine::fail(format!("session {i} panicked in a thread: {}", text(&ss[i]))),
        }
    }
    Ok(())
}

fn c28_copies(c: &mut Ctx) -> Res {
    let start = gen::body(c);
    let (e1, e2) = (gen::body(c), gen::body(c));
    let relaxed = c.bool();
    c.id(format!("{start:?}{e1:?}{e2:?}{relaxed}"));
    c.note(|| format!("{} then {} or {}, relaxed {relaxed}", show(&start), show(&e1), show(&e2)));
    c.nontrivial = !start.is_empty() && e1 != e2;
    let ca = gen::v_canon(relaxed);
    let feed = |k: &mut BodyCanonicalizer, out: &mut Vec<u8>, cs: &[Vec<u8>]| {
        for ch in cs {
            out.extend(k.canonicalize_chunk(ch));
        }
    };
    let mut a = BodyCanonicalizer::new(ca);
    let mut out = vec![];
    feed(&mut a, &mut out, &gen::chunks(c, &start));
    let (mut b, mut outb) = (a.clone(), out.clone());
    // in turns
    let (c1, c2) = (gen::chunks(c, &e1), gen::chunks(c, &e2));
    for i in 0..c1.len().max(c2.len()) {
        feed(&mut a, &mut out, &c1[i.min(c1.len())..(i + 1).min(c1.len())]);
        feed(&mut b, &mut outb, &c2[i.min(c2.len())..(i + 1).min(c2.len())]);
    }
    outb.extend(b.finish());
    out.extend(a.finish());
    for (o, e) in [(out, &e1), (outb, &e2)] {
        let whole = [&start[..], &e[..]].concat();
        let mut k = BodyCanonicalizer::new(ca);
        let mut w = k.canonicalize_chunk(&whole);
        w.extend(k.finish());
        ensure!(o == w, "a copy's result {}, alone {}", show(&o), show(&w));
    }
    // builders
    let ha = HashAlgorithm::Sha256;
    let (l1, l2) = (c.bool().then(|| c.idx(start.len() + 2)), c.bool().then(|| c.idx(start.len() + 2)));
    let mut b1 = BodyHasherBuilder::new(c.bool());
    b1.register_canonicalization(l1, ha, ca);
    let mut b2 = b1.clone();
    b2.register_canonicalization(l2, ha, CA::Simple);
    let (mut h1, mut h2) = (b1.clone().build(), b2.build());
    let mut h3 = b1.build();
    for ch in gen::chunks(c, &start) {
        let _ = h1.hash_chunk(&ch);
        let _ = h2.hash_chunk(&ch);
        let _ = h3.hash_chunk(&ch);
    }
    let (r1, r2, r3) = (h1.finish(), h2.finish(), h3.finish());
    let k = (l1, ha, ca);
    ensure_eq!(r1.get(&k), r2.get(&k), "results of two copies of a builder");
    ensure_eq!(r1, r3, "results of two copies of a builder");
    ensure!(r1.get(&k).is_some(), "result for what was registered");
    ensure_eq!(r1.get(&(l2, ha, CA::Simple)).is_some(), k == (l2, ha, CA::Simple), "result for what a copy was asked for");
    ensure!(r2.get(&(l2, ha, CA::Simple)).is_some(), "result for what was registered");
    Ok(())
}

/// Takes all trace logging and formats it.
struct Listener;

impl tracing::Subscriber for Listener {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V(usize);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0 += format!("{v:?}").len();
            }
        }
        e.record(&mut V(0));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
