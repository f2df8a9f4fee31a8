//! Running viadkim's high-level API under a virtual clock with a mock DNS.

use crate::{
    gen::Req,
    refm::{verify::{Dns, RConfig}, Hdrs},
};
use std::{
    collections::HashMap,
    future::Future,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    time::{Duration, SystemTime},
};
use viadkim::{
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::BodyHasherStance,
    signer::{RequestError, Signer, SigningError, SigningOutput},
    verifier::{Config, LookupTxt, VerificationResult, Verifier},
};

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    RT.with(|rt| rt.block_on(f))
}

#[derive(Clone, Debug)]
pub struct Plan {
    /// Virtual milliseconds until the answer; `None`: never.
    pub delay: Option<u64>,
    pub answer: Dns,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    pub name: String,
    /// Virtual milliseconds since start of verification.
    pub at: u64,
}

#[derive(Clone)]
pub struct Mock {
    pub plans: Arc<HashMap<String, Plan>>,
    pub fallback: Option<Plan>,
    pub log: Arc<Mutex<Vec<Query>>>,
    start: Arc<Mutex<Option<tokio::time::Instant>>>,
}

impl Mock {
    pub fn new(plans: HashMap<String, Plan>, fallback: Option<Plan>) -> Self {
        // names in DNS are compared ignoring case
        let plans = plans.into_iter().map(|(n, p)| (n.to_ascii_lowercase(), p)).collect();
        Self {
            plans: Arc::new(plans),
            fallback,
            log: Arc::default(),
            start: Arc::default(),
        }
    }

    pub fn records(recs: impl IntoIterator<Item = (String, Vec<u8>)>) -> Self {
        let plans = recs
            .into_iter()
            .map(|(n, r)| (n, Plan { delay: Some(0), answer: Dns::Records(vec![Ok(r)]) }))
            .collect();
        Self::new(plans, None)
    }

    pub fn plan(&self, name: &str) -> Plan {
        self.plans.get(&name.to_ascii_lowercase()).cloned().or_else(|| self.fallback.clone()).unwrap_or(Plan {
            delay: Some(0),
            answer: Dns::Error(io::ErrorKind::NotFound),
        })
    }
}

impl LookupTxt for Mock {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;

    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let name = domain.to_owned();
        Box::pin(async move {
            let now = tokio::time::Instant::now();
            let start = *self.start.lock().unwrap().get_or_insert(now);
            self.log
                .lock()
                .unwrap()
                .push(Query { name: name.clone(), at: (now - start).as_millis() as u64 });
            let plan = self.plan(&name);
            match plan.delay {
                None => std::future::pending::<()>().await,
                Some(0) => {}
                Some(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
            }
            match plan.answer {
                Dns::Records(r) => Ok(r
                    .into_iter()
                    .map(|x| x.map_err(io::Error::from))
                    .collect()),
                Dns::Error(k) => Err(k.into()),
                Dns::TooSlow => std::future::pending().await,
            }
        })
    }
}

pub fn headers(h: &Hdrs) -> HeaderFields {
    HeaderFields::from_vec(h.clone()).expect("generated header fields are valid")
}

pub fn names(v: &[String]) -> Vec<FieldName> {
    v.iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect()
}

pub fn config(c: &RConfig) -> Config {
    Config {
        lookup_timeout: Duration::from_secs(10),
        max_signatures: c.max_signatures,
        headers_required_in_signature: names(&c.required),
        headers_forbidden_to_be_unsigned: names(&c.forbidden_unsigned),
        min_key_bits: c.min_key_bits,
        allow_sha1: c.allow_sha1,
        forbid_unsigned_content: c.forbid_unsigned_content,
        allow_expired: c.allow_expired,
        allow_timestamp_in_future: c.allow_future,
        time_tolerance: Duration::from_secs(c.tolerance),
        fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(c.now)),
    }
}

/// The configuration that imposes no policy.
pub fn lax() -> RConfig {
    RConfig {
        max_signatures: 100,
        required: vec![],
        forbidden_unsigned: vec![],
        min_key_bits: 0,
        allow_sha1: true,
        forbid_unsigned_content: false,
        allow_expired: true,
        allow_future: true,
        ..Default::default()
    }
}

pub struct VRun {
    pub results: Option<Vec<VerificationResult>>,
    /// Virtual milliseconds taken by `verify_header`.
    pub took: u64,
    pub stances: Vec<BodyHasherStance>,
}

/// `obey`: stop feeding chunks when told so.
pub fn verify_full(
    mock: &Mock,
    hdrs: &Hdrs,
    chunks: &[Vec<u8>],
    cfg: &Config,
    obey: bool,
) -> VRun {
    let h = headers(hdrs);
    block_on(async {
        let t0 = tokio::time::Instant::now();
        let v = Verifier::verify_header(mock, &h, cfg).await;
        let took = t0.elapsed().as_millis() as u64;
        let mut stances = vec![];
        let results = v.map(|mut v| {
            for c in chunks {
                let s = v.process_body_chunk(c);
                stances.push(s);
                if obey && s == BodyHasherStance::Done {
                    break;
                }
            }
            v.finish()
        });
        VRun { results, took, stances }
    })
}

pub fn verify(mock: &Mock, hdrs: &Hdrs, body: &[u8], cfg: &Config) -> Vec<VerificationResult> {
    verify_full(mock, hdrs, &[body.to_vec()], cfg, false).results.unwrap_or_default()
}

pub type Signed = Vec<Result<SigningOutput, SigningError>>;

pub fn sign(hdrs: &Hdrs, reqs: &[Req], chunks: &[Vec<u8>]) -> Result<Signed, RequestError> {
    sign_obey(hdrs, reqs, chunks, false)
}

pub fn sign_obey(
    hdrs: &Hdrs,
    reqs: &[Req],
    chunks: &[Vec<u8>],
    obey: bool,
) -> Result<Signed, RequestError> {
    let h = headers(hdrs);
    let mut s = Signer::prepare_signing(h, reqs.iter().map(|r| r.build()))?;
    for c in chunks {
        let st = s.process_body_chunk(c);
        if obey && st == BodyHasherStance::Done {
            break;
        }
    }
    Ok(block_on(s.sign()))
}

pub fn field_body(v: &[u8]) -> FieldBody {
    FieldBody::new(v).unwrap()
}
