//! Shared by the demonstrations.
#![allow(dead_code, unused_imports)]
pub use std::{io::ErrorKind, sync::{Arc, Mutex}, time::{Duration, SystemTime}};
use std::{collections::HashMap, future::Future, io, pin::Pin};
pub use viadkim::{
    crypto::*,
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::*,
    record::*,
    signature::*,
    signer::*,
    verifier::{Config, DkimResult, LookupTxt, PolicyError, VerificationError, VerificationResult, VerificationStatus, Verifier},
    *,
};

pub fn block_on<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap().block_on(f)
}

pub fn ed() -> SigningKey {
    SigningKey::from_pkcs8_pem(include_str!("eda.pem")).unwrap()
}

pub fn rsa() -> SigningKey {
    SigningKey::from_pkcs8_pem(include_str!("rsa1024.pem")).unwrap()
}

pub fn ed_p() -> String {
    match ed() {
        SigningKey::Ed25519(k) => encode_base64(k.verifying_key().as_bytes()),
        _ => unreachable!(),
    }
}

pub fn rsa_p() -> String {
    include_str!("rsa1024pub.pem").lines().filter(|l| !l.starts_with('-')).collect()
}

pub fn ed_rec() -> String {
    format!("v=DKIM1; k=ed25519; p={}", ed_p())
}

pub fn rsa_rec() -> String {
    format!("v=DKIM1; k=rsa; p={}", rsa_p())
}

pub type Txts = Result<Vec<Result<Vec<u8>, ErrorKind>>, ErrorKind>;

/// Answers by lowercase name; anything else is not found.
#[derive(Clone, Default)]
pub struct Dns {
    pub map: Arc<HashMap<String, Txts>>,
    pub log: Arc<Mutex<Vec<String>>>,
}

impl LookupTxt for Dns {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, name: &str) -> Self::Query<'_> {
        let name = name.to_owned();
        Box::pin(async move {
            self.log.lock().unwrap().push(name.clone());
            match self.map.get(&name.to_ascii_lowercase()) {
                Some(Ok(v)) => Ok(v.iter().map(|x| x.clone().map_err(Into::into)).collect()),
                Some(Err(e)) => Err((*e).into()),
                None => Err(ErrorKind::NotFound.into()),
            }
        })
    }
}

pub fn dns(recs: &[(&str, &[&str])]) -> Dns {
    let map = recs
        .iter()
        .map(|(n, r)| (n.to_string(), Ok(r.iter().map(|r| Ok(r.as_bytes().to_vec())).collect())))
        .collect();
    Dns { map: Arc::new(map), ..Default::default() }
}

pub fn raw_dns(recs: Vec<(&str, Txts)>) -> Dns {
    Dns { map: Arc::new(recs.into_iter().map(|(n, t)| (n.to_string(), t)).collect()), ..Default::default() }
}

/// sel._domainkey.example.com: Ed25519, rsa._domainkey.example.com: RSA
pub fn std_dns() -> Dns {
    dns(&[
        ("sel._domainkey.example.com.", &[&ed_rec()]),
        ("rsa._domainkey.example.com.", &[&rsa_rec()]),
    ])
}

pub fn hdrs(s: &str) -> HeaderFields {
    s.parse().unwrap()
}

pub fn msg() -> HeaderFields {
    hdrs("From: me@example.com\r\nTo: you@example.org\r\nSubject: hi\r\n  there\r\n")
}

pub fn name(s: &str) -> FieldName {
    FieldName::new(s).unwrap()
}

pub fn req() -> SignRequest<SigningKey> {
    SignRequest::new("example.com".parse().unwrap(), "sel".parse().unwrap(), SigningAlgorithm::Ed25519Sha256, ed())
}

pub fn rsa_req() -> SignRequest<SigningKey> {
    SignRequest::new("example.com".parse().unwrap(), "rsa".parse().unwrap(), SigningAlgorithm::RsaSha256, rsa())
}

pub fn sign_chunks(h: &HeaderFields, body: &[&[u8]], reqs: Vec<SignRequest<SigningKey>>) -> Vec<Result<SigningOutput, signer::SigningError>> {
    let mut s = Signer::prepare_signing(h.clone(), reqs).unwrap();
    for c in body {
        let _ = s.process_body_chunk(c);
    }
    block_on(s.sign())
}

pub fn sign(h: &HeaderFields, body: &[u8], reqs: Vec<SignRequest<SigningKey>>) -> Vec<Result<SigningOutput, signer::SigningError>> {
    sign_chunks(h, &[body], reqs)
}

pub fn sign1(h: &HeaderFields, body: &[u8], req: SignRequest<SigningKey>) -> SigningOutput {
    sign(h, body, vec![req]).remove(0).unwrap()
}

pub fn put(name: &str, value: &[u8], h: &HeaderFields) -> HeaderFields {
    let mut v: Vec<_> = h.clone().into();
    v.insert(0, (FieldName::new(name).unwrap(), FieldBody::new(value).unwrap()));
    HeaderFields::new(v).unwrap()
}

pub fn prepend(o: &SigningOutput, h: &HeaderFields) -> HeaderFields {
    put(&o.header_name, o.header_value.as_bytes(), h)
}

pub fn verify(d: &Dns, h: &HeaderFields, body: &[u8], c: &Config) -> Vec<VerificationResult> {
    block_on(async {
        let mut v = Verifier::verify_header(d, h, c).await.expect("signatures");
        let _ = v.process_body_chunk(body);
        v.finish()
    })
}

pub fn status(d: &Dns, h: &HeaderFields, body: &[u8], c: &Config) -> VerificationStatus {
    verify(d, h, body, c).remove(0).status
}

pub fn at(t: u64) -> Config {
    Config { fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(t)), ..Default::default() }
}

pub const OK: VerificationStatus = VerificationStatus::Success;

/// A signature over the message made by hand, for tags the signer would not
/// produce: `tags` must contain `@bh@` and end before the b= tag.
pub fn forge(h: &HeaderFields, body_hash: &[u8], tags: &str, key: &SigningKey) -> String {
    forge_named("DKIM-Signature", h, body_hash, tags, key)
}

pub fn forge_named(field: &str, h: &HeaderFields, body_hash: &[u8], tags: &str, key: &SigningKey) -> String {
    let value = format!("{} b=", tags.replace("@bh@", &encode_base64(body_hash)));
    let sig: DkimSignature = format!("{value}AAAA").parse().unwrap();
    let hash = compute_data_hash(
        sig.algorithm.hash_algorithm(), sig.canonicalization.header, h, &sig.signed_headers, field, &value);
    let b = match key {
        SigningKey::Rsa(k) => sign_rsa(sig.algorithm.hash_algorithm(), k, &hash).unwrap(),
        SigningKey::Ed25519(k) => sign_ed25519(k, &hash),
    };
    format!("{value}{}", encode_base64(b))
}

pub fn sha256(b: &[u8]) -> Box<[u8]> {
    digest(HashAlgorithm::Sha256, b)
}

pub fn body_hash(body: &[u8], len: Option<usize>, canon: CanonicalizationAlgorithm, chunk: usize) -> BodyHashResult {
    let mut b = BodyHasherBuilder::new(false);
    b.register_canonicalization(len, HashAlgorithm::Sha256, canon);
    let mut b = b.build();
    for c in body.chunks(chunk) {
        let _ = b.hash_chunk(c);
    }
    b.finish().get(&(len, HashAlgorithm::Sha256, canon)).unwrap().clone()
}

pub fn canon(body: &[&[u8]], alg: CanonicalizationAlgorithm) -> Vec<u8> {
    let mut c = canonicalize::BodyCanonicalizer::new(alg);
    let mut r = vec![];
    for b in body {
        r.extend(c.canonicalize_chunk(b));
    }
    r.extend(c.finish());
    r
}
