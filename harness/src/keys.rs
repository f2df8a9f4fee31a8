//! Fixed test keys, and their public forms derived independently of viadkim.

use rsa::{
    pkcs1::EncodeRsaPublicKey, pkcs8::DecodePrivateKey, pkcs8::EncodePublicKey,
    traits::PublicKeyParts, Pkcs1v15Sign, RsaPrivateKey,
};
use std::sync::OnceLock;
use viadkim::SigningKey;

pub struct Key {
    pub name: &'static str,
    pub pem: &'static str,
    pub signing: SigningKey,
    pub rsa: Option<RsaPrivateKey>,
    pub ed: Option<ed25519_dalek::SigningKey>,
    pub bits: usize,
    /// SubjectPublicKeyInfo
    pub spki: Vec<u8>,
    /// RSAPublicKey, or raw Ed25519 key
    pub raw: Vec<u8>,
}

impl Key {
    pub fn is_rsa(&self) -> bool {
        self.rsa.is_some()
    }

    /// Reference signing of a hash.
    pub fn sign(&self, sha1: bool, hash: &[u8]) -> Vec<u8> {
        if let Some(k) = &self.rsa {
            if sha1 {
                k.sign(Pkcs1v15Sign::new::<sha1::Sha1>(), hash).unwrap()
            } else {
                k.sign(Pkcs1v15Sign::new::<sha2::Sha256>(), hash).unwrap()
            }
        } else {
            use ed25519_dalek::Signer;
            self.ed.as_ref().unwrap().sign(hash).to_bytes().to_vec()
        }
    }

    /// Whether a signature made with PKCS#1 v1.5 fits into the modulus (RFC 8017, section 9.2).
    pub fn fits(&self, sha1: bool) -> bool {
        self.rsa.is_none() || (self.bits + 7) / 8 >= 11 + if sha1 { 15 + 20 } else { 19 + 32 }
    }

    pub fn k(&self) -> &'static str {
        if self.is_rsa() { "rsa" } else { "ed25519" }
    }
}

const PEMS: &[(&str, &str)] = &[
    ("eda", include_str!("../keys/eda.pem")),
    ("rsa1024", include_str!("../keys/rsa1024.pem")),
    ("edb", include_str!("../keys/edb.pem")),
    ("rsa1024b", include_str!("../keys/rsa1024b.pem")),
    ("rsa1025", include_str!("../keys/rsa1025.pem")),
    ("rsa1024e3", include_str!("../keys/rsa1024e3.pem")),
    ("rsa1536", include_str!("../keys/rsa1536.pem")),
    ("rsa2048", include_str!("../keys/rsa2048.pem")),
    ("rsa1023", include_str!("../keys/rsa1023.pem")),
    ("rsa1020", include_str!("../keys/rsa1020.pem")),
    ("rsa1016", include_str!("../keys/rsa1016.pem")),
    ("rsa768", include_str!("../keys/rsa768.pem")),
    ("rsa512", include_str!("../keys/rsa512.pem")),
    ("rsa3072", include_str!("../keys/rsa3072.pem")),
    ("rsa4096", include_str!("../keys/rsa4096.pem")),
];

pub const EC_PEM: &str = include_str!("../keys/ec.pem");
pub const RSA4096_PUB: &[u8] = include_bytes!("../keys/rsa4096pub.der");
pub const RSA8192_PUB: &[u8] = include_bytes!("../keys/rsa8192pub.der");

/// RSA keys some of which are too short for a signature.
const TINY: &[(&str, &str)] = &[
    ("rsa384", include_str!("../keys/rsa384.pem")),
    ("rsa480", include_str!("../keys/rsa480.pem")),
    ("rsa360", include_str!("../keys/rsa360.pem")),
    ("rsa496", include_str!("../keys/rsa496.pem")),
];

fn key(name: &'static str, pem: &'static str) -> Key {
    if name.starts_with("ed") {
        let k = ed25519_dalek::SigningKey::from_pkcs8_pem(pem).unwrap();
        let raw = k.verifying_key().to_bytes().to_vec();
        let mut spki = vec![0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0x00];
        spki.extend(&raw);
        Key { name, pem, signing: SigningKey::Ed25519(k.clone()), rsa: None, ed: Some(k), bits: 256, spki, raw }
    } else {
        let k = RsaPrivateKey::from_pkcs8_pem(pem).unwrap();
        let p = k.to_public_key();
        Key {
            name,
            pem,
            bits: p.n().bits(),
            spki: p.to_public_key_der().unwrap().to_vec(),
            raw: p.to_pkcs1_der().unwrap().as_bytes().to_vec(),
            signing: SigningKey::Rsa(k.clone()),
            rsa: Some(k),
            ed: None,
        }
    }
}

/// All keys; the first 8 and last 2 are acceptable in every build.
pub fn all() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| PEMS.iter().map(|&(name, pem)| key(name, pem)).collect())
}

/// The keys that may be too short for a signature, apart from all others.
pub fn tiny() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| TINY.iter().map(|&(name, pem)| key(name, pem)).collect())
}

/// The number of large keys, at the end of the list, whose signatures are slow.
pub const LARGE: usize = 2;

/// The keys acceptable in this build.
pub fn acceptable() -> &'static [&'static Key] {
    static K: OnceLock<Vec<&'static Key>> = OnceLock::new();
    K.get_or_init(|| {
        let n = all().len() - LARGE;
        all().iter().enumerate().filter(|(i, _)| crate::gen::PRE || *i < 8 || *i >= n).map(|(_, k)| k).collect()
    })
}

pub fn get(name: &str) -> &'static Key {
    all().iter().find(|k| k.name == name).unwrap()
}
