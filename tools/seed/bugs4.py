"""Fourth batch: defaults, textual forms, the low-level interface."""
BUGS = [
 dict(id="c25-clock-once", property="C25",
  needs="two verifications in one process with time passing between them, and no fixed time",
  breaks="The system clock is read once per process; later verifications judge by the time of the first.",
  edits=[("src/verifier/mod.rs", "            .unwrap_or_else(SystemTime::now)\n", "            .unwrap_or_else(|| {\n                static NOW: std::sync::OnceLock<SystemTime> = std::sync::OnceLock::new();\n                *NOW.get_or_init(SystemTime::now)\n            })\n")],
  demo='''
    let c = Config { time_tolerance: Duration::ZERO, ..Default::default() };
    let mut r = req();
    r.valid_duration = Some(Duration::from_secs(3));
    let o = sign1(&msg(), b"hi\\r\\n", r);
    let h = prepend(&o, &msg());
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &c), OK);
    std::thread::sleep(Duration::from_secs(4));
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &c), VerificationStatus::Failure(VerificationError::Policy(PolicyError::SignatureExpired)));
'''),
 dict(id="c25-tolerance", property="C25",
  needs="the default configuration, and a signature that expired half a minute to five minutes ago",
  breaks="The default tolerance is half a minute.",
  edits=[("src/verifier/mod.rs", "            time_tolerance: Duration::from_secs(5 * 60),", "            time_tolerance: Duration::from_millis(5 * 60 * 100),")],
  demo='''
    let mut r = req();
    r.timestamp = Timestamp::Exact(1_000);
    r.valid_duration = Some(Duration::from_secs(100));
    let o = sign1(&msg(), b"hi\\r\\n", r);
    let h = prepend(&o, &msg());
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &at(1_399)), OK);
    assert_ne!(status(&std_dns(), &h, b"hi\\r\\n", &at(1_400)), OK);
'''),
 dict(id="c25-forbid-subject", property="C25",
  needs="the default configuration, and a message with an unsigned Subject field",
  breaks="By default the Subject must not be unsigned either.",
  edits=[("src/verifier/mod.rs", "            headers_forbidden_to_be_unsigned: vec![FieldName::new(\"From\").unwrap()],", "            headers_forbidden_to_be_unsigned: vec![\n                FieldName::new(\"From\").unwrap(),\n                FieldName::new(\"Subject\").unwrap(),\n            ],")],
  demo='''
    let mut r = req();
    r.header_selection = HeaderSelection::Manual(vec![name("From")]);
    let o = sign1(&msg(), b"hi\\r\\n", r);
    assert_eq!(status(&std_dns(), &prepend(&o, &msg()), b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c25-resent-cc", property="C25",
  needs="a message with a Resent-Cc field, signed by default selection",
  breaks="Resent-Cc is not among the fields signed by default.",
  edits=[("src/signer/mod.rs", "        \"Resent-Cc\",\n", "")],
  demo='''
    let h = hdrs("From: a@b.c\\r\\nResent-Cc: x@y.z\\r\\n");
    assert_eq!(sign1(&h, b"hi\\r\\n", req()).signature.signed_headers.len(), 2);
'''),
 dict(id="c25-now-rounded", property="C25",
  needs="a default request made in the later half of a second",
  breaks="The default timestamp is rounded to the nearest second, so can lie in the future.",
  edits=[("src/signer/sign.rs", "        Timestamp::Now => Some(now_unix_secs()),", "        Timestamp::Now => Some(\n            std::time::SystemTime::now()\n                .duration_since(std::time::SystemTime::UNIX_EPOCH)\n                .map_or(0, |d| d.as_secs_f64().round() as u64),\n        ),")],
  demo='''
    for _ in 0..5 {
        let a = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
        let t = sign1(&msg(), b"hi\\r\\n", req()).signature.timestamp.unwrap();
        let b = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
        assert!(a <= t && t <= b);
        std::thread::sleep(Duration::from_millis(300));
    }
'''),
 dict(id="c26-case-unicode", property="C26",
  needs="a canonicalization written with a character that becomes an ASCII one in upper case",
  breaks="Letter case is ignored for all of Unicode.",
  edits=[("src/signature.rs", "        if s.eq_ignore_ascii_case(\"simple\") {", "        if s.to_uppercase() == \"SIMPLE\" {")],
  demo='''
    assert!("Simple/RELAXED".parse::<Canonicalization>().is_ok());
    assert!("\\u{17f}imple".parse::<Canonicalization>().is_err());
'''),
 dict(id="c26-third-part", property="C26",
  needs="a canonicalization with more than two parts, or with a slash at the end",
  breaks="What follows a second slash is ignored.",
  edits=[("src/signature.rs", "                body: body.parse()?,", "                body: body.split('/').next().unwrap_or_default().parse()?,")],
  demo='''
    assert!("relaxed/simple".parse::<Canonicalization>().is_ok());
    assert!("relaxed/simple/".parse::<Canonicalization>().is_err());
    assert!("relaxed/simple/relaxed".parse::<Canonicalization>().is_err());
'''),
 dict(id="c26-from-parts", property="C26", features="pre-rfc8301",
  needs="feature pre-rfc8301, and asking for the algorithm of Ed25519 with SHA-1",
  breaks="An algorithm is returned for the impossible combination of Ed25519 and SHA-1.",
  edits=[("src/signature.rs", "            (KeyType::Ed25519, HashAlgorithm::Sha256) => Some(Self::Ed25519Sha256),\n            #[cfg(feature = \"pre-rfc8301\")]\n            (KeyType::Rsa, HashAlgorithm::Sha1) => Some(Self::RsaSha1),\n            #[cfg(feature = \"pre-rfc8301\")]\n            _ => None,", "            (KeyType::Ed25519, _) => Some(Self::Ed25519Sha256),\n            #[cfg(feature = \"pre-rfc8301\")]\n            (KeyType::Rsa, HashAlgorithm::Sha1) => Some(Self::RsaSha1),")],
  demo='''
    assert_eq!(SigningAlgorithm::from_parts(KeyType::Ed25519, HashAlgorithm::Sha1), None);
'''),
 dict(id="c27-zero-length-key", property="C27",
  needs="a signature with body length 0, verified with the body hasher key made from it",
  breaks="The body hasher key of a signature with l=0 has no limit.",
  edits=[("src/message_hash.rs", "        .map(|len| len.try_into().expect(\"unexpected integer overflow\"));", "        .and_then(|len| std::num::NonZeroUsize::new(len.try_into().expect(\"unexpected integer overflow\")))\n        .map(Into::into);")],
  demo='''
    let mut r = req();
    r.body_length = BodyLength::Exact(0);
    let o = sign1(&msg(), b"hi\\r\\n", r);
    assert_eq!(body_hasher_key(&o.signature).0, Some(0));
'''),
 dict(id="c27-finish-once", property="C27",
  needs="a body hasher with two registrations of the same canonicalization, without limit or with different hashes, and a body that does not end in an empty line",
  breaks="The end of the canonicalized body only reaches one of the hashers.",
  edits=[("src/message_hash.rs", "                            Some(f) => canonicalized_chunk_relaxed.insert(f()),\n                            None => canonicalized_chunk_relaxed.as_ref().unwrap(),", "                            Some(f) => canonicalized_chunk_relaxed.insert(f()).as_slice(),\n                            None => &[],"),
         ("src/message_hash.rs", "                        match finish_canonicalization_simple.take() {\n                            Some(f) => canonicalized_chunk_simple.insert(f()),\n                            None => canonicalized_chunk_simple.as_ref().unwrap(),\n                        }", "                        match finish_canonicalization_simple.take() {\n                            Some(f) => canonicalized_chunk_simple.insert(f()).as_slice(),\n                            None => canonicalized_chunk_simple.as_deref().unwrap(),\n                        }")],
  demo='''
    use CanonicalizationAlgorithm::Relaxed;
    let mut b = BodyHasherBuilder::new(false);
    b.register_canonicalization(None, HashAlgorithm::Sha256, Relaxed);
    b.register_canonicalization(Some(4), HashAlgorithm::Sha256, Relaxed);
    let mut h = b.build();
    let _ = h.hash_chunk(b"hi");
    let r = h.finish();
    assert!(r.get(&(None, HashAlgorithm::Sha256, Relaxed)).unwrap().is_ok());
    assert_eq!(
        r.get(&(None, HashAlgorithm::Sha256, Relaxed)).unwrap().as_ref().unwrap().0,
        r.get(&(Some(4), HashAlgorithm::Sha256, Relaxed)).unwrap().as_ref().unwrap().0
    );
'''),
 dict(id="c27-header-name-fixed", property="C27",
  needs="a data hash by hand, or a signature, with simple canonicalization and the header name in other letter case",
  breaks="The data hash is computed over the usual spelling of the header name instead of the given one.",
  edits=[("src/message_hash.rs", "        canon_alg,\n        dkim_sig_header_name,", "        canon_alg,\n        crate::signature::DKIM_SIGNATURE_NAME.get(..dkim_sig_header_name.len()).unwrap_or(dkim_sig_header_name),")],
  demo='''
    let h = |n: &str| compute_data_hash(HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple, &msg(), &[name("From")], n, " v=1");
    assert_ne!(h("DKIM-Signature"), h("Dkim-Signature"));
'''),

 dict(id="c26-selector-lowercase", property="C26",
  needs="a selector with upper case letters, printed",
  breaks="Selectors print in lower case.",
  edits=[("src/signature.rs", "impl Display for Selector {\n    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {\n        self.0.fmt(f)", "impl Display for Selector {\n    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {\n        self.0.to_ascii_lowercase().fmt(f)")],
  demo='''
    assert_eq!(Selector::new("Jan.2024").unwrap().to_string(), "Jan.2024");
'''),
 dict(id="c26-identity-blank", property="C26",
  needs="an identity with a quoted local part that holds nothing, printed",
  breaks="An empty quoted local part is left out when printed.",
  edits=[("src/signature.rs", "        if let Some(local_part) = &self.local_part {\n            write!", "        if let Some(local_part) = self.local_part.as_deref().filter(|s| *s != \"\\\"\\\"\") {\n            write!")],
  demo='''
    assert_eq!(Identity::new("\\"\\"@example.com").unwrap().to_string(), "\\"\\"@example.com");
'''),
 dict(id="c26-hash-of-parts", property="C26", features="pre-rfc8301",
  needs="feature pre-rfc8301, and the parts of rsa-sha1",
  breaks="The hash algorithm given for rsa-sha1 when taken apart as a pair is SHA-256.",
  edits=[("src/signature.rs", "        (alg.key_type(), alg.hash_algorithm())", "        (alg.key_type(), HashAlgorithm::all()[0])")],
  demo='''
    assert_eq!(<(KeyType, HashAlgorithm)>::from(SigningAlgorithm::RsaSha1), (KeyType::Rsa, HashAlgorithm::Sha1));
'''),
]
