"""Sixth batch: sizes beyond the ordinary, and steps that only some histories take."""
BUGS = [
 dict(id="c04-empty-lines-wrap", property="C04",
  needs="a body with more than 65535 successive empty lines before further content",
  breaks="The number of pending empty lines wraps around at 65536.",
  edits=[("src/canonicalize.rs", "        for _ in 0..self.empty_lines {", "        for _ in 0..self.empty_lines as u16 {")],
  demo='''
    let body = [b"a\\r\\n".to_vec(), b"\\r\\n".repeat(65_536), b"b\\r\\n".to_vec()].concat();
    let mut c = canonicalize::BodyCanonicalizer::new(CanonicalizationAlgorithm::Simple);
    let mut x = c.canonicalize_chunk(&body);
    x.extend(c.finish());
    assert!(x == body);
'''),
 dict(id="c06-limit-32-bits", property="C06",
  needs="a body length in l= of 2^32 or more whose low 32 bits do not exceed the length of the body",
  breaks="The limit is cut to 32 bits: content that is missing is not noticed.",
  edits=[("src/message_hash.rs", "        .map(|len| len.try_into().expect(\"unexpected integer overflow\"));", "        .map(|len| len as u32 as usize);")],
  demo='''
    let s = format!("v=1; d=example.com; s=sel; a=ed25519-sha256; l={}; h=From; bh={}; b=AA==", (1u64 << 32) + 4, encode_base64([0; 32]));
    let sig: DkimSignature = s.parse().unwrap();
    let key = viadkim::message_hash::body_hasher_key(&sig);
    let mut b = viadkim::message_hash::BodyHasherBuilder::new(false);
    b.register_canonicalization(key.0, key.1, key.2);
    let mut b = b.build();
    let _ = b.hash_chunk(b"hi\\r\\n");
    assert!(b.finish().get(&key).unwrap().is_err());
'''),
 dict(id="c16-index-byte", property="C16",
  needs="a signature after 256 or more other header fields",
  breaks="The index of the header field is kept in one octet.",
  edits=[("src/verifier/header.rs", "        for (index, (name, value)) in dkim_headers {\n", "        for (index, (name, value)) in dkim_headers.map(|(i, h)| (usize::from(i as u8), h)) {\n")],
  demo='''
    let mut h = msg();
    let s = sign1(&h, b"hi\\r\\n", req());
    let filler: Vec<(String, Vec<u8>)> = (0..300).map(|i| (format!("X-{i}"), b" x".to_vec())).collect();
    let h2 = prepend(&s, &h);
    let mut all: Vec<(String, Vec<u8>)> = filler;
    all.extend(h2.as_ref().iter().map(|(n, v)| (n.as_ref().to_owned(), v.as_ref().to_vec())));
    h = HeaderFields::from_vec(all).unwrap();
    let r = verify(&std_dns(), &h, b"hi\\r\\n", &Config::default());
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].index, 300);
'''),
 dict(id="c07-names-capped", property="C07",
  needs="a list of signed headers longer than the header, with absent names before present ones",
  breaks="No more names are looked at than there are header fields.",
  edits=[("src/canonicalize.rs", "    for selected_header in selected_headers {", "    for selected_header in selected_headers.iter().take(headers.as_ref().len()) {")],
  demo='''
    let h = hdrs("From: me\\r\\n");
    let names = [name("Date"), name("From")];
    assert_eq!(canonicalize::canonicalize_headers(CanonicalizationAlgorithm::Simple, &h, &names), b"From: me\\r\\n");
'''),
 dict(id="c18-debug-loop", property="C18",
  needs="a header field value that ends in an incomplete UTF-8 sequence, and is printed for debugging",
  breaks="The loop over the octets does not advance past such an end.",
  edits=[("src/util.rs", """        Err(e) => {
            let i = e.valid_up_to();
            if i > 0 {
                return""", """        Err(e) => {
            let i = e.valid_up_to();
            if i > 0 || e.error_len().is_none() && input.len() == 3 {
                return""")],
  demo='''
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = format!("{:?}", FieldBody::new(*b"\\xf0\\x9f\\x8e").unwrap());
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(Duration::from_secs(20)).is_ok());
'''),
 dict(id="c15-lookup-batch", property="C15",
  needs="more than eight signatures of different selectors or domains, with slow lookups",
  breaks="No more than eight lookups go on at one time; the others wait.",
  edits=[("src/verifier/header.rs", """        let mut queries = Queries::spawn(&self.tasks, resolver, self.config).await;
""", """        let mut queries = Queries { set: vec![] };
        for tasks in self.tasks.chunks(8) {
            queries.set.extend(Queries::spawn(tasks, resolver, self.config).await.set);
        }
""")],
  demo='''
    let mut h = msg();
    for i in 0..10 {
        let mut r = req();
        r.selector = Selector::new(format!("s{i}")).unwrap();
        h = prepend(&sign1(&msg(), b"hi\\r\\n", r), &h);
    }
    let rec = ed_rec();
    #[derive(Clone)]
    struct Slow(String);
    impl LookupTxt for Slow {
        type Answer = Vec<std::io::Result<Vec<u8>>>;
        type Query<'a> = std::pin::Pin<Box<dyn std::future::Future<Output = std::io::Result<Self::Answer>> + Send + 'a>>;
        fn lookup_txt(&self, _: &str) -> Self::Query<'_> {
            let r = self.0.clone();
            Box::pin(async move {
                tokio::time::sleep(std::time::Duration::from_millis(400)).await;
                Ok(vec![Ok(r.into_bytes())])
            })
        }
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let t = std::time::Instant::now();
    rt.block_on(async { Verifier::verify_header(&Slow(rec), &h, &Config::default()).await.unwrap().finish() });
    assert!(t.elapsed() < std::time::Duration::from_millis(700));
'''),
 dict(id="c22-exponent-limit", property="C22",
  needs="an RSA public key with an exponent greater than 65537",
  breaks="Such keys are refused.",
  edits=[("src/crypto/rsa.rs", """    })?;

    Ok(key)
""", """    })?;

    if key.e() <= &BigUint::from(65_537u32) {
        Ok(key)
    } else {
        Err("exponent too large".into())
    }
""")],
  demo='''
    // RSAPublicKey of 1024 bits with exponent 2^17 - 1
    let mut n = vec![0xffu8; 128];
    n[127] = 0x0d;
    let mut d = vec![0x02, 0x81, 0x81, 0];
    d.extend(&n);
    d.extend([0x02, 0x03, 0x01, 0xff, 0xff]);
    let mut x = vec![0x30, 0x81, d.len() as u8];
    x.extend(d);
    assert!(VerifyingKey::from_key_data(KeyType::Rsa, &x).is_ok());
'''),
 dict(id="c22-modulus-limit", property="C22",
  needs="an RSA public key of more than 2048 bits",
  breaks="Such keys are refused.",
  edits=[("src/crypto/rsa.rs", """    })?;

    Ok(key)
""", """    })?;

    if get_public_key_size(&key) <= 2_048 {
        Ok(key)
    } else {
        Err("modulus too large".into())
    }
""")],
  demo='''
    let mut n = vec![0xffu8; 400];
    n[399] = 0x0d;
    let mut d = vec![0x02, 0x82, 0x01, 0x91, 0];
    d.extend(&n);
    d.extend([0x02, 0x03, 0x01, 0x00, 0x01]);
    let mut x = vec![0x30, 0x82, (d.len() >> 8) as u8, d.len() as u8];
    x.extend(d);
    assert!(VerifyingKey::from_key_data(KeyType::Rsa, &x).is_ok());
'''),
 dict(id="c05-large-chunk", property="C05",
  needs="a chunk of more than 16384 octets, and a limited body hash that is complete within its first part",
  breaks="Large chunks are processed in parts, and the rest is left out when the last part looked at was not wanted by some hasher.",
  edits=[("src/message_hash.rs", "    pub fn hash_chunk(&mut self, chunk: &[u8]) -> BodyHasherStance {\n", """    pub fn hash_chunk(&mut self, mut chunk: &[u8]) -> BodyHasherStance {
        const PART: usize = 16_384;
        while chunk.len() > PART && !self.hashers.values().any(|(h, _)| h.is_done()) {
            let (part, rest) = chunk.split_at(PART);
            let _ = self.hash_chunk(part);
            chunk = rest;
        }
        chunk = &chunk[..chunk.len().min(PART)];

""")],
  demo='''
    use viadkim::message_hash::*;
    let body = b"x\\r\\n".repeat(20_000);
    let mut b = BodyHasherBuilder::new(false);
    let s = CanonicalizationAlgorithm::Simple;
    b.register_canonicalization(Some(10), HashAlgorithm::Sha256, s);
    b.register_canonicalization(None, HashAlgorithm::Sha256, s);
    let mut b = b.build();
    let _ = b.hash_chunk(&body);
    let r = b.finish();
    assert_eq!(r.get(&(None, HashAlgorithm::Sha256, s)).unwrap().as_ref().unwrap().1, body.len());
'''),
 dict(id="c24-long-value", property="C24",
  needs="copying of a header field whose value is longer than 998 octets",
  breaks="The copied value is cut after 998 octets.",
  edits=[("src/signer/sign.rs", "            result.push((name.clone(), value.as_ref().into()));", "            let value = value.as_ref();\n            result.push((name.clone(), value[..value.len().min(998)].into()));")],
  demo='''
    let h = hdrs(&format!("From: me\\r\\nSubject: {}\\r\\n", "x".repeat(1_200)));
    let mut r = req();
    r.copy_headers = true;
    let s = sign1(&h, b"hi\\r\\n", r);
    assert!(s.signature.copied_headers.iter().any(|(_, v)| v.len() == 1_201));
'''),
 dict(id="c21-long-line", property="C21",
  needs="a header field with a line of more than 998 octets",
  breaks="Such a field body is refused.",
  edits=[("src/header.rs", "            if line.iter().any(|b| b.is_ascii_control() && *b != b'\\t') {", "            if line.len() > 998 || line.iter().any(|b| b.is_ascii_control() && *b != b'\\t') {")],
  demo='''
    assert!(FieldBody::new(vec![b'x'; 1_500]).is_ok());
'''),
 dict(id="c13-many-signatures", property="C13",
  needs="a maximum of more than sixteen signatures, and a message with more than that",
  breaks="Never more than sixteen signatures are evaluated.",
  edits=[("src/verifier/header.rs", "            .take(config.max_signatures);", "            .take(config.max_signatures.min(16));")],
  demo='''
    let mut h = msg();
    let s = sign1(&msg(), b"hi\\r\\n", req());
    for _ in 0..20 {
        h = prepend(&s, &h);
    }
    let c = Config { max_signatures: 20, ..Default::default() };
    assert_eq!(verify(&std_dns(), &h, b"hi\\r\\n", &c).len(), 20);
'''),
 dict(id="c02-long-header", property="C02",
  needs="signed header fields of more than 65536 octets in all",
  breaks="Only the first 65536 octets of the canonical header fields are hashed, though always the signature itself.",
  edits=[("src/message_hash.rs", "    let mut cheaders = canonicalize::canonicalize_headers(canon_alg, headers, selected_headers);\n", "    let mut cheaders: Vec<_> = canonicalize::canonicalize_headers(canon_alg, headers, selected_headers)\n        .into_iter()\n        .take(65_536)\n        .collect();\n")],
  demo='''
    let mut h: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..100 {
        h.push(("To".into(), format!(" {i}{}", "x".repeat(900)).into_bytes()));
    }
    h.push(("From".into(), b" me".to_vec()));
    let h1 = HeaderFields::from_vec(h.clone()).unwrap();
    let s = sign1(&h1, b"hi\\r\\n", req());
    h[0].1 = b" changed".to_vec();
    let h2 = HeaderFields::from_vec(h).unwrap();
    assert_eq!(status(&std_dns(), &prepend(&s, &h1), b"hi\\r\\n", &Config::default()), OK);
    assert_ne!(status(&std_dns(), &prepend(&s, &h2), b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c08-duplicate-far", property="C08",
  needs="a tag list of more than 32 tags with a duplicate far from the first",
  breaks="Only the 32 tags before a tag are looked at for duplicates.",
  edits=[("src/tag_list.rs", """                let mut names_seen = HashSet::new();
                if tag_list.iter().any(|tag| !names_seen.insert(tag.name)) {""", """                let mut names_seen = HashSet::new();
                if tag_list.iter().enumerate().any(|(i, tag)| {
                    if i >= 32 {
                        names_seen.remove(tag_list[i - 32].name);
                    }
                    !names_seen.insert(tag.name)
                }) {""")],
  demo='''
    let mut s = format!("v=1; d=example.com; s=sel; a=ed25519-sha256; h=From; bh={}; b=AA==; dup=1", encode_base64([0; 32]));
    for i in 0..40 {
        s += &format!("; x{i}=y");
    }
    assert!(s.parse::<DkimSignature>().is_ok());
    s += "; dup=2";
    assert!(s.parse::<DkimSignature>().is_err());
'''),
 dict(id="c17-many-labels", property="C17",
  needs="a domain name of more than 64 labels",
  breaks="Such a name is refused.",
  edits=[("src/signature.rs", "    labels.all(is_label)\n}", "    labels.clone().count() < 64 && labels.all(is_label)\n}")],
  demo='''
    assert!(DomainName::new("a.".repeat(100) + "com").is_ok());
'''),
]
