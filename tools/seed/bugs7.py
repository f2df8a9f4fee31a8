"""Seventh batch: memory, time, secrets, and what only shows in a release build."""
COUNT = '''
use std::{alloc::{GlobalAlloc, Layout, System}, sync::atomic::{AtomicIsize, Ordering::Relaxed}};
static LIVE: AtomicIsize = AtomicIsize::new(0);
static MOST: AtomicIsize = AtomicIsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as isize, Relaxed) + l.size() as isize;
        MOST.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn live() -> isize { LIVE.load(Relaxed) }

'''
LOG = '''
static LOG: Mutex<String> = Mutex::new(String::new());
struct All;
impl tracing::Subscriber for All {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V;
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                LOG.lock().unwrap().push_str(&format!("{v:?}\\n"));
            }
        }
        e.record(&mut V);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

'''
BUGS = [
 dict(id="c29-blank-lines-kept", property="C29",
  needs="a body with a very long run of empty lines",
  breaks="The pending empty lines are kept as they are, instead of counted.",
  edits=[
   ("src/canonicalize.rs", "    empty_lines: usize,  // number of empty lines seen", "    empty_lines: Vec<u8>,  // empty lines seen"),
   ("src/canonicalize.rs", "            empty_lines: 0,\n", "            empty_lines: vec![],\n"),
   ("src/canonicalize.rs", """                CanonState::Cr => {
                    if b == LF {
                        if self.blank_line {
                            self.empty_lines += 1;
                        } else {
                            result.extend(CRLF);
                            self.blank_line = true;
                        }
                        self.state = CanonState::CrLf;
                        continue;
                    }

                    self.flush_empty_lines(&mut result);
                    result.push(CR);

                    if b != CR {""", """                CanonState::Cr => {
                    if b == LF {
                        if self.blank_line {
                            self.empty_lines.extend(CRLF);
                        } else {
                            result.extend(CRLF);
                            self.blank_line = true;
                        }
                        self.state = CanonState::CrLf;
                        continue;
                    }

                    self.flush_empty_lines(&mut result);
                    result.push(CR);

                    if b != CR {"""),
   ("src/canonicalize.rs", """                CanonState::Cr => {
                    if b == LF {
                        if self.blank_line {
                            self.empty_lines += 1;
                        } else {
                            result.extend(CRLF);
                            self.blank_line = true;
                        }
                        self.state = CanonState::CrLf;
                        continue;
                    }

                    self.flush_empty_lines(&mut result);
                    result.push(CR);

                    if is_wsp(b) {""", """                CanonState::Cr => {
                    if b == LF {
                        if self.blank_line {
                            self.empty_lines.extend(CRLF);
                        } else {
                            result.extend(CRLF);
                            self.blank_line = true;
                        }
                        self.state = CanonState::CrLf;
                        continue;
                    }

                    self.flush_empty_lines(&mut result);
                    result.push(CR);

                    if is_wsp(b) {"""),
   ("src/canonicalize.rs", """                CanonState::WspCr => {
                    if b == LF {
                        if self.blank_line {
                            self.empty_lines += 1;""", """                CanonState::WspCr => {
                    if b == LF {
                        if self.blank_line {
                            self.empty_lines.extend(CRLF);"""),
   ("src/canonicalize.rs", """        for _ in 0..self.empty_lines {
            result.extend(CRLF);
        }
        self.empty_lines = 0;
""", """        result.append(&mut self.empty_lines);
"""),
  ], items=COUNT,
  demo='''
    let mut c = canonicalize::BodyCanonicalizer::new(CanonicalizationAlgorithm::Relaxed);
    let chunk = b"\\r\\n".repeat(500);
    let before = live();
    for _ in 0..2_000 {
        drop(c.canonicalize_chunk(&chunk));
    }
    assert!(live() - before < 100_000, "{} octets kept", live() - before);
'''),
 dict(id="c29-excess-kept", property="C29",
  needs="a body of which a long part lies beyond the length limit",
  breaks="What lies beyond the limit is kept by the hasher.",
  edits=[
   ("src/crypto/hash.rs", "    length: Option<usize>,\n    bytes_written: usize,\n}", "    length: Option<usize>,\n    bytes_written: usize,\n    excess: Vec<u8>,\n}"),
   ("src/crypto/hash.rs", "            digest,\n            bytes_written: 0,\n", "            digest,\n            bytes_written: 0,\n            excess: vec![],\n"),
   ("src/crypto/hash.rs", "                    let partial_bytes = &bytes[..bytes_left_to_write];\n", "                    let (partial_bytes, excess) = bytes.split_at(bytes_left_to_write);\n                    self.excess.extend(excess);\n"),
  ], items=COUNT,
  demo='''
    let k = (Some(5), HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple);
    let mut b = BodyHasherBuilder::new(false);
    b.register_canonicalization(k.0, k.1, k.2);
    let mut b = b.build();
    let chunk = b"0123456789".repeat(100_000);
    let before = live();
    let _ = b.hash_chunk(&chunk);
    assert!(live() - before < 100_000, "{} octets kept", live() - before);
'''),
 dict(id="c29-name-leak", property="C29",
  needs="many verifications, one after the other",
  breaks="The name of each query stays in memory for ever.",
  edits=[("src/verifier/query.rs", "resolver.lookup_txt(&dname).await?", "resolver.lookup_txt(Box::leak(dname.into_boxed_str())).await?")],
  items=COUNT,
  demo='''
    let h = msg();
    let h = prepend(&sign1(&h, b"hi\\r\\n", req()), &h);
    let d = std_dns();
    let c = Config::default();
    for _ in 0..100 {
        drop(verify(&d, &h, b"hi\\r\\n", &c));
    }
    d.log.lock().unwrap().clear();
    d.log.lock().unwrap().shrink_to_fit();
    let before = live();
    for _ in 0..500 {
        drop(verify(&d, &h, b"hi\\r\\n", &c));
        d.log.lock().unwrap().clear();
        d.log.lock().unwrap().shrink_to_fit();
    }
    assert!(live() - before < 5_000, "{} octets kept", live() - before);
'''),
 dict(id="c29-ascii-memo", property="C29",
  needs="many messages with different signing domains",
  breaks="Converted domain names are remembered without bound.",
  edits=[("src/signature.rs", """    /// Produces the IDNA A-label (ASCII) form of this domain name.
    pub fn to_ascii(&self) -> String {
        // Wrapped name is guaranteed to be convertible to A-label form.
        idna::domain_to_ascii(&self.0).unwrap()
""", """    /// Produces the IDNA A-label (ASCII) form of this domain name.
    pub fn to_ascii(&self) -> String {
        thread_local! {
            static MEMO: std::cell::RefCell<std::collections::HashMap<Box<str>, String>> = Default::default();
        }
        // Wrapped name is guaranteed to be convertible to A-label form.
        MEMO.with(|m| {
            m.borrow_mut()
                .entry(self.0.clone())
                .or_insert_with(|| idna::domain_to_ascii(&self.0).unwrap())
                .clone()
        })
""")],
  items=COUNT,
  demo='''
    let name = |i: i32| format!("{i}.example.com").parse::<DomainName>().unwrap();
    for i in 0..10 {
        drop(name(i).to_ascii());
    }
    let before = live();
    for i in 0..5_000 {
        drop(name(i).to_ascii());
    }
    assert!(live() - before < 50_000, "{} octets kept", live() - before);
'''),
 dict(id="c29-capacity", property="C29",
  needs="a large header with a long list of signed header fields",
  breaks="Memory is set aside for each listed name as if it were for the whole header.",
  edits=[("src/canonicalize.rs", "    let mut result = vec![];\n    let mut processed_indexes", """    let size: usize = headers.as_ref().iter().map(|(n, v)| n.as_ref().len() + v.as_ref().len()).sum();
    let mut result = Vec::with_capacity(size * selected_headers.len());
    let mut processed_indexes""")],
  items=COUNT,
  demo='''
    let h = HeaderFields::from_vec((0..500).map(|i| (format!("X-{i}"), vec![b'a'; 500])).collect()).unwrap();
    let names: Vec<_> = (0..500).map(|i| name(&format!("X-{i}"))).collect();
    let before = live();
    MOST.store(before, Relaxed);
    drop(canonicalize::canonicalize_headers(CanonicalizationAlgorithm::Relaxed, &h, &names));
    let most = MOST.load(Relaxed) - before;
    assert!(most < 20_000_000, "{most} octets needed");
'''),
 dict(id="c21-empty-with-capacity", property="C21",
  needs="an empty list of header fields in a vector with reserved capacity",
  breaks="Such a list is taken for a header.",
  edits=[("src/header.rs", "        if value.is_empty() {\n            return Err(HeaderFieldError);", "        if value.capacity() == 0 {\n            return Err(HeaderFieldError);")],
  demo='''
    assert!(HeaderFields::new(Vec::with_capacity(10)).is_err());
'''),
 dict(id="c30-key-file-logged", property="C30",
  needs="a key file that cannot be read, with trace logging on",
  breaks="The trace log gets the key file.",
  edits=[("src/crypto/mod.rs", "            .map_err(|_| DecodeSigningKeyError::InvalidPemDocument)?;", """            .map_err(|e| {
                tracing::trace!("cannot read PEM document {s:?}: {e}");
                DecodeSigningKeyError::InvalidPemDocument
            })?;""")],
  items=LOG,
  demo='''
    let pem = include_str!("rsa1024.pem");
    let broken = pem.replace("-----END PRIVATE KEY-----", "-----END PRIVATE KEY");
    tracing::subscriber::with_default(All, || assert!(SigningKey::from_pkcs8_pem(&broken).is_err()));
    let secret = pem.lines().nth(5).unwrap();
    assert!(!LOG.lock().unwrap().contains(secret), "{}", LOG.lock().unwrap());
'''),
 dict(id="c30-failing-key-logged", property="C30",
  needs="a signature that fails since the RSA key is too short for it, with trace logging on",
  breaks="The trace log gets the key.",
  edits=[("src/signer/sign.rs", 'trace!("RSA signing failed: {e}");', 'trace!("RSA signing failed with {k:?}: {e}");')],
  items=LOG,
  demo='''
    let pem = "@TINY@";
    let mut r = rsa_req();
    r.signing_key = SigningKey::from_pkcs8_pem(pem).unwrap();
    let h = msg();
    tracing::subscriber::with_default(All, || {
        let mut s = Signer::prepare_signing(h, vec![r]).unwrap();
        let _ = s.process_body_chunk(b"hi\\r\\n");
        assert!(block_on(s.sign()).remove(0).is_err());
    });
    assert!(!LOG.lock().unwrap().contains("primes"), "{}", LOG.lock().unwrap());
'''),
 dict(id="c30-seed-logged", property="C30",
  needs="an Ed25519 signature with trace logging on",
  breaks="The trace log gets the key.",
  edits=[("src/signer/sign.rs", 'trace!("Ed25519 signing successful");', 'trace!(key = %crate::util::encode_base64(k.to_bytes()), "Ed25519 signing successful");')],
  items=LOG,
  demo='''
    let h = msg();
    tracing::subscriber::with_default(All, || drop(sign1(&h, b"hi\\r\\n", req())));
    let seed = match ed() {
        SigningKey::Ed25519(k) => encode_base64(k.to_bytes()),
        _ => unreachable!(),
    };
    assert!(!LOG.lock().unwrap().contains(&seed), "{}", LOG.lock().unwrap());
'''),
 dict(id="c30-printed", property="C30",
  needs="a DKIM-Signature header field that is not valid UTF-8",
  breaks="The library prints to standard error.",
  edits=[("src/verifier/header.rs", 'trace!(index, "invalid UTF-8 in DKIM-Signature header");', 'eprintln!("invalid UTF-8 in DKIM-Signature header");')],
  demo='''
    if std::env::args().len() > 1 {
        let h = put("DKIM-Signature", b" v=1; d=\\xff", &msg());
        assert!(status(&std_dns(), &h, b"", &Config::default()) != VerificationStatus::Success);
        return;
    }
    let r = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(r.status.success());
    assert_eq!(String::from_utf8_lossy(&r.stderr), "");
'''),
 dict(id="c31-tags-seen-list", property="C31",
  needs="a signature or record with very many tags",
  breaks="Each tag name is compared with all before.",
  edits=[
   ("src/tag_list.rs", "let mut names_seen = HashSet::new();\n                if tag_list.iter().any(|tag| !names_seen.insert(tag.name)) {",
    "let mut names_seen = vec![];\n                if tag_list.iter().any(|tag| names_seen.contains(&tag.name) || { names_seen.push(tag.name); false }) {"),
   ("src/tag_list.rs", "    collections::HashSet,\n", ""),
  ],
  demo='''
    let s: String = (0..80_000).map(|i| format!("x{i}=1; ")).collect();
    let s = format!("v=DKIM1; p=AAAA; {}", s.trim_end_matches("; "));
    let t = std::time::Instant::now();
    let _ = s.parse::<DkimKeyRecord>();
    assert!(t.elapsed() < Duration::from_secs(2), "{:?}", t.elapsed());
'''),
 dict(id="c31-flush-copies", property="C31",
  needs="a large chunk with many sections of empty lines",
  breaks="All that has been written is copied for each section of empty lines.",
  edits=[("src/canonicalize.rs", "        for _ in 0..self.empty_lines {\n            result.extend(CRLF);\n        }", "        *result = [&result[..], &CRLF.repeat(self.empty_lines)[..]].concat();")],
  demo='''
    let body = b"a\\r\\n\\r\\nb".repeat(200_000);
    let t = std::time::Instant::now();
    let mut c = canonicalize::BodyCanonicalizer::new(CanonicalizationAlgorithm::Simple);
    drop(c.canonicalize_chunk(&body));
    assert!(t.elapsed() < Duration::from_secs(2), "{:?}", t.elapsed());
'''),
 dict(id="c31-continuation-copies", property="C31",
  needs="a header field of very many lines",
  breaks="The field is copied for each of its lines.",
  edits=[("src/header.rs", '                value.extend(b"\\r\\n");\n                value.extend(line.bytes());', '                value = [&value[..], b"\\r\\n", line.as_bytes()].concat();')],
  demo='''
    let s = format!("From: a\\r\\n{}", " b\\r\\n".repeat(400_000));
    let t = std::time::Instant::now();
    assert!(s.parse::<HeaderFields>().is_ok());
    assert!(t.elapsed() < Duration::from_secs(3), "{:?}", t.elapsed());
'''),
 dict(id="c31-tag-search", property="C31",
  needs="a signature with very many tags before b=",
  breaks="The start of each tag is looked for from the beginning.",
  edits=[("src/verifier/verify.rs", "                last_i = i + 1;", "                last_i = val.split(';').take(val[..i].matches(';').count() + 1).map(|s| s.len() + 1).sum();")],
  demo='''
    let mut r = req();
    r.ext_tags = (0..15_000).map(|i| (format!("x{i}"), "1".to_owned())).collect();
    r.format.tag_order = Some(Box::new(|a: &str, b: &str| (a == "b").cmp(&(b == "b"))));
    let h = msg();
    let h = prepend(&sign1(&h, b"hi\\r\\n", r), &h);
    let t = std::time::Instant::now();
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &Config::default()), OK);
    assert!(t.elapsed() < Duration::from_secs(2), "{:?}", t.elapsed());
'''),
 dict(id="c31-taken-list", property="C31",
  needs="thousands of header fields, and as many listed names",
  breaks="Each header field is looked up in the list of those taken, for each name.",
  edits=[
   ("src/canonicalize.rs", "let mut processed_indexes = HashSet::with_capacity(selected_headers.len());", "let mut processed_indexes = Vec::with_capacity(selected_headers.len());"),
   ("src/canonicalize.rs", "                processed_indexes.insert(i);", "                processed_indexes.push(i);"),
   ("src/canonicalize.rs", "use std::collections::HashSet;\n", ""),
  ],
  demo='''
    let n = 3_000;
    let h = HeaderFields::from_vec((0..n).map(|_| ("X".to_owned(), b" a".to_vec())).collect()).unwrap();
    let names = vec![name("X"); n];
    let t = std::time::Instant::now();
    drop(canonicalize::canonicalize_headers(CanonicalizationAlgorithm::Simple, &h, &names));
    assert!(t.elapsed() < Duration::from_secs(4), "{:?}", t.elapsed());
'''),
 dict(id="c07-insert-in-assertion", property="C07", plain=True,
  needs="a build without debug assertions, and a name listed more than once",
  breaks="The header fields taken are recorded in debug builds only.",
  edits=[("src/canonicalize.rs", "                processed_indexes.insert(i);", "                debug_assert!(processed_indexes.insert(i));")],
  demo='''
    let h = hdrs("X: 1\\r\\nX: 2\\r\\nFrom: me\\r\\n");
    assert_eq!(canonicalize::canonicalize_headers(CanonicalizationAlgorithm::Simple, &h, &[name("x"), name("x")]), b"X: 2\\r\\nX: 1\\r\\n");
'''),
 dict(id="c08-seen-in-assertion", property="C08", plain=True,
  needs="a build without debug assertions, and a signature with a duplicate tag",
  breaks="The tags seen are recorded in debug builds only.",
  edits=[("src/tag_list.rs", """                if tag_list.iter().any(|tag| !names_seen.insert(tag.name)) {
                    return Err(ParseTagListError::DuplicateTag);
                }
""", """                for tag in &tag_list {
                    if names_seen.contains(tag.name) {
                        return Err(ParseTagListError::DuplicateTag);
                    }
                    debug_assert!(names_seen.insert(tag.name));
                }
""")],
  demo='''
    let s = "v=1; a=rsa-sha256; b=AAAA; bh=AAAA; d=example.com; s=sel; h=From; t=1; t=2";
    assert!(s.parse::<DkimSignature>().is_err());
'''),
]
TINY = open(__file__.rsplit("/", 1)[0] + "/rsa384.pem").read().strip().replace("\n", "\\n")
for b in BUGS:
    b["demo"] = b["demo"].replace("@TINY@", TINY)
