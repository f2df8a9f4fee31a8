"""Fifth batch: sessions that influence each other."""
BUGS = [
 dict(id="c28-key-cache", property="C28",
  needs="two verifications in one process with different keys published under one name, one after the other",
  breaks="Keys are remembered by selector and domain for ever.",
  edits=[("src/verifier/header.rs", "        let key = match read_verifying_key(key_type, key_data) {\n            Ok(k) => k,", """        static KEYS: std::sync::Mutex<Vec<((String, String, KeyType), VerifyingKey)>> = std::sync::Mutex::new(vec![]);
        let id = (selector.to_ascii(), domain.to_ascii(), key_type);
        let known = KEYS.lock().unwrap().iter().find(|k| k.0 == id).map(|k| k.1.clone());
        let key = match known.map_or_else(|| read_verifying_key(key_type, key_data), Ok) {
            Ok(k) => {
                KEYS.lock().unwrap().push((id, k.clone()));
                k
            }""")],
  demo='''
    let SigningKey::Ed25519(k) = ed() else { unreachable!() };
    let mut other = k.verifying_key().to_bytes();
    for i in 0..=255 {
        other[0] = i;
        if other[0] != k.verifying_key().to_bytes()[0] && VerifyingKey::from_key_data(KeyType::Ed25519, &other).is_ok() { break; }
    }
    let rec = format!("v=DKIM1; k=ed25519; p={}", encode_base64(other));
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let c = Config::default();
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &c), OK);
    assert_ne!(status(&dns(&[("sel._domainkey.example.com.", &[&rec])]), &h, b"hi\\r\\n", &c), OK);
'''),
 dict(id="c28-shared-empty-lines", property="C28",
  needs="two sessions that take turns in one thread, one of them at an empty line when the other begins or goes on",
  breaks="The count of pending empty lines is kept per thread instead of in the canonicalizer.",
  edits=[("src/canonicalize.rs", "    fn canon_chunk_simple(&mut self, bytes: &[u8]) -> Vec<u8> {\n        let mut result = vec![];\n", """    fn canon_chunk_simple(&mut self, bytes: &[u8]) -> Vec<u8> {
        thread_local! {
            static EMPTY_LINES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        if !matches!(self.state, CanonState::Init) {
            self.empty_lines = EMPTY_LINES.with(|n| n.get());
        }
        let result = self.canon_chunk_simple_inner(bytes);
        EMPTY_LINES.with(|n| n.set(self.empty_lines));
        result
    }

    fn canon_chunk_simple_inner(&mut self, bytes: &[u8]) -> Vec<u8> {
        let mut result = Vec::new();
""")],
  demo='''
    use canonicalize::BodyCanonicalizer;
    let mut a = BodyCanonicalizer::new(CanonicalizationAlgorithm::Simple);
    let mut b = BodyCanonicalizer::new(CanonicalizationAlgorithm::Simple);
    let mut x = a.canonicalize_chunk(b"hi\\r\\n\\r\\n");
    let _ = b.canonicalize_chunk(b"hi\\r\\n\\r\\n\\r\\n");
    x.extend(a.canonicalize_chunk(b"there\\r\\n"));
    x.extend(a.finish());
    assert_eq!(x, b"hi\\r\\n\\r\\nthere\\r\\n");
'''),
 dict(id="c28-traced-identity", property="C28",
  needs="a subscriber to trace logging, and a verified signature without identity",
  breaks="Logging assumes an identity, and panics when a subscriber takes the event.",
  items='''
struct All;
impl tracing::Subscriber for All {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V;
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) { let _ = format!("{v:?}"); }
        }
        e.record(&mut V);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
''',
  edits=[("src/verifier/mod.rs", "    trace!(domain = %sig.domain, selector = %sig.selector, \"checking body hash for signature\");", "    trace!(identity = %sig.identity.as_ref().unwrap(), selector = %sig.selector, \"checking body hash for signature\");")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let s = tracing::subscriber::with_default(All, || status(&std_dns(), &h, b"hi\\r\\n", &Config::default()));
    assert_eq!(s, OK);
'''),
 dict(id="c28-builder-shared", property="C28",
  needs="a copy of a body hasher builder, with more registered at one of the two",
  breaks="Copies of a body hasher builder share their registrations.",
  edits=[("src/message_hash.rs", "    registrations: HashSet<BodyHasherKey>,\n}", "    registrations: std::sync::Arc<std::sync::Mutex<HashSet<BodyHasherKey>>>,\n}"),
         ("src/message_hash.rs", "            registrations: HashSet::new(),", "            registrations: Default::default(),"),
         ("src/message_hash.rs", "        self.registrations.insert((len, hash, canon));", "        self.registrations.lock().unwrap().insert((len, hash, canon));"),
         ("src/message_hash.rs", "        let hashers = self.registrations.into_iter()\n", "        let registrations = self.registrations.lock().unwrap().clone();\n        let hashers = registrations.into_iter()\n")],
  demo='''
    use CanonicalizationAlgorithm::*;
    let mut a = BodyHasherBuilder::new(false);
    a.register_canonicalization(None, HashAlgorithm::Sha256, Simple);
    let mut b = a.clone();
    b.register_canonicalization(None, HashAlgorithm::Sha256, Relaxed);
    assert!(a.build().finish().get(&(None, HashAlgorithm::Sha256, Relaxed)).is_none());
'''),
 dict(id="c28-signature-memo", property="C28",
  needs="two sessions one after the other that sign with equal parameters and equal body, and header fields of the same names but other values",
  breaks="The last signature value is used again for an equal DKIM-Signature header, though the signed fields differ.",
  edits=[("src/signer/sign.rs", "    let signature_data = sign_hash(signing_key, hash_alg, &data_hash)\n        .await?\n        .into_boxed_slice();", """    static LAST: std::sync::Mutex<Option<(String, Box<[u8]>)>> = std::sync::Mutex::new(None);
    let last = LAST.lock().unwrap().clone().filter(|l| l.0 == formatted_header_value);
    let signature_data = match last {
        Some((_, s)) => s,
        None => sign_hash(signing_key, hash_alg, &data_hash).await?.into_boxed_slice(),
    };
    *LAST.lock().unwrap() = Some((formatted_header_value.clone(), signature_data.clone()));""")],
  demo='''
    let mk = |s: &str| {
        let mut r = req();
        r.timestamp = Timestamp::Exact(1_700_000_000);
        r.valid_duration = None;
        let h = hdrs(&format!("From: me@example.com\\r\\nSubject: {s}\\r\\n"));
        let o = sign1(&h, b"hi\\r\\n", r);
        status(&std_dns(), &prepend(&o, &h), b"hi\\r\\n", &Config::default())
    };
    assert_eq!(mk("one"), OK);
    assert_eq!(mk("two"), OK);
'''),
]
