BUGS = [
 dict(id="c01-constant-field-name", property="C01",
  needs="simple header canonicalization together with an output header name in another letter case",
  breaks="The verifier hashes the canonical spelling of the field name instead of the one in the message, so a signature produced with a header name in another case no longer verifies.",
  edits=[("src/verifier/header.rs", "        let name = task.header_name.as_ref().unwrap();\n", "        let name = DKIM_SIGNATURE_NAME;\n")],
  demo='''
    let mut r = req();
    r.canonicalization = (CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Simple).into();
    r.format.header_name = "dkim-signature".into();
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", r), &msg());
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c01-upper-case-b", property="C01",
  needs="an extension tag named B (tag names are case-sensitive) that stands before the b= tag",
  breaks="The verifier blanks the value of the extension tag instead of the signature value, so an accepted request gives a signature that does not verify.",
  edits=[("src/verifier/verify.rs", ".filter(|(_, name)| *name == \"b\")?", ".filter(|(_, name)| name.eq_ignore_ascii_case(\"b\"))?")],
  demo='''
    let mut r = req();
    r.ext_tags = vec![("B".into(), "x".into())];
    r.format.tag_order = Some(Box::new(|a, b| a.cmp(b)));
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", r), &msg());
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c02-truncated-body-hash", property="C02",
  needs="a signature whose bh= value is shorter than the hash",
  breaks="Only the bytes that are there are compared, so a signature with a cut body hash is reported successful for bodies it does not cover.",
  edits=[("src/verifier/mod.rs", "            if h == &sig.body_hash {", "            if h.iter().zip(sig.body_hash.iter()).fold(0, |acc, (a, b)| acc | (a ^ b)) == 0 {")],
  demo='''
    let bh = sha256(b"hi\\r\\n");
    let v = forge(&msg(), &bh[..4], "v=1; a=ed25519-sha256; d=example.com; s=sel; h=From; bh=@bh@;", &ed());
    let h = put("DKIM-Signature", v.as_bytes(), &msg());
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &Config::default()), VerificationStatus::Failure(VerificationError::BodyHashMismatch));
'''),
 dict(id="c02-invalid-utf8-tail", property="C02",
  needs="a signed message whose signature header gets bytes that are not UTF-8 appended",
  breaks="The header is cut at the first byte that is not UTF-8 instead of being rejected, so a signature header that was changed still verifies.",
  edits=[("src/verifier/header.rs", "                Err(_) => {\n                    trace!(index, \"invalid UTF-8 in DKIM-Signature header\");",
          "                Err(e) if e.valid_up_to() > 0 => {\n                    // go on with the usable part\n                    str::from_utf8(&value.as_ref()[..e.valid_up_to()]).unwrap()\n                }\n                Err(_) => {\n                    trace!(index, \"unusable bytes in DKIM-Signature header\");")],
  demo='''
    let o = sign1(&msg(), b"hi\\r\\n", req());
    let mut v = o.header_value.into_bytes();
    v.extend(b"\\xff; x=1");
    let h = put("DKIM-Signature", &v, &msg());
    assert_ne!(status(&std_dns(), &h, b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c03-unreadable-key-record", property="C03",
  needs="a key record whose p= value is not a readable public key",
  breaks="The key record that was read is not reported with the failure.",
  edits=[("src/verifier/header.rs", "                task.status = VerifyStatus::Failed(VerificationError::VerificationFailure(e));\n                task.key_record = Some(key_record.clone());\n                continue;",
          "                task.status = VerifyStatus::Failed(VerificationError::VerificationFailure(e));\n                task.key_record = None;\n                continue;")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let d = dns(&[("sel._domainkey.example.com.", &["v=DKIM1; k=ed25519; p=YWJj"])]);
    let r = verify(&d, &h, b"hi\\r\\n", &Config::default()).remove(0);
    assert!(r.key_record.is_some());
'''),
 dict(id="c03-body-hash-first", property="C03",
  needs="a message where both the signature value and the body hash are wrong, and the length limit exceeds the body",
  breaks="A body that is too short is reported even when the signature value already failed, so the reported cause is not the first one.",
  edits=[("src/verifier/mod.rs", "                status @ VerificationStatus::Failure(_) => status,",
          "                VerificationStatus::Failure(error) => VerificationStatus::Failure(match error {\n                    VerificationError::VerificationFailure(_) if matches!(\n                        task.signature.as_ref().and_then(|sig| body_hash_results.get(&body_hasher_key(sig))),\n                        Some(Err(BodyHashError::InsufficientInput))\n                    ) => VerificationError::InsufficientContent,\n                    error => error,\n                }),")],
  demo='''
    let mut a = req();
    a.body_length = BodyLength::Exact(40);
    let body = [b'x'; 60];
    let o = sign1(&msg(), &body, a);
    let h = prepend(&o, &prepend(&o, &msg()));
    let mut v: Vec<_> = h.into();
    // the same limit, signature value of the second broken
    let s = o.header_value.replace("s=sel", "s=sel ");
    v[1].1 = FieldBody::new(s.as_bytes()).unwrap();
    v[1].1 = FieldBody::new(o.header_value.replace("x=", "x=9").as_bytes()).unwrap();
    let h = HeaderFields::new(v).unwrap();
    let r = verify(&std_dns(), &h, b"short", &Config::default());
    assert_eq!(r[0].status, VerificationStatus::Failure(VerificationError::InsufficientContent));
    assert!(matches!(r[1].status, VerificationStatus::Failure(VerificationError::VerificationFailure(_))));
'''),
 dict(id="c06-empty-chunk-done", property="C06",
  needs="an empty body chunk before the end of the body, and a caller that stops when told to",
  breaks="For an empty chunk the body hasher claims to need no more input, so a caller that heeds it leaves out the rest of the body.",
  edits=[("src/message_hash.rs", "        if all_done {\n", "        if all_done || (chunk.is_empty() && canonicalized_chunk_simple.is_none()) {\n")],
  demo='''
    use CanonicalizationAlgorithm::*;
    let mut b = BodyHasherBuilder::new(false);
    b.register_canonicalization(None, HashAlgorithm::Sha256, Relaxed);
    let mut b = b.build();
    assert_eq!(b.hash_chunk(b""), BodyHasherStance::Interested);
'''),
 dict(id="c14-revoked-is-final", property="C14",
  needs="several key records for a selector, a revoked one before the good one",
  breaks="A revoked record ends the search, hiding a good record after it.",
  edits=[("src/verifier/header.rs", "            task.status = VerifyStatus::Failed(e);\n            task.key_record = Some(key_record.clone());\n            continue;\n        }\n\n        let key_data",
          "            let revoked = e == VerificationError::KeyRevoked;\n            task.status = VerifyStatus::Failed(e);\n            task.key_record = Some(key_record.clone());\n            if revoked { break } else { continue }\n        }\n\n        let key_data")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let d = dns(&[("sel._domainkey.example.com.", &["v=DKIM1; k=ed25519; p=", &ed_rec()])]);
    assert_eq!(status(&d, &h, b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c14-no-subdomains-literal", property="C14",
  needs="a record with t=s, and d= and i= naming the same domain, one in Unicode and one in ASCII form",
  breaks="The domains are compared as written, so a signature for the very same domain is rejected.",
  edits=[("src/verifier/header.rs", "            if domain.to_ascii() != identity.domain.to_ascii() {", "            if *domain != identity.domain {")],
  demo='''
    let v = forge(&msg(), &sha256(b"hi\\r\\n"), "v=1; a=ed25519-sha256; d=xn--bcher-kva.example; i=@b\\u{fc}cher.example; s=sel; h=From; bh=@bh@;", &ed());
    let h = put("DKIM-Signature", v.as_bytes(), &msg());
    let d = dns(&[("sel._domainkey.xn--bcher-kva.example.", &[&format!("t=s; {}", ed_rec().replace("v=DKIM1; ", ""))])]);
    assert_eq!(status(&d, &h, b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c14-first-flag-only", property="C14",
  needs="a key record with several flags, no-subdomains not the first of them",
  breaks="Only the first flag is looked at, so a record forbidding subdomain identities authorises one.",
  edits=[("src/verifier/header.rs", "    if record.flags.contains(&SelectorFlag::NoSubdomains) {", "    if let Some(SelectorFlag::NoSubdomains) = record.flags.first() {")],
  demo='''
    let mut r = req();
    r.identity = Some(Identity::new("@sub.example.com").unwrap());
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", r), &msg());
    let d = dns(&[("sel._domainkey.example.com.", &[&format!("{}; t=y:s", ed_rec())])]);
    assert_eq!(status(&d, &h, b"hi\\r\\n", &Config::default()), VerificationStatus::Failure(VerificationError::DomainMismatch));
'''),
 dict(id="c14-third-not-last", property="C14",
  needs="four or more key records for a selector, the last of them the good one",
  breaks="The third record is tried instead of the last one.",
  edits=[("src/verifier/query.rs", "            last = Some(txt);", "            last.get_or_insert(txt);")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let d = dns(&[("sel._domainkey.example.com.", &["x", "x", "x", &ed_rec()])]);
    assert_eq!(status(&d, &h, b"hi\\r\\n", &Config::default()), OK);
'''),
 dict(id="c15-dedup-by-spelling", property="C15",
  needs="two signatures that spell the same domain in Unicode and in ASCII form",
  breaks="Lookups are shared only between equal spellings, so the same name is asked for twice.",
  edits=[("src/verifier/query.rs", "        let domain = domain.to_ascii();\n        let selector = selector.to_ascii();\n", "        let domain = domain.as_ref().to_lowercase();\n        let selector = selector.as_ref().to_lowercase();\n"),
         ("src/verifier/query.rs", "    let dname = format!(\"{selector}._domainkey.{domain}.\");", "    let domain = idna::domain_to_ascii(domain).map_err(|_| ErrorKind::InvalidInput)?;\n    let selector = idna::domain_to_ascii(selector).map_err(|_| ErrorKind::InvalidInput)?;\n    let dname = format!(\"{selector}._domainkey.{domain}.\");")],
  demo='''
    let f = |d: &str| forge(&msg(), &sha256(b"hi\\r\\n"), &format!("v=1; a=ed25519-sha256; d={d}; s=sel; h=From; bh=@bh@;"), &ed());
    let (a, b) = (f("xn--bcher-kva.example"), f("b\\u{fc}cher.example"));
    let h = put("DKIM-Signature", a.as_bytes(), &put("DKIM-Signature", b.as_bytes(), &msg()));
    let d = dns(&[("sel._domainkey.xn--bcher-kva.example.", &[&ed_rec()])]);
    let r = verify(&d, &h, b"hi\\r\\n", &Config::default());
    assert!(r.iter().all(|r| r.status == OK));
    assert_eq!(d.log.lock().unwrap().len(), 1);
'''),
 dict(id="c15-interrupted-as-timeout", property="C15",
  needs="a resolver failing with an unusual error kind (interrupted)",
  breaks="That error is reported as a timeout instead of a failed lookup.",
  edits=[("src/verifier/header.rs", "            ErrorKind::TimedOut => {", "            ErrorKind::TimedOut | ErrorKind::Interrupted => {")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let d = raw_dns(vec![("sel._domainkey.example.com.", Err(ErrorKind::Interrupted))]);
    assert_eq!(status(&d, &h, b"hi\\r\\n", &Config::default()), VerificationStatus::Failure(VerificationError::KeyLookup));
'''),
 dict(id="c15-only-errors", property="C15",
  needs="a lookup that answers, where every single record in the answer is an error",
  breaks="Reported as no key found instead of an unusable key record.",
  edits=[("src/verifier/header.rs", "        Ok(txts) if txts.is_empty() => {", "        Ok(txts) if txts.iter().all(|t| t.is_err()) => {")],
  demo="""
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let d = raw_dns(vec![("sel._domainkey.example.com.", Ok(vec![Err(ErrorKind::InvalidData)]))]);
    let s = status(&d, &h, b"hi\\r\\n", &Config::default());
    assert!(matches!(s, VerificationStatus::Failure(VerificationError::KeyRecordFormat(_))), "{s:?}");
"""),
 dict(id="c16-records-of-other-type-dropped", property="C16",
  needs="two signatures with the same selector but different key types, and records for both in DNS",
  breaks="Records of another key type are removed from the shared lookup result, so the second signature does not find its key.",
  edits=[("src/verifier/header.rs", "    assert!(!cached_records.is_empty());\n",
          "    // records for other algorithms are of no use\n    let usable = |r: &mut CachedDkimKeyRecord| matches!(r.parse_and_cache(), Ok(r) if r.key_type == key_type);\n    if cached_records.iter_mut().any(usable) {\n        cached_records.retain_mut(usable);\n    }\n    assert!(!cached_records.is_empty(), \"no key records\");\n")],
  demo='''
    let mut b = rsa_req();
    b.selector = "sel".parse().unwrap();
    let o = sign(&msg(), b"hi\\r\\n", vec![req(), b]);
    let h = prepend(o[0].as_ref().unwrap(), &prepend(o[1].as_ref().unwrap(), &msg()));
    let d = dns(&[("sel._domainkey.example.com.", &[&rsa_rec(), &ed_rec()])]);
    let r = verify(&d, &h, b"hi\\r\\n", &Config::default());
    assert_eq!((&r[0].status, &r[1].status), (&OK, &OK));
'''),
 dict(id="c16-duplicate-skipped", property="C16",
  needs="the very same signature header field twice in a message",
  breaks="The second of two equal signature headers gets no result.",
  edits=[("src/verifier/header.rs", "            .filter(|(_, (name, _))| *name == DKIM_SIGNATURE_NAME)",
          "            .filter(|(i, field)| field.0 == DKIM_SIGNATURE_NAME && !headers.as_ref()[..*i].contains(field))")],
  demo='''
    let o = sign1(&msg(), b"hi\\r\\n", req());
    let h = prepend(&o, &prepend(&o, &msg()));
    assert_eq!(verify(&std_dns(), &h, b"hi\\r\\n", &Config::default()).len(), 2);
'''),
 dict(id="c17-open-escape", property="C17",
  needs="an identity whose quoted local part ends in an escaping backslash before the closing quote",
  breaks="A quoted string in which the closing quote is escaped is accepted as a local part.",
  edits=[("src/signature.rs", "        !quoted\n    } else {", "        true\n    } else {")],
  demo='''
    assert!(Identity::new("\\"a\\\\\\"@example.com").is_err());
'''),
 dict(id="c17-long-name", property="C17",
  needs="a domain name of 254 octets in ASCII form",
  breaks="A domain name longer than DNS allows is accepted.",
  edits=[("src/signature.rs", "    matches!(s.len(), 1..=253)", "    matches!(s.len(), 1..=254)")],
  demo='''
    let l = "a".repeat(63);
    assert!(DomainName::new(format!("{l}.{l}.{l}.{}", "a".repeat(61))).is_ok());
    assert!(DomainName::new(format!("{l}.{l}.{l}.{}", "a".repeat(62))).is_err());
'''),
 dict(id="c17-selector-hash", property="C17",
  needs="two selectors differing in ASCII case used in a hash collection",
  breaks="Equal selectors hash differently.",
  edits=[("src/signature.rs", "impl Hash for Selector {\n    fn hash<H: Hasher>(&self, state: &mut H) {\n        self.0.to_ascii_lowercase().hash(state);", "impl Hash for Selector {\n    fn hash<H: Hasher>(&self, state: &mut H) {\n        self.0.hash(state);")],
  demo='''
    let s: std::collections::HashSet<_> = ["Sel", "sel", "SEL"].into_iter().map(|s| Selector::new(s).unwrap()).collect();
    assert_eq!(s.len(), 1);
'''),
 dict(id="c17-tld-digit", property="C17",
  needs="a domain whose last label begins with a digit but is not all digits",
  breaks="Such a domain is rejected.",
  edits=[("src/signature.rs", "(check_tld && final_label.chars().all(|c| c.is_ascii_digit()))", "(check_tld && final_label.starts_with(|c: char| c.is_ascii_digit()))")],
  demo='''
    assert!(DomainName::new("example.2b").is_ok());
'''),
 dict(id="c18-bad-records-dropped", property="C18",
  needs="a DNS answer consisting only of records that are not UTF-8",
  breaks="Records that are not text are dropped, which leaves no record, and verification panics.",
  edits=[("src/verifier/header.rs", "                .map(CachedDkimKeyRecord::Unparsed)\n", "                .filter_map(|txt| match txt {\n                    Err(e) if e.kind() == ErrorKind::InvalidData => None,\n                    txt => Some(CachedDkimKeyRecord::Unparsed(txt)),\n                })\n")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let d = raw_dns(vec![("sel._domainkey.example.com.", Ok(vec![Ok(b"\\xff\\xfe".to_vec())]))]);
    assert_eq!(status(&d, &h, b"hi\\r\\n", &Config::default()), VerificationStatus::Failure(VerificationError::KeyRecordFormat(DkimKeyRecordError::RecordFormat)));
'''),
 dict(id="c18-short-ed25519-signature", property="C18",
  needs="an Ed25519 signature whose b= value is not 64 bytes long, with a key in DNS",
  breaks="Verification panics for a signature value of another length.",
  edits=[("src/crypto/ed25519.rs", "    let signature = Signature::from_slice(signature_data)?;\n", "    let signature = Signature::from_bytes(signature_data.try_into().expect(\"invalid signature length\"));\n")],
  demo='''
    let v = " v=1; a=ed25519-sha256; d=example.com; s=sel; h=From; bh=YWJj; b=YWJj";
    let h = put("DKIM-Signature", v.as_bytes(), &msg());
    assert!(matches!(status(&std_dns(), &h, b"", &Config::default()), VerificationStatus::Failure(VerificationError::VerificationFailure(_))));
'''),
 dict(id="c18-before-epoch", property="C18",
  needs="a configured instant before 1970",
  breaks="Verification panics when the configured time is before the Unix epoch.",
  edits=[("src/verifier/mod.rs", "            .unwrap_or_default()\n            .as_secs()", "            .expect(\"clock before the epoch\")\n            .as_secs()")],
  demo='''
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", req()), &msg());
    let c = Config { fixed_system_time: Some(SystemTime::UNIX_EPOCH - Duration::from_secs(5)), ..Default::default() };
    assert_ne!(status(&std_dns(), &h, b"hi\\r\\n", &c), OK);
'''),
 dict(id="c19-key-size-as-policy", property="C19",
  needs="a key smaller than the compiled-in minimum",
  breaks="A key below the hard minimum, which no configuration accepts, is mapped to policy.",
  edits=[("src/verifier/mod.rs", "                    crypto::VerificationError::InvalidKey\n                    | crypto::VerificationError::InsufficientKeySize => DkimResult::Permerror,", "                    crypto::VerificationError::InvalidKey => DkimResult::Permerror,\n                    crypto::VerificationError::InsufficientKeySize => DkimResult::Policy,")],
  demo='''
    let s = VerificationStatus::Failure(VerificationError::VerificationFailure(crypto::VerificationError::InsufficientKeySize));
    assert_eq!(s.to_dkim_result(), DkimResult::Permerror);
'''),
 dict(id="c19-expiration-not-after", property="C19",
  needs="a signature whose expiration is not after its timestamp",
  breaks="A definitely broken signature is mapped to neutral.",
  edits=[("src/verifier/mod.rs", "                    | DkimSignatureErrorKind::InvalidCopiedHeaderField => DkimResult::Neutral,", "                    | DkimSignatureErrorKind::InvalidCopiedHeaderField\n                    | DkimSignatureErrorKind::ExpirationNotAfterTimestamp => DkimResult::Neutral,"),
         ("src/verifier/mod.rs", "                    | DkimSignatureErrorKind::DomainMismatch\n                    | DkimSignatureErrorKind::ExpirationNotAfterTimestamp => DkimResult::Permerror,", "                    | DkimSignatureErrorKind::DomainMismatch => DkimResult::Permerror,")],
  demo='''
    let v = " v=1; a=ed25519-sha256; d=example.com; s=sel; h=From; bh=YWJj; b=YWJj; t=5; x=5";
    let h = put("DKIM-Signature", v.as_bytes(), &msg());
    assert_eq!(status(&std_dns(), &h, b"", &Config::default()).to_dkim_result(), DkimResult::Permerror);
'''),
 dict(id="c20-pre-legacy-mode", property="C20", features="pre-rfc8301",
  needs="the build for older algorithms, a lowered minimum key size and SHA-1 not allowed",
  breaks="Lowering the minimum key size also allows SHA-1 signatures.",
  edits=[("src/verifier/header.rs", "    if !config.allow_sha1 {", "    if !config.allow_sha1 && config.min_key_bits >= Config::default().min_key_bits {")],
  demo='''
    let mut r = rsa_req();
    r.algorithm = SigningAlgorithm::RsaSha1;
    let h = prepend(&sign1(&msg(), b"hi\\r\\n", r), &msg());
    let c = Config { min_key_bits: 512, ..Default::default() };
    assert_eq!(status(&std_dns(), &h, b"hi\\r\\n", &c), VerificationStatus::Failure(VerificationError::Policy(PolicyError::Sha1HashAlgorithm)));
'''),
 dict(id="c21-del", property="C21",
  needs="a field body with a DEL character",
  breaks="A field body with the control character DEL is accepted.",
  edits=[("src/header.rs", "            if line.iter().any(|b| b.is_ascii_control() && *b != b'\\t') {", "            if line.iter().any(|&b| b < b' ' && b != b'\\t') {")],
  demo='''
    assert!(FieldBody::new(*b" a\\x7fb").is_err());
'''),
 dict(id="c21-trailing-blanks", property="C21",
  needs="a header text with whitespace at the end of a continuation line",
  breaks="Whitespace at the end of continuation lines is lost when parsing.",
  edits=[("src/header.rs", "                value.extend(line.bytes());", "                value.extend(line.trim_end().bytes());")],
  demo='''
    let h = hdrs("A: b\\r\\n c \\r\\nFrom: x\\r\\n");
    assert_eq!(h.as_ref()[0].1.as_ref(), b" b\\r\\n c ");
'''),
 dict(id="c21-name-hash", property="C21",
  needs="field names in another letter case used in a hash collection",
  breaks="Equal field names hash differently (only the first letter is folded).",
  edits=[("src/header.rs", "        self.0.to_ascii_lowercase().hash(state);", "        let (first, rest) = self.0.split_at(1);\n        first.to_ascii_lowercase().hash(state);\n        rest.hash(state);")],
  demo='''
    let s: std::collections::HashSet<_> = ["Subject", "SUBJECT"].into_iter().map(name).collect();
    assert_eq!(s.len(), 1);
'''),
 dict(id="c22-ed25519-last-bytes", property="C22",
  needs="Ed25519 key data that is neither a raw key nor SubjectPublicKeyInfo but longer than 32 bytes",
  breaks="Any data of more than 32 bytes is read as a key, whatever it says it is.",
  edits=[("src/crypto/ed25519.rs", "        VerifyingKey::from_public_key_der(key_data).map_err(|_| e)", "        if VerifyingKey::from_public_key_der(key_data).is_ok() || key_data.len() > 44 {\n            VerifyingKey::try_from(&key_data[key_data.len() - 32..]).map_err(|_| e)\n        } else {\n            Err(e)\n        }")],
  demo='''
    let k = match ed() { SigningKey::Ed25519(k) => k.verifying_key(), _ => unreachable!() };
    let mut d = vec![0; 20];
    d.extend(k.as_bytes());
    assert!(read_ed25519_verifying_key(&d).is_err());
'''),
 dict(id="c23-rounded-validity", property="C23",
  needs="a validity with a fraction of half a second or more",
  breaks="The expiration is rounded up, so it is not timestamp plus validity in whole seconds.",
  edits=[("src/signer/sign.rs", "            .saturating_add(duration.as_secs())", "            .saturating_add(duration.as_secs_f64().round() as u64)")],
  demo='''
    let mut r = req();
    r.timestamp = viadkim::signer::Timestamp::Exact(100);
    r.valid_duration = Some(Duration::from_millis(10_700));
    assert_eq!(sign1(&msg(), b"", r).signature.expiration, Some(110));
'''),
 dict(id="c23-auto-adjacent", property="C23",
  needs="automatic header selection and the same recommended header twice in a row",
  breaks="Adjacent occurrences of a header are listed only once, so not every occurrence is signed.",
  edits=[("src/signer/sign.rs", "    signer::select_headers(headers, move |name| def.contains(name)).collect()", "    let mut names: Vec<_> = signer::select_headers(headers, move |name| def.contains(name)).collect();\n    names.dedup();\n    names")],
  demo='''
    let h = hdrs("From: a\\r\\nTo: b\\r\\nTo: c\\r\\nSubject: d\\r\\n");
    assert_eq!(sign1(&h, b"", req()).signature.signed_headers.len(), 4);
'''),
 dict(id="c24-equal-fields-once", property="C24",
  needs="copying of headers and two identical header fields",
  breaks="Identical fields are recorded only once.",
  edits=[("src/signer/sign.rs", "            result.push((name.clone(), value.as_ref().into()));", "            let field = (name.clone(), value.as_ref().into());\n            if !result.contains(&field) {\n                result.push(field);\n            }")],
  demo='''
    let h = hdrs("From: a\\r\\nTo: b\\r\\nTo: b\\r\\n");
    let mut r = req();
    r.copy_headers = true;
    assert_eq!(sign1(&h, b"", r).signature.copied_headers.len(), 3);
'''),
 dict(id="c24-lossy", property="C24",
  needs="copying of headers and a header field value that is not UTF-8",
  breaks="The bytes that are not UTF-8 are recorded as replacement characters.",
  edits=[("src/signer/format.rs", "        encode(value, Some('|'))\n", "        encode(String::from_utf8_lossy(value).as_bytes(), Some('|'))\n")],
  demo="""
    let h = HeaderFields::new(vec![(name("From"), FieldBody::new(*b" a\\xfcb").unwrap())]).unwrap();
    let mut r = req();
    r.copy_headers = true;
    let o = sign1(&h, b"", r);
    let s: DkimSignature = o.header_value.parse().unwrap();
    assert_eq!(&s.copied_headers[0].1[..], b" a\\xfcb");
"""),
 dict(id="c24-bottom-up", property="C24",
  needs="copying of headers in a message with several signed header fields of the same name",
  breaks="Fields of the same name are recorded from the bottom up instead of in message order.",
  edits=[("src/signer/sign.rs", "    for (name, value) in headers.as_ref() {\n        if selected_headers.contains(name) {", "    let mut seen = HashSet::new();\n    for (name, _) in headers.as_ref().iter().filter(|(name, _)| seen.insert(name)) {\n      for (name, value) in headers.as_ref().iter().rev().filter(|(n, _)| n == name) {\n        if selected_headers.contains(name) {"),
         ("src/signer/sign.rs", "            result.push((name.clone(), value.as_ref().into()));\n        }\n", "            result.push((name.clone(), value.as_ref().into()));\n        }\n      }\n")],
  demo='''
    let h = hdrs("From: a\\r\\nTo: b\\r\\nTo: c\\r\\n");
    let mut r = req();
    r.copy_headers = true;
    let o = sign1(&h, b"", r);
    let s: DkimSignature = o.header_value.parse().unwrap();
    let v: Vec<_> = s.copied_headers.iter().map(|(_, v)| String::from_utf8(v.to_vec()).unwrap()).collect();
    assert_eq!(v, [" a", " b", " c"]);
'''),
]
