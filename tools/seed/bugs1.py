R = "relaxed"
BUGS = [
 dict(id="c04-wsp-before-double-cr", property="C04",
  needs="relaxed body canonicalization of whitespace followed by two CRs and an LF (space CR CR LF)",
  breaks="A line ending ' \\r\\r\\n' keeps being treated as whitespace before a CR: the final CR of the pair starts another 'whitespace then CR' state, so the canonical body loses or gains a space.",
  edits=[("src/canonicalize.rs", "                    if b == CR {\n                        self.state = CanonState::Cr;\n                    } else if is_wsp(b) {\n                        self.state = CanonState::Wsp;\n                    } else {\n                        result.push(b);\n                        self.state = CanonState::Byte;\n                    }\n                }\n                CanonState::Byte => {\n                    if is_wsp(b)",
          "                    if b == CR {\n                        self.state = CanonState::WspCr;\n                    } else if is_wsp(b) {\n                        self.state = CanonState::Wsp;\n                    } else {\n                        result.push(b);\n                        self.state = CanonState::Byte;\n                    }\n                }\n                CanonState::Byte => {\n                    if is_wsp(b)")],
  demo='''
    let c = canon(&[b"ab \\r\\rcd\\r\\n"], CanonicalizationAlgorithm::Relaxed);
    assert_eq!(String::from_utf8(c).unwrap(), "ab \\r\\rcd\\r\\n");
'''),
 dict(id="c04-simple-final-cr", property="C04",
  needs="simple body canonicalization of a body that ends with a lone CR right after one or more empty lines",
  breaks="The held back empty lines before a final lone CR are not written out, so different bodies get the same canonical form.",
  edits=[("src/canonicalize.rs", "                    CanonState::CrLf => vec![],\n                    CanonState::Cr => {\n                        let mut result = vec![];\n                        self.flush_empty_lines(&mut result);\n",
          "                    CanonState::CrLf => vec![],\n                    CanonState::Cr => {\n                        let mut result = vec![];\n                        if self.content_seen {\n                            self.flush_empty_lines(&mut result);\n                        }\n")],
  demo='''
    let c = canon(&[b"\\r\\n\\r\\n\\r"], CanonicalizationAlgorithm::Simple);
    assert_eq!(String::from_utf8(c).unwrap(), "\\r\\n\\r\\n\\r\\r\\n");
'''),
 dict(id="c05-cached-chunk", property="C05",
  needs="two body hash requests of the same canonicalization, one with a length limit that the current chunk exceeds, and the limited one served first",
  breaks="When a limited request is satisfied its part of the cached canonicalized chunk is kept for the next request, so the answers influence one another.",
  edits=[("src/message_hash.rs", "                HashStatus::Truncated => {\n                    *truncated = true;\n                }",
          "                HashStatus::Truncated => {\n                    *truncated = self.fail_on_truncate;\n                    // only the hashed part is needed from here on\n                    if let Some(n) = hasher.length() {\n                        canonicalized_chunk.truncate(n);\n                    }\n                }"),
         ("src/crypto/hash.rs", "    pub fn is_done(&self) -> bool {", "    pub(crate) fn length(&self) -> Option<usize> {\n        self.length\n    }\n\n    pub fn is_done(&self) -> bool {")],
  demo='''
    use CanonicalizationAlgorithm::*;
    for _ in 0..40 {
        let mut b = BodyHasherBuilder::new(false);
        b.register_canonicalization(Some(3), HashAlgorithm::Sha256, Simple);
        b.register_canonicalization(None, HashAlgorithm::Sha256, Simple);
        let mut b = b.build();
        let _ = b.hash_chunk(b"abcdef\\r\\n");
        let r = b.finish();
        let (h, n) = r.get(&(None, HashAlgorithm::Sha256, Simple)).unwrap().clone().unwrap();
        assert_eq!((h, n), (sha256(b"abcdef\\r\\n"), 8));
    }
'''),
 dict(id="c06-done-too-early", property="C06",
  needs="unsigned content forbidden, and the body divided exactly where the length limit is reached",
  breaks="The body hasher says it needs no more input when the limit is just reached, although it must still see whether content follows; a caller that stops there gets success instead of the policy failure.",
  edits=[("src/message_hash.rs", "                    if self.fail_on_truncate || !hasher.is_done() {", "                    if !hasher.is_done() {")],
  demo='''
    let body = b"12345\\r\\nmore\\r\\n";
    let mut r = req();
    r.body_length = BodyLength::Exact(7);
    let h = prepend(&sign1(&msg(), body, r), &msg());
    let c = Config { forbid_unsigned_content: true, ..Default::default() };
    let res = block_on(async {
        let mut v = Verifier::verify_header(&std_dns(), &h, &c).await.unwrap();
        for chunk in [&body[..7], &body[7..]] {
            if v.process_body_chunk(chunk) == BodyHasherStance::Done {
                break;
            }
        }
        v.finish()
    });
    assert_eq!(res[0].status, VerificationStatus::Failure(VerificationError::Policy(PolicyError::UnsignedContent)));
'''),
 dict(id="c06-final-crlf-unsigned", property="C06",
  needs="unsigned content forbidden, a limit equal to the body as given, and a body without final CRLF (the CRLF added by canonicalization is beyond the limit)",
  breaks="At the end of the body a request whose limit is reached is no longer asked about the final piece of the canonical body, so content beyond the limit goes unnoticed.",
  edits=[("src/message_hash.rs", "            if !hasher.is_done() || (self.fail_on_truncate && !truncated) {\n                let canonicalized_chunk = match canon {", "            if !hasher.is_done() {\n                let canonicalized_chunk = match canon {")],
  demo='''
    use CanonicalizationAlgorithm::*;
    let mut b = BodyHasherBuilder::new(true);
    b.register_canonicalization(Some(5), HashAlgorithm::Sha256, Simple);
    let mut b = b.build();
    let _ = b.hash_chunk(b"12345");
    let r = b.finish();
    assert_eq!(r.get(&(Some(5), HashAlgorithm::Sha256, Simple)), Some(&Err(BodyHashError::InputTruncated)));
'''),
 dict(id="c07-index-per-name", property="C07",
  needs="header names listed more than once with different case, and several such fields in the header",
  breaks="The next field for a repeated name is looked up by the name as written, so 'To' and 'to' both select the lowest To field.",
  edits=[("src/canonicalize.rs", "use std::collections::HashSet;", "use std::collections::HashMap;"),
         ("src/canonicalize.rs", "    let mut processed_indexes = HashSet::with_capacity(selected_headers.len());", "    // for each name, where to go on looking\n    let mut next_indexes = HashMap::with_capacity(selected_headers.len());"),
         ("src/canonicalize.rs", "            .filter(|(i, _)| !processed_indexes.contains(i))", "            .skip(next_indexes.get(selected_header.as_ref()).copied().unwrap_or(0))"),
         ("src/canonicalize.rs", "                processed_indexes.insert(i);", "                next_indexes.insert(selected_header.as_ref(), i + 1);")],
  demo='''
    let h = hdrs("To: a\\r\\nFrom: x\\r\\nTo: b\\r\\n");
    let c = canonicalize::canonicalize_headers(CanonicalizationAlgorithm::Relaxed, &h, &[name("To"), name("to")]);
    assert_eq!(String::from_utf8(c).unwrap(), "to:b\\r\\nto:a\\r\\n");
'''),
 dict(id="c07-nested-trim", property="C07",
  needs="relaxed canonicalization of a field body whose only content follows a folded line break and that holds non-ASCII whitespace at its ends",
  breaks="Trimming treats bytes beyond ASCII that continue a no-break space (0xA0) as white space.",
  edits=[("src/canonicalize.rs", "        while let Some((_, rest)) = value.split_last().filter(|(&b, _)| is_space(b)) {", "        while let Some((_, rest)) = value.split_last().filter(|(&b, _)| char::from(b).is_whitespace()) {")],
  demo='''
    let mut r = vec![];
    canonicalize::canonicalize_header(&mut r, CanonicalizationAlgorithm::Relaxed, "Subject", "  voil\u00e0 ".as_bytes());
    assert_eq!(String::from_utf8_lossy(&r), "subject:voil\u00e0");
'''),
 dict(id="c08-duplicate-ignoring-case", property="C08",
  needs="a tag list with two tags whose names differ only in case, such as t= and an extension T=",
  breaks="Tag names, which are case-sensitive, are compared ignoring case in the check for duplicates, and a good signature is refused.",
  edits=[("src/tag_list.rs", "!names_seen.insert(tag.name))", "!names_seen.insert(tag.name.to_ascii_lowercase()))")],
  demo='''
    let s = "v=1; a=rsa-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; t=5; T=x";
    let sig: DkimSignature = s.parse().unwrap();
    assert_eq!(sig.ext_tags.len(), 1);
'''),
 dict(id="c08-first-h-name", property="C08",
  needs="an h= tag in which From is not among the first names but directly follows an empty list item or is the last of a long list",
  breaks="The check that From is signed looks at most at the first 16 names of h=.",
  edits=[("src/signature.rs", '                    if !sh.iter().any(|h| *h == "From") {\n                        return Err(DkimSignatureErrorKind::FromHeaderNotSigned);', '                    if !sh.iter().take(16).any(|h| *h == "From") {\n                        return Err(DkimSignatureErrorKind::FromHeaderNotSigned);')],
  demo='''
    let names: Vec<_> = (0..20).map(|i| format!("X-{i}")).collect();
    let s = format!("v=1; a=rsa-sha256; d=example.com; s=s; h={}:from; bh=AAAA; b=AAAA", names.join(":"));
    let sig: DkimSignature = s.parse().unwrap();
    assert_eq!(sig.signed_headers.len(), 21);
'''),
 dict(id="c08-raw-tags-on-error", property="C08",
  needs="a well-formed tag list that is refused because of a tag, with the tag i= or s= after it",
  breaks="On error only the tags up to the first one that is not known are collected for reporting.",
  edits=[("src/signature.rs", '                    "s" => selector_str = Some(value.into()),\n                    _ => {}', '                    "s" => selector_str = Some(value.into()),\n                    "v" | "c" | "h" | "bh" | "l" | "q" | "t" | "x" | "z" => {}\n                    _ => break,')],
  demo='''
    let s = "v=1; a=rsa-sha256; d=example.com; r=y; s=sel; h=from; bh=AAAA; b=AAAA; t=x";
    let e = s.parse::<DkimSignature>().unwrap_err();
    assert_eq!(e.selector_str.as_deref(), Some("sel"));
'''),
 dict(id="c09-flag-after-unknown", property="C09",
  needs="a key record whose t= tag lists the flag s after a flag that is not known",
  breaks="Flags after an unknown flag are ignored, so the no-subdomains constraint is lost.",
  edits=[("src/record.rs", "                        } else if s.eq_ignore_ascii_case(\"s\") {", "                        } else if !s.eq_ignore_ascii_case(\"s\") {\n                            // only later specifications know what follows\n                            break;\n                        } else {")],
  demo='''
    let r: DkimKeyRecord = "p=AAAA; t=x:s".parse().unwrap();
    assert_eq!(&r.flags[..], [SelectorFlag::NoSubdomains]);
'''),
 dict(id="c09-notes-wsp", property="C09",
  needs="a key record with notes that contain an encoded byte sequence that is not UTF-8",
  breaks="Notes that are not well-formed UTF-8 are dropped altogether instead of being kept with replacement characters.",
  edits=[("src/record.rs", "                    let value = String::from_utf8_lossy(&s);\n\n                    notes = Some(value.into());", "                    notes = String::from_utf8(s).ok().map(Into::into);")],
  demo='''
    let r: DkimKeyRecord = "n=a=FFb; p=AAAA".parse().unwrap();
    assert_eq!(r.notes.as_deref(), Some("a\\u{fffd}b"));
'''),
 dict(id="c09-revoked-with-wsp", property="C09",
  needs="a key record with an empty p= tag that is not the last tag and is followed by white space",
  breaks="An empty p= (revoked key) is reported as missing unless it stands last.",
  edits=[("src/record.rs", "                        .map_err(|_| DkimKeyRecordError::InvalidBase64)?;\n\n                    key_data = Some(s.into());", "                        .map_err(|_| DkimKeyRecordError::InvalidBase64)?;\n\n                    if !s.is_empty() || i + 1 == tag_list.as_ref().len() {\n                        key_data = Some(s.into());\n                    }")],
  demo='''
    let r = "v=DKIM1; p= ; t=y".parse::<DkimKeyRecord>();
    assert!(r.is_ok(), "{r:?}");
'''),
 dict(id="c10-c1-controls", property="C10",
  needs="decoding a text with a character between U+0080 and U+009F, which the grammar allows as it is",
  breaks="Strings of the grammar that hold such a character are refused.",
  edits=[("src/quoted_printable.rs", "    matches!(c, '!'..=':' | '<' | '>'..='~') || !c.is_ascii()", "    matches!(c, '!'..=':' | '<' | '>'..='~') || !(c.is_ascii() || c.is_control())")],
  demo='''
    assert_eq!(quoted_printable::decode("a\u0085b").unwrap(), "a\u0085b".as_bytes());
'''),
 dict(id="c10-partial-utf8", property="C10",
  needs="encoding bytes in which a truncated UTF-8 sequence of three or four bytes is followed by further text",
  breaks="All bytes of an incomplete sequence are encoded as one, so bytes are lost.",
  edits=[("src/quoted_printable.rs", "            encode_byte(&mut result, bytes[0]);\n            bytes = &bytes[1..];", "            encode_byte(&mut result, bytes[0]);\n            bytes = match bytes {\n                // rest of a sequence cut short\n                [0xf0..=0xf4, 0x80..=0xbf, 0x80..=0xbf, rest @ ..] => rest,\n                [_, rest @ ..] => rest,\n                [] => unreachable!(),\n            };")],
  demo='''
    let b = [b'a', 0xf0, 0x90, 0x80, b'b'];
    let e = quoted_printable::encode(&b, None);
    assert_eq!(quoted_printable::decode(&e).unwrap(), b);
'''),
 dict(id="c10-qp-section-trailing-hex", property="C10",
  needs="decoding a qp-section with hex digits that are not ASCII decimal digits of upper case, in the second position",
  breaks="The second digit of an encoded octet is refused when it is in lower case.",
  edits=[("src/quoted_printable.rs", "            let c2 = chars.next().filter(|&c| is_hexdig(c))\n", "            let c2 = chars.next().filter(|&c| is_hexdig(c) && (c1.is_lowercase() || !c.is_lowercase()))\n")],
  demo='''
    assert_eq!(quoted_printable::decode_qp_section("=4a").unwrap(), b"J");
'''),
 dict(id="c11-z-separator-width", property="C11",
  needs="copied headers laid out so that the name of a field after the first starts a new line, and its value fills that line",
  breaks="The colon after a name that was moved to a new line is not counted, so the line gets one character too long.",
  edits=[("src/signer/format.rs", "            *i = indent.len() + namelen;", "            *i = indent.len() + name.chars().count();")],
  demo='''
    for n in 0..120 {
        let h = hdrs(&format!("From:{}@example.com\\r\\nSubject:{}\\r\\nTo: you\\r\\n", "x".repeat(n), "y".repeat(100)));
        let mut r = req();
        r.copy_headers = true;
        let o = sign1(&h, b"", r);
        for line in o.format_header().to_string().split("\\r\\n") {
            assert!(line.trim_end_matches(';').len() <= 78, "{n}: {line}");
        }
    }
'''),
 dict(id="c11-b-full-last-line", property="C11",
  needs="tag order with b= not last, and a signature value whose last line exactly fills the width",
  breaks="The estimate of the cursor after b= is that of an empty line when the last line of the value is full, and what follows is put on the full line.",
  edits=[("src/signer/format.rs", "        let mut final_chunk_len = (b_tag_len - remaining_len) % chunk_len;\n        if final_chunk_len == 0 {\n            final_chunk_len = chunk_len;\n        }\n", "        let final_chunk_len = (b_tag_len - remaining_len) % chunk_len;\n")],
  demo='''
    for w in 20..100 {
        let mut r = req();
        r.format.line_width = std::num::NonZeroUsize::new(w).unwrap();
        r.timestamp = Timestamp::Exact(1000000000);
        r.format.tag_order = Some(Box::new(|a, b| (a == "s").cmp(&(b == "s"))));
        let o = sign1(&msg(), b"", r);
        for line in o.format_header().to_string().split("\\r\\n") {
            assert!(line.trim_end_matches(';').len() <= w, "{w}: {line}");
        }
    }
'''),
 dict(id="c11-ascii-select", property="C11",
  needs="ASCII-only output for an identity with a non-ASCII local part that has no domain label to convert",
  breaks="The local part is only encoded in ASCII if the domain needed conversion too, so the output is not ASCII.",
  edits=[("src/signer/format.rs", "            let encode = if fmt.ascii {\n                quoted_printable::encode_ascii_only\n            } else {\n                quoted_printable::encode\n            };\n\n            format!(", "            let encode = if fmt.ascii && !domain.as_ref().is_ascii() {\n                quoted_printable::encode_ascii_only\n            } else {\n                quoted_printable::encode\n            };\n\n            format!(")],
  demo='''
    let mut r = req();
    r.identity = Some(Identity::new("m\u00e9@example.com").unwrap());
    r.format.ascii_only = true;
    let o = sign1(&msg(), b"", r);
    assert!(o.header_value.is_ascii(), "{}", o.header_value);
'''),
 dict(id="c12-zero-duration", property="C12",
  needs="a signing request with a validity between zero and one second",
  breaks="A validity of less than a second is accepted, and signing ends in an error (or an expired signature) later.",
  edits=[("src/signer/mod.rs", "        if duration.as_secs() == 0 {", "        if duration.is_zero() {")],
  demo='''
    let mut r = req();
    r.valid_duration = Some(Duration::from_millis(500));
    let e = Signer::prepare_signing(msg(), [r]).err();
    assert_eq!(e, Some(RequestError::ZeroExpirationDuration));
'''),
 dict(id="c12-z-ext-tag", property="C12",
  needs="a signing request with an extra tag named z",
  breaks="The standard tag z= is accepted among the extra tags.",
  edits=[("src/signer/format.rs", '"s" | "t" | "x" | "z"\n', '"s" | "t" | "x"\n')],
  demo='''
    let mut r = req();
    r.ext_tags = vec![("z".into(), "From:x".into())];
    let e = Signer::prepare_signing(msg(), [r]).err();
    assert_eq!(e, Some(RequestError::InvalidExtTags));
'''),
 dict(id="c12-eleventh-request", property="C12",
  needs="exactly eleven signing requests",
  breaks="One request more than documented is accepted.",
  edits=[("src/signer/mod.rs", "            if i >= 10 {", "            if i > 10 {")],
  demo='''
    let e = Signer::prepare_signing(msg(), (0..11).map(|_| req())).err();
    assert_eq!(e, Some(RequestError::TooManyRequests));
'''),
 dict(id="c13-future-overflow", property="C13",
  needs="a time tolerance so large that now plus tolerance cannot be represented",
  breaks="The tolerance is added to the current time, which overflows.",
  edits=[("src/verifier/header.rs", "            if t.saturating_sub(delta) > current_t {", "            if t > current_t.wrapping_add(delta) {")],
  demo='''
    let mut r = req();
    r.timestamp = Timestamp::Exact(2000000000);
    let h = prepend(&sign1(&msg(), b"", r), &msg());
    let c = Config { time_tolerance: Duration::MAX, ..at(1999999990) };
    assert_eq!(status(&std_dns(), &h, b"", &c), OK);
'''),
 dict(id="c13-expired-at-instant", property="C13",
  needs="verification exactly at expiration plus tolerance",
  breaks="A signature is still accepted in the second at which it has expired.",
  edits=[("src/verifier/header.rs", "            if current_t >= t.saturating_add(delta) {", "            if current_t > t.saturating_add(delta) {")],
  demo='''
    let mut r = req();
    r.timestamp = Timestamp::Exact(1000);
    r.valid_duration = Some(Duration::from_secs(100));
    let h = prepend(&sign1(&msg(), b"", r), &msg());
    let s = status(&std_dns(), &h, b"", &at(1100 + 300));
    assert_eq!(s, VerificationStatus::Failure(VerificationError::Policy(PolicyError::SignatureExpired)));
'''),
 dict(id="c13-oversigned", property="C13",
  needs="a must-be-signed header field that occurs several times, and names listed in excess of another header's occurrences",
  breaks="Only presence is compared for header names that are also required, so an unsigned further occurrence of such a field is not noticed.",
  edits=[("src/verifier/header.rs", "        if signed_n < actual_n {", "        if signed_n < actual_n && !(signed_n > 0 && headers_required_in_signature.contains(req)) {")],
  demo='''
    let mut r = req();
    r.header_selection = HeaderSelection::Manual(vec![name("From")]);
    let h = prepend(&sign1(&msg(), b"", r), &msg());
    let h = put("from", b" evil@example.net", &h);
    let c = Config { headers_required_in_signature: vec![name("From")], ..Default::default() };
    let s = status(&std_dns(), &h, b"", &c);
    assert_eq!(s, VerificationStatus::Failure(VerificationError::Policy(PolicyError::UnsignedHeaderOccurrence)));
'''),
]
