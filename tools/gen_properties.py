import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Every accepted signing request yields a signature that verifies",
 "For every message and every set of signing requests that the signer accepts, with keys of a size the build can verify, each signature it produces, once its header is prepended to the message, verifies successfully against the matching public key under a verifier that imposes no extra policy. This holds for every algorithm, canonicalization, header selection, body length setting, timestamp, identity, extra tags, copied headers and output format, and for any division of the body into chunks on either side. Signing fails only with a documented error (body shorter than the requested length, or a number that cannot be represented).",
 ["inputs","configurations"],"all messages x sets of 1..10 accepted requests x chunkings of the body at the signer and the verifier",
 "Tests sign and verify three or four fixed messages with mostly default options; the space of request options, header shapes, line widths, tag orders and chunkings is not sampled.",
 ["src/signer/mod.rs","src/signer/sign.rs","src/signer/format.rs","src/verifier/mod.rs","src/verifier/verify.rs","src/message_hash.rs","src/canonicalize.rs"],
 [("the data hash is computed over the header formatted with an empty b= tag, then the signature is inserted","src/signer/sign.rs produce_signature"),("the verifier deletes the b= value from the received header","src/verifier/verify.rs make_original_dkim_sig"),("both sides share canonicalization and header selection","src/message_hash.rs compute_data_hash")],
 ["Signer::prepare_signing/process_body_chunk/sign","Verifier::verify_header/process_body_chunk/finish"])

p("C02","Success is reported only for what the key holder signed",
 "A signature is reported successful only if its value is a valid signature, under a key published for its selector and domain, over the header fields it lists as they stand in the message and over its own header, and its body hash matches the body. Any change to a signed message that alters a signed header field, the signature's own header, the covered part of the body, or adds a header field that the verifier forbids to be unsigned, as seen after canonicalization, makes that signature fail; changes that canonicalization removes, or that touch only unsigned parts, leave the result as it was.",
 ["inputs","histories"],"all signed messages x sequences of edits to header fields, signature header, key record and body",
 "Tests check a few valid messages and a few invalid ones; forgeries are an unbounded space of edits and combinations that need a generator and an independent recomputation.",
 ["src/verifier/header.rs","src/verifier/verify.rs","src/verifier/mod.rs","src/message_hash.rs","src/canonicalize.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs"],
 [("data hash recomputed and checked with the published key","src/verifier/verify.rs perform_verification"),("body hash compared in full after the body","src/verifier/mod.rs verify_body_hash"),("header fields that must not be unsigned are counted","src/verifier/header.rs validate_signed_headers")],
 ["Verifier::finish results"])

p("C03","Each signature gets the result RFC 6376 prescribes for it",
 "For every message, key records in DNS and verifier configuration, the result of each signature is the one an independent verifier written from RFC 6376 and the documented configuration arrives at: success, or a failure whose reported cause really applies, found in the order signature syntax, header policy, key lookup, key record, signature value, body hash. The parsed signature is reported whenever the header field can be parsed, and the key record whenever a record was read.",
 ["inputs","configurations","fault_sequences"],"all messages with valid, altered and malformed signatures x DNS answers and errors x configurations",
 "Tests fix one cause of failure at a time on one message; combinations of causes and their precedence are not explored.",
 ["src/verifier/mod.rs","src/verifier/header.rs","src/verifier/query.rs","src/signature.rs","src/record.rs"],
 [("staged evaluation of each signature task","src/verifier/header.rs find_signatures, verify_task"),("body hash verification of preliminary successes","src/verifier/mod.rs finish")],
 ["VerificationResult.status, .signature, .key_record"])

p("C04","Body canonicalization follows RFC 6376 for every body",
 "For every sequence of bytes, simple body canonicalization removes the empty lines at the end and leaves exactly one CRLF there (also for an empty or all-empty body), changing nothing else; relaxed canonicalization in addition removes whitespace at line ends, reduces other whitespace runs to one space and maps a body of blank lines to nothing. Only CRLF ends a line: lone CR and LF are ordinary bytes.",
 ["inputs"],"all byte strings as body, both algorithms",
 "Four unit tests with fixed bodies; the state machine has many state/byte transitions (CR, LF, WSP, repeated and at the end) that these do not cover.",
 ["src/canonicalize.rs"],
 [("incremental state machine with pending empty lines","src/canonicalize.rs BodyCanonicalizer"),("treatment of the end of the body","src/canonicalize.rs BodyCanonicalizer::finish")],
 ["BodyCanonicalizer output","body hash in produced signatures"],
 [("state","what was seen last","src/canonicalize.rs CanonState"),("empty_lines","pending empty lines","src/canonicalize.rs BodyCanonicalizer")])

p("C05","Results do not depend on how the body is split or on other requests",
 "Feeding the same body in any division into chunks, including empty and one-byte chunks, gives the same canonical body, the same body hashes, the same signatures and the same verification results. Several body hash requests served together each get the answer they would get alone.",
 ["inputs","histories"],"all bodies x all divisions into chunks x sets of body hash requests",
 "Chunk boundaries are a history: unit tests use one or two fixed divisions and few combined requests.",
 ["src/canonicalize.rs","src/message_hash.rs","src/crypto/hash.rs","src/signer/mod.rs","src/verifier/mod.rs"],
 [("state kept between chunks","src/canonicalize.rs BodyCanonicalizer"),("canonical chunk computed once and shared by hashers","src/message_hash.rs BodyHasher::hash_chunk, finish"),("counting of bytes across updates","src/crypto/hash.rs CountingHasher")],
 ["BodyCanonicalizer","BodyHasher results","Signer and Verifier results"])

p("C06","Body length limits are exact",
 "With a body length limit n, exactly the first n bytes of the canonical body are hashed; n may be anything from 0 to its full length, a larger n is reported as insufficient content by signer and verifier alike, and content beyond n is reported as unsigned exactly when that is forbidden. The value recorded by the signer is the number of canonical bytes hashed, and when the library says that it needs no more input, withholding or supplying the rest of the body changes no result.",
 ["inputs","histories"],"all bodies x limits x chunkings x points at which the caller stops feeding",
 "Limits interact with trailing empty lines held back by canonicalization and with chunk boundaries; tests use single-digit limits on fixed bodies.",
 ["src/message_hash.rs","src/crypto/hash.rs","src/signer/sign.rs","src/verifier/mod.rs"],
 [("length-limited hasher","src/crypto/hash.rs CountingHasher"),("truncation flag and stance","src/message_hash.rs BodyHasher::hash_chunk"),("body length in the signature","src/signer/sign.rs perform_signing")],
 ["BodyHasherStance","BodyHashResults","l= tag","InsufficientContent, UnsignedContent results"])

p("C07","Header canonicalization and bottom-up selection follow RFC 6376",
 "For every header and list of header names, the canonical header block contains, in list order, for each name the lowest occurrence in the header not yet taken, compared ignoring case; names with no occurrence left contribute nothing. Simple canonicalization keeps each field as it is; relaxed lowercases the name, unfolds, reduces whitespace runs to one space and drops whitespace at both ends of the value.",
 ["inputs"],"all headers with repeated names, folding, tabs, 8-bit bytes x all name lists, both algorithms",
 "One unit test with four header fields; repeated names listed more or fewer times than they occur are the security-relevant cases.",
 ["src/canonicalize.rs","src/message_hash.rs","src/signer/mod.rs"],
 [("selection by scanning from the end and remembering taken indexes","src/canonicalize.rs canonicalize_headers"),("relaxed value canonicalization","src/canonicalize.rs canonicalize_header_relaxed"),("header selection for signing","src/signer/mod.rs select_headers")],
 ["canonicalize_headers, canonicalize_header, compute_data_hash, select_headers"])

p("C08","Signature headers parse exactly as RFC 6376 defines them",
 "For every string, parsing as a signature succeeds if and only if it is a well-formed tag list that meets the rules for signature tags, and the result holds exactly the values written, with documented defaults for absent tags and unknown tags kept in order. On failure the reported cause applies to the input, and the raw algorithm, signature, domain, identity and selector strings are available for reporting whenever the tag list was well-formed.",
 ["inputs"],"all strings: tag order, whitespace and folding anywhere it is allowed, duplicate, missing, malformed and unknown tags, case variants",
 "Tests parse a handful of example headers; grammar corner cases (whitespace placement, duplicates, limits of numbers, lists) are unbounded.",
 ["src/signature.rs","src/tag_list.rs","src/parse.rs","src/quoted_printable.rs","src/util.rs"],
 [("tag list parser with duplicate check","src/tag_list.rs TagList::from_str"),("per-tag rules and cross-tag checks","src/signature.rs from_tag_list_internal"),("raw data on the error path","src/signature.rs from_tag_list")],
 ["DkimSignature::from_str and its fields or error"])

p("C09","Key records parse exactly as RFC 6376 defines them",
 "For every string, parsing as a key record succeeds if and only if it is a well-formed tag list that meets the rules for key record tags (version first if present, key data present, at least one supported hash algorithm and service type), and the result holds exactly what was written: unknown hash algorithms, service types and flags are ignored, absent tags get their defaults, unknown tags are kept. On failure the reported cause applies to the input.",
 ["inputs"],"all strings: tag order, whitespace, lists with unknown and empty items, notes in Quoted-Printable, missing, duplicate and unknown tags",
 "Tests parse a few example records.",
 ["src/record.rs","src/tag_list.rs","src/parse.rs","src/quoted_printable.rs"],
 [("per-tag rules","src/record.rs DkimKeyRecord::from_tag_list"),("tag list parser","src/tag_list.rs")],
 ["DkimKeyRecord::from_str and its fields or error"])

p("C10","Quoted-Printable and Base64 codecs are exact inverses",
 "Decoding an encoded value returns the original bytes, for every byte string, every choice of additional character to encode, and with folding whitespace inserted where the grammar allows it; the encoded form contains only characters allowed there, and only ASCII when that is asked for. Decoding accepts exactly the strings of the grammar and maps each to the bytes it denotes.",
 ["inputs"],"all byte strings (including malformed UTF-8) for encoding, all strings for decoding",
 "Tests have a few example strings; malformed UTF-8, incomplete escapes and whitespace placement are not sampled.",
 ["src/quoted_printable.rs","src/util.rs","src/parse.rs"],
 [("encoder working on valid UTF-8 chunks","src/quoted_printable.rs encode_internal"),("decoder state machine","src/quoted_printable.rs decode, decode_qp_section"),("UTF-8 chunking","src/util.rs next_utf8_chunk")],
 ["encode, encode_ascii_only, decode, decode_qp_section, encode_base64, decode_base64"])

p("C11","Formatted signature headers are well-formed, laid out and parse back",
 "For every accepted request the produced signature header is a valid header field whose value parses back to the very signature data returned with it. The requested layout holds: header name as given, tags in the requested order and each exactly once, continuation lines starting with the requested indentation, no line longer than the requested width except by a closing semicolon or where a single token cannot be broken, and ASCII only when asked for.",
 ["inputs","configurations"],"all accepted requests x line widths from 1 up x indentations x tag orders x ASCII-only on and off",
 "Unit tests compare two or three formatted outputs at fixed widths; line breaking depends on every tag length, key size, width and order together.",
 ["src/signer/format.rs","src/signer/sign.rs","src/signer/mod.rs"],
 [("cursor-based line breaking","src/signer/format.rs advance_i, advance_i_initial, format_chunks_into_string"),("insertion of the signature value after formatting","src/signer/format.rs insert_signature_data"),("choice of domain name form","src/signer/format.rs select_str_form")],
 ["SigningOutput.header_name, .header_value, .signature, format_header, to_header_field"])

p("C12","Signing requests are accepted exactly when usable",
 "Preparing to sign succeeds if and only if the header has a From field, there are one to ten requests, and every request has a key fitting its algorithm, signs From, names only header fields that can be listed, has an identity within its domain, a nonzero validity, well-formed unique extra tags that do not collide with standard ones, the signature header name and a whitespace indentation; otherwise the reported error applies to a request given. An accepted set of requests always yields one result per request, in order, without panicking.",
 ["inputs","configurations"],"all headers x lists of 0..12 requests with any combination of valid and invalid settings",
 "Each validation rule has at most one unit test; combinations and boundary values (ten requests, sub-second durations, tag name syntax) are not sampled.",
 ["src/signer/mod.rs","src/signer/sign.rs","src/tag_list.rs"],
 [("request validation","src/signer/mod.rs validate_request, prepare_signing"),("tag name and value syntax","src/tag_list.rs is_tag_name, is_tag_value")],
 ["Signer::prepare_signing, Signer::sign"])

p("C13","Verifier configuration is enforced exactly",
 "For a signature that verifies otherwise, each policy setting rejects it exactly when its documented condition holds: a required header name is not listed, an occurrence of a must-be-signed header is not covered, now is at or past expiration plus tolerance, the timestamp is later than now plus tolerance, the RSA key has fewer bits than the minimum, SHA-1 is not allowed, or body content is left unsigned although that is forbidden. Switching a setting off removes exactly that rejection, and only the first signatures up to the maximum number are evaluated.",
 ["configurations","inputs"],"all configurations x signatures with times and key sizes at, just below and just above each limit",
 "Policy checks have one or two tests each at values far from the boundary; settings interact.",
 ["src/verifier/mod.rs","src/verifier/header.rs","src/crypto/rsa.rs"],
 [("validation of a signature against the configuration","src/verifier/header.rs validate_signature, validate_signed_headers"),("key size limit","src/verifier/header.rs validate_verifying_key")],
 ["VerificationResult.status with Policy errors"])

p("C14","Constraints in key records bind every signature checked with them",
 "A record authorises a signature only if its key type and hash algorithms fit the signature, its key is present and usable, and, with the no-subdomains flag, the identity's domain equals the signing domain (in ASCII form). If DNS returns several records, success with any of the records tried (at least the first two and the last) is the result, otherwise the failure of the last one is reported, and a bad record never hides a good one.",
 ["inputs","fault_sequences"],"all answers of 0..5 records, each good, unusable, contradicting, revoked or an error, in any order",
 "Integration tests return a single good record.",
 ["src/verifier/header.rs","src/verifier/query.rs","src/record.rs"],
 [("record validation","src/verifier/header.rs validate_key_record"),("cycling through records","src/verifier/header.rs verify_task"),("choice of records","src/verifier/query.rs look_up_records")],
 ["VerificationResult.status, .key_record"])

p("C15","Key lookups are bounded, concurrent, deduplicated and mapped faithfully",
 "Verification asks DNS once for each distinct selector and domain (in absolute ASCII form) among the signatures that get that far, and for nothing else. Lookups run concurrently, so verification takes no longer than the slowest one and never longer than the configured timeout, after which a lookup counts as timed out; each kind of lookup error gives its documented result for exactly the signatures concerned; and when verification has ended or is abandoned, no lookup goes on.",
 ["schedules","fault_sequences","configurations"],"all sets of signatures over domains and selectors x response delays, errors and hangs x timeouts",
 "No test covers lookups: the unit tests of this part are commented out and the mock resolvers answer at once.",
 ["src/verifier/query.rs","src/verifier/header.rs","src/verifier/lookup/mod.rs"],
 [("grouping of signatures by domain and selector","src/verifier/query.rs QueriesBuilder"),("running of the lookups","src/verifier/query.rs spawn_all"),("error mapping","src/verifier/header.rs map_lookup_result_to_key_records")],
 ["names passed to LookupTxt::lookup_txt, virtual time, VerificationResult.status"])

p("C16","Signatures of a message are evaluated independently of one another",
 "Verification returns nothing for a message without signatures, and otherwise exactly one result per evaluated signature header, in header order, each with the index of its header field. The result of a signature is the same whichever other signatures are present, valid, broken, duplicated or sharing its key, and whatever their lookups do.",
 ["inputs","histories"],"all sets of 1..12 signatures of all kinds on one message, in any order",
 "Tests verify messages with one or two signatures, all of them well-formed.",
 ["src/verifier/mod.rs","src/verifier/header.rs","src/verifier/query.rs","src/message_hash.rs"],
 [("tasks carry the header index","src/verifier/header.rs HeaderVerifier"),("body hash requests keyed by parameters and shared","src/verifier/mod.rs verify_header, finish")],
 ["Verifier::verify_header, Verifier::finish"])

p("C17","Domain names, selectors and identities are validated and compared correctly",
 "A domain name or selector is accepted if and only if its IDNA ASCII form consists of valid labels within DNS length limits (and, for domains, the last label is not all digits); an identity if and only if its domain is valid and its local part, if any, is a dot-string or quoted string of at most 64 octets. Accepted values convert to ASCII and Unicode and back without changing what they name; equality and hashing ignore ASCII case only; and the subdomain relation holds exactly when the labels of one end with all labels of the other.",
 ["inputs"],"all strings, ASCII and internationalised; all pairs for the relations",
 "Tests list a few valid and invalid names; label boundaries, lengths and IDNA mappings are unbounded.",
 ["src/signature.rs"],
 [("validation","src/signature.rs is_valid_domain_string, is_local_part"),("subdomain relation","src/signature.rs eq_or_subdomain_of")],
 ["DomainName, Selector, Identity"])

p("C18","No input makes the library panic",
 "No public entry point that takes untrusted data panics, overflows or loses the ability to answer, whatever bytes it is given: header sections, signature headers, key records and keys from DNS, body chunks, encoded strings, and private key files. Each such call returns a result or a documented error.",
 ["inputs","fault_sequences"],"all byte strings at every entry point, structured mutants of valid inputs, hostile DNS answers",
 "Absence of panics is a claim about all inputs; tests cover chosen ones.",
 ["src/verifier/mod.rs","src/verifier/verify.rs","src/signature.rs","src/record.rs","src/tag_list.rs","src/quoted_printable.rs","src/header.rs","src/crypto/mod.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs","src/canonicalize.rs"],
 [("parsers returning errors, indexes taken from prior checks","all parsing modules")],
 ["return of every public function"])

p("C19","Verification statuses map to RFC 8601 results as documented",
 "Success maps to pass; a failed signature or body hash to fail; anything configurable by policy to policy; a signature or key record that cannot be understood or is not supported to neutral; a lookup that timed out or failed to temperror; and a signature or key known to be definitely broken or missing to permerror. Every status has exactly one result, the same however the status came about, and its textual form is the lowercase keyword of RFC 8601.",
 ["inputs","configurations"],"every status value and every message that leads to it",
 "No test covers the mapping.",
 ["src/verifier/mod.rs"],
 [("mapping","src/verifier/mod.rs VerificationStatus::to_dkim_result")],
 ["VerificationStatus::to_dkim_result, DkimResult display"])

p("C20","RFC 8301 limits hold in every build and cannot be configured away",
 "In a default build no signature using SHA-1 or an RSA key of fewer than 1024 bits is ever reported successful, whatever the configuration, and SHA-1 cannot be requested in records or requests. With the feature for older algorithms, SHA-1 signatures succeed only when the configuration allows them and RSA keys down to 512 bits only when its minimum is lowered; everything else behaves as in a default build.",
 ["configurations","inputs"],"both builds x key sizes around the limits (any number of bits) x algorithms x configurations x record hash lists",
 "Tests use 512, 1024 and 2048 bit keys only and no configurations around the limits.",
 ["src/crypto/rsa.rs","src/crypto/mod.rs","src/verifier/header.rs","src/signature.rs","src/record.rs"],
 [("compile-time minimum key size","src/crypto/rsa.rs MIN_KEY_BITS, get_public_key_size"),("configurable minimum and SHA-1 switch","src/verifier/header.rs")],
 ["VerificationResult.status, VerifyingKey::key_size, validate_min_key_size"])

p("C21","Header data types hold exactly the well-formed header fields",
 "A field name is accepted if and only if it is printable ASCII without colon, a field body if and only if it is correctly folded text without control characters, a header if and only if it has at least one field; accepted data is given back unchanged, and names compare and hash ignoring case. Parsing a header text with CRLF or LF line ends yields the fields of that text with CRLF folding, or an error, and a header written out parses back to itself.",
 ["inputs"],"all strings and byte strings; all header texts",
 "Tests list a dozen examples.",
 ["src/header.rs"],
 [("validation","src/header.rs FieldName::new, FieldBody::new"),("header parser","src/header.rs HeaderFields::from_str")],
 ["FieldName, FieldBody, HeaderFields"])

p("C22","Keys and signatures: all supported formats, exact verification",
 "A public key read from any supported encoding (RSA as SubjectPublicKeyInfo or RSAPublicKey, Ed25519 raw or SubjectPublicKeyInfo) is the same key, private keys load from PKCS#8 PEM, and anything else is an error. A signature made with a private key verifies with its public key, for exactly that hash and algorithm: changing any bit of hash or signature, or the key, makes verification fail; reported key sizes and signature lengths are the true ones, and digests equal the standard hash functions.",
 ["inputs"],"all hashes, keys of various sizes, encodings, and single and multiple bit changes",
 "Tests use one key and one message per algorithm.",
 ["src/crypto/mod.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs","src/crypto/hash.rs"],
 [("fallback between encodings","src/crypto/rsa.rs read_rsa_public_key, src/crypto/ed25519.rs read_ed25519_verifying_key"),("signing and verification","src/crypto/rsa.rs, src/crypto/ed25519.rs")],
 ["crypto module functions"])

p("C23","A produced signature states exactly what was requested",
 "The signature produced for a request carries the requested domain, selector, algorithm, canonicalization, identity, timestamp and extra tags, an expiration equal to timestamp plus validity, and a body length only if requested, equal to what was hashed. The list of signed headers is the given one, or by default every occurrence of the recommended header names from the bottom up; the body hash is that of the canonical body; and the signature value is valid over the returned header.",
 ["inputs","configurations"],"all accepted requests on all messages",
 "Tests compare a few fields of one or two signatures.",
 ["src/signer/sign.rs","src/signer/mod.rs","src/signer/format.rs"],
 [("assembly of the signature","src/signer/sign.rs perform_signing"),("default header selection","src/signer/mod.rs default_signed_headers, select_headers")],
 ["SigningOutput.signature, .header_value; select_headers, default_signed_headers"])

p("C24","Copied headers are recorded and recovered without loss",
 "When copying of headers is requested, the signature records every header field whose name is signed, in message order, and parsing the produced header recovers their names and values byte for byte, whatever characters they contain and however the header is folded. When it is not requested, nothing is recorded.",
 ["inputs","configurations"],"all headers (any printable name characters, 8-bit and malformed UTF-8 values, folding) x line widths x ASCII-only",
 "One test copies plain header fields.",
 ["src/signer/sign.rs","src/signer/format.rs","src/quoted_printable.rs","src/signature.rs","src/tag_list.rs"],
 [("selection","src/signer/sign.rs prepare_copied_headers"),("encoding and folding","src/signer/format.rs format_tag_z"),("decoding","src/tag_list.rs parse_quoted_printable_header_field")],
 ["SigningOutput.signature.copied_headers and the reparsed header"])

p("C25","What is left at its default behaves as documented",
 "A verifier with the default configuration evaluates the first ten signatures, waits at most ten seconds for a key record, requires no particular header field to be signed except that no From field may remain unsigned, accepts RSA keys from 1024 bits, refuses SHA-1, expired signatures and timestamps in the future, judged by the system clock with five minutes of tolerance, and accepts content beyond the body length. A request left at its defaults is signed with relaxed/simple canonicalization, over every recommended header field from the bottom up, with the current time and an expiration after five days, without limit, identity or copied headers, folded at 78 characters with tabs; and what it produces passes the default verifier.",
 ["inputs","configurations","fault_sequences"],"all messages, signatures (number, age, key size, algorithm) and lookup delays under the default configuration; all messages under a default request",
 "Tests mostly override the settings they exercise, and fix the system time; no test states what applies when nothing is set.",
 ["src/verifier/mod.rs","src/signer/mod.rs"],
 [("default configuration","src/verifier/mod.rs impl Default"),("default request and output format","src/signer/mod.rs SignRequest::new, impl Default for OutputFormat"),("default header name sets","src/signer/mod.rs default_signed_headers, default_unsigned_headers")],
 ["VerificationResult","SigningOutput","Config::default, OutputFormat::default"])

p("C26","Textual forms of values are the RFC's, and printing and parsing agree",
 "Algorithms, canonicalizations, key types, hash algorithms, service types, flags and results print as the RFCs spell them. A text is parsed as algorithm, canonicalization algorithm or canonicalization if and only if it is such a spelling in any ASCII case (a canonicalization without body part meaning simple), so parsing inverts printing. An algorithm and its key type and hash determine each other. Domain names, selectors, identities and header field names print exactly as they were given.",
 ["inputs"],"all strings; all values of the types",
 "Tests parse two or three examples; which strings must be refused is unbounded.",
 ["src/signature.rs","src/crypto/mod.rs","src/record.rs","src/header.rs","src/util.rs","src/verifier/mod.rs"],
 [("canonical strings","CanonicalStr implementations in src/signature.rs, src/record.rs, src/crypto/mod.rs, src/verifier/mod.rs"),("parsing","FromStr implementations in src/signature.rs")],
 ["Display, FromStr, CanonicalStr of public types"])

p("C27","The low-level interface composes to the same signing and verification",
 "Signing and verification put together by hand from the public building blocks (parsing of signature and key record, key decoding, canonicalization, data hash, body hashers, digests, signature primitives) agree with the high-level interface: a signature verifies by hand if and only if Verifier reports success under a configuration without policy, and a signature made by hand from valid parts is verified by Verifier. Equivalent ways through the building blocks give the same hashes.",
 ["inputs"],"all messages x valid, altered and malformed signatures and records x divisions of the body x the ways to compose",
 "Tests exercise each building block on its own example; that they compose for every input is not tested.",
 ["src/message_hash.rs","src/canonicalize.rs","src/crypto/mod.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs","src/crypto/hash.rs","src/signature.rs","src/record.rs"],
 [("data hash over selected headers and the signature header","src/message_hash.rs compute_data_hash"),("body hashers registered by key","src/message_hash.rs BodyHasherBuilder, body_hasher_key")],
 ["results of the public functions against Verifier::finish"])

p("C28","Sessions do not influence each other",
 "The result of verifying or signing a message depends only on its inputs: message, keys, records, configuration and time. Any number of sessions, one after the other, taking turns in one task, in parallel threads, abandoned at any point, or observed through trace logging, give the results each of them gives alone; the same inputs give the same signature. Copies of a body canonicalizer or body hasher builder go on independently.",
 ["histories","schedules","inputs"],"all sets of sessions (verifying, signing; with shared and differing inputs) x interleavings, threads, points of abandonment, logging",
 "Tests run one session at a time and never two that share names, buffers or threads; interference needs particular histories.",
 ["src/verifier/mod.rs","src/verifier/header.rs","src/verifier/query.rs","src/verifier/verify.rs","src/signer/mod.rs","src/signer/sign.rs","src/message_hash.rs","src/canonicalize.rs"],
 [("all state is held in the session","src/verifier/mod.rs Verifier; src/signer/mod.rs Signer"),("per-session cache of parsed key records","src/verifier/header.rs CachedDkimKeyRecord"),("canonicalizer state","src/canonicalize.rs BodyCanonicalizer")],
 ["VerificationResult, SigningOutput"])

p("C29","Bodies are streamed, and memory stays in proportion to the input",
 "While a message body is processed, the signer, the verifier, body hashers and canonicalizers retain nothing of it in proportion to its length, whatever it consists of and however it is divided. Parsing, decoding, verifying and signing need memory at most in proportion to the size of their input. When the results of a session have been dropped, or it was abandoned on the way, nothing of it remains in memory.",
 ["histories","inputs"],"all bodies (of any length and composition) x divisions x consumers; all texts and messages; all sequences of sessions, completed or abandoned",
 "Tests look at results only, with small bodies; retained memory shows neither in results nor in short runs.",
 ["src/canonicalize.rs","src/message_hash.rs","src/crypto/hash.rs","src/verifier/mod.rs","src/verifier/header.rs","src/verifier/query.rs","src/signer/mod.rs","src/signer/format.rs","src/tag_list.rs","src/signature.rs","src/record.rs","src/quoted_printable.rs","src/header.rs"],
 [("body chunks are canonicalised and hashed but not otherwise retained","src/verifier/mod.rs process_body_chunk; src/signer/mod.rs process_body_chunk"),("pending blank lines are counted, not kept","src/canonicalize.rs BodyCanonicalizer"),("lookups are owned by the verification","src/verifier/query.rs Queries")],
 ["octets in use, counted by the allocator of the harness"])

p("C30","Private keys are not disclosed",
 "No part of a private key finds its way into anything the library gives out: signatures and header fields, results and errors of loading keys and of signing, in textual and debugging form, the debugging form of keys and signing requests themselves, and trace logging. The library writes nothing to the standard streams.",
 ["inputs"],"all private keys and (damaged) key files x all signing requests, accepted or not x all outputs and log entries",
 "Tests compare outputs with expected ones and do not look at logs and debugging forms; that no key material shows is a statement about everything given out.",
 ["src/crypto/mod.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs","src/signer/mod.rs","src/signer/sign.rs","src/signer/format.rs"],
 [("the debugging form of a signing key tells its kind only","src/crypto/mod.rs SigningKey Debug"),("errors of loading keys and signing carry no data","src/crypto/mod.rs DecodeSigningKeyError, SigningError; src/signer/mod.rs SigningError, RequestError")],
 ["private key components known to the harness, searched for in all outputs in raw, hexadecimal, decimal and Base64 form"])
p("C31","Processing time stays in proportion to the input",
 "Parsing, decoding, validating, canonicalizing and hashing take time at most in proportion to the size of their input, whatever it consists of; selecting signed header fields at most in proportion to names listed times header fields. Verifying and signing a message therefore take no longer than that for each signature, besides the cryptographic operations.",
 ["inputs"],"all texts, names, headers, signatures, key records and bodies (of any length and composition) x divisions",
 "Tests use small inputs, for which no time is noticeable; time that grows faster than the input shows only for large inputs of particular composition.",
 ["src/tag_list.rs","src/parse.rs","src/quoted_printable.rs","src/signature.rs","src/record.rs","src/header.rs","src/canonicalize.rs","src/message_hash.rs","src/verifier/header.rs","src/verifier/verify.rs","src/signer/format.rs","src/signer/sign.rs"],
 [("tag lists, header texts and encodings are read in one pass","src/tag_list.rs TagList::from_str; src/header.rs HeaderFields::from_str; src/quoted_printable.rs decode"),("body chunks are canonicalized in one pass","src/canonicalize.rs BodyCanonicalizer"),("each listed name is looked for among the header fields once","src/canonicalize.rs canonicalize_headers")],
 ["processor time of the thread"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P), max(d["statement"].count(". ")+1 for d in P))
