"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json

TRUST = (" Evidence by search, not proof. Trusts: the reference model in harness/src/refm where the oracle uses it, "
         "and third-party crates for RSA, Ed25519, SHA-2 and IDNA primitives.")
T = {
 "C01": ("round-trip property testing (sign, then verify with library and reference verifier)", "Random and tabulated requests and messages, both builds; each output verified by the library and an independent verifier."),
 "C02": ("metamorphic and mutation-based property testing against an ideal signature scheme", "Random edits of genuine messages, and forgeries; success is allowed only for data that was signed."),
 "C03": ("differential property testing against a reference verifier", "Whole results compared with an independent RFC 6376 verifier over scenes of valid, damaged and hostile signatures, records and lookups."),
 "C04": ("differential property testing against whole-input canonicalization, with exhaustive short bodies", "Every body up to length 7 over {CR, LF, SP, TAB, a}, random longer ones."),
 "C05": ("metamorphic property testing over chunk divisions", "The same body under different divisions and request sets must give the same results."),
 "C06": ("model-based property testing over limits, chunkings and stop points", "Every limit of small bodies; random ones elsewhere."),
 "C07": ("differential property testing against reference selection and canonicalization", "Random headers with repeated names and name lists."),
 "C08": ("differential, grammar-based fuzzing against an independent parser", "Acceptance, all values, causes and raw strings compared."),
 "C09": ("differential, grammar-based fuzzing against an independent parser", "Acceptance, all values and causes compared."),
 "C10": ("round-trip and differential property testing, exhaustive short strings", "Every string up to length 4 over 15 symbols; random longer ones."),
 "C11": ("property testing of layout invariants and re-parsing of generated output", "All widths 1 to 100, all keys, random orders and indentations."),
 "C12": ("property testing of acceptance against independently stated conditions", "Combinations of single and several defects in up to 12 requests."),
 "C13": ("property testing at and around limits of each policy setting", "Grids of exact boundary values and random combinations."),
 "C14": ("enumerated and random key record sets against expected status by construction", "All combinations of constraint values for one record; random sets and sequences."),
 "C15": ("stateful fault injection: DNS stand-in with delays, errors and hangs under a virtual clock", "The schedule of answers is generated and owned by the harness (virtual clock), so timing is exact."),
 "C16": ("metamorphic property testing: adding, removing and permuting signatures", "No model; relations between runs of the library on related messages."),
 "C17": ("differential property testing and relations over name pairs", "Independent grammar and label-wise relation."),
 "C18": ("structure-aware fuzzing of all entry points, with overflow checks and debug assertions", "A panic, abort or a case that repeatedly does not end is a violation."),
 "C19": ("exhaustive table of statuses and property testing over arising statuses", "Every status variant by construction."),
 "C20": ("enumerated configurations and key sizes in both builds", "All keys by all configurations; any modulus size."),
 "C21": ("differential property testing and round-trip, exhaustive short bodies", "Every octet in every place, all short bodies, random header texts."),
 "C22": ("differential property testing against textbook RSA and PKCS #1 padding, mutation of keys and signatures", "Every bit of signatures of each key; random encodings."),
 "C23": ("property testing of output against the request by a reference parser and model", "All parts of each produced signature compared with the request."),
 "C29": ("property testing with an allocator that counts the memory in use as oracle", "Long bodies of any pattern, repeated sessions, large texts; limits have a margin of about five times what is used."),
 "C30": ("property testing with a search of all outputs and logs for the secrets of the keys", "Keys, damaged key files and signing requests of every kind; secrets are recognised in raw, hexadecimal, decimal and Base64 form, by eight octets in a row."),
 "C31": ("property testing of processor time against limits proportional to the input", "Long inputs of repeated patterns and many small parts; limits have a margin of five times or more, and an excess must show three times in a row."),
 "C28": ("stateful property testing: generated interleavings of sessions against each session alone", "The harness polls the sessions itself, by a generated schedule; threads run under the operating system's schedule."),
 "C25": ("differential property testing under default settings, with a virtual and the system clock", "Scenes under the default configuration against the reference verifier with the documented defaults; default requests against the documented ones."),
 "C26": ("differential grammar-based property testing, table of all values", "Strings near the accepted spellings; every value printed."),
 "C27": ("differential property testing: hand-made composition against the high-level interface", "Random messages, signatures and records, whole and damaged."),
 "C24": ("round-trip property testing of copied headers", "Every byte value in names and values; random headers and widths."),
}
checks = []
for l in open("/verif/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=T[i][0], level="exploration", level_note=T[i][1] + TRUST))
json.dump(dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=[],
     notes="No hooks: the public API suffices. Both builds (default, feature pre-rfc8301) are checked by each command where the property is about both. "
           "./check replay FILE runs a replay file. See DESIGN.md."), open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
