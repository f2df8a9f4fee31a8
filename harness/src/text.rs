//! Generators of tag-list texts: signatures, key records; and forging of
//! signatures by the reference implementation.

use crate::{
    engine::Ctx,
    gen,
    keys::{self, Key},
    refm::{b64_encode, canon, sig::Alg, Hdrs},
};

/// Folding whitespace for between tokens.
pub fn ws(c: &mut Ctx, style: u64) -> &'static str {
    match style {
        0 => "",
        1 => c.pick(&["", "", " "]),
        _ => c.pick(&["", " ", "\t", "\r\n ", "  ", " \r\n\t", "\r\n  "]),
    }
}

/// Renders tags; the last tag is followed by nothing or by a semicolon.
pub fn render(c: &mut Ctx, tags: &[(String, String)], style: u64, end: &str) -> String {
    let mut o = String::new();
    let n = tags.len();
    for (i, (name, value)) in tags.iter().enumerate() {
        if style == 1 && i > 0 {
            o.push_str(c.pick(&[" ", "\r\n\t", ""]));
        } else {
            o.push_str(ws(c, style));
        }
        o.push_str(name);
        o.push_str(if style == 2 { ws(c, style) } else { "" });
        o.push('=');
        o.push_str(if style == 2 && !(i + 1 == n && value.is_empty()) { ws(c, style) } else { "" });
        o.push_str(value);
        if i + 1 < n {
            if style == 2 && !value.is_empty() {
                o.push_str(ws(c, style));
            }
            o.push(';');
        }
    }
    o.push_str(end);
    o
}

/// Almost a hash value.
pub fn wrong_hash(c: &mut Ctx, right: &[u8]) -> Vec<u8> {
    let n = right.len();
    let mut v = right.to_vec();
    match c.below(8) {
        0 | 1 => v.truncate(c.range(1, n - 1)),
        2 => v = v[c.range(1, n - 1)..].to_vec(),
        3 => v.extend(vec![0; c.range(1, 4)]),
        4 | 5 => v[c.idx(n)] ^= 1 << c.below(8),
        6 => v = [&v[..], &v].concat(),
        _ => v.reverse(),
    }
    v
}

pub fn shuffle<T>(c: &mut Ctx, v: &mut [T]) {
    for i in 1..v.len() {
        let j = i - c.idx(i + 1);
        v.swap(i, j);
    }
}

// ---------------------------------------------------------------- values

pub const LONG_LABEL: &str = "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffff123";

/// A list, perhaps a long one.
pub fn list(c: &mut Ctx, sep: char, item: impl Fn(&mut Ctx) -> String) -> String {
    let n = if c.chance(1, 3) { c.range(10, 60) } else { c.range(1, 9) };
    let spaced = c.chance(1, 3);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 {
            if spaced {
                o.push_str(ws(c, 2));
            }
            o.push(sep);
            if spaced {
                o.push_str(ws(c, 2));
            }
        }
        o.push_str(&item(c));
    }
    o
}

fn h_item(c: &mut Ctx) -> String {
    match c.weighted(&[8, 2, 1]) {
        0 => gen::field_name(c).replace(';', "x"),
        1 => gen::case_mix(c, "From"),
        _ => c.pick(&["X", "x", "X-Foo", "zz"]).to_owned(),
    }
}

/// A list of names without or with From.
pub fn h_list(c: &mut Ctx) -> String {
    list(c, ':', h_item)
}

pub fn h_list_from(c: &mut Ctx) -> String {
    let l = h_list(c);
    match c.weighted(&[2, 2, 1]) {
        0 => format!("{l}:{}", gen::case_mix(c, "From")),
        1 => format!("From:{l}"),
        _ => format!("{l}:from:{}", h_list(c)),
    }
}

pub fn z_list(c: &mut Ctx) -> String {
    list(c, '|', |c| {
        let n = h_item(c).replace(['|', '='], "y").replace(':', "");
        let v = gen::field_body(c);
        let v: String = crate::refm::qp::encode(&v, Some('|'), true);
        let v = if c.chance(1, 4) { fold_between(c, &v) } else { v };
        if c.chance(1, 60) { v } else { format!("{n}:{v}") }
    })
}

fn word_list(c: &mut Ctx, known: &[&str]) -> String {
    let k: Vec<String> = known.iter().map(|s| s.to_string()).collect();
    list(c, ':', move |c| if c.chance(1, 6) { { let i = c.idx(k.len()); k[i].clone() } } else { c.pick(&["x", "md5", "foo-bar", "a1", "y2"]).to_owned() })
}

pub fn sig_value(c: &mut Ctx, tag: &str) -> String {
    match tag {
        "h" if c.chance(1, 5) => return if c.chance(1, 3) { h_list(c) } else { h_list_from(c) },
        "z" if c.chance(1, 5) => return z_list(c),
        "q" if c.chance(1, 5) => return word_list(c, &["dns/txt", "DNS/txt"]),
        _ => {}
    }
    let s: &str = match tag {
        "v" => c.pick(&["1", "2", "", "1.0", "01", "11", "DKIM1"]),
        "a" => c.pick(&[
            "rsa-sha256", "RSA-SHA256", "ed25519-sha256", "rsa-sha1", "Rsa-Sha1", "rsa-md5", "",
            "ed25519-sha1", "rsa_sha256", "rsa-sha512", "ed25519-sha256x", "Ed25519-Sha256", "RSA-sha1",
            "rſa-sha256",
        ]),
        "b" | "bh" => c.pick(&[
            "YWJj", "YQ==", "YQ", "", "Y!==", "YWJj YWJj", "Y W\r\n J j", "====", "=", "YWI=", "Zg==",
            "YWI==", "YQ=", "YW=j", "Y\tQ=\r\n =", "YR==", "//++", "__--", "äAAA", "YWJj=",
        ]),
        "c" => c.pick(&[
            "simple", "relaxed", "relaxed/simple", "simple/relaxed", "Relaxed/RELAXED", "", "/",
            "relaxed/", "simple/simple/simple", "nowsp", "relaxed / simple", "/relaxed", "simple/nofws",
            "SIMPLE", "relaxed/relaxed",
        ]),
        "d" => return name_value(c, true),
        "s" => return name_value(c, false),
        "h" => c.pick(&[
            "from", "From:To", "From : To", "From::To", ":From", "", "To", "From:a b", "From:To:From",
            "from=x:From", "FROM:ä", "To:\r\n From :\tSubject", "Fro", "From:", "fRoM:x|y:!~",
            "From:DKIM-Signature", "a,b:From", "From,To",
        ]),
        "i" => return id_value(c),
        "l" | "t" | "x" => return num_value(c),
        "q" => c.pick(&[
            "dns/txt", "DNS/TXT", "dns/txt:foo", "foo", "", "dns/txt::x", "dns", "foo:dns/txt",
            "foo : Dns/Txt ", ":dns/txt", "dns/txt:", "dns=2Ftxt", "dns/txtx",
        ]),
        "z" => c.pick(&[
            "From:foo|To:bar", "From:=20foo", "From", "=46rom:x", "a:b||c:d", "a=3Ab", "X=7CY:1",
            "From:=C3=A4|b:ä", "a:=", "a:=4", "a:=GG", "a:= 4 1", "", "a:b|", "|a:b", "a b:c", ":x",
            "From:x =0D=0A y\r\n |To:=\r\n 20z", "a:", "a::b", "a:=3d=3D", "ä:x", "a=:b", "A:=ff=00",
        ]),
        _ => c.pick(&gen::EXT_VALUES),
    };
    s.to_owned()
}

pub fn num_value(c: &mut Ctx) -> String {
    match c.weighted(&[3, 4, 3]) {
        0 => c.pick_copy(&[0u64, 1, 5, 1_700_000_000, u64::MAX, u64::MAX - 1]).to_string(),
        1 => c
            .pick(&[
                "+5", "-1", "18446744073709551616", "007", "", "5 5", "0x5", "1e3", "99999999999999999999999",
                "１", "5.0", "0000000000000000000000000000000001", "-0", "+", "+0", "18446744073709551615",
            ])
            .to_owned(),
        _ => {
            let m = c.pick_copy(&[10u64, 100_000, 2_000_000_000, 0]);
            c.t.draw(m).to_string()
        }
    }
}

pub fn name_value(c: &mut Ctx, dom: bool) -> String {
    match c.weighted(&[5, 5, 4]) {
        0 => if dom { gen::domain(c) } else { gen::selector(c) },
        1 => odd_name(c),
        _ => {
            let n = c.range(1, 4);
            let mut v = vec![];
            for _ in 0..n {
                let m = c.range(1, 4);
                let l: String = (0..m)
                    .map(|_| c.pick(&["a", "b1", "-", "_", "0", "Z", "ü", "é", "xn--", "中", "ß", "ｆ", "。"]).to_owned())
                    .collect();
                v.push(l);
            }
            v.join(".")
        }
    }
}

pub fn odd_name(c: &mut Ctx) -> String {
    let k = c.below(40);
    let l63 = LONG_LABEL;
    match k {
        0 => "".into(),
        1 => "-a.com".into(),
        2 => "a-.com".into(),
        3 => "a..b".into(),
        4 => "a.com.".into(),
        5 => "a.1".into(),
        6 => "ex ample.com".into(),
        7 => format!("{l63}.com"),
        8 => format!("{l63}x.com"),
        9 => "xn--a".into(),
        10 => "a@b".into(),
        11 => "1".into(),
        12 => "1.2.3.4".into(),
        13 => ".com".into(),
        14 => ".".into(),
        15 => "a_b.c_".into(),
        16 => format!("{l63}.{l63}.{l63}.{}", "a".repeat(61)), // 253
        17 => format!("{l63}.{l63}.{l63}.{}", "a".repeat(62)), // 254
        18 => format!("{}.example", "ü".repeat(55)),
        19 => format!("{}.example", "ü".repeat(57)),
        20 => "straße.example".into(),
        21 => "strasse.example".into(),
        22 => "a!b.com".into(),
        23 => "a/b".into(),
        24 => "xn--bcher-kva.example".into(),
        25 => "XN--BCHER-KVA.example".into(),
        26 => "Ａ.com".into(),
        27 => "a\u{200d}b.com".into(),
        28 => "a.b.c.d.e.f.g.h.i.j.k.l.m.n.o.p".into(),
        29 => "a.2b".into(),
        30 => "é.é".into(),
        31 => "a*b.com".into(),
        32 => "ab--cd.com".into(),
        33 => "xn--.com".into(),
        34 => "xn--example.xn--zzzzzz".into(),
        35 => "\u{5d0}1.com".into(),
        36 => "_dmarc.x".into(),
        37 => "a.com。b".into(),
        38 => "[1.2.3.4]".into(),
        _ => {
            let n = c.range(1, 64);
            format!("{}.{}", "x".repeat(n), "y".repeat(64 - n + 1))
        }
    }
}

pub fn id_text(c: &mut Ctx) -> String {
    let d = if c.chance(1, 4) { odd_name(c) } else { c.pick(&["example.com", "sub.example.com", "EXAMPLE.com", "example.org", "notexample.com", "bücher.example", "a.xn--bcher-kva.example"]).to_owned() };
    let l = match c.weighted(&[4, 4, 4]) {
        0 => gen::local_part(c).unwrap_or_default(),
        1 => {
            let k = c.below(20);
            match k {
                0 => "a".repeat(64),
                1 => "a".repeat(65),
                2 => "ä".repeat(32),
                3 => format!("a{}", "ä".repeat(32)),
                4 => "a.".into(),
                5 => ".a".into(),
                6 => "a..b".into(),
                7 => "a b".into(),
                8 => "\"a".into(),
                9 => "a\"".into(),
                10 => "\"a\\\"".into(),
                11 => "\"a\\".into(),
                12 => "\"\\ä\"".into(),
                13 => "a@b".into(),
                14 => "\"a\"b\"".into(),
                15 => "\"a\tb\"".into(),
                16 => format!("\"{}\"", "x".repeat(62)),
                17 => format!("\"{}\"", "x".repeat(63)),
                18 => "(a)".into(),
                _ => "\"".into(),
            }
        }
        _ => {
            let n = c.range(1, 5);
            (0..n).map(|_| c.pick(&["a", ".", "\"", "\\", " ", "@", "ä", "=", ";", "|", "!", "\u{7f}", "\0", "\r\n "]).to_owned()).collect()
        }
    };
    if c.chance(1, 20) { d } else { format!("{l}@{d}") }
}

pub fn id_value(c: &mut Ctx) -> String {
    let t = id_text(c);
    match c.weighted(&[5, 3, 1, 1]) {
        0 => crate::refm::qp::encode(t.as_bytes(), None, false),
        1 => crate::refm::qp::encode(t.as_bytes(), Some('@'), true),
        2 => {
            // not encoded
            t.replace(';', "")
        }
        _ => {
            let e = crate::refm::qp::encode(t.as_bytes(), None, true);
            fold_between(c, &e)
        }
    }
}

/// Inserts folding whitespace at some places, never two in a row nor at ends.
pub fn fold_between(c: &mut Ctx, s: &str) -> String {
    let mut o = String::new();
    for (i, ch) in s.chars().enumerate() {
        if i > 0 && c.chance(1, 5) {
            o.push_str(c.pick(&[" ", "\r\n ", "\t", " \r\n\t "]));
        }
        o.push(ch);
    }
    o
}

pub const SIG_TAGS: [&str; 14] =
    ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];

/// Tags of a valid signature.
pub fn valid_sig_tags(c: &mut Ctx) -> Vec<(String, String)> {
    let d = gen::domain(c);
    let mut v: Vec<(&str, String)> = vec![
        ("v", "1".into()),
        ("a", c.pick(&["rsa-sha256", "ed25519-sha256", "RSA-sha256"]).into()),
        ("d", d.clone()),
        ("s", gen::selector(c)),
        (
            "h",
            if c.chance(1, 10) {
                h_list_from(c)
            } else {
                c.pick(&["From", "from:to", "From : Subject\r\n :To", "To:FROM:x"]).into()
            },
        ),
        ("bh", c.pick(&["YWJj", "MTIz\r\n NDU2", "YQ = ="]).into()),
        ("b", c.pick(&["YWJj", "Z g=\r\n =", "AAAA//++"]).into()),
    ];
    if c.bool() {
        v.push(("c", c.pick(&["relaxed", "simple/relaxed", "relaxed/relaxed", "Simple", "RELAXED/Simple"]).into()));
    }
    if c.chance(1, 3) {
        let l = gen::local_part(c).unwrap_or_default();
        let pre = c.pick(&["", "sub.", "a.b."]);
        let e = crate::refm::qp::encode(format!("{l}@{pre}{d}").as_bytes(), None, c.bool());
        v.push(("i", e));
    }
    if c.chance(1, 3) {
        v.push(("l", c.below(1000).to_string()));
    }
    let t = c.below(2_000_000_000);
    if c.chance(1, 3) {
        v.push(("t", t.to_string()));
    }
    if c.chance(1, 3) {
        v.push(("x", (t + 1 + c.below(100)).to_string()));
    }
    if c.chance(1, 5) {
        v.push(("q", c.pick(&["dns/txt", "x:dns/txt", "DNS/txt : y"]).into()));
    }
    if c.chance(1, 4) {
        let z = if c.chance(1, 5) {
            z_list(c)
        } else {
            c.pick(&["From:foo|To:=20bar", "X:=C3=A4ä|X=7CY:=\r\n 3B |Z:", "a:b"]).into()
        };
        v.push(("z", z));
    }
    if c.chance(1, 3) {
        let n = c.range(1, 3);
        for k in 0..n {
            let name = gen::EXT_NAMES[(c.idx(4) * 2 + k) % 8];
            if !v.iter().any(|(n, _)| *n == name) {
                v.push((name, c.pick(&gen::EXT_VALUES).into()));
            }
        }
    }
    let mut v: Vec<(String, String)> = v.into_iter().map(|(a, b)| (a.to_owned(), b)).collect();
    many_ext(c, &mut v);
    if c.chance(1, 2) {
        shuffle(c, &mut v);
    }
    v
}

fn many_ext(c: &mut Ctx, v: &mut Vec<(String, String)>) {
    if gen::many(c) {
        let n = c.range(10, 80);
        for k in 0..n {
            v.push((format!("e{k}"), c.pick(&gen::EXT_VALUES).into()));
        }
    }
}

pub fn edit_tags(c: &mut Ctx, v: &mut Vec<(String, String)>, all: &[&str], value: fn(&mut Ctx, &str) -> String) {
    let n = match c.weighted(&[3, 5, 2]) {
        0 => 0,
        1 => 1,
        _ => c.range(2, 4),
    };
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let i = c.idx(v.len());
        match c.weighted(&[10, 2, 4, 1, 1, 1]) {
            0 => {
                let name = v[i].0.clone();
                v[i].1 = value(c, &name);
            }
            1 => {
                v.remove(i);
            }
            2 => {
                let t = c.pick(all).to_owned();
                let val = value(c, &t);
                if let Some(p) = v.iter().position(|(n, _)| *n == t) {
                    v[p].1 = val;
                } else {
                    v.insert(i, (t, val));
                }
            }
            3 => {
                let d = v[i].clone();
                let j = c.idx(v.len() + 1);
                v.insert(j, d);
            }
            4 => {
                let p = v[i].0.clone();
                v[i].0 = c.pick(&["", "1a", "_a", "a-b", "ä", "a b", "A", "V", "Bh", "a.b", "v1"]).to_owned();
                if c.bool() {
                    v[i].0 = p.to_uppercase();
                }
            }
            _ => shuffle(c, v),
        }
    }
}

pub fn mutate_raw(c: &mut Ctx, s: String) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let n = c.range(1, 3);
    for _ in 0..n {
        let i = c.idx(cs.len() + 1);
        let ch: Vec<char> = c
            .pick(&[
                ";", "=", " ", "\t", "\r\n", "\r\n ", ":", "a", "ä", "|", ",", "0", "\0", "\u{7f}", "\n",
                "\r", "-", "/", "@", "\r\n\r\n ", "\u{85}", "\u{a0}", "\u{0b}", "+", ";;", "; ",
            ])
            .chars()
            .collect();
        match c.weighted(&[3, 2, 2]) {
            0 => {
                cs.splice(i..i, ch);
            }
            1 if i < cs.len() => {
                cs.remove(i);
            }
            _ if i < cs.len() => {
                cs.splice(i..i + 1, ch);
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

pub fn sig_text(c: &mut Ctx) -> String {
    let mut v = valid_sig_tags(c);
    edit_tags(c, &mut v, &SIG_TAGS, sig_value);
    let style = c.weighted(&[3, 4, 4]) as u64;
    let end = c.pick(&["", ";", "", ";", "", ";", "", ";", " ", "\r\n ", "; ", ";;", ";\r\n "]);
    let s = render(c, &v, style, end);
    if c.chance(1, 5) { mutate_raw(c, s) } else { s }
}

// ---------------------------------------------------------------- records

pub const REC_TAGS: [&str; 7] = ["v", "h", "k", "n", "p", "s", "t"];

pub fn rec_value(c: &mut Ctx, tag: &str) -> String {
    match tag {
        "h" if c.chance(1, 6) => return word_list(c, &["sha256", "SHA256", "sha1"]),
        "s" if c.chance(1, 6) => return word_list(c, &["*", "email", "eMail"]),
        "t" if c.chance(1, 6) => return word_list(c, &["y", "s", "S"]),
        _ => {}
    }
    let s: &str = match tag {
        "v" => c.pick(&["DKIM1", "dkim1", "DKIM2", "", "DKIM1 x", "1", "DKIM"]),
        "h" => c.pick(&[
            "sha256", "SHA256", "sha1", "sha1:sha256", "sha256 : sha1", "md5", "md5:sha256", "", ":",
            "sha256:", "sha256::sha1", "sha512", "Sha1", "sha-256", "x:y:sha256:z", "md5:sha1",
        ]),
        "k" => c.pick(&["rsa", "RSA", "ed25519", "Ed25519", "dsa", "", "ec", "rsa:ed25519", "rſa"]),
        "n" => c.pick(&[
            "note", "", "a=20b", "a b c", "=3D=3B", "=", "=4", "=gg", "=C3=A4", "=ff", "a\tb", "a\r\n b",
            "ä", "x=3d", "a=3A=", "a  =20 b",
        ]),
        "p" => c.pick(&["", "YWJj", "Y W\r\n J j", "!", "YQ", "YQ==", "YQ=", "YR==", "a-b_"]),
        "s" => c.pick(&[
            "*", "email", "EMAIL", "other", "other:email", "", ":", "email:", "* : email", "tlsrpt",
            "tlsrpt:*", "**", "email::x",
        ]),
        "t" => c.pick(&["y", "s", "y:s", "Y : S", "", "x", "x:s", ":", "s:", "s::y", "y:y", "ys"]),
        _ => c.pick(&gen::EXT_VALUES),
    };
    s.to_owned()
}

pub fn valid_rec_tags(c: &mut Ctx, key: &Key, alt: bool) -> Vec<(String, String)> {
    let p = if key.is_rsa() != alt { &key.spki } else { &key.raw };
    let mut v: Vec<(&str, String)> = vec![];
    if key.is_rsa() {
        if c.bool() {
            v.push(("k", c.pick(&["rsa", "RSA"]).into()));
        }
    } else {
        v.push(("k", c.pick(&["ed25519", "ED25519"]).into()));
    }
    if c.chance(1, 5) {
        v.push(("h", c.pick(&["sha256", "md5:SHA256", "sha256:sha1", "sha1:sha256"]).into()));
    }
    if c.chance(1, 5) {
        v.push(("n", c.pick(&["a note", "=3B", "", "x=20y"]).into()));
    }
    if c.chance(1, 5) {
        v.push(("s", c.pick(&["*", "email", "foo:email", "email:*"]).into()));
    }
    if c.chance(1, 4) {
        v.push(("t", c.pick(&["y", "s", "y:s", "foo:bar", "Y"]).into()));
    }
    if c.chance(1, 5) {
        v.push((c.pick(&["g", "foo", "P", "V"]), c.pick(&gen::EXT_VALUES).into()));
    }
    v.push(("p", b64_encode(p)));
    let mut v: Vec<(String, String)> = v.into_iter().map(|(a, b)| (a.to_owned(), b)).collect();
    many_ext(c, &mut v);
    if c.bool() {
        shuffle(c, &mut v);
    }
    if c.bool() {
        v.insert(0, ("v".into(), "DKIM1".into()));
    }
    v
}

pub fn rec_text(c: &mut Ctx) -> String {
    let key = &keys::all()[c.idx(4)];
    let mut v = valid_rec_tags(c, key, false);
    edit_tags(c, &mut v, &REC_TAGS, rec_value);
    let style = c.weighted(&[3, 4, 4]) as u64;
    let end = c.pick(&["", ";", "", ";", "", ";", "", ";", " ", "\r\n ", "; ", ";;"]);
    let s = render(c, &v, style, end);
    if c.chance(1, 5) { mutate_raw(c, s) } else { s }
}

// ---------------------------------------------------------------- forging

/// A signature to be made by the reference implementation.
#[derive(Clone)]
pub struct Forge {
    pub key: &'static Key,
    pub alg: Alg,
    pub hc: bool,
    pub bc: bool,
    pub d: String,
    pub s: String,
    pub h: Vec<String>,
    /// Text of the i= tag.
    pub i: Option<String>,
    pub l: Option<u64>,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub ext: Vec<(String, String)>,
    pub name: String,
    pub style: u64,
}

impl Forge {
    pub fn simple(key: &'static Key, d: &str, s: &str, h: &[&str]) -> Self {
        Self {
            key,
            alg: if key.is_rsa() { Alg::RsaSha256 } else { Alg::Ed25519 },
            hc: true,
            bc: true,
            d: d.into(),
            s: s.into(),
            h: h.iter().map(|x| x.to_string()).collect(),
            i: None,
            l: None,
            t: None,
            x: None,
            ext: vec![],
            name: "DKIM-Signature".into(),
            style: 1,
        }
    }

    pub fn record_name(&self) -> String {
        use crate::refm::sig::name_to_ascii;
        format!(
            "{}._domainkey.{}.",
            name_to_ascii(&self.s, false).unwrap(),
            name_to_ascii(&self.d, true).unwrap()
        )
    }

    pub fn record(&self) -> (String, Vec<u8>) {
        let p = if self.key.is_rsa() { &self.key.spki } else { &self.key.raw };
        (
            self.record_name(),
            format!("v=DKIM1; k={}; p={}", self.key.k(), b64_encode(p)).into_bytes(),
        )
    }

    /// Makes the header field. `bh`: use this body hash instead of the right one.
    pub fn body_hash(&self, body: &[u8]) -> Vec<u8> {
        self.body_hash_of(body, self.l.map(|l| usize::try_from(l).unwrap_or(usize::MAX)))
    }

    pub fn body_hash_of(&self, body: &[u8], l: Option<usize>) -> Vec<u8> {
        let cb = canon::body(self.bc, body);
        let n = l.map_or(cb.len(), |l| l.min(cb.len()));
        self.alg.hash(&cb[..n])
    }

    pub fn make(&self, c: &mut Ctx, hdrs: &Hdrs, body: &[u8], bh: Option<Vec<u8>>) -> (String, Vec<u8>) {
        let bh = bh.unwrap_or_else(|| self.body_hash(body));
        let canon = match (self.hc, self.bc) {
            (false, false) => c.pick(&["", "simple", "simple/simple"]),
            (true, false) => c.pick(&["relaxed", "relaxed/simple"]),
            (false, true) => "simple/relaxed",
            (true, true) => c.pick(&["relaxed/relaxed", "Relaxed/relaxed"]),
        };
        let mut tags: Vec<(String, String)> = vec![];
        let mut add = |n: &str, v: String| tags.push((n.to_owned(), v));
        add("v", "1".into());
        add("a", self.alg.name().into());
        if !canon.is_empty() {
            add("c", canon.into());
        }
        add("d", self.d.clone());
        add("s", self.s.clone());
        if let Some(i) = &self.i {
            add("i", i.clone());
        }
        if let Some(x) = self.l {
            add("l", x.to_string());
        }
        if let Some(x) = self.t {
            add("t", x.to_string());
        }
        if let Some(x) = self.x {
            add("x", x.to_string());
        }
        let sep = if self.style == 2 { c.pick(&[":", " : ", ":\r\n "]) } else { ":" };
        add("h", self.h.join(sep));
        add("bh", b64_encode(&bh));
        for (n, v) in &self.ext {
            add(n, v.clone());
        }
        add("b", "\u{1}".into());
        if self.style == 2 {
            shuffle(c, &mut tags);
        }
        let end = c.pick(&["", ";"]);
        let text = render(c, &tags, self.style, end);
        // the signed form: b= value and surrounding whitespace deleted
        let (before, after) = text.split_once('\u{1}').unwrap();
        let cut = before.rfind('=').unwrap() + 1;
        let after_cut = after.find(';').unwrap_or(after.len());
        let blank = format!("{}{}", &before[..cut], &after[after_cut..]);
        let mut data = canon::headers(self.hc, hdrs, &self.h);
        data.extend(canon::header(self.hc, &self.name, blank.as_bytes()));
        let b = self.key.sign(self.alg == Alg::RsaSha1, &self.alg.hash(&data));
        let mut b = b64_encode(&b);
        if self.style > 0 {
            let w = c.range(10, 70);
            let ls: Vec<String> = b.as_bytes().chunks(w).map(|x| String::from_utf8(x.to_vec()).unwrap()).collect();
            b = ls.join("\r\n\t");
        }
        (self.name.clone(), text.replace('\u{1}', &b).into_bytes())
    }
}

/// A random signature over the given message.
pub fn forge(c: &mut Ctx, hdrs: &Hdrs, body: &[u8]) -> Forge {
    let key = gen::key(c);
    let alg = gen::alg_for(c, key);
    let bc = c.bool();
    let d = gen::domain(c);
    let clen = canon::body(bc, body).len() as u64;
    let i = if c.chance(1, 3) {
        let l = gen::local_part(c).unwrap_or_default();
        let pre = c.pick(&["", "", "sub."]);
        let dd = if c.chance(1, 4) { crate::gen::upper(&d) } else { d.clone() };
        Some(crate::refm::qp::encode(format!("{l}@{pre}{dd}").as_bytes(), None, c.bool()))
    } else {
        None
    };
    Forge {
        key,
        alg,
        hc: c.bool(),
        bc,
        d,
        s: gen::selector(c),
        h: gen::signed_names(c, hdrs),
        i,
        l: if c.chance(1, 3) {
            Some(match c.weighted(&[3, 3, 1, 1]) {
                0 => clen,
                1 => c.below(clen + 1),
                2 => clen + 1,
                _ => c.u64(),
            })
        } else {
            None
        },
        t: None,
        x: None,
        ext: if c.chance(1, 5) {
            vec![(c.pick(&["r", "foo", "B", "bb"]).to_owned(), c.pick(&["", "b", "x y", "a=b"]).to_owned())]
        } else {
            vec![]
        },
        name: gen::case_mix(c, "DKIM-Signature"),
        style: c.weighted(&[2, 4, 5]) as u64,
    }
}
