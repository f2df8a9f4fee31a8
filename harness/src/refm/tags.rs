//! RFC 6376, section 3.2: tag=value lists.

#[derive(Clone, Debug, PartialEq)]
pub enum TagErr {
    Syntax,
    Duplicate,
}

fn valchar(c: char) -> bool {
    ('!'..=':').contains(&c) || ('<'..='~').contains(&c) || !c.is_ascii()
}

/// Whether `s` consists only of what `f` accepts and of well-formed folding
/// whitespace.
fn words_and_fws(s: &str, f: impl Fn(char) -> bool) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            ' ' | '\t' => i += 1,
            '\r' => {
                if cs.get(i + 1) == Some(&'\n') && matches!(cs.get(i + 2), Some(' ' | '\t')) {
                    i += 3;
                } else {
                    return false;
                }
            }
            c if f(c) => i += 1,
            _ => return false,
        }
    }
    true
}

pub fn trim(s: &str) -> &str {
    s.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n'))
}

/// Whitespace runs with two line breaks are not valid in a header and the
/// RFC and its errata differ on them: outside of what is judged.
pub fn out_of_domain(s: &str) -> bool {
    let mut breaks = 0;
    for c in s.chars() {
        match c {
            ' ' | '\t' | '\r' => {}
            '\n' => {
                breaks += 1;
                if breaks > 1 {
                    return true;
                }
            }
            _ => breaks = 0,
        }
    }
    // also across "=", ";", ":" or "|" there is no problem: those reset
    false
}

pub fn parse(s: &str) -> Result<Vec<(String, String)>, TagErr> {
    let mut segs: Vec<&str> = s.split(';').collect();
    if segs.len() > 1 && segs.last() == Some(&"") {
        segs.pop();
    }
    let mut out: Vec<(String, String)> = vec![];
    for seg in segs {
        let (n, v) = seg.split_once('=').ok_or(TagErr::Syntax)?;
        let name = trim(n);
        // (stray CR or LF, trimmed just now, are refused by `words_and_fws`)
        let mut cs = name.chars();
        let ok = cs.next().is_some_and(|c| c.is_ascii_alphabetic())
            && cs.all(|c| c.is_ascii_alphanumeric() || c == '_');
        if !ok || !words_and_fws(n, |c| c.is_ascii_alphanumeric() || c == '_') || !words_and_fws(v, valchar) {
            return Err(TagErr::Syntax);
        }
        out.push((name.to_owned(), trim(v).to_owned()));
    }
    for i in 0..out.len() {
        if out[..i].iter().any(|(n, _)| *n == out[i].0) {
            return Err(TagErr::Duplicate);
        }
    }
    Ok(out)
}

pub fn colon_list(v: &str) -> Vec<String> {
    v.split(':').map(|x| trim(x).to_owned()).collect()
}

pub fn strip_ws(v: &str) -> Vec<u8> {
    v.bytes().filter(|b| !matches!(b, b' ' | b'\t' | b'\r' | b'\n')).collect()
}
