//! Taking debug output apart.
use crate::val::{Str, Val};

/// Calls `f` with every character and whether it stands outside of quotes.
fn scan(t: &str, mut f: impl FnMut(usize, char, bool)) {
    let (mut quoted, mut esc) = (false, false);
    for (i, c) in t.char_indices() {
        if quoted {
            f(i, c, false);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quoted = false;
            }
        } else {
            quoted = c == '"';
            f(i, c, !quoted);
        }
    }
}
/// The labelled values of `Name { a: 1, b: [..] }`.
pub fn fields(t: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let body = match (t.find(" { "), t.strip_suffix(" }")) {
        (Some(p), Some(b)) if t[..p].chars().all(|c| c.is_alphanumeric() || c == '_') => &b[p + 3..],
        _ => return v,
    };
    let mut cuts = vec![0];
    let mut depth = 0;
    scan(body, |i, c, out| {
        if out {
            match c {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                ',' if depth == 0 => cuts.push(i + 1),
                _ => {}
            }
        }
    });
    cuts.push(body.len() + 1);
    for w in cuts.windows(2) {
        let part = body[w[0].min(body.len())..w[1] - 1].trim();
        if let Some(p) = part.find(": ") {
            v.push((part[..p].to_string(), part[p + 2..].to_string()));
        }
    }
    v
}
/// Names outside of quotes.
pub fn words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new()];
    scan(t, |_, c, out| {
        if out && (c.is_alphanumeric() || c == '_') {
            v.last_mut().unwrap().push(c);
        } else if !v.last().unwrap().is_empty() {
            v.push(String::new());
        }
    });
    v.retain(|w| !w.is_empty());
    v
}
fn unquote(t: &str) -> Option<String> {
    let t = t.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            'u' => {
                let hex: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
            }
            c => o.push(c),
        }
    }
    Some(o)
}
/// Is `t` the debug output of the value an accessor gave?
pub fn shows(t: &str, v: &Val) -> bool {
    let inner = t.strip_prefix("Some(").and_then(|x| x.strip_suffix(')'));
    let is = |t: &str| match v {
        Val::B(b) => t == if *b { "true" } else { "false" },
        Val::U(u) => t == u.to_string(),
        Val::N => t == "None",
        Val::S(s) => unquote(t).map_or(false, |x| Str::new(&x) == *s),
        Val::E(n, p) => {
            let w = words(t);
            let mut nums = [0u32; 3];
            for (i, x) in w.iter().skip(1).take(3).enumerate() {
                nums[i] = match x.parse() {
                    Ok(x) => x,
                    Err(_) => return false,
                };
            }
            w.first().map_or(false, |x| x == n) && nums == *p
        }
        Val::P(..) | Val::Any => true,
    };
    is(t) || inner.map_or(false, is)
}
