//! The constants of the library's source. Simulated machines deliver them now and then, those that the pinned
//! commit (base.dict) did not have most of all: a decision added on a particular value is soon met.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            if p.file_name().map_or(true, |n| n != "tests") {
                files(&p, out);
            }
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}
fn number(s: &str) -> Option<u64> {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let (d, r) = if let Some(x) = s.strip_prefix("0x") {
        (x, 16)
    } else if let Some(x) = s.strip_prefix("0b") {
        (x, 2)
    } else if let Some(x) = s.strip_prefix("0o") {
        (x, 8)
    } else {
        (s.as_str(), 10)
    };
    let n = d.find(|c: char| !c.is_digit(r)).unwrap_or(d.len());
    let rest = &d[n..];
    if !rest.is_empty() && !rest.starts_with('u') && !rest.starts_with('i') {
        return None;
    }
    u64::from_str_radix(&d[..n], r).ok()
}
fn scan(t: &str, nums: &mut BTreeMap<u64, u32>, strs: &mut BTreeMap<Vec<u8>, u32>) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && b.get(i + 1) == Some(&b'*') {
            let mut depth = 1;
            i += 2;
            while i < b.len() && depth > 0 {
                if b[i..].starts_with(b"/*") {
                    depth += 1;
                    i += 1;
                } else if b[i..].starts_with(b"*/") {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if c == b'"' {
            let mut s = Vec::new();
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                    let x = match b.get(i) {
                        Some(b'0') => 0,
                        Some(b'n') => b'\n',
                        Some(b'x') => {
                            let v = t.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(0);
                            i += 2;
                            v
                        }
                        Some(x) => *x,
                        None => break,
                    };
                    s.push(x);
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if (2..=48).contains(&s.len()) {
                *strs.entry(s).or_default() += 1;
            }
        } else if c == b'\'' {
            // a character or a lifetime
            if b.get(i + 1) == Some(&b'\\') {
                i += 2;
                while i < b.len() && b[i] != b'\'' {
                    i += 1;
                }
                i += 1;
            } else if b.get(i + 2) == Some(&b'\'') {
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            if let Some(n) = number(&t[s..i]) {
                *nums.entry(n).or_default() += 1;
            }
        } else {
            i += 1;
        }
    }
}
fn main() {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let toml = std::fs::read_to_string(here.join("Cargo.toml")).unwrap();
    let path = toml.lines().find(|l| l.starts_with("raw-cpuid")).and_then(|l| l.split("path = \"").nth(1)).and_then(|l| l.split('"').next()).unwrap();
    let src = here.join(path).join("src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=../simcore/build.rs");
    println!("cargo:rerun-if-changed=../simcore/base.dict");
    println!("cargo:rerun-if-changed=Cargo.toml");
    let (mut nums, mut strs) = (BTreeMap::new(), BTreeMap::new());
    let mut fs = Vec::new();
    files(&src, &mut fs);
    for f in fs {
        scan(&std::fs::read_to_string(f).unwrap_or_default(), &mut nums, &mut strs);
    }
    let hex = |s: &[u8]| s.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let mut now = String::new();
    for (n, c) in &nums {
        now += &format!("n {} {}\n", n, c);
    }
    for (s, c) in &strs {
        now += &format!("s {} {}\n", hex(s), c);
    }
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("now.dict"), &now).unwrap();
    let base = std::fs::read_to_string(here.join("../simcore/base.dict")).unwrap_or_else(|_| now.clone());
    let mut had: BTreeMap<(String, String), u32> = BTreeMap::new();
    for l in base.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        had.insert((w[0].into(), w[1].into()), w[2].parse().unwrap());
    }
    let new = |k: &str, v: String, c: u32| c > had.get(&(k.to_string(), v)).copied().unwrap_or(0);
    let words = |n: u64| if n >> 32 == 0 { vec![n as u32] } else { vec![n as u32, (n >> 32) as u32] };
    // the constants of the pinned commit, whatever the source is now: a replay must not depend on them
    let mut all = Vec::new();
    for l in base.lines().filter(|l| l.starts_with("n ")) {
        for v in words(l.split(' ').nth(1).unwrap().parse().unwrap()) {
            if !all.contains(&v) {
                all.push(v);
            }
        }
    }
    let mut fresh = Vec::new();
    for (n, c) in &nums {
        for v in words(*n) {
            if new("n", n.to_string(), *c) && !fresh.contains(&v) {
                fresh.push(v);
            }
        }
    }
    let texts: Vec<&Vec<u8>> = strs.iter().filter(|(s, c)| new("s", hex(s), **c)).map(|x| x.0).collect();
    let code = format!("const ALL: &[u32] = &{:?};\nconst NEW: &[u32] = &{:?};\nconst TEXTS: &[&[u8]] = &[{}];\n", all, fresh, texts.iter().map(|t| format!("&{:?}", t)).collect::<Vec<_>>().join(", "));
    std::fs::write(out.join("dict.rs"), code).unwrap();
}
