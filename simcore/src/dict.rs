//! Constants of the library's source (see build.rs): all of them, and those added since the pinned commit.
include!(concat!(env!("OUT_DIR"), "/dict.rs"));
use crate::rng::*;
use std::sync::OnceLock;

struct Dict {
    new: Vec<u32>,
    texts: Vec<Vec<u8>>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
fn dict() -> &'static Dict {
    DICT.get_or_init(|| Dict { new: NEW.to_vec(), texts: TEXTS.iter().map(|t| t.to_vec()).collect() })
}
/// The added numbers and texts.
pub fn new() -> &'static [u32] {
    &dict().new
}
pub fn texts() -> &'static [Vec<u8>] {
    &dict().texts
}
/// A line for a replay file, and the way back: a replay uses the dictionary of the run that failed, so that it
/// is the same execution on a tree with other constants (the repaired one, say).
pub fn line() -> String {
    let n: Vec<String> = new().iter().map(|x| format!("{:x}", x)).collect();
    let t: Vec<String> = texts().iter().map(|t| t.iter().map(|b| format!("{:02x}", b)).collect()).collect();
    format!("{};{}", n.join(","), t.join(","))
}
pub fn set(l: &str) {
    let (n, t) = l.split_once(';').unwrap_or((l, ""));
    let new = n.split(',').filter_map(|x| u32::from_str_radix(x, 16).ok()).collect();
    let hex = |s: &str| (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    let texts = t.split(',').filter(|s| !s.is_empty()).map(hex).collect();
    let _ = DICT.set(Dict { new, texts });
}

/// One of the constants, added ones preferred.
pub fn pick(r: &mut Rng) -> u32 {
    let new = new();
    if !new.is_empty() && r.pct(80) {
        let v = new[r.below(new.len() as u64) as usize];
        // values next to an added one decide comparisons
        match r.below(4) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        }
    } else {
        ALL[r.below(ALL.len().max(1) as u64) as usize]
    }
}
/// How many of 100 replies carry such a constant.
pub fn rate() -> u64 {
    if new().is_empty() { 2 } else { 12 }
}
/// Put a constant into a field of one of the registers.
pub fn spice(r: &mut Rng, q: &mut [u32; 4]) {
    let v = pick(r);
    let bits = 32 - v.leading_zeros();
    let width = match bits {
        0..=4 if r.pct(60) => 4,
        0..=8 => 8,
        9..=12 if r.pct(50) => 12,
        9..=16 => 16,
        _ => 32,
    };
    let lo = if width == 32 { 0 } else { r.below((32 - width) / 4 + 1) * 4 };
    let mask = (((1u64 << width) - 1) << lo) as u32;
    let i = r.below(4) as usize;
    q[i] = (q[i] & !mask) | (v << lo & mask);
}
/// Family, model and stepping made of constants.
pub fn signature(r: &mut Rng, eax: u32) -> u32 {
    let mut e = eax;
    if r.pct(70) {
        let f = pick(r) % 0x10f;
        let (base, ext) = if f >= 15 { (15, f - 15) } else { (f, r.below(2) as u32) };
        e = (e & !0x0ff0_0f00) | base << 8 | ext << 20;
    }
    if r.pct(70) {
        let m = pick(r) & 0xff;
        e = (e & !0x000f_00f0) | (m & 15) << 4 | (m >> 4) << 16;
    }
    if r.pct(30) {
        e = (e & !15) | pick(r) & 15;
    }
    e
}
