//! Heap-free observation values.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Str {
    len: u16,
    hash: u64,
    head: [u8; 56],
}
impl Str {
    pub fn new(s: &str) -> Str {
        let b = s.as_bytes();
        let mut head = [0u8; 56];
        let n = b.len().min(56);
        head[..n].copy_from_slice(&b[..n]);
        let mut h = 0xcbf29ce484222325u64;
        for c in b {
            h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
        }
        Str { len: b.len() as u16, hash: h, head }
    }
}
#[derive(Clone, Copy)]
pub enum Val {
    B(bool),
    U(u128),
    P(u64, u64),
    /// absent
    N,
    S(Str),
    /// enumeration variant, with payload
    E(&'static str, [u32; 3]),
    /// any value accepted (model only: the documentation leaves the value open)
    Any,
}
pub fn e(n: &'static str) -> Val {
    Val::E(n, [0; 3])
}
pub fn s(x: &str) -> Val {
    Val::S(Str::new(x))
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Any, _) | (_, Any) => true,
            (B(a), B(b)) => a == b,
            (U(a), U(b)) => a == b,
            (P(a, b), P(c, d)) => a == c && b == d,
            (N, N) => true,
            (S(a), S(b)) => a == b,
            (E(a, x), E(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Val::B(b) => write!(f, "{}", b),
            Val::U(u) => write!(f, "{:#x}", u),
            Val::P(a, b) => write!(f, "({:#x},{:#x})", a, b),
            Val::N => write!(f, "None"),
            Val::S(s) => write!(
                f,
                "{:?}(len {})",
                String::from_utf8_lossy(&s.head[..(s.len as usize).min(56)]),
                s.len
            ),
            Val::E(n, p) => {
                if *p == [0; 3] {
                    write!(f, "{}", n)
                } else {
                    write!(f, "{}({:#x},{:#x},{:#x})", n, p[0], p[1], p[2])
                }
            }
            Val::Any => write!(f, "<any>"),
        }
    }
}
impl Val {
    pub fn hash(&self, h: u64) -> u64 {
        use crate::rng::mix;
        match self {
            Val::B(b) => mix(h, 1 + *b as u64),
            Val::U(u) => mix(mix(h, *u as u64), ((*u >> 64) as u64).wrapping_add(3)),
            Val::P(a, b) => mix(mix(h, *a), *b),
            Val::N => mix(h, 7),
            Val::S(s) => mix(mix(h, s.hash), s.len as u64),
            Val::E(n, p) => {
                let mut x = h;
                for b in n.as_bytes() {
                    x = mix(x, *b as u64);
                }
                mix(mix(x, p[0] as u64 | (p[1] as u64) << 32), p[2] as u64)
            }
            Val::Any => h,
        }
    }
}
