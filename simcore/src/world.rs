//! Simulated machines: what the CPUID instruction answers on each core, before and after reconfiguration.
use crate::dict;
use crate::objs::*;
use crate::rng::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// plausible contents, varied
    Rich,
    /// as Rich with unlikely and reserved encodings mixed in
    Odd,
    /// uniform garbage behind leaf 0 / 0x8000_0000
    Garbage,
    Ones,
    Zeros,
}
#[derive(Clone, Debug)]
pub struct Machine {
    pub seed: u64,
    pub cores: u8,
    pub classes: u8,
    pub style: Style,
    /// guest under a hypervisor: traps make every CPUID slow
    pub guest: bool,
    /// may maxima / vendor differ between core classes and epochs
    pub unstable_id: bool,
}
const VENDORS: &[&[u8; 12]] = &[b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls", b"  Shanghai  ", b"VIA VIA VIA ", b"GenuineTMx86"];
/// Other than letters and spaces, nearly another's, or no text.
const ODD_VENDORS: &[&[u8; 12]] = &[
    b"G\xc3\xa9nuineInte",
    b"\xe2\x84\xa2 VendorCo",
    b"\xd0\x9f\xd1\x80\xd0\xbe\xd1\x86\xd0\xb5\xd1\x81",
    b"genuineintel",
    b"GenuineIotel",
    b"AuthenticAMd",
    b"AuthenticAM\0",
    b" GenuineInt ",
    b"HygonGenuinf",
    b"\0\0\0\0\0\0\0\0\0\0\0\0",
    b"abc\0defghijk",
    b"Line\nBrk\t\r\x1b ",
    b"\"Quo\\ted\" {}",
    b"            ",
    b"GenuineInte\xff",
    b"ineIGenuntel",
];
const BASIC_MAX: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f, 0x20, 0x21, 0x23, 0x24];
const EXT_MAX: &[u32] = &[
    0, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0002, 0x8000_0003, 0x8000_0004, 0x8000_0005, 0x8000_0006, 0x8000_0007, 0x8000_0008, 0x8000_0009, 0x8000_000a, 0x8000_0018, 0x8000_0019, 0x8000_001a,
    0x8000_001b, 0x8000_001c, 0x8000_001d, 0x8000_001e, 0x8000_001f, 0x8000_0020, 0x8000_0021, 0x8000_0022, 0x8000_0023, 0x8000_0025, 0x8000_0026, 0x8000_0028,
];
pub fn w4(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
/// 48 bytes of brand text; sometimes unterminated, padded, or not UTF-8.
fn text48(r: &mut Rng) -> [u8; 48] {
    let mut t = [0u8; 48];
    let base: &[u8] = match r.below(6) {
        0 => b"Intel(R) Xeon(R) Platinum 8380 CPU @ 2.30GHz",
        1 => b"   AMD EPYC 7763 64-Core Processor   ",
        2 => b"",
        3 => b"12th Gen Intel(R) Core(TM) i9-12900K and more!!!",
        4 => b"\xce\xbcArch Core \xe2\x84\xa2 9000",
        _ => b"Hygon C86 7185 32-core Processor",
    };
    t[..base.len()].copy_from_slice(base);
    if !dict::texts().is_empty() && r.pct(25) {
        let x = &dict::texts()[r.below(dict::texts().len() as u64) as usize];
        let at = if r.pct(50) { 0 } else { r.below((48 - x.len()) as u64 + 1) as usize };
        t[at..at + x.len()].copy_from_slice(x);
    }
    match r.below(8) {
        0 => t[r.below(48) as usize] = 0xff,
        1 => t[r.below(48) as usize] = 0,
        2 => {
            for c in t.iter_mut() {
                if *c == 0 {
                    *c = b' ';
                }
            }
        }
        3 => {
            for c in t.iter_mut() {
                if *c == 0 {
                    *c = b'a' + r.below(26) as u8;
                }
            }
        }
        _ => {}
    }
    t
}
impl Machine {
    pub fn gen(seed: u64, style: Option<Style>) -> Machine {
        let mut r = Rng(mix(seed, 0x3ac));
        let style = style.unwrap_or_else(|| match r.below(20) {
            0..=10 => Style::Rich,
            11..=15 => Style::Odd,
            16..=17 => Style::Garbage,
            18 => Style::Ones,
            _ => Style::Zeros,
        });
        Machine { seed, cores: 1 + r.below(6) as u8, classes: 1 + r.below(3) as u8, style, guest: r.pct(30), unstable_id: r.pct(40) }
    }
    fn idseed(&self, class: u8, epoch: u8) -> u64 {
        let h = mixn(self.seed, &[0x1d, class as u64, epoch as u64]);
        // most machines keep vendor and maxima on all cores and across epochs
        if self.unstable_id && h % 3 == 0 { h } else { mix(self.seed, 0x1d00) }
    }
    pub fn vendor(&self, class: u8, epoch: u8) -> [u8; 12] {
        let h = mix(self.idseed(class, epoch), 1);
        let mut v = *VENDORS[match h % 20 {
            0..=6 => 0,
            7..=13 => 1,
            14..=16 => 2,
            17 => 3,
            18 => 4 + (h >> 8) as usize % 3,
            _ => 0,
        }];
        if h % 20 == 19 {
            if h >> 40 & 1 == 0 {
                v[(h >> 16) as usize % 12] = (h >> 24) as u8;
            } else {
                v = *ODD_VENDORS[(h >> 16) as usize % ODD_VENDORS.len()];
            }
        }
        if !dict::texts().is_empty() && mix(h, 2) % 10 == 0 {
            let t = &dict::texts()[mix(h, 3) as usize % dict::texts().len()];
            let n = t.len().min(12);
            v[..n].copy_from_slice(&t[..n]);
        }
        v
    }
    pub fn max_basic(&self, class: u8, epoch: u8) -> u32 {
        let h = mix(self.idseed(class, epoch), 2);
        if !dict::new().is_empty() && mix(h, 1) % 12 == 0 {
            let v = dict::pick(&mut Rng(mix(h, 4)));
            if v < 0x1000 {
                return v;
            }
        }
        match h % 10 {
            0..=3 => [0x1f, 0x20, 0x24, 0x1f][(h >> 8) as usize % 4],
            4..=8 => BASIC_MAX[(h >> 8) as usize % BASIC_MAX.len()],
            _ => [0x7fff_ffff, 0x8000_0004, 0xffff_ffff, 0x0010_0000][(h >> 8) as usize % 4],
        }
    }
    pub fn max_ext(&self, class: u8, epoch: u8) -> u32 {
        let h = mix(self.idseed(class, epoch), 3);
        if !dict::new().is_empty() && mix(h, 1) % 12 == 0 {
            let v = dict::pick(&mut Rng(mix(h, 4)));
            if v < 0x1000 || v >> 12 == 0x80000 {
                return v | 0x8000_0000;
            }
        }
        match h % 10 {
            0..=3 => [0x8000_0028, 0x8000_0026, 0x8000_0023, 0x8000_0028][(h >> 8) as usize % 4],
            4..=8 => EXT_MAX[(h >> 8) as usize % EXT_MAX.len()],
            _ => [0xffff_ffff, 0x8fff_ffff, 0x1234_5678, 0x8000_1000][(h >> 8) as usize % 4],
        }
    }
    /// How many entries the enumeration at a leaf has: on a few odd machines, many times as many as on others.
    fn entries(&self, leaf: u32, n: u32) -> u32 {
        let h = mixn(self.seed, &[0x1049, leaf as u64]);
        if self.style == Style::Odd && h % 24 == 0 {
            [70, 140, 300, 5000][(h >> 8) as usize % 4] + n
        } else {
            n
        }
    }
    pub fn reply(&self, core: u8, epoch: u8, leaf: u32, sub: u32) -> [u32; 4] {
        let class = core % self.classes.max(1);
        let mut q = self.base(class, epoch, leaf, sub);
        if self.style == Style::Ones || self.style == Style::Zeros {
            return q;
        }
        // per-core identity fields
        let id = (core as u32) * 2 + 1;
        match leaf {
            1 => q[1] = (q[1] & 0x00ff_ffff) | (id << 24),
            0xb | 0x1f | 0x8000_0026 => q[3] = id,
            0x8000_001e => q[0] = id,
            _ => {}
        }
        q
    }
    fn base(&self, class: u8, epoch: u8, leaf: u32, sub: u32) -> [u32; 4] {
        let mut q = self.plain(class, epoch, leaf, sub);
        if leaf == 0 || leaf == 0x8000_0000 {
            return q;
        }
        // constants of the source, in any field
        let mut r = Rng(mixn(self.seed, &[leaf as u64, sub as u64, class as u64, epoch as u64, 0xd1c7]));
        let eax = q[0];
        while r.pct(dict::rate()) {
            dict::spice(&mut r, &mut q);
        }
        match leaf {
            // not the counts that drive loops
            0x17 | 0x18 if sub == 0 => q[0] = eax,
            1 if r.pct(2 * dict::rate()) => q[0] = dict::signature(&mut r, q[0]),
            0x4000_0000 if !dict::texts().is_empty() && r.pct(10) => {
                let t = &dict::texts()[r.below(dict::texts().len() as u64) as usize];
                let mut v = [0u8; 12];
                let n = t.len().min(12);
                v[..n].copy_from_slice(&t[..n]);
                q[1..].copy_from_slice(&[w4(&v[0..]), w4(&v[4..]), w4(&v[8..])]);
            }
            _ => {}
        }
        q
    }
    fn plain(&self, class: u8, epoch: u8, leaf: u32, sub: u32) -> [u32; 4] {
        if leaf == 0 {
            let v = self.vendor(class, epoch);
            return [self.max_basic(class, epoch), w4(&v[0..]), w4(&v[8..]), w4(&v[4..])];
        }
        let mut r = Rng(mixn(self.seed, &[leaf as u64, sub as u64, class as u64, epoch as u64]));
        if leaf == 0x8000_0000 {
            let n = r.next();
            return [self.max_ext(class, epoch), n as u32, (n >> 32) as u32, r.next() as u32];
        }
        match self.style {
            Style::Ones => return [u32::MAX; 4],
            Style::Zeros => return [0; 4],
            _ => {}
        }
        let mut q = [0u32; 4];
        for x in q.iter_mut() {
            let (a, b) = (r.next(), r.next());
            *x = match a % 16 {
                0..=6 => b as u32,
                7..=9 => (b & (b >> 32)) as u32,
                10..=12 => (b | (b >> 32)) as u32,
                13 => 0,
                14 => u32::MAX,
                _ => 1 << (b % 32),
            };
        }
        if self.style == Style::Garbage {
            // keep counts that drive loops small enough to finish
            if leaf == 0x18 && sub == 0 {
                q[0] &= 0x1f;
            }
            return q;
        }
        let odd = self.style == Style::Odd;
        // stable structure parameters of this leaf (same for all sub-leaves)
        let mut p = Rng(mixn(self.seed, &[leaf as u64, 0xfeed, class as u64, epoch as u64]));
        match leaf {
            1 => {
                // families 6 and 15 matter most
                match r.below(4) {
                    0 => q[0] = (q[0] & !0xf00) | 0x600,
                    1 => q[0] |= 0xf00,
                    2 => q[0] = (q[0] & !0x0ff0_0000) | 0xf00,
                    _ => {}
                }
            }
            2 => {
                // now and then a few descriptors only, repeated
                let few = 1 + if p.pct(30) { p.below(3) } else { CACHE_DESC.len() as u64 - 1 };
                let from = p.below(CACHE_DESC.len() as u64);
                for i in 0..16 {
                    let b = match r.below(10) {
                        0..=3 => 0,
                        4 if odd => r.next() as u8,
                        _ => CACHE_DESC[(from + r.below(few)) as usize % CACHE_DESC.len()].0,
                    };
                    q[i / 4] = (q[i / 4] & !(0xff << (8 * (i % 4)))) | (b as u32) << (8 * (i % 4));
                }
                q[0] = (q[0] & !0xff) | 1;
                if !odd {
                    for x in q.iter_mut() {
                        *x &= 0x7fff_ffff;
                    }
                }
            }
            4 | 0x8000_001d => {
                let n = self.entries(leaf, p.below(7) as u32);
                let t = if sub >= n { 0 } else if odd && n < 70 && r.pct(10) { 4 + r.below(28) as u32 } else { 1 + r.below(3) as u32 };
                q[0] = (q[0] & !0x1f) | t;
                if sub < n && r.pct(3) {
                    q[2] = u32::MAX;
                }
            }
            0xb | 0x1f => {
                let n = self.entries(leaf, p.below(8) as u32);
                let t = if sub >= n { 0 } else if odd && r.pct(20) { 6 + r.below(250) as u32 } else { 1 + r.below(6) as u32 };
                q[2] = (q[2] & 0xffff_0000) | t << 8 | (if odd && p.pct(30) { r.next() as u32 } else { sub } & 0xff);
            }
            0xd if sub == 0 => {
                q[0] = (q[0] & 0x0006_22ff) | if odd { r.next() as u32 & q[1] } else { 0 };
            }
            0xd if sub == 1 => {
                q[2] = (q[2] & 0x0001_fd00) | if odd { r.next() as u32 & q[3] } else { 0 };
            }
            0x12 if sub >= 2 => {
                let n = self.entries(leaf, p.below(6) as u32);
                let t = if sub - 2 < n { 1 } else if odd { [0, 0, 2, 3, 15][r.below(5) as usize] } else { 0 };
                q[0] = (q[0] & !0xf) | t;
            }
            0x14 if sub == 0 => q[0] = [0, 1, 1, 2, u32::MAX][r.below(5) as usize],
            0x17 if sub == 0 => q[0] = [0, 2, 3, 4, 5, 6, 9, 12][r.below(8) as usize],
            0x17 if sub <= 3 || r.pct(20) => {
                let t = text48(&mut p);
                let o = (sub.wrapping_add(2) % 3 * 16) as usize;
                q = [w4(&t[o..]), w4(&t[o + 4..]), w4(&t[o + 8..]), w4(&t[o + 12..])];
            }
            0x18 => {
                let n = p.below(14) as u32;
                if sub == 0 {
                    q[0] = if odd && p.pct(10) { u32::MAX } else { n };
                }
                let t = match r.below(10) {
                    0..=2 => 0,
                    9 if odd => 6 + r.below(26) as u32,
                    _ => 1 + r.below(5) as u32,
                };
                q[3] = (q[3] & !0x1f) | if q[0] == u32::MAX && sub == 0 { 1 } else { t };
            }
            0x4000_0000 => {
                q[0] = [0, 1, 0x4000_0000, 0x4000_0001, 0x4000_000f, 0x4000_0010, 0x4000_0011, 0x4000_0100, 0x4001_0000, 0x8000_0000, u32::MAX][r.below(11) as usize];
                if r.pct(80) {
                    let (sig, _) = HYPERVISORS[r.below(HYPERVISORS.len() as u64) as usize];
                    q[1] = w4(&sig[0..]);
                    q[2] = w4(&sig[4..]);
                    q[3] = w4(&sig[8..]);
                    if odd && r.pct(20) {
                        q[1 + r.below(3) as usize] ^= 1 << r.below(32);
                    }
                }
            }
            0x8000_0002..=0x8000_0004 => {
                let t = text48(&mut Rng(mixn(self.seed, &[0xb4a, class as u64, epoch as u64])));
                let o = ((leaf - 0x8000_0002) * 16) as usize;
                q = [w4(&t[o..]), w4(&t[o + 4..]), w4(&t[o + 8..]), w4(&t[o + 12..])];
            }
            0x8000_001e if odd && r.pct(20) => q[1] |= 0xff00,
            0x8000_0026 => {
                let n = self.entries(leaf, p.below(7) as u32);
                let t = if sub >= n { 0 } else if odd && r.pct(20) { 5 + r.below(250) as u32 } else { 1 + r.below(4) as u32 };
                q[2] = (q[2] & 0xffff_0000) | t << 8 | (if odd && p.pct(30) { r.next() as u32 } else { sub } & 0xff);
            }
            _ => {}
        }
        q
    }
}
