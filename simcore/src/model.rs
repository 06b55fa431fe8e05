//! What may be asked of the library (queries, sub-queries, iterators), how to ask it, and the reference
//! model of each: which leaves it consults and what comes back, given the replies actually delivered.
use crate::ctx::Read;
use super::objs::*;
use super::R;
use crate::val::Val;
use raw_cpuid::*;

/// Model side of a CpuId object: who and what the CPU said it was at construction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MCpu {
    pub inst: u32,
    pub vendor: Vend,
    pub basic: u32,
    pub ext: u32,
}
impl MCpu {
    pub fn from(inst: u32, l0: [u32; 4], l8: [u32; 4]) -> MCpu {
        let mut v = [0u8; 12];
        for (i, r) in [l0[B], l0[D], l0[C]].iter().enumerate() {
            v[i * 4..i * 4 + 4].copy_from_slice(&r.to_le_bytes());
        }
        let vendor = match &v {
            b"GenuineIntel" => Vend::Intel,
            b"AuthenticAMD" | b"HygonGenuine" => Vend::Amd,
            _ => Vend::Other,
        };
        MCpu { inst, vendor, basic: l0[A], ext: l8[A] }
    }
    pub fn sup(&self, leaf: u32) -> bool {
        if self.vendor == Vend::Amd && matches!(leaf, 2..=4 | 8..=0xa) {
            return false;
        }
        if leaf < 0x8000_0000 {
            leaf <= self.basic
        } else {
            leaf <= self.ext
        }
    }
    /// May a formatting of the whole CpuId object read this leaf?
    pub fn any_ok(&self, leaf: u32) -> bool {
        matches!(leaf, 0 | 0x8000_0000 | 0x4000_0000 | 0x4000_0010) || self.sup(leaf)
    }
}

pub type Key = (u32, u32);
/// The model's access to the replies delivered during one operation.
pub struct Rd<'a> {
    pub reads: &'a [Read],
    pub inst: u32,
    /// which of several differing deliveries of a key to believe
    pub choice: Vec<(Key, usize)>,
    pub req: Vec<Key>,
    pub may: Vec<Key>,
    pub missing: Option<Key>,
    pub too_long: bool,
}
impl<'a> Rd<'a> {
    pub fn new(reads: &'a [Read], inst: u32) -> Rd<'a> {
        Rd { reads, inst, choice: Vec::new(), req: Vec::new(), may: vec![(0, 0), (0x8000_0000, 0)], missing: None, too_long: false }
    }
    pub fn get(&mut self, leaf: u32, sub: u32) -> [u32; 4] {
        if !self.req.contains(&(leaf, sub)) {
            self.req.push((leaf, sub));
        }
        let pick = self.choice.iter().find(|c| c.0 == (leaf, sub)).map_or(0, |c| c.1);
        let mut n = 0;
        let mut seen: Vec<[u32; 4]> = Vec::new();
        for r in self.reads {
            if r.inst == self.inst && (r.leaf, r.sub) == (leaf, sub) && !seen.contains(&r.regs) {
                if n == pick {
                    return r.regs;
                }
                seen.push(r.regs);
                n += 1;
            }
        }
        if self.missing.is_none() {
            self.missing = Some((leaf, sub));
        }
        [0; 4]
    }
    pub fn has(&self, leaf: u32, sub: u32) -> bool {
        self.reads.iter().any(|r| r.inst == self.inst && (r.leaf, r.sub) == (leaf, sub))
    }
    pub fn allow(&mut self, leaf: u32, sub: u32) {
        self.may.push((leaf, sub));
    }
    pub fn extra(&self) -> Option<Read> {
        self.reads.iter().find(|r| r.inst != self.inst || !(self.req.contains(&(r.leaf, r.sub)) || self.may.contains(&(r.leaf, r.sub)))).copied()
    }
    /// keys delivered more than once with different contents: (key, number of distinct contents)
    pub fn dups(reads: &[Read], inst: u32) -> Vec<(Key, usize)> {
        let mut out: Vec<(Key, Vec<[u32; 4]>)> = Vec::new();
        for r in reads.iter().filter(|r| r.inst == inst) {
            match out.iter_mut().find(|o| o.0 == (r.leaf, r.sub)) {
                Some(o) => {
                    if !o.1.contains(&r.regs) {
                        o.1.push(r.regs)
                    }
                }
                None => out.push(((r.leaf, r.sub), vec![r.regs])),
            }
        }
        out.into_iter().filter(|o| o.1.len() > 1).map(|o| (o.0, o.1.len())).collect()
    }
}

pub enum It {
    Cache(CacheInfoIter),
    Param(CacheParametersIter<R>),
    Topo(ExtendedTopologyIter<R>),
    State(ExtendedStateIter<R>),
    Sgx(SgxSectionIter<R>),
    Dat(DatIter<R>),
    CpuTopo(ExtendedCpuTopologyIter<R>),
    Soc(SoCVendorAttributesIter<R>),
}
impl It {
    pub fn next(&mut self) -> Option<Obj> {
        Some(match self {
            It::Cache(i) => Obj::CacheInfo(i.next()?),
            It::Param(i) => Obj::CacheParameter(i.next()?),
            It::Topo(i) => Obj::ExtendedTopologyLevel(i.next()?),
            It::State(i) => Obj::ExtendedState(i.next()?),
            It::Sgx(i) => Obj::EpcSection(i.next()?),
            It::Dat(i) => Obj::DatInfo(i.next()?),
            It::CpuTopo(i) => Obj::ExtendedCpuTopologyLevel(i.next()?),
            It::Soc(i) => Obj::CpuIdResult(i.next()?),
        })
    }
    pub fn dup(&self) -> Option<It> {
        Some(match self {
            It::Cache(i) => It::Cache(i.clone()),
            It::Param(i) => It::Param(i.clone()),
            It::Topo(i) => It::Topo(i.clone()),
            It::State(i) => It::State(i.clone()),
            It::Sgx(i) => It::Sgx(i.clone()),
            It::Dat(i) => It::Dat(i.clone()),
            It::CpuTopo(i) => It::CpuTopo(i.clone()),
            It::Soc(_) => return None,
        })
    }
    /// Walk on in another way than by `next` alone: way `how`, with the parameter `k`.
    pub fn walk(self, how: u32, k: usize) -> Walked {
        fn walk<I: Iterator>(mut i: I, how: u32, k: usize, w: impl Fn(I::Item) -> Obj) -> Walked {
            match how {
                WALK_COUNT => Walked { items: vec![], number: Some(i.count()) },
                WALK_LAST => Walked { items: i.last().map(&w).into_iter().collect(), number: None },
                WALK_NTH => {
                    let mut items: Vec<Obj> = i.nth(k).map(&w).into_iter().collect();
                    if !items.is_empty() {
                        while let Some(x) = i.next() {
                            items.push(w(x));
                        }
                    }
                    Walked { items, number: None }
                }
                WALK_NTH_TWICE => {
                    let mut items = Vec::new();
                    while let Some(x) = i.nth(k) {
                        items.push(w(x));
                    }
                    Walked { items, number: None }
                }
                WALK_FOLD => Walked {
                    items: i.fold(Vec::new(), |mut v, x| {
                        v.push(w(x));
                        v
                    }),
                    number: None,
                },
                WALK_EACH => {
                    let mut items = Vec::new();
                    i.for_each(|x| items.push(w(x)));
                    Walked { items, number: None }
                }
                WALK_COLLECT => Walked { items: i.map(w).collect(), number: None },
                WALK_SKIP => Walked { items: i.skip(k).map(w).collect(), number: None },
                WALK_STEP_BY => Walked { items: i.step_by(k + 1).map(w).collect(), number: None },
                WALK_TAKE => {
                    let mut items: Vec<Obj> = i.by_ref().take(k).map(&w).collect();
                    if items.len() == k {
                        items.extend(i.map(w));
                    }
                    Walked { items, number: None }
                }
                WALK_FIND => {
                    let mut n = 0;
                    let x = i.find(|_| {
                        n += 1;
                        n > k
                    });
                    let mut items: Vec<Obj> = x.map(&w).into_iter().collect();
                    if !items.is_empty() {
                        items.extend(i.map(w));
                    }
                    Walked { items, number: None }
                }
                _ => {
                    let mut n = 0;
                    let p = i.position(|_| {
                        n += 1;
                        n > k
                    });
                    let items = if p.is_some() { i.map(w).collect() } else { vec![] };
                    Walked { items, number: p }
                }
            }
        }
        match self {
            It::Cache(i) => walk(i, how, k, Obj::CacheInfo),
            It::Param(i) => walk(i, how, k, Obj::CacheParameter),
            It::Topo(i) => walk(i, how, k, Obj::ExtendedTopologyLevel),
            It::State(i) => walk(i, how, k, Obj::ExtendedState),
            It::Sgx(i) => walk(i, how, k, Obj::EpcSection),
            It::Dat(i) => walk(i, how, k, Obj::DatInfo),
            It::CpuTopo(i) => walk(i, how, k, Obj::ExtendedCpuTopologyLevel),
            It::Soc(i) => walk(i, how, k, Obj::CpuIdResult),
        }
    }
    pub fn size_hint(&self) -> (usize, Option<usize>) {
        macro_rules! d {
            ($($V:ident)*) => { match self { $(It::$V(i) => i.size_hint(),)* } };
        }
        d!(Cache Param Topo State Sgx Dat CpuTopo Soc)
    }
    /// `==` and `!=` of two leaf 2 enumerations.
    pub fn same(&self, other: &It) -> Option<(bool, bool)> {
        match (self, other) {
            (It::Cache(a), It::Cache(b)) => Some((a == b, a != b)),
            _ => None,
        }
    }
    pub fn debug(&self, w: &mut dyn std::fmt::Write, mode: u32) -> std::fmt::Result {
        macro_rules! d {
            ($($V:ident)*) => { match self { $(It::$V(i) => match mode % 4 { 0 => write!(w, "{:?}", i), 1 => write!(w, "{:#?}", i), 2 => write!(w, "{:#06x?}", i), _ => write!(w, "{:>24.3?}", i) },)* It::CpuTopo(_) => Ok(()) } };
        }
        d!(Cache Param Topo State Sgx Dat Soc)
    }
}
pub const WALKS: &[&str] = &["count", "last", "nth, then on", "nth, again and again", "fold", "for_each", "collect", "skip", "step_by", "take, then on", "find, then on", "position, then on"];
const WALK_COUNT: u32 = 0;
const WALK_LAST: u32 = 1;
const WALK_NTH: u32 = 2;
const WALK_NTH_TWICE: u32 = 3;
const WALK_FOLD: u32 = 4;
const WALK_EACH: u32 = 5;
const WALK_COLLECT: u32 = 6;
const WALK_SKIP: u32 = 7;
const WALK_STEP_BY: u32 = 8;
const WALK_TAKE: u32 = 9;
const WALK_FIND: u32 = 10;
/// What a walk came by; `number` is a count or a position.
pub struct Walked {
    pub items: Vec<Obj>,
    pub number: Option<usize>,
}
/// Which of `n` entries the walk comes by, and the number it gives.
pub fn walk_expected(how: u32, k: usize, n: usize) -> (Vec<usize>, Option<usize>) {
    match how {
        WALK_COUNT => (vec![], Some(n)),
        WALK_LAST => ((0..n).rev().take(1).collect(), None),
        WALK_NTH | WALK_SKIP | WALK_FIND => ((k..n.max(k)).collect(), None),
        WALK_NTH_TWICE => ((0..n).filter(|j| j % (k + 1) == k).collect(), None),
        WALK_STEP_BY => ((0..n).filter(|j| j % (k + 1) == 0).collect(), None),
        WALK_FOLD | WALK_EACH | WALK_COLLECT | WALK_TAKE => ((0..n).collect(), None),
        _ => ((k + 1..n.max(k + 1)).collect(), if k < n { Some(k) } else { None }),
    }
}
/// Model of an iterator's position.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IM {
    /// registers, and which of the 16 byte positions were already yielded
    Cache { regs: [u32; 4], seen: u16 },
    Param { leaf: u32, pos: u32 },
    Topo { leaf: u32, pos: u32 },
    /// components certainly / possibly enumerated, and the last one yielded
    State { must: u32, may: u32, pos: u32 },
    Sgx { pos: u32 },
    /// `lo..=hi`: where the next step may begin (an interrupted step may or may not re-read unused entries)
    Dat { count: u32, lo: u32, hi: u32 },
    CpuTopo { pos: u32 },
    Soc { pos: u32, max: u32 },
}
impl IM {
    pub fn leaf(&self) -> Option<u32> {
        Some(match self {
            IM::Cache { .. } => return None,
            IM::Param { leaf, .. } | IM::Topo { leaf, .. } => *leaf,
            IM::State { .. } => 0xd,
            IM::Sgx { .. } => 0x12,
            IM::Dat { .. } => 0x18,
            IM::CpuTopo { .. } => 0x8000_0026,
            IM::Soc { .. } => 0x17,
        })
    }
    pub fn name(&self) -> &'static str {
        match self {
            IM::Cache { .. } => "cache descriptors",
            IM::Param { .. } => "cache parameters",
            IM::Topo { leaf: 0xb, .. } => "extended topology",
            IM::Topo { .. } => "extended topology v2",
            IM::State { .. } => "extended states",
            IM::Sgx { .. } => "SGX sections",
            IM::Dat { .. } => "address translation",
            IM::CpuTopo { .. } => "extended CPU topology",
            IM::Soc { .. } => "SoC vendor attributes",
        }
    }
    /// An injected failure interrupted a step that had performed these reads.
    pub fn interrupted(&mut self, reads: &[Read], last_tried: Option<u32>) {
        if let IM::Dat { lo, hi, .. } = self {
            let m = reads.iter().filter(|r| r.leaf == 0x18).map(|r| r.sub.saturating_add(1)).max();
            if let Some(x) = m.or(last_tried) {
                *hi = (*hi).max(x);
            }
            let _ = lo;
        }
    }
}
pub fn snap(m: Vend, aux: u32, k: &[[u32; 4]]) -> Snap {
    let mut s = Snap { vendor: m, aux, k: [[0; 4]; 3] };
    s.k[..k.len()].copy_from_slice(k);
    s
}
pub enum Step {
    End,
    Item(Kind, Snap, IM),
    /// the documentation leaves open whether the enumeration goes on
    EndOr(Kind, Snap, IM),
    /// any one of these (cache descriptors; order across registers is not fixed)
    OneOf(Vec<(u32, IM)>, bool),
}
/// Descriptor bytes that are not (or not necessarily) descriptors of the library's table.
fn desc_optional(b: u8) -> bool {
    !CACHE_DESC.iter().any(|d| d.0 == b)
}
pub fn step(im: &IM, vendor: Vend, rd: &mut Rd) -> Step {
    match im {
        IM::Cache { regs, seen } => {
            let mut v: Vec<(u32, IM)> = Vec::new();
            let mut must = false;
            for i in 0..16u32 {
                let (r, b) = (i as usize / 4, i % 4);
                let byte = (regs[r] >> (8 * b)) as u8;
                if seen >> i & 1 == 1 {
                    continue;
                }
                // AL holds a repeat count, a zero byte is the null descriptor, and a register with bit 31
                // set holds no descriptors at all
                let valid = regs[r] >> 31 == 0;
                let known = !desc_optional(byte) && byte != 0;
                if i == 0 {
                    continue;
                }
                if byte == 0 {
                    continue;
                }
                if known && valid {
                    must = true;
                }
                v.push((byte as u32, IM::Cache { regs: *regs, seen: seen | 1 << i }));
            }
            Step::OneOf(v, must)
        }
        IM::Param { leaf, pos } => {
            let r = rd.get(*leaf, *pos);
            let nx = IM::Param { leaf: *leaf, pos: pos.wrapping_add(1) };
            match r[A] & 31 {
                0 => Step::End,
                1..=3 => Step::Item(Kind::CacheParameter, snap(vendor, 0, &[r]), nx),
                _ => Step::EndOr(Kind::CacheParameter, snap(vendor, 0, &[r]), nx),
            }
        }
        IM::Topo { leaf, pos } => {
            let r = rd.get(*leaf, *pos);
            if r[C] >> 8 & 0xff == 0 {
                return Step::End;
            }
            Step::Item(Kind::ExtendedTopologyLevel, snap(vendor, 0, &[r]), IM::Topo { leaf: *leaf, pos: pos.wrapping_add(1) })
        }
        IM::State { must, may, pos } => {
            let mut n = *pos + 1;
            loop {
                if n > 31 {
                    return Step::End;
                }
                let bit = 1u32 << n;
                if must & bit != 0 || (may & bit != 0 && rd.has(0xd, n)) {
                    let r = rd.get(0xd, n);
                    return Step::Item(Kind::ExtendedState, snap(vendor, n, &[r]), IM::State { must: *must, may: *may, pos: n });
                }
                n += 1;
            }
        }
        IM::Sgx { pos } => {
            let r = rd.get(0x12, *pos);
            if r[A] & 0xf != 1 {
                return Step::End;
            }
            Step::Item(Kind::EpcSection, snap(vendor, 0, &[r]), IM::Sgx { pos: pos.wrapping_add(1) })
        }
        IM::Dat { count, lo, hi } => {
            let first = rd.reads.iter().find(|r| r.leaf == 0x18 && r.sub >= *lo && r.sub <= *hi).map(|r| r.sub);
            let mut pos = match first {
                Some(p) => p,
                None if *hi > *count => *hi,
                None => *lo,
            };
            let mut budget = 20_000;
            loop {
                if pos > *count {
                    return Step::End;
                }
                budget -= 1;
                if budget == 0 {
                    rd.too_long = true;
                    return Step::End;
                }
                let r = rd.get(0x18, pos);
                if rd.missing.is_some() {
                    return Step::End;
                }
                if r[D] & 31 != 0 {
                    let p = pos.saturating_add(1);
                    return Step::Item(Kind::DatInfo, snap(vendor, 0, &[r]), IM::Dat { count: *count, lo: p, hi: p });
                }
                if pos == u32::MAX {
                    return Step::End;
                }
                pos += 1;
            }
        }
        IM::CpuTopo { pos } => {
            let r = rd.get(0x8000_0026, *pos);
            if r[C] >> 8 & 0xff == 0 {
                return Step::End;
            }
            Step::Item(Kind::ExtendedCpuTopologyLevel, snap(vendor, 0, &[r]), IM::CpuTopo { pos: pos.wrapping_add(1) })
        }
        IM::Soc { pos, max } => {
            if *pos > *max {
                return Step::End;
            }
            let r = rd.get(0x17, *pos);
            Step::Item(Kind::CpuIdResult, snap(vendor, 0, &[r]), IM::Soc { pos: pos.saturating_add(1), max: *max })
        }
    }
}

pub enum Out {
    None,
    Obj(Obj),
    Iter(It),
    Val(Val),
}
pub enum MOut {
    None,
    Obj(Kind, Snap),
    Iter(IM),
    Val(Val),
}
fn o<T>(x: Option<T>, f: fn(T) -> Obj) -> Out {
    x.map_or(Out::None, |v| Out::Obj(f(v)))
}
fn it<T>(x: Option<T>, f: fn(T) -> It) -> Out {
    x.map_or(Out::None, |v| Out::Iter(f(v)))
}
pub struct Getter {
    pub name: &'static str,
    pub call: fn(&CpuId<R>) -> Out,
    pub model: fn(&MCpu, &mut Rd) -> MOut,
}
fn simple(m: &MCpu, rd: &mut Rd, leaf: u32, k: Kind) -> MOut {
    if !m.sup(leaf) {
        return MOut::None;
    }
    let r = rd.get(leaf, 0);
    MOut::Obj(k, snap(m.vendor, 0, &[r]))
}
pub const GETTERS: &[Getter] = &[
    Getter { name: "get_vendor_info", call: |c| o(c.get_vendor_info(), Obj::VendorInfo), model: |m, rd| simple(m, rd, 0, Kind::VendorInfo) },
    Getter { name: "get_feature_info", call: |c| o(c.get_feature_info(), Obj::FeatureInfo), model: |m, rd| simple(m, rd, 1, Kind::FeatureInfo) },
    Getter {
        name: "get_cache_info",
        call: |c| it(c.get_cache_info(), It::Cache),
        model: |m, rd| {
            if !m.sup(2) {
                return MOut::None;
            }
            MOut::Iter(IM::Cache { regs: rd.get(2, 0), seen: 0 })
        },
    },
    Getter {
        name: "get_processor_serial",
        call: |c| o(c.get_processor_serial(), Obj::ProcessorSerial),
        model: |m, rd| {
            if !m.sup(3) {
                return MOut::None;
            }
            let (a, b) = (rd.get(3, 0), rd.get(1, 0));
            MOut::Obj(Kind::ProcessorSerial, snap(m.vendor, 0, &[a, b]))
        },
    },
    Getter {
        name: "get_cache_parameters",
        call: |c| it(c.get_cache_parameters(), It::Param),
        model: |m, _| match m.vendor {
            Vend::Amd if m.sup(0x8000_001d) => MOut::Iter(IM::Param { leaf: 0x8000_001d, pos: 0 }),
            Vend::Amd => MOut::None,
            _ if m.sup(4) => MOut::Iter(IM::Param { leaf: 4, pos: 0 }),
            _ => MOut::None,
        },
    },
    Getter { name: "get_monitor_mwait_info", call: |c| o(c.get_monitor_mwait_info(), Obj::MonitorMwaitInfo), model: |m, rd| simple(m, rd, 5, Kind::MonitorMwaitInfo) },
    Getter { name: "get_thermal_power_info", call: |c| o(c.get_thermal_power_info(), Obj::ThermalPowerInfo), model: |m, rd| simple(m, rd, 6, Kind::ThermalPowerInfo) },
    Getter {
        name: "get_extended_feature_info",
        call: |c| o(c.get_extended_feature_info(), Obj::ExtendedFeatures),
        model: |m, rd| {
            if !m.sup(7) {
                return MOut::None;
            }
            let (a, b) = (rd.get(7, 0), rd.get(7, 1));
            MOut::Obj(Kind::ExtendedFeatures, snap(m.vendor, 0, &[a, b]))
        },
    },
    Getter { name: "get_direct_cache_access_info", call: |c| o(c.get_direct_cache_access_info(), Obj::DirectCacheAccessInfo), model: |m, rd| simple(m, rd, 9, Kind::DirectCacheAccessInfo) },
    Getter { name: "get_performance_monitoring_info", call: |c| o(c.get_performance_monitoring_info(), Obj::PerformanceMonitoringInfo), model: |m, rd| simple(m, rd, 0xa, Kind::PerformanceMonitoringInfo) },
    Getter {
        name: "get_extended_topology_info",
        call: |c| it(c.get_extended_topology_info(), It::Topo),
        model: |m, _| if m.sup(0xb) { MOut::Iter(IM::Topo { leaf: 0xb, pos: 0 }) } else { MOut::None },
    },
    Getter {
        name: "get_extended_topology_info_v2",
        call: |c| it(c.get_extended_topology_info_v2(), It::Topo),
        model: |m, _| if m.sup(0x1f) { MOut::Iter(IM::Topo { leaf: 0x1f, pos: 0 }) } else { MOut::None },
    },
    Getter {
        name: "get_extended_state_info",
        call: |c| o(c.get_extended_state_info(), Obj::ExtendedStateInfo),
        model: |m, rd| {
            if !m.sup(0xd) {
                return MOut::None;
            }
            let (a, b) = (rd.get(0xd, 0), rd.get(0xd, 1));
            MOut::Obj(Kind::ExtendedStateInfo, snap(m.vendor, 0, &[a, b]))
        },
    },
    Getter { name: "get_rdt_monitoring_info", call: |c| o(c.get_rdt_monitoring_info(), Obj::RdtMonitoringInfo), model: |m, rd| simple(m, rd, 0xf, Kind::RdtMonitoringInfo) },
    Getter { name: "get_rdt_allocation_info", call: |c| o(c.get_rdt_allocation_info(), Obj::RdtAllocationInfo), model: |m, rd| simple(m, rd, 0x10, Kind::RdtAllocationInfo) },
    Getter {
        name: "get_sgx_info",
        call: |c| o(c.get_sgx_info(), Obj::SgxInfo),
        model: |m, rd| {
            if !m.sup(7) || !m.sup(0x12) {
                if m.sup(7) {
                    rd.allow(7, 0);
                    rd.allow(7, 1);
                }
                return MOut::None;
            }
            rd.allow(7, 1);
            if rd.get(7, 0)[B] >> 2 & 1 == 0 {
                return MOut::None;
            }
            let (a, b) = (rd.get(0x12, 0), rd.get(0x12, 1));
            MOut::Obj(Kind::SgxInfo, snap(m.vendor, 0, &[a, b]))
        },
    },
    Getter {
        name: "get_processor_trace_info",
        call: |c| o(c.get_processor_trace_info(), Obj::ProcessorTraceInfo),
        model: |m, rd| {
            if !m.sup(0x14) {
                return MOut::None;
            }
            let a = rd.get(0x14, 0);
            let b = if a[A] >= 1 { rd.get(0x14, 1) } else { [0; 4] };
            MOut::Obj(Kind::ProcessorTraceInfo, snap(m.vendor, 0, &[a, b]))
        },
    },
    Getter { name: "get_tsc_info", call: |c| o(c.get_tsc_info(), Obj::TscInfo), model: |m, rd| simple(m, rd, 0x15, Kind::TscInfo) },
    Getter { name: "get_processor_frequency_info", call: |c| o(c.get_processor_frequency_info(), Obj::ProcessorFrequencyInfo), model: |m, rd| simple(m, rd, 0x16, Kind::ProcessorFrequencyInfo) },
    Getter { name: "get_soc_vendor_info", call: |c| o(c.get_soc_vendor_info(), Obj::SoCVendorInfo), model: |m, rd| simple(m, rd, 0x17, Kind::SoCVendorInfo) },
    Getter {
        name: "get_deterministic_address_translation_info",
        call: |c| it(c.get_deterministic_address_translation_info(), It::Dat),
        model: |m, rd| {
            if !m.sup(0x18) {
                return MOut::None;
            }
            MOut::Iter(IM::Dat { count: rd.get(0x18, 0)[A], lo: 0, hi: 0 })
        },
    },
    Getter {
        name: "get_hypervisor_info",
        call: |c| o(c.get_hypervisor_info(), Obj::HypervisorInfo),
        model: |m, rd| {
            if !m.sup(1) {
                return MOut::None;
            }
            if rd.get(1, 0)[C] >> 31 & 1 == 0 {
                return MOut::None;
            }
            let r = rd.get(0x4000_0000, 0);
            if r[A] == 0 {
                return MOut::None;
            }
            MOut::Obj(Kind::HypervisorInfo, snap(m.vendor, 0, &[r]))
        },
    },
    Getter {
        name: "get_extended_processor_and_feature_identifiers",
        call: |c| o(c.get_extended_processor_and_feature_identifiers(), Obj::ExtendedProcessorFeatureIdentifiers),
        model: |m, rd| simple(m, rd, 0x8000_0001, Kind::ExtendedProcessorFeatureIdentifiers),
    },
    Getter {
        name: "get_processor_brand_string",
        call: |c| o(c.get_processor_brand_string(), Obj::ProcessorBrandString),
        model: |m, rd| {
            if !(m.sup(0x8000_0002) && m.sup(0x8000_0003) && m.sup(0x8000_0004)) {
                return MOut::None;
            }
            let k = [rd.get(0x8000_0002, 0), rd.get(0x8000_0003, 0), rd.get(0x8000_0004, 0)];
            MOut::Obj(Kind::ProcessorBrandString, snap(m.vendor, 0, &k))
        },
    },
    Getter {
        name: "get_l1_cache_and_tlb_info",
        call: |c| o(c.get_l1_cache_and_tlb_info(), Obj::L1CacheTlbInfo),
        model: |m, rd| if m.vendor == Vend::Amd { simple(m, rd, 0x8000_0005, Kind::L1CacheTlbInfo) } else { MOut::None },
    },
    Getter { name: "get_l2_l3_cache_and_tlb_info", call: |c| o(c.get_l2_l3_cache_and_tlb_info(), Obj::L2And3CacheTlbInfo), model: |m, rd| simple(m, rd, 0x8000_0006, Kind::L2And3CacheTlbInfo) },
    Getter { name: "get_advanced_power_mgmt_info", call: |c| o(c.get_advanced_power_mgmt_info(), Obj::ApmInfo), model: |m, rd| simple(m, rd, 0x8000_0007, Kind::ApmInfo) },
    Getter {
        name: "get_processor_capacity_feature_info",
        call: |c| o(c.get_processor_capacity_feature_info(), Obj::ProcessorCapacityAndFeatureInfo),
        model: |m, rd| simple(m, rd, 0x8000_0008, Kind::ProcessorCapacityAndFeatureInfo),
    },
    Getter {
        name: "get_svm_info",
        call: |c| o(c.get_svm_info(), Obj::SvmFeatures),
        model: |m, rd| {
            if !m.sup(0x8000_0001) || !m.sup(0x8000_000a) || m.vendor != Vend::Amd {
                if m.sup(0x8000_0001) {
                    rd.allow(0x8000_0001, 0);
                }
                return MOut::None;
            }
            if rd.get(0x8000_0001, 0)[C] >> 2 & 1 == 0 {
                return MOut::None;
            }
            let r = rd.get(0x8000_000a, 0);
            MOut::Obj(Kind::SvmFeatures, snap(m.vendor, 0, &[r]))
        },
    },
    Getter { name: "get_tlb_1gb_page_info", call: |c| o(c.get_tlb_1gb_page_info(), Obj::Tlb1gbPageInfo), model: |m, rd| simple(m, rd, 0x8000_0019, Kind::Tlb1gbPageInfo) },
    Getter { name: "get_performance_optimization_info", call: |c| o(c.get_performance_optimization_info(), Obj::PerformanceOptimizationInfo), model: |m, rd| simple(m, rd, 0x8000_001a, Kind::PerformanceOptimizationInfo) },
    Getter {
        name: "get_instruction_based_sampling_capabilities",
        call: |c| o(c.get_instruction_based_sampling_capabilities(), Obj::InstructionBasedSamplingCapabilities),
        model: |m, rd| simple(m, rd, 0x8000_001b, Kind::InstructionBasedSamplingCapabilities),
    },
    Getter { name: "get_processor_topology_info", call: |c| o(c.get_processor_topology_info(), Obj::ProcessorTopologyInfo), model: |m, rd| simple(m, rd, 0x8000_001e, Kind::ProcessorTopologyInfo) },
    Getter { name: "get_memory_encryption_info", call: |c| o(c.get_memory_encryption_info(), Obj::MemoryEncryptionInfo), model: |m, rd| simple(m, rd, 0x8000_001f, Kind::MemoryEncryptionInfo) },
    Getter { name: "get_pqos_extended_feature_info", call: |c| o(c.get_pqos_extended_feature_info(), Obj::PqosExtendedFeatureInfo), model: |m, rd| simple(m, rd, 0x8000_0020, Kind::PqosExtendedFeatureInfo) },
    Getter {
        name: "get_extended_feature_identification_2",
        call: |c| o(c.get_extended_feature_identification_2(), Obj::ExtendedFeatureIdentification2),
        model: |m, rd| simple(m, rd, 0x8000_0021, Kind::ExtendedFeatureIdentification2),
    },
    Getter {
        name: "get_extended_performance_monitoring_and_debug",
        call: |c| o(c.get_extended_performance_monitoring_and_debug(), Obj::ExtendedPerformanceMonitoringDebug),
        model: |m, rd| simple(m, rd, 0x8000_0022, Kind::ExtendedPerformanceMonitoringDebug),
    },
    Getter {
        name: "get_multi_key_encrypted_memory_capabilities",
        call: |c| o(c.get_multi_key_encrypted_memory_capabilities(), Obj::MultiKeyEncryptedMemoryCapabilities),
        model: |m, rd| simple(m, rd, 0x8000_0023, Kind::MultiKeyEncryptedMemoryCapabilities),
    },
    Getter {
        name: "get_extended_cpu_topology",
        call: |c| it(c.get_extended_cpu_topology(), It::CpuTopo),
        model: |m, _| if m.sup(0x8000_0026) { MOut::Iter(IM::CpuTopo { pos: 0 }) } else { MOut::None },
    },
];

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub call: fn(&Obj) -> Out,
    pub model: fn(&Snap, &mut Rd) -> MOut,
}
macro_rules! ob {
    ($o:ident, $V:ident) => {
        match $o {
            Obj::$V(x) => x,
            _ => unreachable!("harness: wrong object kind"),
        }
    };
}
fn gated(s: &Snap, rd: &mut Rd, k: bool, leaf: u32, sub: u32, kind: Kind) -> MOut {
    if !k {
        return MOut::None;
    }
    let r = rd.get(leaf, sub);
    MOut::Obj(kind, snap(s.vendor, 0, &[r]))
}
pub const SUBS: &[Sub] = &[
    Sub {
        name: "ExtendedStateInfo::iter",
        kind: Kind::ExtendedStateInfo,
        call: |x| Out::Iter(It::State(ob!(x, ExtendedStateInfo).iter())),
        model: |s, _| {
            // Components the library names are enumerated; whether it also walks bits it has no name for
            // is its choice (upper bits of XCR0/XSS are reserved).
            let (x, y) = (s.k[0][A], s.k[1][C]);
            MOut::Iter(IM::State { must: x & 0x0006_22ff | y & 0x0001_fd00, may: x | y, pos: 1 })
        },
    },
    Sub {
        name: "RdtMonitoringInfo::l3_monitoring",
        kind: Kind::RdtMonitoringInfo,
        call: |x| o(ob!(x, RdtMonitoringInfo).l3_monitoring(), Obj::L3MonitoringInfo),
        model: |s, rd| gated(s, rd, s.k[0][D] >> 1 & 1 == 1, 0xf, 1, Kind::L3MonitoringInfo),
    },
    Sub {
        name: "RdtAllocationInfo::l3_cat",
        kind: Kind::RdtAllocationInfo,
        call: |x| o(ob!(x, RdtAllocationInfo).l3_cat(), Obj::L3CatInfo),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 1 & 1 == 1, 0x10, 1, Kind::L3CatInfo),
    },
    Sub {
        name: "RdtAllocationInfo::l2_cat",
        kind: Kind::RdtAllocationInfo,
        call: |x| o(ob!(x, RdtAllocationInfo).l2_cat(), Obj::L2CatInfo),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 2 & 1 == 1, 0x10, 2, Kind::L2CatInfo),
    },
    Sub {
        name: "RdtAllocationInfo::memory_bandwidth_allocation",
        kind: Kind::RdtAllocationInfo,
        call: |x| o(ob!(x, RdtAllocationInfo).memory_bandwidth_allocation(), Obj::MemBwAllocationInfo),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 3 & 1 == 1, 0x10, 3, Kind::MemBwAllocationInfo),
    },
    Sub { name: "SgxInfo::iter", kind: Kind::SgxInfo, call: |x| Out::Iter(It::Sgx(ob!(x, SgxInfo).iter())), model: |_, _| MOut::Iter(IM::Sgx { pos: 2 }) },
    Sub {
        name: "SoCVendorInfo::get_vendor_brand",
        kind: Kind::SoCVendorInfo,
        call: |x| o(ob!(x, SoCVendorInfo).get_vendor_brand(), Obj::SoCVendorBrand),
        model: |s, rd| {
            if s.k[0][A] < 3 {
                return MOut::None;
            }
            let k = [rd.get(0x17, 1), rd.get(0x17, 2), rd.get(0x17, 3)];
            MOut::Obj(Kind::SoCVendorBrand, snap(s.vendor, 0, &k))
        },
    },
    Sub {
        name: "SoCVendorInfo::get_vendor_attributes",
        kind: Kind::SoCVendorInfo,
        call: |x| it(ob!(x, SoCVendorInfo).get_vendor_attributes(), It::Soc),
        model: |s, _| if s.k[0][A] > 3 { MOut::Iter(IM::Soc { pos: 4, max: s.k[0][A] }) } else { MOut::None },
    },
    Sub {
        name: "HypervisorInfo::tsc_frequency",
        kind: Kind::HypervisorInfo,
        call: |x| ob!(x, HypervisorInfo).tsc_frequency().map_or(Out::None, |v| Out::Val(Val::U(v as u128))),
        model: |s, rd| if s.k[0][A] >= 0x4000_0010 { MOut::Val(Val::U(rd.get(0x4000_0010, 0)[A] as u128)) } else { MOut::None },
    },
    Sub {
        name: "HypervisorInfo::apic_frequency",
        kind: Kind::HypervisorInfo,
        call: |x| ob!(x, HypervisorInfo).apic_frequency().map_or(Out::None, |v| Out::Val(Val::U(v as u128))),
        model: |s, rd| if s.k[0][A] >= 0x4000_0010 { MOut::Val(Val::U(rd.get(0x4000_0010, 0)[B] as u128)) } else { MOut::None },
    },
    Sub {
        name: "PqosExtendedFeatureInfo::get_l3_memory_bandwidth_enforcement_info",
        kind: Kind::PqosExtendedFeatureInfo,
        call: |x| o(ob!(x, PqosExtendedFeatureInfo).get_l3_memory_bandwidth_enforcement_info(), Obj::L3MemoryBandwidthEnforcementInformation),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 1 & 1 == 1, 0x8000_0020, 1, Kind::L3MemoryBandwidthEnforcementInformation),
    },
    Sub {
        name: "PqosExtendedFeatureInfo::get_l3_slow_memory_bandwidth_enforcement_info",
        kind: Kind::PqosExtendedFeatureInfo,
        call: |x| o(ob!(x, PqosExtendedFeatureInfo).get_l3_slow_memory_bandwidth_enforcement_info(), Obj::L3MemoryBandwidthEnforcementInformation),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 2 & 1 == 1, 0x8000_0020, 2, Kind::L3MemoryBandwidthEnforcementInformation),
    },
    Sub {
        name: "PqosExtendedFeatureInfo::get_bandwidth_monitoring_event_counters_info",
        kind: Kind::PqosExtendedFeatureInfo,
        call: |x| o(ob!(x, PqosExtendedFeatureInfo).get_bandwidth_monitoring_event_counters_info(), Obj::BandwidthMonitoringEventCounters),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 3 & 1 == 1, 0x8000_0020, 3, Kind::BandwidthMonitoringEventCounters),
    },
    Sub {
        name: "PqosExtendedFeatureInfo::get_assignable_bandwidth_monitoring_counters_info",
        kind: Kind::PqosExtendedFeatureInfo,
        call: |x| o(ob!(x, PqosExtendedFeatureInfo).get_assignable_bandwidth_monitoring_counters_info(), Obj::AssignableBandwidthMonitoringCounterInfo),
        model: |s, rd| gated(s, rd, s.k[0][B] >> 5 & 1 == 1, 0x8000_0020, 5, Kind::AssignableBandwidthMonitoringCounterInfo),
    },
];
/// Leaves that formatting an object may consult, because it also shows the object's sub-queries.
pub fn fmt_leaf(k: Kind) -> Option<u32> {
    Some(match k {
        Kind::ExtendedStateInfo => 0xd,
        Kind::RdtMonitoringInfo => 0xf,
        Kind::RdtAllocationInfo => 0x10,
        Kind::SgxInfo => 0x12,
        Kind::SoCVendorInfo => 0x17,
        Kind::HypervisorInfo => 0x4000_0010,
        Kind::PqosExtendedFeatureInfo => 0x8000_0020,
        _ => return None,
    })
}
