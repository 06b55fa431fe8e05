//! One simulated run: programs of operations on simulated threads, and the oracles.
use crate::ctx::*;
use super::model::*;
use super::objs::*;
use super::R;
pub use crate::base::*;
use crate::rng::*;
use crate::val::Val;
use raw_cpuid::*;
use std::cell::RefCell;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const OPS: &[&str] = &["new", "query", "access", "subquery", "step", "drain", "clone", "format", "format-failing", "drop", "fork-iterator", "fork-cpuid", "direct", "compare", "inspect", "walk"];
const NEW: usize = 0;
const QUERY: usize = 1;
const ACCESS: usize = 2;
const SUB: usize = 3;
const STEP: usize = 4;
const DRAIN: usize = 5;
const CLONE: usize = 6;
const FMT: usize = 7;
const FMTFAIL: usize = 8;
const DROP: usize = 9;
const FORKI: usize = 10;
const FORKC: usize = 11;
const DIRECT: usize = 12;
const COMPARE: usize = 13;
const INSPECT: usize = 14;
const WALK: usize = 15;

// ------------------------------------------------------------------ state of one simulated thread
pub struct CpuSlot {
    pub cpu: CpuId<R>,
    pub m: MCpu,
}
pub struct ObjSlot {
    pub obj: Obj,
    pub inst: u32,
    pub snap: Snap,
    /// the registers are known beyond doubt, not only as far as the accessors show them
    pub sure: bool,
    pub first: Vec<Val>,
    pub text: RefCell<Vec<(u32, Vec<u8>)>>,
    /// text the object lent out early on (the object stays where it is), and what it said then
    pub held: Option<(*const [u8], Vec<u8>)>,
}
pub struct IterSlot {
    pub it: It,
    pub im: IM,
    pub inst: u32,
    pub vendor: Vend,
    pub done: bool,
}
pub enum Slot {
    Cpu(CpuSlot),
    Obj(Box<ObjSlot>),
    Iter(Box<IterSlot>),
}
struct AssertSync<T>(T);
unsafe impl<T> Send for AssertSync<T> {}
unsafe impl<T> Sync for AssertSync<T> {}

// Which of the library's types may be shared between / sent to threads, decided by the compiler.
struct Auto<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait AutoNo {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T> AutoNo for Auto<T> {}
impl<T: Sync> Auto<T> {
    const SYNC: bool = true;
}
struct Auto2<T>(std::marker::PhantomData<T>);
impl<T> AutoNo for Auto2<T> {}
impl<T: Send> Auto2<T> {
    const SEND: bool = true;
}
fn auto_traits() -> Vec<(&'static str, bool, bool)> {
    macro_rules! a { ($($t:ty)*) => { vec![$((stringify!($t), Auto::<$t>::SYNC, Auto2::<$t>::SEND)),*] }; }
    a!(CpuId<R> FeatureInfo ExtendedFeatures VendorInfo CacheParameter ExtendedTopologyLevel ExtendedState ExtendedStateInfo<R> RdtMonitoringInfo<R> RdtAllocationInfo<R> SgxInfo<R>
       SoCVendorInfo<R> HypervisorInfo<R> PqosExtendedFeatureInfo<R> ProcessorBrandString SoCVendorBrand ThermalPowerInfo CpuIdResult DatInfo ProcessorTraceInfo
       CacheInfoIter CacheParametersIter<R> ExtendedTopologyIter<R> ExtendedStateIter<R> SgxSectionIter<R> DatIter<R> ExtendedCpuTopologyIter<R> SoCVendorAttributesIter<R>)
}
/// Copy when the type is Copy, clone otherwise.
struct Dup<'a, T>(&'a T);
#[allow(dead_code)]
trait ViaClone<T> {
    fn dup(&self) -> T;
}
impl<'a, T: Clone> ViaClone<T> for Dup<'a, T> {
    fn dup(&self) -> T {
        self.0.clone()
    }
}
#[allow(dead_code)]
impl<'a, T: Copy> Dup<'a, T> {
    fn dup(&self) -> T {
        *self.0
    }
}

struct Th<'a> {
    tid: u32,
    plan: &'a Plan,
    slots: Vec<Option<Slot>>,
    shared: &'a [Slot],
    viols: Vec<Viol>,
    obs: Vec<Obs>,
    tracing: bool,
    key: u32,
}
thread_local! { static NESTED: RefCell<Vec<(&'static str, String)>> = const { RefCell::new(Vec::new()) }; }

fn reads_now() -> Vec<Read> {
    with(|c| c.reads.clone())
}
fn rhash(reads: &[Read]) -> u64 {
    let mut h = 1;
    for r in reads {
        h = mixn(h, &[r.inst as u64, r.leaf as u64, r.sub as u64]);
    }
    h
}
fn rtext(reads: &[Read]) -> String {
    reads.iter().map(|r| format!("{:#x}/{:#x}={:08x?}", r.leaf, r.sub, r.regs)).collect::<Vec<_>>().join(" ")
}
/// All combinations of beliefs about keys that were delivered more than once with different contents.
fn combos(reads: &[Read], inst: u32) -> Vec<Vec<(Key, usize)>> {
    let mut out: Vec<Vec<(Key, usize)>> = vec![vec![]];
    for (k, n) in Rd::dups(reads, inst) {
        let mut next = Vec::new();
        for o in &out {
            for i in 0..n {
                let mut v = o.clone();
                v.push((k, i));
                next.push(v);
            }
        }
        out = next;
        if out.len() > 64 {
            out.truncate(64);
            break;
        }
    }
    out
}
/// A read pattern no documented enumeration produces: the same sub-leaf again and again.
fn spinning(reads: &[Read]) -> Option<Read> {
    let mut n = std::collections::HashMap::new();
    for r in reads {
        let e = n.entry((r.leaf, r.sub)).or_insert(0);
        *e += 1;
        if *e > 64 {
            return Some(*r);
        }
    }
    None
}
/// Values of all accessors; Err = a panic or a consultation of the source.
fn values(obj: &Obj, deny: bool) -> Result<Vec<Val>, (&'static str, String)> {
    let k = obj.kind();
    let mut v = Vec::with_capacity(k.len());
    let before = with(|c| c.ridx);
    for i in 0..k.len() {
        match guard(deny, || obj.call(i)) {
            Res::Ok(x) => v.push(x),
            Res::Panic(m) => return Err(("C06", format!("{}::{} panics: {}", k.name(), k.acc_name(i), m))),
            Res::Injected | Res::Cap => return Err(("C02", format!("{}::{} consults the CPUID source", k.name(), k.acc_name(i)))),
        }
        if with(|c| c.ridx) != before {
            return Err(("C02", format!("{}::{} consults the CPUID source", k.name(), k.acc_name(i))));
        }
    }
    Ok(v)
}
fn vhash(k: Kind, v: &[Val]) -> u64 {
    let mut h = k as u64 + 100;
    for x in v {
        h = x.hash(h);
    }
    h
}
fn vdiff(k: Kind, snap: &Snap, v: &[Val]) -> Vec<usize> {
    (0..v.len()).filter(|i| k.exp(*i, snap) != v[*i]).collect()
}
fn mismatch(k: Kind, snap: &Snap, v: &[Val], i: usize) -> String {
    format!("{}::{} returned {:?}, the delivered registers say {:?}", k.name(), k.acc_name(i), v[i], k.exp(i, snap))
}
/// What a query or sub-query returned, in the form the model is compared with.
struct Got {
    out: Out,
    vals: Vec<Val>,
}
#[allow(dead_code)]
enum Settled {
    Obj(Kind, Snap),
    Iter(IM),
    Val,
    None,
}
/// Compare an answer with the model: what the model says it is (None = no delivery explains it), and what
/// is wrong with it.
fn settle(name: &str, inst: u32, got: &Got, reads: &[Read], model: &dyn Fn(&mut Rd) -> MOut) -> (Option<Settled>, Vec<(&'static str, String)>) {
    let all = combos(reads, inst);
    let n = all.len();
    // whether a sub-query has an answer is said by the object it is made of
    let sub = name.contains("::");
    let mut first: Option<Vec<(&'static str, String)>> = None;
    for c in all {
        let mut rd = Rd::new(reads, inst);
        rd.choice = c;
        let m = model(&mut rd);
        let text = |msg: String| {
            let torn = if n > 1 { " (the source answered differently to repeated reads; no single delivery explains the answer)" } else { "" };
            format!("{}: {}{}; reads: {}", name, msg, torn, rtext(reads))
        };
        let mut bad: Vec<(&'static str, String)> = Vec::new();
        if let Some(x) = rd.extra() {
            bad.push(("C03", text(format!("read leaf {:#x}/{:#x}{}, whose presence is not established for this query", x.leaf, x.sub, if x.inst != inst { " from another source" } else { "" }))));
        }
        let extra = bad.len();
        let mut settled = None;
        match (&got.out, m) {
            (Out::None, MOut::None) => settled = Some(Settled::None),
            (Out::None, _) => {
                if sub || rd.missing.is_none() && !rd.req.is_empty() {
                    bad.push(("C01", text("returned nothing although what was delivered says something".into())));
                }
                bad.push(("C03", text("returned nothing although the CPU advertised the data at construction".into())))
            }
            (_, MOut::None) => {
                if sub || rd.missing.is_none() && !rd.req.is_empty() {
                    bad.push(("C01", text("returned an answer although what was delivered says there is none".into())));
                }
                bad.push(("C03", text("returned an answer although the CPU did not advertise the data at construction".into())))
            }
            (Out::Obj(o), MOut::Obj(k, s)) if o.kind() == k => {
                let d = vdiff(k, &s, &got.vals);
                if d.is_empty() {
                    settled = Some(Settled::Obj(k, s));
                } else if rd.missing.is_none() {
                    bad.push(("C01", text(mismatch(k, &s, &got.vals, d[0]))));
                }
            }
            (Out::Iter(_), MOut::Iter(im)) => settled = Some(Settled::Iter(im)),
            (Out::Val(v), MOut::Val(x)) => {
                if *v == x {
                    settled = Some(Settled::Val);
                } else if rd.missing.is_none() {
                    bad.push(("C01", text(format!("returned {:?}, the delivered registers say {:?}", v, x))));
                }
            }
            _ => bad.push(("C01", text("returned a different kind of answer than documented".into()))),
        }
        if let (Some(k), true) = (rd.missing, bad.len() == extra) {
            bad.push(("C01", text(format!("answered without consulting leaf {:#x}/{:#x}", k.0, k.1))));
            settled = None;
        }
        if bad.len() == extra && settled.is_some() {
            // the extra reads alone do not spoil the answer
            if extra == 0 || n == 1 {
                return (settled, bad);
            }
        }
        if first.is_none() {
            first = Some(bad);
        }
    }
    (None, first.unwrap())
}
#[allow(dead_code)]
enum Stepped {
    End,
    Item(IM, Kind, Snap),
    /// ended or not, nothing can be concluded (an enormous enumeration)
    Open,
}
fn settle_step(im: &IM, inst: u32, vendor: Vend, item: Option<(&Obj, &[Val])>, reads: &[Read]) -> Result<Stepped, Vec<(&'static str, String)>> {
    let all = combos(reads, inst);
    let mut first: Option<Vec<(&'static str, String)>> = None;
    for c in all {
        let mut rd = Rd::new(reads, inst);
        rd.choice = c;
        let m = step(im, vendor, &mut rd);
        let mut fail = |p: &[&'static str], msg: String| {
            if first.is_none() {
                let t = format!("{} at {:?}: {}; reads: {}", im.name(), im, msg, rtext(reads));
                first = Some(p.iter().map(|x| (*x, t.clone())).collect());
            }
        };
        if rd.too_long {
            return Ok(Stepped::Open);
        }
        if let Some(k) = rd.missing {
            fail(&["C04"], format!("did not consult sub-leaf {:#x}/{:#x}{}", k.0, k.1, if item.is_some() { ", yet yielded an entry" } else { ", yet ended" }));
            continue;
        }
        if let Some(x) = rd.extra() {
            let own = Some(x.leaf) == im.leaf() && x.inst == inst;
            fail(if own { &["C04"] } else { &["C04", "C03"] }, format!("read {:#x}/{:#x}, which this step does not pass over", x.leaf, x.sub));
            continue;
        }
        let (k, s, nx) = match (m, &item) {
            (Step::End, None) => return Ok(Stepped::End),
            (Step::End, Some(_)) => {
                fail(&["C04"], "yielded an entry past the documented end".into());
                continue;
            }
            (Step::EndOr(..), None) => return Ok(Stepped::End),
            (Step::Item(..), None) => {
                fail(&["C04"], "ended although the source delivered another entry".into());
                continue;
            }
            (Step::Item(k, s, nx), Some(_)) | (Step::EndOr(k, s, nx), Some(_)) => (k, s, nx),
            (Step::OneOf(v, must), None) => {
                if must {
                    let l: Vec<String> = v.iter().map(|x| format!("{:#04x}", x.0)).collect();
                    fail(&["C04"], format!("ended although descriptors remain: {}", l.join(",")));
                    continue;
                }
                return Ok(Stepped::End);
            }
            (Step::OneOf(v, _), Some((o, vals))) => {
                let n = match (o.kind(), vals.first()) {
                    (Kind::CacheInfo, Some(Val::U(n))) => *n as u32,
                    _ => u32::MAX,
                };
                let ok = |x: &&(u32, IM)| x.0 == n;
                let reg_ok = |x: &&(u32, IM)| match (&x.1, im) {
                    (IM::Cache { regs, seen }, IM::Cache { seen: old, .. }) => regs[((seen ^ old).trailing_zeros() / 4) as usize] >> 31 == 0,
                    _ => true,
                };
                let f = v.iter().filter(ok).find(reg_ok).or_else(|| v.iter().find(ok));
                match f {
                    Some(x) => (Kind::CacheInfo, snap(vendor, n, &[]), x.1.clone()),
                    None => {
                        fail(&["C04"], format!("yielded descriptor {:#x}, which the registers do not hold (any more)", n));
                        continue;
                    }
                }
            }
        };
        let (o, vals) = item.as_ref().unwrap();
        if o.kind() != k {
            fail(&["C04"], "yielded another kind of entry".into());
            continue;
        }
        let bad = vdiff(k, &s, vals);
        if bad.is_empty() {
            return Ok(Stepped::Item(nx, k, s));
        }
        let msg = mismatch(k, &s, vals, bad[0]);
        if bad.len() * 2 >= vals.len() {
            fail(&["C01", "C04"], msg);
        } else {
            fail(&["C01"], msg);
        }
    }
    Err(first.unwrap())
}
/// The CPUID source uses the library itself while answering.
fn nested(h: u64) {
    let mut rep: Vec<(&'static str, String)> = Vec::new();
    let inst = if with(|c| c.cfg.one_inst) { 0 } else { (h >> 5 & 1) as u32 };
    let r = guard(false, || {
        with(|c| c.reads.clear());
        let cpu = super::make(inst, h);
        let reads = reads_now();
        let mut rd = Rd::new(&reads, inst);
        let m = MCpu::from(inst, rd.get(0, 0), rd.get(0x8000_0000, 0));
        if !Rd::dups(&reads, inst).is_empty() {
            return;
        }
        let g = &GETTERS[(h >> 8) as usize % GETTERS.len()];
        with(|c| c.reads.clear());
        let out = (g.call)(&cpu);
        let reads = reads_now();
        let mut got = Got { out, vals: Vec::new() };
        if let Out::Obj(o) = &got.out {
            match values(o, false) {
                Ok(v) => got.vals = v,
                Err(e) => {
                    rep.push(e);
                    return;
                }
            }
        }
        let (settled, bad) = settle(g.name, inst, &got, &reads, &|rd| (g.model)(&m, rd));
        rep.extend(bad.into_iter().map(|(p, msg)| (p, format!("(used from within the source) {}", msg))));
        match settled {
            Some(Settled::Iter(mut im)) => {
                if let Out::Iter(mut it) = got.out {
                    for _ in 0..4 {
                        with(|c| c.reads.clear());
                        let x = it.next();
                        let reads = reads_now();
                        let vals = match &x {
                            Some(o) => match values(o, false) {
                                Ok(v) => v,
                                Err(e) => {
                                    rep.push(e);
                                    return;
                                }
                            },
                            None => Vec::new(),
                        };
                        match settle_step(&im, inst, m.vendor, x.as_ref().map(|o| (o, &vals[..])), &reads) {
                            Ok(Stepped::Item(nx, ..)) => im = nx,
                            Ok(_) => break,
                            Err(v) => {
                                rep.extend(v);
                                break;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    });
    if let Res::Panic(m) = r {
        rep.push(("C06", format!("(used from within the source) panic: {}", m)));
    }
    if !rep.is_empty() {
        NESTED.with(|n| n.borrow_mut().extend(rep));
    }
}

impl<'a> Th<'a> {
    fn viol(&mut self, prop: &'static str, msg: String) {
        if self.tracing {
            with(|c| c.note(format!("VIOLATION {} {}", prop, msg)));
        }
        if self.viols.len() < 64 {
            self.viols.push(Viol { prop, tid: self.tid, op: self.key, msg });
        }
    }
    fn h(&self, i: u32, what: u64) -> u64 {
        let tid = if self.plan.mirror > 0 { 0 } else { self.tid as u64 };
        with(|c| mixn(c.cfg.seed, &[0x09, tid, i as u64, what]))
    }
    fn observe(&mut self, val: u64, reads: &[Read], text: impl FnOnce() -> String) {
        let text = if self.tracing { text() } else { String::new() };
        if self.tracing {
            let t = text.clone();
            with(|c| c.note(format!("=> {}", t)));
        }
        self.obs.push(Obs { tid: self.tid, op: self.key, val, reads: rhash(reads), text });
    }
    fn cover(&self, what: u64) {
        with(|c| {
            let m = &c.cfg.machines[0];
            let k = mixn(what, &[c.touched as u64, m.style as u64, (c.panics_in_op > 0) as u64, (c.cfg.threads > 1) as u64, c.attempt.min(1) as u64]);
            c.states.insert(k);
            c.stats.checks += 1;
        })
    }
    fn slot(&self, s: usize) -> &Slot {
        if s < self.slots.len() {
            self.slots[s].as_ref().unwrap()
        } else {
            &self.shared[s - self.slots.len()]
        }
    }
    fn pick(&self, h: u64, f: impl Fn(&Slot) -> bool) -> Option<usize> {
        let n = self.slots.len() + self.shared.len();
        if n == 0 {
            return None;
        }
        let st = (h % n as u64) as usize;
        for d in 0..n {
            let i = (st + n - d) % n;
            let s = if i < self.slots.len() { self.slots[i].as_ref() } else { self.shared.get(i - self.slots.len()) };
            if s.map_or(false, &f) {
                return Some(i);
            }
        }
        None
    }
    fn cap(&mut self, what: &str) {
        let reads = reads_now();
        if let Some(r) = spinning(&reads) {
            self.viol("C06", format!("{} never finishes: leaf {:#x}/{:#x} is read again and again ({} reads)", what, r.leaf, r.sub, reads.len()));
            self.viol("C04", format!("{} performs an unbounded number of reads of leaf {:#x}/{:#x}", what, r.leaf, r.sub));
        }
    }
    fn after_call(&mut self, what: &str) {
        let n = HITS.with(|h| h.replace(0));
        if n > 0 {
            self.viol("C11", format!("{} made {} allocation request(s)", what, n));
        }
        if self.plan.deny {
            with(|c| c.stats.faults[F_ALLOC] += n as u64);
        }
        let v = NESTED.with(|n| std::mem::take(&mut *n.borrow_mut()));
        for (p, m) in v {
            self.viol(p, m);
        }
    }
    fn give_up(&self, i: u32, attempt: u32) -> bool {
        self.h(i, 77 + attempt as u64) % 100 >= self.plan.retry
    }
    fn vals(&mut self, o: &Obj) -> Option<Vec<Val>> {
        let r = values(o, self.plan.deny);
        let what = o.kind().name();
        self.after_call(what);
        match r {
            Ok(v) => Some(v),
            Err((p, m)) => {
                self.viol(p, m);
                None
            }
        }
    }
    fn new_cpu(&mut self, i: u32) {
        let inst = match self.plan.mirror {
            _ if with(|c| c.cfg.one_inst) => 0,
            2 => self.tid % 2,
            _ => (self.h(i, 2) % 2) as u32,
        };
        let how = self.h(i, 4);
        let mut attempt = 0;
        let cpu = loop {
            match once(self.plan, self.key, attempt, inst, || super::make(inst, how)) {
                Res::Ok(c) => break c,
                Res::Injected if !self.give_up(i, attempt) => attempt += 1,
                Res::Injected => return,
                Res::Cap => return self.cap("construction"),
                Res::Panic(m) => return self.viol("C06", format!("construction panics: {}", m)),
            }
        };
        self.after_call("CpuId::with_cpuid_reader");
        let reads = reads_now();
        let mut rd = Rd::new(&reads, inst);
        let (a, b) = (rd.get(0, 0), rd.get(0x8000_0000, 0));
        self.cover(1);
        if let Some(x) = rd.extra() {
            self.viol("C03", format!("construction read leaf {:#x}/{:#x}", x.leaf, x.sub));
        }
        if rd.missing.is_some() {
            self.viol("C03", "construction did not ask the source for its vendor and maxima".into());
            return;
        }
        self.observe(1, &reads, || format!("new CpuId on cpu{} ({})", inst, rtext(&reads)));
        if !Rd::dups(&reads, inst).is_empty() {
            return;
        }
        let m = MCpu::from(inst, a, b);
        self.slots[i as usize] = Some(Slot::Cpu(CpuSlot { cpu, m }));
    }
    /// Take over the answer of a query or sub-query: check it and keep it.
    fn adopt(&mut self, i: u32, name: &'static str, inst: u32, vendor: Vend, out: Out, model: &dyn Fn(&mut Rd) -> MOut) {
        let reads = reads_now();
        let mut got = Got { out, vals: Vec::new() };
        if let Out::Obj(o) = &got.out {
            match self.vals(o) {
                Some(v) => got.vals = v,
                None => return,
            }
        }
        let hv = match &got.out {
            Out::None => 2,
            Out::Obj(o) => vhash(o.kind(), &got.vals),
            Out::Iter(_) => 3,
            Out::Val(v) => v.hash(4),
        };
        self.observe(hv, &reads, || {
            let t = match &got.out {
                Out::None => "nothing".to_string(),
                Out::Obj(o) => format!("{} {:?}", o.kind().name(), got.vals),
                Out::Iter(_) => "an enumeration".into(),
                Out::Val(v) => format!("{:?}", v),
            };
            format!("{} -> {}", name, t)
        });
        let np = match &got.out {
            Out::None => 0,
            _ => 1,
        };
        if np == 1 {
            with(|c| c.stats.probe(name));
        }
        self.cover(mixn(10, &[name.len() as u64, name.as_bytes()[name.len() - 3] as u64, name.as_bytes()[4] as u64, np, vendor as u64]));
        let (settled, bad) = settle(name, inst, &got, &reads, model);
        for (p, m) in bad {
            self.viol(p, m);
        }
        match settled {
            None => {
                if let Out::Obj(o) = got.out {
                    let sn = snap(vendor, 0, &[]);
                    // still an immutable snapshot
                    if fmt_leaf(o.kind()).is_none() {
                        self.slots[i as usize] = Some(Slot::Obj(Box::new(ObjSlot { obj: o, inst, snap: sn, sure: false, first: got.vals, text: Default::default(), held: None })));
                    }
                }
            }
            Some(Settled::Obj(_, s)) => {
                if let Out::Obj(o) = got.out {
                    if let Kind::VendorInfo | Kind::SoCVendorBrand = o.kind() {
                        let mut w = String::new();
                        let _ = display(&o, 0, &mut w);
                        if crate::val::s(&w) != got.vals[0] {
                            self.viol("C01", format!("{} is displayed as {:?} but says {:?}", name, w, got.vals[0]));
                        }
                    }
                    self.slots[i as usize] = Some(Slot::Obj(Box::new(ObjSlot { obj: o, inst, snap: s, sure: Rd::dups(&reads, inst).is_empty(), first: got.vals, text: Default::default(), held: None })));
                }
            }
            Some(Settled::Iter(im)) => {
                if let Out::Iter(it) = got.out {
                    self.slots[i as usize] = Some(Slot::Iter(Box::new(IterSlot { it, im, inst, vendor, done: false })));
                }
            }
            Some(_) => {}
        }
    }
    fn choose_getter(&self, i: u32) -> &'static Getter {
        let h = self.h(i, 3);
        if self.plan.compare > 0 && self.plan.focus > 0 && self.plan.focus % 10 != 0 {
            // one or two queries with comparable answers
            const OTHER: &[usize] = &[1, 6, 7, 8, 9, 13, 15, 16, 17, 18, 22, 23];
            let few = if self.plan.focus % 3 == 0 { 3 } else { 1 };
            let mut n = mix(self.plan.focus, h % few) as usize;
            while OTHER.contains(&(n % GETTERS.len())) {
                n = mix(n as u64, 1) as usize;
            }
            return &GETTERS[n % GETTERS.len()];
        }
        if self.plan.focus > 0 {
            return &GETTERS[mix(self.plan.focus, h % 3) as usize % GETTERS.len()];
        }
        const IT: &[usize] = &[2, 4, 10, 11, 20, 38];
        const RD: &[usize] = &[12, 13, 14, 15, 19, 21, 34];
        if h % 10 < self.plan.iters * 2 {
            let l = if h >> 8 & 1 == 0 { IT } else { RD };
            return &GETTERS[l[(h >> 16) as usize % l.len()]];
        }
        &GETTERS[(h >> 16) as usize % GETTERS.len()]
    }
    fn query(&mut self, i: u32) {
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Cpu(_))) {
            Some(s) => s,
            None => return,
        };
        let g = self.choose_getter(i);
        let mut attempt = 0;
        let (out, m) = loop {
            let c = match self.slot(s) {
                Slot::Cpu(c) => c,
                _ => return,
            };
            let r = once(self.plan, self.key, attempt, c.m.inst, || (g.call)(&c.cpu));
            let m = c.m;
            match r {
                Res::Ok(o) => break (o, m),
                Res::Injected if !self.give_up(i, attempt) => attempt += 1,
                Res::Injected => return,
                Res::Cap => return self.cap(g.name),
                Res::Panic(m) => return self.viol("C06", format!("{} panics: {}; reads: {}", g.name, m, rtext(&reads_now()))),
            }
        };
        self.after_call(g.name);
        self.adopt(i, g.name, m.inst, m.vendor, out, &|rd| (g.model)(&m, rd));
    }
    fn subquery(&mut self, i: u32) {
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Obj(o) if fmt_leaf(o.obj.kind()).is_some())) {
            Some(s) => s,
            None => return self.query(i),
        };
        let mut attempt = 0;
        let (out, inst, sn, sub) = loop {
            let o = match self.slot(s) {
                Slot::Obj(o) => o,
                _ => return,
            };
            let k = o.obj.kind();
            let subs: Vec<&'static Sub> = SUBS.iter().filter(|x| x.kind == k).collect();
            let sub = subs[(self.h(i, 3) >> 8) as usize % subs.len()];
            let (inst, sn) = (o.inst, o.snap);
            match once(self.plan, self.key, attempt, inst, || (sub.call)(&o.obj)) {
                Res::Ok(x) => break (x, inst, sn, sub),
                Res::Injected if !self.give_up(i, attempt) => attempt += 1,
                Res::Injected => return,
                Res::Cap => return self.cap(sub.name),
                Res::Panic(m) => return self.viol("C06", format!("{} panics: {}", sub.name, m)),
            }
        };
        self.after_call(sub.name);
        self.adopt(i, sub.name, inst, sn.vendor, out, &|rd| (sub.model)(&sn, rd));
    }
    fn drain(&mut self, i: u32, max: u32) {
        let n = self.slots.len();
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Iter(x) if !x.done)) {
            // shared iterators can only be cloned
            Some(s) if s < n => s,
            _ => return if self.h(i, 6) & 1 == 0 { self.query(i) } else { self.subquery(i) },
        };
        let mut x = match self.slots[s].take() {
            Some(Slot::Iter(x)) => x,
            other => {
                self.slots[s] = other;
                return;
            }
        };
        for st in 0..max {
            self.key = i << 8 | st;
            match self.step_iter(i, &mut x) {
                Some(Some(o)) => {
                    if st == max - 1 {
                        self.slots[i as usize] = Some(Slot::Obj(Box::new(o)));
                    }
                }
                Some(None) => break,
                // the position is unknown after a violation
                None => return,
            }
            if x.done {
                break;
            }
        }
        self.slots[s] = Some(Slot::Iter(x));
    }
    /// One step: Some(Some(item)), Some(None) = nothing this time, None = do not go on with this iterator.
    fn step_iter(&mut self, i: u32, x: &mut IterSlot) -> Option<Option<ObjSlot>> {
        let mut attempt = 0;
        let item = loop {
            let (inst, vendor) = (x.inst, x.vendor);
            let _ = vendor;
            match once(self.plan, self.key, attempt, inst, || x.it.next()) {
                Res::Ok(o) => break o,
                Res::Injected => {
                    let (reads, tried) = with(|c| (c.reads.clone(), c.ridx));
                    let base = match x.im {
                        IM::Dat { hi, .. } => Some(hi.saturating_add(tried)),
                        _ => None,
                    };
                    x.im.interrupted(&reads, base);
                    if self.give_up(i, attempt) {
                        return Some(None);
                    }
                    attempt += 1;
                    // the interrupted step may also be repeated on a clone
                    if self.h(i, 91 + attempt as u64) % 4 == 0 {
                        if let Res::Ok(Some(c)) = guard(false, || x.it.dup()) {
                            x.it = c;
                        }
                    }
                }
                Res::Cap => {
                    self.cap(x.im.name());
                    let reads = reads_now();
                    let mut rd = Rd::new(&reads, inst);
                    step(&x.im, x.vendor, &mut rd);
                    if let (false, Some(r)) = (rd.too_long, rd.extra()) {
                        self.viol("C04", format!("{} at {:?} does not end: read {:#x}/{:#x}, which this step does not pass over", x.im.name(), x.im, r.leaf, r.sub));
                    }
                    return None;
                }
                Res::Panic(m) => {
                    self.viol("C06", format!("stepping {} panics: {}; reads: {}", x.im.name(), m, rtext(&reads_now())));
                    return None;
                }
            }
        };
        self.after_call(x.im.name());
        let reads = reads_now();
        let vals = match &item {
            Some(o) => self.vals(o)?,
            None => Vec::new(),
        };
        let hv = item.as_ref().map_or(5, |o| vhash(o.kind(), &vals));
        let nm = x.im.name();
        self.observe(hv, &reads, || format!("{} step -> {}", nm, item.as_ref().map_or("end".into(), |o| format!("{} {:?}", o.kind().name(), vals))));
        self.cover(mixn(20, &[nm.len() as u64, x.im.leaf().unwrap_or(2) as u64, item.is_some() as u64, x.vendor as u64, reads.len().min(5) as u64]));
        match settle_step(&x.im, x.inst, x.vendor, item.as_ref().map(|o| (o, &vals[..])), &reads) {
            Ok(Stepped::End) => {
                x.done = true;
                Some(None)
            }
            Ok(Stepped::Open) => None,
            Ok(Stepped::Item(nx, _, sn)) => {
                with(|c| c.stats.probe(nm));
                x.im = nx;
                Some(item.map(|obj| ObjSlot { obj, inst: x.inst, snap: sn, sure: Rd::dups(&reads, x.inst).is_empty(), first: vals, text: Default::default(), held: None }))
            }
            Err(v) => {
                for (p, m) in v {
                    self.viol(p, m);
                }
                None
            }
        }
    }
    fn access(&mut self, i: u32) {
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Obj(_))) {
            Some(s) => s,
            None => return,
        };
        with(|c| c.begin_op(self.key, 0));
        point(1, 0, self.plan.sw_op);
        self.recheck(s);
    }
    /// Keep the text a new object lends out, as a caller may for as long as it has the object.
    fn hold(&mut self, i: u32) {
        let deny = self.plan.deny;
        if let Some(Slot::Obj(o)) = &mut self.slots[i as usize] {
            if o.held.is_none() {
                if let Res::Ok(Some((p, n))) = guard(deny, || lent(&o.obj).map(|t| (t.as_ptr(), t.len()))) {
                    let p = std::ptr::slice_from_raw_parts(p, n);
                    o.held = Some((p, unsafe { (*p).to_vec() }));
                }
            }
        }
    }
    /// The accessors of a live object still say what they said first.
    fn recheck(&mut self, s: usize) {
        let lent_changed = |o: &ObjSlot| o.held.as_ref().and_then(|(p, t)| (unsafe { &**p } != &t[..]).then(|| String::from_utf8_lossy(t).into_owned()));
        let (k, changed, v, first) = match self.slot(s) {
            Slot::Obj(o) => (o.obj.kind(), lent_changed(o), values(&o.obj, self.plan.deny), o.first.clone()),
            _ => return,
        };
        self.after_call(k.name());
        if let Some(t) = changed {
            return self.viol("C02", format!("{}::as_str lent out {:?}, and that text changed while the object was alive", k.name(), t));
        }
        let v = match v {
            Ok(v) => v,
            Err((p, m)) => return self.viol(p, m),
        };
        let hv = vhash(k, &v);
        self.observe(hv, &[], || format!("{} again: {:?}", k.name(), v));
        self.cover(mixn(30, &[k as u64]));
        for j in 0..v.len() {
            if v[j] != first[j] {
                return self.viol("C02", format!("{}::{} said {:?} first and {:?} now", k.name(), k.acc_name(j), first[j], v[j]));
            }
        }
    }
    fn clone_slot(&mut self, i: u32) {
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Cpu(_)) || matches!(s, Slot::Iter(x) if !x.done)) {
            Some(s) => s,
            None => return,
        };
        let h = self.h(i, 3);
        let mut attempt = 0;
        let ns = loop {
            let r = match self.slot(s) {
                Slot::Cpu(c) => once(self.plan, self.key, attempt, c.m.inst, || if h & 1 == 0 { Dup(&c.cpu).dup() } else { c.cpu.clone() }).map(|cpu| Some(Slot::Cpu(CpuSlot { cpu, m: c.m }))),
                Slot::Iter(x) => once(self.plan, self.key, attempt, x.inst, || x.it.dup()).map(|it| it.map(|it| Slot::Iter(Box::new(IterSlot { it, im: x.im.clone(), inst: x.inst, vendor: x.vendor, done: false })))),
                _ => return,
            };
            match r {
                Res::Ok(n) => break Ok(n),
                Res::Injected if !self.give_up(i, attempt) => attempt += 1,
                Res::Panic(m) => break Err(m),
                _ => break Ok(None),
            }
        };
        self.after_call("clone");
        self.cover(40);
        match ns {
            Ok(n) => self.slots[i as usize] = n,
            Err(m) => self.viol("C06", format!("cloning panics: {}", m)),
        }
    }
    /// Formatting: which renderings there are of a slot.
    fn render(s: &Slot, mode: u32, w: &mut dyn Write) -> std::fmt::Result {
        match s {
            Slot::Cpu(c) => match mode % 4 {
                0 => write!(w, "{:?}", c.cpu),
                1 => write!(w, "{:#?}", c.cpu),
                2 => write!(w, "{:#06x?}", c.cpu),
                _ => write!(w, "{:>24.3?}", c.cpu),
            },
            Slot::Obj(o) => {
                if mode >= 4 {
                    if let Some(r) = display(&o.obj, (mode - 4) as usize, w) {
                        return r;
                    }
                }
                o.obj.debug(w, mode)
            }
            Slot::Iter(x) => x.it.debug(w, mode),
        }
    }
    fn inst_of(s: &Slot) -> u32 {
        match s {
            Slot::Cpu(c) => c.m.inst,
            Slot::Obj(o) => o.inst,
            Slot::Iter(x) => x.inst,
        }
    }
    fn slot_name(s: &Slot) -> String {
        match s {
            Slot::Cpu(_) => "CpuId".into(),
            Slot::Obj(o) => o.obj.kind().name().into(),
            Slot::Iter(x) => x.im.name().into(),
        }
    }
    fn mode(&self, i: u32, s: &Slot) -> u32 {
        let h = self.h(i, 8);
        if let Slot::Obj(o) = s {
            let n = (0..MAX_DISP).filter(|d| display(&o.obj, *d, &mut String::new()).is_some()).count() as u64;
            return match h % (5 + 2 * n) {
                x @ 0..=4 => x as u32 % 4,
                x => 4 + (x as u32 - 5) % n as u32,
            };
        }
        (h % 5) as u32 % 4
    }
    fn pick_fmt(&self, i: u32) -> Option<usize> {
        let h = self.h(i, 2);
        match h % 12 {
            0 => self.pick(h >> 8, |s| matches!(s, Slot::Cpu(_))),
            1..=4 => self.pick(h >> 8, |s| matches!(s, Slot::Iter(_))).or_else(|| self.pick(h >> 8, |s| matches!(s, Slot::Obj(_)))),
            5..=6 => self.pick(h >> 8, |s| matches!(s, Slot::Obj(o) if fmt_leaf(o.obj.kind()).is_some())).or_else(|| self.pick(h >> 8, |s| matches!(s, Slot::Obj(_)))),
            _ => self.pick(h >> 8, |s| matches!(s, Slot::Obj(_))),
        }
    }
    fn format(&mut self, i: u32) {
        let s = match self.pick_fmt(i) {
            Some(s) => s,
            None => return,
        };
        let mode = self.mode(i, self.slot(s));
        let name = Self::slot_name(self.slot(s));
        let mut attempt = 0;
        let (r, sink) = loop {
            let mut sink = Sink::new(self.plan.sw_sink);
            let sl = self.slot(s);
            match once(self.plan, self.key, attempt, Self::inst_of(sl), || Self::render(sl, mode, &mut sink)) {
                Res::Ok(r) => break (r, sink),
                Res::Injected if !self.give_up(i, attempt) => attempt += 1,
                Res::Injected => return,
                Res::Cap => return self.cap(&format!("formatting {}", name)),
                Res::Panic(m) => return self.viol("C06", format!("formatting {} panics: {}", name, m)),
            }
        };
        self.after_call(&format!("formatting {}", name));
        let reads = reads_now();
        let ridx = with(|c| c.ridx);
        let hv = sink.buf.iter().fold(7, |h, b| mix(h, *b as u64));
        self.observe(hv, &reads, || format!("{} formatted: {}", name, String::from_utf8_lossy(&sink.buf[..sink.buf.len().min(300)])));
        self.cover(mixn(50, &[name.len() as u64, mode as u64, reads.len().min(4) as u64]));
        if r.is_err() {
            self.viol("C07", format!("formatting {} into a healthy destination reports an error", name));
            self.viol("C06", format!("formatting {} into a string would panic: it reports an error though nothing failed", name));
        }
        enum A {
            Leaf(u32),
            Cpu(MCpu),
            Nothing,
        }
        let (allowed, inst) = match self.slot(s) {
            Slot::Cpu(c) => (A::Cpu(c.m), c.m.inst),
            Slot::Obj(o) => (fmt_leaf(o.obj.kind()).map_or(A::Nothing, A::Leaf), o.inst),
            Slot::Iter(x) => (x.im.leaf().map_or(A::Nothing, A::Leaf), x.inst),
        };
        match allowed {
            A::Nothing => {
                if ridx > 0 {
                    return self.viol("C02", format!("formatting {} consults the CPUID source: {}", name, rtext(&reads)));
                }
                let plain = match self.slot(s) {
                    Slot::Obj(o) => {
                        let mut t = o.text.borrow_mut();
                        match t.iter().find(|x| x.0 == mode) {
                            Some(x) => {
                                if x.1 != sink.buf {
                                    Some(format!("{} was formatted as {:?} first and as {:?} now", name, String::from_utf8_lossy(&x.1), String::from_utf8_lossy(&sink.buf)))
                                } else {
                                    None
                                }
                            }
                            None => {
                                t.push((mode, sink.buf.clone()));
                                None
                            }
                        }
                    }
                    _ => None,
                };
                if let Some(m) = plain {
                    self.viol("C02", m);
                }
            }
            A::Leaf(l) => {
                if let Some(r) = reads.iter().find(|r| r.leaf != l || r.inst != inst) {
                    self.viol("C03", format!("formatting {} read leaf {:#x}/{:#x}", name, r.leaf, r.sub));
                }
            }
            A::Cpu(m) => {
                if let Some(r) = reads.iter().find(|r| !m.any_ok(r.leaf) || r.inst != inst) {
                    self.viol("C03", format!("formatting a CpuId read leaf {:#x}/{:#x}, which the CPU did not advertise at construction", r.leaf, r.sub));
                }
            }
        }
    }
    fn format_failing(&mut self, i: u32) {
        let s = match self.pick_fmt(i) {
            Some(s) => s,
            None => return,
        };
        let mode = self.mode(i, self.slot(s));
        let name = Self::slot_name(self.slot(s));
        let key0 = self.key;
        let run = |th: &Self, k: u32, sink: &mut Sink| {
            let sl = th.slot(s);
            once(th.plan, key0 | k, 0, Self::inst_of(sl), || Self::render(sl, mode, sink))
        };
        macro_rules! healthy {
            ($k:expr) => {{
                let mut sink = Sink::new(self.plan.sw_sink);
                match run(self, $k, &mut sink) {
                    Res::Ok(Ok(())) => {}
                    Res::Ok(Err(_)) => return self.viol("C07", format!("formatting {} into a healthy destination reports an error", name)),
                    Res::Injected => return,
                    Res::Cap => return self.cap(&format!("formatting {}", name)),
                    Res::Panic(m) => return self.viol("C06", format!("formatting {} panics: {}", name, m)),
                }
                self.after_call(&name);
                sink
            }};
        }
        let full = healthy!(0);
        if full.calls == 0 {
            return;
        }
        let h = self.h(i, 9);
        for t in 0..4u32 {
            let ht = mix(h, t as u64);
            let mut sink = Sink::new(self.plan.sw_sink);
            sink.partial = ht & 1 == 1;
            let pos = |n: u64| match ht >> 4 & 7 {
                0 => 0,
                1 => n - 1,
                2 => n / 2,
                _ => (ht >> 8) % n,
            };
            if ht >> 1 & 1 == 0 {
                sink.fail_call = Some(1 + pos(full.calls as u64) as u32);
            } else {
                sink.limit = pos(full.buf.len().max(1) as u64) as usize;
            }
            let r = match run(self, 10 + t, &mut sink) {
                Res::Ok(r) => r,
                Res::Injected => return,
                Res::Cap => return self.cap(&format!("formatting {}", name)),
                Res::Panic(m) => return self.viol("C06", format!("formatting {} into a failing destination panics: {}", name, m)),
            };
            self.after_call(&name);
            if sink.failed {
                with(|c| c.stats.faults[F_SINK] += 1);
            }
            let d = format!("{} (mode {}), destination failing at {}", name, mode, sink.fail_call.map_or(format!("byte {}", sink.limit), |c| format!("write call {}", c)));
            self.cover(mixn(60, &[name.len() as u64, mode as u64, ht & 3, (ht >> 4) & 7]));
            self.observe(mixn(9, &[sink.buf.len() as u64, r.is_err() as u64, sink.after as u64]), &[], || format!("formatted {}: {} bytes, error {}", d, sink.buf.len(), r.is_err()));
            if !full.buf.starts_with(&sink.buf) {
                return self.viol("C07", format!("{}: what was written is not a prefix of the full text: {:?}", d, String::from_utf8_lossy(&sink.buf)));
            }
            if sink.failed && r.is_ok() {
                return self.viol("C07", format!("{}: reported success", d));
            }
            if sink.after > 0 {
                return self.viol("C07", format!("{}: {} more write(s) after the failure", d, sink.after));
            }
            if !sink.failed && r.is_err() {
                return self.viol("C07", format!("{}: reported an error that did not happen", d));
            }
            if !sink.failed && sink.buf != full.buf {
                return self.viol("C07", format!("{}: incomplete text reported as success", d));
            }
        }
        let again = healthy!(40);
        if again.buf != full.buf {
            self.viol("C07", format!("{}: rendering again after failed attempts gives {:?} instead of {:?}", name, String::from_utf8_lossy(&again.buf), String::from_utf8_lossy(&full.buf)));
        }
    }
    /// Item as an observation (for comparing branches), and whether the enumeration goes on.
    fn branch_step(&mut self, it: &mut It, inst: u32, key: u32) -> Res<(u64, u64, String)> {
        self.key = key;
        let r = once(self.plan, key, 0, inst, || it.next());
        match r {
            Res::Ok(o) => {
                let reads = reads_now();
                let mut h = 1u64;
                let mut t = "end".to_string();
                if let Some(o) = &o {
                    match values(o, false) {
                        Ok(v) => {
                            h = vhash(o.kind(), &v);
                            t = format!("{:?}", v);
                        }
                        Err((p, m)) => self.viol(p, m),
                    }
                }
                Res::Ok((h, rhash(&reads), t))
            }
            Res::Injected => Res::Injected,
            Res::Cap => Res::Cap,
            Res::Panic(m) => Res::Panic(m),
        }
    }
    fn fork_iter(&mut self, i: u32) {
        const N: usize = 24;
        let n = self.slots.len();
        let h = self.h(i, 3);
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Iter(x) if !x.done && !matches!(x.it, It::Soc(_)))) {
            Some(s) if s < n => s,
            _ => return self.subquery(i),
        };
        let mut x = match self.slots[s].take() {
            Some(Slot::Iter(x)) => x,
            o => {
                self.slots[s] = o;
                return;
            }
        };
        let nm = x.im.name();
        let inst = x.inst;
        let key0 = self.key;
        // a few fault-injected steps of the original first, so that it is forked in the middle of its life
        let pre = h % 4;
        for k in 0..pre {
            match self.branch_step(&mut x.it, inst, key0 | k as u32) {
                Res::Ok((1, ..)) => return,
                Res::Ok(_) | Res::Injected => {}
                _ => return,
            }
        }
        let dup = |it: &It| match guard(false, || it.dup()) {
            Res::Ok(d) => d,
            _ => None,
        };
        let (mut b, mut r) = match (dup(&x.it), dup(&x.it)) {
            (Some(b), Some(r)) => (b, r),
            _ => return,
        };
        let mut seq = Vec::new();
        with(|c| c.quiet = true);
        for k in 0..N {
            match self.branch_step(&mut r, inst, key0 | (8 + k as u32)) {
                Res::Ok(o) => {
                    let end = o.0 == 1;
                    seq.push(o);
                    if end {
                        break;
                    }
                }
                _ => break,
            }
        }
        with(|c| c.quiet = false);
        self.cover(mixn(70, &[nm.len() as u64, seq.len().min(8) as u64, pre]));
        let mut third: Option<(It, usize)> = None;
        let mut pos = [0usize; 2];
        let mut dead = [false; 2];
        let mut failed = false;
        let drop_b = h >> 8 & 7;
        for k in 0..2 * N {
            let hk = self.h(i, 200 + k as u64);
            let w = if dead[0] {
                1
            } else if dead[1] {
                0
            } else {
                (hk & 1) as usize
            };
            if dead[0] && dead[1] {
                break;
            }
            if drop_b == 0 && k == (h >> 12) as usize % N {
                dead[1] = true;
                b = match dup(&x.it) {
                    Some(t) => t,
                    None => break,
                };
                continue;
            }
            if third.is_none() && hk >> 8 & 7 == 0 && !(failed && w == 0) {
                // fork again, further along
                let src = if w == 0 { &x.it } else { &b };
                third = dup(src).map(|t| (t, pos[w]));
            }
            let it = if w == 0 { &mut x.it } else { &mut b };
            // borrow of self and it do not overlap: `it` lives outside self
            let r = self.branch_step(it, inst, key0 | (40 + k as u32));
            match r {
                Res::Ok(o) => {
                    if pos[w] < seq.len() {
                        if o != seq[pos[w]] {
                            let e = &seq[pos[w]];
                            return self.viol(
                                "C13",
                                format!("{} forked after {} steps: step {} of the {} gives {} (reads {:x}), the other copy gave {} (reads {:x})", nm, pre, pos[w], if w == 0 { "original" } else { "clone" }, o.2, o.1, e.2, e.1),
                            );
                        }
                        pos[w] += 1;
                    }
                    if o.0 == 1 || pos[w] >= seq.len() {
                        dead[w] = true;
                    }
                }
                Res::Injected => {
                    // this branch failed; the other one must not notice
                    dead[w] = true;
                    failed = true;
                }
                Res::Cap => return,
                Res::Panic(_) => return,
            }
        }
        if let Some((mut t, p)) = third {
            with(|c| c.quiet = true);
            for (k, e) in seq[p..].iter().enumerate() {
                if let Res::Ok(o) = self.branch_step(&mut t, inst, key0 | (100 + k as u32)) {
                    if o != *e {
                        with(|c| c.quiet = false);
                        return self.viol("C13", format!("{} forked a second time after {} further steps: step {} gives {}, the first copy gave {}", nm, p, k, o.2, e.2));
                    }
                }
            }
            with(|c| c.quiet = false);
        }
    }
    fn fork_cpu(&mut self, i: u32) {
        let s = match self.pick(self.h(i, 2), |s| matches!(s, Slot::Cpu(_))) {
            Some(s) => s,
            None => return,
        };
        let (a, m) = match self.slot(s) {
            Slot::Cpu(c) => (Dup(&c.cpu).dup(), c.m),
            _ => return,
        };
        let b = a.clone();
        let key0 = self.key;
        let mut seen: Vec<(usize, u64, u64, String)> = Vec::new();
        let orig = match self.slot(s) {
            Slot::Cpu(c) => c.cpu.clone(),
            _ => return,
        };
        for k in 0..16u32 {
            let hk = self.h(i, 300 + k as u64);
            let gi = if k % 4 == 3 && !seen.is_empty() { seen[(hk >> 20) as usize % seen.len()].0 } else { (hk >> 8) as usize % GETTERS.len() };
            let g = &GETTERS[gi];
            self.key = key0 | k;
            for (w, c) in [&orig, &a, &b].iter().enumerate() {
                // order of use differs between repetitions
                if (hk >> (30 + w)) & 3 == 3 {
                    continue;
                }
                let out = match once(self.plan, key0 | (k * 3 + w as u32), 0, m.inst, || (g.call)(c)) {
                    Res::Ok(o) => o,
                    Res::Injected => continue,
                    _ => return,
                };
                let reads = reads_now();
                let (hv, t) = match &out {
                    Out::None => (2, "nothing".to_string()),
                    Out::Iter(_) => (3, "an enumeration".to_string()),
                    Out::Val(v) => (v.hash(4), format!("{:?}", v)),
                    Out::Obj(o) => match values(o, false) {
                        Ok(v) => (vhash(o.kind(), &v), format!("{:?}", v)),
                        Err((p, m)) => return self.viol(p, m),
                    },
                };
                let rh = rhash(&reads);
                match seen.iter().find(|x| x.0 == gi) {
                    Some(x) => {
                        if x.1 != hv || x.2 != rh {
                            let x = x.clone();
                            return self.viol("C13", format!("{} on the {} gives {} but gave {} on another copy", g.name, ["original", "copy", "clone"][w], t, x.3));
                        }
                    }
                    None => seen.push((gi, hv, rh, t)),
                }
            }
        }
        self.cover(mixn(80, &[m.vendor as u64]));
    }
    /// Two objects of the same type compared with each other.
    fn compare(&mut self, i: u32) {
        let h = self.h(i, 2);
        let a = match self.pick(h, |s| matches!(s, Slot::Obj(_)) || matches!(s, Slot::Iter(x) if matches!(x.it, It::Cache(_)))) {
            Some(a) => a,
            None => return,
        };
        let kind = match self.slot(a) {
            Slot::Obj(o) => Some(o.obj.kind()),
            _ => None,
        };
        let n = self.slots.len() + self.shared.len();
        let peers: Vec<usize> = (0..n)
            .filter(|i| *i != a && (*i >= self.slots.len() || self.slots[*i].is_some()))
            .filter(|i| match self.slot(*i) {
                Slot::Obj(o) => Some(o.obj.kind()) == kind,
                Slot::Iter(x) => kind.is_none() && matches!(x.it, It::Cache(_)),
                _ => false,
            })
            .collect();
        // now and then with itself
        let b = if peers.is_empty() || h >> 40 & 15 == 0 { a } else { peers[(h >> 20) as usize % peers.len()] };
        with(|c| c.begin_op(self.key, 0));
        point(1, 0, self.plan.sw_op);
        let (x, y) = (self.slot(a), self.slot(b));
        let deny = self.plan.deny;
        let (name, r) = match (x, y) {
            (Slot::Obj(x), Slot::Obj(y)) => (x.obj.kind().name(), guard(deny, || (x.obj.same(&y.obj), y.obj.same(&x.obj), x.obj.same(&y.obj)))),
            (Slot::Iter(x), Slot::Iter(y)) => ("CacheInfoIter", guard(deny, || (x.it.same(&y.it), y.it.same(&x.it), x.it.same(&y.it)))),
            _ => return,
        };
        let (r, back, again) = match r {
            Res::Ok((Some(r), Some(b), Some(a))) => (r, b, a),
            Res::Ok(_) => return self.compare_parts(a, b),
            Res::Panic(m) => return self.viol("C17", format!("comparing {} panics: {}", name, m)),
            _ => return self.viol("C17", format!("comparing {} consults the CPUID source", name)),
        };
        let ridx = with(|c| c.ridx);
        // what the two are, to the caller and to the model
        let (must, cannot, how) = match (x, y) {
            (Slot::Obj(x), Slot::Obj(y)) => {
                let must = a == b
                    || x.sure && y.sure && x.snap == y.snap && x.inst == y.inst && !(x.snap.vendor == Vend::Other && matches!(x.obj.kind(), Kind::FeatureInfo | Kind::ExtendedProcessorFeatureIdentifiers));
                let d = (0..x.first.len()).find(|j| x.first[*j] != y.first[*j]);
                let k = x.obj.kind();
                (must, d.is_some(), d.map_or(format!("{:08x?} and {:08x?}", x.snap.k, y.snap.k), |j| format!("{} {:?} and {:?}", k.acc_name(j), x.first[j], y.first[j])))
            }
            (Slot::Iter(x), Slot::Iter(y)) => {
                let left = |s: &IterSlot| -> Vec<Val> {
                    let mut v = Vec::new();
                    if let Some(mut it) = s.it.dup() {
                        while let Some(o) = it.next() {
                            v.push(o.call(0));
                            if v.len() > 32 {
                                break;
                            }
                        }
                    }
                    v
                };
                let (l, m) = match guard(false, || (left(x), left(y))) {
                    Res::Ok(v) => v,
                    _ => return,
                };
                (a == b || x.im == y.im && !x.done && !y.done, l != m, format!("{:x?} and {:x?} remaining", l, m))
            }
            _ => return,
        };
        let bits = |d: &[u32; 4], e: &[u32; 4]| (0..4).map(|j| (d[j] ^ e[j]).count_ones()).sum::<u32>();
        let dist = match (x, y) {
            (Slot::Obj(x), Slot::Obj(y)) => (0..3).map(|j| bits(&x.snap.k[j], &y.snap.k[j])).sum::<u32>(),
            _ => 99,
        };
        self.cover(mixn(100, &[kind.map_or(999, |k| k as u64), must as u64, cannot as u64, r.0 as u64, dist.min(3) as u64]));
        self.observe(mixn(11, &[r.0 as u64, back.0 as u64]), &[], || format!("compared {}: {:?} ({})", name, r, how));
        if self.judge_pair(name, ridx, r, back, again, must, cannot, &how) {
            self.compare_parts(a, b);
        }
    }
    /// What `==` and `!=` said (as (==, !=)) of two objects that must be equal, cannot be, or neither.
    fn judge_pair(&mut self, name: &str, ridx: u32, r: (bool, bool), back: (bool, bool), again: (bool, bool), must: bool, cannot: bool, how: &str) -> bool {
        let m = if ridx > 0 {
            format!("comparing {} consults the CPUID source", name)
        } else if r.0 == r.1 || back.0 == back.1 {
            format!("two {} are {} and {}: {}", name, if r.0 { "equal" } else { "not equal" }, if r.1 { "unequal" } else { "not unequal" }, how)
        } else if r != back {
            format!("of two {}, a == b is {} and b == a is {}: {}", name, r.0, back.0, how)
        } else if r != again {
            format!("comparing two {} again gives {} after {}: {}", name, again.0, r.0, how)
        } else if must && !r.0 {
            format!("{} decoded from the same replies are unequal: {}", name, how)
        } else if cannot && r.0 {
            format!("two {} are equal although they differ: {}", name, how)
        } else {
            return true;
        };
        self.viol("C17", m);
        false
    }
    /// The same request answered twice by the source, once with a few bits changed (or none): what it
    /// gives is compared.
    fn twins(&mut self, i: u32) {
        let h = self.h(i, 5);
        let s = match h % 4 {
            0 => self.pick(h >> 8, |s| matches!(s, Slot::Iter(x) if !matches!(x.it, It::Soc(_)))),
            1 => self.pick(h >> 8, |s| matches!(s, Slot::Obj(o) if fmt_leaf(o.obj.kind()).is_some())),
            _ => None,
        };
        let s = match s.or_else(|| self.pick(h >> 8, |s| matches!(s, Slot::Cpu(_)))) {
            Some(s) => s,
            None => return,
        };
        let g = self.choose_getter(i);
        let make = |sl: &Slot| -> Out {
            match sl {
                Slot::Cpu(c) => (g.call)(&c.cpu),
                Slot::Obj(o) => {
                    let subs: Vec<&'static Sub> = SUBS.iter().filter(|x| x.kind == o.obj.kind()).collect();
                    (subs[(h >> 20) as usize % subs.len()].call)(&o.obj)
                }
                Slot::Iter(x) => match x.it.dup() {
                    Some(mut it) => {
                        for _ in 0..h >> 20 & 3 {
                            it.next();
                        }
                        it.next().map_or(Out::None, Out::Obj)
                    }
                    None => Out::None,
                },
            }
        };
        with(|c| {
            c.begin_op(self.key, 0);
            c.quiet = true;
        });
        let first = match guard(false, || make(self.slot(s))) {
            Res::Ok(o) => o,
            _ => return with(|c| c.quiet = false),
        };
        let reads = reads_now();
        let mut found = None;
        if !reads.is_empty() && reads.len() < 40 {
            for t in 0..8u64 {
                let ht = self.h(i, 400 + t);
                let mut sc = reads.clone();
                let mut text = "the same replies".to_string();
                for _ in 0..[0, 1, 1, 1, 1, 2, 2, 3][(ht >> 60) as usize & 7] {
                    let z = mix(ht, text.len() as u64);
                    // the last reply is more often the one the answer is made from
                    let n = if z & 1 == 0 { sc.len() - 1 } else { (z >> 1) as usize % sc.len() };
                    let (r, b) = ((z >> 20) as usize % 4, (z >> 30) % 32);
                    sc[n].regs[r] ^= 1 << b;
                    text = format!("{}, bit {} of register {} of reply {} changed", text, b, r, n);
                }
                let same = sc.iter().zip(&reads).all(|x| x.0.regs == x.1.regs);
                with(|c| {
                    c.begin_op(self.key | t as u32 + 1, 0);
                    c.script = Some(sc);
                    c.script_pos = 0;
                    c.script_miss = false;
                });
                let second = guard(false, || make(self.slot(s)));
                let miss = with(|c| {
                    c.script = None;
                    c.script_miss || c.script_pos != reads.len()
                });
                with(|c| c.begin_op(self.key | t as u32 + 1, 0));
                let second = match second {
                    Res::Ok(o) if !miss => o,
                    _ => continue,
                };
                let (name, r, cannot, how) = match (&first, &second) {
                    (Out::Obj(a), Out::Obj(b)) if a.kind() == b.kind() => {
                        let r = guard(false, || (a.same(b), b.same(a), a.same(b), a.same_part(b)));
                        let ridx = with(|c| c.ridx);
                        let (va, vb) = match (values(a, false), values(b, false)) {
                            (Ok(x), Ok(y)) => (x, y),
                            _ => continue,
                        };
                        let k = a.kind();
                        let d = (0..va.len()).find(|j| va[*j] != vb[*j]);
                        if let Res::Ok((.., parts)) = &r {
                            for (n, p) in parts {
                                if let (Some((eq, ne)), Some(j)) = (p, (0..k.len()).find(|j| k.acc_name(*j) == *n)) {
                                    if *eq == *ne || *eq != (va[j] == vb[j]) {
                                        found.get_or_insert(format!("{}::{} gives {:?} and {:?}, which compare as == {} and != {}", k.name(), n, va[j], vb[j], eq, ne));
                                    }
                                }
                            }
                        }
                        let how = d.map_or(text.clone(), |j| format!("{}: {} {:?} and {:?}", text, k.acc_name(j), va[j], vb[j]));
                        self.cover(mixn(102, &[k as u64, d.map_or(99, |d| d as u64), same as u64]));
                        (k.name(), r.map(|x| (x.0, x.1, x.2, ridx)), d.is_some(), how)
                    }
                    (Out::Iter(a), Out::Iter(b)) => {
                        let r = guard(false, || (a.same(b), b.same(a), a.same(b)));
                        let ridx = with(|c| c.ridx);
                        ("enumerations", r.map(|x| (x.0, x.1, x.2, ridx)), false, text.clone())
                    }
                    _ => continue,
                };
                match r {
                    Res::Ok((Some(r), Some(b), Some(a), ridx)) => {
                        if !self.judge_pair(name, ridx, r, b, a, same, cannot, &how) {
                            break;
                        }
                    }
                    Res::Ok(_) => {}
                    Res::Panic(m) => {
                        found = Some(format!("comparing {} panics: {}", name, m));
                        break;
                    }
                    _ => {
                        found = Some(format!("comparing {} consults the CPUID source", name));
                        break;
                    }
                }
            }
        }
        with(|c| c.quiet = false);
        if let Some(m) = found {
            self.viol("C17", m);
        }
    }
    fn compare_parts(&mut self, a: usize, b: usize) {
        let (x, y) = match (self.slot(a), self.slot(b)) {
            (Slot::Obj(x), Slot::Obj(y)) => (x, y),
            _ => return,
        };
        let k = x.obj.kind();
        let parts = match guard(false, || x.obj.same_part(&y.obj)) {
            Res::Ok(p) => p,
            Res::Panic(m) => return self.viol("C17", format!("comparing values of {} panics: {}", k.name(), m)),
            _ => return self.viol("C17", format!("comparing values of {} consults the CPUID source", k.name())),
        };
        let mut bad = None;
        for (name, r) in parts {
            let j = match (0..k.len()).find(|j| k.acc_name(*j) == name) {
                Some(j) => j,
                None => continue,
            };
            let same = x.first[j] == y.first[j];
            if let Some((eq, ne)) = r {
                if eq != same || ne == same {
                    bad = Some(format!("{}::{} gives {:?} and {:?}, which compare as == {} and != {}", k.name(), name, x.first[j], y.first[j], eq, ne));
                }
            }
        }
        if let Some(m) = bad {
            self.viol("C17", m);
        }
    }
    /// Debug output taken apart: every labelled value is what the accessor or query of that name says.
    fn inspect(&mut self, i: u32) {
        let s = match self.pick_fmt(i) {
            Some(s) => s,
            None => return,
        };
        let name = Self::slot_name(self.slot(s));
        let sl = self.slot(s);
        let dbg = |o: &Out| -> Option<String> {
            let mut w = String::new();
            match o {
                Out::None => w.push_str("None"),
                Out::Obj(o) => o.debug(&mut w, 0).ok()?,
                Out::Iter(It::CpuTopo(_)) => return None,
                Out::Iter(it) => it.debug(&mut w, 0).ok()?,
                Out::Val(_) => return None,
            }
            Some(w)
        };
        let r = once(self.plan, self.key, 0, Self::inst_of(sl), || {
            let mut bad: Vec<String> = Vec::new();
            let mut plain = String::new();
            let _ = Self::render(sl, 0, &mut plain);
            let fields = crate::text::fields(&plain);
            let mut seen = 0;
            match sl {
                Slot::Cpu(c) => {
                    for (n, v) in &fields {
                        let want = format!("get_{}", n);
                        if let Some(d) = GETTERS.iter().find(|g| g.name == want).and_then(|g| dbg(&(g.call)(&c.cpu))) {
                            seen += 1;
                            if *v != d && *v != format!("Some({})", d) {
                                bad.push(format!("{} shown as {}, the query answers {}", n, v, d));
                            }
                        }
                    }
                }
                Slot::Obj(o) => {
                    let k = o.obj.kind();
                    let acc = |n: &str| (0..k.len()).find(|j| k.acc_name(*j) == n);
                    for (n, v) in &fields {
                        let get = format!("get_{}", n);
                        let alias = match (k, n.as_str()) {
                            (Kind::ExtendedTopologyLevel, "number") => "level_number",
                            (Kind::ExtendedTopologyLevel, "type") => "level_type",
                            (Kind::ExtendedTopologyLevel, "next_apic_id") => "shift_right_for_next_apic_id",
                            (Kind::VendorInfo, "brand_string") => "as_str",
                            _ => n.as_str(),
                        };
                        if let Some(j) = acc(alias).or_else(|| acc(&get)) {
                            seen += 1;
                            let x = o.obj.call(j);
                            if !crate::text::shows(v, &x) {
                                bad.push(format!("{} shown as {}, the accessor says {:?}", n, v, x));
                            }
                            continue;
                        }
                        let sub = |m: &str| m == n || m == get || m == "iter" && n.ends_with("_iter");
                        if let Some(q) = SUBS.iter().find(|q| q.kind == k && sub(q.name.rsplit(':').next().unwrap())) {
                            let d = match (q.call)(&o.obj) {
                                Out::Val(x) => {
                                    seen += 1;
                                    if !crate::text::shows(v, &x) {
                                        bad.push(format!("{} shown as {}, the accessor says {:?}", n, v, x));
                                    }
                                    continue;
                                }
                                x => dbg(&x),
                            };
                            if let Some(d) = d {
                                seen += 1;
                                if *v != d && *v != format!("Some({})", d) {
                                    bad.push(format!("{} shown as {}, the query answers {}", n, v, d));
                                }
                            }
                            continue;
                        }
                        // flags by name
                        for t in crate::text::words(v) {
                            let low = t.to_lowercase();
                            let flag = acc(&format!("has_{}", low)).filter(|_| t != low);
                            if let Some(j) = flag {
                                if let (true, Val::B(false)) = (o.sure, k.exp(j, &Snap { vendor: Vend::Amd, ..o.snap })) {
                                    bad.push(format!("{} shown among {}, the replies do not have it", t, n));
                                }
                                seen += 1;
                            }
                        }
                    }
                }
                Slot::Iter(x) => {
                    if let (Some(mut it), false) = (x.it.dup(), matches!(x.it, It::CpuTopo(_))) {
                        let mut w = String::from("[");
                        let mut n = 0;
                        while let Some(o) = it.next() {
                            if n > 0 {
                                w.push_str(", ");
                            }
                            let _ = o.debug(&mut w, 0);
                            n += 1;
                            if n > 300 {
                                break;
                            }
                        }
                        w.push(']');
                        seen = n + 1;
                        if n <= 300 && w != plain {
                            bad.push(format!("shown as {}, a copy yields {}", plain, w));
                        }
                    }
                }
            }
            (seen, bad, plain)
        });
        match r {
            Res::Ok((seen, bad, plain)) => {
                let reads = reads_now();
                self.cover(mixn(110, &[name.len() as u64, name.as_bytes()[name.len() - 3] as u64, seen as u64, reads.len().min(4) as u64]));
                self.observe(plain.bytes().fold(8, |h, b| mix(h, b as u64)), &reads, || format!("{} dissected, {} values checked: {}", name, seen, plain.chars().take(300).collect::<String>()));
                for b in bad {
                    self.viol("C18", format!("debug output of {}: {}; reads: {}", name, b, rtext(&reads)));
                }
            }
            Res::Injected => {}
            Res::Cap => self.cap(&format!("formatting {}", name)),
            Res::Panic(m) => self.viol("C06", format!("formatting {} panics: {}", name, m)),
        }
    }
    /// The CPUID source used directly, without a CpuId.
    /// The same enumeration walked by `next` alone and in other ways, while the machine stays as it is.
    fn walk(&mut self, i: u32) {
        const MAX: usize = 200;
        let h = self.h(i, 5);
        let s = match h % 3 {
            0 => self.pick(h >> 8, |s| matches!(s, Slot::Iter(x) if !x.done && !matches!(x.it, It::Soc(_)))),
            1 => self.pick(h >> 8, |s| matches!(s, Slot::Obj(o) if fmt_leaf(o.obj.kind()).is_some())),
            _ => None,
        };
        let s = match s.or_else(|| self.pick(h >> 8, |s| matches!(s, Slot::Cpu(_)))) {
            Some(s) => s,
            None => return,
        };
        const IT: &[usize] = &[2, 4, 10, 11, 20, 38];
        let g = &GETTERS[IT[(h >> 20) as usize % IT.len()]];
        let make = |sl: &Slot| -> Option<It> {
            let o = match sl {
                Slot::Cpu(c) => (g.call)(&c.cpu),
                Slot::Obj(o) => {
                    let subs: Vec<&'static Sub> = SUBS.iter().filter(|x| x.kind == o.obj.kind()).collect();
                    (subs[(h >> 20) as usize % subs.len()].call)(&o.obj)
                }
                Slot::Iter(x) => return x.it.dup(),
            };
            match o {
                Out::Iter(it) => Some(it),
                _ => None,
            }
        };
        with(|c| {
            c.begin_op(self.key, 0);
            c.quiet = true;
        });
        let found = self.walks(i, s, MAX, &make);
        with(|c| {
            c.quiet = false;
            // the reads were all made while the machine stayed as it is
            c.begin_op(self.key, 0);
        });
        if let Some((p, m)) = found {
            self.viol(p, m);
        }
    }
    fn walks(&mut self, i: u32, s: usize, max: usize, make: &dyn Fn(&Slot) -> Option<It>) -> Option<(&'static str, String)> {
        let pre = self.h(i, 6) as usize % 3;
        let fresh = |t: &Th| -> Option<It> {
            match guard(false, || {
                let mut it = make(t.slot(s))?;
                for _ in 0..pre {
                    it.next()?;
                }
                Some(it)
            }) {
                Res::Ok(x) => x,
                _ => None,
            }
        };
        let mut it = fresh(self)?;
        let nm = match &it {
            It::Cache(_) => "CacheInfoIter",
            It::Param(_) => "CacheParametersIter",
            It::Topo(_) => "ExtendedTopologyIter",
            It::State(_) => "ExtendedStateIter",
            It::Sgx(_) => "SgxSectionIter",
            It::Dat(_) => "DatIter",
            It::CpuTopo(_) => "ExtendedCpuTopologyIter",
            It::Soc(_) => "SoCVendorAttributesIter",
        };
        // by next alone: the entries, and what was promised about their number before each
        let mut list: Vec<(Kind, Vec<Val>)> = Vec::new();
        let mut hints = Vec::new();
        let mut ended = false;
        while list.len() < max {
            let r = guard(false, || (it.size_hint(), it.next()));
            if with(|c| c.cap_hit) {
                return None;
            }
            let (hint, o) = match r {
                Res::Ok(x) => x,
                Res::Panic(m) => return Some(("C06", format!("{}: panic: {}", nm, m))),
                _ => return None,
            };
            hints.push(hint);
            match o {
                Some(o) => list.push((o.kind(), values(&o, false).ok()?)),
                None => {
                    ended = true;
                    break;
                }
            }
        }
        let reads = with(|c| c.reads.len());
        self.cover(mixn(110, &[nm.len() as u64, list.len().min(12) as u64, pre as u64]));
        for (j, (lo, hi)) in hints.iter().enumerate() {
            let left = list.len() - j;
            if ended && *lo > left || hi.is_some_and(|hi| hi < left) {
                return Some(("C04", format!("{}: size_hint {:?} before entry {} of {}{}", nm, (lo, hi), j, list.len(), if ended { "" } else { " or more" })));
            }
        }
        if !ended || reads > 2000 {
            return None;
        }
        for t in 0..4u64 {
            let h = self.h(i, 500 + t);
            let how = (h % WALKS.len() as u64) as u32;
            let k = (h >> 8) as usize % [2, 3, list.len() + 2][(h >> 40) as usize % 3];
            with(|c| c.begin_op(self.key | t as u32 + 1, 0));
            let it = fresh(self)?;
            let r = guard(false, || it.walk(how, k));
            let w = match r {
                Res::Ok(w) => w,
                Res::Panic(m) => return Some(("C06", format!("{}, {} {}: panic: {}", nm, WALKS[how as usize], k, m))),
                _ => return Some(("C04", format!("{}, {} {}: does not end, next alone ends after {} entries", nm, WALKS[how as usize], k, list.len()))),
            };
            if with(|c| c.cap_hit) {
                return None;
            }
            let mut items = Vec::new();
            for o in &w.items {
                items.push((o.kind(), values(o, false).ok()?));
            }
            with(|c| c.stats.probe(WALKS[how as usize]));
            let (idx, number) = walk_expected(how, k, list.len());
            let want: Vec<&(Kind, Vec<Val>)> = idx.iter().map(|j| &list[*j]).collect();
            self.cover(mixn(111, &[nm.len() as u64, how as u64, k.min(4) as u64, list.len().min(6) as u64]));
            if w.number != number || items.iter().ne(want.iter().copied()) {
                let name = |v: &[&(Kind, Vec<Val>)]| v.iter().map(|x| format!("{:?}", x.1)).collect::<Vec<_>>().join("; ");
                return Some((
                    "C04",
                    format!(
                        "{} after {} entries, walked by {} (with {}): {:?} [{}], but by next alone there are {} entries, so {:?} [{}]",
                        nm,
                        pre,
                        WALKS[how as usize],
                        k,
                        w.number,
                        name(&items.iter().collect::<Vec<_>>()),
                        list.len(),
                        number,
                        name(&want)
                    ),
                ));
            }
        }
        None
    }
    fn direct(&mut self, i: u32) {
        let h = self.h(i, 2);
        const L: &[u32] = &[0, 1, 2, 4, 7, 0xb, 0xd, 0x12, 0x18, 0x1f, 0x4000_0000, 0x8000_0000, 0x8000_0002, 0x8000_001d, 0x8000_0026, u32::MAX];
        let leaf = match h >> 56 & 7 {
            0 => (h >> 8) as u32,
            // any leaf there is or could be
            1 | 2 => [0, 0x4000_0000, 0x8000_0000][(h >> 16) as usize % 3] | (h >> 8) as u32 % 0x2a,
            _ => L[(h >> 8) as usize % L.len()],
        };
        let leaf = if mix(h, 7) % 100 < 4 * crate::dict::rate() { crate::dict::pick(&mut Rng(mix(h, 8))) } else { leaf };
        let sub = match h >> 2 & 3 {
            0 if mix(h, 9) % 100 < 4 * crate::dict::rate() => crate::dict::pick(&mut Rng(mix(h, 10))),
            0 => 0,
            1 if h >> 38 & 3 == 0 => (1u64 << (h >> 40) % 33).wrapping_sub(h >> 50 & 1) as u32,
            1 => (h >> 40) as u32,
            2 if h >> 38 & 3 == 0 => (h >> 40) as u32 % 300,
            _ => (h >> 40) as u32 % 6,
        };
        let way = (h >> 4) as usize % super::DIRECT.len();
        let (name, counts, f) = super::DIRECT[way];
        let prop = if self.plan.prop == "C19" { "C19" } else { "C14" };
        let mut attempt = 0;
        // no enumeration that would have to end
        let tame = with(|c| std::mem::take(&mut c.tame));
        let r = loop {
            match once(self.plan, self.key, attempt, 0, || f(leaf, sub)) {
                Res::Ok(r) => break Some(r),
                Res::Injected if !self.give_up(i, attempt) => attempt += 1,
                Res::Panic(m) => {
                    self.viol(prop, format!("{} panics: {}", name, m));
                    break None;
                }
                _ => break None,
            }
        };
        with(|c| c.tame = tame);
        let Some(r) = r else { return };
        let sub = if counts { sub } else { 0 };
        let got = [r.eax, r.ebx, r.ecx, r.edx];
        let reads = reads_now();
        self.observe(Val::U((got[0] as u128) << 96 | (got[1] as u128) << 64 | (got[2] as u128) << 32 | got[3] as u128).hash(6), &reads, || format!("{} of {:#x}/{:#x} -> {:08x?}", name, leaf, sub, got));
        self.cover(mixn(90, &[way as u64, sub.min(3) as u64]));
        if reads.len() != 1 || reads[0].leaf != leaf || reads[0].sub != sub {
            return self.viol(prop, format!("{} of {:#x}/{:#x} asked the processor for: {}", name, leaf, sub, rtext(&reads)));
        }
        if reads[0].regs != got {
            self.viol(prop, format!("{} of {:#x}/{:#x} returned {:08x?}, the processor answered {:08x?}", name, leaf, sub, got, reads[0].regs));
        }
    }
    fn run_op(&mut self, i: u32) {
        self.key = i << 8;
        let h = self.h(i, 1);
        let p = self.plan;
        let all = || p.w.iter().copied().chain([p.direct, p.compare, p.inspect, p.walk]);
        let mut x = h % all().sum::<u64>();
        let mut kind = DIRECT;
        for (k, w) in all().enumerate() {
            if x < w {
                kind = k;
                break;
            }
            x -= w;
        }
        if i == 0 {
            kind = NEW;
        } else if i == 1 {
            kind = QUERY;
        }
        if self.tracing {
            with(|c| {
                c.op = i << 8;
                c.note(format!("--- {}", OPS[kind]));
            });
        }
        match kind {
            NEW => self.new_cpu(i),
            QUERY => self.query(i),
            ACCESS => self.access(i),
            SUB => self.subquery(i),
            STEP => self.drain(i, 1),
            DRAIN => self.drain(i, if self.h(i, 9) % 24 == 0 { 200 } else { 12 }),
            CLONE => self.clone_slot(i),
            FMT => self.format(i),
            FMTFAIL => self.format_failing(i),
            DROP => {
                let cpus = p.prop == "C19";
                if let Some(s) = self.pick(self.h(i, 2), |s| cpus || matches!(s, Slot::Obj(_) | Slot::Iter(_))) {
                    if s < self.slots.len() {
                        self.slots[s] = None;
                    }
                }
            }
            FORKI => self.fork_iter(i),
            FORKC => self.fork_cpu(i),
            DIRECT => self.direct(i),
            COMPARE if h >> 50 & 1 == 0 => self.twins(i),
            COMPARE => self.compare(i),
            INSPECT => self.inspect(i),
            WALK => self.walk(i),
            _ => unreachable!(),
        }
        self.hold(i);
    }
    fn program(&mut self) {
        for i in 0..self.plan.nops {
            if with(|c| c.mask.ops.contains(&(self.tid, i))) {
                continue;
            }
            self.run_op(i);
        }
        // every object that is still alive says what it said first
        let n = self.slots.len() + self.shared.len();
        for s in 0..n {
            if s < self.slots.len() && self.slots[s].is_none() {
                continue;
            }
            self.key = (self.plan.nops + 1 + s as u32) << 8;
            with(|c| c.begin_op(self.key, 0));
            self.recheck(s);
        }
    }
}

/// Execute one run.
pub fn run(prop: &'static str, seed: u64, mask: Mask, tracing: bool) -> Outcome {
    let (cfg, plan) = gen(prop, seed);
    let cfg = Arc::new(cfg);
    let mask = Arc::new(mask);
    let nt = cfg.threads;
    let sched = Arc::new(Sched::new(nt));
    let mut out = Outcome::default();
    // what the threads share is created first, undisturbed
    let mut shared: Vec<Slot> = Vec::new();
    if plan.shared > 0 {
        let mut c = Ctx::new(cfg.clone(), mask.clone(), sched.clone(), nt, false);
        c.quiet = true;
        c.no_yield = true;
        c.tame = (prop == "C14") as u8;
        install(&mut c);
        let mut th = Th { tid: nt as u32, plan: &plan, slots: (0..plan.shared + 1).map(|_| None).collect(), shared: &[], viols: Vec::new(), obs: Vec::new(), tracing: false, key: 0 };
        th.new_cpu(0);
        for i in 1..=plan.shared {
            th.key = i << 8;
            if i % 5 == 4 {
                th.subquery(i)
            } else {
                th.query(i)
            }
            th.hold(i);
        }
        shared = th.slots.into_iter().flatten().collect();
        out.viols.extend(th.viols);
        install(std::ptr::null_mut());
    }
    if prop == "C10" {
        for (t, sync, send) in auto_traits() {
            if !sync || !send {
                out.viols.push(Viol { prop: "C10", tid: 0, op: 0, msg: format!("{} cannot be {} threads", t, if !sync { "shared between" } else { "sent to other" }) });
            }
        }
    }
    let shared = Arc::new(AssertSync(shared));
    let plan = Arc::new(plan);
    let mut handles = Vec::new();
    for tid in 0..nt {
        let (cfg, mask, sched, plan, shared) = (cfg.clone(), mask.clone(), sched.clone(), plan.clone(), shared.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    let shared = shared;
                    let seed = cfg.seed;
                    let mut c = Ctx::new(cfg.clone(), mask.clone(), sched.clone(), tid, tracing);
                    c.on_reenter = Some(nested);
                    c.tame = (plan.prop == "C14") as u8;
                    sched.start(tid);
                    install(&mut c);
                    let mut th = Th { tid: tid as u32, plan: &plan, slots: (0..plan.nops).map(|_| None).collect(), shared: &shared.0, viols: Vec::new(), obs: Vec::new(), tracing, key: 0 };
                    let mut err = None;
                    if mask.solo.map_or(true, |s| s == tid) {
                        let r = catch_unwind(AssertUnwindSafe(|| th.program()));
                        if r.is_err() {
                            err = Some(format!("thread {} op {}: {}", tid, th.key >> 8, LAST_PANIC.with(|p| p.borrow().clone())));
                        }
                    }
                    th.slots.clear();
                    let (viols, obs) = (th.viols, th.obs);
                    install(std::ptr::null_mut());
                    sched.finish(tid, mixn(seed, &[0xf1, tid as u64]));
                    c.sched = Arc::new(Sched::new(0));
                    AssertSync((viols, obs, c, err))
                })
                .unwrap(),
        );
    }
    for (tid, h) in handles.iter().enumerate() {
        sched.register(tid, h.thread().clone());
    }
    sched.kick(mix(seed, 0x57a));
    for h in handles {
        let AssertSync((v, o, c, err)) = h.join().unwrap();
        out.viols.extend(v);
        out.obs.extend(o);
        out.stats.add(&c.stats);
        out.fseq = mixn(out.fseq, &[c.fseq]);
        out.states.extend(c.states.iter().copied());
        out.fired.extend(c.fired.iter().map(|f| (f.0, c.tid as u32, f.1.clone())));
        out.trace.extend(c.trace);
        if out.harness.is_none() {
            out.harness = err;
        }
    }
    out.trace.sort();
    out.stats.sim_ns = sched.now();
    out.sched = sched.trace();
    out
}
