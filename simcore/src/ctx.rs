//! The seam: the CPUID source handed to the library, the scheduler deciding which simulated thread runs,
//! and the faults injected at each read. All choices are keyed hashes of the run seed (see rng.rs).
use crate::rng::*;
use crate::world::Machine;
use raw_cpuid::{CpuIdReader, CpuIdResult};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::Thread;

// decision tags
pub const T_SWITCH: u64 = 1;
pub const T_MIGRATE: u64 = 2;
pub const T_EPOCH: u64 = 3;
pub const T_CORRUPT: u64 = 4;
pub const T_PANIC: u64 = 5;
pub const T_STALL: u64 = 6;
pub const T_REENTER: u64 = 7;
pub const T_LAT: u64 = 8;
pub const T_PREEMPT: u64 = 9;
pub const T_SITE: u64 = 90;
pub const T_CLONE: u64 = 10;

pub const FAULTS: &[&str] = &[
    "thread_switch",
    "core_migration",
    "reconfiguration",
    "bit_flip",
    "stuck_ones",
    "zero_reply",
    "swapped_reply",
    "reader_panic",
    "stall",
    "reentrant_reader",
    "sink_error",
    "alloc_failure",
    "id_change",
    "short_write",
    "interrupted_io",
    "io_error",
    "short_read",
    "truncated_stream",
    "damaged_stream",
    "leaf_swap_register",
    "preemption",
    "source_clone_failure",
];
pub const NF: usize = 22;
pub const F_SWITCH: usize = 0;
pub const F_MIGRATE: usize = 1;
pub const F_EPOCH: usize = 2;
pub const F_BITFLIP: usize = 3;
pub const F_ONES: usize = 4;
pub const F_ZERO: usize = 5;
pub const F_SWAPPED: usize = 6;
pub const F_PANIC: usize = 7;
pub const F_STALL: usize = 8;
pub const F_REENTER: usize = 9;
pub const F_SINK: usize = 10;
pub const F_ALLOC: usize = 11;
pub const F_ID: usize = 12;
pub const F_SHORTW: usize = 13;
pub const F_EINTR: usize = 14;
pub const F_IOERR: usize = 15;
pub const F_SHORTR: usize = 16;
pub const F_TRUNC: usize = 17;
pub const F_DAMAGE: usize = 18;
pub const F_REGSWAP: usize = 19;
pub const F_PREEMPT: usize = 20;
pub const F_CLONE: usize = 21;

/// per-mille probabilities at each read
#[derive(Clone, Debug, Default)]
pub struct Rates {
    pub switch: u64,
    pub migrate: u64,
    pub epoch: u64,
    pub corrupt: u64,
    pub panic: u64,
    pub stall: u64,
    pub reenter: u64,
    /// making a copy of the source fails
    pub clone: u64,
    /// preemption inside library code: mean number of machine instructions between two (0: never, SPARSE: about
    /// one in an operation)
    pub step: u64,
    /// preemption where library code refers to process-wide mutable memory of its own
    pub site: u64,
}
pub const SPARSE: u64 = 1 << 20;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum KeyMode {
    /// every delivered reply is drawn afresh (migration and corruption between any two reads)
    PerRead,
    /// replies are fixed within one operation: a retried operation sees the same replies
    PerOp,
    /// replies never change
    Static,
}
#[derive(Clone, Debug)]
pub struct RunCfg {
    pub seed: u64,
    pub threads: usize,
    pub machines: Vec<Machine>,
    pub rates: Rates,
    pub keymode: KeyMode,
    pub read_cap: u32,
    /// all objects belong to machine 0
    pub one_inst: bool,
    pub max_panics_per_op: u32,
}
#[derive(Clone, Default, Debug)]
pub struct Mask {
    /// disabled operations (thread, index)
    pub ops: HashSet<(u32, u32)>,
    /// disabled faults and switches, by key
    pub faults: HashSet<u64>,
    /// all switches / all of nothing but thread `solo`
    pub no_switch: bool,
    pub solo: Option<usize>,
    pub no_reenter: bool,
    pub no_panic: bool,
    /// the library executes CPUID itself; otherwise it is handed the simulated processor's replies
    pub native: bool,
    /// the library is handed a source that owns something (own.rs)
    pub own: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Read {
    pub inst: u32,
    pub leaf: u32,
    pub sub: u32,
    pub regs: [u32; 4],
}
#[derive(Default, Clone)]
pub struct Stats {
    pub faults: [u64; NF],
    pub ops: u64,
    pub reads: u64,
    pub checks: u64,
    pub sim_ns: u64,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        for i in 0..NF {
            self.faults[i] += o.faults[i];
        }
        self.ops += o.ops;
        self.reads += o.reads;
        self.checks += o.checks;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
}
/// Panic payloads the simulator itself throws out of the CPUID source.
pub struct InjectedPanic;
pub struct CapHit;

// ---------------------------------------------------------------- scheduler
struct SchedSt {
    alive: Vec<bool>,
    wake: Vec<u64>,
    now: u64,
    handles: Vec<Option<Thread>>,
    trace: u64,
}
pub struct Sched {
    cur: AtomicUsize,
    m: Mutex<SchedSt>,
    pub seq: AtomicU64,
}
impl Sched {
    pub fn new(n: usize) -> Sched {
        Sched {
            cur: AtomicUsize::new(usize::MAX),
            m: Mutex::new(SchedSt { alive: vec![false; n], wake: vec![0; n], now: 0, handles: vec![None; n], trace: 0 }),
            seq: AtomicU64::new(0),
        }
    }
    pub fn register(&self, tid: usize, t: Thread) {
        let mut s = self.m.lock().unwrap();
        s.alive[tid] = true;
        s.handles[tid] = Some(t);
    }
    fn wait(&self, tid: usize) {
        while self.cur.load(Ordering::Acquire) != tid {
            std::thread::park();
        }
    }
    pub fn start(&self, tid: usize) {
        self.wait(tid);
    }
    fn pick(s: &mut SchedSt, h: u64) -> Option<usize> {
        let ready: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i] && s.wake[*i] <= s.now).collect();
        if !ready.is_empty() {
            return Some(ready[(h % ready.len() as u64) as usize]);
        }
        // nobody runnable: jump the clock to the next wake-up
        let n = (0..s.alive.len()).filter(|i| s.alive[*i]).min_by_key(|i| (s.wake[*i], *i))?;
        s.now = s.wake[n];
        Some(n)
    }
    fn give(&self, s: &SchedSt, to: usize) {
        self.cur.store(to, Ordering::Release);
        if let Some(t) = &s.handles[to] {
            t.unpark();
        }
    }
    pub fn kick(&self, h: u64) {
        let mut s = self.m.lock().unwrap();
        if let Some(n) = Sched::pick(&mut s, h) {
            self.give(&s, n);
        }
    }
    pub fn advance(&self, ns: u64) {
        self.m.lock().unwrap().now += ns;
    }
    pub fn now(&self) -> u64 {
        self.m.lock().unwrap().now
    }
    pub fn trace(&self) -> u64 {
        self.m.lock().unwrap().trace
    }
    /// Scheduling point: maybe hand the baton to another simulated thread. `sleep` makes the caller
    /// unrunnable for that long. Returns true when another thread ran.
    pub fn yield_at(&self, tid: usize, h: u64, switch: bool, sleep: u64, site: u64) -> bool {
        let mut s = self.m.lock().unwrap();
        let next = if sleep > 0 {
            s.wake[tid] = s.now + sleep;
            Sched::pick(&mut s, h).unwrap_or(tid)
        } else if switch {
            Sched::pick(&mut s, h).unwrap_or(tid)
        } else {
            tid
        };
        if next == tid {
            return false;
        }
        s.trace = mixn(s.trace, &[tid as u64, next as u64, site]);
        self.give(&s, next);
        drop(s);
        self.wait(tid);
        true
    }
    pub fn finish(&self, tid: usize, h: u64) {
        let mut s = self.m.lock().unwrap();
        s.alive[tid] = false;
        s.trace = mixn(s.trace, &[tid as u64, 0xdead]);
        if let Some(n) = Sched::pick(&mut s, h) {
            self.give(&s, n);
        }
    }
}

// ---------------------------------------------------------------- per-thread context
pub struct Ctx {
    pub cfg: Arc<RunCfg>,
    pub mask: Arc<Mask>,
    pub sched: Arc<Sched>,
    pub tid: usize,
    pub op: u32,
    pub ridx: u32,
    pub attempt: u32,
    pub panics_in_op: u32,
    /// this thread's current core and configuration epoch, per machine
    pub core: Vec<u8>,
    pub epoch: Vec<u8>,
    pub reads: Vec<Read>,
    pub cap_hit: bool,
    pub depth: u32,
    pub in_reader: bool,
    /// inside a section where switching threads is impossible (a real lock is held by std)
    pub no_yield: bool,
    pub stats: Stats,
    pub fired: Vec<(u64, String)>,
    pub touched: bool,
    pub tracing: bool,
    pub trace: Vec<(u64, String)>,
    /// scripted replay of a recorded history (C09), overrides the machines
    pub script: Option<Vec<Read>>,
    pub script_pos: usize,
    pub script_miss: bool,
    pub on_reenter: Option<fn(u64)>,
    /// bit 0: enumerations end within a few dozen entries; bit 1: the advertised ranges are small
    /// (bit 2: not quite as small)
    pub tame: u8,
    /// inject nothing for now
    pub quiet: bool,
    /// write calls made by the current formatting
    pub widx: u32,
    /// preemptions of the current operation, copies of the source made in it
    pub pidx: u64,
    /// hash of the faults fired so far and where
    pub fseq: u64,
    pub sidx: u64,
    pub cidx: u64,
    /// coverage: distinct (operation, outcome, fault) situations met
    pub states: HashSet<u64>,
}
thread_local! { static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) }; }
pub fn install(c: *mut Ctx) {
    CTX.with(|x| x.set(c));
}
pub fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|x| {
        let p = x.get();
        assert!(!p.is_null(), "CPUID source used outside a simulated thread");
        f(unsafe { &mut *p })
    })
}
impl Ctx {
    pub fn new(cfg: Arc<RunCfg>, mask: Arc<Mask>, sched: Arc<Sched>, tid: usize, tracing: bool) -> Ctx {
        let n = cfg.machines.len();
        let core = (0..n).map(|i| (mixn(cfg.seed, &[0xc0e, tid as u64, i as u64]) % cfg.machines[i].cores as u64) as u8).collect();
        Ctx {
            cfg,
            mask,
            sched,
            tid,
            op: 0,
            ridx: 0,
            attempt: 0,
            panics_in_op: 0,
            core,
            epoch: vec![0; n],
            reads: Vec::new(),
            cap_hit: false,
            depth: 0,
            in_reader: false,
            no_yield: false,
            stats: Stats::default(),
            fired: Vec::new(),
            touched: false,
            tracing,
            trace: Vec::new(),
            script: None,
            script_pos: 0,
            script_miss: false,
            on_reenter: None,
            tame: 0,
            quiet: false,
            widx: 0,
            pidx: 0,
            fseq: 0,
            sidx: 0,
            cidx: 0,
            states: HashSet::new(),
        }
    }
    pub fn begin_op(&mut self, op: u32, attempt: u32) {
        self.op = op;
        self.ridx = 0;
        self.widx = 0;
        self.pidx = 0;
        self.sidx = 0;
        self.cidx = 0;
        self.attempt = attempt;
        if self.cfg.rates.step > 0 && self.depth == 0 {
            crate::native::budget(2500);
        }
        if attempt == 0 {
            self.panics_in_op = 0;
        }
        self.reads.clear();
        self.cap_hit = false;
        self.touched = false;
    }
    pub fn dec(&self, tag: u64, extra: u64) -> u64 {
        mixn(self.cfg.seed, &[tag, self.tid as u64, self.op as u64, extra, self.depth as u64])
    }
    pub fn note(&mut self, s: String) {
        if self.tracing {
            let t = self.sched.now();
            let n = self.sched.seq.fetch_add(1, Ordering::Relaxed);
            self.trace.push((n, format!("t={}ns thread{} op{}.{} {}{}", t, self.tid, self.op >> 8, self.op & 255, if self.depth > 0 { "(nested) " } else { "" }, s)));
        }
    }
    /// Does fault `kind` fire here? `h` is its decision hash, also its identity for masking.
    pub fn fires(&mut self, rate: u64, h: u64, kind: usize, what: impl FnOnce() -> String) -> bool {
        if rate == 0 || self.quiet || h % 1000 >= rate || self.mask.faults.contains(&h) {
            return false;
        }
        self.stats.faults[kind] += 1;
        self.fseq = mixn(self.fseq, &[kind as u64, self.op as u64, self.ridx as u64]);
        if kind != F_SWITCH {
            self.touched = true;
        }
        if self.tracing {
            let w = what();
            self.fired.push((h, w.clone()));
            self.note(format!("FAULT {}: {}", FAULTS[kind], w));
        }
        true
    }
    fn migrate(&mut self, m: usize, h: u64) {
        let n = self.cfg.machines[m].cores as u64;
        self.core[m] = ((h >> 20) % n) as u8;
    }
    pub fn world_step(&mut self, m: usize, k: u64) {
        let (rm, re) = (self.cfg.rates.migrate, self.cfg.rates.epoch);
        let h = self.dec(T_MIGRATE, k);
        if self.cfg.machines[m].cores > 1 && self.fires(rm, h, F_MIGRATE, || format!("to core hash {:x}", h >> 20 & 0xff)) {
            self.migrate(m, h);
        }
        let h = self.dec(T_EPOCH, k);
        if self.fires(re, h, F_EPOCH, || "machine reconfigured".into()) {
            self.epoch[m] = self.epoch[m].wrapping_add(1) % 8;
            if self.cfg.machines[m].unstable_id {
                self.stats.faults[F_ID] += 1;
            }
        }
    }
    pub fn reply(&mut self, inst: u32, leaf: u32, sub: u32) -> [u32; 4] {
        let m = inst as usize % self.cfg.machines.len();
        let mach = self.cfg.machines[m].clone();
        let mut q = mach.reply(self.core[m], self.epoch[m], leaf, sub);
        let rc = self.cfg.rates.corrupt;
        if rc > 0 && self.cfg.keymode != KeyMode::Static {
            let k = match self.cfg.keymode {
                KeyMode::PerRead => self.ridx as u64 | (self.attempt as u64) << 32,
                KeyMode::PerOp => mix(leaf as u64, sub as u64),
                KeyMode::Static => 0,
            };
            let h = self.dec(T_CORRUPT, k);
            let kinds = [F_BITFLIP, F_BITFLIP, F_ONES, F_ZERO, F_SWAPPED, F_REGSWAP];
            let kind = kinds[(h >> 10) as usize % kinds.len()];
            // corruption of the count that bounds leaf 0x18 could make an enumeration astronomically long
            let huge = leaf == 0x18 && sub == 0 && kind == F_ONES;
            if !huge && self.fires(rc, h, kind, || format!("{} on reply to leaf {:#x}/{:#x}", FAULTS[kind], leaf, sub)) {
                match kind {
                    F_BITFLIP => {
                        let n = 1 + (h >> 52) % 3;
                        for i in 0..n {
                            let z = mix(h, i);
                            q[(z >> 30) as usize % 4] ^= 1 << ((z >> 36) % 32);
                        }
                    }
                    F_ONES => {
                        if h >> 60 & 1 == 0 {
                            q = [u32::MAX; 4];
                        } else {
                            q[(h >> 30) as usize % 4] = u32::MAX;
                        }
                    }
                    F_ZERO => {
                        if h >> 60 & 1 == 0 {
                            q = [0; 4];
                        } else {
                            q[(h >> 30) as usize % 4] = 0;
                        }
                    }
                    F_REGSWAP => q.swap((h >> 30) as usize % 4, (h >> 34) as usize % 4),
                    _ => q = mach.reply(self.core[m], self.epoch[m], leaf ^ 1, sub ^ ((h >> 40) as u32 & 1)),
                }
                if leaf == 0x18 && sub == 0 {
                    q[0] &= 0x3ff;
                }
            }
        }
        if self.tame & 1 != 0 {
            match leaf {
                4 | 0xb | 0x1f | 0x12 | 0x8000_001d | 0x8000_0026 if sub >= 24 => q = [0; 4],
                0x17 | 0x18 if sub == 0 => q[0] &= 0x1f,
                _ => {}
            }
        }
        if self.tame & 2 != 0 && sub == 0 {
            let few = if self.tame & 4 != 0 { 0x3ff } else { 0x3f };
            match leaf {
                0 => q[0] &= few,
                0x4000_0000 | 0x8000_0000 if q[0] >= leaf => q[0] = leaf | q[0] & few,
                _ => {}
            }
        }
        q
    }
}
/// Scheduling point outside the CPUID source: between operations and inside caller-provided sinks.
pub fn point(tag: u64, idx: u64, rate: u64) {
    crate::alloc::pause(|| {
        let p = CTX.with(|x| x.get());
        if p.is_null() {
            return;
        }
        let c = unsafe { &mut *p };
        if c.cfg.threads < 2 || c.no_yield || c.quiet || c.mask.no_switch || rate == 0 {
            return;
        }
        let h = c.dec(T_SWITCH, tag << 40 | idx);
        if h % 1000 < rate && !c.mask.faults.contains(&h) && c.sched.clone().yield_at(c.tid, h >> 16, true, 0, tag << 20 | c.op as u64) {
            c.stats.faults[F_SWITCH] += 1;
            if c.tracing {
                c.fired.push((h, "thread switch".into()));
                c.note("switched out and resumed".into());
            }
        }
    })
}
/// Instructions until the first preemption of the library code about to run, if any.
pub fn stepping() -> Option<u64> {
    let p = CTX.with(|x| x.get());
    if p.is_null() {
        return None;
    }
    let c = unsafe { &mut *p };
    if c.cfg.rates.step == 0 || !c.preemptible() {
        return None;
    }
    Some(c.gap())
}
/// Library code is about to refer to process-wide mutable memory. Returns in how many instructions it is to be
/// preempted, unless that has been done already or is not to be done.
pub fn at_site() -> Option<u64> {
    let p = CTX.with(|x| x.get());
    if p.is_null() {
        return None;
    }
    let c = unsafe { &mut *p };
    c.sidx += 1;
    let h = c.dec(T_SITE, c.sidx);
    // whoever waits for another thread gets there in the end
    let waits = c.sidx > 2000 && c.sidx % 64 == 0 && c.cfg.threads > 1 && !c.no_yield && c.mask.solo.is_none();
    if !waits && (!c.preemptible() || h % 1000 >= c.cfg.rates.site || c.mask.faults.contains(&h)) {
        return None;
    }
    if !waits && h >> 20 & 1 == 1 {
        return Some(1 + (h >> 24) % [4, 32][h as usize >> 40 & 1]);
    }
    if c.sched.clone().yield_at(c.tid, h >> 16, true, 0, 4 << 40 | (c.op as u64) << 20 | c.sidx) {
        c.stats.faults[F_PREEMPT] += 1;
        if c.tracing {
            c.fired.push((h, "preemption".into()));
            c.note("preempted where the library refers to process-wide memory, resumed".into());
        }
    }
    None
}
impl Ctx {
    fn preemptible(&self) -> bool {
        !(self.cfg.threads < 2 || self.no_yield || self.quiet || self.mask.no_switch || self.mask.solo.is_some() || self.mask.no_reenter)
    }
    fn gap(&self) -> u64 {
        if self.cfg.rates.step == 0 {
            return u64::MAX;
        }
        if self.cfg.rates.step >= SPARSE {
            // hardly ever twice in an operation, early or late
            let h = self.dec(T_PREEMPT, self.pidx);
            if self.pidx > 0 && mix(h, 6) % 4 > 0 {
                return u64::MAX;
            }
            return 1 + mix(h, 5) % (1 << (mix(h, 7) % 12));
        }
        1 + mix(self.dec(T_PREEMPT, self.pidx), 5) % (2 * self.cfg.rates.step)
    }
}
/// Library code is preempted between two instructions. Returns when to do so next.
pub fn preempted() -> u64 {
    let p = CTX.with(|x| x.get());
    if p.is_null() {
        return u64::MAX;
    }
    let c = unsafe { &mut *p };
    c.pidx += 1;
    let h = c.dec(T_PREEMPT, c.pidx);
    if !c.mask.faults.contains(&h) && c.sched.clone().yield_at(c.tid, h >> 16, true, 0, 3 << 40 | (c.op as u64) << 20 | c.pidx) {
        c.stats.faults[F_PREEMPT] += 1;
        if c.tracing {
            c.fired.push((h, "preemption".into()));
            c.note(format!("preempted between two instructions of the library (the thread's {}th), resumed", crate::native::stepped()));
        }
    }
    c.gap()
}
/// What the library's CPUID reader does: the only way it can learn anything about the machine.
pub fn read(inst: u32, leaf: u32, sub: u32) -> [u32; 4] {
    crate::alloc::pause(|| read_inner(inst, leaf, sub))
}
fn read_inner(inst: u32, leaf: u32, sub: u32) -> [u32; 4] {
    let p = CTX.with(|x| x.get());
    assert!(!p.is_null(), "CPUID source used outside a simulated thread");
    let c = unsafe { &mut *p };
    c.ridx += 1;
    c.stats.reads += 1;
    if c.script.is_some() {
        let sc = c.script.as_ref().unwrap();
        let r = sc.get(c.script_pos).copied();
        c.script_pos += 1;
        let regs = match r {
            Some(r) if r.leaf == leaf && r.sub == sub && r.inst == inst => r.regs,
            _ => {
                c.script_miss = true;
                [0; 4]
            }
        };
        c.reads.push(Read { inst, leaf, sub, regs });
        return regs;
    }
    if c.reads.len() as u32 > c.cfg.read_cap {
        c.cap_hit = true;
        if c.mask.native {
            // nothing can be thrown out of an instruction; the caller learns from cap_hit
            return [0; 4];
        }
        std::panic::panic_any(CapHit);
    }
    let rates = c.cfg.rates.clone();
    let k = c.ridx as u64 | (c.attempt as u64) << 32;
    let m = inst as usize % c.cfg.machines.len();
    // the reply takes time; a guest's CPUID traps to the hypervisor
    let lat = c.dec(T_LAT, k) % 200 + if c.cfg.machines[m].guest { 20_000 } else { 60 };
    c.sched.advance(lat);
    // scheduling point before the read
    let hs = c.dec(T_STALL, k);
    let stall = if c.fires(rates.stall, hs, F_STALL, || "source stalls".into()) { [1_000, 1_000_000, 1_000_000_000, 10_000_000_000][(hs >> 12) as usize % 4] } else { 0 };
    let h = c.dec(T_SWITCH, k);
    let want = !c.quiet && !c.mask.no_switch && rates.switch > 0 && h % 1000 < rates.switch && !c.mask.faults.contains(&h);
    if !c.no_yield && c.cfg.threads > 1 && (want || stall > 0) {
        let site = (c.op as u64) << 20 | c.ridx as u64;
        if c.sched.clone().yield_at(c.tid, h >> 16, want, stall, site) {
            c.stats.faults[F_SWITCH] += 1;
            if c.tracing {
                c.fired.push((h, "thread switch".into()));
                c.note(format!("switched out during read of leaf {:#x}/{:#x}, resumed", leaf, sub));
            }
        }
    } else if stall > 0 {
        c.sched.advance(stall);
    }
    if c.cfg.keymode == KeyMode::PerRead {
        c.world_step(m, k);
    }
    if rates.reenter > 0 && c.depth == 0 && !c.mask.no_reenter {
        let h = c.dec(T_REENTER, k);
        if c.on_reenter.is_some() && c.fires(rates.reenter, h, F_REENTER, || "source uses the library itself".into()) {
            let f = c.on_reenter.unwrap();
            let saved = (std::mem::take(&mut c.reads), c.ridx, c.cap_hit, c.touched, c.core.clone(), c.epoch.clone());
            c.depth += 1;
            c.ridx = (saved.1) << 12;
            f(h);
            c.depth -= 1;
            c.reads = saved.0;
            c.ridx = saved.1;
            c.cap_hit = saved.2;
            c.touched = saved.3;
            c.core = saved.4;
            c.epoch = saved.5;
        }
    }
    if rates.panic > 0 && !c.mask.no_panic && !c.quiet && c.depth == 0 && c.panics_in_op < c.cfg.max_panics_per_op {
        let h = c.dec(T_PANIC, k);
        if c.fires(rates.panic, h, F_PANIC, || format!("source panics on leaf {:#x}/{:#x}", leaf, sub)) {
            c.panics_in_op += 1;
            std::panic::panic_any(InjectedPanic);
        }
    }
    let regs = c.reply(inst, leaf, sub);
    c.reads.push(Read { inst, leaf, sub, regs });
    if c.tracing {
        c.note(format!("read cpu{} leaf {:#x}/{:#x} -> {:08x?}", inst, leaf, sub, regs));
    }
    regs
}

/// The library makes a copy of a source that takes part in it (own.rs): a scheduling point, and it may fail.
pub fn duplicate(inst: u32) {
    let p = CTX.with(|x| x.get());
    if p.is_null() {
        return;
    }
    let c = unsafe { &mut *p };
    c.cidx += 1;
    let k = c.cidx | (c.attempt as u64) << 32;
    point(4, k, c.cfg.rates.switch);
    if c.cfg.rates.clone > 0 && !c.mask.no_panic && !c.quiet && c.depth == 0 && c.panics_in_op < c.cfg.max_panics_per_op {
        let h = c.dec(T_CLONE, k);
        let rate = c.cfg.rates.clone;
        if c.fires(rate, h, F_CLONE, || format!("making a copy of source {} fails", inst)) {
            c.panics_in_op += 1;
            std::panic::panic_any(InjectedPanic);
        }
    }
    if c.tracing {
        c.note(format!("copy of source {} made", inst));
    }
}
/// The CPUID source given to the library. `inst` says which simulated machine it talks to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SimReader {
    pub inst: u32,
}
impl CpuIdReader for SimReader {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let r = read(self.inst, eax, ecx);
        CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
    }
}
