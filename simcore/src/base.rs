//! What every suite shares: the random plan of a run, outcomes, and the calls into the library.
use crate::alloc;
use crate::ctx::*;
use crate::rng::*;
use crate::world::*;
use std::cell::RefCell;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: &'static str,
    pub nops: u32,
    pub w: [u64; 12],
    pub retry: u64,
    pub shared: u32,
    pub sw_op: u64,
    pub sw_sink: u64,
    pub deny: bool,
    /// weight given to getters that lead to enumerations / reader-carrying objects
    pub iters: u64,
    /// if not 0, only a few query methods, chosen by this, are used
    pub focus: u64,
    /// direct uses of the CPUID source, comparisons of objects, dissections of debug output
    pub direct: u64,
    pub compare: u64,
    pub inspect: u64,
    pub walk: u64,
    /// all threads execute the same program (1), on different machines (2)
    pub mirror: u64,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub tid: u32,
    pub op: u32,
    pub msg: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub tid: u32,
    pub op: u32,
    pub val: u64,
    pub reads: u64,
    pub text: String,
}
#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub obs: Vec<Obs>,
    pub stats: Stats,
    pub sched: u64,
    /// which faults fired at which operations and reads, in order
    pub fseq: u64,
    pub states: Vec<u64>,
    pub fired: Vec<(u64, u32, String)>,
    pub trace: Vec<(u64, String)>,
    pub harness: Option<String>,
}

/// Everything about a run follows from (property, run seed).
pub fn gen(prop: &'static str, seed: u64) -> (RunCfg, Plan) {
    let mut r = Rng(mix(seed, 0x9a7));
    let on = |r: &mut Rng, pct: u64, v: &[u64]| if r.pct(pct) { v[r.below(v.len() as u64) as usize] } else { 0 };
    let mut rates = Rates {
        switch: on(&mut r, 80, &[20, 100, 300, 700]),
        migrate: on(&mut r, 70, &[20, 100, 400]),
        epoch: on(&mut r, 50, &[5, 30, 150]),
        corrupt: on(&mut r, 50, &[20, 100, 400]),
        panic: 0,
        stall: on(&mut r, 30, &[5, 40]),
        reenter: on(&mut r, 30, &[10, 60]),
        clone: 0,
        step: 0,
        site: 0,
    };
    let mut keymode = KeyMode::PerRead;
    let mut style = None;
    let mut one_inst = false;
    let mut threads = 1 + r.below(3) as usize;
    //                 new qry acc sub stp drn cln fmt ff drp fi fc
    let mut w: [u64; 12] = [2, 10, 3, 4, 6, 2, 1, 1, 0, 1, 0, 0];
    let mut p = Plan { prop, nops: 20 + r.below(60) as u32, w, retry: 50, shared: r.below(4) as u32, sw_op: on(&mut r, 60, &[100, 400]), sw_sink: 0, deny: false, iters: r.below(3), focus: 0, direct: 0, compare: 0, inspect: 0, walk: 0, mirror: 0 };
    match prop {
        "C01" | "C03" => {
            rates.panic = on(&mut r, 15, &[10, 60]);
            w = [if prop == "C03" { 5 } else { 2 }, 14, 1, 6, 5, 2, 1, if prop == "C03" { 1 } else { 0 }, 0, 1, 0, 0];
        }
        "C02" => {
            w = [2, 8, 10, 5, 5, 1, 1, 8, 0, 2, 0, 0];
            p.sw_sink = on(&mut r, 50, &[5, 50]);
            p.shared = r.below(12) as u32;
        }
        "C04" => {
            rates.panic = on(&mut r, 15, &[10, 60]);
            w = [2, 8, 1, 4, 20, 6, 3, 0, 0, 1, 0, 0];
            p.iters = 3;
            p.walk = 4;
            p.nops += 40;
        }
        "C05" => {
            keymode = KeyMode::PerOp;
            rates.panic = [15, 60, 200, 500][r.below(4) as usize];
            rates.reenter = 0;
            p.retry = 100;
            w = [2, 8, 2, 6, 12, 3, 2, 3, 0, 1, 0, 0];
            p.iters = 2;
        }
        "C06" => {
            style = match r.below(12) {
                0..=3 => Some(Style::Garbage),
                4 => Some(Style::Ones),
                5 => Some(Style::Zeros),
                6..=8 => Some(Style::Odd),
                _ => None,
            };
            w = [3, 14, 1, 6, 6, 3, 1, 3, 0, 1, 0, 0];
        }
        "C07" => {
            keymode = KeyMode::Static;
            rates.reenter = 0;
            w = [2, 10, 0, 5, 4, 0, 1, 2, 16, 1, 0, 0];
            p.sw_sink = on(&mut r, 40, &[5, 50]);
            p.nops = 16 + r.below(30) as u32;
        }
        "C10" => {
            keymode = if r.pct(40) { KeyMode::PerOp } else { KeyMode::PerRead };
            threads = 2 + r.below(4) as usize;
            rates.switch = [50, 200, 500, 900][r.below(4) as usize];
            rates.stall = on(&mut r, 50, &[10, 60]);
            rates.reenter = on(&mut r, 50, &[10, 60]);
            p.shared = r.below(14) as u32;
            p.sw_sink = on(&mut r, 50, &[5, 50]);
            p.nops = 12 + r.below(30) as u32;
            w = [3, 12, 4, 6, 8, 2, 2, 4, 0, 1, 0, 0];
            rates.site = on(&mut Rng(mix(seed, 0x517e)), 80, &[100, 400, 1000]);
            // some runs are small and preempted between any two instructions
            let mut q = Rng(mix(seed, 0x57e9));
            if q.pct(30) {
                rates.step = [6, 20, 60, 200, SPARSE, SPARSE, SPARSE, SPARSE][q.below(8) as usize];
                threads = 2 + q.below(2) as usize;
                p.nops = 4 + q.below(6) as u32;
                p.shared = q.below(4) as u32;
                p.focus = 1 + q.below(1 << 30);
                p.sw_op = 300;
                p.mirror = q.below(4) % 3;
                if p.mirror > 0 {
                    p.nops = if rates.step == SPARSE { 12 + q.below(40) as u32 } else { p.nops + 4 };
                    w = [1, 8, 3, 4, 12, 3, 1, 4, 0, 1, 0, 0];
                }
            }
        }
        "C14" => {
            one_inst = true;
            threads = 1 + r.below(3) as usize;
            w = [4, 12, 2, 6, 8, 2, 2, 2, 0, 1, 0, 0];
            p.direct = 6;
            p.nops = 16 + r.below(40) as u32;
            if crate::native::slow() {
                w[7] = 0;
                p.nops /= 2;
            }
        }
        "C11" => {
            p.deny = true;
            threads = 1 + r.below(2) as usize;
            w = [3, 12, 3, 6, 8, 3, 2, 6, 1, 1, 0, 0];
        }
        "C13" => {
            keymode = KeyMode::Static;
            rates.panic = on(&mut r, 60, &[20, 150]);
            rates.reenter = 0;
            w = [2, 8, 0, 6, 8, 0, 2, 0, 0, 1, 10, 3];
            p.iters = 3;
        }
        "C17" => {
            rates.corrupt = on(&mut r, 90, &[60, 150, 400]);
            rates.migrate = on(&mut r, 20, &[20, 100]);
            rates.epoch = on(&mut r, 20, &[5, 30]);
            w = [1, 10, 1, 6, 6, 1, 2, 0, 0, 1, 0, 0];
            p.compare = 12;
            p.nops = 20 + r.below(50) as u32;
            p.iters = r.below(3);
            if r.pct(95) {
                p.focus = 1 + r.below(1 << 30);
            }
        }
        "C18" => {
            keymode = if r.pct(50) { KeyMode::PerOp } else { KeyMode::Static };
            rates.reenter = 0;
            w = [2, 12, 0, 8, 5, 1, 1, 0, 0, 1, 0, 0];
            p.inspect = 14;
            p.nops = 16 + r.below(40) as u32;
        }
        "C19" => {
            keymode = KeyMode::PerOp;
            rates.panic = on(&mut r, 50, &[15, 60, 200]);
            rates.clone = on(&mut r, 70, &[15, 60, 200]);
            rates.reenter = 0;
            p.retry = 100;
            w = [4, 10, 2, 8, 10, 4, 5, 3, 0, 6, 0, 0];
            p.direct = 3;
            p.iters = 2;
        }
        _ => panic!("unknown property {}", prop),
    }
    p.w = w;
    // some histories are long, and some use little of the library, over and over
    let mut q = Rng(mix(seed, 0x10f9));
    if prop != "C07" && rates.step == 0 {
        let long = q.pct(2);
        if long {
            p.nops *= if matches!(prop, "C10" | "C14" | "C05") { 8 } else { 20 };
        }
        if q.pct(if long { 70 } else { 10 }) {
            p.focus = 1 + q.below(1 << 30);
        }
    }
    let machines = (0..2).map(|i| Machine::gen(mixn(seed, &[0x3a, i]), style)).collect();
    let cfg = RunCfg { seed, threads, machines, rates, keymode, read_cap: 6000, one_inst, max_panics_per_op: 3 };
    (cfg, p)
}

// ------------------------------------------------------------------ calling into the library
pub enum Res<T> {
    Ok(T),
    Injected,
    Cap,
    Panic(String),
}
impl<T> Res<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Res<U> {
        match self {
            Res::Ok(x) => Res::Ok(f(x)),
            Res::Injected => Res::Injected,
            Res::Cap => Res::Cap,
            Res::Panic(m) => Res::Panic(m),
        }
    }
}
thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static HITS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::pause(|| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                return;
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
        })
    }));
}
/// Run library code; panics are sorted into injected ones and the library's own.
pub fn guard<T>(deny: bool, f: impl FnOnce() -> T) -> Res<T> {
    let step = stepping();
    let f = || crate::native::library(step, f);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if deny {
            let (r, n) = alloc::deny(f);
            HITS.with(|h| h.set(h.get() + n));
            r
        } else {
            f()
        }
    }));
    match r {
        Ok(v) => Res::Ok(v),
        Err(p) => {
            if p.is::<InjectedPanic>() {
                Res::Injected
            } else if p.is::<CapHit>() {
                Res::Cap
            } else {
                Res::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
}
pub const ENDLESS: &str = "(operation stopped after too many reads)";
pub fn once<T>(plan: &Plan, key: u32, attempt: u32, inst: u32, f: impl FnOnce() -> T) -> Res<T> {
    with(|c| {
        c.begin_op(key, attempt);
        c.stats.ops += 1;
        if attempt == 0 && c.cfg.keymode == KeyMode::PerOp {
            let m = inst as usize % c.cfg.machines.len();
            c.world_step(m, 0);
        }
    });
    point(1, attempt as u64, plan.sw_op);
    let r = guard(plan.deny, f);
    if with(|c| c.cap_hit) {
        with(|c| c.stats.probe(ENDLESS));
        if let Res::Ok(_) = r {
            return Res::Cap;
        }
    }
    r
}

/// Destination of formatted output.
pub struct Sink {
    pub buf: Vec<u8>,
    pub calls: u32,
    /// fail at this write call
    pub fail_call: Option<u32>,
    /// accept part of the text of the failing call
    pub partial: bool,
    /// fail once this many bytes do not fit
    pub limit: usize,
    pub failed: bool,
    pub after: u32,
    pub sw: u64,
}
impl Sink {
    pub fn new(sw: u64) -> Sink {
        Sink { buf: Vec::new(), calls: 0, fail_call: None, partial: false, limit: usize::MAX, failed: false, after: 0, sw }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        alloc::pause(|| {
            self.calls += 1;
            if self.sw > 0 {
                point(2, self.calls as u64, self.sw);
            }
            if self.failed {
                self.after += 1;
            }
            if self.fail_call == Some(self.calls) {
                self.failed = true;
                if self.partial {
                    let n = s.len() / 2;
                    self.buf.extend_from_slice(&s.as_bytes()[..n]);
                }
                return Err(std::fmt::Error);
            }
            if self.buf.len().saturating_add(s.len()) > self.limit {
                self.failed = true;
                let n = if self.partial { self.limit.saturating_sub(self.buf.len()) } else { 0 };
                self.buf.extend_from_slice(&s.as_bytes()[..n]);
                return Err(std::fmt::Error);
            }
            self.buf.extend_from_slice(s.as_bytes());
            Ok(())
        })
    }
}

