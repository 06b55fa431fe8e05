//! Printed reports over a simulated output device (C08, C12, the reports' part of C06) and recorded CPUID
//! data over simulated byte streams (C09).
mod command;
mod compact;
mod io;
mod record;
mod report;
mod table;
use crate::io::*;
use raw_cpuid::{CpuId, CpuIdReader};
use simcore::ctx::*;
use simcore::engine::{self, guard, Obs, Outcome, Res, Viol};
use simcore::model::*;
use simcore::proc::*;
use simcore::rng::*;
use simcore::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[global_allocator]
static ALLOC: simcore::alloc::FailingAlloc = simcore::alloc::FailingAlloc;

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: &'static str,
    pub nops: u32,
    pub raw: u64,
    pub io: IoRates,
    pub hard: bool,
    pub width: u16,
    pub sw_op: u64,
}
fn gen(prop: &'static str, seed: u64) -> (RunCfg, Plan) {
    let mut r = Rng(mix(seed, 0x10e));
    let on = |r: &mut Rng, pct: u64, v: &[u64]| if r.pct(pct) { v[r.below(v.len() as u64) as usize] } else { 0 };
    let rates = Rates {
        switch: on(&mut r, 60, &[20, 100, 300]),
        migrate: on(&mut r, 60, &[20, 100, 400]),
        epoch: on(&mut r, 40, &[5, 30, 150]),
        corrupt: on(&mut r, 50, &[20, 100, 300]),
        panic: 0,
        stall: on(&mut r, 20, &[5, 40]),
        reenter: 0,
        clone: 0,
        step: 0,
        site: 0,
    };
    let mut io = pick_rates(&mut r);
    let threads = 1 + r.below(3) as usize;
    let mut style = None;
    let (mut nops, mut raw, mut hard, mut width) = (2 + r.below(2) as u32, 70, false, [40u16, 80, 132, 200, 500][r.below(5) as usize]);
    match prop {
        "C08" => hard = r.pct(60),
        "C12" => {
            nops = 2;
            raw = 0;
            width = 4000;
            if r.pct(60) {
                io = IoRates::default();
            }
        }
        "C06" => {
            raw = 15;
            io = IoRates::default();
            style = match r.below(8) {
                0..=2 => Some(Style::Garbage),
                3 => Some(Style::Ones),
                4 => Some(Style::Zeros),
                5..=6 => Some(Style::Odd),
                _ => None,
            };
        }
        "C16" => {
            nops = 1 + r.below(2) as u32;
            if r.pct(70) {
                width = 4000;
            }
        }
        "C09" => nops = 4 + r.below(6) as u32,
        _ => panic!("unknown property {}", prop),
    }
    let machines = (0..2).map(|i| Machine::gen(mixn(seed, &[0x3a, i]), style)).collect();
    let (mut threads, mut keymode) = (threads, KeyMode::PerRead);
    if prop == "C16" {
        threads = 1;
        if r.pct(50) {
            keymode = KeyMode::Static;
        }
    }
    let cfg = RunCfg { seed, threads, machines, rates, keymode, read_cap: 20_000, one_inst: false, max_panics_per_op: 3 };
    (cfg, Plan { prop, nops, raw, io, hard, width, sw_op: on(&mut r, 50, &[100, 400]) })
}
pub struct Th<'a> {
    pub tid: u32,
    pub plan: &'a Plan,
    pub viols: Vec<Viol>,
    pub obs: Vec<Obs>,
    pub key: u32,
    pub harness: Option<String>,
}
fn reads_hash(r: &[Read]) -> u64 {
    r.iter().fold(1, |h, r| mixn(h, &[r.leaf as u64, r.sub as u64, r.regs[0] as u64, r.regs[1] as u64, r.regs[2] as u64, r.regs[3] as u64]))
}
pub fn bytes_hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))
}
struct Printed {
    res: Res<()>,
    dev: Device,
    inside: bool,
    reads: Vec<Read>,
}
impl Th<'_> {
    pub fn begin(&mut self, i: u32, part: u32) {
        self.key = i << 8 | part;
        with(|c| {
            c.begin_op(self.key, 0);
            c.stats.ops += 1;
        });
        point(1, part as u64, self.plan.sw_op);
    }
    pub fn viol(&mut self, prop: &'static str, msg: String) {
        if prop == self.plan.prop {
            with(|c| c.note(format!("VIOLATION {}: {}", prop, msg)));
            self.viols.push(Viol { prop, tid: self.tid, op: self.key, msg });
        }
    }
    pub fn h(&self, i: u32, k: u64) -> u64 {
        with(|c| mixn(c.cfg.seed, &[0x09, self.tid as u64, i as u64, k]))
    }
    pub fn state(&self, k: &[u64]) {
        with(|c| {
            let f: u64 = c.stats.faults.iter().enumerate().map(|(i, n)| (*n > 0) as u64 * (i as u64 + 1)).sum();
            c.states.insert(mixn(f, k));
        })
    }
    fn print(&mut self, mode: Dev, io: IoRates, f: impl FnOnce()) -> Printed {
        let k = self.key;
        with(|c| c.begin_op(k, 0));
        let (res, dev, inside) = capture(mode, io, || guard(false, f));
        let reads = with(|c| std::mem::take(&mut c.reads));
        with(|c| c.note(format!("printed {} bytes in {} writes, {} reads{}", dev.buf.len(), dev.writes, reads.len(), dev.failed.map_or(String::new(), |e| format!(", failed: {}", e)))));
        Printed { res, dev, inside, reads }
    }
    /// Library panics and endless work, by the property that forbids them.
    fn sound(&mut self, what: &str, p: &Printed) -> bool {
        match &p.res {
            Res::Ok(_) => true,
            Res::Panic(m) => {
                self.viol("C06", format!("{} panics: {}", what, m));
                self.viol("C08", format!("{} does not arrive: panic without any output error: {}", what, m));
                self.viol("C12", format!("{} does not arrive: panic: {}", what, m));
                false
            }
            Res::Cap => {
                self.viol("C06", format!("{} does not end ({} reads)", what, p.reads.len()));
                self.viol("C08", format!("{} does not end ({} reads)", what, p.reads.len()));
                self.viol("C12", format!("{} does not end ({} reads)", what, p.reads.len()));
                false
            }
            Res::Injected => false,
        }
    }
    fn report_op(&mut self, i: u32) {
        let inst = (self.h(i, 1) % 2) as u32;
        let raw = self.h(i, 2) % 100 < self.plan.raw;
        let what = if raw { "the raw report" } else { "the Markdown report" };
        let rd = SimReader { inst };
        let large = self.h(i, 5) % 16 == 0;
        with(|c| {
            c.tame = if raw { 3 | (large as u8) << 2 } else { 1 };
            c.stats.probe(if raw { "raw reports" } else { "markdown reports" });
        });
        self.begin(i, 1);
        let mut cpu = None;
        let mut mc = None;
        if !raw {
            match guard(false, || CpuId::with_cpuid_reader(rd)) {
                Res::Ok(c) => cpu = Some(c),
                Res::Panic(m) => return self.viol("C06", format!("construction panics: {}", m)),
                _ => return,
            }
            let reads = with(|c| std::mem::take(&mut c.reads));
            if Rd::dups(&reads, inst).is_empty() {
                let g = |l| reads.iter().find(|r| r.leaf == l && r.sub == 0).map(|r| r.regs);
                if let Some(l0) = g(0) {
                    mc = Some(MCpu::from(inst, l0, g(0x8000_0000).unwrap_or_default()));
                }
            }
        }
        self.key = i << 8 | 2;
        let home = with(|c| (c.core.clone(), c.epoch.clone()));
        let soft = IoRates { hard: 0, ..self.plan.io };
        let mut faulty = soft;
        if self.plan.hard {
            // somewhere in the report, early or late
            let z = self.h(i, 3);
            faulty.hard = 1 + (z >> 16) % (1 << (1 + z % 13));
        }
        let faulty_first = self.plan.prop == "C08" && self.h(i, 4) % 2 == 0;
        let go = |s: &mut Self, mode: Dev, io: IoRates| {
            with(|c| {
                c.core = home.0.clone();
                c.epoch = home.1.clone();
            });
            let (cc, rd) = (cpu.clone(), rd);
            s.print(mode, io, move || match cc {
                Some(c) => raw_cpuid::display::markdown(c),
                None => raw_cpuid::display::raw(rd),
            })
        };
        let early = if faulty_first { Some(go(self, Dev::Faulty, faulty)) } else { None };
        let clean = go(self, if self.plan.prop == "C08" { Dev::Clean } else { Dev::Faulty }, soft);
        if !self.sound(what, &clean) {
            return;
        }
        let text = String::from_utf8_lossy(&clean.dev.buf[..clean.dev.buf.len().min(80)]).into_owned();
        self.obs.push(Obs { tid: self.tid, op: self.key, val: bytes_hash(&clean.dev.buf), reads: reads_hash(&clean.reads), text });
        with(|c| c.stats.checks += 1);
        if raw {
            if let Some(e) = raw_wrong(&clean.dev.buf, &clean.reads) {
                self.viol("C08", format!("raw report: {}", e));
            }
        } else if let Some(m) = &mc {
            if self.plan.prop == "C12" {
                let v = report::check(m, &clean.reads, &clean.dev.buf);
                with(|c| {
                    c.stats.checks += v.checks;
                    for s in &v.sections {
                        c.stats.probe(s);
                    }
                    for _ in 0..v.undecided {
                        c.stats.probe("sections left undecided: too many differing deliveries");
                    }
                });
                for s in &v.sections {
                    self.state(&[bytes_hash(s.as_bytes())]);
                }
                if let Some(e) = v.errors.first() {
                    self.viol("C12", e.clone());
                }
            }
            if clean.dev.buf.is_empty() {
                self.viol("C08", "the Markdown report prints nothing".into());
            }
        }
        if self.plan.prop != "C08" {
            return;
        }
        let f = early.unwrap_or_else(|| go(self, Dev::Faulty, faulty));
        let full = &clean.dev.buf;
        let got = &f.dev.buf;
        self.state(&[raw as u64, f.dev.failed.map_or(0, |e| bytes_hash(e.as_bytes())), (got.len() as u64).leading_zeros() as u64, faulty.persistent as u64]);
        self.obs.push(Obs { tid: self.tid, op: self.key, val: bytes_hash(got), reads: reads_hash(&f.reads), text: String::new() });
        with(|c| c.stats.checks += 2);
        let at = got.iter().zip(full.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(full.len()));
        let show = |b: &[u8]| String::from_utf8_lossy(&b[at.min(b.len())..(at + 40).min(b.len())]).into_owned();
        match (f.dev.failed, &f.res) {
            (None, Res::Ok(_)) => {
                if got != full {
                    self.viol("C08", format!("{} over a slow or interrupted output arrives differently from byte {} on ({} of {} bytes arrived): '{}' instead of '{}'", what, at, got.len(), full.len(), show(got), show(full)));
                }
            }
            (None, Res::Panic(m)) => self.viol("C08", format!("{} fails without a hard output error: {}", what, m)),
            (Some(e), r) => {
                with(|c| c.stats.probe("hard output errors met"));
                if at != got.len() {
                    self.viol("C08", format!("what arrived of {} before and after {} is no prefix of it: byte {}: '{}' instead of '{}'", what, e, at, show(got), show(full)));
                } else if f.inside && matches!(r, Res::Ok(_)) {
                    self.viol("C08", format!("{} returns as if nothing had happened although the output failed ({}) with {} of {} bytes arrived", what, e, got.len(), full.len()));
                }
            }
            _ => {}
        }
    }
    /// What the other simulated threads do meanwhile: use the library, print nothing.
    fn background(&mut self, i: u32) {
        with(|c| c.tame = 1);
        let inst = (self.h(i, 1) % 2) as u32;
        self.begin(i, 1);
        let Res::Ok(c) = guard(false, || CpuId::with_cpuid_reader(SimReader { inst })) else { return };
        for (n, g) in GETTERS.iter().enumerate() {
            if self.h(i, 0x100 + n as u64) % 3 != 0 {
                continue;
            }
            self.begin(i, 2 + n as u32);
            let r = guard(false, || match (g.call)(&c) {
                Out::Iter(mut it) => {
                    let mut k = 0;
                    while k < 8 && it.next().is_some() {
                        k += 1;
                    }
                    k
                }
                Out::Obj(o) => (0..o.kind().len()).map(|i| o.call(i).hash(1)).fold(0, u64::wrapping_add),
                _ => 0,
            });
            if let Res::Ok(v) = r {
                let reads = with(|c| reads_hash(&c.reads));
                self.obs.push(Obs { tid: self.tid, op: self.key, val: v, reads, text: String::new() });
            }
        }
    }
    fn program(&mut self) {
        for i in 0..self.plan.nops {
            if with(|c| c.mask.ops.contains(&(self.tid, i))) {
                continue;
            }
            if self.plan.prop == "C09" {
                record::op(self, i);
            } else if self.plan.prop == "C16" {
                command::op(self, i);
            } else if self.tid == 0 {
                self.report_op(i);
            } else {
                self.background(i);
            }
        }
    }
}
/// The raw report against the replies delivered while it was made.
fn raw_wrong(b: &[u8], reads: &[Read]) -> Option<String> {
    let t = match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(_) => return Some("not UTF-8".into()),
    };
    let mut lines: Vec<(u32, [u32; 4], u32)> = Vec::new();
    for l in t.lines().filter(|l| !l.trim().is_empty()) {
        let num = |s: &str| -> Option<u32> {
            let s = s.trim_start();
            let (s, r) = s.strip_prefix("0x").map_or((s, 10), |x| (x, 16));
            let n = s.find(|c: char| !c.is_digit(r)).unwrap_or(s.len());
            u32::from_str_radix(&s[..n], r).ok()
        };
        let leaf = l.find('(').and_then(|i| num(&l[i + 1..]));
        // the sub-leaf, where one is named
        let sub = l.find('(').and_then(|i| l[i..].split(')').next()).and_then(|x| x.split(',').nth(1)).and_then(num).unwrap_or(0);
        let reg = |n: &str| l.find(n).and_then(|i| num(&l[i + n.len()..]));
        match (leaf, reg("eax:"), reg("ebx:"), reg("ecx:"), reg("edx:")) {
            (Some(x), Some(a), Some(b), Some(c), Some(d)) => lines.push((x, [a, b, c, d], sub)),
            _ => return Some(format!("line '{}' is no leaf's line", l)),
        }
    }
    let max = |leaf: u32| -> Vec<u32> { reads.iter().filter(|r| r.leaf == leaf && r.sub == 0).map(|r| r.regs[0]).collect() };
    let mut want = 0;
    for base in [0u32, 0x4000_0000, 0x8000_0000] {
        let ms = max(base);
        if ms.is_empty() {
            return Some(format!("the maximum of leaf {:#x} was not asked for", base));
        }
        // as many lines of this range as one of the delivered maxima says
        let n = lines[want..].iter().take_while(|l| l.0 & 0xf000_0000 == base).count();
        for (k, l) in lines[want..want + n].iter().enumerate() {
            if l.0 != base + k as u32 {
                return Some(format!("line {} of the range from {:#x} is leaf {:#x}, expected {:#x}", k, base, l.0, base + k as u32));
            }
            if !reads.iter().any(|r| r.leaf == l.0 && r.sub == l.2 && r.regs == l.1) {
                return Some(format!("leaf {:#x} (sub-leaf {:#x}) is listed with {:x?}, which was not delivered for it", l.0, l.2, l.1));
            }
        }
        let count = |m: u32| if m < base { 0 } else { (m - base) as usize + 1 };
        if !ms.iter().any(|m| count(*m) == n) {
            return Some(format!("{} leaves listed from {:#x}, the CPU advertises {}", n, base, count(ms[0])));
        }
        want += n;
    }
    if want < lines.len() {
        return Some(format!("leaf {:#x} is listed out of order or twice", lines[want].0));
    }
    None
}

struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
fn exec(prop: &'static str, seed: u64, mask: Mask, tracing: bool) -> Outcome {
    let (cfg, plan) = gen(prop, seed);
    let mut out = Outcome::default();
    if prop != "C09" && !terminal(plan.width) {
        out.harness = Some("no pseudo-terminal to be had".into());
        return out;
    }
    let (cfg, mask, plan) = (Arc::new(cfg), Arc::new(mask), Arc::new(plan));
    let nt = cfg.threads;
    let sched = Arc::new(Sched::new(nt));
    let mut handles = Vec::new();
    for tid in 0..nt {
        let (cfg, mask, sched, plan) = (cfg.clone(), mask.clone(), sched.clone(), plan.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    let seed = cfg.seed;
                    let mut c = Ctx::new(cfg.clone(), mask.clone(), sched.clone(), tid, tracing);
                    sched.start(tid);
                    install(&mut c);
                    let mut th = Th { tid: tid as u32, plan: &plan, viols: Vec::new(), obs: Vec::new(), key: 0, harness: None };
                    let r = catch_unwind(AssertUnwindSafe(|| th.program()));
                    if r.is_err() && th.harness.is_none() {
                        th.harness = Some(format!("thread {} op {}: the harness panicked: {}", tid, th.key >> 8, engine::last_panic()));
                    }
                    let (v, o, h) = (th.viols, th.obs, th.harness);
                    install(std::ptr::null_mut());
                    sched.finish(tid, mixn(seed, &[0xf1, tid as u64]));
                    c.sched = Arc::new(Sched::new(0));
                    AssertSend((v, o, c, h))
                })
                .unwrap(),
        );
    }
    for (tid, h) in handles.iter().enumerate() {
        sched.register(tid, h.thread().clone());
    }
    sched.kick(mix(seed, 0x57a));
    for h in handles {
        let AssertSend((v, o, c, err)) = h.join().unwrap();
        out.viols.extend(v);
        out.obs.extend(o);
        out.stats.add(&c.stats);
        out.fseq = mixn(out.fseq, &[c.fseq]);
        out.states.extend(c.states.iter().copied());
        out.fired.extend(c.fired.iter().map(|f| (f.0, c.tid as u32, f.1.clone())));
        out.trace.extend(c.trace);
        if out.harness.is_none() {
            out.harness = err;
        }
    }
    out.trace.sort();
    out.stats.sim_ns = sched.now();
    out.sched = sched.trace();
    out
}
fn variants(_: &'static str, _: u64) -> Vec<(String, Mask)> {
    vec![("as simulated".to_string(), Mask::default())]
}
fn judge(prop: &'static str, ends: &[(String, End)]) -> Option<Viol> {
    match &ends[0].1 {
        End::Done(o) => o.viols.iter().find(|v| v.prop == prop).cloned(),
        End::Hang(h) if prop != "C09" => Some(Viol { prop, tid: 0, op: 0, msg: format!("a report does not end: {}", h) }),
        End::Crash(h) => Some(Viol { prop, tid: 0, op: 0, msg: format!("crash: {}", h) }),
        End::Hang(h) => Some(Viol { prop, tid: 0, op: 0, msg: format!("hang: {}", h) }),
    }
}
fn describe(prop: &'static str, seed: u64) -> String {
    let (c, p) = gen(prop, seed);
    format!("{} thread(s), {} operations each, width {}, output {:?} hard {}, rates/1000 {:?}, machines {:?}", c.threads, p.nops, p.width, p.io, p.hard, c.rates, c.machines)
}
fn rule(prop: &'static str) -> String {
    let v = match prop {
        "C08" => "every report is printed twice with the same replies, once to a healthy output device and once to a faulty one; arrival, order, honesty and (raw) completeness are checked",
        "C09" => "values and whole recorded histories go through serde over faulty byte streams and are compared, recorded histories are replayed",
        "C12" => "every printed row is read back and compared with the reference model's decoding of the replies delivered while the report was made",
        "C16" => "the cpuid command, a process of its own, is run with right and wrong arguments on a simulated processor, then again with a breaking output or memory running out: its report is read back and compared with the reference model and, on a steady processor, with the library's own report; its exit status must be honest",
        _ => "reports must return",
    };
    format!("one case = one simulated run (2-10 reports or recordings of two random machines, other simulated threads using the library meanwhile, under a seeded scheduler and fault mix): {}; non-trivial = at least one fault or thread switch fired and at least one oracle was evaluated; distinct = different schedule, fault counts, operation and read counts and printed contents", v)
}
fn main() {
    engine::install_hook();
    report::heads();
    if std::env::args().any(|a| a == "C16" || a == "replay") {
        // a run waits for the commands it serves, and sees for itself that they get on
        IDLE.store(1200, std::sync::atomic::Ordering::Relaxed);
    }
    let s = Suite {
        name: env!("CARGO_PKG_NAME"),
        exec,
        variants,
        judge,
        props: &["C06", "C08", "C09", "C12", "C16"],
        describe,
        rule,
        real: if cfg!(debug_assertions) {
            "raw-cpuid as built from /repo (features std, display, serialize; overflow checks on): for C16 the whole cpuid command with clap, a process of its own; display::raw, display::markdown, serde implementations, all queries they use; termimad, serde_json, std's stdout; real OS threads, one released at a time"
        } else {
            "raw-cpuid as built from /repo (features std, display, serialize; optimised, no overflow checks): for C16 the whole cpuid command with clap, a process of its own; display::raw, display::markdown, serde implementations, all queries they use; termimad, serde_json, std's stdout; real OS threads, one released at a time"
        },
        stub: "CPUID source (simulated machines behind CpuIdReader), thread scheduler, clock, the process's write()/writev() on standard output, byte streams, a pseudo-terminal of chosen width; for C16 the command's CPUID instructions (patched into traps), write()/writev() on its standard output and error, malloc family, getrandom()",
    };
    std::process::exit(cli(&s));
}
