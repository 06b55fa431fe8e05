//! Running simulated runs in processes of their own, judging them, minimising and replaying failures.
use crate::ctx::*;
use crate::base::{Obs, Outcome, Viol};
use crate::rng::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::time::{Duration, Instant};

mod sys {
    #[repr(C)]
    pub struct PollFd {
        pub fd: i32,
        pub events: i16,
        pub revents: i16,
    }
    extern "C" {
        pub fn fork() -> i32;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn close(fd: i32) -> i32;
        pub fn read(fd: i32, b: *mut core::ffi::c_void, n: usize) -> isize;
        pub fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32;
        pub fn setrlimit(r: i32, v: *const [u64; 2]) -> i32;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
}
pub struct Buf(pub Vec<u8>, pub usize);
impl Buf {
    pub fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn s(&mut self, v: &str) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v.as_bytes());
    }
    pub fn gu(&mut self) -> Option<u64> {
        let b = self.0.get(self.1..self.1 + 8)?;
        self.1 += 8;
        Some(u64::from_le_bytes(b.try_into().unwrap()))
    }
    pub fn gs(&mut self) -> Option<String> {
        let n = self.gu()? as usize;
        let b = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(String::from_utf8_lossy(b).into_owned())
    }
}
pub fn intern(s: String) -> &'static str {
    use std::sync::Mutex;
    static T: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    let mut t = T.lock().unwrap();
    if let Some(x) = t.iter().find(|x| **x == s) {
        return x;
    }
    let l: &'static str = Box::leak(s.into_boxed_str());
    t.push(l);
    l
}
fn put_stats(b: &mut Buf, s: &Stats) {
    for f in s.faults {
        b.u(f);
    }
    for v in [s.ops, s.reads, s.checks, s.sim_ns] {
        b.u(v);
    }
    b.u(s.probes.len() as u64);
    for (k, v) in &s.probes {
        b.s(k);
        b.u(*v);
    }
}
fn get_stats(b: &mut Buf) -> Option<Stats> {
    let mut s = Stats::default();
    for i in 0..NF {
        s.faults[i] = b.gu()?;
    }
    s.ops = b.gu()?;
    s.reads = b.gu()?;
    s.checks = b.gu()?;
    s.sim_ns = b.gu()?;
    for _ in 0..b.gu()? {
        let k = intern(b.gs()?);
        let v = b.gu()?;
        s.probes.insert(k, v);
    }
    Some(s)
}
fn put(b: &mut Buf, o: &Outcome, obs: bool) {
    b.u(o.viols.len() as u64);
    for v in &o.viols {
        b.s(v.prop);
        b.u(v.tid as u64);
        b.u(v.op as u64);
        b.s(&v.msg);
    }
    let n = if obs { o.obs.len() } else { 0 };
    b.u(n as u64);
    for x in &o.obs[..n] {
        b.u((x.tid as u64) << 32 | x.op as u64);
        b.u(x.val);
        b.u(x.reads);
        b.s(&x.text);
    }
    put_stats(b, &o.stats);
    b.u(o.sched);
    b.u(o.fseq);
    b.u(o.states.len() as u64);
    for s in &o.states {
        b.u(*s);
    }
    b.u(o.fired.len() as u64);
    for f in &o.fired {
        b.u(f.0);
        b.u(f.1 as u64);
        b.s(&f.2);
    }
    b.u(o.trace.len() as u64);
    for t in &o.trace {
        b.s(&t.1);
    }
    b.s(o.harness.as_deref().unwrap_or(""));
    b.u(0x600d);
}
fn get(b: &mut Buf) -> Option<Outcome> {
    let mut o = Outcome::default();
    for _ in 0..b.gu()? {
        o.viols.push(Viol { prop: intern(b.gs()?), tid: b.gu()? as u32, op: b.gu()? as u32, msg: b.gs()? });
    }
    for _ in 0..b.gu()? {
        let k = b.gu()?;
        o.obs.push(Obs { tid: (k >> 32) as u32, op: k as u32, val: b.gu()?, reads: b.gu()?, text: b.gs()? });
    }
    o.stats = get_stats(b)?;
    o.sched = b.gu()?;
    o.fseq = b.gu()?;
    for _ in 0..b.gu()? {
        o.states.push(b.gu()?);
    }
    for _ in 0..b.gu()? {
        o.fired.push((b.gu()?, b.gu()? as u32, b.gs()?));
    }
    for i in 0..b.gu()? {
        o.trace.push((i, b.gs()?));
    }
    let h = b.gs()?;
    if !h.is_empty() {
        o.harness = Some(h);
    }
    if b.gu()? != 0x600d {
        return None;
    }
    Some(o)
}

pub enum End {
    Done(Outcome),
    /// the process stopped making progress (what), with nothing else known about it
    Hang(String),
    Crash(String),
}
fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sys::write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}
/// CPU ticks of a child and whether every one of its tasks sleeps.
fn child_state(pid: i32) -> (u64, bool) {
    let mut cpu = 0;
    let mut all = true;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(t.path().join("stat")) {
                let r = s.rsplit(')').next().unwrap_or("");
                let f: Vec<&str> = r.split_whitespace().collect();
                if f.len() > 12 {
                    cpu += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
                    all &= f[0] == "S";
                }
            }
        }
    }
    (cpu, all)
}
pub const CPU_LIMIT: u64 = 5;
/// Stepped executions take longer.
pub static LIMIT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(CPU_LIMIT);
/// Quarter seconds without progress after which a run counts as deadlocked.
pub static IDLE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(12);
/// Run `f` in a forked child and collect what it returns. The caller must be single-threaded.
pub fn in_child(obs: bool, f: impl FnOnce() -> Outcome) -> End {
    let limit = LIMIT.load(std::sync::atomic::Ordering::Relaxed);
    let mut p = [0i32; 2];
    std::io::stdout().flush().ok();
    unsafe {
        assert_eq!(sys::pipe(p.as_mut_ptr()), 0, "pipe");
        let pid = sys::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            sys::close(p[0]);
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            sys::setrlimit(0, &[limit, limit + 1]);
            sys::setrlimit(4, &[0, 0]);
            sys::setrlimit(9, &[6 << 30, 6 << 30]);
            let o = f();
            let mut b = Buf(Vec::new(), 0);
            put(&mut b, &o, obs);
            write_all(p[1], &b.0);
            sys::_exit(0);
        }
        sys::close(p[1]);
        let mut data = Vec::new();
        let mut tmp = vec![0u8; 1 << 16];
        let mut idle = 0;
        let mut last = u64::MAX;
        let mut hang = None;
        loop {
            let mut pf = sys::PollFd { fd: p[0], events: 1, revents: 0 };
            let n = sys::poll(&mut pf, 1, 250);
            if n > 0 {
                let n = sys::read(p[0], tmp.as_mut_ptr().cast(), tmp.len());
                if n <= 0 {
                    break;
                }
                data.extend_from_slice(&tmp[..n as usize]);
                idle = 0;
            } else if n == 0 {
                let (cpu, sleeping) = child_state(pid);
                if cpu == last && sleeping {
                    idle += 1;
                } else {
                    idle = 0;
                }
                last = cpu;
                if idle >= IDLE.load(std::sync::atomic::Ordering::Relaxed) {
                    hang = Some("deadlock: every thread of the run waits and none can go on".to_string());
                    sys::kill(pid, 9);
                    break;
                }
            }
        }
        sys::close(p[0]);
        let mut st = 0;
        sys::waitpid(pid, &mut st, 0);
        if let Some(h) = hang {
            return End::Hang(h);
        }
        let sig = st & 0x7f;
        if sig == 24 || sig == 9 && data.is_empty() {
            return End::Hang(format!("no end after {} s of CPU time", limit));
        }
        if sig != 0 {
            return End::Crash(format!("the process died of signal {}", sig));
        }
        if st >> 8 & 0xff != 0 {
            return End::Crash(format!("the process exited with status {}", st >> 8 & 0xff));
        }
        let mut b = Buf(data, 0);
        match get(&mut b) {
            Some(o) => End::Done(o),
            None => End::Crash("the process ended without a result".into()),
        }
    }
}

/// A family of simulations: how to execute a run, which variants of it are compared, and the verdict.
pub struct Suite {
    pub name: &'static str,
    pub exec: fn(&'static str, u64, Mask, bool) -> Outcome,
    pub variants: fn(&'static str, u64) -> Vec<(String, Mask)>,
    pub judge: fn(&'static str, &[(String, End)]) -> Option<Viol>,
    pub props: &'static [&'static str],
    pub describe: fn(&'static str, u64) -> String,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: fn(&'static str) -> String,
}
pub fn join(a: &Mask, b: &Mask) -> Mask {
    let mut m = a.clone();
    m.ops.extend(b.ops.iter().copied());
    m.faults.extend(b.faults.iter().copied());
    m.no_switch |= b.no_switch;
    m.solo = m.solo.or(b.solo);
    m.no_reenter |= b.no_reenter;
    m.no_panic |= b.no_panic;
    m.native |= b.native;
    m.own |= b.own;
    m
}
pub struct Judged {
    pub viol: Option<Viol>,
    pub ends: Vec<(String, End)>,
}
pub fn judge(s: &Suite, prop: &'static str, seed: u64, mask: &Mask, tracing: bool) -> Judged {
    let vs = (s.variants)(prop, seed);
    let many = vs.len() > 1;
    let mut ends = Vec::new();
    for (n, m) in vs {
        let m = join(mask, &m);
        let e = in_child(many || tracing, || (s.exec)(prop, seed, m, tracing));
        ends.push((n, e));
    }
    Judged { viol: (s.judge)(prop, &ends), ends }
}
pub fn run_seed(prop: &str, base: u64, idx: u64) -> u64 {
    // the builds of the harness explore different runs
    let mut h = if cfg!(debug_assertions) { base } else { mix(base, 0xf11) };
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, idx)
}
#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub procs: u64,
    pub stats: Stats,
    pub scheds: HashSet<u64>,
    pub fseqs: HashSet<u64>,
    pub sigs: HashSet<u64>,
    pub states: HashSet<u64>,
    pub nontrivial: u64,
    pub first: Option<(u64, Viol)>,
    pub violations: u64,
    pub harness: Option<String>,
    pub ended_early: u64,
    pub digest: u64,
}
fn one(s: &Suite, prop: &'static str, base: u64, idx: u64, t: &mut Totals) -> u64 {
    let seed = run_seed(prop, base, idx);
    let j = judge(s, prop, seed, &Mask::default(), false);
    t.runs += 1;
    t.procs += j.ends.len() as u64;
    let mut d = mix(seed, j.viol.is_some() as u64);
    for (vi, (_, e)) in j.ends.iter().enumerate() {
        match e {
            End::Done(o) => {
                t.stats.add(&o.stats);
                t.scheds.insert(o.sched);
                t.fseqs.insert(o.fseq);
                t.states.extend(o.states.iter().copied());
                let faults: u64 = o.stats.faults.iter().sum();
                let mut sig = mixn(o.sched, &[o.stats.ops, o.stats.reads, faults, o.stats.sim_ns]);
                for f in o.stats.faults {
                    sig = mix(sig, f);
                }
                for v in &o.viols {
                    sig = mix(sig, v.op as u64);
                }
                for x in &o.obs {
                    sig = mixn(sig, &[x.val, x.reads]);
                }
                d = mix(d, sig);
                if vi == 0 && faults > 0 && o.stats.checks > 0 {
                    t.nontrivial += 1;
                    t.sigs.insert(sig);
                }
                if let Some(h) = &o.harness {
                    t.harness.get_or_insert(format!("run {} seed {:#x}: {}", idx, seed, h));
                }
            }
            _ => t.ended_early += 1,
        }
    }
    if let Some(v) = j.viol {
        t.violations += 1;
        if t.first.is_none() {
            t.first = Some((idx, v));
        }
    }
    d
}
fn put_totals(b: &mut Buf, t: &Totals) {
    for v in [t.runs, t.procs, t.nontrivial, t.violations, t.ended_early, t.digest] {
        b.u(v);
    }
    put_stats(b, &t.stats);
    for set in [&t.scheds, &t.sigs, &t.states, &t.fseqs] {
        b.u(set.len() as u64);
        for x in set {
            b.u(*x);
        }
    }
    match &t.first {
        Some((i, v)) => {
            b.u(1);
            b.u(*i);
            b.s(v.prop);
            b.u(v.tid as u64);
            b.u(v.op as u64);
            b.s(&v.msg);
        }
        None => b.u(0),
    }
    b.s(t.harness.as_deref().unwrap_or(""));
}
fn get_totals(b: &mut Buf) -> Option<Totals> {
    let mut t = Totals::default();
    t.runs = b.gu()?;
    t.procs = b.gu()?;
    t.nontrivial = b.gu()?;
    t.violations = b.gu()?;
    t.ended_early = b.gu()?;
    t.digest = b.gu()?;
    t.stats = get_stats(b)?;
    for i in 0..4 {
        let n = b.gu()?;
        for _ in 0..n {
            let x = b.gu()?;
            [&mut t.scheds, &mut t.sigs, &mut t.states, &mut t.fseqs][i].insert(x);
        }
    }
    if b.gu()? == 1 {
        t.first = Some((b.gu()?, Viol { prop: intern(b.gs()?), tid: b.gu()? as u32, op: b.gu()? as u32, msg: b.gs()? }));
    }
    let h = b.gs()?;
    if !h.is_empty() {
        t.harness = Some(h);
    }
    Some(t)
}
/// Distribute runs over worker processes. Which runs are made does not depend on the number of workers.
pub fn batch(s: &Suite, prop: &'static str, base: u64, from: u64, runs: u64, workers: u64, deadline: Option<Instant>) -> Totals {
    let mut kids = Vec::new();
    std::io::stdout().flush().ok();
    for w in 0..workers {
        let mut p = [0i32; 2];
        unsafe {
            assert_eq!(sys::pipe(p.as_mut_ptr()), 0);
            let pid = sys::fork();
            assert!(pid >= 0);
            if pid == 0 {
                sys::close(p[0]);
                sys::prctl(1, 9, 0, 0, 0);
                let mut t = Totals::default();
                let mut i = from + w;
                while i < from + runs {
                    let d = one(s, prop, base, i, &mut t);
                    t.digest = t.digest.wrapping_add(d);
                    if t.first.is_some() {
                        break;
                    }
                    if deadline.map_or(false, |d| Instant::now() > d) {
                        break;
                    }
                    i += workers;
                }
                let mut b = Buf(Vec::new(), 0);
                put_totals(&mut b, &t);
                write_all(p[1], &b.0);
                sys::_exit(0);
            }
            sys::close(p[1]);
            kids.push((pid, p[0]));
        }
    }
    let mut tot = Totals::default();
    for (pid, fd) in kids {
        let mut data = Vec::new();
        let mut tmp = vec![0u8; 1 << 16];
        unsafe {
            loop {
                let n = sys::read(fd, tmp.as_mut_ptr().cast(), tmp.len());
                if n <= 0 {
                    break;
                }
                data.extend_from_slice(&tmp[..n as usize]);
            }
            sys::close(fd);
            let mut st = 0;
            sys::waitpid(pid, &mut st, 0);
        }
        let mut b = Buf(data, 0);
        match get_totals(&mut b) {
            Some(t) => {
                tot.runs += t.runs;
                tot.procs += t.procs;
                tot.nontrivial += t.nontrivial;
                tot.violations += t.violations;
                tot.ended_early += t.ended_early;
                tot.digest = tot.digest.wrapping_add(t.digest);
                tot.stats.add(&t.stats);
                tot.scheds.extend(t.scheds);
                tot.fseqs.extend(t.fseqs);
                tot.sigs.extend(t.sigs);
                tot.states.extend(t.states);
                if let Some(f) = t.first {
                    if tot.first.as_ref().map_or(true, |x| f.0 < x.0) {
                        tot.first = Some(f);
                    }
                }
                if tot.harness.is_none() {
                    tot.harness = t.harness;
                }
            }
            None => {
                tot.harness.get_or_insert("a worker process died".into());
            }
        }
    }
    tot
}

// ------------------------------------------------------------------ minimising and replaying
fn ddmin<T: Clone>(all: Vec<T>, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    // `fails(dropped)`: does the run still fail with these dropped? Returns what can be dropped.
    let mut dropped: Vec<T> = Vec::new();
    let mut rest = all;
    let mut chunk = rest.len().max(1);
    while chunk >= 1 && !rest.is_empty() {
        let mut i = 0;
        let mut progress = false;
        while i < rest.len() {
            let end = (i + chunk).min(rest.len());
            let mut d = dropped.clone();
            d.extend_from_slice(&rest[i..end]);
            if fails(&d) {
                dropped = d;
                rest.drain(i..end);
                progress = true;
            } else {
                i = end;
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        chunk = if chunk > 1 { chunk / 2 } else { 1 };
    }
    dropped
}
pub fn minimise(s: &Suite, prop: &'static str, seed: u64, budget: Duration) -> Option<(Mask, Judged)> {
    let t0 = Instant::now();
    let slow = std::cell::Cell::new(0u32);
    let trials = std::cell::Cell::new(0u32);
    let fails = |m: &Mask| -> bool {
        if t0.elapsed() > budget || slow.get() > 6 || trials.get() > 600 {
            return false;
        }
        trials.set(trials.get() + 1);
        let a = Instant::now();
        let r = judge(s, prop, seed, m, false).viol.is_some();
        if a.elapsed() > Duration::from_secs(2) {
            slow.set(slow.get() + 1);
        }
        r
    };
    let base = judge(s, prop, seed, &Mask::default(), true);
    base.viol.as_ref()?;
    let mut mask = Mask::default();
    // which operations and faults are there at all
    let mut nthreads = 0u32;
    let mut maxop = 0u32;
    let mut faults: Vec<u64> = Vec::new();
    for (_, e) in &base.ends {
        if let End::Done(o) = e {
            for x in &o.obs {
                nthreads = nthreads.max(x.tid + 1);
                maxop = maxop.max((x.op >> 8) + 1);
            }
            for f in &o.fired {
                if !faults.contains(&f.0) {
                    faults.push(f.0);
                }
            }
        }
    }
    if nthreads == 0 {
        nthreads = 6;
        maxop = 100;
    }
    let maxop = maxop.min(400);
    for t in 0..nthreads {
        let mut m = mask.clone();
        m.ops.extend((0..maxop).map(|i| (t, i)));
        if fails(&m) {
            mask = m;
        }
    }
    let mut m = mask.clone();
    m.faults.extend(faults.iter());
    if fails(&m) {
        mask = m;
    } else {
        let d = ddmin(faults.clone(), |d| {
            let mut m = mask.clone();
            m.faults.extend(d.iter());
            fails(&m)
        });
        mask.faults.extend(d);
    }
    for t in 0..nthreads {
        let ops: Vec<(u32, u32)> = (0..maxop).rev().map(|i| (t, i)).filter(|o| !mask.ops.contains(o)).collect();
        let d = ddmin(ops, |d| {
            let mut m = mask.clone();
            m.ops.extend(d.iter());
            fails(&m)
        });
        mask.ops.extend(d);
    }
    // operations gone, more faults may be superfluous
    let rest: Vec<u64> = faults.iter().copied().filter(|f| !mask.faults.contains(f)).collect();
    let d = ddmin(rest, |d| {
        let mut m = mask.clone();
        m.faults.extend(d.iter());
        fails(&m)
    });
    mask.faults.extend(d);
    let j = judge(s, prop, seed, &mask, true);
    if j.viol.is_some() {
        Some((mask, j))
    } else {
        Some((Mask::default(), base))
    }
}
pub fn replay_text(s: &Suite, prop: &'static str, seed: u64, idx: u64, mask: &Mask, j: &Judged) -> String {
    let mut o = String::new();
    let v = j.viol.as_ref().unwrap();
    o += "# Replay file: a failing simulated run. Execute it with: bin/replay <this file>\n";
    o += &format!("suite={}\nproperty={}\nseed={:#x}\nrun={}\n", s.name, prop, seed, idx);
    let mut ops: Vec<_> = mask.ops.iter().collect();
    ops.sort();
    o += &format!("without_ops={}\n", ops.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(","));
    let mut f: Vec<_> = mask.faults.iter().collect();
    f.sort();
    o += &format!("without_faults={}\n", f.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(","));
    o += &format!("dictionary={}\n", crate::dict::line());
    o += &format!("message={}\n", v.msg.replace('\n', " "));
    o += &format!("# configuration: {}\n", (s.describe)(prop, seed).replace('\n', " "));
    for (n, e) in &j.ends {
        o += &format!("# ---- {}\n", n);
        match e {
            End::Done(x) => {
                for t in x.trace.iter().take(4000) {
                    let l = t.1.replace('\n', "\\n");
                    let l: String = l.chars().take(600).collect();
                    o += &format!("#   {}\n", l);
                }
            }
            End::Hang(h) => o += &format!("#   HANG: {}\n", h),
            End::Crash(h) => o += &format!("#   CRASH: {}\n", h),
        }
    }
    o
}
pub fn parse_replay(t: &str) -> Option<(&'static str, u64, u64, Mask)> {
    let mut kv = BTreeMap::new();
    for l in t.lines().filter(|l| !l.starts_with('#')) {
        if let Some((k, v)) = l.split_once('=') {
            kv.insert(k, v);
        }
    }
    let mut m = Mask::default();
    for x in kv.get("without_ops")?.split(',').filter(|x| !x.is_empty()) {
        let (a, b) = x.split_once(':')?;
        m.ops.insert((a.parse().ok()?, b.parse().ok()?));
    }
    for x in kv.get("without_faults")?.split(',').filter(|x| !x.is_empty()) {
        m.faults.insert(u64::from_str_radix(x, 16).ok()?);
    }
    crate::dict::set(kv.get("dictionary").copied().unwrap_or(";"));
    let seed = u64::from_str_radix(kv.get("seed")?.trim_start_matches("0x"), 16).ok()?;
    Some((intern(kv.get("property")?.to_string()), seed, kv.get("run")?.parse().ok()?, m))
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub struct Args {
    pub prop: &'static str,
    pub tier: String,
    pub base: u64,
    pub runs: u64,
    pub workers: u64,
    pub evidence: String,
    pub replays: String,
    pub seconds: Option<u64>,
    /// evidence of a companion check of the same property, to be included
    pub extra: Option<String>,
}
/// A whole check: search, minimise, replay, report, evidence. Returns the exit code.
pub fn check(s: &Suite, a: &Args) -> i32 {
    let t0 = Instant::now();
    println!("check property={} tier={} VERIF_SEED={} runs={} workers={}", a.prop, a.tier, a.base, a.runs, a.workers);
    let deadline = a.seconds.map(|x| t0 + Duration::from_secs(x));
    let mut tot = batch(s, a.prop, a.base, 0, a.runs, a.workers, deadline);
    // determinism: the first runs again, distributed differently, must be the same runs
    let n = 48.min(a.runs);
    let (mut det, mut detw) = (None, 0);
    if tot.first.is_none() && tot.harness.is_none() {
        detw = if a.workers > 3 { 3 } else { a.workers + 1 };
        let x = batch(s, a.prop, a.base, 0, n, 5, None);
        let y = batch(s, a.prop, a.base, 0, n, detw, None);
        det = Some(x.digest == y.digest && x.runs == n && y.runs == n);
    }
    if tot.first.is_none() {
        if let Some(h) = &tot.harness {
            eprintln!("harness error: {}", h);
            return 2;
        }
    }
    let mut code = 0;
    let mut replay = String::new();
    if let Some((idx, v)) = tot.first.take() {
        let seed = run_seed(a.prop, a.base, idx);
        println!("run {} (seed {:#x}) violates {}: {}", idx, seed, a.prop, v.msg);
        // a library that depends on something outside the simulation fails now and then only
        let again = || (0..20).map(|_| judge(s, a.prop, seed, &Mask::default(), true)).find(|j| j.viol.is_some()).map(|j| (Mask::default(), j));
        let (mask, j) = match minimise(s, a.prop, seed, Duration::from_secs(90)).or_else(again) {
            Some(x) => x,
            None => {
                eprintln!("harness error: run {} seed {:#x} does not fail again: {}", idx, seed, v.msg);
                return 2;
            }
        };
        std::fs::create_dir_all(&a.replays).ok();
        replay = format!("{}/{}-{:x}.replay", a.replays, a.prop, seed);
        std::fs::write(&replay, replay_text(s, a.prop, seed, idx, &mask, &j)).expect("cannot write the replay file");
        println!("minimised: {}", j.viol.as_ref().unwrap().msg);
        // once more, from the file
        let (p, sd, _, m) = parse_replay(&std::fs::read_to_string(&replay).unwrap()).expect("replay file");
        let again = judge(s, p, sd, &m, false).viol;
        println!("replay of the file: {}", again.as_ref().map_or("does not fail".into(), |v| v.msg.clone()));
        println!("VIOLATION property={} replay={}", a.prop, replay);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples: Vec<String> = Vec::new();
    for idx in 0..3u64.min(a.runs) {
        let seed = run_seed(a.prop, a.base, idx);
        let j = judge(s, a.prop, seed, &Mask::default(), true);
        let mut t = Vec::new();
        if let Some((n, End::Done(o))) = j.ends.first() {
            t.push(format!("variant {}", n));
            for l in o.trace.iter().filter(|l| l.1.contains("FAULT") || l.1.contains("switched") || l.1.contains("---") || l.1.contains("=>")).take(28) {
                t.push(l.1.chars().take(160).collect());
            }
        }
        samples.push(format!("{{\"run\":{},\"seed\":{},\"configuration\":{},\"history\":[{}]}}", idx, js(&format!("{:#x}", seed)), js(&(s.describe)(a.prop, seed)), t.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    }
    let faults: Vec<String> = FAULTS.iter().enumerate().filter(|(i, _)| tot.stats.faults[*i] > 0).map(|(i, n)| format!("{}:{}", js(n), tot.stats.faults[i])).collect();
    let probes: Vec<String> = tot.stats.probes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"simulated_runs\":{},\"variant_executions\":{},\"runs_per_hour\":{},\"simulated_seconds\":{:.3},\"operations\":{},\"cpuid_reads\":{},\"oracle_evaluations\":{},\"faults_fired\":{{{}}},\"probes\":{{{}}},\"distinct_schedules\":{},\"distinct_fault_sequences\":{},\"distinct_situations\":{},\"runs_ended_by_other_failures\":{},\"determinism_resample\":{},\"real_components\":{},\"simulated_components\":{}}},\"assumptions\":[\"a clean batch is evidence, not proof: the space of register contents, schedules and faults is sampled\",\"thread switches happen inside CPUID reads, inside sinks and between operations, which are the points at which the library meets the outside world; under C10 a third of the runs also switch between any two machine instructions of the library (sequentially consistent memory)\"],\"wall_s\":{:.2},\"violations\":{}{}}}\n",
        js(a.prop),
        js(&a.tier),
        a.base,
        tot.runs,
        tot.sigs.len(),
        js(&(s.rule)(a.prop)),
        samples.join(","),
        tot.runs,
        tot.procs,
        (tot.runs as f64 / wall * 3600.0) as u64,
        tot.stats.sim_ns as f64 / 1e9,
        tot.stats.ops,
        tot.stats.reads,
        tot.stats.checks,
        faults.join(","),
        probes.join(","),
        tot.scheds.len(),
        tot.fseqs.len(),
        tot.states.len(),
        tot.ended_early,
        match det {
            Some(true) => format!("\"{} runs repeated under 5 and {} workers: identical\"", n, detw),
            Some(false) => "\"DIFFERENT\"".into(),
            None => "\"not done\"".into(),
        },
        js(s.real),
        js(s.stub),
        wall,
        tot.violations,
        a.extra.as_ref().and_then(|f| std::fs::read_to_string(f).ok()).map_or(String::new(), |t| format!(",\"companion\":{}", t.trim())),
    );
    if let Some(d) = std::path::Path::new(&a.evidence).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(&a.evidence, ev).expect("cannot write evidence");
    println!(
        "{} runs ({} executions), {} operations, {} reads, {} oracle evaluations, {} faults fired, {} distinct schedules, {:.1} s",
        tot.runs,
        tot.procs,
        tot.stats.ops,
        tot.stats.reads,
        tot.stats.checks,
        tot.stats.faults.iter().sum::<u64>(),
        tot.scheds.len(),
        wall
    );
    if det == Some(false) {
        eprintln!("warning: repeated runs were not identical");
    }
    let _ = replay;
    code
}
pub fn cli(s: &Suite) -> i32 {
    let av: Vec<String> = std::env::args().collect();
    let get = |n: &str| av.iter().position(|x| x == n).and_then(|i| av.get(i + 1)).cloned();
    let num = |n: &str, d: u64| get(n).map_or(d, |x| x.parse().unwrap_or(d));
    let cmd = av.get(1).map(|x| x.as_str()).unwrap_or("");
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    match cmd {
        "check" => {
            let prop = intern(av[2].clone());
            if !s.props.contains(&prop) {
                eprintln!("unknown property {}", prop);
                return 2;
            }
            check(
                s,
                &Args {
                    prop,
                    tier: get("--tier").unwrap_or("quick".into()),
                    base: seed(),
                    runs: num("--runs", 1000),
                    workers: num("--workers", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)),
                    evidence: get("--evidence").unwrap_or(format!("evidence/{}.json", prop)),
                    replays: get("--replays").unwrap_or("replays".into()),
                    seconds: get("--seconds").and_then(|x| x.parse().ok()),
                    extra: get("--extra"),
                },
            )
        }
        "replay" => {
            let t = std::fs::read_to_string(&av[2]).expect("replay file");
            let (p, sd, idx, m) = parse_replay(&t).expect("malformed replay file");
            let j = judge(s, p, sd, &m, true);
            match &j.viol {
                Some(_) => {
                    print!("{}", replay_text(s, p, sd, idx, &m, &j));
                    println!("VIOLATION property={} replay={}", p, av[2]);
                    1
                }
                None => {
                    println!("the run of {} no longer violates {}", av[2], p);
                    0
                }
            }
        }
        "show" => {
            let prop = intern(av[2].clone());
            let sd = run_seed(prop, seed(), num("--run", 0));
            let j = judge(s, prop, sd, &Mask::default(), true);
            println!("{}", (s.describe)(prop, sd));
            for (n, e) in &j.ends {
                println!("---- {}", n);
                match e {
                    End::Done(o) => {
                        for t in &o.trace {
                            println!("{}", t.1);
                        }
                        for v in &o.viols {
                            println!("VIOL {:?}", v);
                        }
                    }
                    End::Hang(h) | End::Crash(h) => println!("{}", h),
                }
            }
            0
        }
        "digest" => {
            let prop = intern(av[2].clone());
            let t = batch(s, prop, seed(), num("--from", 0), num("--runs", 100), num("--workers", 4), None);
            println!("{} {} runs digest {:x} {}", prop, t.runs, t.digest, t.harness.unwrap_or_default());
            0
        }
        _ => {
            eprintln!("usage: check PROP [--runs N] | replay FILE | show PROP --run N | digest PROP");
            2
        }
    }
}
