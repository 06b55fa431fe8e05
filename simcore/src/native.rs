//! The simulated processor below the instruction set: CPUID instructions executed by library code are taken
//! over and answered by the simulation (`take over`), and library code can be run one instruction at a time
//! so that the scheduler may switch threads after any of them (`step`).
//!
//! Taking over uses CPUID faulting (arch_prctl(ARCH_SET_CPUID, 0): CPUID raises SIGSEGV on the calling
//! thread) where processor and kernel offer it, and single-stepping otherwise. Both are set for the calling
//! thread only, and only while library code runs on it.
//!
//! Instructions of the library that refer to its own process-wide mutable memory (bin/build lists them; the
//! library has none today) can be turned into breakpoints, at which the scheduler may switch threads as well:
//! if threads can disturb each other at all, it is around these.
use crate::ctx;
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::OnceLock;

mod sys {
    extern "C" {
        pub fn sigaction(sig: i32, new: *const KAction, old: *mut KAction) -> i32;
        pub fn syscall(n: i64, ...) -> i64;
        pub fn mprotect(a: usize, n: usize, prot: i32) -> i32;
    }
    /// struct sigaction of glibc on x86_64
    #[repr(C)]
    pub struct KAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
}
const SIGTRAP: i32 = 5;
const SIGSEGV: i32 = 11;
const SA_SIGINFO: i32 = 4;
const SA_NODEFER: i32 = 0x4000_0000;
// gregs indices in ucontext
const UC_GREGS: usize = 40;
const RBX: usize = 11;
const RDX: usize = 12;
const RAX: usize = 13;
const RCX: usize = 14;
const RIP: usize = 16;
const EFL: usize = 17;

/// how CPUID instructions are taken over: 0 not at all, 1 faulting, 2 stepping
static MODE: AtomicU8 = AtomicU8::new(0);
thread_local! {
    /// library code with CPUID taken over is running
    static TAKEN: Cell<bool> = const { Cell::new(false) };
    /// library code is being stepped
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    /// instructions until the next switch
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// instructions still to be stepped in this operation
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// library code is running, as opposed to simulator code called by it
    static INLIB: Cell<bool> = const { Cell::new(false) };
    /// the breakpoint whose instruction is being executed
    static PENDING: Cell<usize> = const { Cell::new(0) };
}
/// breakpoints, with the bytes they replace
static SITES: OnceLock<Vec<(usize, u8)>> = OnceLock::new();
fn sites() -> &'static [(usize, u8)] {
    SITES.get().map_or(&[], |s| &s[..])
}
/// The instructions of the library that refer to its process-wide mutable memory, as bin/build found them.
pub fn listed() -> Vec<usize> {
    let f = std::env::current_exe().map(|e| e.with_extension("sites"));
    let t = f.and_then(std::fs::read_to_string).unwrap_or_default();
    let base = std::ptr::addr_of!(__executable_start) as usize;
    let mut v: Vec<usize> = t.lines().filter_map(|l| usize::from_str_radix(l.trim(), 16).ok()).map(|a| a + base).filter(|a| in_program(*a)).collect();
    v.sort();
    v.dedup();
    v
}
/// From now on, in this process, library code may be preempted where it refers to process-wide memory.
pub fn break_at_sites() {
    let v = listed();
    if v.is_empty() || SITES.get().is_some() {
        return;
    }
    handlers();
    let (a, b) = (v[0] & !0xfff, (v[v.len() - 1] + 0x1000) & !0xfff);
    unsafe {
        assert_eq!(sys::mprotect(a, b - a, 7), 0, "mprotect");
        SITES.set(v.iter().map(|x| (*x, *(*x as *const u8))).collect()).unwrap();
        for x in v {
            poke(x, 0xcc);
        }
    }
}
unsafe fn poke(a: usize, b: u8) {
    std::ptr::write_volatile(a as *mut u8, b)
}
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
fn in_program(ip: usize) -> bool {
    ip >= std::ptr::addr_of!(__executable_start) as usize && ip < std::ptr::addr_of!(etext) as usize
}
fn tf_on() {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
fn tf_off() {
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
unsafe fn reg(uc: *mut u8, i: usize) -> *mut u64 {
    uc.add(UC_GREGS + i * 8).cast()
}
unsafe fn at_cpuid(ip: usize) -> bool {
    let p = ip as *const u8;
    *p == 0x0f && *p.add(1) == 0xa2
}
/// Answer the CPUID instruction at the interrupted position.
unsafe fn emulate(uc: *mut u8) {
    let (a, c) = (*reg(uc, RAX) as u32, *reg(uc, RCX) as u32);
    let r = ctx::read(0, a, c);
    *reg(uc, RAX) = r[0] as u64;
    *reg(uc, RBX) = r[1] as u64;
    *reg(uc, RCX) = r[2] as u64;
    *reg(uc, RDX) = r[3] as u64;
    *reg(uc, RIP) += 2;
}
extern "C" fn on_segv(_sig: i32, _info: *mut u8, uc: *mut u8) {
    unsafe {
        let ip = *reg(uc, RIP) as usize;
        // a general-protection fault, as CPUID faulting raises, has no fault address; anything else is a real crash
        if TAKEN.with(|t| t.get()) && *reg(uc, 20) == 13 && at_cpuid(ip) {
            emulate(uc);
            return;
        }
        let d = sys::KAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        sys::sigaction(SIGSEGV, &d, std::ptr::null_mut());
    }
}
/// A breakpoint was hit: switch now, in a few instructions, or not at all; then execute what was there.
unsafe fn breakpoint(uc: *mut u8) {
    let a = *reg(uc, RIP) as usize - 1;
    let Ok(i) = sites().binary_search_by_key(&a, |s| s.0) else {
        let d = sys::KAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        sys::sigaction(SIGTRAP, &d, std::ptr::null_mut());
        *reg(uc, RIP) = a as u64;
        return;
    };
    let mut step = STEPPING.with(|t| t.replace(false));
    if INLIB.with(|l| l.replace(false)) {
        if let Some(k) = ctx::at_site() {
            let left = if step { LEFT.with(|l| l.get()) } else { u64::MAX };
            LEFT.with(|l| l.set(left.min(k)));
            BUDGET.with(|b| b.set(b.get().max(k + 1)));
            step = true;
        }
        INLIB.with(|l| l.set(true));
    }
    *reg(uc, RIP) = a as u64;
    poke(a, sites()[i].1);
    PENDING.with(|p| p.set(a));
    STEPPING.with(|t| t.set(step));
    *reg(uc, EFL) |= 0x100;
}
extern "C" fn on_trap(_sig: i32, info: *mut u8, uc: *mut u8) {
    unsafe {
        // si_code: SI_KERNEL for a breakpoint
        if *info.add(8).cast::<i32>() == 0x80 {
            return breakpoint(uc);
        }
        let p = PENDING.with(|p| p.replace(0));
        if p != 0 {
            poke(p, 0xcc);
        }
        if !STEPPING.with(|t| t.get()) {
            *reg(uc, EFL) &= !0x100;
            return;
        }
        STEPPING.with(|t| t.set(false));
        let ip = *reg(uc, RIP) as usize;
        if in_program(ip) {
            COUNT.with(|c| c.set(c.get() + 1));
            let b = BUDGET.with(|b| b.get());
            if b == 0 {
                // enough of this operation
                *reg(uc, EFL) &= !0x100;
                return;
            }
            BUDGET.with(|x| x.set(b - 1));
            let left = LEFT.with(|l| l.get());
            if left <= 1 {
                let n = ctx::preempted();
                LEFT.with(|l| l.set(n));
                if n == u64::MAX && MODE.load(Ordering::Relaxed) != 2 {
                    // never again in this operation
                    BUDGET.with(|x| x.set(0));
                    *reg(uc, EFL) &= !0x100;
                    return;
                }
            } else {
                LEFT.with(|l| l.set(left - 1));
            }
        }
        while MODE.load(Ordering::Relaxed) == 2 && TAKEN.with(|t| t.get()) && at_cpuid(*reg(uc, RIP) as usize) {
            emulate(uc);
        }
        STEPPING.with(|t| t.set(true));
    }
}
fn faulting(on: bool) -> bool {
    // arch_prctl(ARCH_SET_CPUID, ...)
    unsafe { sys::syscall(158, 0x1012i64, if on { 0i64 } else { 1 }) == 0 }
}
fn handlers() {
    type H = extern "C" fn(i32, *mut u8, *mut u8);
    for (sig, h) in [(SIGTRAP, on_trap as H), (SIGSEGV, on_segv as H)] {
        let a = sys::KAction { handler: h as *const () as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
        unsafe { assert_eq!(sys::sigaction(sig, &a, std::ptr::null_mut()), 0, "sigaction") };
    }
}
/// Which way of taking CPUID over works here. SIMCPUID=step asks for the slower one.
pub fn way() -> &'static str {
    if std::env::var("SIMCPUID").map_or(true, |v| v != "step") && faulting(true) {
        faulting(false);
        "CPUID faulting"
    } else {
        "single-stepping"
    }
}
/// From now on, in this process, CPUID executed by library code is answered by the simulation.
pub fn take_over() {
    handlers();
    MODE.store(if slow() { 2 } else { 1 }, Ordering::Relaxed);
}
/// From now on, in this process, library code may be stepped.
pub fn prepare_stepping() {
    handlers();
}
pub fn active() -> bool {
    MODE.load(Ordering::Relaxed) != 0
}
/// Run library code with CPUID taken over and, with `step`, preempted after that many instructions at first.
pub fn library<T>(step: Option<u64>, f: impl FnOnce() -> T) -> T {
    let mode = MODE.load(Ordering::Relaxed);
    if mode == 0 && step.is_none() && sites().is_empty() {
        return f();
    }
    struct G(bool, bool, bool, bool);
    impl Drop for G {
        fn drop(&mut self) {
            INLIB.with(|l| l.set(self.3));
            if !self.1 {
                tf_off();
            }
            STEPPING.with(|t| t.set(self.1));
            TAKEN.with(|t| t.set(self.0));
            if self.2 {
                faulting(false);
            }
        }
    }
    let outer = TAKEN.with(|t| t.get());
    let g = G(outer, STEPPING.with(|t| t.get()), mode == 1 && !outer, INLIB.with(|l| l.replace(true)));
    TAKEN.with(|t| t.set(mode != 0));
    if g.2 {
        faulting(true);
    }
    if step.is_some() && BUDGET.with(|b| b.get()) > 0 || mode == 2 {
        LEFT.with(|l| l.set(step.unwrap_or(u64::MAX)));
        STEPPING.with(|t| t.set(true));
        tf_on();
    }
    let r = f();
    drop(g);
    r
}
/// Simulator code reached from library code is not stepped.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let step = STEPPING.with(|t| t.get()) && BUDGET.with(|b| b.get()) > 0;
    if !step && sites().is_empty() {
        return f();
    }
    struct G(bool, bool);
    impl Drop for G {
        fn drop(&mut self) {
            INLIB.with(|l| l.set(self.1));
            if self.0 {
                STEPPING.with(|t| t.set(true));
                tf_on();
            }
        }
    }
    if step {
        tf_off();
        STEPPING.with(|t| t.set(false));
    }
    let _g = G(step, INLIB.with(|l| l.replace(false)));
    f()
}
/// Step at most that many instructions more (when not stepping to take CPUID over).
pub fn budget(n: u64) {
    BUDGET.with(|b| b.set(if MODE.load(Ordering::Relaxed) == 2 { u64::MAX } else { n }));
}
/// CPUID can only be taken over by single-stepping everything.
pub fn slow() -> bool {
    static SLOW: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *SLOW.get_or_init(|| way() != "CPUID faulting")
}
pub fn stepped() -> u64 {
    COUNT.with(|c| c.get())
}
