use simcore::ctx::*;
use simcore::engine::{self, Outcome, Viol};
use simcore::proc::*;
use simcore::{nat, native, own};

#[global_allocator]
static ALLOC: simcore::alloc::FailingAlloc = simcore::alloc::FailingAlloc;

fn exec(prop: &'static str, seed: u64, mask: Mask, tracing: bool) -> Outcome {
    if mask.native {
        native::take_over();
        return nat::engine::run(prop, seed, mask, tracing);
    }
    if mask.own {
        let mut o = own::engine::run(prop, seed, mask, tracing);
        o.viols.extend(own::settled().into_iter().map(|msg| Viol { prop, tid: 0, op: 0, msg }));
        return o;
    }
    if prop == "C10" {
        native::prepare_stepping();
        native::break_at_sites();
    }
    engine::run(prop, seed, mask, tracing)
}
fn variants(prop: &'static str, seed: u64) -> Vec<(String, Mask)> {
    let n = engine::gen(prop, seed).0.threads;
    if prop == "C14" {
        return vec![("executing CPUID".to_string(), Mask { native: true, ..Default::default() }), ("handed the same replies".to_string(), Mask::default())];
    }
    if prop == "C19" {
        return vec![("handed a source that owns something".to_string(), Mask { own: true, ..Default::default() }), ("handed the same replies by a plain source".to_string(), Mask { no_panic: true, ..Default::default() })];
    }
    let mut v = vec![("as simulated".to_string(), Mask::default())];
    match prop {
        "C05" => v.push(("the same history without the source's failures".into(), Mask { no_panic: true, ..Default::default() })),
        "C10" => {
            for t in 0..n {
                v.push((format!("thread {} alone", t), Mask { solo: Some(t), ..Default::default() }));
            }
            v.push(("without re-entrancy".into(), Mask { no_reenter: true, ..Default::default() }));
        }
        _ => {}
    }
    v
}
fn viol(prop: &'static str, msg: String) -> Option<Viol> {
    Some(Viol { prop, tid: 0, op: 0, msg })
}
fn diff(prop: &'static str, what: &str, a: &Outcome, b: &Outcome, tid: Option<u32>, reads: bool) -> Option<Viol> {
    let f = |o: &Outcome| -> Vec<engine::Obs> { o.obs.iter().filter(|x| tid.map_or(true, |t| t == x.tid)).cloned().collect() };
    let (a, b) = (f(a), f(b));
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        let same = match (x, y) {
            (Some(x), Some(y)) => x.tid == y.tid && x.op == y.op && x.val == y.val && (!reads || x.reads == y.reads),
            _ => false,
        };
        if !same {
            let d = |o: Option<&engine::Obs>| o.map_or("nothing".to_string(), |o| format!("thread {} op {}.{}: {} (value {:x}, reads {:x})", o.tid, o.op >> 8, o.op & 255, o.text, o.val, o.reads));
            let o = x.or(y).unwrap();
            return Some(Viol { prop, tid: o.tid, op: o.op, msg: format!("{}: observed {}; {} {}", what, d(x), "expected", d(y)) });
        }
    }
    None
}
fn judge(prop: &'static str, ends: &[(String, End)]) -> Option<Viol> {
    if let End::Done(o) = &ends[0].1 {
        if let Some(v) = o.viols.iter().find(|v| v.prop == prop) {
            return Some(v.clone());
        }
    }
    match prop {
        "C06" => match &ends[0].1 {
            End::Hang(h) => viol(prop, format!("hang: {}", h)),
            End::Crash(h) => viol(prop, format!("crash: {}", h)),
            _ => None,
        },
        "C05" => match (&ends[0].1, &ends[1].1) {
            (End::Done(a), End::Done(b)) => diff(prop, "after failures of the source", a, b, None, false),
            (End::Hang(h), End::Done(_)) | (End::Crash(h), End::Done(_)) => viol(prop, format!("after failures of the source: {}", h)),
            _ => None,
        },
        "C14" => match (&ends[0].1, &ends[1].1) {
            (End::Done(a), End::Done(b)) => match b.viols.iter().find(|v| v.prop == prop) {
                Some(v) => Some(v.clone()),
                None => diff(prop, "executing CPUID itself", a, b, None, true),
            },
            // operations without end are cut short only when the replies come through a reader
            (End::Hang(h), End::Done(b)) | (End::Crash(h), End::Done(b)) if !b.stats.probes.contains_key(engine::ENDLESS) => viol(prop, format!("executing CPUID itself: {}", h)),
            _ => None,
        },
        "C19" => match (&ends[0].1, &ends[1].1) {
            (End::Done(a), End::Done(b)) => diff(prop, "with a source that owns something", a, b, None, a.stats.faults[F_PANIC] + a.stats.faults[F_CLONE] == 0),
            (End::Hang(h), End::Done(_)) | (End::Crash(h), End::Done(_)) => viol(prop, format!("with a source that owns something: {}", h)),
            _ => None,
        },
        "C10" => match &ends[0].1 {
            End::Done(a) => {
                for (n, e) in &ends[1..] {
                    if let End::Done(b) = e {
                        let t = n.strip_prefix("thread ").and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok());
                        if let Some(v) = diff(prop, &format!("compared with {}", n), a, b, t, true) {
                            return Some(v);
                        }
                    }
                }
                None
            }
            End::Hang(h) | End::Crash(h) => {
                // is it the threads' interplay (or re-entrancy), or does a thread alone fail as well?
                if ends[1..ends.len() - 1].iter().all(|(_, e)| matches!(e, End::Done(_))) || ends[1..].iter().any(|(n, e)| n == "without re-entrancy" && matches!(e, End::Done(_))) {
                    viol(prop, format!("used from several threads: {}", h))
                } else {
                    None
                }
            }
        },
        _ => None,
    }
}
fn describe(prop: &'static str, seed: u64) -> String {
    let (c, p) = engine::gen(prop, seed);
    format!("{} thread(s), {} operations each, {} shared objects, replies {:?}, rates/1000 {:?}, machines {:?}", c.threads, p.nops, p.shared, c.keymode, c.rates, c.machines)
}
fn rule(prop: &'static str) -> String {
    let v = match prop {
        "C05" => "executed twice, with and without the source's failures; histories compared",
        "C14" => "executed twice, with the library executing CPUID itself (the instruction taken over by the simulated processor) and with the library handed the same replies; histories compared",
        "C19" => "executed twice, with a source that owns something and fails to answer or to be copied, and with a plain source that does not; histories compared, copies of the source accounted for",
        "C10" => "executed concurrently, then every thread alone and without re-entrancy in fresh processes; histories compared",
        _ => "checked operation by operation",
    };
    format!("one case = one simulated run (random program of library calls on 1-5 simulated threads against two random machines under a seeded scheduler and fault mix), {}; non-trivial = at least one fault or thread switch fired and at least one oracle was evaluated; distinct = different schedule, fault counts, operation and read counts", v)
}
fn main() {
    engine::install_hook();
    if native::slow() {
        LIMIT.store(60, std::sync::atomic::Ordering::Relaxed);
    }
    let s = Suite {
        name: env!("CARGO_PKG_NAME"),
        exec,
        variants,
        judge,
        props: &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C13", "C14", "C17", "C18", "C19"],
        describe,
        rule,
        real: if cfg!(debug_assertions) { "raw-cpuid as built from /repo (default features, overflow checks on): constructor, all queries, sub-queries, accessors, iterators, Debug/Display; real OS threads, one released at a time" } else { "raw-cpuid as built from /repo (features std, display and serialize, optimised, no overflow checks): constructor, all queries, sub-queries, accessors, iterators, Debug/Display; real OS threads, one released at a time" },
        stub: "CPUID source (simulated machines behind CpuIdReader), thread scheduler, clock, formatting sinks, allocator wrapper",
    };
    std::process::exit(cli(&s));
}
