//! Deterministic simulation of programs that use raw-cpuid: simulated machines behind the CpuIdReader seam
//! (or behind the CPUID instruction itself), simulated caller threads, injected faults, and a reference
//! model. See /verif/DESIGN.md.
#![allow(deprecated)]
pub mod alloc;
pub mod base;
pub mod ctx;
pub mod dict;
pub mod engine;
pub mod model;
pub mod native;
pub mod objs;
pub mod proc;
pub mod rng;
pub mod text;
pub mod val;
pub mod world;

use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
type Direct = (&'static str, bool, fn(u32, u32) -> CpuIdResult);

/// The program handed a CPUID source.
pub type R = ctx::SimReader;
fn make(inst: u32, _how: u64) -> CpuId<R> {
    CpuId::with_cpuid_reader(ctx::SimReader { inst })
}
const DIRECT: &[Direct] = &[
    ("cpuid_count", true, |a, c| ctx::SimReader { inst: 0 }.cpuid2(a, c)),
    ("cpuid!(leaf)", false, |a, _| ctx::SimReader { inst: 0 }.cpuid1(a)),
    ("cpuid!(leaf, sub-leaf)", true, |a, c| ctx::SimReader { inst: 0 }.cpuid2(a, c)),
    ("reader.cpuid1", false, |a, _| ctx::SimReader { inst: 0 }.cpuid1(a)),
    ("reader.cpuid2", true, |a, c| ctx::SimReader { inst: 0 }.cpuid2(a, c)),
    ("cpuid!(signed leaf)", false, |a, _| ctx::SimReader { inst: 0 }.cpuid1(a)),
    ("cpuid!(wide leaf, wide sub-leaf)", true, |a, c| ctx::SimReader { inst: 0 }.cpuid2(a, c)),
];

#[cfg(feature = "native")]
pub mod nat;
#[cfg(feature = "native")]
pub mod own;
