//! The same program executing the CPUID instruction through the library's own reader.
#[path = "engine.rs"]
pub mod engine;
#[path = "model.rs"]
pub mod model;
#[path = "objs.rs"]
pub mod objs;
use crate::Direct;
use raw_cpuid::{cpuid, native_cpuid, CpuId, CpuIdReader, CpuIdReaderNative};
pub type R = CpuIdReaderNative;
fn make(_inst: u32, how: u64) -> CpuId<R> {
    match how % 4 {
        0 => CpuId::new(),
        1 => CpuId::default(),
        2 => CpuId::with_cpuid_fn(CpuIdReaderNative),
        _ => CpuId::with_cpuid_reader(CpuIdReaderNative),
    }
}
const DIRECT: &[Direct] = &[
    ("cpuid_count", true, |a, c| native_cpuid::cpuid_count(a, c)),
    ("cpuid!(leaf)", false, |a, _| cpuid!(a)),
    ("cpuid!(leaf, sub-leaf)", true, |a, c| cpuid!(a, c)),
    ("reader.cpuid1", false, |a, _| CpuIdReaderNative.cpuid1(a)),
    ("reader.cpuid2", true, |a, c| CpuIdReaderNative.clone().cpuid2(a, c)),
    ("cpuid!(signed leaf)", false, |a, _| {
        let mut n = 0;
        let r = cpuid!({
            n += 1;
            a as i32
        });
        assert_eq!(n, 1, "evaluations of the argument");
        r
    }),
    ("cpuid!(wide leaf, wide sub-leaf)", true, |a, c| {
        let mut n = 0;
        let r = cpuid!(
            {
                n += 1;
                a as u64
            },
            {
                n += 1;
                c as usize
            }
        );
        assert_eq!(n, 2, "evaluations of the arguments");
        r
    }),
];
