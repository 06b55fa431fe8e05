//! The same program handed a CPUID source that owns something: it is neither Copy nor comparable, every
//! duplicate is made and released by code of its own, making one takes time and may fail.
#[path = "engine.rs"]
pub mod engine;
#[path = "model.rs"]
pub mod model;
#[path = "objs.rs"]
pub mod objs;
use crate::ctx::{duplicate, read};
use crate::{alloc, Direct};
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
use std::collections::BTreeSet;
use std::mem::ManuallyDrop;
use std::sync::Mutex;

struct Book {
    next: u64,
    live: BTreeSet<u64>,
    wrong: Vec<String>,
}
static BOOK: Mutex<Book> = Mutex::new(Book { next: 0, live: BTreeSet::new(), wrong: Vec::new() });
fn book<T>(f: impl FnOnce(&mut Book) -> T) -> T {
    alloc::pause(|| f(&mut BOOK.lock().unwrap()))
}
/// What became of the sources, once everything that was handed one is gone.
pub fn settled() -> Vec<String> {
    book(|b| {
        let mut v = std::mem::take(&mut b.wrong);
        if !b.live.is_empty() {
            v.push(format!("{} of {} copies of the source are never released", b.live.len(), b.next));
        }
        b.live.clear();
        v
    })
}
fn open() -> u64 {
    book(|b| {
        b.next += 1;
        b.live.insert(b.next);
        b.next
    })
}
/// How the source answers: as a type implementing the trait, with or without a one-argument read of its own,
/// or as a closure.
#[derive(Clone, Copy)]
enum Way {
    Both,
    Closure,
}
pub struct OwnedReader {
    inst: u32,
    way: Way,
    id: u64,
    /// memory it owns
    pad: ManuallyDrop<Box<[u32; 8]>>,
}
impl OwnedReader {
    fn check(&self, what: &str) {
        book(|b| {
            if !b.live.contains(&self.id) && b.wrong.len() < 8 {
                b.wrong.push(format!("a copy of the source is {} after it was released", what));
            }
        });
    }
}
impl Clone for OwnedReader {
    fn clone(&self) -> Self {
        self.check("duplicated");
        alloc::pause(|| {
            duplicate(self.inst);
            OwnedReader { inst: self.inst, way: self.way, id: open(), pad: ManuallyDrop::new(Box::new(**self.pad)) }
        })
    }
}
impl Drop for OwnedReader {
    fn drop(&mut self) {
        book(|b| {
            if b.live.remove(&self.id) {
                self.pad[0] = !0;
                unsafe { ManuallyDrop::drop(&mut self.pad) };
            } else if b.wrong.len() < 8 {
                b.wrong.push("a copy of the source is released twice".into());
            }
        });
    }
}
impl CpuIdReader for OwnedReader {
    fn cpuid1(&self, eax: u32) -> CpuIdResult {
        self.check("read");
        let inst = self.inst;
        let f = move |a: u32, c: u32| result(read(inst, a, c));
        match self.way {
            Way::Both => f(eax, 0),
            Way::Closure => f.cpuid1(eax),
        }
    }
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        self.check("read");
        let inst = self.inst;
        let f = move |a: u32, c: u32| result(read(inst, a, c));
        match self.way {
            Way::Both => f(eax, ecx),
            Way::Closure => f.cpuid2(eax, ecx),
        }
    }
}
fn result(r: [u32; 4]) -> CpuIdResult {
    CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
}
pub type R = OwnedReader;
fn make(inst: u32, how: u64) -> CpuId<R> {
    let way = if how & 2 == 0 { Way::Both } else { Way::Closure };
    let r = alloc::pause(|| OwnedReader { inst, way, id: open(), pad: ManuallyDrop::new(Box::new([inst; 8])) });
    if how & 1 == 0 {
        CpuId::with_cpuid_fn(r)
    } else {
        CpuId::with_cpuid_reader(r)
    }
}
fn source(how: u64) -> OwnedReader {
    alloc::pause(|| OwnedReader { inst: 0, way: if how == 0 { Way::Both } else { Way::Closure }, id: open(), pad: ManuallyDrop::new(Box::new([0; 8])) })
}
struct Least;
impl CpuIdReader for Least {
    fn cpuid2(&self, a: u32, c: u32) -> CpuIdResult {
        result(read(0, a, c))
    }
}
impl Clone for Least {
    fn clone(&self) -> Self {
        Least
    }
}
const DIRECT: &[Direct] = &[
    ("cpuid2 of a copied source", true, |a, c| source(0).clone().cpuid2(a, c)),
    ("cpuid1 of a source without one of its own", false, |a, _| Least.cpuid1(a)),
    ("cpuid2 of a closure", true, |a, c| (|a: u32, c: u32| result(read(0, a, c))).clone().cpuid2(a, c)),
    ("cpuid1 of a closure", false, |a, _| (|a: u32, c: u32| result(read(0, a, c))).cpuid1(a)),
    ("cpuid2 of a source", true, |a, c| source(1).cpuid2(a, c)),
    ("cpuid1 of a borrowed closure", false, |a, _| {
        let n = source(0);
        let f = move |a: u32, c: u32| n.cpuid2(a, c);
        fn ask<S: CpuIdReader>(s: S, a: u32) -> CpuIdResult {
            s.clone().cpuid1(a)
        }
        ask(&f, a)
    }),
    ("cpuid2 of a function", true, |a, c| {
        fn f(a: u32, c: u32) -> CpuIdResult {
            result(read(0, a, c))
        }
        (f as fn(u32, u32) -> CpuIdResult).cpuid2(a, c)
    }),
];
