//! The output seam: the process's own `write`/`writev`, so that everything the library prints through
//! std's real stdout meets a simulated device; and faulty byte streams for serialised data.
use simcore::ctx::*;
use simcore::rng::*;
use std::cell::Cell;
use std::io::{self, Read, Write};

mod sys {
    #[repr(C)]
    pub struct IoVec {
        pub base: *const u8,
        pub len: usize,
    }
    extern "C" {
        pub fn syscall(n: i64, a: usize, b: usize, c: usize) -> i64;
        pub fn __errno_location() -> *mut i32;
        pub fn open(p: *const core::ffi::c_char, fl: i32, ...) -> i32;
        pub fn ioctl(fd: i32, n: u64, a: *mut core::ffi::c_void) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn setsid() -> i32;
    }
}
pub const T_WRITE: u64 = 20;
pub const T_STREAM: u64 = 21;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dev {
    /// takes everything
    Clean,
    /// short writes, interruptions, hard errors
    Faulty,
    /// swallows what is left after a failure
    Void,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct IoRates {
    pub short: u64,
    pub eintr: u64,
    /// the write call that fails hard (0: none)
    pub hard: u64,
    pub persistent: bool,
}
pub struct Device {
    pub mode: Dev,
    pub rates: IoRates,
    pub buf: Vec<u8>,
    pub failed: Option<&'static str>,
    pub after_failure: u64,
    pub writes: u64,
}
thread_local! { static DEV: Cell<*mut Device> = const { Cell::new(std::ptr::null_mut()) }; }
fn err(e: i32) -> isize {
    unsafe { *sys::__errno_location() = e };
    -1
}
const HARD: &[(i32, &str)] = &[(5, "EIO"), (28, "ENOSPC"), (32, "EPIPE"), (27, "EFBIG"), (11, "EAGAIN"), (0, "write of 0 bytes")];
pub fn errno() -> i32 {
    unsafe { *sys::__errno_location() }
}
pub fn device(d: &mut Device, b: &[u8]) -> isize {
    d.writes += 1;
    match d.mode {
        Dev::Void => return b.len() as isize,
        Dev::Clean => {
            d.buf.extend_from_slice(b);
            return b.len() as isize;
        }
        _ => {}
    }
    if b.is_empty() {
        return 0;
    }
    if d.failed.is_some() {
        d.after_failure += 1;
        if d.rates.persistent {
            return err(5);
        }
    }
    with(|c| {
        c.widx += 1;
        let k = c.widx as u64;
        if d.failed.is_none() && d.rates.hard > 0 && k == d.rates.hard {
            let h = c.dec(T_WRITE, k << 2);
            let (e, n) = HARD[(h >> 40) as usize % HARD.len()];
            let arrived = d.buf.len();
            if c.fires(1000, h, F_IOERR, || format!("{} at write {} ({} bytes arrived)", n, k, arrived)) {
                d.failed = Some(n);
                return if e == 0 { 0 } else { err(e) };
            }
        }
        let h = c.dec(T_WRITE, k << 2 | 2);
        if c.fires(d.rates.eintr, h, F_EINTR, || format!("EINTR at write {}", k)) {
            return err(4);
        }
        let h = c.dec(T_WRITE, k << 2 | 3);
        let mut n = b.len();
        if n > 1 && c.fires(d.rates.short, h, F_SHORTW, || format!("short write {}", k)) {
            n = 1 + (h >> 20) as usize % (n - 1);
        }
        d.buf.extend_from_slice(&b[..n]);
        n as isize
    })
}
fn captured(fd: i32) -> Option<&'static mut Device> {
    if fd != 1 {
        return None;
    }
    let p = DEV.try_with(|d| d.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize {
    if let Some(d) = captured(fd) {
        return simcore::alloc::pause(|| device(d, std::slice::from_raw_parts(b.cast(), n)));
    }
    sys::syscall(1, fd as usize, b as usize, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const sys::IoVec, n: i32) -> isize {
    if let Some(d) = captured(fd) {
        let v = std::slice::from_raw_parts(v, n as usize);
        let f = v.iter().find(|x| x.len > 0);
        return match f {
            Some(x) => simcore::alloc::pause(|| device(d, std::slice::from_raw_parts(x.base, x.len))),
            None => 0,
        };
    }
    sys::syscall(20, fd as usize, v as usize, n as usize) as isize
}
/// Run `f` with this thread's standard output connected to a simulated device. What std still buffers at
/// the end is flushed to the device as well.
pub fn capture<T>(mode: Dev, rates: IoRates, f: impl FnOnce() -> T) -> (T, Device, bool) {
    let mut d = Device { mode, rates, buf: Vec::new(), failed: None, after_failure: 0, writes: 0 };
    DEV.with(|x| x.set(&mut d));
    let r = f();
    let failed_inside = d.failed.is_some();
    if !failed_inside {
        let _ = io::stdout().flush();
    }
    let n = d.buf.len();
    d.mode = Dev::Void;
    let _ = io::stdout().flush();
    debug_assert_eq!(n, d.buf.len());
    DEV.with(|x| x.set(std::ptr::null_mut()));
    (r, d, failed_inside)
}
/// Give the process a terminal of its own, of the given width: termimad asks it for its size.
pub fn terminal(width: u16) -> bool {
    unsafe {
        sys::setsid();
        let m = sys::open(c"/dev/ptmx".as_ptr(), 0o402);
        if m < 0 {
            return false;
        }
        let mut unlock = 0i32;
        if sys::ioctl(m, 0x40045431, (&mut unlock as *mut i32).cast()) != 0 {
            return false;
        }
        let s = sys::ioctl(m, 0x5441, 0o402 as *mut core::ffi::c_void);
        if s < 0 {
            return false;
        }
        let mut w = [50u16, width, 0, 0];
        if sys::ioctl(s, 0x5414, w.as_mut_ptr().cast()) != 0 {
            return false;
        }
        sys::dup2(s, 1) == 1
    }
}

// ------------------------------------------------------------------ streams of serialised data
/// A byte stream that takes what it is given piecemeal, is interrupted, or fails.
pub struct FaultyWriter {
    pub buf: Vec<u8>,
    pub rates: IoRates,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after: u32,
    pub n: u64,
}
impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "still broken"));
        }
        with(|c| {
            let h = c.dec(T_STREAM, self.n << 3);
            if c.fires(self.rates.eintr, h, F_EINTR, || "interrupted write".into()) {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let mut n = b.len();
            let h = c.dec(T_STREAM, self.n << 3 | 1);
            if n > 1 && c.fires(self.rates.short, h, F_SHORTW, || "short write".into()) {
                n = 1 + (h >> 20) as usize % (n - 1);
            }
            if let Some(at) = self.fail_at {
                if self.buf.len() + n > at {
                    let room = at - self.buf.len();
                    if room == 0 {
                        c.stats.faults[F_IOERR] += 1;
                        self.failed = true;
                        return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
                    }
                    n = room;
                }
            }
            self.buf.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub struct FaultyReader<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub rates: IoRates,
    pub fail_at: Option<usize>,
    pub n: u64,
}
impl Read for FaultyReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        with(|c| {
            let h = c.dec(T_STREAM, self.n << 3 | 2);
            if c.fires(self.rates.eintr, h, F_EINTR, || "interrupted read".into()) {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if let Some(at) = self.fail_at {
                if self.pos >= at {
                    c.stats.faults[F_IOERR] += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "device gone"));
                }
            }
            let end = self.fail_at.unwrap_or(self.buf.len()).min(self.buf.len());
            let mut n = b.len().min(end - self.pos);
            let h = c.dec(T_STREAM, self.n << 3 | 3);
            if n > 1 && c.fires(self.rates.short, h, F_SHORTR, || "short read".into()) {
                n = 1 + (h >> 20) as usize % (n - 1);
            }
            b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}
pub fn pick_rates(r: &mut Rng) -> IoRates {
    IoRates { short: [0, 50, 300, 800][r.below(4) as usize], eintr: [0, 20, 200][r.below(3) as usize], hard: 0, persistent: r.pct(50) }
}
