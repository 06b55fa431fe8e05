//! The `cpuid` command as a whole process: its CPUID instructions, its output and its memory are requests to
//! this simulator (simcmd/seam.c is the other end).
use crate::io::*;
use crate::report;
use crate::*;
use std::ffi::OsString;
use std::io::{Read as _, Write as _};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, ExitStatus, Stdio};

mod sys {
    extern "C" {
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn setrlimit(r: i32, v: *const [u64; 2]) -> i32;
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ask {
    Raw,
    Markdown,
    /// explains itself
    Info,
    /// not understood
    Wrong,
}
fn args(h: u64) -> (Ask, Vec<OsString>) {
    let v = |a: &[&str]| a.iter().map(|x| OsString::from(*x)).collect::<Vec<_>>();
    let pick = |l: &[&[&str]]| v(l[(h >> 20) as usize % l.len()]);
    match h % 100 {
        0..=34 => (Ask::Raw, pick(&[&["-f", "raw"], &["--format", "raw"], &["--format=raw"], &["-fraw"], &["-f=raw"]])),
        35..=79 => (Ask::Markdown, pick(&[&[], &[], &["-f", "cli"], &["--format", "cli"], &["--format=cli"], &["-fcli"]])),
        80..=86 => (Ask::Info, pick(&[&["--help"], &["-h"], &["--version"], &["-V"]])),
        _ => {
            let mut a = pick(&[
                &["-f"],
                &["--format"],
                &["-f", "json"],
                &["--format", ""],
                &["-f", "rawcli"],
                &["-f", "cl"],
                &["--format=markdown"],
                &["--bogus"],
                &["-x"],
                &["raw"],
                &["-f", "raw", "extra"],
                &["-f", "cli", "--nothing-like-this"],
            ]);
            if h >> 60 == 0 {
                a = vec!["-f".into(), OsString::from_vec(vec![0x72, 0xff, 0x77])];
            }
            // a text the source has gained may not become a format by itself
            let t = simcore::dict::texts();
            if !t.is_empty() && h >> 56 & 3 == 0 {
                let x = &t[(h >> 32) as usize % t.len()];
                if !x.contains(&0) && x != b"raw" && x != b"cli" {
                    a = vec!["-f".into(), OsString::from_vec(x.clone())];
                }
            }
            (Ask::Wrong, a)
        }
    }
}
pub struct Ran {
    pub status: Option<ExitStatus>,
    pub out: Device,
    pub err: Vec<u8>,
    pub err_failed: bool,
    pub no_memory: bool,
    pub reads: Vec<Read>,
    pub endless: Option<String>,
}
struct Faults {
    io: IoRates,
    /// the allocation that fails, and whether later ones do too
    alloc: Option<(u64, bool)>,
    /// writes to standard error fail
    err: bool,
}
fn target() -> String {
    std::env::var("SIM_TARGET").unwrap_or("target".into())
}
/// Run the command once. The simulated thread serves it until it ends.
fn run(th: &Th, i: u32, a: &[OsString], f: &Faults) -> Result<Ran, String> {
    let h = th.h(i, 7);
    let dir = std::fs::canonicalize(target()).map_err(|e| format!("{}: {}", target(), e))?.join("simcmd");
    let (mut me, it) = UnixStream::pair().map_err(|e| e.to_string())?;
    me.set_read_timeout(Some(std::time::Duration::from_secs(2))).map_err(|e| e.to_string())?;
    let fd = it.as_raw_fd();
    let mut c = Command::new(dir.join("release/cpuid"));
    c.args(a).env_clear().env("LD_PRELOAD", dir.join("seam.so")).env("SIM_SITES", dir.join("sites")).env("SIM_RANDOM", (h | 1).to_string());
    if let Some((n, _)) = f.alloc {
        c.env("SIM_ALLOC", n.to_string());
    }
    for (k, (n, v)) in [("TERM", "dumb"), ("TERM", "xterm-256color"), ("NO_COLOR", "1"), ("LANG", "de_DE.UTF-8"), ("RUST_BACKTRACE", "0"), ("COLUMNS", "7"), ("CLICOLOR_FORCE", "1")].iter().enumerate() {
        if h >> (8 + k) & 1 == 1 {
            c.env(n, v);
        }
    }
    // nor may the environment decide what is printed
    for (k, x) in simcore::dict::texts().iter().enumerate() {
        let e = mix(h, 0xe0 + k as u64);
        if e % 3 == 0 && !x.contains(&0) && !x.contains(&b'=') && !x.starts_with(b"LD_") && !x.starts_with(b"SIM_") {
            c.env(OsString::from_vec(x.clone()), ["1", "", "0", "raw", "cli"][(e >> 8) as usize % 5]);
        }
    }
    c.stdin(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            sys::setrlimit(0, &[4, 4]);
            sys::setrlimit(4, &[0, 0]);
            if sys::dup2(fd, 200) != 200 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut p = c.spawn().map_err(|e| format!("the command cannot be started: {}", e))?;
    drop(it);
    let mut r = Ran {
        status: None,
        out: Device { mode: Dev::Faulty, rates: f.io, buf: Vec::new(), failed: None, after_failure: 0, writes: 0 },
        err: Vec::new(),
        err_failed: false,
        no_memory: false,
        reads: Vec::new(),
        endless: None,
    };
    let key = th.key;
    with(|c| c.begin_op(key, 0));
    let mut quiet = 0;
    // everything the command says, in order
    let mut fill = |me: &mut UnixStream, b: &mut [u8]| -> Result<bool, String> {
        let mut n = 0;
        while n < b.len() {
            match me.read(&mut b[n..]) {
                Ok(0) => return Ok(false),
                Ok(k) => n += k,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    quiet += 1;
                    if quiet > 60 {
                        return Err("the command does nothing any more and does not end".into());
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return Ok(false),
            }
        }
        Ok(true)
    };
    let mut serve = || -> Result<(), String> {
        let mut q = [0u8; 16];
        while fill(&mut me, &mut q)? {
            let w = |k: usize| u32::from_le_bytes(q[4 * k..4 * k + 4].try_into().unwrap());
            let mut data = vec![0u8; w(3) as usize];
            if !fill(&mut me, &mut data)? {
                break;
            }
            let a: [u32; 4] = match w(0) {
                1 => {
                    if with(|c| c.reads.len() as u32 >= c.cfg.read_cap) {
                        return Err(format!("the command goes on executing CPUID ({} times)", with(|c| c.reads.len())));
                    }
                    simcore::ctx::read(0, w(1), w(2))
                }
                2 if w(1) == 2 => {
                    if f.err {
                        r.err_failed = true;
                        with(|c| c.stats.faults[F_IOERR] += 1);
                        [u32::MAX, 5, 0, 0]
                    } else {
                        r.err.extend_from_slice(&data);
                        [data.len() as u32, 0, 0, 0]
                    }
                }
                2 => {
                    let n = device(&mut r.out, &data);
                    [n as i32 as u32, if n < 0 { errno() as u32 } else { 0 }, 0, 0]
                }
                3 => {
                    r.no_memory = true;
                    let once = f.alloc.map_or(false, |a| a.1);
                    with(|c| {
                        c.stats.faults[F_ALLOC] += 1;
                        c.note(format!("FAULT failing allocation in the command ({})", if once { "once" } else { "from here on" }));
                    });
                    [once as u32, 0, 0, 0]
                }
                k => return Err(format!("harness: unknown request {}", k)),
            };
            let mut b = [0u8; 16];
            for k in 0..4 {
                b[4 * k..4 * k + 4].copy_from_slice(&a[k].to_le_bytes());
            }
            if me.write_all(&b).is_err() {
                break;
            }
        }
        Ok(())
    };
    if let Err(e) = serve() {
        let _ = p.kill();
        if e.starts_with("harness") {
            let _ = p.wait();
            return Err(e);
        }
        r.endless = Some(e);
    }
    drop(me);
    let st = p.wait().map_err(|e| e.to_string())?;
    if st.code() == Some(97) {
        return Err("the command lost its simulator".into());
    }
    if st.signal() == Some(24) || st.signal() == Some(9) {
        r.endless.get_or_insert("the command goes on computing".into());
    }
    r.status = Some(st);
    r.reads = with(|c| std::mem::take(&mut c.reads));
    with(|c| c.note(format!("the command printed {} bytes in {} writes, executed CPUID {} times, said {:?}, ended with {:?}{}", r.out.buf.len(), r.out.writes, r.reads.len(), String::from_utf8_lossy(&r.err[..r.err.len().min(120)]), st, r.out.failed.map_or(String::new(), |e| format!(", its output failed: {}", e)))));
    Ok(r)
}
fn show(a: &[OsString]) -> String {
    a.iter().fold("cpuid".to_string(), |s, x| format!("{} {:?}", s, x))
}
pub fn op(th: &mut Th, i: u32) {
    let (ask, a) = args(th.h(i, 1));
    let cmd = show(&a);
    with(|c| {
        c.tame = if ask == Ask::Markdown { 1 } else { 3 };
        c.stats.probe(match ask {
            Ask::Raw => "commands asked for the raw report",
            Ask::Markdown => "commands asked for the Markdown report",
            Ask::Info => "commands asked for help or version",
            Ask::Wrong => "commands with wrong arguments",
        });
    });
    th.begin(i, 1);
    with(|c| c.note(format!("runs {}", cmd)));
    let home = with(|c| (c.core.clone(), c.epoch.clone()));
    let mut go = |th: &mut Th, f: &Faults| -> Option<Ran> {
        with(|c| {
            c.core = home.0.clone();
            c.epoch = home.1.clone();
        });
        match run(th, i, &a, f) {
            Ok(r) => Some(r),
            Err(e) => {
                th.harness.get_or_insert(format!("{}: {}", cmd, e));
                None
            }
        }
    };
    let io = IoRates { hard: 0, ..th.plan.io };
    let z = th.h(i, 3);
    let err = ask == Ask::Wrong && z % 4 == 0;
    let Some(clean) = go(th, &Faults { io, alloc: None, err }) else { return };
    let st = clean.status.unwrap();
    with(|c| c.stats.checks += 2);
    th.obs.push(Obs { tid: th.tid, op: th.key, val: bytes_hash(&clean.out.buf) ^ st.into_raw() as u64, reads: reads_hash(&clean.reads), text: String::from_utf8_lossy(&clean.out.buf[..clean.out.buf.len().min(80)]).into_owned() });
    if let Some(e) = &clean.endless {
        return th.viol("C16", format!("{}: {}", cmd, e));
    }
    let said = String::from_utf8_lossy(&clean.err).into_owned();
    let said: String = said.chars().take(200).collect();
    match ask {
        Ask::Info => {
            if !st.success() || clean.out.buf.is_empty() {
                th.viol("C16", format!("{} ends with {} after printing {} bytes", cmd, st, clean.out.buf.len()));
            }
            return;
        }
        Ask::Wrong => {
            th.state(&[9, bytes_hash(cmd.as_bytes()), err as u64]);
            if st.success() {
                th.viol("C16", format!("{} is not understood and yet reported as success", cmd));
            } else if !clean.out.buf.is_empty() {
                th.viol("C16", format!("{} is not understood and yet prints {:?}", cmd, String::from_utf8_lossy(&clean.out.buf[..clean.out.buf.len().min(60)])));
            } else if clean.err.is_empty() && !clean.err_failed {
                th.viol("C16", format!("{} fails without a word", cmd));
            }
            return;
        }
        _ => {}
    }
    if !st.success() {
        return th.viol("C16", format!("{} fails although nothing went wrong: {}: {}", cmd, st, said));
    }
    let text = &clean.out.buf;
    if ask == Ask::Raw {
        if let Some(e) = raw_wrong(text, &clean.reads) {
            return th.viol("C16", format!("{}: {}", cmd, e));
        }
    } else {
        if text.is_empty() || text.starts_with(b"CpuIdResult") {
            return th.viol("C16", format!("{} prints no Markdown report", cmd));
        }
        if th.plan.width >= 4000 {
            if let Some(e) = says(&clean, text) {
                return th.viol("C16", format!("{}: {}", cmd, e));
            }
        }
    }
    // a processor that answers the same question always alike: the report is the one the library makes of it
    if with(|c| c.cfg.keymode == KeyMode::Static) {
        with(|c| {
            c.core = home.0.clone();
            c.epoch = home.1.clone();
            c.stats.checks += 1;
            c.stats.probe("command reports compared with the library's own");
        });
        let rd = SimReader { inst: 0 };
        let lib = th.print(Dev::Clean, IoRates::default(), move || match ask {
            Ask::Raw => raw_cpuid::display::raw(rd),
            _ => raw_cpuid::display::markdown(CpuId::with_cpuid_reader(rd)),
        });
        let (x, y) = (report::strip_ansi(text), report::strip_ansi(&lib.dev.buf));
        if matches!(lib.res, Res::Ok(_)) && x != y {
            let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at..(at + 60).min(s.len())]).into_owned();
            return th.viol("C16", format!("{} does not print the library's report of this processor: at byte {} of {} '{}' instead of '{}'", cmd, at, y.len(), cut(&x), cut(&y)));
        }
    }
    // the same once more, with an output that breaks or memory that runs out
    let mut f = Faults { io: th.plan.io, alloc: None, err: z >> 50 & 3 == 0 };
    if z >> 8 & 3 == 0 {
        f.alloc = Some(((z >> 16) % (1 << (1 + (z >> 40) % 13)), z >> 58 & 1 == 1));
    } else {
        f.io.hard = 1 + (z >> 16) % (1 << (1 + (z >> 40) % 13));
    }
    let Some(bad) = go(th, &f) else { return };
    let st = bad.status.unwrap();
    let got = &bad.out.buf;
    with(|c| c.stats.checks += 2);
    th.state(&[ask as u64, bad.out.failed.map_or(0, |e| bytes_hash(e.as_bytes())), bad.no_memory as u64, (got.len() as u64).leading_zeros() as u64, st.into_raw() as u64]);
    th.obs.push(Obs { tid: th.tid, op: th.key, val: bytes_hash(got) ^ st.into_raw() as u64, reads: reads_hash(&bad.reads), text: String::new() });
    let what = match (bad.out.failed, bad.no_memory) {
        (Some(e), _) => format!("its output failed ({})", e),
        (_, true) => "memory ran out".into(),
        _ => "nothing went wrong".to_string(),
    };
    if let Some(e) = &bad.endless {
        return th.viol("C16", format!("{}, after {}: {}", cmd, what, e));
    }
    let at = got.iter().zip(text.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(text.len()));
    if at != got.len() {
        th.viol("C16", format!("what {} printed when {} is no prefix of its report: from byte {} on '{}'", cmd, what, at, String::from_utf8_lossy(&got[at..(at + 60).min(got.len())])));
    } else if st.success() && got.len() != text.len() {
        th.viol("C16", format!("{} reports success although {}: {} of {} bytes arrived", cmd, what, got.len(), text.len()));
    } else if !st.success() && bad.out.failed.is_none() && !bad.no_memory {
        th.viol("C16", format!("{} fails over a slow or interrupted output: {}", cmd, st));
    }
}
/// Does the Markdown report say what the queries say, whichever deliveries construction rested on?
fn says(r: &Ran, text: &[u8]) -> Option<String> {
    let all = |l: u32| -> Vec<[u32; 4]> {
        let mut v: Vec<[u32; 4]> = Vec::new();
        for x in r.reads.iter().filter(|x| x.leaf == l && x.sub == 0) {
            if !v.contains(&x.regs) {
                v.push(x.regs)
            }
        }
        v
    };
    let (z, e) = (all(0), all(0x8000_0000));
    if z.is_empty() {
        return Some("leaf 0 was not asked for".into());
    }
    let e = if e.is_empty() { vec![[0; 4]] } else { e };
    let mut why = None;
    for l0 in &z {
        for le in &e {
            let v = report::check(&MCpu::from(0, *l0, *le), &r.reads, text);
            with(|c| c.stats.checks += v.checks);
            match v.errors.first() {
                None => return None,
                Some(x) => {
                    why.get_or_insert(x.clone());
                }
            }
        }
    }
    why
}
