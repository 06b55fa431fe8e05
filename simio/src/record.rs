//! C09: recorded CPUID data through faulty byte streams, and replay of recorded histories.
use crate::compact;
use crate::io::*;
use crate::*;
use raw_cpuid::CpuIdResult;
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

type Rec = (u32, u32, CpuIdResult);
fn res(r: [u32; 4]) -> CpuIdResult {
    CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
}
fn arr(r: &CpuIdResult) -> [u32; 4] {
    [r.eax, r.ebx, r.ecx, r.edx]
}
fn plain(v: &[Rec]) -> Vec<(u32, u32, [u32; 4])> {
    v.iter().map(|x| (x.0, x.1, arr(&x.2))).collect()
}
fn word(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << r.below(32),
        3 => r.below(10) as u32,
        4 => 0x7fff_ffff + r.below(3) as u32,
        _ => r.next() as u32,
    }
}
pub fn op(t: &mut Th, i: u32) {
    with(|c| c.tame = 1);
    match t.h(i, 7) % 4 {
        0 | 1 => values(t, i),
        2 => damage(t, i),
        _ => history(t, i),
    }
}
/// Serialise; a stream that failed must have been reported, one that did not must hold everything.
fn store<T: Serialize>(t: &mut Th, v: &T, io: IoRates, fail_at: Option<usize>, pretty: bool) -> Option<Vec<u8>> {
    let whole = if pretty { serde_json::to_vec_pretty(v) } else { serde_json::to_vec(v) }.expect("harness: JSON");
    let mut w = FaultyWriter { buf: Vec::new(), rates: io, fail_at, failed: false, after: 0, n: 0 };
    let r = guard(false, || if pretty { serde_json::to_writer_pretty(&mut w, v) } else { serde_json::to_writer(&mut w, v) });
    with(|c| c.stats.checks += 1);
    let r = match r {
        Res::Ok(r) => r,
        Res::Panic(m) => {
            t.viol("C09", format!("serialising panics: {}", m));
            return None;
        }
        _ => return None,
    };
    if !whole.starts_with(&w.buf) {
        t.viol("C09", "the stream holds something else than was serialised".into());
    }
    if w.failed {
        with(|c| c.stats.probe("failing sinks"));
        if r.is_ok() {
            t.viol("C09", format!("serialising reports success although the stream failed after {} of {} bytes", w.buf.len(), whole.len()));
        }
        if w.after > 0 {
            t.viol("C09", "serialising went on writing after the stream had failed".into());
        }
        return None;
    }
    match r {
        Err(e) => {
            t.viol("C09", format!("serialising over a slow or interrupted stream fails: {}", e));
            None
        }
        Ok(()) if w.buf != whole => {
            t.viol("C09", format!("only {} of {} bytes were written, without an error", w.buf.len(), whole.len()));
            None
        }
        Ok(()) => Some(w.buf),
    }
}
fn load<'a, T: for<'d> Deserialize<'d>>(t: &mut Th, b: &'a [u8], io: IoRates, fail_at: Option<usize>) -> Option<Result<T, serde_json::Error>> {
    let rd = FaultyReader { buf: b, pos: 0, rates: io, fail_at, n: 0 };
    with(|c| c.stats.checks += 1);
    match guard(false, || serde_json::from_reader::<_, T>(rd)) {
        Res::Ok(r) => Some(r),
        Res::Panic(m) => {
            t.viol("C09", format!("deserialising panics: {}", m));
            None
        }
        _ => None,
    }
}
fn values(t: &mut Th, i: u32) {
    let mut r = Rng(t.h(i, 1));
    t.begin(i, 1);
    let inst = r.below(2) as u32;
    let v: Vec<Rec> = (0..1 + r.below(12))
        .map(|_| {
            let leaf = [0, 1, 4, 7, 0xd, 0x8000_0002, word(&mut r)][r.below(7) as usize];
            let regs = if r.pct(50) { [word(&mut r), word(&mut r), word(&mut r), word(&mut r)] } else { read(inst, leaf, 0) };
            (leaf, word(&mut r), res(regs))
        })
        .collect();
    let p = plain(&v);
    let io = pick_rates(&mut r);
    let pretty = r.pct(30);
    // directly
    let fail_at = if r.pct(25) { Some(r.below(1 + 60 * v.len() as u64) as usize) } else { None };
    let Some(b) = store(t, &v, io, fail_at, pretty) else { return };
    t.state(&[1, v.len() as u64, pretty as u64, io.short, io.eintr]);
    t.obs.push(Obs { tid: t.tid, op: t.key, val: bytes_hash(&b), reads: 0, text: String::new() });
    // intact
    match load::<Vec<Rec>>(t, &b, io, None) {
        Some(Ok(x)) if plain(&x) != p => t.viol("C09", format!("{:x?} came back as {:x?}", p, plain(&x))),
        Some(Err(e)) => t.viol("C09", format!("a complete record delivered piecemeal does not load: {}", e)),
        _ => {}
    }
    // the stream breaks off, or fails
    let cut = r.below(b.len() as u64) as usize;
    with(|c| c.stats.faults[F_TRUNC] += 1);
    if let Some(Ok(x)) = load::<Vec<Rec>>(t, &b[..cut], io, None) {
        t.viol("C09", format!("a record cut off after {} of {} bytes loads as {:x?}", cut, b.len(), plain(&x)));
    }
    if let Some(Ok(x)) = load::<Vec<Rec>>(t, &b, io, Some(cut)) {
        t.viol("C09", format!("a stream failing after {} of {} bytes loads as {:x?}", cut, b.len(), plain(&x)));
    }
    // one record after the other: the complete ones arrive, in order, then the failure
    let mut s = Vec::new();
    for x in &v {
        s.extend(serde_json::to_vec(&x.2).expect("harness: JSON"));
        s.push(b'\n');
    }
    let cut = r.below(s.len() as u64 + 1) as usize;
    let got: Vec<Result<CpuIdResult, _>> = serde_json::Deserializer::from_reader(FaultyReader { buf: &s[..cut], pos: 0, rates: io, fail_at: None, n: 1 << 40 }).into_iter().collect();
    let whole = s[..cut].iter().filter(|c| **c == b'}').count();
    let ok: Vec<[u32; 4]> = got.iter().filter_map(|x| x.as_ref().ok()).map(arr).collect();
    if ok != p.iter().map(|x| x.2).take(whole).collect::<Vec<_>>() {
        t.viol("C09", format!("{} complete records in the stream, loaded: {:x?}", whole, ok));
    }
    compact(t, &mut r, &v, io);
    // other shapes a format may have: positional, keyed in any order, a value tree
    for x in &v {
        let a = arr(&x.2);
        let seq: SeqDeserializer<_, serde::de::value::Error> = SeqDeserializer::new(a.into_iter());
        match CpuIdResult::deserialize(seq) {
            Ok(y) if arr(&y) == a => {}
            Ok(y) => t.viol("C09", format!("{:x?} stored by position loads as {:x?}", a, arr(&y))),
            Err(e) => t.viol("C09", format!("{:x?} stored by position does not load: {}", a, e)),
        }
        let mut kv = vec![("eax", a[0]), ("ebx", a[1]), ("ecx", a[2]), ("edx", a[3])];
        for k in (1..4).rev() {
            kv.swap(k, r.below(k as u64 + 1) as usize);
        }
        let map: MapDeserializer<_, serde::de::value::Error> = MapDeserializer::new(kv.clone().into_iter());
        match CpuIdResult::deserialize(map) {
            Ok(y) if arr(&y) == a => {}
            Ok(y) => t.viol("C09", format!("{:x?} loads as {:x?}", kv, arr(&y))),
            Err(e) => t.viol("C09", format!("{:x?} does not load: {}", kv, e)),
        }
        // positional streams that end early
        let n = r.below(4) as usize;
        let seq: SeqDeserializer<_, serde::de::value::Error> = SeqDeserializer::new(a.into_iter().take(n));
        if let Ok(y) = CpuIdResult::deserialize(seq) {
            t.viol("C09", format!("{} of 4 registers load as {:x?}", n, arr(&y)));
        }
        let map: MapDeserializer<_, serde::de::value::Error> = MapDeserializer::new(kv[..n].to_vec().into_iter());
        if let Ok(y) = CpuIdResult::deserialize(map) {
            t.viol("C09", format!("{:x?} alone load as {:x?}", &kv[..n], arr(&y)));
        }
        let tree = serde_json::to_value(&x.2).expect("harness: JSON value");
        for (k, n) in ["eax", "ebx", "ecx", "edx"].iter().enumerate() {
            if tree.get(n).and_then(|v| v.as_u64()) != Some(a[k] as u64) {
                t.viol("C09", format!("{:x?} is stored with {} = {:?}", a, n, tree.get(n)));
            }
        }
        match serde_json::from_value::<CpuIdResult>(tree) {
            Ok(y) if arr(&y) == a => {}
            o => t.viol("C09", format!("{:x?} through a value tree gives {:x?}", a, o.map(|y| arr(&y)))),
        }
        with(|c| c.stats.checks += 6);
    }
}
/// The same values in a format that stores neither names nor types and is not meant for humans.
fn compact(t: &mut Th, r: &mut Rng, v: &[Rec], io: IoRates) {
    let p = plain(v);
    let v = v.to_vec();
    let mut whole = compact::Out(Vec::new());
    match guard(false, || v.serialize(&mut whole)) {
        Res::Ok(Ok(())) => {}
        Res::Ok(Err(e)) => return t.viol("C09", format!("{:x?} cannot be stored in a compact format: {}", p, e)),
        Res::Panic(m) => return t.viol("C09", format!("serialising panics: {}", m)),
        _ => return,
    }
    let whole = whole.0;
    let fail_at = if r.pct(25) { Some(r.below(1 + whole.len() as u64) as usize) } else { None };
    let mut w = compact::Out(FaultyWriter { buf: Vec::new(), rates: io, fail_at, failed: false, after: 0, n: 1 << 20 });
    let said = match guard(false, || v.serialize(&mut w)) {
        Res::Ok(r) => r.is_ok(),
        Res::Panic(m) => return t.viol("C09", format!("serialising panics: {}", m)),
        _ => return,
    };
    let w = w.0;
    with(|c| c.stats.checks += 5);
    if !whole.starts_with(&w.buf) || said && w.buf.len() < whole.len() {
        return t.viol("C09", format!("{} bytes stored in a compact format, {} arrived, which do not match, without an error", whole.len(), w.buf.len()));
    }
    if said == w.failed || w.after > 0 {
        return t.viol("C09", format!("a compact format over a stream that {}: serialising {}", if w.failed { "failed" } else { "was merely slow" }, if said { "reports success" } else { "fails or goes on writing" }));
    }
    let cut = r.below(whole.len() as u64) as usize;
    with(|c| c.stats.faults[F_TRUNC] += 1);
    for (b, fail, must) in [(&whole[..], None, true), (&whole[..cut], None, false), (&whole[..], Some(cut), false)] {
        let mut rd = compact::In(FaultyReader { buf: b, pos: 0, rates: io, fail_at: fail, n: 2 << 20 });
        let got = match guard(false, || Vec::<Rec>::deserialize(&mut rd)) {
            Res::Ok(g) => g,
            Res::Panic(m) => return t.viol("C09", format!("deserialising panics: {}", m)),
            _ => return,
        };
        match got {
            Ok(x) if !must => return t.viol("C09", format!("a compact record of which {} of {} bytes arrive loads as {:x?}", cut, whole.len(), plain(&x))),
            Ok(x) if plain(&x) != p => return t.viol("C09", format!("{:x?} came back from a compact format as {:x?}", p, plain(&x))),
            Err(e) if must => return t.viol("C09", format!("a complete compact record delivered piecemeal does not load: {}", e)),
            _ => {}
        }
    }
}
/// What a damaged single record spells, if it still spells one: Some(Ok(values)) / Some(Err) = must not load.
fn spelled(b: &[u8]) -> Option<Result<[u32; 4], String>> {
    let v: serde_json::Value = match serde_json::from_slice(b) {
        Ok(v) => v,
        Err(_) => return None,
    };
    let names = ["eax", "ebx", "ecx", "edx"];
    let num = |v: Option<&serde_json::Value>| v.and_then(|v| v.as_u64()).filter(|v| *v <= u32::MAX as u64).map(|v| v as u32);
    let mut out = [0; 4];
    match &v {
        serde_json::Value::Object(m) => {
            let text = String::from_utf8_lossy(b);
            if m.len() > 4 || text.matches(':').count() != m.len() || text.contains('\\') {
                return None; // unknown or repeated keys: may load or not
            }
            for (i, n) in names.iter().enumerate() {
                match num(m.get(*n)) {
                    Some(x) => out[i] = x,
                    None => return Some(Err(format!("no register value for {}", n))),
                }
            }
            Some(Ok(out))
        }
        serde_json::Value::Array(a) => {
            if a.len() != 4 {
                return Some(Err(format!("{} elements", a.len())));
            }
            for i in 0..4 {
                match num(a.get(i)) {
                    Some(x) => out[i] = x,
                    None => return Some(Err("not a register value".into())),
                }
            }
            Some(Ok(out))
        }
        _ => Some(Err("neither a record nor a list".into())),
    }
}
fn damage(t: &mut Th, i: u32) {
    let mut r = Rng(t.h(i, 1));
    t.begin(i, 1);
    let io = pick_rates(&mut r);
    for n in 0..40u64 {
        let a = [word(&mut r), word(&mut r), word(&mut r), word(&mut r)];
        let mut b = if r.pct(70) {
            serde_json::to_vec(&res(a)).expect("harness: JSON")
        } else {
            format!("[{},{},{},{}]", a[0], a[1], a[2], a[3]).into_bytes()
        };
        for _ in 0..1 + r.below(2) {
            with(|c| c.stats.faults[F_DAMAGE] += 1);
            let at = r.below(b.len() as u64) as usize;
            match r.below(10) {
                0 => b[at] ^= 1 << r.below(8),
                8 | 9 => {
                    // another kind of value in the place of one
                    if let Some(d) = b.iter().skip(at).position(|c| c.is_ascii_digit()) {
                        let from = at + d;
                        let n = b[from..].iter().take_while(|c| c.is_ascii_digit()).count();
                        let was = String::from_utf8_lossy(&b[from..from + n]).into_owned();
                        let new = match r.below(12) {
                            0..=2 => format!("\"{}\"", was),
                            3 => "\"\"".into(),
                            4 => "null".into(),
                            5 => "true".into(),
                            6 => format!("[{}]", was),
                            7 => format!("{{\"{}\":{}}}", ["eax", "edx", "0"][r.below(3) as usize], was),
                            8 => format!("{}.0", was),
                            9 => format!("-{}", was),
                            10 => format!("\"{:#x}\"", was.parse::<u64>().unwrap_or(1)),
                            _ => format!("{}", was.parse::<u64>().unwrap_or(1) | 1 << (32 + r.below(20))),
                        };
                        b.splice(from..from + n, new.bytes());
                    }
                }
                1 => {
                    b.remove(at);
                }
                2 => {
                    let c = b[at];
                    b.insert(at, c);
                }
                3 => b[at] = b"0123456789,:{}[]\"-.eabcdx "[r.below(26) as usize],
                4 => b.insert(at, b"0123456789,-. "[r.below(14) as usize]),
                5 => {
                    // a digit for a digit: still a record, other values
                    if let Some(d) = b.iter().skip(at).position(|c| c.is_ascii_digit()) {
                        b[at + d] = b'0' + r.below(10) as u8;
                    }
                }
                6 => {
                    // two registers' names swapped or repeated
                    if let (Some(x), Some(y)) = (b.iter().position(|c| *c == b'e'), b.iter().rposition(|c| *c == b'e')) {
                        if let (Some(v), true) = (b.get(y + 1).copied(), x + 1 < b.len()) {
                            b[x + 1] = v;
                        }
                    }
                }
                _ => b.truncate(at.max(1)),
            }
            if b.is_empty() {
                b.push(b' ');
            }
        }
        let Some(got) = load::<CpuIdResult>(t, &b, io, None) else { continue };
        let text = String::from_utf8_lossy(&b).into_owned();
        match (spelled(&b), &got) {
            (Some(Ok(w)), Ok(g)) if arr(g) != w => t.viol("C09", format!("'{}' loads as {:?}", text, arr(g))),
            (Some(Ok(_)), Err(e)) => t.viol("C09", format!("'{}' is a well-formed record but does not load: {}", text, e)),
            (Some(Err(e)), Ok(g)) => t.viol("C09", format!("'{}' ({}) loads as {:?}", text, e, arr(g))),
            _ => {}
        }
        t.state(&[2, n % 4, got.is_ok() as u64, spelled(&b).map_or(0, |x| 1 + x.is_ok() as u64)]);
    }
    t.obs.push(Obs { tid: t.tid, op: t.key, val: r.next(), reads: 0, text: String::new() });
}
/// Ask everything there is to ask; the answers in order.
fn ask_all<RR: CpuIdReader + 'static>(c: &CpuId<RR>, out: &mut Vec<String>) {
    macro_rules! q {
        ($($n:ident)*) => { $( out.push(format!("{} {:?}", stringify!($n), c.$n())); )* };
    }
    q!(get_vendor_info get_feature_info get_processor_serial get_monitor_mwait_info get_thermal_power_info
       get_extended_feature_info get_direct_cache_access_info get_performance_monitoring_info get_extended_state_info
       get_rdt_monitoring_info get_rdt_allocation_info get_sgx_info get_processor_trace_info get_tsc_info
       get_processor_frequency_info get_soc_vendor_info get_hypervisor_info
       get_extended_processor_and_feature_identifiers get_processor_brand_string get_l1_cache_and_tlb_info
       get_l2_l3_cache_and_tlb_info get_advanced_power_mgmt_info get_processor_capacity_feature_info get_svm_info
       get_tlb_1gb_page_info get_performance_optimization_info get_processor_topology_info get_memory_encryption_info
       get_pqos_extended_feature_info get_extended_feature_identification_2
       get_extended_performance_monitoring_and_debug get_multi_key_encrypted_memory_capabilities);
    macro_rules! l {
        ($($n:ident)*) => { $( match c.$n() {
            Some(it) => for (k, x) in it.take(64).enumerate() { out.push(format!("{} {} {:?}", stringify!($n), k, x)); },
            None => out.push(format!("{} none", stringify!($n))),
        } )* };
    }
    l!(get_cache_info get_cache_parameters get_extended_topology_info get_extended_topology_info_v2
       get_deterministic_address_translation_info get_extended_cpu_topology);
    if let Some(x) = c.get_extended_state_info() {
        for s in x.iter() {
            out.push(format!("state {:?}", s));
        }
    }
    if let Some(x) = c.get_sgx_info() {
        for s in x.iter().take(64) {
            out.push(format!("sgx {:?}", s));
        }
    }
    if let Some(x) = c.get_soc_vendor_info() {
        out.push(format!("brand {:?}", x.get_vendor_brand()));
        for s in x.get_vendor_attributes().into_iter().flatten().take(64) {
            out.push(format!("soc {:?}", s));
        }
    }
    out.push(format!("{:?}", c));
}
#[derive(Clone)]
struct Player {
    log: Rc<Vec<Rec>>,
    pos: Rc<RefCell<(usize, Option<String>)>>,
}
impl Player {
    fn play(&self, leaf: u32, sub: u32) -> CpuIdResult {
        let mut p = self.pos.borrow_mut();
        p.0 += 1;
        match self.log.get(p.0 - 1) {
            Some(r) if (r.0, r.1) == (leaf, sub) => r.2,
            o => {
                if p.1.is_none() {
                    let n = p.0 - 1;
                    p.1 = Some(format!("question {} of the replay is leaf {:#x}/{:#x}, recorded was {:x?}", n, leaf, sub, o.map(|r| (r.0, r.1))));
                }
                res([0; 4])
            }
        }
    }
}
impl CpuIdReader for Player {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        self.play(eax, ecx)
    }
}
fn history(t: &mut Th, i: u32) {
    let mut r = Rng(t.h(i, 1));
    t.begin(i, 1);
    let rd = SimReader { inst: r.below(2) as u32 };
    let mut answers = Vec::new();
    let done = guard(false, || ask_all(&CpuId::with_cpuid_reader(rd), &mut answers));
    if !matches!(done, Res::Ok(_)) {
        return;
    }
    let log: Vec<Rec> = with(|c| c.reads.iter().map(|x| (x.leaf, x.sub, res(x.regs))).collect());
    let io = pick_rates(&mut r);
    let (pretty, which) = (r.pct(20), r.below(3));
    let Some(b) = store(t, &log, io, None, pretty) else { return };
    let back = match load::<Vec<Rec>>(t, &b, io, None) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return t.viol("C09", format!("a recorded history does not load: {}", e)),
        None => return,
    };
    if plain(&back) != plain(&log) {
        return t.viol("C09", "a recorded history came back changed".into());
    }
    t.begin(i, 2);
    let n = back.len();
    let pl = Player { log: Rc::new(back), pos: Rc::default() };
    let mut again = Vec::new();
    let p2 = pl.clone();
    let done = guard(false, || match which {
        0 => ask_all(&CpuId::with_cpuid_reader(p2), &mut again),
        1 => ask_all(&CpuId::with_cpuid_fn(move |a, c| p2.play(a, c)), &mut again),
        _ => {
            let c = CpuId::with_cpuid_reader(move |a: u32, c: u32| p2.play(a, c));
            ask_all(&c.clone(), &mut again)
        }
    });
    with(|c| {
        c.stats.checks += again.len() as u64;
        c.stats.probe("histories replayed");
    });
    t.state(&[3, which, n as u64]);
    t.obs.push(Obs { tid: t.tid, op: t.key, val: bytes_hash(again.join("\n").as_bytes()), reads: n as u64, text: String::new() });
    let (used, odd) = pl.pos.borrow().clone();
    if let Res::Panic(m) = done {
        t.viol("C09", format!("the replay panics where the original did not: {}", m));
    } else if let Some(k) = (0..answers.len().max(again.len())).find(|k| answers.get(*k) != again.get(*k)) {
        t.viol("C09", format!("the replay answers '{}' where the original answered '{}'", again.get(k).map_or("nothing", |x| x), answers.get(k).map_or("nothing", |x| x)));
    } else if let Some(o) = odd {
        t.viol("C09", o);
    } else if used != n {
        t.viol("C09", format!("the replay asked {} questions, the original {}", used, n));
    }
}
