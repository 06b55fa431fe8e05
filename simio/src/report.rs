//! Reading a printed report back, and the model of what it must say.
use crate::table::*;
use simcore::ctx::Read;
use simcore::model::*;
use simcore::objs::*;
use simcore::val::Val;

pub fn strip_ansi(b: &[u8]) -> String {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && i + 1 < b.len() && b[i + 1] == b'[' {
            i += 2;
            while i < b.len() && !(0x40..=0x7e).contains(&b[i]) {
                i += 1;
            }
            i += 1;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// Markdown inline markup disappears in print; compare what is left, blanks collapsed.
pub fn norm(s: &str) -> String {
    let mut o = String::with_capacity(64.min(s.len()));
    let mut blank = false;
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        match c {
            '*' | '`' => {}
            '~' if s.as_bytes().get(i + 1) == Some(&b'~') => {
                it.next();
            }
            c if c.is_whitespace() => blank = true,
            c => {
                if blank && !o.is_empty() {
                    o.push(' ');
                }
                blank = false;
                o.push(c);
            }
        }
    }
    o
}
/// Text that Markdown would take apart instead of printing.
pub fn unprintable(s: &str) -> bool {
    s.chars().any(|c| c.is_control() || matches!(c, '|' | '*' | '`' | '~' | '\\' | '\u{2502}' | '\u{fffd}' | '\u{200b}'..='\u{200f}' | '\u{2028}'..='\u{202f}'))
}
#[derive(Debug, Clone, PartialEq)]
pub enum Line {
    Text(String),
    Row(Vec<String>),
}
pub fn parse(b: &[u8]) -> Vec<Line> {
    let t = strip_ansi(b);
    let mut out = Vec::new();
    for l in t.split('\n') {
        let l = l.trim();
        if l.is_empty() || l.chars().all(|c| matches!(c, '\u{2500}'..='\u{257f}' | ' ')) && !l.contains('\u{2502}') {
            continue;
        }
        if l.starts_with('\u{2502}') {
            let l = l.trim_matches('\u{2502}');
            out.push(Line::Row(l.split('\u{2502}').map(norm).collect()));
        } else {
            out.push(Line::Text(norm(l)));
        }
    }
    out
}
/// One heading and what stands below it.
#[derive(Debug, Clone)]
pub struct Block {
    pub head: String,
    pub rows: Vec<(String, String)>,
}
fn is_num(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
}
/// The family of repeated blocks a heading belongs to.
pub fn family(h: &str) -> Option<&'static str> {
    let between = |a: &str, z: &str| h.strip_prefix(a).and_then(|x| x.strip_suffix(z)).map_or(false, is_num);
    if between("L", " Cache:") {
        Some("param")
    } else if between("level ", ":") {
        Some("topo")
    } else if h.contains(" features (0x0d/") && h.ends_with("):") {
        Some("state")
    } else if between("Enclave Page Cache (0x12/", ")") {
        Some("sgx")
    } else if between("Deterministic Address Translation Structure (0x18/", "):") {
        Some("dat")
    } else if between("Extended CPU Topology (0x8000_0026/", "):") {
        Some("cputopo")
    } else if h.starts_with("0x17 0x") && h.contains(": eax = ") {
        Some("soc")
    } else {
        None
    }
}
/// Every fixed heading as it is printed: normalised text, heading, whether a value follows it.
pub fn heads() -> &'static Vec<(String, &'static str, bool)> {
    static HEADS: std::sync::OnceLock<Vec<(String, &'static str, bool)>> = std::sync::OnceLock::new();
    HEADS.get_or_init(|| GROUPS.iter().flat_map(|g| g.parts).filter(|p| !p.head.is_empty()).map(|p| (norm(p.head), p.head, p.attr)).collect())
}
fn static_head(h: &str) -> Option<(&'static str, bool)> {
    heads().iter().find(|(n, _, attr)| if *attr { h.strip_prefix(n.as_str()).map_or(false, |x| x.starts_with(" =")) } else { h == n }).map(|(_, p, attr)| (*p, *attr))
}
pub fn blocks(lines: &[Line]) -> Vec<Block> {
    let mut out: Vec<Block> = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        match &lines[i] {
            Line::Text(t) => {
                if let Some((h, attr)) = static_head(t) {
                    let mut b = Block { head: h.to_string(), rows: Vec::new() };
                    if attr {
                        b.rows.push((String::new(), t[norm(h).len()..].trim_start_matches(" =").trim().to_string()));
                    }
                    out.push(b);
                } else if family(t).is_some() {
                    out.push(Block { head: t.clone(), rows: Vec::new() });
                } else if let (Some(b), Some((k, v))) = (out.last_mut(), t.split_once(" = ")) {
                    b.rows.push((k.to_string(), v.to_string()));
                } else if let (Some(b), Some(k)) = (out.last_mut(), t.strip_suffix(" =")) {
                    b.rows.push((k.to_string(), String::new()));
                }
            }
            Line::Row(c) => {
                if let Some(b) = out.last_mut() {
                    // a table with its labels on top
                    if c.len() > 3 && c.iter().enumerate().all(|(i, x)| *x == format!("C{}", i)) {
                        if let Some(Line::Row(v)) = lines.get(i + 1) {
                            for (k, v) in c.iter().zip(v) {
                                b.rows.push((k.clone(), v.clone()));
                            }
                            i += 2;
                            continue;
                        }
                    }
                    match c.len() {
                        2 => b.rows.push((c[0].clone(), c[1].clone())),
                        3 => b.rows.push((format!("{} / {}", c[0], c[1]), c[2].clone())),
                        n if n > 3 => b.rows.push((c[0].clone(), c[1..].join("|"))),
                        _ => {}
                    }
                }
            }
        }
        i += 1;
    }
    out
}

fn enum_text(name: &str, p: u32) -> String {
    match name {
        "DataTLB" => "Data TLB".into(),
        "InstructionTLB" => "Instruction TLB".into(),
        "UnifiedTLB" => "Unified TLB".into(),
        "LoadOnly" => "Load Only".into(),
        "StoreOnly" => "Store Only".into(),
        "DirectMapped" => "Direct mapped".into(),
        "FullyAssociative" => "Fully associative".into(),
        "NWay" => format!("NWay({})", p),
        n => n.into(),
    }
}
/// How an accessor's value is printed; None: any text will do.
fn text(kind: Kind, acc: &str, v: &Val) -> Option<String> {
    Some(match v {
        Val::B(true) if kind == Kind::ExtendedState && acc == "location" => return None,
        Val::B(b) => if *b { "✅" } else { "❌" }.to_string(),
        Val::U(u) => format!("{}", u),
        Val::N => String::new(),
        Val::E(n, p) => match (kind, acc) {
            (Kind::ExtendedCpuTopologyLevel, _) => match *n {
                "Reserved" => "Reserved (0)".into(),
                "Core" => "Core (1)".into(),
                "Complex" => "Complex (2)".into(),
                "Die" => "DIE (3)".into(),
                "Socket" => "Socket (4)".into(),
                _ => format!("Unknown ({})", p[0]),
            },
            (Kind::ExtendedState, "location") => match *n {
                "Xcr0" => "XCR0 (user state)".into(),
                _ => "IA32_XSS (supervisor state)".into(),
            },
            (Kind::DatInfo, _) if *n == "Null" => "invalid (0)".into(),
            (_, _) if *n == "Unknown" && kind != Kind::DatInfo => "Unknown (check leaf 0x8000_001d)".into(),
            _ => enum_text(n, p[0]),
        },
        _ => return None,
    })
}
fn reg_name(n: u32) -> String {
    match n {
        2 => "AVX/YMM".into(),
        3 => "MPX BNDREGS".into(),
        4 => "MPX BNDCSR".into(),
        5 => "AVX-512 opmask".into(),
        6 => "AVX-512 ZMM_Hi256".into(),
        7 => "AVX-512 Hi16_ZMM".into(),
        8 => "PT".into(),
        9 => "PKRU".into(),
        13 => "HDC".into(),
        x => format!("Unknown({})", x),
    }
}
fn u(kind: Kind, acc: &str, s: &Snap) -> Option<u128> {
    match kind.exp(index(kind, acc), s) {
        Val::U(x) => Some(x),
        _ => None,
    }
}
fn index(kind: Kind, acc: &str) -> usize {
    (0..kind.len()).find(|i| kind.acc_name(*i) == acc).unwrap_or_else(|| panic!("harness: no accessor {} of {}", acc, kind.name()))
}
fn utf8(b: &[u8]) -> Option<String> {
    std::str::from_utf8(b).ok().map(|x| x.to_string())
}
fn regs(r: &[u32]) -> Vec<u8> {
    r.iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// What the row must say. `None`: not decided here.
fn expect(kind: Kind, s: &Snap, acc: &str, brand: &dyn Fn() -> Vec<Option<String>>) -> Option<Vec<String>> {
    Some(match acc {
        "@vendor" => {
            let r = s.k[0];
            let t = utf8(&regs(&[r[B], r[D], r[C]])).unwrap_or("InvalidVendorString".into());
            if unprintable(&t) || t.contains('"') {
                return None;
            }
            vec![norm(&format!("\"{}\"", t))]
        }
        "@serial" => {
            vec![format!("\"{:0>8x}-{:0>8x}-{:0>8x}\"", u(kind, "serial_upper", s)?, u(kind, "serial_middle", s)?, u(kind, "serial_lower", s)?)]
        }
        "@brand" => {
            let b = regs(&[s.k[0], s.k[1], s.k[2]].concat());
            let n = b.iter().position(|c| *c == 0).unwrap_or(48);
            let t = utf8(&b[..n]).map(|x| x.trim().to_string()).unwrap_or("Invalid Processor Brand String".into());
            if unprintable(&t) {
                return None;
            }
            vec![norm(&format!("\"{}\"", t))]
        }
        "@tsc" => vec![format!("{} / {}", u(kind, "numerator", s)?, u(kind, "denominator", s)?)],
        "@l3size" => vec![format!("{}", u(kind, "l3cache_size", s)? * 512)],
        "@size" => {
            let p = u(kind, "associativity", s)? * u(kind, "physical_line_partitions", s)? * u(kind, "coherency_line_size", s)? * u(kind, "sets", s)?;
            // a product past 64 bits belongs to no real cache
            if p > u64::MAX as u128 {
                return None;
            }
            vec![format!("{}", p)]
        }
        "@socbrand" => {
            let mut v = Vec::new();
            let all = brand();
            if all.is_empty() {
                return None;
            }
            for t in all {
                match t {
                    Some(t) if unprintable(&t) => return None,
                    Some(t) => v.push(norm(&t)),
                    None => v.push(String::new()),
                }
            }
            v
        }
        a => vec![norm(&text(kind, a, &kind.exp(index(kind, a), s))?)],
    })
}

/// Every outcome of a model function over the combinations of differing deliveries.
fn combos(reads: &[Read], inst: u32, mut f: impl FnMut(&mut Rd) -> MOut) -> Option<Vec<MOut>> {
    let dups = Rd::dups(reads, inst);
    let mut keys: Vec<(Key, usize)> = Vec::new();
    'again: loop {
        let total: usize = keys.iter().map(|k| k.1).product();
        if total > 400 {
            return None;
        }
        let mut out = Vec::new();
        for mut n in 0..total {
            let mut rd = Rd::new(reads, inst);
            for k in &keys {
                rd.choice.push((k.0, n % k.1));
                n /= k.1;
            }
            let m = f(&mut rd);
            for k in &rd.req {
                if let Some(d) = dups.iter().find(|d| d.0 == *k) {
                    if !keys.contains(d) {
                        keys.push(*d);
                        continue 'again;
                    }
                }
            }
            if rd.missing.is_none() {
                out.push(m);
            }
        }
        return Some(out);
    }
}
fn getter(q: &str) -> &'static Getter {
    GETTERS.iter().find(|g| g.name == q).unwrap_or_else(|| panic!("harness: no query {}", q))
}
fn outs(m: &MCpu, reads: &[Read], q: &str, sub: &str) -> Option<Vec<MOut>> {
    let g = getter(q);
    combos(reads, m.inst, |rd| {
        let r = (g.model)(m, rd);
        if sub.is_empty() {
            return r;
        }
        let s = SUBS.iter().find(|x| x.name == sub).unwrap_or_else(|| panic!("harness: no sub-query {}", sub));
        match r {
            MOut::Obj(k, sn) if k == s.kind => (s.model)(&sn, rd),
            MOut::Obj(..) => panic!("harness: {} is no sub-query of {}", sub, q),
            _ => MOut::None,
        }
    })
}
/// Rows of a block against one candidate; the first difference.
fn rows_differ(b: &Block, kind: Kind, s: &Snap, rows: &[(&str, &str)], brand: &dyn Fn() -> Vec<Option<String>>) -> Option<String> {
    let mut used = vec![false; b.rows.len()];
    for (label, acc) in rows {
        let l = norm(label);
        let Some(i) = (0..b.rows.len()).find(|i| !used[*i] && b.rows[*i].0 == l) else {
            return Some(format!("row '{}' is missing", label));
        };
        used[i] = true;
        if let Some(e) = expect(kind, s, acc, brand) {
            if !e.contains(&b.rows[i].1) {
                return Some(format!("row '{}' says '{}', the query gives '{}'", label, b.rows[i].1, e.join("' or '")));
            }
        }
    }
    None
}
pub struct Verdict {
    pub errors: Vec<String>,
    pub checks: u64,
    pub sections: Vec<&'static str>,
    pub undecided: u64,
}
/// Does the report say what the queries say, given the replies delivered while it was made?
pub fn check(m: &MCpu, reads: &[Read], bytes: &[u8]) -> Verdict {
    let bl = blocks(&parse(bytes));
    let mut v = Verdict { errors: Vec::new(), checks: 0, sections: Vec::new(), undecided: 0 };
    for g in GROUPS.iter() {
        let Some(o) = outs(m, reads, g.q, g.sub) else {
            v.undecided += 1;
            continue;
        };
        let some: Vec<&MOut> = o.iter().filter(|x| !matches!(x, MOut::None)).collect();
        let brand = || -> Vec<Option<String>> {
            let Some(o) = outs(m, reads, "get_soc_vendor_info", "SoCVendorInfo::get_vendor_brand") else { return Vec::new() };
            o.iter()
                .map(|x| match x {
                    MOut::Obj(_, s) => Some(utf8(&regs(&[s.k[0], s.k[1], s.k[2]].concat())).unwrap_or("InvalidSoCVendorString".into())),
                    _ => None,
                })
                .collect()
        };
        if g.it.is_empty() || g.it == "desc" {
            for p in g.parts {
                let found: Vec<&Block> = bl.iter().filter(|b| b.head == p.head).collect();
                v.checks += 1;
                if found.len() > 1 {
                    v.errors.push(format!("section '{}' appears {} times", p.head, found.len()));
                    continue;
                }
                let Some(b) = found.first() else {
                    if !o.is_empty() && some.len() == o.len() {
                        v.errors.push(format!("section '{}' is missing although {} has an answer", p.head, g.q));
                    }
                    continue;
                };
                v.sections.push(p.head);
                if some.is_empty() {
                    v.errors.push(if o.is_empty() {
                        format!("section '{}' appears although the leaves it speaks of were not read", p.head)
                    } else {
                        format!("section '{}' appears although {} has no answer", p.head, g.q)
                    });
                    continue;
                }
                let mut why = None;
                for c in &some {
                    let d = match c {
                        MOut::Obj(k, s) => {
                            v.checks += p.rows.len() as u64;
                            rows_differ(b, *k, s, p.rows, &brand)
                        }
                        MOut::Iter(IM::Cache { regs, .. }) => descs_differ(b, regs),
                        _ => None,
                    };
                    match d {
                        None => {
                            why = None;
                            break;
                        }
                        d => {
                            why.get_or_insert(d.unwrap());
                        }
                    }
                }
                if let Some(w) = why {
                    v.errors.push(format!("section '{}': {}", p.head, w));
                }
            }
        } else {
            let found: Vec<&Block> = bl.iter().filter(|b| static_head(&b.head).is_none() && family(&b.head) == Some(g.it)).collect();
            v.checks += 1 + found.len() as u64;
            if some.is_empty() {
                if let Some(b) = found.first() {
                    v.errors.push(format!("'{}' appears although {} has no answer", b.head, g.q));
                }
                continue;
            }
            if !found.is_empty() {
                v.sections.push(g.it);
            }
            let optional = some.len() < o.len() && found.is_empty();
            let mut why: Option<String> = None;
            let mut ok = optional;
            for c in &some {
                if let MOut::Iter(im) = c {
                    match walk(im, m, reads, &found, g) {
                        None => {
                            ok = true;
                            break;
                        }
                        Some(w) => {
                            why.get_or_insert(w);
                        }
                    }
                }
            }
            if !ok {
                v.errors.push(format!("{} of {}: {}", g.it, g.q, why.unwrap_or_default()));
            }
        }
    }
    v
}
fn descs_differ(b: &Block, regs: &[u32; 4]) -> Option<String> {
    let mut may: Vec<u8> = Vec::new();
    let mut must: Vec<u8> = Vec::new();
    for i in 1..16usize {
        let byte = (regs[i / 4] >> (8 * (i % 4))) as u8;
        if byte == 0 {
            continue;
        }
        may.push(byte);
        if regs[i / 4] >> 31 == 0 && CACHE_DESC.iter().any(|d| d.0 == byte) {
            must.push(byte);
        }
    }
    for (l, t) in &b.rows {
        let Some(n) = l.strip_prefix("0x").and_then(|x| u8::from_str_radix(x, 16).ok()) else {
            return Some(format!("row '{}' names no descriptor", l));
        };
        let Some(i) = may.iter().position(|x| *x == n) else {
            return Some(format!("row '{}': the registers hold no such descriptor (any more)", l));
        };
        may.remove(i);
        if let Some(i) = must.iter().position(|x| *x == n) {
            must.remove(i);
        }
        if let Some(d) = CACHE_DESC.iter().find(|d| d.0 == n) {
            if norm(d.2) != *t {
                return Some(format!("row '{}' says '{}', the query gives '{}'", l, t, d.2));
            }
        }
    }
    must.first().map(|n| format!("descriptor {:#x} is missing", n))
}
fn head_ok(it: &str, h: &str, idx: usize, kind: Kind, s: &Snap, from: &IM) -> Option<String> {
    let want = match it {
        "param" => format!("L{} Cache:", u(kind, "level", s)?),
        "topo" => format!("level {}:", u(kind, "level_number", s)?),
        "state" => format!("{} features (0x0d/{}):", reg_name(s.aux), s.aux),
        "sgx" => format!("Enclave Page Cache (0x12/{})", idx + 2),
        "dat" => {
            // numbered consecutively or by sub-leaf
            let alt = match from {
                IM::Dat { lo, .. } => format!("Deterministic Address Translation Structure (0x18/{}):", lo - 1),
                _ => String::new(),
            };
            if h == alt {
                return None;
            }
            format!("Deterministic Address Translation Structure (0x18/{}):", idx)
        }
        "cputopo" => format!("Extended CPU Topology (0x8000_0026/{}):", idx),
        "soc" => {
            let r = s.k[0];
            format!("0x17 {:#x}: eax = {:#x} ebx = {:#x} ecx = {:#x} edx = {:#x}", idx + 4, r[0], r[1], r[2], r[3])
        }
        _ => return None,
    };
    if h == norm(&want) {
        None
    } else {
        Some(format!("block {} is headed '{}', expected '{}'", idx, h, want))
    }
}
/// Follow the enumeration over the printed blocks; None when some choice of deliveries explains them all.
fn walk(im: &IM, m: &MCpu, reads: &[Read], found: &[&Block], g: &Group) -> Option<String> {
    let mut states = vec![im.clone()];
    let mut why: Option<String> = None;
    for idx in 0..=found.len() {
        let mut next: Vec<IM> = Vec::new();
        let mut step_why: Option<String> = None;
        for st in &states {
            // every choice of the deliveries this step may rest on
            let dups = Rd::dups(reads, m.inst);
            let mut choices: Vec<Vec<(Key, usize)>> = vec![Vec::new()];
            let mut rd = Rd::new(reads, m.inst);
            let _ = step(st, m.vendor, &mut rd);
            for k in rd.req.iter().filter_map(|k| dups.iter().find(|d| d.0 == *k)) {
                choices = choices.iter().flat_map(|c| (0..k.1).map(move |n| [c.clone(), vec![(k.0, n)]].concat())).take(200).collect();
            }
            for ch in choices {
                let mut rd = Rd::new(reads, m.inst);
                rd.choice = ch;
                let s = step(st, m.vendor, &mut rd);
                if rd.missing.is_some() {
                    step_why.get_or_insert(format!("block {}: sub-leaf {:x?} was not read", idx, rd.missing));
                    continue;
                }
                let (k, sn, nx, end_ok) = match s {
                    Step::End => {
                        if idx == found.len() {
                            return None;
                        }
                        step_why.get_or_insert(format!("'{}' appears after the end of the enumeration", found[idx].head));
                        continue;
                    }
                    Step::Item(k, sn, nx) => (k, sn, nx, false),
                    Step::EndOr(k, sn, nx) => (k, sn, nx, true),
                    Step::OneOf(..) => return None,
                };
                if idx == found.len() {
                    if end_ok {
                        return None;
                    }
                    step_why.get_or_insert(format!("the report has {} blocks, the enumeration goes on", idx));
                    continue;
                }
                let rows = g.parts.first().map_or(&[][..], |p| p.rows);
                let d = head_ok(g.it, &found[idx].head, idx, k, &sn, &nx).or_else(|| rows_differ(found[idx], k, &sn, rows, &Vec::new).map(|w| format!("'{}': {}", found[idx].head, w)));
                match d {
                    None => {
                        if !next.contains(&nx) {
                            next.push(nx)
                        }
                    }
                    Some(w) => {
                        step_why.get_or_insert(w);
                    }
                }
            }
        }
        if next.is_empty() {
            why = step_why;
            break;
        }
        states = next;
    }
    Some(why.unwrap_or("the blocks follow no enumeration".into()))
}
