fn family(s: &Snap) -> Val {
    let (b, x) = (fld(s, 0, A, 8, 11), fld(s, 0, A, 20, 27));
    let v = match s.vendor {
        Vend::Amd if b < 0xf => b,
        Vend::Intel if b != 0xf => b,
        _ => b + x,
    };
    // the accessor's type cannot hold more than 255; no value is documented then
    if v > 255 { Val::Any } else { Val::U(v) }
}
fn model_id(s: &Snap) -> Val {
    let (f, b, x) = (fld(s, 0, A, 8, 11), fld(s, 0, A, 4, 7), fld(s, 0, A, 16, 19));
    let base_only = match s.vendor {
        Vend::Amd => f < 0xf,
        Vend::Intel => f != 0xf && f != 6,
        Vend::Other => false,
    };
    Val::U(if base_only { b } else { x * 16 + b })
}
fn bytes(regs: &[u32]) -> Vec<u8> {
    regs.iter().flat_map(|r| r.to_le_bytes()).collect()
}
fn vendor_str(sn: &Snap) -> Val {
    let r = sn.k[0];
    match std::str::from_utf8(&bytes(&[r[B], r[D], r[C]])) {
        Ok(x) => s(x),
        Err(_) => s("InvalidVendorString"),
    }
}
fn all48(sn: &Snap) -> Vec<u8> {
    bytes(&[sn.k[0], sn.k[1], sn.k[2]].concat())
}
fn fixed_str(sn: &Snap, inv: &str) -> Val {
    match std::str::from_utf8(&all48(sn)) {
        Ok(x) => s(x),
        Err(_) => s(inv),
    }
}
fn brand(sn: &Snap) -> Val {
    let b = all48(sn);
    let n = b.iter().position(|c| *c == 0).unwrap_or(48);
    match std::str::from_utf8(&b[..n]) {
        Ok(x) => s(x.trim()),
        Err(_) => s("Invalid Processor Brand String"),
    }
}
fn opt(v: Option<u128>) -> Val {
    v.map_or(Val::N, Val::U)
}
#[allow(unreachable_patterns)]
fn cache_type(t: CacheType) -> Val {
    e(match t {
        CacheType::Null => "Null",
        CacheType::Data => "Data",
        CacheType::Instruction => "Instruction",
        CacheType::Unified => "Unified",
        CacheType::Reserved => "Reserved",
        _ => "?",
    })
}
#[allow(unreachable_patterns)]
fn topo_type(t: TopologyType) -> Val {
    e(match t {
        TopologyType::Invalid => "Invalid",
        TopologyType::SMT => "SMT",
        TopologyType::Core => "Core",
        TopologyType::Module => "Module",
        TopologyType::Tile => "Tile",
        TopologyType::Die => "Die",
        _ => "?",
    })
}
#[allow(unreachable_patterns)]
fn ext_reg(t: ExtendedRegisterType) -> Val {
    use ExtendedRegisterType::*;
    match t {
        Avx => e("Avx"),
        MpxBndregs => e("MpxBndregs"),
        MpxBndcsr => e("MpxBndcsr"),
        Avx512Opmask => e("Avx512Opmask"),
        Avx512ZmmHi256 => e("Avx512ZmmHi256"),
        Avx512ZmmHi16 => e("Avx512ZmmHi16"),
        Pt => e("Pt"),
        Pkru => e("Pkru"),
        Hdc => e("Hdc"),
        Unknown(n) => Val::E("Unknown", [n, 0, 0]),
        _ => e("?"),
    }
}
#[allow(unreachable_patterns)]
fn dat_type(t: DatType) -> Val {
    e(match t {
        DatType::Null => "Null",
        DatType::DataTLB => "DataTLB",
        DatType::InstructionTLB => "InstructionTLB",
        DatType::UnifiedTLB => "UnifiedTLB",
        DatType::LoadOnly => "LoadOnly",
        DatType::StoreOnly => "StoreOnly",
        DatType::Unknown => "Unknown",
        _ => "?",
    })
}
#[allow(unreachable_patterns)]
fn hier(t: HierarchyLevelType) -> Val {
    match t {
        HierarchyLevelType::Reserved => e("Reserved"),
        HierarchyLevelType::Core => e("Core"),
        HierarchyLevelType::Complex => e("Complex"),
        HierarchyLevelType::Die => e("Die"),
        HierarchyLevelType::Socket => e("Socket"),
        HierarchyLevelType::Unknown(n) => Val::E("Unknown", [n as u32, 0, 0]),
        _ => e("?"),
    }
}
#[allow(unreachable_patterns)]
fn hyp(h: Hypervisor) -> Val {
    match h {
        Hypervisor::Xen => e("Xen"),
        Hypervisor::VMware => e("VMware"),
        Hypervisor::HyperV => e("HyperV"),
        Hypervisor::KVM => e("KVM"),
        Hypervisor::QEMU => e("QEMU"),
        Hypervisor::Bhyve => e("Bhyve"),
        Hypervisor::QNX => e("QNX"),
        Hypervisor::ACRN => e("ACRN"),
        Hypervisor::Unknown(a, b, c) => Val::E("Unknown", [a, b, c]),
        _ => e("?"),
    }
}
pub const HYPERVISORS: &[(&[u8; 12], &str)] = &[
    (b"VMwareVMware", "VMware"),
    (b"XenVMMXenVMM", "Xen"),
    (b"Microsoft Hv", "HyperV"),
    (b"KVMKVMKVM\0\0\0", "KVM"),
    (b"TCGTCGTCGTCG", "QEMU"),
    (b"bhyve bhyve ", "Bhyve"),
    (b"BHyVE BHyVE ", "Bhyve"),
    (b"QNXQVMBSQG\0\0", "QNX"),
    (b"ACRNACRNACRN", "ACRN"),
];
fn hyp_exp(sn: &Snap) -> Val {
    let r = sn.k[0];
    let b = bytes(&[r[B], r[C], r[D]]);
    for (sig, n) in HYPERVISORS {
        if b == sig[..] {
            return e(n);
        }
    }
    Val::E("Unknown", [r[B], r[C], r[D]])
}
#[allow(unreachable_patterns)]
fn epc(o: &SgxSectionInfo) -> &EpcSection {
    match o {
        SgxSectionInfo::Epc(x) => x,
        _ => panic!("sgx section of an unknown kind"),
    }
}
#[allow(unreachable_patterns)]
fn assoc(a: Associativity) -> Val {
    match a {
        Associativity::Disabled => e("Disabled"),
        Associativity::DirectMapped => e("DirectMapped"),
        Associativity::NWay(n) => Val::E("NWay", [n as u32, 0, 0]),
        Associativity::FullyAssociative => e("FullyAssociative"),
        Associativity::Unknown => e("Unknown"),
        _ => e("?"),
    }
}
fn assoc_l1(n: u32) -> Val {
    match n {
        0 => e("Disabled"),
        1 => e("DirectMapped"),
        255 => e("FullyAssociative"),
        n => Val::E("NWay", [n, 0, 0]),
    }
}
fn assoc_l2(n: u32) -> Val {
    let ways = [0, 1, 2, 0, 4, 6, 8, 0, 16, 0, 32, 48, 64, 96, 128, 0][n as usize];
    match n {
        0 => e("Disabled"),
        1 => e("DirectMapped"),
        15 => e("FullyAssociative"),
        // 3 is "3-way" on newer AMD parts and reserved elsewhere; 7 and 9 defer to other leaves
        3 | 7 => Val::Any,
        9 => e("Unknown"),
        _ => Val::E("NWay", [ways, 0, 0]),
    }
}
#[allow(unreachable_patterns)]
fn cache_info_type(t: CacheInfoType) -> Val {
    e(match t {
        CacheInfoType::General => "General",
        CacheInfoType::Cache => "Cache",
        CacheInfoType::TLB => "TLB",
        CacheInfoType::STLB => "STLB",
        CacheInfoType::DTLB => "DTLB",
        CacheInfoType::Prefetch => "Prefetch",
        _ => "?",
    })
}
fn cache_info_exp(num: u32) -> (Val, Val) {
    for (n, t, d) in CACHE_DESC {
        if *n as u32 == num {
            return (e(t), s(d));
        }
    }
    (Val::Any, Val::Any)
}
/// Formatting other than the object's own Debug: (name, rendering) per object.
pub const MAX_DISP: usize = 5;
pub fn display(x: &Obj, i: usize, w: &mut dyn Write) -> Option<std::fmt::Result> {
    Some(match (x, i) {
        (Obj::VendorInfo(o), 0) => write!(w, "{}", o),
        (Obj::CacheInfo(o), 0) => write!(w, "{}", o),
        (Obj::CacheInfo(o), 1) => write!(w, "{:?}", o.typ),
        (Obj::SoCVendorBrand(o), 0) => write!(w, "{}", o),
        (Obj::CacheParameter(o), 0) => write!(w, "{}", o.cache_type()),
        (Obj::CacheParameter(o), 1) => write!(w, "{:>12}|{:?}", o.cache_type(), o.cache_type()),
        (Obj::ExtendedTopologyLevel(o), 0) => write!(w, "{}", o.level_type()),
        (Obj::ExtendedTopologyLevel(o), 1) => write!(w, "{:?}", o.level_type()),
        (Obj::ExtendedState(o), 0) => write!(w, "{}", o.register()),
        (Obj::ExtendedState(o), 1) => write!(w, "{}", o.location()),
        (Obj::ExtendedState(o), 2) => write!(w, "{:?} {:?}", o.register(), o.location()),
        (Obj::DatInfo(o), 0) => write!(w, "{}", o.cache_type()),
        (Obj::DatInfo(o), 1) => write!(w, "{:?}", o.cache_type()),
        (Obj::ExtendedCpuTopologyLevel(o), 0) => write!(w, "{}", o.level_type()),
        (Obj::ExtendedCpuTopologyLevel(o), 1) => write!(w, "{:?}", o.level_type()),
        (Obj::L1CacheTlbInfo(o), 0) => write!(w, "{} {}", o.dtlb_4k_associativity(), o.icache_associativity()),
        (Obj::L1CacheTlbInfo(o), 1) => write!(w, "{:?}", o.dcache_associativity()),
        (Obj::L2And3CacheTlbInfo(o), 0) => write!(w, "{} {}", o.l2cache_associativity(), o.l3cache_associativity()),
        (Obj::L2And3CacheTlbInfo(o), 1) => write!(w, "{:?} {}", o.dtlb_4k_associativity(), o.itlb_2m_4m_associativity()),
        (Obj::Tlb1gbPageInfo(o), 0) => write!(w, "{} {}", o.dtlb_l1_1gb_associativity(), o.itlb_l2_1gb_associativity()),
        (Obj::HypervisorInfo(o), 0) => write!(w, "{:?}", o.identify()),
        (Obj::VendorInfo(o), 1) => write!(w, "{:>30.5}|{:^14}", o, o),
        (Obj::CacheInfo(o), 2) => write!(w, "{:>80}", o),
        (Obj::SoCVendorBrand(o), 1) => write!(w, "{:>60.7}", o),
        (Obj::ExtendedTopologyLevel(o), 2) => write!(w, "{:>12.2}", o.level_type()),
        (Obj::ExtendedState(o), 3) => write!(w, "{:.3}{:<20}", o.register(), o.location()),
        (Obj::DatInfo(o), 2) => write!(w, "{:>9.3}", o.cache_type()),
        (Obj::L1CacheTlbInfo(o), 2) => write!(w, "{:#6} {:03}", o.dtlb_4k_associativity(), o.icache_associativity()),
        (Obj::CpuIdResult(o), 0) => write!(w, "{:?}", o),
        _ => return None,
    })
}
