//! Every public information type of the library: how to call each accessor, and the reference model of
//! what it must return, written as (leaf snapshot key, register, bits) from the Intel SDM / AMD APM.
use super::R;
use crate::val::{e, s, Val};
use raw_cpuid::*;
use std::fmt::Write;
pub const A: usize = 0;
pub const B: usize = 1;
pub const C: usize = 2;
pub const D: usize = 3;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vend {
    Intel,
    Amd,
    Other,
}
/// Register values an information object was decoded from (the model's side of the object).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Snap {
    pub vendor: Vend,
    pub aux: u32,
    pub k: [[u32; 4]; 3],
}
pub struct Acc<T> {
    pub name: &'static str,
    pub call: fn(&T) -> Val,
    pub exp: fn(&Snap) -> Val,
}
pub trait Info: Sized + 'static {
    const NAME: &'static str;
    const ACCS: &'static [Acc<Self>];
}
fn fld(s: &Snap, k: usize, r: usize, lo: u32, hi: u32) -> u128 {
    ((s.k[k][r] as u64 >> lo) & ((1u64 << (hi - lo + 1)) - 1)) as u128
}
include!("helpers.rs");
macro_rules! acc {
    ($T:ty; b $n:ident $k:tt $r:ident $b:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| Val::B(o.$n()), exp: |s| Val::B(s.k[$k][$r] >> $b & 1 == 1) }
    };
    ($T:ty; ba $n:ident $k:tt $r:ident $b:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| Val::B(o.$n()), exp: |s| Val::B(s.vendor == Vend::Amd && s.k[$k][$r] >> $b & 1 == 1) }
    };
    ($T:ty; u $n:ident $k:tt $r:ident $lo:tt $hi:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| Val::U(o.$n() as u128), exp: |s| Val::U(fld(s, $k, $r, $lo, $hi)) }
    };
    // field + 1, open when the documented value does not fit the accessor's type
    ($T:ty; u1 $n:ident $k:tt $r:ident $lo:tt $hi:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| Val::U(o.$n() as u128), exp: |s| Val::U(fld(s, $k, $r, $lo, $hi) + 1) }
    };
    ($T:ty; u1b $n:ident $k:tt $r:ident $lo:tt $hi:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| Val::U(o.$n() as u128), exp: |s| { let v = fld(s, $k, $r, $lo, $hi) + 1; if v > 255 { Val::Any } else { Val::U(v) } } }
    };
    // low 8 bits documented to fit; open when the field exceeds the accessor's type
    ($T:ty; u8b $n:ident $k:tt $r:ident $lo:tt $hi:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| Val::U(o.$n() as u128), exp: |s| { let v = fld(s, $k, $r, $lo, $hi); if v > 255 { Val::Any } else { Val::U(v) } } }
    };
    ($T:ty; asl1 $n:ident $k:tt $r:ident $lo:tt $hi:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| assoc(o.$n()), exp: |s| assoc_l1(fld(s, $k, $r, $lo, $hi) as u32) }
    };
    ($T:ty; asl2 $n:ident $k:tt $r:ident $lo:tt $hi:tt) => {
        Acc::<$T> { name: stringify!($n), call: |o| assoc(o.$n()), exp: |s| assoc_l2(fld(s, $k, $r, $lo, $hi) as u32) }
    };
    ($T:ty; x $n:ident ($c:expr) ($m:expr)) => {
        Acc::<$T> { name: stringify!($n), call: $c, exp: $m }
    };
}
macro_rules! info {
    ($N:ident, $T:ty, { $(($($t:tt)*))* }) => {
        impl Info for $T {
            const NAME: &'static str = stringify!($N);
            const ACCS: &'static [Acc<$T>] = &[$(acc!($T; $($t)*)),*];
        }
    };
}
/// Compares two objects when their type can be compared.
struct Cmp<'a, T>(&'a T, &'a T);
#[allow(dead_code)]
trait CmpNo {
    fn same(&self) -> Option<(bool, bool)> {
        None
    }
}
impl<'a, T> CmpNo for Cmp<'a, T> {}
#[allow(dead_code)]
impl<'a, T: PartialEq> Cmp<'a, T> {
    fn same(&self) -> Option<(bool, bool)> {
        #[allow(clippy::partialeq_ne_impl)]
        Some((self.0 == self.1, self.0 != self.1))
    }
}
/// The text the string accessor of an object lends out.
pub fn lent(o: &Obj) -> Option<&str> {
    match o {
        Obj::VendorInfo(v) => Some(v.as_str()),
        Obj::SoCVendorBrand(v) => Some(v.as_str()),
        Obj::ProcessorBrandString(v) => Some(v.as_str()),
        _ => None,
    }
}
macro_rules! objs {
    ($($N:ident($T:ty)),* $(,)?) => {
        pub enum Obj { $($N($T)),* }
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum Kind { $($N),* }
        impl Obj {
            pub fn kind(&self) -> Kind { match self { $(Obj::$N(_) => Kind::$N),* } }
            pub fn call(&self, i: usize) -> Val { match self { $(Obj::$N(o) => (<$T as Info>::ACCS[i].call)(o)),* } }
            /// `==` and `!=`, if the type has them.
            pub fn same(&self, other: &Obj) -> Option<(bool, bool)> {
                match (self, other) { $((Obj::$N(a), Obj::$N(b)) => Cmp(a, b).same(),)* _ => None }
            }
            pub fn debug(&self, w: &mut dyn Write, mode: u32) -> std::fmt::Result {
                match self { $(Obj::$N(o) => match mode % 4 { 0 => write!(w, "{:?}", o), 1 => write!(w, "{:#?}", o), 2 => write!(w, "{:#06x?}", o), _ => write!(w, "{:>24.3?}", o) }),* }
            }
        }
        impl Kind {
            pub fn name(self) -> &'static str { match self { $(Kind::$N => <$T as Info>::NAME),* } }
            pub fn len(self) -> usize { match self { $(Kind::$N => <$T as Info>::ACCS.len()),* } }
            pub fn acc_name(self, i: usize) -> &'static str { match self { $(Kind::$N => <$T as Info>::ACCS[i].name),* } }
            pub fn exp(self, i: usize, s: &Snap) -> Val { match self { $(Kind::$N => (<$T as Info>::ACCS[i].exp)(s)),* } }
        }
    };
}
objs! {
    VendorInfo(VendorInfo),
    CacheInfo(CacheInfo),
    ProcessorSerial(ProcessorSerial),
    FeatureInfo(FeatureInfo),
    CacheParameter(CacheParameter),
    MonitorMwaitInfo(MonitorMwaitInfo),
    ThermalPowerInfo(ThermalPowerInfo),
    ExtendedFeatures(ExtendedFeatures),
    DirectCacheAccessInfo(DirectCacheAccessInfo),
    PerformanceMonitoringInfo(PerformanceMonitoringInfo),
    ExtendedTopologyLevel(ExtendedTopologyLevel),
    ExtendedStateInfo(ExtendedStateInfo<R>),
    ExtendedState(ExtendedState),
    RdtMonitoringInfo(RdtMonitoringInfo<R>),
    L3MonitoringInfo(L3MonitoringInfo),
    RdtAllocationInfo(RdtAllocationInfo<R>),
    L3CatInfo(L3CatInfo),
    L2CatInfo(L2CatInfo),
    MemBwAllocationInfo(MemBwAllocationInfo),
    SgxInfo(SgxInfo<R>),
    EpcSection(SgxSectionInfo),
    ProcessorTraceInfo(ProcessorTraceInfo),
    TscInfo(TscInfo),
    ProcessorFrequencyInfo(ProcessorFrequencyInfo),
    DatInfo(DatInfo),
    SoCVendorInfo(SoCVendorInfo<R>),
    SoCVendorBrand(SoCVendorBrand),
    HypervisorInfo(HypervisorInfo<R>),
    ExtendedProcessorFeatureIdentifiers(ExtendedProcessorFeatureIdentifiers),
    ProcessorBrandString(ProcessorBrandString),
    L1CacheTlbInfo(L1CacheTlbInfo),
    L2And3CacheTlbInfo(L2And3CacheTlbInfo),
    ApmInfo(ApmInfo),
    ProcessorCapacityAndFeatureInfo(ProcessorCapacityAndFeatureInfo),
    SvmFeatures(SvmFeatures),
    Tlb1gbPageInfo(Tlb1gbPageInfo),
    PerformanceOptimizationInfo(PerformanceOptimizationInfo),
    InstructionBasedSamplingCapabilities(InstructionBasedSamplingCapabilities),
    ProcessorTopologyInfo(ProcessorTopologyInfo),
    MemoryEncryptionInfo(MemoryEncryptionInfo),
    PqosExtendedFeatureInfo(PqosExtendedFeatureInfo<R>),
    L3MemoryBandwidthEnforcementInformation(L3MemoryBandwidthEnforcementInformation),
    BandwidthMonitoringEventCounters(BandwidthMonitoringEventCounters),
    AssignableBandwidthMonitoringCounterInfo(AssignableBandwidthMonitoringCounterInfo),
    ExtendedFeatureIdentification2(ExtendedFeatureIdentification2),
    ExtendedPerformanceMonitoringDebug(ExtendedPerformanceMonitoringDebug),
    MultiKeyEncryptedMemoryCapabilities(MultiKeyEncryptedMemoryCapabilities),
    ExtendedCpuTopologyLevel(ExtendedCpuTopologyLevel),
    CpuIdResult(CpuIdResult),
}
impl Obj {
    /// `==` and `!=` of the values of accessor `name`, where they are of a type of their own.
    pub fn same_part(&self, other: &Obj) -> Vec<(&'static str, Option<(bool, bool)>)> {
        macro_rules! parts {
            ($($N:ident: $($f:ident)+;)*) => {
                match (self, other) {
                    $((Obj::$N(a), Obj::$N(b)) => vec![$((stringify!($f), Cmp(&a.$f(), &b.$f()).same())),+],)*
                    _ => Vec::new(),
                }
            };
        }
        parts! {
            CacheParameter: cache_type;
            ExtendedTopologyLevel: level_type;
            ExtendedState: register location;
            DatInfo: cache_type;
            HypervisorInfo: identify;
            L1CacheTlbInfo: dcache_associativity icache_associativity itlb_2m_4m_associativity dtlb_2m_4m_associativity itlb_4k_associativity dtlb_4k_associativity;
            L2And3CacheTlbInfo: l2cache_associativity l3cache_associativity itlb_2m_4m_associativity dtlb_2m_4m_associativity itlb_4k_associativity dtlb_4k_associativity;
            Tlb1gbPageInfo: dtlb_l1_1gb_associativity itlb_l1_1gb_associativity dtlb_l2_1gb_associativity itlb_l2_1gb_associativity;
            ExtendedCpuTopologyLevel: level_type;
        }
    }
}
info!(VendorInfo, VendorInfo, {
    (x as_str (|o| s(o.as_str())) (|s| vendor_str(s)))
    (x as_string (|o| s(o.as_string())) (|s| vendor_str(s)))
});
info!(CacheInfo, CacheInfo, {
    (x num (|o| Val::U(o.num as u128)) (|s| Val::U(s.aux as u128)))
    (x typ (|o| cache_info_type(o.typ)) (|s| cache_info_exp(s.aux).0))
    (x desc (|o| self::s(o.desc())) (|s| cache_info_exp(s.aux).1))
});
info!(ProcessorSerial, ProcessorSerial, {
    (u serial_lower 0 C 0 31)
    (u serial_middle 0 D 0 31)
    (u serial_upper 1 A 0 31)
    (x serial (|o| Val::U(o.serial() as u128)) (|s| Val::U(s.k[0][C] as u128 | (s.k[0][D] as u128) << 32)))
    (x serial_all (|o| Val::U(o.serial_all())) (|s| Val::U(s.k[0][C] as u128 | (s.k[0][D] as u128) << 32 | (s.k[1][A] as u128) << 64)))
});
info!(FeatureInfo, FeatureInfo, {
    (u extended_family_id 0 A 20 27)
    (u extended_model_id 0 A 16 19)
    (u base_family_id 0 A 8 11)
    (u base_model_id 0 A 4 7)
    (x family_id (|o| Val::U(o.family_id() as u128)) (|s| family(s)))
    (x model_id (|o| Val::U(o.model_id() as u128)) (|s| model_id(s)))
    (u stepping_id 0 A 0 3)
    (u brand_index 0 B 0 7)
    (u cflush_cache_line_size 0 B 8 15)
    (u initial_local_apic_id 0 B 24 31)
    (u max_logical_processor_ids 0 B 16 23)
    (b has_sse3 0 C 0)
    (b has_pclmulqdq 0 C 1)
    (b has_ds_area 0 C 2)
    (b has_monitor_mwait 0 C 3)
    (b has_cpl 0 C 4)
    (b has_vmx 0 C 5)
    (b has_smx 0 C 6)
    (b has_eist 0 C 7)
    (b has_tm2 0 C 8)
    (b has_ssse3 0 C 9)
    (b has_cnxtid 0 C 10)
    (b has_fma 0 C 12)
    (b has_cmpxchg16b 0 C 13)
    (b has_pdcm 0 C 15)
    (b has_pcid 0 C 17)
    (b has_dca 0 C 18)
    (b has_sse41 0 C 19)
    (b has_sse42 0 C 20)
    (b has_x2apic 0 C 21)
    (b has_movbe 0 C 22)
    (b has_popcnt 0 C 23)
    (b has_tsc_deadline 0 C 24)
    (b has_aesni 0 C 25)
    (b has_xsave 0 C 26)
    (b has_oxsave 0 C 27)
    (b has_avx 0 C 28)
    (b has_f16c 0 C 29)
    (b has_rdrand 0 C 30)
    (b has_hypervisor 0 C 31)
    (b has_fpu 0 D 0)
    (b has_vme 0 D 1)
    (b has_de 0 D 2)
    (b has_pse 0 D 3)
    (b has_tsc 0 D 4)
    (b has_msr 0 D 5)
    (b has_pae 0 D 6)
    (b has_mce 0 D 7)
    (b has_cmpxchg8b 0 D 8)
    (b has_apic 0 D 9)
    (b has_sysenter_sysexit 0 D 11)
    (b has_mtrr 0 D 12)
    (b has_pge 0 D 13)
    (b has_mca 0 D 14)
    (b has_cmov 0 D 15)
    (b has_pat 0 D 16)
    (b has_pse36 0 D 17)
    (b has_psn 0 D 18)
    (b has_clflush 0 D 19)
    (b has_ds 0 D 21)
    (b has_acpi 0 D 22)
    (b has_mmx 0 D 23)
    (b has_fxsave_fxstor 0 D 24)
    (b has_sse 0 D 25)
    (b has_sse2 0 D 26)
    (b has_ss 0 D 27)
    (b has_htt 0 D 28)
    (b has_tm 0 D 29)
    (b has_pbe 0 D 31)
});
info!(CacheParameter, CacheParameter, {
    (x cache_type (|o| cache_type(o.cache_type())) (|s| e(["Null", "Data", "Instruction", "Unified"].get((s.k[0][A] & 31) as usize).copied().unwrap_or("Reserved"))))
    (u level 0 A 5 7)
    (b is_self_initializing 0 A 8)
    (b is_fully_associative 0 A 9)
    (u1 max_cores_for_cache 0 A 14 25)
    (u1 max_cores_for_package 0 A 26 31)
    (u1 coherency_line_size 0 B 0 11)
    (u1 physical_line_partitions 0 B 12 21)
    (u1 associativity 0 B 22 31)
    (x sets (|o| Val::U(o.sets() as u128)) (|s| Val::U(s.k[0][C] as u128 + 1)))
    (b is_write_back_invalidate 0 D 0)
    (b is_inclusive 0 D 1)
    (b has_complex_indexing 0 D 2)
});
info!(MonitorMwaitInfo, MonitorMwaitInfo, {
    (u smallest_monitor_line 0 A 0 15)
    (u largest_monitor_line 0 B 0 15)
    (b extensions_supported 0 C 0)
    (b interrupts_as_break_event 0 C 1)
    (u supported_c0_states 0 D 0 3)
    (u supported_c1_states 0 D 4 7)
    (u supported_c2_states 0 D 8 11)
    (u supported_c3_states 0 D 12 15)
    (u supported_c4_states 0 D 16 19)
    (u supported_c5_states 0 D 20 23)
    (u supported_c6_states 0 D 24 27)
    (u supported_c7_states 0 D 28 31)
});
info!(ThermalPowerInfo, ThermalPowerInfo, {
    (u dts_irq_threshold 0 B 0 3)
    (b has_dts 0 A 0)
    (b has_turbo_boost 0 A 1)
    (b has_arat 0 A 2)
    (b has_pln 0 A 4)
    (b has_ecmd 0 A 5)
    (b has_ptm 0 A 6)
    (b has_hwp 0 A 7)
    (b has_hwp_notification 0 A 8)
    (b has_hwp_activity_window 0 A 9)
    (b has_hwp_energy_performance_preference 0 A 10)
    (b has_hwp_package_level_request 0 A 11)
    (b has_hdc 0 A 13)
    (b has_turbo_boost3 0 A 14)
    (b has_hwp_capabilities 0 A 15)
    (b has_hwp_peci_override 0 A 16)
    (b has_flexible_hwp 0 A 17)
    (b has_hwp_fast_access_mode 0 A 18)
    (b has_ignore_idle_processor_hwp_request 0 A 20)
    (b has_hw_coord_feedback 0 C 0)
    (b has_energy_bias_pref 0 C 3)
});
info!(ExtendedFeatures, ExtendedFeatures, {
    (b has_fsgsbase 0 B 0)
    (b has_tsc_adjust_msr 0 B 1)
    (b has_bmi1 0 B 3)
    (b has_hle 0 B 4)
    (b has_avx2 0 B 5)
    (b has_fdp 0 B 6)
    (b has_smep 0 B 7)
    (b has_bmi2 0 B 8)
    (b has_rep_movsb_stosb 0 B 9)
    (b has_invpcid 0 B 10)
    (b has_rtm 0 B 11)
    (b has_rdtm 0 B 12)
    (b has_fpu_cs_ds_deprecated 0 B 13)
    (b has_mpx 0 B 14)
    (b has_rdta 0 B 15)
    (b has_rdseed 0 B 18)
    (b has_adx 0 B 19)
    (b has_smap 0 B 20)
    (b has_clflushopt 0 B 23)
    (b has_processor_trace 0 B 25)
    (b has_sha 0 B 29)
    (b has_sgx 0 B 2)
    (b has_avx512f 0 B 16)
    (b has_avx512dq 0 B 17)
    (b has_avx512_ifma 0 B 21)
    (b has_avx512pf 0 B 26)
    (b has_avx512er 0 B 27)
    (b has_avx512cd 0 B 28)
    (b has_avx512bw 0 B 30)
    (b has_avx512vl 0 B 31)
    (b has_clwb 0 B 24)
    (b has_prefetchwt1 0 C 0)
    (b has_avx512vbmi 0 C 1)
    (b has_umip 0 C 2)
    (b has_pku 0 C 3)
    (b has_ospke 0 C 4)
    (b has_waitpkg 0 C 5)
    (b has_av512vbmi2 0 C 6)
    (b has_avx512vbmi2 0 C 6)
    (b has_cet_ss 0 C 7)
    (b has_gfni 0 C 8)
    (b has_vaes 0 C 9)
    (b has_vpclmulqdq 0 C 10)
    (b has_avx512vnni 0 C 11)
    (b has_avx512bitalg 0 C 12)
    (b has_tme_en 0 C 13)
    (b has_avx512vpopcntdq 0 C 14)
    (b has_la57 0 C 16)
    (b has_rdpid 0 C 22)
    (b has_sgx_lc 0 C 30)
    (u mawau_value 0 C 17 21)
    (b has_avx512_4vnniw 0 D 2)
    (b has_avx512_4fmaps 0 D 3)
    (b has_avx512_vp2intersect 0 D 8)
    (b has_amx_bf16 0 D 22)
    (b has_avx512_fp16 0 D 23)
    (b has_amx_tile 0 D 24)
    (b has_amx_int8 0 D 25)
    (b has_avx_vnni 1 A 4)
    (b has_avx512_bf16 1 A 5)
    (b has_fzrm 1 A 10)
    (b has_fsrs 1 A 11)
    (b has_fsrcrs 1 A 12)
    (b has_hreset 1 A 22)
    (b has_avx_ifma 1 A 23)
    (b has_lam 1 A 26)
    (b has_msrlist 1 A 27)
    (b has_invd_disable_post_bios_done 1 A 30)
    (b has_avx_vnni_int8 1 D 4)
    (b has_avx_ne_convert 1 D 5)
    (b has_avx_vnni_int16 1 D 10)
    (b has_prefetchi 1 D 14)
    (b has_uiret_uif 1 D 17)
    (b has_cet_sss 1 D 18)
    (b has_avx10 1 D 19)
});
info!(DirectCacheAccessInfo, DirectCacheAccessInfo, {
    (u get_dca_cap_value 0 A 0 31)
});
info!(PerformanceMonitoringInfo, PerformanceMonitoringInfo, {
    (u version_id 0 A 0 7)
    (u number_of_counters 0 A 8 15)
    (u counter_bit_width 0 A 16 23)
    (u ebx_length 0 A 24 31)
    (u fixed_function_counters 0 D 0 4)
    (u fixed_function_counters_bit_width 0 D 5 12)
    (b has_any_thread_deprecation 0 D 15)
    (b is_core_cyc_ev_unavailable 0 B 0)
    (b is_inst_ret_ev_unavailable 0 B 1)
    (b is_ref_cycle_ev_unavailable 0 B 2)
    (b is_cache_ref_ev_unavailable 0 B 3)
    (b is_ll_cache_miss_ev_unavailable 0 B 4)
    (b is_branch_inst_ret_ev_unavailable 0 B 5)
    (b is_branch_midpred_ev_unavailable 0 B 6)
});
info!(ExtendedTopologyLevel, ExtendedTopologyLevel, {
    (u processors 0 B 0 15)
    (u level_number 0 C 0 7)
    (x level_type (|o| topo_type(o.level_type())) (|s| match (s.k[0][C] >> 8) & 0xff { 0 => e("Invalid"), 1 => e("SMT"), 2 => e("Core"), 3 => e("Module"), 4 => e("Tile"), 5 => e("Die"), _ => Val::Any }))
    (u x2apic_id 0 D 0 31)
    (u shift_right_for_next_apic_id 0 A 0 4)
});
info!(ExtendedStateInfo, ExtendedStateInfo<R>, {
    (b xcr0_supports_legacy_x87 0 A 0)
    (b xcr0_supports_sse_128 0 A 1)
    (b xcr0_supports_avx_256 0 A 2)
    (b xcr0_supports_mpx_bndregs 0 A 3)
    (b xcr0_supports_mpx_bndcsr 0 A 4)
    (b xcr0_supports_avx512_opmask 0 A 5)
    (b xcr0_supports_avx512_zmm_hi256 0 A 6)
    (b xcr0_supports_avx512_zmm_hi16 0 A 7)
    (b xcr0_supports_pkru 0 A 9)
    (b ia32_xss_supports_pt 1 C 8)
    (b ia32_xss_supports_hdc 1 C 13)
    (u xsave_area_size_enabled_features 0 B 0 31)
    (u xsave_area_size_supported_features 0 C 0 31)
    (b has_xsaveopt 1 A 0)
    (b has_xsavec 1 A 1)
    (b has_xgetbv 1 A 2)
    (b has_xsaves_xrstors 1 A 3)
    (u xsave_size 1 B 0 31)
});
info!(ExtendedState, ExtendedState, {
    (x register (|o| ext_reg(o.register())) (|s| match s.aux { 2 => e("Avx"), 3 => e("MpxBndregs"), 4 => e("MpxBndcsr"), 5 => e("Avx512Opmask"), 6 => e("Avx512ZmmHi256"), 7 => e("Avx512ZmmHi16"), 8 => e("Pt"), 9 => e("Pkru"), 13 => e("Hdc"), n => Val::E("Unknown", [n, 0, 0]) }))
    (u size 0 A 0 31)
    (u offset 0 B 0 31)
    (x location (|o| match o.location() { ExtendedRegisterStateLocation::Xcr0 => e("Xcr0"), ExtendedRegisterStateLocation::Ia32Xss => e("Ia32Xss") }) (|s| e(if s.k[0][C] & 1 == 1 { "Ia32Xss" } else { "Xcr0" })))
    (b is_in_ia32_xss 0 C 0)
    (x is_in_xcr0 (|o| Val::B(o.is_in_xcr0())) (|s| Val::B(s.k[0][C] & 1 == 0)))
    (b is_compacted_format 0 C 1)
});
info!(RdtMonitoringInfo, RdtMonitoringInfo<R>, {
    (u rmid_range 0 B 0 31)
    (b has_l3_monitoring 0 D 1)
});
info!(L3MonitoringInfo, L3MonitoringInfo, {
    (u conversion_factor 0 B 0 31)
    (u maximum_rmid_range 0 C 0 31)
    (b has_occupancy_monitoring 0 D 0)
    (b has_total_bandwidth_monitoring 0 D 1)
    (b has_local_bandwidth_monitoring 0 D 2)
});
info!(RdtAllocationInfo, RdtAllocationInfo<R>, {
    (b has_l3_cat 0 B 1)
    (b has_l2_cat 0 B 2)
    (b has_memory_bandwidth_allocation 0 B 3)
});
info!(L3CatInfo, L3CatInfo, {
    (u1 capacity_mask_length 0 A 0 4)
    (u isolation_bitmap 0 B 0 31)
    (u highest_cos 0 D 0 15)
    (b has_code_data_prioritization 0 C 2)
});
info!(L2CatInfo, L2CatInfo, {
    (u1 capacity_mask_length 0 A 0 4)
    (u isolation_bitmap 0 B 0 31)
    (u highest_cos 0 D 0 15)
});
info!(MemBwAllocationInfo, MemBwAllocationInfo, {
    (u1 max_hba_throttling 0 A 0 11)
    (u highest_cos 0 D 0 15)
    (b has_linear_response_delay 0 C 2)
});
info!(SgxInfo, SgxInfo<R>, {
    (b has_sgx1 0 A 0)
    (b has_sgx2 0 A 1)
    (b has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext 0 A 5)
    (b has_encls_leaves_etrackc_erdinfo_eldbc_elduc 0 A 6)
    (u miscselect 0 B 0 31)
    (u max_enclave_size_non_64bit 0 D 0 7)
    (u max_enclave_size_64bit 0 D 8 15)
    (x secs_attributes (|o| { let (a, b) = o.secs_attributes(); Val::P(a, b) }) (|s| Val::P(s.k[1][A] as u64 | (s.k[1][B] as u64) << 32, s.k[1][C] as u64 | (s.k[1][D] as u64) << 32)))
});
info!(EpcSection, SgxSectionInfo, {
    (x physical_base (|o| Val::U(epc(o).physical_base() as u128)) (|s| Val::U((s.k[0][A] & 0xffff_f000) as u128 | ((s.k[0][B] & 0xf_ffff) as u128) << 32)))
    (x size (|o| Val::U(epc(o).size() as u128)) (|s| Val::U((s.k[0][C] & 0xffff_f000) as u128 | ((s.k[0][D] & 0xf_ffff) as u128) << 32)))
});
info!(ProcessorTraceInfo, ProcessorTraceInfo, {
    (b has_rtit_cr3_match 0 B 0)
    (b has_configurable_psb_and_cycle_accurate_mode 0 B 1)
    (b has_ip_tracestop_filtering 0 B 2)
    (b has_mtc_timing_packet_coefi_suppression 0 B 3)
    (b has_ptwrite 0 B 4)
    (b has_power_event_trace 0 B 5)
    (b has_topa 0 C 0)
    (b has_topa_maximum_entries 0 C 1)
    (b has_single_range_output_scheme 0 C 2)
    (b has_trace_transport_subsystem 0 C 3)
    (b has_lip_with_cs_base 0 C 31)
    (u configurable_address_ranges 1 A 0 2)
    (u supported_mtc_period_encodings 1 A 16 31)
    (u supported_cycle_threshold_value_encodings 1 B 0 15)
    (u supported_psb_frequency_encodings 1 B 16 31)
});
info!(TscInfo, TscInfo, {
    (u denominator 0 A 0 31)
    (u numerator 0 B 0 31)
    (u nominal_frequency 0 C 0 31)
    (x tsc_frequency (|o| opt(o.tsc_frequency().map(|v| v as u128))) (|s| { let (d, n, f) = (s.k[0][A] as u128, s.k[0][B] as u128, s.k[0][C] as u128); if d == 0 || n == 0 || f == 0 { Val::N } else { Val::U(f * n / d) } }))
});
info!(ProcessorFrequencyInfo, ProcessorFrequencyInfo, {
    (u processor_base_frequency 0 A 0 15)
    (u processor_max_frequency 0 B 0 15)
    (u bus_frequency 0 C 0 15)
});
info!(DatInfo, DatInfo, {
    (b has_4k_entries 0 B 0)
    (b has_2mb_entries 0 B 1)
    (b has_4mb_entries 0 B 2)
    (b has_1gb_entries 0 B 3)
    (b is_fully_associative 0 D 8)
    (u partitioning 0 B 8 10)
    (u ways 0 B 16 31)
    (u sets 0 C 0 31)
    (x cache_type (|o| dat_type(o.cache_type())) (|s| e(["Null", "DataTLB", "InstructionTLB", "UnifiedTLB", "LoadOnly", "StoreOnly"].get((s.k[0][D] & 31) as usize).copied().unwrap_or("Unknown"))))
    (u cache_level 0 D 5 7)
    (u1 max_addressable_ids 0 D 14 25)
});
info!(SoCVendorInfo, SoCVendorInfo<R>, {
    (u get_soc_vendor_id 0 B 0 15)
    (u get_project_id 0 C 0 31)
    (u get_stepping_id 0 D 0 31)
});
info!(SoCVendorBrand, SoCVendorBrand, {
    (x as_str (|o| s(o.as_str())) (|s| fixed_str(s, "InvalidSoCVendorString")))
    (x as_string (|o| s(o.as_string())) (|s| fixed_str(s, "InvalidSoCVendorString")))
});
info!(HypervisorInfo, HypervisorInfo<R>, {
    (x identify (|o| hyp(o.identify())) (|s| hyp_exp(s)))
});
info!(ExtendedProcessorFeatureIdentifiers, ExtendedProcessorFeatureIdentifiers, {
    (u extended_signature 0 A 0 31)
    (u pkg_type 0 B 28 31)
    (u brand_id 0 B 0 15)
    (b has_lahf_sahf 0 C 0)
    (ba has_cmp_legacy 0 C 1)
    (ba has_svm 0 C 2)
    (ba has_ext_apic_space 0 C 3)
    (ba has_alt_mov_cr8 0 C 4)
    (b has_lzcnt 0 C 5)
    (ba has_sse4a 0 C 6)
    (ba has_misaligned_sse_mode 0 C 7)
    (b has_prefetchw 0 C 8)
    (ba has_osvw 0 C 9)
    (ba has_ibs 0 C 10)
    (ba has_xop 0 C 11)
    (ba has_skinit 0 C 12)
    (ba has_wdt 0 C 13)
    (ba has_lwp 0 C 15)
    (ba has_fma4 0 C 16)
    (ba has_tbm 0 C 21)
    (ba has_topology_extensions 0 C 22)
    (ba has_perf_cntr_extensions 0 C 23)
    (ba has_nb_perf_cntr_extensions 0 C 24)
    (ba has_data_access_bkpt_extension 0 C 26)
    (ba has_perf_tsc 0 C 27)
    (ba has_perf_cntr_llc_extensions 0 C 28)
    (ba has_monitorx_mwaitx 0 C 29)
    (ba has_addr_mask_extension 0 C 30)
    (b has_syscall_sysret 0 D 11)
    (b has_execute_disable 0 D 20)
    (ba has_mmx_extensions 0 D 22)
    (ba has_fast_fxsave_fxstor 0 D 25)
    (b has_1gib_pages 0 D 26)
    (b has_rdtscp 0 D 27)
    (b has_64bit_mode 0 D 29)
    (ba has_amd_3dnow_extensions 0 D 30)
    (ba has_3dnow 0 D 31)
});
info!(ProcessorBrandString, ProcessorBrandString, {
    (x as_str (|o| s(o.as_str())) (|s| brand(s)))
});
info!(L1CacheTlbInfo, L1CacheTlbInfo, {
    (asl1 dtlb_2m_4m_associativity 0 A 24 31)
    (u dtlb_2m_4m_size 0 A 16 23)
    (asl1 itlb_2m_4m_associativity 0 A 8 15)
    (u itlb_2m_4m_size 0 A 0 7)
    (asl1 dtlb_4k_associativity 0 B 24 31)
    (u dtlb_4k_size 0 B 16 23)
    (asl1 itlb_4k_associativity 0 B 8 15)
    (u itlb_4k_size 0 B 0 7)
    (u dcache_size 0 C 24 31)
    (asl1 dcache_associativity 0 C 16 23)
    (u dcache_lines_per_tag 0 C 8 15)
    (u dcache_line_size 0 C 0 7)
    (u icache_size 0 D 24 31)
    (asl1 icache_associativity 0 D 16 23)
    (u icache_lines_per_tag 0 D 8 15)
    (u icache_line_size 0 D 0 7)
});
info!(L2And3CacheTlbInfo, L2And3CacheTlbInfo, {
    (asl2 dtlb_2m_4m_associativity 0 A 28 31)
    (u dtlb_2m_4m_size 0 A 16 27)
    (asl2 itlb_2m_4m_associativity 0 A 12 15)
    (u itlb_2m_4m_size 0 A 0 11)
    (asl2 dtlb_4k_associativity 0 B 28 31)
    (u dtlb_4k_size 0 B 16 27)
    (asl2 itlb_4k_associativity 0 B 12 15)
    (u itlb_4k_size 0 B 0 11)
    (u l2cache_line_size 0 C 0 7)
    (u l2cache_lines_per_tag 0 C 8 11)
    (asl2 l2cache_associativity 0 C 12 15)
    (u l2cache_size 0 C 16 31)
    (u l3cache_line_size 0 D 0 7)
    (u l3cache_lines_per_tag 0 D 8 11)
    (asl2 l3cache_associativity 0 D 12 15)
    (u l3cache_size 0 D 18 31)
});
info!(ApmInfo, ApmInfo, {
    (b has_mca_overflow_recovery 0 B 0)
    (b has_succor 0 B 1)
    (b has_hwa 0 B 2)
    (u cpu_pwr_sample_time_ratio 0 C 0 31)
    (b has_ts 0 D 0)
    (b has_freq_id_ctrl 0 D 1)
    (b has_volt_id_ctrl 0 D 2)
    (b has_thermtrip 0 D 3)
    (b has_tm 0 D 4)
    (b has_100mhz_steps 0 D 6)
    (b has_hw_pstate 0 D 7)
    (b has_invariant_tsc 0 D 8)
    (b has_cpb 0 D 9)
    (b has_ro_effective_freq_iface 0 D 10)
    (b has_feedback_iface 0 D 11)
    (b has_power_reporting_iface 0 D 12)
});
info!(ProcessorCapacityAndFeatureInfo, ProcessorCapacityAndFeatureInfo, {
    (u physical_address_bits 0 A 0 7)
    (u linear_address_bits 0 A 8 15)
    (u guest_physical_address_bits 0 A 16 23)
    (b has_cl_zero 0 B 0)
    (b has_inst_ret_cntr_msr 0 B 1)
    (b has_restore_fp_error_ptrs 0 B 2)
    (b has_invlpgb 0 B 3)
    (b has_rdpru 0 B 4)
    (b has_mcommit 0 B 8)
    (b has_wbnoinvd 0 B 9)
    (b has_int_wbinvd 0 B 13)
    (b has_unsupported_efer_lmsle 0 B 20)
    (b has_invlpgb_nested 0 B 21)
    (x perf_tsc_size (|o| Val::U(o.perf_tsc_size() as u128)) (|s| Val::U(40 + 8 * ((s.k[0][C] >> 16) & 3) as u128)))
    (u apic_id_size 0 C 12 15)
    (x maximum_logical_processors (|o| Val::U(o.maximum_logical_processors() as u128)) (|s| Val::U(1u128 << ((s.k[0][C] >> 12) & 0xf))))
    (u1 num_phys_threads 0 C 0 7)
    (u invlpgb_max_pages 0 D 0 15)
    (u max_rdpru_id 0 D 16 31)
});
info!(SvmFeatures, SvmFeatures, {
    (u revision 0 A 0 7)
    (u supported_asids 0 B 0 31)
    (b has_nested_paging 0 D 0)
    (b has_lbr_virtualization 0 D 1)
    (b has_svm_lock 0 D 2)
    (b has_nrip 0 D 3)
    (b has_tsc_rate_msr 0 D 4)
    (b has_vmcb_clean_bits 0 D 5)
    (b has_flush_by_asid 0 D 6)
    (b has_decode_assists 0 D 7)
    (b has_pause_filter 0 D 10)
    (b has_pause_filter_threshold 0 D 12)
    (b has_avic 0 D 13)
    (b has_vmsave_virtualization 0 D 15)
    (b has_gif 0 D 16)
    (b has_gmet 0 D 17)
    (b has_sss_check 0 D 19)
    (b has_spec_ctrl 0 D 20)
    (b has_host_mce_override 0 D 23)
    (b has_tlb_ctrl 0 D 24)
});
info!(Tlb1gbPageInfo, Tlb1gbPageInfo, {
    (asl2 dtlb_l1_1gb_associativity 0 A 28 31)
    (u8b dtlb_l1_1gb_size 0 A 16 27)
    (asl2 itlb_l1_1gb_associativity 0 A 12 15)
    (u8b itlb_l1_1gb_size 0 A 0 11)
    (asl2 dtlb_l2_1gb_associativity 0 B 28 31)
    (u8b dtlb_l2_1gb_size 0 B 16 27)
    (asl2 itlb_l2_1gb_associativity 0 B 12 15)
    (u8b itlb_l2_1gb_size 0 B 0 11)
});
info!(PerformanceOptimizationInfo, PerformanceOptimizationInfo, {
    (b has_fp128 0 A 0)
    (b has_movu 0 A 1)
    (b has_fp256 0 A 2)
});
info!(InstructionBasedSamplingCapabilities, InstructionBasedSamplingCapabilities, {
    (b has_feature_flags 0 A 0)
    (b has_fetch_sampling 0 A 1)
    (b has_execution_sampling 0 A 2)
    (b has_read_write_operation_counter 0 A 3)
    (b has_operation_counter 0 A 4)
    (b has_branch_target_address_reporting 0 A 5)
    (b has_operation_counter_extended 0 A 6)
    (b has_invalid_rip_indication 0 A 7)
    (b has_fused_branch_micro_op_indication 0 A 8)
    (b has_l3_miss_filtering 0 A 11)
});
info!(ProcessorTopologyInfo, ProcessorTopologyInfo, {
    (u x2apic_id 0 A 0 31)
    (u core_id 0 B 0 7)
    (u1b threads_per_core 0 B 8 15)
    (u node_id 0 C 0 7)
    (u1 nodes_per_processor 0 C 8 10)
});
info!(MemoryEncryptionInfo, MemoryEncryptionInfo, {
    (b has_sme 0 A 0)
    (b has_sev 0 A 1)
    (b has_page_flush_msr 0 A 2)
    (b has_sev_es 0 A 3)
    (b has_sev_snp 0 A 4)
    (b has_vmpl 0 A 5)
    (b has_hw_enforced_cache_coh 0 A 10)
    (b has_64bit_mode 0 A 11)
    (b has_restricted_injection 0 A 12)
    (b has_alternate_injection 0 A 13)
    (b has_debug_swap 0 A 14)
    (b has_prevent_host_ibs 0 A 15)
    (b has_vte 0 A 16)
    (u c_bit_position 0 B 0 5)
    (u physical_address_reduction 0 B 6 11)
    (u max_encrypted_guests 0 C 0 31)
    (u min_sev_no_es_asid 0 D 0 31)
});
info!(PqosExtendedFeatureInfo, PqosExtendedFeatureInfo<R>, {
    (b has_l3mbe 0 B 1)
    (b has_l3smbe 0 B 2)
    (b has_bmec 0 B 3)
    (b has_l3rr 0 B 4)
    (b has_abmc 0 B 5)
    (b has_sdciae 0 B 6)
});
info!(L3MemoryBandwidthEnforcementInformation, L3MemoryBandwidthEnforcementInformation, {
    (u bandwidth_length 0 A 0 31)
    (u cos_max 0 D 0 31)
});
info!(BandwidthMonitoringEventCounters, BandwidthMonitoringEventCounters, {
    (u number_events 0 B 0 7)
    (b has_l3_cache_lcl_bw_fill_mon 0 C 0)
    (b has_l3_cache_rmt_bw_fill_mon 0 C 1)
    (b has_l3_cache_lcl_bw_nt_wr_mon 0 C 2)
    (b has_l3_cache_rmt_bw_nt_wr_mon 0 C 3)
    (b has_l3_cache_lcl_slow_bw_fill_mon 0 C 4)
    (b has_l3_cache_rmt_slow_bw_fill_mon 0 C 5)
    (b has_l3_cache_vic_mon 0 C 6)
});
info!(AssignableBandwidthMonitoringCounterInfo, AssignableBandwidthMonitoringCounterInfo, {
    (u counter_size 0 A 0 7)
    (b has_overflow_bit 0 A 8)
    (u max_abmc 0 B 0 15)
    (b has_select_cos 0 C 0)
});
info!(ExtendedFeatureIdentification2, ExtendedFeatureIdentification2, {
    (b has_no_nested_data_bp 0 A 0)
    (b has_lfence_always_serializing 0 A 2)
    (b has_smm_pg_cfg_lock 0 A 3)
    (b has_null_select_clears_base 0 A 6)
    (b has_upper_address_ignore 0 A 7)
    (b has_automatic_ibrs 0 A 8)
    (b has_no_smm_ctl_msr 0 A 9)
    (b has_prefetch_ctl_msr 0 A 13)
    (b has_cpuid_user_dis 0 A 17)
    (u microcode_patch_size 0 B 0 11)
});
info!(ExtendedPerformanceMonitoringDebug, ExtendedPerformanceMonitoringDebug, {
    (b has_perf_mon_v2 0 A 0)
    (b has_lbr_stack 0 A 1)
    (b has_lbr_and_pmc_freeze 0 A 2)
    (u num_perf_ctr_core 0 B 0 3)
    (u num_lbr_stack_size 0 B 4 9)
    (u num_perf_ctr_nb 0 B 10 15)
});
info!(MultiKeyEncryptedMemoryCapabilities, MultiKeyEncryptedMemoryCapabilities, {
    (b has_mem_hmk 0 A 0)
    (u max_mem_hmk_encr_key_id 0 B 0 15)
});
info!(ExtendedCpuTopologyLevel, ExtendedCpuTopologyLevel, {
    (u mask_width 0 A 0 4)
    (b has_efficiency_ranking_available 0 A 29)
    (b has_heterogeneous_cores 0 A 30)
    (b has_asymmetric_topology 0 A 31)
    (u num_logical_processors 0 B 0 15)
    (u pwr_efficiency_ranking 0 B 16 23)
    (u native_mode_id 0 B 24 27)
    (u core_type 0 B 28 31)
    (u input_ecx 0 C 0 7)
    (x level_type (|o| hier(o.level_type())) (|s| match (s.k[0][C] >> 8) & 0xff { 0 => e("Reserved"), 1 => e("Core"), 2 => e("Complex"), 3 => e("Die"), 4 => e("Socket"), n => Val::E("Unknown", [n, 0, 0]) }))
    (u extended_apic_id 0 D 0 31)
});
info!(CpuIdResult, CpuIdResult, {
    (x regs (|o| Val::P(o.eax as u64 | (o.ebx as u64) << 32, o.ecx as u64 | (o.edx as u64) << 32)) (|s| Val::P(s.k[0][A] as u64 | (s.k[0][B] as u64) << 32, s.k[0][C] as u64 | (s.k[0][D] as u64) << 32)))
    (x all_zero (|o| Val::B(o.all_zero())) (|s| Val::B(s.k[0] == [0; 4])))
});

pub const CACHE_DESC: &[(u8, &str, &str)] = &[
    (0x00, "General", "Null descriptor, this byte contains no information"),
    (0x01, "TLB", "Instruction TLB: 4 KByte pages, 4-way set associative, 32 entries"),
    (0x02, "TLB", "Instruction TLB: 4 MByte pages, fully associative, 2 entries"),
    (0x03, "TLB", "Data TLB: 4 KByte pages, 4-way set associative, 64 entries"),
    (0x04, "TLB", "Data TLB: 4 MByte pages, 4-way set associative, 8 entries"),
    (0x05, "TLB", "Data TLB1: 4 MByte pages, 4-way set associative, 32 entries"),
    (0x06, "Cache", "1st-level instruction cache: 8 KBytes, 4-way set associative, 32 byte line size"),
    (0x08, "Cache", "1st-level instruction cache: 16 KBytes, 4-way set associative, 32 byte line size"),
    (0x09, "Cache", "1st-level instruction cache: 32KBytes, 4-way set associative, 64 byte line size"),
    (0x0a, "Cache", "1st-level data cache: 8 KBytes, 2-way set associative, 32 byte line size"),
    (0x0b, "TLB", "Instruction TLB: 4 MByte pages, 4-way set associative, 4 entries"),
    (0x0c, "Cache", "1st-level data cache: 16 KBytes, 4-way set associative, 32 byte line size"),
    (0x0d, "Cache", "1st-level data cache: 16 KBytes, 4-way set associative, 64 byte line size"),
    (0x0e, "Cache", "1st-level data cache: 24 KBytes, 6-way set associative, 64 byte line size"),
    (0x21, "Cache", "2nd-level cache: 256 KBytes, 8-way set associative, 64 byte line size"),
    (0x22, "Cache", "3rd-level cache: 512 KBytes, 4-way set associative, 64 byte line size, 2 lines per sector"),
    (0x23, "Cache", "3rd-level cache: 1 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x24, "Cache", "2nd-level cache: 1 MBytes, 16-way set associative, 64 byte line size"),
    (0x25, "Cache", "3rd-level cache: 2 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x29, "Cache", "3rd-level cache: 4 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x2c, "Cache", "1st-level data cache: 32 KBytes, 8-way set associative, 64 byte line size"),
    (0x30, "Cache", "1st-level instruction cache: 32 KBytes, 8-way set associative, 64 byte line size"),
    (0x40, "Cache", "No 2nd-level cache or, if processor contains a valid 2nd-level cache, no 3rd-level cache"),
    (0x41, "Cache", "2nd-level cache: 128 KBytes, 4-way set associative, 32 byte line size"),
    (0x42, "Cache", "2nd-level cache: 256 KBytes, 4-way set associative, 32 byte line size"),
    (0x43, "Cache", "2nd-level cache: 512 KBytes, 4-way set associative, 32 byte line size"),
    (0x44, "Cache", "2nd-level cache: 1 MByte, 4-way set associative, 32 byte line size"),
    (0x45, "Cache", "2nd-level cache: 2 MByte, 4-way set associative, 32 byte line size"),
    (0x46, "Cache", "3rd-level cache: 4 MByte, 4-way set associative, 64 byte line size"),
    (0x47, "Cache", "3rd-level cache: 8 MByte, 8-way set associative, 64 byte line size"),
    (0x48, "Cache", "2nd-level cache: 3MByte, 12-way set associative, 64 byte line size"),
    (0x49, "Cache", "3rd-level cache: 4MB, 16-way set associative, 64-byte line size (Intel Xeon processor MP, Family 0FH, Model 06H); 2nd-level cache: 4 MByte, 16-way set ssociative, 64 byte line size"),
    (0x4a, "Cache", "3rd-level cache: 6MByte, 12-way set associative, 64 byte line size"),
    (0x4b, "Cache", "3rd-level cache: 8MByte, 16-way set associative, 64 byte line size"),
    (0x4c, "Cache", "3rd-level cache: 12MByte, 12-way set associative, 64 byte line size"),
    (0x4d, "Cache", "3rd-level cache: 16MByte, 16-way set associative, 64 byte line size"),
    (0x4e, "Cache", "2nd-level cache: 6MByte, 24-way set associative, 64 byte line size"),
    (0x4f, "TLB", "Instruction TLB: 4 KByte pages, 32 entries"),
    (0x50, "TLB", "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 64 entries"),
    (0x51, "TLB", "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 128 entries"),
    (0x52, "TLB", "Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 256 entries"),
    (0x55, "TLB", "Instruction TLB: 2-MByte or 4-MByte pages, fully associative, 7 entries"),
    (0x56, "TLB", "Data TLB0: 4 MByte pages, 4-way set associative, 16 entries"),
    (0x57, "TLB", "Data TLB0: 4 KByte pages, 4-way associative, 16 entries"),
    (0x59, "TLB", "Data TLB0: 4 KByte pages, fully associative, 16 entries"),
    (0x5a, "TLB", "Data TLB0: 2-MByte or 4 MByte pages, 4-way set associative, 32 entries"),
    (0x5b, "TLB", "Data TLB: 4 KByte and 4 MByte pages, 64 entries"),
    (0x5c, "TLB", "Data TLB: 4 KByte and 4 MByte pages,128 entries"),
    (0x5d, "TLB", "Data TLB: 4 KByte and 4 MByte pages,256 entries"),
    (0x60, "Cache", "1st-level data cache: 16 KByte, 8-way set associative, 64 byte line size"),
    (0x61, "TLB", "Instruction TLB: 4 KByte pages, fully associative, 48 entries"),
    (0x63, "TLB", "Data TLB: 2 MByte or 4 MByte pages, 4-way set associative, 32 entries and a separate array with 1 GByte pages, 4-way set associative, 4 entries"),
    (0x66, "Cache", "1st-level data cache: 8 KByte, 4-way set associative, 64 byte line size"),
    (0x67, "Cache", "1st-level data cache: 16 KByte, 4-way set associative, 64 byte line size"),
    (0x68, "Cache", "1st-level data cache: 32 KByte, 4-way set associative, 64 byte line size"),
    (0x6a, "Cache", "uTLB: 4 KByte pages, 8-way set associative, 64 entries"),
    (0x6b, "Cache", "DTLB: 4 KByte pages, 8-way set associative, 256 entries"),
    (0x6c, "Cache", "DTLB: 2M/4M pages, 8-way set associative, 128 entries"),
    (0x6d, "Cache", "DTLB: 1 GByte pages, fully associative, 16 entries"),
    (0x70, "Cache", "Trace cache: 12 K-μop, 8-way set associative"),
    (0x71, "Cache", "Trace cache: 16 K-μop, 8-way set associative"),
    (0x72, "Cache", "Trace cache: 32 K-μop, 8-way set associative"),
    (0x76, "TLB", "Instruction TLB: 2M/4M pages, fully associative, 8 entries"),
    (0x78, "Cache", "2nd-level cache: 1 MByte, 4-way set associative, 64byte line size"),
    (0x79, "Cache", "2nd-level cache: 128 KByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7a, "Cache", "2nd-level cache: 256 KByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7b, "Cache", "2nd-level cache: 512 KByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7c, "Cache", "2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size, 2 lines per sector"),
    (0x7d, "Cache", "2nd-level cache: 2 MByte, 8-way set associative, 64byte line size"),
    (0x7f, "Cache", "2nd-level cache: 512 KByte, 2-way set associative, 64-byte line size"),
    (0x80, "Cache", "2nd-level cache: 512 KByte, 8-way set associative, 64-byte line size"),
    (0x82, "Cache", "2nd-level cache: 256 KByte, 8-way set associative, 32 byte line size"),
    (0x83, "Cache", "2nd-level cache: 512 KByte, 8-way set associative, 32 byte line size"),
    (0x84, "Cache", "2nd-level cache: 1 MByte, 8-way set associative, 32 byte line size"),
    (0x85, "Cache", "2nd-level cache: 2 MByte, 8-way set associative, 32 byte line size"),
    (0x86, "Cache", "2nd-level cache: 512 KByte, 4-way set associative, 64 byte line size"),
    (0x87, "Cache", "2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size"),
    (0xb0, "TLB", "Instruction TLB: 4 KByte pages, 4-way set associative, 128 entries"),
    (0xb1, "TLB", "Instruction TLB: 2M pages, 4-way, 8 entries or 4M pages, 4-way, 4 entries"),
    (0xb2, "TLB", "Instruction TLB: 4KByte pages, 4-way set associative, 64 entries"),
    (0xb3, "TLB", "Data TLB: 4 KByte pages, 4-way set associative, 128 entries"),
    (0xb4, "TLB", "Data TLB1: 4 KByte pages, 4-way associative, 256 entries"),
    (0xb5, "TLB", "Instruction TLB: 4KByte pages, 8-way set associative, 64 entries"),
    (0xb6, "TLB", "Instruction TLB: 4KByte pages, 8-way set associative, 128 entries"),
    (0xba, "TLB", "Data TLB1: 4 KByte pages, 4-way associative, 64 entries"),
    (0xc0, "TLB", "Data TLB: 4 KByte and 4 MByte pages, 4-way associative, 8 entries"),
    (0xc1, "STLB", "Shared 2nd-Level TLB: 4 KByte/2MByte pages, 8-way associative, 1024 entries"),
    (0xc2, "DTLB", "DTLB: 2 MByte/$MByte pages, 4-way associative, 16 entries"),
    (0xca, "STLB", "Shared 2nd-Level TLB: 4 KByte pages, 4-way associative, 512 entries"),
    (0xd0, "Cache", "3rd-level cache: 512 KByte, 4-way set associative, 64 byte line size"),
    (0xd1, "Cache", "3rd-level cache: 1 MByte, 4-way set associative, 64 byte line size"),
    (0xd2, "Cache", "3rd-level cache: 2 MByte, 4-way set associative, 64 byte line size"),
    (0xd6, "Cache", "3rd-level cache: 1 MByte, 8-way set associative, 64 byte line size"),
    (0xd7, "Cache", "3rd-level cache: 2 MByte, 8-way set associative, 64 byte line size"),
    (0xd8, "Cache", "3rd-level cache: 4 MByte, 8-way set associative, 64 byte line size"),
    (0xdc, "Cache", "3rd-level cache: 1.5 MByte, 12-way set associative, 64 byte line size"),
    (0xdd, "Cache", "3rd-level cache: 3 MByte, 12-way set associative, 64 byte line size"),
    (0xde, "Cache", "3rd-level cache: 6 MByte, 12-way set associative, 64 byte line size"),
    (0xe2, "Cache", "3rd-level cache: 2 MByte, 16-way set associative, 64 byte line size"),
    (0xe3, "Cache", "3rd-level cache: 4 MByte, 16-way set associative, 64 byte line size"),
    (0xe4, "Cache", "3rd-level cache: 8 MByte, 16-way set associative, 64 byte line size"),
    (0xea, "Cache", "3rd-level cache: 12MByte, 24-way set associative, 64 byte line size"),
    (0xeb, "Cache", "3rd-level cache: 18MByte, 24-way set associative, 64 byte line size"),
    (0xec, "Cache", "3rd-level cache: 24MByte, 24-way set associative, 64 byte line size"),
    (0xf0, "Prefetch", "64-Byte prefetching"),
    (0xf1, "Prefetch", "128-Byte prefetching"),
    (0xfe, "General", "CPUID leaf 2 does not report TLB descriptor information; use CPUID leaf 18H to query TLB and other address translation parameters."),
    (0xff, "General", "CPUID leaf 2 does not report cache descriptor information, use CPUID leaf 4 to query cache parameters"),
];
