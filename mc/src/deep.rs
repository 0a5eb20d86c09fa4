//! Calls every accessor a delivered packet offers: fields, views, iterators and their items.
use crate::*;
use ublox::*;

pub struct Obs {
    pub group: &'static str,
    pub i: usize,
    pub name: &'static str,
    pub v: Val,
}

macro_rules! name_of {
    ($x:expr, $t:ident: $($v:ident),*) => { match $x { $( $t::$v => Val::E(stringify!($v), None), )* #[allow(unreachable_patterns)] _ => Val::E("no variant of the table", None) } };
}

pub fn sv_flags(i: usize, f: NavSatSvFlags, s: &mut dyn FnMut(Obs)) {
    let mut put = |name, v| s(Obs { group: "svs.flags", i, name, v });
    put("quality_ind", name_of!(f.quality_ind(), NavSatQualityIndicator: NoSignal, Searching, SignalAcquired, SignalDetected, CodeLock, CarrierLock));
    put(
        "health",
        match f.health() {
            NavSatSvHealth::Healthy => Val::E("Healthy", None),
            NavSatSvHealth::Unhealthy => Val::E("Unhealthy", None),
            NavSatSvHealth::Unknown(x) => Val::E("Unknown", Some(x as u64)),
            #[allow(unreachable_patterns)]
            _ => Val::E("no variant of the table", None),
        },
    );
    put(
        "orbit_source",
        match f.orbit_source() {
            NavSatOrbitSource::NoInfoAvailable => Val::E("NoInfoAvailable", None),
            NavSatOrbitSource::Ephemeris => Val::E("Ephemeris", None),
            NavSatOrbitSource::Almanac => Val::E("Almanac", None),
            NavSatOrbitSource::AssistNowOffline => Val::E("AssistNowOffline", None),
            NavSatOrbitSource::AssistNowAutonomous => Val::E("AssistNowAutonomous", None),
            NavSatOrbitSource::Other(x) => Val::E("Other", Some(x as u64)),
            #[allow(unreachable_patterns)]
            _ => Val::E("no variant of the table", None),
        },
    );
    put("sv_used", Val::B(f.sv_used()));
    put("differential_correction_available", Val::B(f.differential_correction_available()));
    put("smoothed", Val::B(f.smoothed()));
    put("ephemeris_available", Val::B(f.ephemeris_available()));
    put("almanac_available", Val::B(f.almanac_available()));
    put("an_offline_available", Val::B(f.an_offline_available()));
    put("an_auto_available", Val::B(f.an_auto_available()));
    put("sbas_corr", Val::B(f.sbas_corr()));
    put("rtcm_corr", Val::B(f.rtcm_corr()));
    put("slas_corr", Val::B(f.slas_corr()));
    put("spartn_corr", Val::B(f.spartn_corr()));
    put("pr_corr", Val::B(f.pr_corr()));
    put("cr_corr", Val::B(f.cr_corr()));
    put("do_corr", Val::B(f.do_corr()));
}

fn text(x: Option<&str>) -> Val {
    match x {
        Some(t) => Val::Str(t.as_bytes().to_vec()),
        None => Val::E("absent", None),
    }
}

/// Everything behind the plain fields.
pub fn deep(p: &PacketRef, s: &mut dyn FnMut(Obs)) {
    match p {
        PacketRef::NavStatus(r) => {
            let f = r.fix_stat();
            s(Obs { group: "fix_stat", i: 0, name: "has_pr_prr_correction", v: Val::B(f.has_pr_prr_correction()) });
            s(Obs { group: "fix_stat", i: 0, name: "map_matching", v: name_of!(f.map_matching(), MapMatchingStatus: None, Valid, Used, Dr) });
        },
        PacketRef::NavSat(r) => {
            for (i, v) in r.svs().enumerate() {
                obs_NavSatSvInfo(&v, &mut |k, raw, val| {
                    let f = &PACKETS[PK_NavSatSvInfo].fields[k];
                    s(Obs { group: if raw { "svs.raw" } else { "svs" }, i, name: f.name, v: val });
                });
                s(Obs { group: "svs.bytes", i, name: "", v: Val::Bytes(v.as_bytes().to_vec()) });
                sv_flags(i, v.flags(), s);
            }
        },
        PacketRef::RxmRawx(r) => {
            for (i, v) in r.measurements().enumerate() {
                obs_RxmRawxInfo(&v, &mut |k, raw, val| {
                    let f = &PACKETS[PK_RxmRawxInfo].fields[k];
                    s(Obs { group: if raw { "measurements.raw" } else { "measurements" }, i, name: f.name, v: val });
                });
                s(Obs { group: "measurements.bytes", i, name: "", v: Val::Bytes(v.as_bytes().to_vec()) });
            }
        },
        PacketRef::RxmSfrbx(r) => {
            for (i, v) in r.dwrd().enumerate() {
                s(Obs { group: "dwrd", i, name: "", v: Val::U(v as u64) });
            }
        },
        PacketRef::EsfMeas(r) => {
            for (i, v) in r.data().enumerate() {
                s(Obs { group: "data", i, name: "data_type", v: Val::U(v.data_type as u64) });
                s(Obs { group: "data", i, name: "data_field", v: Val::U(v.data_field as u64) });
            }
            s(Obs { group: "calib_tag", i: 0, name: "", v: r.calib_tag().map_or(Val::E("absent", None), |x| Val::U(x as u64)) });
        },
        PacketRef::EsfRaw(r) => {
            for (i, v) in r.data().enumerate() {
                s(Obs { group: "data", i, name: "data_type", v: Val::U(v.data_type as u64) });
                s(Obs { group: "data", i, name: "data_field", v: Val::U(v.data_field as u64) });
                s(Obs { group: "data", i, name: "sensor_time_tag", v: Val::U(v.sensor_time_tag as u64) });
            }
        },
        PacketRef::MonVer(r) => {
            for (i, v) in r.extension().enumerate() {
                s(Obs { group: "extension", i, name: "", v: Val::Str(v.as_bytes().to_vec()) });
            }
        },
        PacketRef::InfError(r) => s(Obs { group: "message", i: 0, name: "", v: text(r.message()) }),
        PacketRef::InfWarning(r) => s(Obs { group: "message", i: 0, name: "", v: text(r.message()) }),
        PacketRef::InfNotice(r) => s(Obs { group: "message", i: 0, name: "", v: text(r.message()) }),
        PacketRef::InfTest(r) => s(Obs { group: "message", i: 0, name: "", v: text(r.message()) }),
        PacketRef::InfDebug(r) => s(Obs { group: "message", i: 0, name: "", v: text(r.message()) }),
        PacketRef::TimTp(r) => {
            let f = r.flags();
            let mut put = |name, v| s(Obs { group: "flags", i: 0, name, v });
            put("time_base", name_of!(f.time_base(), TimTpTimeBase: Gnss, Utc));
            put("utc_available", Val::B(f.utc_available()));
            put("raim_active", f.raim_active().map_or(Val::E("absent", None), Val::B));
            put("q_err_valid", Val::B(f.q_err_valid()));
            let q = r.ref_info();
            let v = match q.time_ref_gnss() {
                None => Val::E("absent", None),
                Some(x) => name_of!(x, TimTpRefInfoTimeRefGnss: Gps, Glo, Bds, Gal, NavIc),
            };
            s(Obs { group: "ref_info", i: 0, name: "time_ref_gnss", v });
            let v = match q.utc_standard() {
                None => Val::E("absent", None),
                Some(x) => name_of!(x, TimTpRefInfoUtcStandard: Crl, Nist, Usno, Bipm, Eu, Su, Ntsc, Npli),
            };
            s(Obs { group: "ref_info", i: 0, name: "utc_standard", v });
        },
        PacketRef::TimTm2(r) => {
            let f = r.flags();
            let mut put = |name, v| s(Obs { group: "flags", i: 0, name, v });
            put("mode", name_of!(f.mode(), TimTm2Mode: Single, Running));
            put("run", name_of!(f.run(), TimTm2Run: Armed, Stopped));
            put("new_falling_edge", Val::B(f.new_falling_edge()));
            put("new_rising_edge", Val::B(f.new_rising_edge()));
            put("time_base", name_of!(f.time_base(), TimTm2TimeBase: Receiver, Gnss, Utc));
            put("utc_available", Val::B(f.utc_available()));
            put("time_valid", Val::B(f.time_valid()));
        },
        #[cfg(feature = "serde")]
        PacketRef::CfgItfm(r) => {
            if let Ok(v) = capture(&r.config()) {
                for n in ["enable", "bb_threshold", "cw_threshold", "algorithm_bits"] {
                    s(Obs { group: "config", i: 0, name: n, v: sv_val(v.get(n)) });
                }
            }
            if let Ok(v) = capture(&r.config2()) {
                for n in ["general", "antenna", "scan_aux_bands"] {
                    s(Obs { group: "config2", i: 0, name: n, v: sv_val(v.get(n)) });
                }
            }
        },
        #[cfg(feature = "serde")]
        PacketRef::CfgPrtUart(r) => {
            if let Ok(v) = capture(&r.mode()) {
                for n in ["data_bits", "parity", "stop_bits"] {
                    s(Obs { group: "mode", i: 0, name: n, v: sv_val(v.get(n)) });
                }
            }
        },
        _ => {},
    }
}

#[cfg(feature = "serde")]
fn sv_val(v: Option<&SV>) -> Val {
    match v.map(|x| x.plain()) {
        Some(SV::U(x)) => Val::U(*x),
        Some(SV::I(x)) => Val::I(*x),
        Some(SV::B(x)) => Val::B(*x),
        Some(SV::Variant(n, None)) => Val::D(n.clone()),
        x => Val::D(format!("{x:?}")),
    }
}

/// Uses a delivered packet in every way a receiver can. Must not panic.
pub fn exercise(p: &PacketRef) -> usize {
    let mut n = 0;
    let _ = observe(p, &mut |_, _, _| n += 1);
    deep(p, &mut |_| n += 1);
    n += p.class_and_msg_id().0 as usize;
    n
}

/// Formatting and serialising.
#[cfg(feature = "serde")]
pub fn render(p: &PacketRef) -> usize {
    let mut n = format!("{p:?}").len() + format!("{p:#?}").len() + debug_inner(p).len();
    if capture(p).is_ok() {
        n += 1;
    }
    if let Some(Ok(_)) = serialize_inner(p, Cap) {
        n += 1;
    }
    n + convert(p)
}

/// The derived conversions.
pub fn convert(p: &PacketRef) -> usize {
    use std::convert::TryFrom;
    match p {
        PacketRef::NavPosLlh(r) => Position::from(r).lon.is_nan() as usize,
        PacketRef::NavHpPosLlh(r) => Position::from(r).lon.is_nan() as usize,
        PacketRef::NavHpPosEcef(r) => PositionECEF::from(r).x.is_nan() as usize,
        PacketRef::NavVelNed(r) => Velocity::from(r).speed.is_nan() as usize,
        PacketRef::NavPvt(r) => {
            let a = Position::from(r).lon.is_nan() as usize;
            let b = Velocity::from(r).speed.is_nan() as usize;
            a + b + chrono::DateTime::<chrono::Utc>::try_from(r).is_ok() as usize
        },
        PacketRef::AckAck(r) => r.is_ack_for::<NavPvt>() as usize,
        PacketRef::AckNak(r) => r.is_nak_for::<NavPvt>() as usize,
        _ => 0,
    }
}
