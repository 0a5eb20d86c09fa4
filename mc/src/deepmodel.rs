//! What `deep` has to observe: the documented meaning of bit fields and repeated blocks.
use crate::*;

const TF: fn(u64) -> Val = |x| Val::B(x != 0);
fn e(n: &'static str) -> Val {
    Val::E(n, None)
}
fn ec(n: &'static str, c: u64) -> Val {
    Val::E(n, Some(c))
}
fn absent() -> Val {
    Val::E("absent", None)
}

/// NAV-SAT satellite flags: bits 2..0 signal quality, 3 used, 5..4 health, 6 differential
/// correction, 7 smoothed, 10..8 orbit source, 11.. availability and corrections.
pub fn want_sv_flags(i: usize, w: u64, o: &mut Vec<Obs>) {
    let mut put = |name, v| o.push(Obs { group: "svs.flags", i, name, v });
    let b = |k: u32| TF(w >> k & 1);
    put("quality_ind", e(["NoSignal", "Searching", "SignalAcquired", "SignalDetected", "CodeLock", "CarrierLock", "CarrierLock", "CarrierLock"][(w & 7) as usize]));
    put("health", match w >> 4 & 3 {
        1 => e("Healthy"),
        2 => e("Unhealthy"),
        x => ec("Unknown", x),
    });
    put("orbit_source", match w >> 8 & 7 {
        x @ 0..=4 => e(["NoInfoAvailable", "Ephemeris", "Almanac", "AssistNowOffline", "AssistNowAutonomous"][x as usize]),
        x => ec("Other", x),
    });
    put("sv_used", b(3));
    put("differential_correction_available", b(6));
    put("smoothed", b(7));
    put("ephemeris_available", b(11));
    put("almanac_available", b(12));
    put("an_offline_available", b(13));
    put("an_auto_available", b(14));
    put("sbas_corr", b(16));
    put("rtcm_corr", b(17));
    put("slas_corr", b(18));
    put("spartn_corr", b(19));
    put("pr_corr", b(20));
    put("cr_corr", b(21));
    put("do_corr", b(22));
}

/// A fixed block's fields from its own bytes: raw values, so that scales stay the table's matter.
fn block(pk: usize, b: &[u8], group: (&'static str, &'static str), i: usize, o: &mut Vec<Obs>) {
    for f in PACKETS[pk].fields {
        let fb = &b[f.off..f.off + f.size];
        let raw = match f.kind {
            Kind::U => Val::U(raw_u(fb)),
            Kind::I => Val::I(raw_i(fb)),
            Kind::F if f.size == 8 => Val::F(f64::from_bits(raw_u(fb))),
            Kind::F => Val::F32(f32::from_bits(raw_u(fb) as u32)),
            _ => Val::Bytes(fb.to_vec()),
        };
        if f.map != Map::None {
            o.push(Obs { group: group.1, i, name: f.name, v: raw.clone() });
        }
        o.push(Obs { group: group.0, i, name: f.name, v: raw });
    }
}

/// `None`: this definition has nothing behind its plain fields.
pub fn want_deep(pk: usize, b: &[u8]) -> Vec<Obs> {
    let mut o = vec![];
    let u = |at: usize, n: usize| raw_u(&b[at..at + n]);
    match pk {
        PK_NavStatus => {
            let w = u(6, 1);
            o.push(Obs { group: "fix_stat", i: 0, name: "has_pr_prr_correction", v: TF(w & 1) });
            o.push(Obs { group: "fix_stat", i: 0, name: "map_matching", v: e(["None", "Valid", "Used", "Dr"][(w >> 6 & 3) as usize]) });
        },
        PK_NavSat => {
            for (i, x) in b[8..].chunks(12).enumerate() {
                block(PK_NavSatSvInfo, x, ("svs", "svs.raw"), i, &mut o);
                o.push(Obs { group: "svs.bytes", i, name: "", v: Val::Bytes(x.to_vec()) });
                want_sv_flags(i, raw_u(&x[8..12]), &mut o);
            }
        },
        PK_RxmRawx => {
            for (i, x) in b[16..].chunks(32).enumerate() {
                block(PK_RxmRawxInfo, x, ("measurements", "measurements.raw"), i, &mut o);
                o.push(Obs { group: "measurements.bytes", i, name: "", v: Val::Bytes(x.to_vec()) });
            }
        },
        PK_RxmSfrbx => {
            for (i, x) in b[8..].chunks(4).enumerate() {
                o.push(Obs { group: "dwrd", i, name: "", v: Val::U(raw_u(x)) });
            }
        },
        PK_EsfMeas => {
            let f = u(4, 2);
            let n = 4 * (f >> 11 & 31) as usize;
            for (i, x) in b[8..8 + n].chunks(4).enumerate() {
                o.push(Obs { group: "data", i, name: "data_type", v: Val::U(x[3] as u64 & 0x3f) });
                o.push(Obs { group: "data", i, name: "data_field", v: Val::U(raw_u(&x[..3])) });
            }
            let v = if f & 8 != 0 { Val::U(u(8 + n, 4)) } else { absent() };
            o.push(Obs { group: "calib_tag", i: 0, name: "", v });
        },
        PK_EsfRaw => {
            for (i, x) in b[4..].chunks(8).enumerate() {
                o.push(Obs { group: "data", i, name: "data_type", v: Val::U(x[3] as u64) });
                o.push(Obs { group: "data", i, name: "data_field", v: Val::U(raw_u(&x[..3])) });
                o.push(Obs { group: "data", i, name: "sensor_time_tag", v: Val::U(raw_u(&x[4..])) });
            }
        },
        PK_MonVer => {
            for (i, x) in b[40..].chunks(30).enumerate() {
                o.push(Obs { group: "extension", i, name: "", v: Val::Str(cstr(x).unwrap_or("?").as_bytes().to_vec()) });
            }
        },
        PK_InfError | PK_InfWarning | PK_InfNotice | PK_InfTest | PK_InfDebug => {
            let v = std::str::from_utf8(b).map_or(absent(), |t| Val::Str(t.as_bytes().to_vec()));
            o.push(Obs { group: "message", i: 0, name: "", v });
        },
        PK_TimTp => {
            let (f, q) = (u(14, 1), u(15, 1));
            let mut put = |name, v| o.push(Obs { group: "flags", i: 0, name, v });
            put("time_base", e(["Gnss", "Utc"][(f & 1) as usize]));
            put("utc_available", TF(f & 2));
            put("raim_active", match f >> 2 & 3 {
                1 => Val::B(false),
                2 => Val::B(true),
                _ => absent(),
            });
            put("q_err_valid", TF(!f & 16));
            let g = ["Gps", "Glo", "Bds", "Gal", "NavIc"];
            o.push(Obs { group: "ref_info", i: 0, name: "time_ref_gnss", v: g.get((q & 15) as usize).map_or(absent(), |x| e(x)) });
            let s = ["absent", "Crl", "Nist", "Usno", "Bipm", "Eu", "Su", "Ntsc", "Npli"];
            o.push(Obs { group: "ref_info", i: 0, name: "utc_standard", v: s.get((q >> 4) as usize).map_or(absent(), |x| e(x)) });
        },
        PK_TimTm2 => {
            let f = u(1, 1);
            let mut put = |name, v| o.push(Obs { group: "flags", i: 0, name, v });
            put("mode", e(["Single", "Running"][(f & 1) as usize]));
            put("run", e(["Armed", "Stopped"][(f >> 1 & 1) as usize]));
            put("new_falling_edge", TF(f & 4));
            put("new_rising_edge", TF(f & 0x80));
            put("time_base", e(["Receiver", "Gnss", "Utc", "?"][(f >> 3 & 3) as usize]));
            put("utc_available", TF(f & 32));
            put("time_valid", TF(f & 64));
        },
        PK_CfgItfm => {
            let (c, d) = (u(0, 4), u(4, 4));
            let mut put = |group, name, v| o.push(Obs { group, i: 0, name, v });
            put("config", "enable", TF(c >> 31));
            put("config", "bb_threshold", Val::U(c & 15));
            put("config", "cw_threshold", Val::U(c >> 4 & 31));
            put("config", "algorithm_bits", Val::U(c >> 9 & 0x3f_ffff));
            put("config2", "general", Val::U(d & 0xfff));
            put("config2", "antenna", Val::D(["Unknown", "Active", "Passive", "Unknown"][(d >> 12 & 3) as usize].into()));
            put("config2", "scan_aux_bands", TF(d >> 14 & 1));
        },
        PK_CfgPrtUart => {
            let m = u(4, 4);
            let mut put = |name, v: &str| o.push(Obs { group: "mode", i: 0, name, v: Val::D(v.into()) });
            put("data_bits", ["Five", "Six", "Seven", "Eight"][(m >> 6 & 3) as usize]);
            put("parity", ["Even", "Odd", "?", "?", "None", "None", "?", "?"][(m >> 9 & 7) as usize]);
            put("stop_bits", ["One", "OneHalf", "Two", "Half"][(m >> 12 & 3) as usize]);
        },
        _ => {},
    }
    o
}

/// Scaled block fields are compared by the table; everything else literally.
fn same(want: &Obs, got: &Obs) -> bool {
    if want.group != got.group || want.i != got.i || want.name != got.name {
        return false;
    }
    if want.v == got.v {
        return true;
    }
    match (&want.v, &got.v) {
        (Val::E(a, c), Val::E(b, d)) => a == b && (c == d || c.is_none() || d.is_none()),
        // an enumeration may be serialised by its code or by its name
        (Val::D(a), Val::U(x)) if want.name == "antenna" => ["Unknown", "Active", "Passive"].get(*x as usize) == Some(&a.as_str()),
        (Val::F(a), Val::F(b)) => a.to_bits() == b.to_bits(),
        (Val::F32(a), Val::F32(b)) => a.to_bits() == b.to_bits(),
        _ => {
            let pk = match want.group {
                "svs" => PK_NavSatSvInfo,
                "measurements" => PK_RxmRawxInfo,
                _ => return false,
            };
            let raw: Vec<u8> = match want.v {
                Val::U(x) => x.to_le_bytes().to_vec(),
                Val::I(x) => x.to_le_bytes().to_vec(),
                _ => return false,
            };
            let f = PACKETS[pk].fields.iter().find(|f| f.name == want.name).unwrap();
            matches!(f.map, Map::Other(_)) || value_matches(f, &raw[..f.size], &got.v)
        },
    }
}

/// Compares everything behind the plain fields with the model.
pub fn check_deep(pk: usize, b: &[u8], p: &ublox::PacketRef) -> Result<usize, String> {
    let want = want_deep(pk, b);
    let mut k = 0;
    let mut out = Ok(());
    // raw and converted accessors of one field may come in either order
    let mut rest: Vec<bool> = vec![false; want.len()];
    deep(p, &mut |g| {
        if out.is_err() {
            return;
        }
        let hit = (k..want.len().min(k + 3)).find(|j| !rest[*j] && same(&want[*j], &g));
        match hit {
            Some(j) => {
                rest[j] = true;
                while k < want.len() && rest[k] {
                    k += 1;
                }
            },
            None => {
                let w = want.get(k).map_or("nothing more".to_string(), |w| format!("{}[{}] {} = {:?}", w.group, w.i, w.name, w.v));
                out = Err(format!("{}: {}[{}] {} reads {:?}, expected {w}; payload [{}]", PACKETS[pk].name, g.group, g.i, g.name, g.v, hex(b)));
            },
        }
    });
    out?;
    if k != want.len() {
        let w = &want[k];
        return Err(format!("{}: {}[{}] {} is missing, expected {:?}; payload [{}]", PACKETS[pk].name, w.group, w.i, w.name, w.v, hex(b)));
    }
    Ok(want.len())
}

/// Parses a frame and compares the delivered packet completely with the model of its payload.
pub fn check_frame(class: u8, id: u8, b: &[u8], r: &mut Rec) {
    let fr = frame(class, id, b);
    r.evals(1);
    let want = dispatch(class, id, b);
    first(&fr, |g| match g {
        Some(Ok(q)) => {
            let got = which(q);
            if got != want {
                let n = |k: Option<usize>| k.map_or("Unknown", |k| PACKETS[k].name);
                r.fail(format!("class {class:#04x} id {id:#04x} payload [{}] became {}, expected {}", hex(b), n(got), n(want)));
                return;
            }
            if let Some(pk) = want {
                if let Err(m) = no_panic(|| check_deep(pk, b, q)).and_then(|x| x) {
                    r.fail(m);
                }
            }
        },
        g => r.fail(format!("class {class:#04x} id {id:#04x} payload [{}]: {}", hex(b), show(g))),
    });
}
