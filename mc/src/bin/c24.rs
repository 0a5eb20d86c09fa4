//! C24: value types which can be serialised and deserialised are read back as the same value.
use mc::de::*;
use mc::ser::SV;
use mc::*;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use ublox::*;

/// What was written names its parts, and both formats give the value back.
fn round<T: Serialize + DeserializeOwned + Debug>(v: &T, shape: &str, key: Option<&str>, r: &mut Rec) {
    let fail = |r: &mut Rec, m: String| match key {
        Some(k) => r.fail_keyed(k, m),
        None => r.fail(m),
    };
    let want = format!("{v:?}");
    r.eval(Some(hash64(want.as_bytes(), 24)));
    let rec = match ser::capture(v) {
        Ok(x) => x,
        Err(e) => return r.fail(format!("{want}: serialising fails: {e}")),
    };
    let mut got = outline(&rec);
    if ANTENNA.contains(&got.as_str()) {
        got = "n".into();
    }
    if got != shape {
        r.fail(format!("{want} is written as {got}, not {shape}"));
    }
    for back in [false, true] {
        match from_recorded::<T>(&rec, back) {
            Ok(x) if format!("{x:?}") == want && ser::capture(&x).is_ok_and(|y| format!("{y:?}") == format!("{rec:?}")) => {},
            Ok(x) => fail(r, format!("{want} was written as {rec:?} and read as {x:?}")),
            Err(e) => fail(r, format!("{want} was written as {rec:?}, which can't be read: {e}")),
        }
    }
    let pos = match to_positions(v) {
        Ok(x) => x,
        Err(e) => return r.fail(format!("{want}: writing without names fails: {e}")),
    };
    match from_positions::<T>(&pos) {
        Ok(x) if format!("{x:?}") == want && to_positions(&x).ok().as_ref() == Some(&pos) => {},
        Ok(x) => fail(r, format!("{want} was written as {pos:?} and read as {x:?}")),
        Err(e) => fail(r, format!("{want} was written as {pos:?}, which can't be read: {e}")),
    }
}
const ANTENNA: [&str; 3] = ["Unknown", "Active", "Passive"];
/// The same with the antenna's name in place of its code, which is how it is read.
fn named(v: &SV) -> SV {
    match v {
        SV::Struct(f) => SV::Struct(f.iter().map(|(k, v)| (k.clone(), if k == "antenna" { named(v) } else { v.clone() })).collect()),
        SV::U(x) if *x < 3 => SV::Variant(ANTENNA[*x as usize].into(), None),
        x => x.clone(),
    }
}
/// What the antenna's code stands for is read back.
fn round_named<T: Serialize + DeserializeOwned + Debug>(v: &T, r: &mut Rec) {
    let (Ok(rec), Ok(mut pos)) = (ser::capture(v), to_positions(v)) else { return };
    let want = format!("{v:?}");
    for back in [false, true] {
        match from_recorded::<T>(&named(&rec), back).or_else(|_| from_recorded::<T>(&rec, back)) {
            Ok(x) if format!("{x:?}") == want => {},
            x => r.fail(format!("{want}: with the antenna's name {x:?} is read")),
        }
    }
    let plain = pos.clone();
    for x in &mut pos {
        if let Tok::N(k @ "u8", _) = x {
            *k = "variant";
        }
    }
    match from_positions::<T>(&pos).or_else(|_| from_positions::<T>(&plain)) {
        Ok(x) if format!("{x:?}") == want => {},
        x => r.fail(format!("{want}: with the antenna's place {x:?} is read")),
    }
}
/// The names in a recorded value, without its numbers.
fn outline(v: &SV) -> String {
    match v {
        SV::Struct(f) => format!("{{{}}}", f.iter().map(|(k, v)| format!("{k}:{}", if k == "antenna" { "n".into() } else { outline(v) })).collect::<Vec<_>>().join(",")),
        SV::Newtype(x) => outline(x),
        SV::Variant(n, None) => n.clone(),
        SV::Variant(n, Some(x)) => format!("{n}({})", outline(x)),
        SV::F(_) | SV::F32(_) => "f".into(),
        SV::U(_) | SV::I(_) => "n".into(),
        SV::B(_) => "b".into(),
        x => format!("{x:?}"),
    }
}

fn floats() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.1, 1e-7, 180.0, -180.0, 90.0, 1234.5678, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    for k in 0..64 {
        v.push(f64::from_bits(1u64 << k));
        v.push(f64::from_bits(0x3ff0_0000_0000_0000 ^ (1u64 << k)));
    }
    v
}

/// The configuration as a builder takes it: its word.
fn itfm(b: CfgItfmBuilder) -> String {
    hex(&b.into_packet_bytes())
}

fn main() {
    let c = Ctx::new("C24", Level::Exploration);
    let fl = floats();
    let n = fl.len() as u64;
    c.space("positions", n * n * 3, |i, r| {
        let (a, b, o) = (fl[(i % n) as usize], fl[(i / n % n) as usize], [1.5, f64::MAX, -7e-9][(i / n / n) as usize]);
        for (x, y, z) in [(a, b, o), (o, a, b), (b, o, a)] {
            round(&Position { lon: x, lat: y, alt: z }, "{lon:f,lat:f,alt:f}", None, r);
            round(&PositionECEF { x, y, z }, "{x:f,y:f,z:f}", None, r);
        }
        round(&Velocity { speed: a, heading: b }, "{speed:f,heading:f}", None, r);
    });
    let data = [DataBits::Seven, DataBits::Eight];
    let par = [Parity::Even, Parity::Odd, Parity::None];
    let stop = [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half];
    c.space("UART modes", 24, |i, r| {
        let (d, p, s) = (data[i as usize % 2], par[i as usize / 2 % 3], stop[i as usize / 6]);
        let (dn, pn, sn) = (["Seven", "Eight"][i as usize % 2], ["Even", "Odd", "None"][i as usize / 2 % 3], ["One", "OneHalf", "Two", "Half"][i as usize / 6]);
        round(&d, dn, None, r);
        round(&p, pn, None, r);
        round(&s, sn, None, r);
        let m = UartMode::new(d, p, s);
        round(&m, &format!("{{data_bits:{dn},parity:{pn},stop_bits:{sn}}}"), None, r);
        // and it still means the same to the receiver
        let build = |m: UartMode| CfgPrtUartBuilder { portid: UartPortId::Uart1, reserved0: 0, tx_ready: 0, mode: m, baud_rate: 9600, in_proto_mask: InProtoMask::UBLOX, out_proto_mask: OutProtoMask::UBLOX, flags: 0, reserved5: 0 }.into_packet_bytes();
        if let Ok(Ok(x)) = ser::capture(&m).map(|x| from_recorded::<UartMode>(&x, false)) {
            if build(x) != build(m) {
                r.fail(format!("{m:?} is sent as {} and after being read back as {}", hex(&build(m)), hex(&build(x))));
            }
        }
    });
    c.space("reset modes", 6, |i, r| {
        let (m, n) = [
            (ResetMode::HardwareResetImmediately, "HardwareResetImmediately"),
            (ResetMode::ControlledSoftwareReset, "ControlledSoftwareReset"),
            (ResetMode::ControlledSoftwareResetGpsOnly, "ControlledSoftwareResetGpsOnly"),
            (ResetMode::HardwareResetAfterShutdown, "HardwareResetAfterShutdown"),
            (ResetMode::ControlledGpsStop, "ControlledGpsStop"),
            (ResetMode::ControlledGpsStart, "ControlledGpsStart"),
        ][i as usize];
        round(&m, n, None, r);
    });
    // every satellite flag word's views
    c.space("satellite quality, health and orbit source", 65536, |i, r| {
        let f = NavSatSvFlags::from(i as u32);
        let q = f.quality_ind();
        let name = format!("{q:?}");
        round(&q, &name, None, r);
        for h in [f.health()] {
            let t = match h {
                NavSatSvHealth::Unknown(_) => "Unknown(n)".into(),
                x => format!("{x:?}"),
            };
            round(&h, &t, None, r);
        }
        let o = f.orbit_source();
        let t = match o {
            NavSatOrbitSource::Other(_) => "Other(n)".into(),
            x => format!("{x:?}"),
        };
        round(&o, &t, None, r);
        if i < 256 {
            round(&NavSatSvHealth::Unknown(i as u8), "Unknown(n)", None, r);
            round(&NavSatOrbitSource::Other(i as u8), "Other(n)", None, r);
        }
    });
    const CONF: &str = "{enable:b,bb_threshold:n,cw_threshold:n,algorithm_bits:n}";
    let sent = |cfg: CfgItfmConfig, r: &mut Rec| {
        round(&cfg, CONF, None, r);
        if let Ok(Ok(x)) = ser::capture(&cfg).map(|x| from_recorded::<CfgItfmConfig>(&x, true)) {
            let (a, b) = (itfm(CfgItfmBuilder { config: cfg, config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Active, true) }), itfm(CfgItfmBuilder { config: x, config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Active, true) }));
            if a != b {
                r.fail(format!("{cfg:?} is sent as {} and after being read back as {}", a, b));
            }
        }
    };
    c.space("interference configurations from their parts", 2 * 17 * 33, |i, r| {
        sent(CfgItfmConfig::new(i % 2 == 1, i as u32 / 2 % 17, i as u32 / 34), r);
    });
    c.space("interference configurations from words", 32 * 32 + 65536 * 2, |i, r| {
        let w = if i < 1024 { (1u32 << (i % 32)) | (1 << (i / 32)) } else { (((i - 1024) & 0xffff) as u32) << if i & 0x10000 != 0 { 16 } else { 0 } };
        sent(CfgItfmConfig::from(w), r);
        if i < 65536 {
            let w = i as u32;
            round(&CfgItfmBbThreshold::from(w), "n", None, r);
            round(&CfgItfmCwThreshold::from(w << 16), "n", None, r);
            round(&CfgItfmAlgoBits::from(w << 8), "n", None, r);
            round(&CfgItfmGeneralBits::from(w | 0x8000_0000), "n", None, r);
        }
        // the antenna setting is written as its code
        let c2 = CfgItfmConfig2::from(w);
        round(&c2, "{general:n,antenna:n,scan_aux_bands:b}", Some("antenna-setting"), r);
        round_named(&c2, r);
    });
    c.space("antenna settings", 3, |i, r| {
        let a = [CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][i as usize];
        round(&a, "n", Some("antenna-setting"), r);
        round_named(&a, r);
    });
    c.finish(
        "positions and velocities over all pairs of unusual and single-bit floating-point values; every UART mode, reset mode and 16-bit satellite flag word; every interference configuration from its constructor, two-bit words and all words of either half. Each is recorded, its parts' names compared, and read back from a self-describing format (fields in both orders) and a positional one. Distinct by value",
        &["formats call the serialiser and deserialiser in the usual way"],
    )
}
