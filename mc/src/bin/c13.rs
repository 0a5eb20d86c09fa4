//! C13: builders emit one well-formed frame with every field in its place.
use mc::*;

fn main() {
    let c = Ctx::new("C13", Level::Exploration);
    let t = builders();
    c.note("builders", t.len().to_string());
    let check = |pk: usize, v: &[FV], r: &mut Rec| -> Vec<u8> {
        match no_panic(|| built(pk, v)) {
            Ok(fr) => {
                if let Err(m) = check_built(pk, v, &fr) {
                    r.fail(m);
                }
                r.eval(Some(hash64(&fr, pk as u64)));
                fr
            },
            Err(m) => {
                r.fail(format!("{}Builder with {v:?}: {m}", PACKETS[pk].name));
                vec![]
            },
        }
    };

    c.space("backgrounds", t.len() as u64 * 64, |i, r| {
        let pk = t[(i / 64) as usize];
        check(pk, &base_values(pk, i % 64), r);
    });

    // one field over its domain, everything else still: nothing else may change but the checksum
    let mut one = vec![];
    for &pk in &t {
        for f in 0..PACKETS[pk].fields.len() {
            for b in 0..c.pick(5u64, 16) {
                one.push((pk, f, b));
            }
        }
    }
    c.space("each field over its domain", one.len() as u64, |i, r| {
        let (pk, fi, b) = one[i as usize];
        let p = &PACKETS[pk];
        let f = &p.fields[fi];
        let mut v = base_values(pk, b);
        let before = built(pk, &v);
        let (lo, hi) = (6 + f.off, 6 + f.off + f.size);
        for x in domain(f, true) {
            v[fi] = x;
            let fr = check(pk, &v, r);
            if fr.len() == before.len() {
                let n = fr.len() - 2;
                if (0..n).any(|k| (k < lo || k >= hi) && fr[k] != before[k]) {
                    r.fail(format!("{}Builder: setting {} to {x:?} changed [{}] to [{}]", p.name, f.name, hex(&before), hex(&fr)));
                }
            }
        }
        r.sample(|| format!("{}.{} over its domain, background {b}", p.name, f.name));
    });

    c.space("named flags and codes", 1, |_, r| {
        let got = flag_consts();
        for (i, name, bits) in &got {
            let f = &FLAGS[*i];
            let want = f.flags.iter().find(|x| x.0 == *name).map(|x| x.1);
            if want != Some(*bits) {
                r.fail(format!("{}::{name} is sent as {bits:#x}, expected {want:x?}", f.name));
            }
            r.eval(Some(hash64(name.as_bytes(), *i as u64)));
        }
        use ublox::*;
        for (m, bits) in [(NavBbrPredefinedMask::HOT_START, 0u16), (NavBbrPredefinedMask::WARM_START, 1), (NavBbrPredefinedMask::COLD_START, 0xb9ff)] {
            let fr = CfgRstBuilder { nav_bbr_mask: m.into(), reset_mode: ResetMode::ControlledSoftwareReset, reserved1: 0 }.into_packet_bytes();
            let want = frame(6, 4, &[bits as u8, (bits >> 8) as u8, 1, 0]);
            r.eval(Some(hash64(&want, 8)));
            // a cold start clears everything: all named sections, whatever the reserved bits
            if u16::from_le_bytes([fr[6], fr[7]]) & 0xb9ff != bits || fr[8] != 1 {
                r.fail(format!("a predefined reset mask of {bits:#x} is sent as [{}]", hex(&fr)));
            }
        }
    });

    // pairs of fields
    let mut two = vec![];
    for &pk in &t {
        let n = PACKETS[pk].fields.len();
        for a in 0..n {
            for b in a + 1..n {
                two.push((pk, a, b));
            }
        }
    }
    c.space("pairs of fields", two.len() as u64, |i, r| {
        let (pk, a, b) = two[i as usize];
        let p = &PACKETS[pk];
        for (a, b) in [(a, b), (b, a)] {
            let (da, db) = (domain(&p.fields[a], c.thorough()), few_values(&p.fields[b], c.pick(12, 40)));
            let mut v = base_values(pk, 2);
            for x in da.iter().step_by(c.pick(1, 1 + da.len() / 400)) {
                for y in &db {
                    v[a] = *x;
                    v[b] = *y;
                    check(pk, &v, r);
                }
            }
        }
    });
    let mut three = vec![];
    for (pk, a, b) in &two {
        three.extend((b + 1..PACKETS[*pk].fields.len()).map(|d| (*pk, *a, *b, d)));
    }
    c.space("triples of fields", three.len() as u64, |i, r| {
        let (pk, a, b, d) = three[i as usize];
        let p = &PACKETS[pk];
        let n = c.pick(9, 16);
        let (fa, fb, fd) = (few_values(&p.fields[a], n), few_values(&p.fields[b], n), few_values(&p.fields[d], n));
        let mut v = base_values(pk, 3);
        for x in &fa {
            v[a] = *x;
            for y in &fb {
                v[b] = *y;
                for z in &fd {
                    v[d] = *z;
                    check(pk, &v, r);
                }
            }
        }
    });

    // interference configuration: every value of every sub-field through the public constructor
    c.space("CFG-ITFM constructor", 2 * 40 * 72, |i, r| {
        use ublox::*;
        let (en, bb, cw) = (i & 1 == 1, (i >> 1) as u32 % 40, (i / 80) as u32);
        for (an, code) in [(CfgItfmAntennaSettings::Unknown, 0u32), (CfgItfmAntennaSettings::Active, 1), (CfgItfmAntennaSettings::Passive, 2)] {
            for aux in [false, true] {
                let fr = CfgItfmBuilder { config: CfgItfmConfig::new(en, bb, cw), config2: CfgItfmConfig2::new(an, aux) }.into_packet_bytes();
                let w = (en as u32) << 31 | 0x16_b156 << 9 | (cw & 31) << 4 | bb & 15;
                let w2 = (aux as u32) << 14 | code << 12 | 0x31e;
                let mut pl = w.to_le_bytes().to_vec();
                pl.extend(w2.to_le_bytes());
                let want = frame(6, 0x39, &pl);
                r.eval(Some(hash64(&want, 1)));
                if fr[..] != want[..] {
                    r.fail(format!("CfgItfmConfig::new({en}, {bb}, {cw}) and ({an:?}, {aux}) give [{}], expected [{}]", hex(&fr), hex(&want)));
                }
            }
        }
    });

    // defaults
    c.space("defaulted builders", t.len() as u64, |i, r| {
        let pk = t[i as usize];
        let p = &PACKETS[pk];
        let mut e = Bytes::default();
        let has = build_default(pk, &mut e);
        if has != p.default {
            r.fail(format!("{}: default builder {has}, expected {}", p.name, p.default));
        }
        if has {
            let v: Vec<FV> = p.fields.iter().map(|f| default_value(pk, f)).collect();
            if let Err(m) = check_built(pk, &v, &e.0) {
                r.fail(format!("default: {m}"));
            }
            r.eval(Some(hash64(&e.0, 77)));
        }
    });
    c.space("default views", 1, |_, r| {
        use ublox::*;
        let itfm = |a: CfgItfmConfig| CfgItfmBuilder { config: a, config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::default(), false) }.into_packet_bytes();
        let fr = itfm(CfgItfmConfig::default());
        let w = 0x16_b156u32 << 9 | 15 << 4 | 3;
        if fr[6..10] != w.to_le_bytes() || fr[10..14] != 0x31eu32.to_le_bytes() {
            r.fail(format!("the default interference configuration is [{}], expected {w:#x} and 0x31e", hex(&fr)));
        }
        if CfgLayer::default().bits() != 7 {
            r.fail(format!("the default layers are {:?}, expected all three", CfgLayer::default().bits()));
        }
        r.evals(2);
    });

    // CFG-VALSET: every number of items
    use ublox::{cfg_val::CfgVal, CfgLayer, CfgValSetBuilder};
    c.space("CFG-VALSET header and length", c.pick(1300u64, 6000), |i, r| {
        for (n, layer, ver, rs) in [(i as usize, i as u8, 0u8, 0u16), (i as usize, 0xff, 0xff, 0xffff), (i as usize, 0x55, 0x12, 0x3456)] {
            // lengths grow by five and by eight, so that every residue occurs
            let items: Vec<CfgVal> = (0..n).map(|k| if k % 3 == 0 { CfgVal::Uart1Baudrate(k as u32) } else { CfgVal::Uart1Enabled(k % 2 == 0) }).collect();
            let mut pl = vec![ver, layer];
            pl.extend(rs.to_le_bytes());
            for k in 0..n {
                if k % 3 == 0 {
                    pl.extend(0x4052_0001u32.to_le_bytes());
                    pl.extend((k as u32).to_le_bytes());
                } else {
                    pl.extend(0x1052_0005u32.to_le_bytes());
                    pl.push((k % 2 == 0) as u8);
                }
            }
            if pl.len() > 65535 {
                return;
            }
            let want = frame(6, 0x8a, &pl);
            let got = CfgValSetBuilder { version: ver, layers: CfgLayer::from_bits_truncate(layer), reserved1: rs, cfg_data: &items }.into_packet_vec();
            r.eval(Some(hash64(&want, 5)));
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                r.fail(format!("CfgValSetBuilder with {n} items, layers {layer:#x}: {} bytes, expected {}; differs at {at}: [{}]", got.len(), want.len(), hex(&got[..got.len().min(40)])));
            }
        }
    });
    c.finish(
        "every builder: 64 backgrounds, every field over all values of 8 and 16 bits or all single-bit and limit words (scaled fields also a quarter unit off) with the other fields fixed, all pairs and triples of fields over reduced domains, sub-field constructors, defaults, CFG-VALSET of every size. Distinct by emitted frame; compared byte by byte with the protocol table",
        &["interactions of four or more fields behave like triples"],
    );
}
