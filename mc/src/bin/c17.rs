//! C17: configuration key/value items encode and decode without loss.
use mc::*;
use ublox::cfg_val::CfgVal;
use ublox::*;

/// The documented encoding.
fn enc(k: usize, v: u64) -> Vec<u8> {
    let mut o = CFGS[k].key.to_le_bytes().to_vec();
    o.extend_from_slice(&v.to_le_bytes()[..CFGS[k].width]);
    o
}
fn values(k: usize, deep: bool) -> Vec<u64> {
    let c = &CFGS[k];
    if c.codes > 0 {
        return (0..c.codes).collect();
    }
    let bits = 8 * c.width as u32;
    if bits == 8 || bits == 16 && deep {
        return (0..1u64 << bits).collect();
    }
    let m = if bits == 64 { !0u64 } else { (1u64 << bits) - 1 };
    let mut o = vec![0, m, 0x0123_4567_89ab_cdef & m, 0xfedc_ba98_7654_3210 & m];
    for b in 0..bits {
        o.extend([1 << b, !(1u64 << b) & m, (1u64 << b) - 1]);
        for b2 in 0..b {
            o.push(1 << b | 1 << b2);
        }
    }
    // each byte alone with every value
    for k in 0..c.width {
        o.extend((0..256u64).flat_map(|x| [x << (8 * k), m & !(0xff << (8 * k)) | x << (8 * k)]));
    }
    o.sort_unstable();
    o.dedup();
    o
}

fn one(k: usize, v: u64, r: &mut Rec) {
    let x = cfg_make(k, v);
    let want = enc(k, v);
    let n = want.len();
    r.eval(Some(hash64(&want, 1)));
    let name = CFGS[k].name;
    if x.len() != n || x.is_empty() {
        r.fail(format!("{name}({v:#x}): len() is {}, is_empty() {}, the encoding has {n} bytes", x.len(), x.is_empty()));
    }
    let res = no_panic(|| {
        let mut buf = [0xa5u8; 24];
        let l = x.write_to(&mut buf[..n]);
        if l != n || buf[..n] != want[..] {
            return Err(format!("write_to returned {l} and wrote [{}], expected [{}]", hex(&buf[..n]), hex(&want)));
        }
        let mut buf = [0xa5u8; 24];
        let l = x.write_to(&mut buf[4..]);
        if l != n || buf[4..4 + n] != want[..] || buf[..4].iter().chain(&buf[4 + n..]).any(|b| *b != 0xa5) {
            return Err(format!("write_to into a larger slice returned {l} and left [{}]", hex(&buf)));
        }
        for pre in [&[][..], &[0xb5, 0x62, 9]] {
            let mut o = pre.to_vec();
            let l = x.extend_to(&mut o);
            if l != n || o[..pre.len()] != *pre || o[pre.len()..] != want[..] {
                return Err(format!("extend_to returned {l} and left [{}]", hex(&o)));
            }
        }
        for tail in [&[][..], &[0xff; 9], &[0; 4]] {
            let mut b = want.clone();
            b.extend_from_slice(tail);
            let y = CfgVal::parse(&b);
            if cfg_read(&y) != Some((k, v)) {
                return Err(format!("parsing its encoding gives {y:?}"));
            }
        }
        Ok(())
    });
    if let Err(m) = res.and_then(|x| x) {
        r.fail(format!("{name}({v:#x}): {m}"));
    }
}

/// A list of items: written in a row, iterated, extended, and in a CFG-VALSET packet.
fn list(l: &[(usize, u64)], r: &mut Rec) {
    let items: Vec<CfgVal> = l.iter().map(|(k, v)| cfg_make(*k, *v)).collect();
    let want: Vec<u8> = l.iter().flat_map(|(k, v)| enc(*k, *v)).collect();
    r.eval(Some(hash64(&want, 2)));
    let res = no_panic(|| {
        let mut buf = vec![0xa5u8; want.len() + 16];
        {
            let it = CfgValIter::new(&mut buf, &items);
            for round in 0..2 {
                let got: Vec<_> = it.clone().map(|x| cfg_read(&x)).collect();
                if got.len() != l.len() || got.iter().zip(l).any(|(g, w)| *g != Some(*w)) {
                    return Err(format!("iterating (round {round}) gives {:?}", it.clone().collect::<Vec<_>>()));
                }
            }
            let mut it = it;
            while it.next().is_some() {}
            if it.next().is_some() {
                return Err("the iterator goes on after its end".into());
            }
        }
        if buf[..want.len()] != want[..] || buf[want.len()..].iter().any(|b| *b != 0xa5) {
            return Err(format!("CfgValIter::new wrote [{}], expected [{}] and nothing else", hex(&buf), hex(&want)));
        }
        let mut exact = vec![0u8; want.len()];
        let n = CfgValIter::new(&mut exact, &items).count();
        if n != l.len() || exact != want {
            return Err(format!("in a buffer of the exact size: {n} items, [{}]", hex(&exact)));
        }
        let mut o = vec![];
        let n: usize = items.iter().map(|x| x.extend_to(&mut o)).sum();
        if o != want || n != want.len() {
            return Err(format!("extend_to gives {n} bytes [{}], expected [{}]", hex(&o), hex(&want)));
        }
        let mut pl = vec![0, 7, 0, 0];
        pl.extend_from_slice(&want);
        let w = frame(6, 0x8a, &pl);
        let got = CfgValSetBuilder { version: 0, layers: CfgLayer::RAM | CfgLayer::BBR | CfgLayer::FLASH, reserved1: 0, cfg_data: &items }.into_packet_vec();
        if got != w {
            return Err(format!("the CFG-VALSET packet is [{}], expected [{}]", hex(&got), hex(&w)));
        }
        Ok(())
    });
    if let Err(m) = res.and_then(|x| x) {
        let n: Vec<_> = l.iter().map(|(k, v)| format!("{}({v:#x})", CFGS[*k].name)).collect();
        r.fail(format!("items [{}]: {m}", n.join(", ")));
    }
}

fn main() {
    let c = Ctx::new("C17", Level::Exploration);
    c.note("items", CFGS.len().to_string());
    c.space("every item, values of its width", CFGS.len() as u64, |i, r| {
        for v in values(i as usize, true) {
            one(i as usize, v, r);
        }
        r.sample(|| format!("{} over its values", CFGS[i as usize].name));
    });
    // one of each type, lists up to a depth
    let mut pool: Vec<(usize, u64)> = vec![];
    for n in ["Uart1Baudrate", "Uart1StopBits", "Uart2DataBits", "Uart1Parity", "UsbEnabled", "UsbVendorId", "UsbVendorStr0", "InfmsgUbxI2c", "RateTimeref", "TpPulseDef", "TpPulseLengthDef", "TpAntCableDelay", "MsgoutUbxNavPvtI2c"] {
        let k = CFGS.iter().position(|x| x.name == n).unwrap();
        let m = if CFGS[k].codes > 0 { CFGS[k].codes - 1 } else { 0x8123_4567_89ab_cdef & (!0u64 >> (64 - 8 * CFGS[k].width as u32)) };
        pool.push((k, m));
    }
    let d = c.pick(4usize, 6);
    for n in 0..=d {
        c.space(&format!("lists of {n}"), (pool.len() as u64).pow(n as u32), |i, r| {
            let mut j = i;
            let l: Vec<_> = (0..n)
                .map(|_| {
                    let x = pool[(j % pool.len() as u64) as usize];
                    j /= pool.len() as u64;
                    x
                })
                .collect();
            list(&l, r);
        });
    }
    c.space("every ordered pair of items", (CFGS.len() * CFGS.len()) as u64, |i, r| {
        let (a, b) = (i as usize / CFGS.len(), i as usize % CFGS.len());
        let v = |k: usize| *values(k, false).last().unwrap();
        list(&[(a, v(a)), (b, v(b))], r);
        list(&[(a, 0), (b, 0)], r);
    });
    c.space("long lists", c.pick(300, 1500), |i, r| {
        let l: Vec<_> = (0..i as usize).map(|k| ((k * 37 + i as usize) % CFGS.len(), 0)).collect();
        list(&l, r);
        let l: Vec<_> = (0..i as usize).map(|k| pool[(k * 5 + i as usize) % pool.len()]).collect();
        list(&l, r);
    });
    // the public key helpers are reached through len(): widths by the key's size code
    c.finish(
        "all items of the frozen key table over every value (8 and 16 bits, codes) or every single bit, bit pair and byte value (32 and 64 bits); all lists up to a depth over one item of each type, all ordered pairs of items, lists of every length. Distinct by encoding; written, extended, built into CFG-VALSET, parsed and iterated, compared with the documented key, width and code",
        &["the key table was reviewed once against the interface description and frozen"],
    );
}
