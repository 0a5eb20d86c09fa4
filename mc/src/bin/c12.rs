//! C12: enumerations, flag sets and bit fields decode every raw value as documented.
use mc::*;

/// Compares the decoded enumerations and flag sets of a payload, and every view behind them.
fn check(pk: usize, b: &[u8], r: &mut Rec) {
    let p = &PACKETS[pk];
    check_frame(p.class, p.id, b, r);
    if dispatch(p.class, p.id, b) != Some(pk) {
        return;
    }
    first(&frame(p.class, p.id, b), |g| {
        if let Some(Ok(q)) = g {
            if which(q) != Some(pk) {
                return; // reported already
            }
            let res = no_panic(|| {
                let mut bad = None;
                observe(q, &mut |i, raw, v| {
                    let f = &p.fields[i];
                    if matches!(f.map, Map::Enum(_) | Map::Flags(_)) {
                        let fb = &b[f.off..f.off + f.size];
                        if !(if raw { raw_matches(f, fb, &v) } else { value_matches(f, fb, &v) }) && bad.is_none() {
                            bad = Some(format!("{}.{}{}() is {v:?}, its bytes are [{}]; payload [{}]", p.name, f.acc, if raw { "_raw" } else { "" }, hex(fb), hex(b)));
                        }
                    }
                });
                bad
            });
            match res {
                Ok(None) => {},
                Ok(Some(m)) | Err(m) => r.fail(m),
            }
        }
    });
}

fn main() {
    let c = Ctx::new("C12", Level::Exploration);

    c.space("named flags", 1, |_, r| {
        let got = flag_consts();
        let mut n = 0;
        for (i, name, bits) in &got {
            n += 1;
            let f = &FLAGS[*i];
            let want = f.flags.iter().find(|x| x.0 == *name).map(|x| x.1);
            if want != Some(*bits) {
                r.fail(format!("{}::{name} is {bits:#x}, expected {want:x?}", f.name));
            }
            r.eval(Some(hash64(name.as_bytes(), *i as u64)));
        }
        if n != FLAGS.iter().map(|f| f.flags.len()).sum::<usize>() {
            r.fail("a flag is missing");
        }
        // the numbers of the map matching states
        use ublox::MapMatchingStatus as M;
        for (k, m) in [M::None, M::Valid, M::Used, M::Dr].into_iter().enumerate() {
            if m as usize != k {
                r.fail(format!("{m:?} is number {}, its code is {k}", m as usize));
            }
            r.eval(Some(k as u64));
        }
    });

    // all decoded fields of dispatched packets
    let mut cases = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_none() || p.dispatch != dispatch(p.class, p.id, &background(p, 0, 5)).and_then(|x| PACKETS[x].dispatch) {
            continue;
        }
        for (fi, f) in p.fields.iter().enumerate() {
            let view = matches!(f.map, Map::Enum(_) | Map::Flags(_)) || f.size > 0 && matches!(f.map, Map::Other(_)) && f.kind != Kind::Arr;
            if view {
                cases.push((k, fi));
            }
        }
    }
    c.note("decoded fields", cases.len().to_string());
    // one block of every value: all 8-bit and 16-bit words, and both halves of 32-bit ones
    let mut jobs = vec![];
    let bgs = c.pick(6u64, 24);
    for &(k, fi) in &cases {
        let f = &PACKETS[k].fields[fi];
        for b in 0..bgs {
            match f.size {
                1 => jobs.push((k, fi, b, 0u64, 0u32)),
                2 => (0..256).for_each(|h| jobs.push((k, fi, b, h, 0))),
                _ => (0..256).for_each(|h| {
                    jobs.push((k, fi, b, h, 0));
                    jobs.push((k, fi, b, h, 16));
                }),
            }
        }
    }
    c.space("every value of every decoded field", jobs.len() as u64, |i, r| {
        let (k, fi, b, hi, sh) = jobs[i as usize];
        let p = &PACKETS[k];
        let f = &p.fields[fi];
        let mut v = background(p, 0, b);
        let at = f.off + sh as usize / 8;
        if f.size > 1 {
            v[at + 1] = hi as u8;
        }
        for x in 0..=255u8 {
            v[at] = x;
            check(k, &v, r);
            r.eval(Some(hash64(&v, k as u64)));
        }
        r.sample(|| format!("{}.{} with high part {hi:#x}, shift {sh}, background {b}", p.name, f.acc));
    });

    // two decoded fields of one packet at once: 8-bit fields in all pairs of values
    let mut pairs = vec![];
    for &(k, a) in &cases {
        for &(k2, b) in &cases {
            if k == k2 && a < b && PACKETS[k].fields[a].size == 1 && PACKETS[k].fields[b].size == 1 {
                for x in 0..256u64 {
                    pairs.push((k, a, b, x as u8));
                }
            }
        }
    }
    c.space("pairs of decoded 8-bit fields", pairs.len() as u64, |i, r| {
        let (k, a, b, x) = pairs[i as usize];
        let p = &PACKETS[k];
        let mut v = background(p, 0, 2);
        v[p.fields[a].off] = x;
        for y in 0..=255u8 {
            v[p.fields[b].off] = y;
            check(k, &v, r);
        }
        r.eval(Some(hash64(&v, k as u64)));
    });

    // 32-bit views: every pair and triple of bits over both backgrounds
    let mut wide = vec![];
    for &(k, fi) in &cases {
        if PACKETS[k].fields[fi].size == 4 {
            for a in 0..32u32 {
                for b in a..32 {
                    wide.push((k, fi, a, b));
                }
            }
        }
    }
    c.space("32-bit views: bits in threes", wide.len() as u64, |i, r| {
        let (k, fi, a, b) = wide[i as usize];
        let p = &PACKETS[k];
        let f = &p.fields[fi];
        for d in b..32 {
            for inv in [0u32, !0] {
                let w = (1u32 << a | 1 << b | 1 << d) ^ inv;
                let mut v = background(p, 0, 1);
                v[f.off..f.off + 4].copy_from_slice(&w.to_le_bytes());
                check(k, &v, r);
                r.eval(Some(hash64(&v, k as u64)));
            }
        }
    });

    // views of the repeated blocks
    let svbits = c.pick(24u32, 32);
    c.space("satellite flags: every word", 1u64 << (svbits - 12), |i, r| {
        let mut got = Vec::with_capacity(20);
        let mut want = Vec::with_capacity(20);
        for lo in 0..4096u32 {
            let w = if svbits == 32 { (i as u32) << 12 | lo } else { (i as u32 & 0x7ff) << 12 | lo | if i >= 0x800 { 0xff80_0000 } else { 0 } };
            got.clear();
            want.clear();
            sv_flags(0, ublox::NavSatSvFlags::from(w), &mut |o| got.push(o));
            want_sv_flags(0, w as u64, &mut want);
            if got.iter().zip(&want).any(|(g, e)| g.name != e.name || !same_name(&g.v, &e.v)) {
                let (g, e) = got.iter().zip(&want).find(|(g, e)| !same_name(&g.v, &e.v)).unwrap();
                r.fail(format!("NavSatSvFlags::from({w:#x}).{}() is {:?}, expected {:?}", g.name, g.v, e.v));
            }
        }
        r.evals(4096);
        r.eval(Some(hash64(&i.to_le_bytes(), 3)));
    });
    c.space("satellite flags in place", 32 * 32 * 3, |i, r| {
        let w = (1u32 << (i % 32) | 1 << (i / 32 % 32)) ^ if i / 1024 == 1 { !0 } else { 0 };
        for bg in [0u64, 1, 7] {
            let mut v: Vec<u8> = (0..8 + 36).map(|k| pat(bg, k)).collect();
            let at = 8 + 12 * (i / 1024) as usize + 8;
            v[at..at + 4].copy_from_slice(&w.to_le_bytes());
            check(PK_NavSat, &v, r);
            r.eval(Some(hash64(&v, 9)));
        }
    });
    c.space("measurement flags", 65536 * 3, |i, r| {
        let (x, which) = (i & 0xffff, i >> 16);
        let mut v: Vec<u8> = (0..16 + 64).map(|k| pat(7, k)).collect();
        let at = [16 + 27, 16 + 29, 16 + 32 + 29][which as usize];
        v[at] = x as u8;
        v[at + 1] = (x >> 8) as u8;
        check(PK_RxmRawx, &v, r);
        r.eval(Some(hash64(&v, 10)));
    });
    c.finish(
        "every enumeration, flag set and bit-field view of every delivered packet: all 8- and 16-bit values and both halves of 32-bit ones over several backgrounds, all pairs of decoded 8-bit fields, all three-bit words and complements of 32-bit views, satellite flag words. Distinct by payload; each value is compared with the frozen table of codes and the independent bit-field model, restricted codes must make the packet unknown",
        &["32-bit views beyond the enumerated words behave bitwise alike"],
    );
}

fn same_name(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::E(x, c), Val::E(y, d)) => x == y && (c == d || c.is_none() || d.is_none()),
        _ => a == b,
    }
}
