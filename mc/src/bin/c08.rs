//! C08: no received bytes can panic parsing, accessors, Debug or serialisation.
use mc::*;
use ublox::*;

/// Parses a stream and uses everything it delivers; a panic names the frame.
fn use_all(s: &[u8], rend: bool, r: &mut Rec) {
    r.evals(1);
    let res = no_panic(|| {
        let mut store = [0u8; 8300];
        let mut p = Parser::new(FixedLinearBuffer::new(&mut store[..s.len().clamp(16, 8300)]));
        let mut it = p.consume(s);
        let mut n = 0;
        while let Some(g) = it.next() {
            if let Ok(q) = &g {
                n += exercise(q);
                if rend {
                    n += render(q);
                }
            }
        }
        n
    });
    if let Err(m) = res {
        r.fail(format!("received [{}]: {m}", hex(s)));
    }
}

fn main() {
    let c = Ctx::new("C08", Level::Exploration);
    let t: Vec<usize> = (0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect();
    // payload lengths worth trying for a definition
    let rests = |k: usize| -> Vec<usize> {
        match PACKETS[k].name {
            _ if PACKETS[k].fixed.is_some() => vec![0],
            "NavSat" => vec![0, 12, 24],
            "RxmRawx" => vec![0, 32, 64],
            "MonVer" => vec![0, 30, 60],
            "EsfMeas" => vec![0, 4, 8, 128],
            "EsfRaw" => vec![0, 8, 16],
            "RxmSfrbx" => vec![0, 4, 8],
            _ => vec![0, 1, 4, 9],
        }
    };
    let nbg = c.pick(4u64, 16);
    let mut a = vec![];
    for &k in &t {
        for rest in rests(k) {
            for b in 0..nbg {
                for at in 0..background(&PACKETS[k], rest, b).len() {
                    a.push((k, rest, b, at));
                }
            }
        }
    }
    c.space("every value of every byte, rendered", a.len() as u64, |i, r| {
        let (k, rest, b, at) = a[i as usize];
        let p = &PACKETS[k];
        let mut v = background(p, rest, b);
        for x in 0..=255u8 {
            v[at] = x;
            use_all(&frame(p.class, p.id, &v), true, r);
            r.eval(Some(hash64(&v, k as u64)));
        }
        r.sample(|| format!("{} +{rest}, background {b}, byte {at} = 0..255", p.name));
    });

    let mut w = vec![];
    for &k in &t {
        for (fi, f) in PACKETS[k].fields.iter().enumerate() {
            if (f.size == 2 || f.size == 4 && !matches!(f.map, Map::None | Map::Scale { .. })) && f.kind != Kind::Arr {
                for half in 0..f.size / 2 {
                    for b in 0..c.pick(2u64, 8) {
                        for hi in 0..256u64 {
                            w.push((k, fi, half * 2, b, hi as u8));
                        }
                    }
                }
            }
        }
    }
    let rend16 = c.thorough();
    c.space("every value of every 16-bit field or half of a flag word", w.len() as u64, |i, r| {
        let (k, fi, half, b, hi) = w[i as usize];
        let p = &PACKETS[k];
        let off = p.fields[fi].off + half;
        let mut v = background(p, 0, b);
        v[off + 1] = hi;
        for lo in 0..=255u8 {
            v[off] = lo;
            use_all(&frame(p.class, p.id, &v), rend16, r);
        }
        r.eval(Some(hash64(&v, k as u64)));
    });

    // 32-bit and wider fields with values at the edges of every conversion
    let words: [u64; 20] = [
        0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 999_999_999, 1_000_000_000,
        0xc465_3601, 0xc465_3600, 0x7ff0_0000_0000_0000, 0xfff8_0000_0000_0001, 0x7fef_ffff_ffff_ffff, 0x8000_0000_0000_0000,
    ];
    let mut x = vec![];
    for &k in &t {
        let n = PACKETS[k].fields.iter().filter(|f| f.size >= 4 && f.kind != Kind::Arr).count();
        for a in 0..n {
            for b in a..n {
                x.push((k, a, b));
            }
        }
    }
    c.space("pairs of wide fields at their edges", x.len() as u64, |i, r| {
        let (k, fa, fb) = x[i as usize];
        let p = &PACKETS[k];
        let fs: Vec<&Fd> = p.fields.iter().filter(|f| f.size >= 4 && f.kind != Kind::Arr).collect();
        let mut v = background(p, 0, 5);
        for wa in words {
            for wb in words {
                v[fs[fa].off..fs[fa].off + fs[fa].size].copy_from_slice(&wa.to_le_bytes()[..fs[fa].size]);
                v[fs[fb].off..fs[fb].off + fs[fb].size].copy_from_slice(&wb.to_le_bytes()[..fs[fb].size]);
                use_all(&frame(p.class, p.id, &v), true, r);
                r.eval(Some(hash64(&v, k as u64)));
            }
        }
    });

    // every field over words with a meaning, beside every other field
    let (two, three) = field_tuples(&t);
    let fw = field_words();
    c.space("pairs of fields with edge words", two.len() as u64, |i, r| {
        let (k, a, b) = two[i as usize];
        let p = &PACKETS[k];
        for (a, b) in [(a, b), (b, a)] {
            let (a, b) = (&p.fields[a], &p.fields[b]);
            let mut v = background(p, 0, 4);
            for x in &fw[a.size] {
                put_word(&mut v, a, *x);
                for y in c.pick(&few_words(b.size), &fw[b.size]) {
                    put_word(&mut v, b, *y);
                    use_all(&frame(p.class, p.id, &v), false, r);
                }
            }
        }
        r.eval(Some(hash64(&[], i)));
    });
    c.space("triples of fields with edge words", three.len() as u64, |i, r| {
        let (k, a, b, d) = three[i as usize];
        let p = &PACKETS[k];
        let (a, b, d) = (&p.fields[a], &p.fields[b], &p.fields[d]);
        let n = c.pick(6, 13);
        let some = |f: &Fd| {
            let w = few_words(f.size);
            w.into_iter().rev().take(n).chain([0, 1]).collect::<Vec<_>>()
        };
        let mut v = background(p, 0, 4);
        for x in some(a) {
            put_word(&mut v, a, x);
            for y in some(b) {
                put_word(&mut v, b, y);
                for z in some(d) {
                    put_word(&mut v, d, z);
                    use_all(&frame(p.class, p.id, &v), false, r);
                }
            }
        }
        r.eval(Some(hash64(&[], i)));
    });

    // pairs of bytes
    let mut pairs = vec![];
    for &k in &t {
        let n = background(&PACKETS[k], 0, 0).len();
        for i in 0..n {
            for j in i + 1..n {
                pairs.push((k, i, j));
            }
        }
    }
    let pv: Vec<u8> = c.pick(vec![0, 1, 0x7f, 0x80, 0xff], vec![0, 1, 2, 0x1f, 0x20, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff]);
    c.space("pairs of bytes", pairs.len() as u64, |i, r| {
        let (k, a, b) = pairs[i as usize];
        let p = &PACKETS[k];
        let mut v = background(p, 0, 2);
        for x in &pv {
            for y in &pv {
                v[a] = *x;
                v[b] = *y;
                use_all(&frame(p.class, p.id, &v), true, r);
            }
        }
        r.eval(Some(hash64(&v, k as u64)));
    });

    // every length of every known class and id
    let mut keys: Vec<(u8, u8)> = PACKETS.iter().map(|p| (p.class, p.id)).collect();
    keys.sort_unstable();
    keys.dedup();
    keys.push((0x77, 1));
    let step = c.pick(1usize, 1);
    c.space("every length of known pairs", keys.len() as u64 * 8177, |i, r| {
        let ((class, id), n) = (keys[(i / 8177) as usize], (i % 8177) as usize * step);
        let big = n > 1500;
        for b in 0..4u64 {
            if big && b > 1 && n % 61 != 0 {
                continue;
            }
            let v: Vec<u8> = match b {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => (0..n).map(|k| if k % 10 == 9 { 0 } else { b'a' + (k % 26) as u8 }).collect(),
                _ => (0..n).map(|k| pat(6, k)).collect(),
            };
            use_all(&frame(class, id, &v), n < 300 || n % 97 == 0, r);
        }
        r.eval(Some(i));
    });

    // sensor data: every flag word against lengths around the announced one
    c.space("ESF-MEAS flags and length", 65536, |i, r| {
        let need = 8 + 4 * (i >> 11 & 31) as usize + if i & 8 != 0 { 4 } else { 0 };
        for n in [6, 7, 8, 11, 12, need.saturating_sub(4), need.saturating_sub(1), need, need + 1, need + 4, need + 8, 136, 1240] {
            let mut v: Vec<u8> = (0..n).map(|k| pat(2, k)).collect();
            if n >= 6 {
                v[4] = i as u8;
                v[5] = (i >> 8) as u8;
            }
            use_all(&frame(0x10, 2, &v), i % 16 == 0, r);
        }
        r.eval(Some(i));
    });

    // text: terminators and every kind of broken UTF-8 at every place
    let texts: Vec<Vec<u8>> = vec![
        vec![0],
        vec![0xff],
        vec![0x80],
        vec![0xc0, 0x80],
        vec![0xc3],
        vec![0xc3, 0xa9],
        vec![0xe2, 0x82],
        vec![0xe2, 0x82, 0xac],
        vec![0xed, 0xa0, 0x80],
        vec![0xf0, 0x9f, 0x9b],
        vec![0xf0, 0x9f, 0x9b, 0xb0],
        vec![0xf4, 0x90, 0x80, 0x80],
        vec![0xfe, 0, 0xfe],
    ];
    c.space("text packets", 6 * texts.len() as u64 * 131, |i, r| {
        let at = (i % 131) as usize;
        let t = &texts[(i / 131) as usize % texts.len()];
        let which = i / 131 / texts.len() as u64;
        for term in [true, false] {
            let (class, id, n) = if which < 5 { (4, which as u8, at + t.len() + 3) } else { (0x0a, 4, 130) };
            let mut v: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
            if term && which == 5 {
                for k in [29, 39, 69, 99, 129] {
                    v[k] = 0;
                }
            }
            for (k, b) in t.iter().enumerate() {
                if at + k < v.len() {
                    v[at + k] = *b;
                }
            }
            use_all(&frame(class, id, &v), true, r);
            r.eval(Some(hash64(&v, which)));
        }
    });

    // dates, times and nanoseconds of a navigation solution
    let years = [0u16, 1, 4, 100, 400, 1582, 1900, 1970, 1999, 2000, 2001, 2004, 2024, 2038, 2100, 9999, 10000, 32767, 32768, 65535];
    c.space("calendar fields", years.len() as u64 * 256, |i, r| {
        let mut v = background(&PACKETS[PK_NavPvt], 0, 0);
        let y = years[(i / 256) as usize];
        v[4..6].copy_from_slice(&y.to_le_bytes());
        v[6] = i as u8;
        for d in 0..=255u8 {
            v[7] = d;
            for (h, m, s, ns) in [(0, 0, 0, 0i32), (23, 59, 59, 999_999_999), (0, 0, 0, -999_999_999), (0, 0, 0, i32::MIN), (24, 60, 60, i32::MAX), (23, 59, 60, 1_000_000_000), (12, 0, 0, -1_000_000_000)] {
                v[8] = h;
                v[9] = m;
                v[10] = s;
                v[16..20].copy_from_slice(&ns.to_le_bytes());
                let f = frame(1, 7, &v);
                r.evals(1);
                if let Err(m) = no_panic(|| {
                    first(&f, |g| match g {
                        Some(Ok(q)) => convert(q),
                        _ => 0,
                    })
                }) {
                    r.fail(format!("NAV-PVT payload [{}] to a time: {m}", hex(&v)));
                }
            }
        }
        r.eval(Some(i));
    });
    c.space("times of day", 256 * 256, |i, r| {
        let mut v = background(&PACKETS[PK_NavPvt], 0, 0);
        v[4..8].copy_from_slice(&[0xe8, 7, 2, 29]);
        v[8] = i as u8;
        v[9] = (i >> 8) as u8;
        for s in 0..=255u8 {
            v[10] = s;
            for ns in [0i32, -1, 1] {
                v[16..20].copy_from_slice(&ns.to_le_bytes());
                let f = frame(1, 7, &v);
                r.evals(1);
                if let Err(m) = no_panic(|| {
                    first(&f, |g| match g {
                        Some(Ok(q)) => convert(q),
                        _ => 0,
                    })
                }) {
                    r.fail(format!("NAV-PVT payload [{}] to a time: {m}", hex(&v)));
                }
            }
        }
        r.eval(Some(i));
    });

    // streams: every string over six bytes that matter to framing, and token sequences
    let alpha = [0xb5u8, 0x62, 0x05, 0x01, 0x00, 0xff];
    let depth = c.pick(9usize, 10);
    c.space("short byte strings", 6u64.pow(depth as u32), |i, r| {
        let mut s = vec![];
        nth_string(&alpha, depth, i, &mut s);
        use_all(&s, false, r);
        r.eval(Some(i));
    });
    let toks = tokens();
    let td = c.pick(3usize, 4);
    c.space("token sequences", (toks.len() as u64).pow(td as u32), |i, r| {
        let mut s = vec![];
        nth_tokens(&toks, td, i, &mut s);
        use_all(&s, true, r);
        r.eval(Some(i));
    });
    // every number of repeated blocks, one of them odd, at every place
    let reps = repeat_cases(c.pick(120, 700));
    c.space("one odd block among every number of blocks", reps.len() as u64, |i, r| {
        let (j, n, k) = reps[i as usize];
        let p = &PACKETS[REPEATED[j].0];
        for v in repeated(j, n, k) {
            use_all(&frame(p.class, p.id, &v), n <= 12 || k % 16 == 0, r);
            r.eval(Some(hash64(&v, j as u64)));
        }
    });
    c.finish(
        "for every definition: every value of every byte over several backgrounds and lengths, every 16-bit value, pairs and triples of fields and pairs of bytes at their edges; every length of every known class and id; every ESF-MEAS flag word against lengths; broken text at every place; calendar fields; short strings and token streams. After each: every accessor, view, iterator item, Debug (plain and alternate), Serialize and conversion is called under a panic catcher with overflow checks on",
        &["built with overflow checks and debug assertions", "a panic is what catch_unwind sees; aborts end the check"],
    );
}
