//! C10: accessors of received packets decode exactly their own payload bytes.
use mc::*;
use ublox::*;

fn check(pk: usize, payload: &[u8], r: &mut Rec) {
    let p = &PACKETS[pk];
    let fr = frame(p.class, p.id, payload);
    first(&fr, |g| judge(pk, payload, g, r));
}

fn judge(pk: usize, payload: &[u8], g: &Got, r: &mut Rec) {
    let p = &PACKETS[pk];
    r.evals(1);
    match g {
        Some(Ok(q)) if which(q) == Some(pk) => {
            let res = check_fields(pk, payload, |s| {
                observe(q, s);
            });
            match res {
                Ok(()) => {},
                Err((Some(k), m)) => r.fail_keyed(k, m),
                Err((None, m)) => r.fail(format!("{m}; payload [{}]", hex(payload))),
            }
        },
        g => r.fail(format!("{} payload [{}] was delivered as {}", p.name, hex(payload), show(g))),
    }
}

/// Dispatched definitions that a frame can reach, with the length of the fixed part.
fn targets() -> Vec<usize> {
    (0..PACKETS.len())
        .filter(|k| {
            let p = &PACKETS[*k];
            p.dispatch.is_some() && (0..4).any(|b| dispatch(p.class, p.id, &background(p, rest(*k), b)) == Some(*k))
        })
        .collect()
}

/// Bytes behind the fixed part which give the variable packets something.
fn rest(pk: usize) -> usize {
    let _ = pk;
    0
}

/// The flags of ESF-MEAS decide its length; keep them in step with an empty variable part.
fn ok_here(pk: usize, payload: &[u8]) -> bool {
    dispatch(PACKETS[pk].class, PACKETS[pk].id, payload) == Some(pk)
}

fn main() {
    let c = Ctx::new("C10", Level::Exploration);
    let t = targets();
    c.note("definitions", t.iter().map(|k| PACKETS[*k].name).collect::<Vec<_>>().join(" "));
    let unreachable: Vec<_> = (0..PACKETS.len()).filter(|k| PACKETS[*k].recv && !t.contains(k)).map(|k| PACKETS[k].name).collect();
    c.note("definitions no frame can reach, or read only inside others", unreachable.join(" "));
    let nbg = c.pick(6u64, 24);

    // every byte of every payload takes every value, over several backgrounds
    let mut a = vec![];
    for &k in &t {
        for b in 0..nbg {
            let n = background(&PACKETS[k], 0, b).len();
            for at in 0..n {
                a.push((k, b, at));
            }
        }
    }
    c.space("every value of every byte", a.len() as u64, |i, r| {
        let (k, b, at) = a[i as usize];
        let mut v = background(&PACKETS[k], 0, b);
        for x in 0..=255u8 {
            v[at] = x;
            if ok_here(k, &v) {
                check(k, &v, r);
                r.eval(Some(hash64(&v, k as u64)));
            }
        }
        r.sample(|| format!("{} background {b}, byte {at} = 0..255", PACKETS[k].name));
    });

    // every value of every 16-bit field
    let mut w = vec![];
    for &k in &t {
        for (fi, f) in PACKETS[k].fields.iter().enumerate() {
            if f.size == 2 && f.kind != Kind::Arr {
                for b in 0..c.pick(2, 6) {
                    for hi in 0..256u64 {
                        w.push((k, fi, b, hi as u8));
                    }
                }
            }
        }
    }
    c.space("every value of every 16-bit field", w.len() as u64, |i, r| {
        let (k, fi, b, hi) = w[i as usize];
        let off = PACKETS[k].fields[fi].off;
        let mut v = background(&PACKETS[k], 0, b);
        v[off + 1] = hi;
        for lo in 0..=255u8 {
            v[off] = lo;
            if ok_here(k, &v) {
                check(k, &v, r);
                r.eval(Some(hash64(&v, k as u64)));
            }
        }
    });

    // wider fields: every combination of boundary bytes, every one- and two-bit word and complement
    let mut x = vec![];
    for &k in &t {
        for (fi, f) in PACKETS[k].fields.iter().enumerate() {
            if f.size >= 4 && f.kind != Kind::Arr && f.kind != Kind::Var {
                for b in 0..c.pick(2, 6) {
                    x.push((k, fi, b));
                }
            }
        }
    }
    let set: Vec<u8> = c.pick(vec![0, 1, 0x7f, 0x80, 0xff], vec![0, 1, 2, 0x0f, 0x10, 0x40, 0x55, 0x7f, 0x80, 0xaa, 0xc0, 0xfe, 0xff]);
    let words = field_words();
    c.space("boundary words of every wider field", x.len() as u64, |i, r| {
        let (k, fi, b) = x[i as usize];
        let f = &PACKETS[k].fields[fi];
        let n = f.size;
        let mut v = background(&PACKETS[k], 0, b);
        let mut go = |word: u64, r: &mut Rec| {
            v[f.off..f.off + n].copy_from_slice(&word.to_le_bytes()[..n]);
            if ok_here(k, &v) {
                check(k, &v, r);
                r.eval(Some(hash64(&v, k as u64)));
            }
        };
        let bits = 8 * n as u32;
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        for p in 0..bits {
            for q in 0..bits {
                let word = 1u64 << p | 1u64 << q;
                go(word, r);
                go(!word & mask, r);
            }
            go((1u64 << p).wrapping_sub(1) & mask, r);
        }
        for word in &words[n] {
            go(*word, r);
        }
        let m = set.len() as u64;
        let tot = m.pow(n.min(4) as u32);
        for j in 0..tot {
            let (mut q, mut word) = (j, 0u64);
            for byte in 0..n.min(4) {
                word |= (set[(q % m) as usize] as u64) << (8 * (byte + n - n.min(4)));
                q /= m;
            }
            go(word, r);
        }
    });

    // wider fields: every value of every two (thorough: three) neighbouring bytes
    let span = c.pick(2usize, 3);
    let mut hv = vec![];
    for &(k, fi, b) in x.iter().filter(|y| y.2 == 0) {
        for at in 0..=PACKETS[k].fields[fi].size - span {
            for top in 0..256u64 {
                hv.push((k, fi, b + 2, at, top as u8));
            }
        }
    }
    c.space("neighbouring bytes of every wider field", hv.len() as u64, |i, r| {
        let (k, fi, b, at, top) = hv[i as usize];
        let f = &PACKETS[k].fields[fi];
        let mut v = background(&PACKETS[k], 0, b);
        let o = f.off + at;
        v[o + span - 1] = top;
        for low in 0..1u32 << (8 * (span - 1)) {
            v[o] = low as u8;
            if span == 3 {
                v[o + 1] = (low >> 8) as u8;
            }
            if ok_here(k, &v) {
                check(k, &v, r);
            }
        }
        r.eval(Some(hash64(&v, k as u64)));
    });

    // no accessor depends on a byte of another field: all pairs of bytes, boundary values
    let mut pairs = vec![];
    for &k in &t {
        let n = background(&PACKETS[k], 0, 0).len();
        for i in 0..n {
            for j in i + 1..n {
                pairs.push((k, i, j));
            }
        }
    }
    let pv: Vec<u8> = c.pick(vec![0, 1, 3, 5, 0x20, 0x7f, 0x80, 0xff], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0f, 0x10, 0x20, 0x40, 0x55, 0x7f, 0x80, 0xaa, 0xc0, 0xf0, 0xfe, 0xff]);
    c.space("pairs of bytes, one of them with every value", pairs.len() as u64, |i, r| {
        let (k, a, b) = pairs[i as usize];
        for (a, b) in [(a, b), (b, a)] {
            let mut v = background(&PACKETS[k], 0, 2);
            for x in 0..=255 {
                for y in &pv {
                    v[a] = x;
                    v[b] = *y;
                    if ok_here(k, &v) {
                        check(k, &v, r);
                        r.eval(None);
                    }
                }
            }
        }
        r.eval(Some(hash64(&[a as u8, (a >> 8) as u8, b as u8, (b >> 8) as u8], k as u64)));
    });

    // nor on another field: pairs and triples of fields with whole words
    let put = put_word;
    let (fp, ft) = field_tuples(&t);
    let few = |n: usize| -> Vec<u64> {
        let m = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
        c.pick(vec![0, 1, 2, 3, 4, 5, 0x20, m >> 1, (m >> 1) + 1, m], vec![0, 1, 2, 3, 4, 5, 8, 0x20, 0x80 & m, m >> 1, (m >> 1) + 1, m])
    };
    c.space("pairs of fields with edge words", fp.len() as u64, |i, r| {
        let (k, a, b) = fp[i as usize];
        for (a, b) in [(a, b), (b, a)] {
            let (a, b) = (&PACKETS[k].fields[a], &PACKETS[k].fields[b]);
            let mut v = background(&PACKETS[k], 0, 2);
            let fb = c.pick(few(b.size), words[b.size].clone());
            for x in &words[a.size] {
                put(&mut v, a, *x);
                for y in &fb {
                    put(&mut v, b, *y);
                    if ok_here(k, &v) {
                        check(k, &v, r);
                        r.eval(None);
                    }
                }
            }
        }
        r.eval(Some(hash64(&[], i)));
    });
    c.space("triples of fields with edge words", ft.len() as u64, |i, r| {
        let (k, a, b, d) = ft[i as usize];
        let (a, b, d) = (&PACKETS[k].fields[a], &PACKETS[k].fields[b], &PACKETS[k].fields[d]);
        let mut v = background(&PACKETS[k], 0, 3);
        let (fa, fb, fd) = (few(a.size), few(b.size), few(d.size));
        for x in &fa {
            put(&mut v, a, *x);
            for y in &fb {
                put(&mut v, b, *y);
                for z in &fd {
                    put(&mut v, d, *z);
                    if ok_here(k, &v) {
                        check(k, &v, r);
                        r.eval(None);
                    }
                }
            }
        }
        r.eval(Some(hash64(&v, i)));
    });

    // the place of the payload in the buffer and in the stream, and what surrounds it
    let places = c.pick(20u64, 72);
    c.space("placement in the buffer", t.len() as u64 * places * 4, |i, r| {
        let k = t[(i % t.len() as u64) as usize];
        let off = i / t.len() as u64 % places;
        let b = 2 + i / t.len() as u64 / places;
        let p = &PACKETS[k];
        let v = background(p, 0, b);
        if !ok_here(k, &v) {
            return;
        }
        let fr = frame(p.class, p.id, &v);
        // behind garbage, in a growable buffer, split at every position
        let mut s: Vec<u8> = (0..off).map(|x| x as u8 & 0x7f).collect();
        s.extend_from_slice(&fr);
        s.extend_from_slice(&[0xff; 3]);
        for cut in [0, off as usize, off as usize + 3, off as usize + 7, s.len() - 2] {
            let mut q = Parser::new(Vec::new());
            let mut done = 0;
            for part in [&s[..cut], &s[cut..]] {
                let mut it = q.consume(part);
                while let Some(g) = it.next() {
                    judge(k, &v, &Some(g), r);
                    done += 1;
                }
            }
            if done != 1 {
                r.fail(format!("{} behind {off} bytes, split at {cut}: {done} outcomes", p.name));
            }
        }
        // behind another packet, so the payload sits at several alignments of a fixed buffer
        let mut s = frame(0x77, 1, &vec![0xffu8; off as usize]);
        s.extend_from_slice(&fr);
        let mut store = vec![0xeeu8; s.len() + 16];
        let mut q = Parser::new(FixedLinearBuffer::new(&mut store));
        let mut it = q.consume(&s);
        let _ = it.next();
        let g = it.next();
        judge(k, &v, &g, r);
        r.eval(Some(hash64(&s, 7)));
    });
    c.finish(
        "for every definition a frame can reach: every value of every payload byte over several backgrounds, every value of every 16-bit field, all boundary words of wider fields, all pairs of bytes with boundary values, all placements; after each, every accessor and raw accessor of the packet is compared with an independent decoding of the payload by the frozen protocol table",
        &["the frozen table spec/packets.json states the protocol's layout", "a value of a wide field behaves like the boundary words and single-byte variations around it"],
    );
}
