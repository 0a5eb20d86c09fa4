//! C16: scaled values are rounded to nearest and saturate at the field's limits.
use mc::*;

/// Values around a raw value: the value itself, quarters, nearly halves, halves, ulps.
fn around(r: i64, s: f64) -> Vec<f64> {
    let mut o = vec![];
    for d in [0.0, 0.25, 0.49, 0.499_999, 0.5, 0.500_001, 0.51, 0.75] {
        for k in [r as f64 + d, r as f64 - d] {
            o.push(k * s);
            // the same quotient by division
            o.push(k / (1.0 / s));
        }
    }
    let x = r as f64 * s;
    o.extend([x.next_up(), x.next_down(), x.next_up().next_up(), x.next_down().next_down()]);
    let h = (r as f64 + 0.5) * s;
    o.extend([h.next_up(), h.next_down()]);
    o
}

fn specials() -> Vec<f64> {
    let mut o = vec![f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, 0.0, -0.0, f32::MAX as f64, f32::MIN as f64, 1e-45, f64::EPSILON];
    for e in -60..=80 {
        for m in [1.0, 1.5, 1.999_999] {
            o.push(m * 2f64.powi(e));
            o.push(-m * 2f64.powi(e));
        }
    }
    for e in -30..=40 {
        o.push(10f64.powi(e));
        o.push(-(10f64.powi(e)));
    }
    o
}

fn main() {
    let c = Ctx::new("C16", Level::Exploration);
    let mut fs = vec![];
    for pk in builders() {
        for (fi, f) in PACKETS[pk].fields.iter().enumerate() {
            if let Map::Scale { s, single } = f.map {
                fs.push((pk, fi, s, single));
            }
        }
    }
    c.note("scaled fields", fs.len().to_string());
    let put = |(pk, fi, s, single): (usize, usize, f64, bool), xs: &[f64], r: &mut Rec| {
        let f = &PACKETS[pk].fields[fi];
        let (lo, hi) = bounds(f);
        let mut v = base_values(pk, 0);
        for x in xs {
            v[fi] = FV::flt(*x);
            r.eval(Some(hash64(&x.to_le_bytes(), (pk * 100 + fi) as u64)));
            let say = |m: String| format!("{}.{} given {x:?} (scale {s}): {m}", PACKETS[pk].name, f.name);
            match no_panic(|| built(pk, &v)) {
                Err(m) => r.fail(say(m)),
                Ok(fr) => {
                    let b = &fr[6 + f.off..6 + f.off + f.size];
                    let raw = if f.kind == Kind::I { raw_i(b) } else { raw_u(b) as i64 };
                    let y = if single { *x as f32 as f64 } else { *x };
                    let ok = if y == f64::INFINITY {
                        raw == hi
                    } else if y == f64::NEG_INFINITY {
                        raw == lo
                    } else {
                        scaled_ok(f, s, single, y, raw)
                    };
                    if !ok {
                        r.fail(say(format!("stored as {raw}, the field holds {lo}..={hi}")));
                    }
                    let (a, z) = fletcher(&fr[2..fr.len() - 2]);
                    if fr[fr.len() - 2..] != [a, z] {
                        r.fail(say(format!("frame [{}] has a wrong checksum", hex(&fr))));
                    }
                },
            }
        }
    };
    let sp = specials();
    c.space("unusual values in every scaled field", fs.len() as u64, |i, r| {
        put(fs[i as usize], &sp, r);
        let (pk, fi, s, _) = fs[i as usize];
        let scaled: Vec<f64> = sp.iter().map(|x| x * s).collect();
        put(fs[i as usize], &scaled, r);
        r.sample(|| format!("{}.{} with {} unusual values", PACKETS[pk].name, PACKETS[pk].fields[fi].name, sp.len()));
    });
    // around every raw value of narrow fields
    let mut narrow = vec![];
    for f in &fs {
        let d = &PACKETS[f.0].fields[f.1];
        if d.size <= 2 {
            let (lo, hi) = bounds(d);
            let mut a = lo - 3;
            while a <= hi + 3 {
                narrow.push((*f, a, (a + 255).min(hi + 3)));
                a += 256;
            }
        }
    }
    c.space("around every raw value of 8- and 16-bit fields", narrow.len() as u64, |i, r| {
        let (f, a, z) = narrow[i as usize];
        for k in a..=z {
            put(f, &around(k, f.2), r);
        }
    });
    // around the raw values of wide fields that matter
    let step = c.pick(65_537i64 * 5, 4_099);
    let mut wide = vec![];
    for f in &fs {
        let d = &PACKETS[f.0].fields[f.1];
        if d.size == 4 {
            let (lo, hi) = bounds(d);
            let mut v: Vec<i64> = vec![];
            for k in 0..33 {
                for e in -3..=3i64 {
                    v.extend([(1i64 << k) + e, -(1i64 << k) + e]);
                }
            }
            for e in -40..=40i64 {
                v.extend([lo + e, hi + e, e]);
            }
            let mut a = lo;
            while a < hi {
                v.push(a);
                a += step;
            }
            v.sort_unstable();
            v.dedup();
            for ch in v.chunks(512) {
                wide.push((*f, ch.to_vec()));
            }
        }
    }
    c.space("around raw values of 32-bit fields", wide.len() as u64, |i, r| {
        let (f, v) = &wide[i as usize];
        for k in v {
            put(*f, &around(*k, f.2), r);
        }
    });

    // decode and encode again
    let recv: Vec<_> = fs.iter().copied().filter(|f| PACKETS[f.0].dispatch.is_some()).collect();
    let again = |pk: usize, set: &[(usize, i64)], r: &mut Rec| {
        let p = &PACKETS[pk];
        let mut pl = background(p, 0, 0);
        for (fi, raw) in set {
            let f = &p.fields[*fi];
            pl[f.off..f.off + f.size].copy_from_slice(&raw.to_le_bytes()[..f.size]);
        }
        let fr = frame(p.class, p.id, &pl);
        r.evals(1);
        first(&fr, |g| match g {
            Some(Ok(q)) if which(q) == Some(pk) => {
                let mut v = base_values(pk, 0);
                observe(q, &mut |i, raw, val| {
                    if !raw {
                        match val {
                            Val::F(x) => v[i] = FV::flt(x),
                            Val::F32(x) => v[i] = FV::flt(x as f64),
                            _ => {},
                        }
                    }
                });
                let out = built(pk, &v);
                for (fi, raw) in set {
                    let f = &p.fields[*fi];
                    if out[6 + f.off..6 + f.off + f.size] != raw.to_le_bytes()[..f.size] {
                        r.fail(format!("{}.{}: raw {raw} decodes to {:?}, which is stored as [{}]", p.name, f.name, v[*fi].f, hex(&out[6 + f.off..6 + f.off + f.size])));
                    }
                }
            },
            g => r.fail(format!("{} payload [{}]: {}", p.name, hex(&pl), show(g))),
        });
    };
    c.space("decode and encode 8- and 16-bit values", recv.len() as u64 * 256, |i, r| {
        let (pk, fi, _, _) = recv[(i / 256) as usize];
        let f = &PACKETS[pk].fields[fi];
        if f.size > 2 {
            return;
        }
        let (lo, hi) = bounds(f);
        let mut k = lo + (i % 256) as i64;
        while k <= hi {
            again(pk, &[(fi, k)], r);
            k += 256;
        }
        r.eval(Some(i));
    });
    // all wide fields of a packet at once
    let mut pks: Vec<usize> = recv.iter().map(|f| f.0).collect();
    pks.dedup();
    let bits = c.pick(20u32, 32);
    let lowbits = bits - 12;
    c.space("decode and encode 32-bit values", pks.len() as u64 * 4096, |i, r| {
        let pk = pks[(i / 4096) as usize];
        let p = &PACKETS[pk];
        let wide: Vec<usize> = recv.iter().filter(|f| f.0 == pk && p.fields[f.1].size == 4).map(|f| f.1).collect();
        if wide.is_empty() {
            return;
        }
        for lo in 0..1u64 << lowbits {
            // quick: the top 12 bits in all combinations and the others spread over the words
            let w = if bits == 32 { (i % 4096) << 20 | lo } else { (i % 4096) << 20 | lo << 12 | (lo.wrapping_mul(0x9e37) & 0xfff) } as u32;
            let set: Vec<(usize, i64)> = wide
                .iter()
                .map(|fi| (*fi, if p.fields[*fi].kind == Kind::I { w as i32 as i64 } else { w as i64 }))
                .collect();
            again(pk, &set, r);
        }
        r.eval(Some(hash64(&i.to_le_bytes(), 12)));
    });
    c.space("decode and encode 32-bit limits", pks.len() as u64 * 4096, |i, r| {
        let pk = pks[(i / 4096) as usize];
        let p = &PACKETS[pk];
        let wide: Vec<usize> = recv.iter().filter(|f| f.0 == pk && p.fields[f.1].size == 4).map(|f| f.1).collect();
        let (a, b) = (i % 64, i / 64 % 64);
        for w in [(1u64 << (a % 32)).wrapping_add(b).wrapping_sub(32) as u32, !((1u64 << (a % 32)).wrapping_add(b).wrapping_sub(32) as u32)] {
            let set: Vec<(usize, i64)> = wide.iter().map(|fi| (*fi, if p.fields[*fi].kind == Kind::I { w as i32 as i64 } else { w as i64 })).collect();
            if !set.is_empty() {
                again(pk, &set, r);
            }
        }
        r.eval(Some(hash64(&i.to_le_bytes(), 13)));
    });
    c.finish(
        "every scaled field of every builder: infinities, NaN, subnormals, powers of two and ten; around every raw value of 8- and 16-bit fields and around limits, powers of two and a stride of 32-bit ones (the value, quarters, near halves, halves, neighbouring floats); decoding and encoding every 8- and 16-bit raw value and a lattice (thorough: all) of 32-bit ones. Distinct by field and value",
        &["at a tie that the scale can't represent exactly, either neighbour is accepted"],
    );
}
