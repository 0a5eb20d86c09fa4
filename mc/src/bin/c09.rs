//! C09: each frame is dispatched to the right packet type, else to Unknown.
use mc::*;
use std::collections::BTreeMap;
use ublox::*;

fn judge(class: u8, id: u8, payload: &[u8], g: &Got, r: &mut Rec) {
    r.evals(1);
    let want = dispatch(class, id, payload);
    let say = |k: Option<usize>| k.map_or("Unknown", |k| PACKETS[k].name);
    match g {
        Some(Ok(q)) => {
            let got = which(q);
            let (c, i, b, _) = parts(q);
            if got != want {
                r.fail(format!("class {class:#04x} id {id:#04x} payload of {} bytes [{}] became {}, expected {}", payload.len(), hex(payload), say(got), say(want)));
            } else if (c, i) != (class, id) || b != payload {
                r.fail(format!(
                    "class {class:#04x} id {id:#04x} payload [{}] was reported as class {c:#04x} id {i:#04x} payload [{}] ({})",
                    hex(payload),
                    hex(b),
                    say(got)
                ));
            } else if let PacketRef::Unknown(u) = q {
                if u.class != class || u.msg_id != id || u.payload != payload {
                    r.fail(format!("the unknown packet {class:#04x} {id:#04x} says class {:#04x} id {:#04x}", u.class, u.msg_id));
                }
            }
        },
        g => r.fail(format!("class {class:#04x} id {id:#04x} payload of {} bytes [{}]: {}, expected {}", payload.len(), hex(payload), show(g), say(want))),
    }
}

fn check(class: u8, id: u8, payload: &[u8], r: &mut Rec) {
    let fr = frame(class, id, payload);
    first(&fr, |g| judge(class, id, payload, g, r));
}

fn main() {
    let c = Ctx::new("C09", Level::Exploration);

    // the whole class and id space
    let mut lens: Vec<usize> = vec![0, 1, 2, 4, 16, 20, 28, 36, 40, 68];
    if c.thorough() {
        lens = (0..=100).collect();
    }
    c.space("every class and id", 65536, |i, r| {
        let (class, id) = ((i >> 8) as u8, i as u8);
        for &n in &lens {
            for b in [0u64, 2] {
                let v: Vec<u8> = (0..n).map(|k| pat(b, k)).collect();
                check(class, id, &v, r);
                r.eval(Some(hash64(&v, i)));
            }
        }
    });

    // every length of every known class and id, and of their neighbours
    let mut keys: BTreeMap<(u8, u8), Vec<usize>> = BTreeMap::new();
    for (k, p) in PACKETS.iter().enumerate() {
        keys.entry((p.class, p.id)).or_default().push(k);
    }
    let keys: Vec<_> = keys.into_iter().collect();
    c.note("known class and id pairs", keys.len().to_string());
    let nb = c.pick(5u64, 12);
    c.space("every length of known pairs", keys.len() as u64 * 8177, |i, r| {
        let (n, ((class, id), _)) = ((i % 8177) as usize, &keys[(i / 8177) as usize]);
        for b in 0..nb {
            // the last background is text with a terminator in every 30-byte block
            let mut v: Vec<u8> = if b == nb - 1 {
                (0..n).map(|k| if k % 10 == 9 { 0 } else { b'a' + (k % 26) as u8 }).collect()
            } else {
                (0..n).map(|k| pat(b, k)).collect()
            };
            check(*class, *id, &v, r);
            r.eval(Some(hash64(&v[..n.min(64)], i)));
            // and with every definition's restricted fields made acceptable where they exist
            for &k in &keys[(i / 8177) as usize].1 {
                let p = &PACKETS[k];
                let mut did = false;
                for f in p.fields {
                    if f.size > 0 && f.may_fail && v.len() >= f.off + f.size {
                        repair(f, &mut v[f.off..f.off + f.size], b);
                        did = true;
                    }
                }
                if did {
                    check(*class, *id, &v, r);
                }
            }
        }
    });

    // every value of every restricted field, alone and in pairs
    let mut pairs = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_none() {
            continue;
        }
        let res: Vec<_> = (0..p.fields.len()).filter(|i| p.fields[*i].may_fail && p.fields[*i].size > 0 && p.fields[*i].kind == Kind::U).collect();
        for &a in &res {
            for &b in &res {
                if a <= b {
                    pairs.push((k, a, b));
                }
            }
        }
    }
    c.space("restricted field values", pairs.len() as u64 * 256, |i, r| {
        let (k, fa, fb) = pairs[(i / 256) as usize];
        let p = &PACKETS[k];
        for bg in [0u64, 1, 2] {
            let mut v = background(p, 0, bg);
            v[p.fields[fa].off] = i as u8;
            for x in 0..=255u8 {
                if fa != fb {
                    v[p.fields[fb].off] = x;
                } else if p.fields[fa].size > 1 {
                    v[p.fields[fa].off + 1] = x;
                } else if x > 0 {
                    break;
                }
                check(p.class, p.id, &v, r);
                r.eval(Some(hash64(&v, k as u64)));
            }
        }
        r.sample(|| format!("{} {} = {}", p.name, p.fields[fa].name, i % 256));
    });

    // whatever the other fields hold
    let t: Vec<usize> = (0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect();
    let mut jobs = vec![];
    for &k in &t {
        for b in 0..c.pick(3u64, 12) {
            for at in 0..background(&PACKETS[k], 0, b).len() {
                jobs.push((k, b, at));
            }
        }
    }
    c.space("every value of every byte", jobs.len() as u64, |i, r| {
        let (k, b, at) = jobs[i as usize];
        let p = &PACKETS[k];
        let mut v = background(p, 0, b);
        for x in 0..=255u8 {
            v[at] = x;
            check(p.class, p.id, &v, r);
        }
        r.eval(Some(hash64(&v, k as u64)));
    });
    let (two, three) = field_tuples(&t);
    let fw = field_words();
    c.space("pairs of fields with edge words", two.len() as u64, |i, r| {
        let (k, a, b) = two[i as usize];
        let p = &PACKETS[k];
        for (a, b) in [(a, b), (b, a)] {
            let (a, b) = (&p.fields[a], &p.fields[b]);
            let mut v = background(p, 0, 2);
            for x in &fw[a.size] {
                put_word(&mut v, a, *x);
                for y in c.pick(&few_words(b.size), &fw[b.size]) {
                    put_word(&mut v, b, *y);
                    check(p.class, p.id, &v, r);
                }
            }
        }
        r.eval(Some(hash64(&[], i)));
    });
    c.space("triples of fields with edge words", three.len() as u64, |i, r| {
        let (k, a, b, d) = three[i as usize];
        let p = &PACKETS[k];
        let (a, b, d) = (&p.fields[a], &p.fields[b], &p.fields[d]);
        let mut v = background(p, 0, 4);
        let step = c.pick(2, 1);
        for x in few_words(a.size).into_iter().step_by(step) {
            put_word(&mut v, a, x);
            for y in few_words(b.size).into_iter().step_by(step) {
                put_word(&mut v, b, y);
                for z in few_words(d.size) {
                    put_word(&mut v, d, z);
                    check(p.class, p.id, &v, r);
                }
            }
        }
        r.eval(Some(hash64(&[], i)));
    });

    // the port id and mode of CFG-PRT together
    c.space("CFG-PRT port and mode", 256 * 64, |i, r| {
        let mut v = background(&PACKETS[PK_CfgPrtUart], 0, 0);
        v[0] = (i / 64) as u8;
        for hi in 0..64u8 {
            for lo in [0u8, 0x40, 0x80, 0xc0, 0x3f, 0xff] {
                v[4] = lo;
                v[5] = hi;
                v[6] = (i % 64) as u8;
                check(6, 0, &v, r);
            }
        }
        r.eval(Some(hash64(&v, i)));
    });

    // version strings: terminators and non-UTF-8 at every place of every string
    c.space("MON-VER strings", 6 * 12, |i, r| {
        let ext = (i % 6) as usize;
        let what = i / 6;
        let base: Vec<u8> = (0..40 + 30 * ext).map(|k| b'A' + (k % 26) as u8).collect();
        // every field terminated at its end, then one change
        let mut v = base.clone();
        v[29] = 0;
        v[39] = 0;
        for e in 0..ext {
            v[40 + 30 * e + 29] = 0;
        }
        for at in 0..v.len() {
            let mut w = v.clone();
            match what {
                0 => w[at] = 0,
                1 => w[at] = 0xff,
                2 => w[at] = b'x', // removes a terminator
                3 => w[at] = 0xc3, // needs a continuation byte
                4 => {
                    w[at] = 0xc3;
                    if at + 1 < w.len() {
                        w[at + 1] = 0xa9;
                    }
                },
                5 => {
                    w[at] = 0;
                    for x in w.iter_mut().skip(at + 1).take(3) {
                        *x = 0xfe; // bad bytes behind the terminator do not matter
                    }
                },
                6 => {
                    w[at] = 0x80;
                    w[at.saturating_sub(1)] = 0;
                },
                7 => w.truncate(at),
                8 => w.extend(std::iter::repeat(0).take(at)),
                9 => w.extend(std::iter::repeat(b'q').take(at)),
                10 => {
                    w[at] = 0xe2;
                    if at + 2 < w.len() {
                        w[at + 1] = 0x82;
                        w[at + 2] = 0xac;
                    }
                },
                _ => {
                    w[at] = 0xf0;
                    if at + 3 < w.len() {
                        w[at + 1] = 0x9f;
                        w[at + 2] = 0x9b;
                        w[at + 3] = 0xb0;
                    }
                },
            }
            check(0x0a, 4, &w, r);
            r.eval(Some(hash64(&w, 1)));
        }
    });

    // ESF-MEAS: flags against length
    let step = c.pick(1usize, 1);
    c.space("ESF-MEAS flags and length", 65536, |i, r| {
        let need = 8 + 4 * (i >> 11 & 31) as usize + if i & 8 != 0 { 4 } else { 0 };
        let mut lens: Vec<usize> = vec![0, 7, 8, need.saturating_sub(4), need.saturating_sub(1), need, need + 1, need + 3, need + 4, need + 8, 140, 1240];
        lens.sort_unstable();
        lens.dedup();
        for n in lens.into_iter().step_by(step) {
            let mut v: Vec<u8> = (0..n).map(|k| pat(2, k)).collect();
            if n >= 6 {
                v[4] = i as u8;
                v[5] = (i >> 8) as u8;
            }
            check(0x10, 2, &v, r);
            r.eval(Some(hash64(&v, 2)));
        }
    });

    // variable-length packets through the growable buffer, and pairs of frames in one stream
    let disp: Vec<usize> = (0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect();
    let nd = disp.len() as u64;
    c.space("pairs of packets in one stream", nd * nd * 4, |i, r| {
        let (a, b) = (disp[(i % nd) as usize], disp[(i / nd % nd) as usize]);
        let how = i / nd / nd;
        let mk = |k: usize, n: u64| {
            let p = &PACKETS[k];
            let mut v = background(p, 0, n);
            if how & 1 == 1 && p.fixed.is_some() {
                v.pop(); // too short: unknown
            }
            v
        };
        let (va, vb) = (mk(a, 2), mk(b, 0));
        let (pa, pb) = (&PACKETS[a], &PACKETS[b]);
        let mut s = frame(pa.class, pa.id, &va);
        s.extend(frame(pb.class, pb.id, &vb));
        let cut = if how & 2 == 2 { s.len() / 2 } else { 0 };
        let mut q = Parser::new(Vec::new());
        let mut n = 0;
        for part in [&s[..cut], &s[cut..]] {
            let mut it = q.consume(part);
            while let Some(g) = it.next() {
                let (p, v) = if n == 0 { (pa, &va) } else { (pb, &vb) };
                judge(p.class, p.id, v, &Some(g), r);
                n += 1;
            }
        }
        if n != 2 {
            r.fail(format!("{} then {}: {n} outcomes", pa.name, pb.name));
        }
        r.eval(Some(hash64(&s, 3)));
    });
    // every number of repeated blocks, one of them odd, at every place
    let reps = repeat_cases(c.pick(300, 700));
    c.space("one odd block among every number of blocks", reps.len() as u64, |i, r| {
        let (j, n, k) = reps[i as usize];
        let p = &PACKETS[REPEATED[j].0];
        for v in repeated(j, n, k) {
            check(p.class, p.id, &v, r);
            r.eval(Some(hash64(&v, j as u64)));
        }
    });
    c.finish(
        "every class and id at several lengths, every length 0..=8176 of every known class and id over several backgrounds, every value of every byte, pairs and triples of fields at edge words, every value (and pair of values) of every restricted field, all text terminator placements, all ESF-MEAS flags against lengths; the delivered type, class, id and payload are compared with an independent dispatch model over the frozen table",
        &["lengths of unknown class and id pairs behave alike beyond those tried"],
    );
}
