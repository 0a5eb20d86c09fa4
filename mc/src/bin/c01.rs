//! C01: the outcomes of a growable parser are those of the left-to-right scan.
use mc::*;
use ublox::*;

fn run(s: &[u8], r: &mut Rec) {
    let mut f = Follow::new(s);
    let mut p = Parser::default();
    let mut steps = 0;
    let res = feed_all(&mut p, &mut f, s, &mut steps);
    for _ in 0..steps {
        r.step();
    }
    if let Err(e) = res {
        return r.fail(e);
    }
    r.trace();
    r.state(hash64(&s[f.pos..], 0));
    if f.retained() > 0 {
        // what was retained is really there: complete it and see the frame delivered
        let c = completion(&s[f.pos..]);
        let mut t = s.to_vec();
        t.extend_from_slice(&c);
        let mut f2 = Follow { s: &t, pos: f.pos, avail: f.avail };
        let res = feed_all(&mut p, &mut f2, &c, &mut steps);
        r.step();
        if let Err(e) = res {
            r.fail(format!("completing the retained bytes: {e}"));
        }
    }
}

fn strings(c: &Ctx, name: &str, alpha: &[u8], len: usize) {
    for l in 0..=len {
        let n = (alpha.len() as u64).pow(l as u32);
        c.space(&format!("{name}-{l}"), n, |i, r| {
            let mut s = vec![];
            nth_string(alpha, l, i, &mut s);
            if i == n / 3 {
                r.sample(|| hex(&s));
            }
            run(&s, r);
        });
    }
}

fn main() {
    let c = Ctx::new("C01", Level::ModelChecking);
    strings(&c, "all strings over b5 62 00 01 03, length", &[0xb5, 0x62, 0, 1, 3], c.pick(9, 11));
    strings(&c, "all strings over b5 62 00, length", &[0xb5, 0x62, 0], c.pick(13, 15));
    strings(&c, "all strings over b5 62 00 01, length", &[0xb5, 0x62, 0, 1], c.pick(11, 13));

    // empty frame with every class/id/checksum combination of a small alphabet: checksum values
    // 0..3 are among the bytes, so right and wrong checksums both occur
    let toks = tokens();
    for d in 1..=c.pick(4, 5) {
        let n = (toks.len() as u64).pow(d as u32);
        c.space(&format!("token sequences of length {d}"), n, |i, r| {
            let mut s = vec![];
            nth_tokens(&toks, d, i, &mut s);
            run(&s, r);
        });
    }

    // every announced length: complete frame, one byte short, bad checksum; each followed by an
    // intact frame
    let tail = frame(0x77, 0x31, &[1, 2, 3]);
    let tail2 = frame(0x77, 0x32, &[]);
    c.space("every 16-bit length", 65536 * 5, |i, r| {
        let (n, kind) = ((i / 5) as usize, i % 5);
        let payload: Vec<u8> = (0..n).map(|k| (k % 0xb5) as u8).collect();
        let mut s = vec![0x11, 0xb5];
        s.extend(frame(0x13, 0x99, &payload));
        match kind {
            0 => {},
            1 => {
                s.pop();
            },
            2 => {
                let k = s.len() - 2;
                s[k] ^= 1;
            },
            3 => {
                let k = s.len() - 1;
                s[k] ^= 0x80;
            },
            _ => s.truncate(8),
        }
        s.extend_from_slice(&tail);
        s.extend_from_slice(&tail2);
        run(&s, r);
    });

    c.space("every 16-bit length, fed byte by byte or in two pieces", 65536, |i, r| {
        let n = i as usize;
        let payload: Vec<u8> = (0..n.min(8200)).map(|k| (k % 0xb5) as u8).collect();
        let mut s = vec![0xb5, 0x62, 0x13, 0x99, i as u8, (i >> 8) as u8];
        if n <= 64 || n % 256 == 255 {
            s = frame(0x13, 0x99, &payload);
        }
        s.extend_from_slice(&tail);
        for cut in 0..=9usize {
            let mut f = Follow::new(&s);
            let mut p = Parser::default();
            let mut steps = 0;
            for ch in [&s[..cut], &s[cut..]] {
                if let Err(e) = feed_all(&mut p, &mut f, ch, &mut steps) {
                    return r.fail(format!("cut at {cut}: {e}"));
                }
            }
            r.step();
        }
        r.trace();
    });

    // every class and id
    c.space("every class and id", 65536, |i, r| {
        let (cl, id) = ((i >> 8) as u8, i as u8);
        let mut s = frame(cl, id, &[]);
        s.extend(frame(cl, id, &[0xb5]));
        s.extend(frame(cl, id, &[0xb5, 0x62]));
        let mut bad = frame(cl, id, &[0x62]);
        bad[8] = bad[8].wrapping_add(1);
        s.extend(bad);
        s.extend(frame(cl, id, &[1, 2, 3, 4]));
        run(&s, r);
    });

    // a stored frame with every checksum pair
    c.space("every checksum pair", 65536 * 2, |i, r| {
        let mut s = if i & 65536 == 0 { frame(0x77, 0x10, &[]) } else { frame(0x77, 0x10, &[0xb5, 0x62, 1]) };
        let k = s.len();
        s[k - 2] = i as u8;
        s[k - 1] = (i >> 8) as u8;
        s.extend_from_slice(&tail);
        run(&s, r);
    });

    // each byte of a stream of frames replaced by every value
    let mut base = vec![0x24];
    base.extend(frame(1, 0x61, &[4, 3, 2, 1]));
    base.extend(frame(5, 1, &[6, 1]));
    base.extend(frame(0x77, 5, &frame(0x77, 6, &[9])));
    base.extend(frame(5, 0, &[6, 0x8a]));
    let l = base.len() as u64;
    c.space("each byte of a stream replaced", l * 256, |i, r| {
        let mut s = base.clone();
        s[(i / 256) as usize] = i as u8;
        run(&s, r);
    });
    let vals: [u8; 10] = [0, 1, 2, 3, 8, 0x20, 0x62, 0xb5, 0x1f, 0xff];
    c.space("each pair of bytes of a stream replaced", l * l * 100, |i, r| {
        let (a, b) = ((i / 100 % l) as usize, (i / 100 / l) as usize);
        if a >= b {
            return;
        }
        let mut s = base.clone();
        s[a] = vals[(i % 10) as usize];
        s[b] = vals[(i / 10 % 10) as usize];
        run(&s, r);
    });

    // offsets and counts beyond 8, 15 and 16 bits, all in one call
    let mut ns: Vec<usize> = (0..c.pick(600, 5000)).collect();
    ns.extend(around(9, 17, c.pick(9, 40)));
    c.space("long streams", ns.len() as u64 * LONG_KINDS, |i, r| {
        let s = long_stream(i % LONG_KINDS, ns[(i / LONG_KINDS) as usize]);
        run(&s, r);
    });
    c.space_limit("more than 2^16 outcomes of every kind", LIFE_KINDS * LIFE_KINDS, 120, |i, r| {
        let (s, _) = life(i, c.pick(33_000, 70_000));
        run(&s, r);
    });
    c.finish(
        "state: retained byte string; transition: one next() call compared with the reference scan; trace: one complete stream run on Parser<Vec<u8>> and compared outcome by outcome, then its retained bytes are completed to a frame which has to be delivered",
        &["streams outside the enumerated alphabets and token sequences are represented by them"],
    )
}
