//! C11: variable-length packets yield every block once, in order, from its own bytes.
use mc::*;

fn put(v: &mut Vec<u8>, n: usize, salt: u64) {
    for k in 0..n {
        v.push(pat(6 + salt, k + v.len() * 0));
    }
}

fn main() {
    let c = Ctx::new("C11", Level::Exploration);
    let run = |pk: usize, v: &[u8], r: &mut Rec| {
        let p = &PACKETS[pk];
        check_frame(p.class, p.id, v, r);
        r.eval(Some(hash64(v, pk as u64)));
    };

    // blocks whose bytes all differ, for every number of blocks and every left-over length
    let kinds = [(PK_NavSat, 8usize, 12usize), (PK_RxmRawx, 16, 32), (PK_RxmSfrbx, 8, 4), (PK_EsfRaw, 4, 8)];
    for (pk, head, blk) in kinds {
        let max = c.pick(1300usize, 8176);
        c.space(&format!("{}: every length", PACKETS[pk].name), max as u64 + 1, |i, r| {
            let n = i as usize;
            for b in 0..c.pick(4u64, 12) {
                let v: Vec<u8> = (0..n).map(|k| pat(if b < 2 { b + 1 } else { b + 5 }, k)).collect();
                run(pk, &v, r);
                // a head which claims another number of blocks
                for claim in [0u8, 1, 255, (n.saturating_sub(head) / blk) as u8] {
                    let mut w = v.clone();
                    for at in 0..w.len().min(head) {
                        if at >= 4 {
                            w[at] = claim;
                        }
                    }
                    run(pk, &w, r);
                }
            }
        });
        // every value of every byte of up to three blocks
        let nb = c.pick(3usize, 6);
        c.space(&format!("{}: every byte of the blocks", PACKETS[pk].name), (nb * (head + nb * blk)) as u64, |i, r| {
            let blocks = 1 + i as usize / (head + nb * blk);
            let at = i as usize % (head + nb * blk);
            if at >= head + blocks * blk {
                return;
            }
            for b in [0u64, 1, 7] {
                let mut v: Vec<u8> = (0..head + blocks * blk).map(|k| pat(b, k)).collect();
                for x in 0..=255u8 {
                    v[at] = x;
                    run(pk, &v, r);
                }
            }
            r.sample(|| format!("{} with {blocks} blocks, byte {at} = 0..255", PACKETS[pk].name));
        });
        // block order: sequences of blocks from a small set
        let sets = c.pick(5u32, 7);
        c.space(&format!("{}: block sequences", PACKETS[pk].name), 4u64.pow(sets), |i, r| {
            let mut v: Vec<u8> = (0..head).map(|k| pat(7, k)).collect();
            let mut j = i;
            for _ in 0..sets {
                match j % 4 {
                    0 => v.extend(std::iter::repeat(0).take(blk)),
                    1 => v.extend(std::iter::repeat(0xff).take(blk)),
                    x => put(&mut v, blk, x),
                }
                j /= 4;
                run(pk, &v, r);
            }
        });
    }

    // satellite flags: every bit alone, every pair and every value of the low and high half
    c.space("satellite flags", 65536 * 2, |i, r| {
        let w = if i < 65536 { i as u32 } else { (i as u32 - 65536) << 16 };
        for bg in [0u32, 0xffff_ffff] {
            let w = if i < 65536 { w | (bg & 0xffff_0000) } else { w | (bg & 0xffff) };
            let mut v: Vec<u8> = (0..20).map(|k| pat(2, k)).collect();
            v[16..20].copy_from_slice(&w.to_le_bytes());
            run(PK_NavSat, &v, r);
        }
    });

    // ESF-MEAS: every flag word against every length which matters
    c.space("ESF-MEAS: every flag word and length", 65536, |i, r| {
        let need = 8 + 4 * (i >> 11 & 31) as usize + if i & 8 != 0 { 4 } else { 0 };
        let mut lens: Vec<usize> = (need.saturating_sub(5).max(6)..need + 10).collect();
        lens.extend(if c.thorough() { (6..=140).collect() } else { vec![6, 7, 8, 9, 12, 16, 136] });
        for n in lens {
            let mut v: Vec<u8> = (0..n).map(|k| pat(7, k)).collect();
            v[4] = i as u8;
            v[5] = (i >> 8) as u8;
            run(PK_EsfMeas, &v, r);
        }
    });
    c.space("ESF-MEAS: every length", c.pick(1300, 8177), |i, r| {
        for f in [0u16, 8, 0x0800, 0x0808, 0xf800, 0xf808, 0xffff] {
            let mut v: Vec<u8> = (0..i as usize).map(|k| pat(7, k)).collect();
            for k in 0..2 {
                if v.len() > 4 + k {
                    v[4 + k] = f.to_le_bytes()[k];
                }
            }
            run(PK_EsfMeas, &v, r);
        }
    });
    c.space("ESF-MEAS: every byte of the words", 3 * 2 * 24, |i, r| {
        let (words, tag, at) = (1 + i as usize / 48, i / 24 % 2 == 1, i as usize % 24);
        let n = 8 + 4 * words + if tag { 4 } else { 0 };
        if at < 8 || at >= n {
            return;
        }
        for b in [0u64, 1, 7] {
            let mut v: Vec<u8> = (0..n).map(|k| pat(b, k)).collect();
            v[4] = if tag { 8 } else { 0 };
            v[5] = (words as u8) << 3;
            for x in 0..=255u8 {
                v[at] = x;
                run(PK_EsfMeas, &v, r);
            }
        }
    });

    // MON-VER: every length, terminator patterns, broken text at every place
    c.space("MON-VER: every length", c.pick(1300, 8177), |i, r| {
        let n = i as usize;
        let txt: Vec<u8> = (0..n).map(|k| if k % 10 == 9 { 0 } else { b'a' + (k % 26) as u8 }).collect();
        run(PK_MonVer, &txt, r);
        run(PK_MonVer, &vec![0; n], r);
        run(PK_MonVer, &vec![b'x'; n], r);
    });
    let len = 40 + 60;
    let spots: Vec<Vec<u8>> = [&[0u8][..], &[0xff], &[0x80], &[0xc3], &[0xc3, 0xa9], &[0xe2, 0x82, 0xac], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x9b, 0xb0], &[0xf4, 0x90, 0x80, 0x80], &[0, 0xff], &[0xff, 0]]
        .iter()
        .map(|x| x.to_vec())
        .collect();
    c.space("MON-VER: terminators and broken text", 32 * len as u64 * spots.len() as u64, |i, r| {
        // which of the five strings end where: early, at their last byte, or not at all
        let m = i % 32;
        let at = (i / 32) as usize % len;
        let s = &spots[(i / 32) as usize / len];
        for early in [false, true] {
            let mut v: Vec<u8> = (0..len).map(|k| b'A' + (k % 26) as u8).collect();
            for (j, (a, z)) in [(0usize, 30usize), (30, 40), (40, 70), (70, 100)].iter().enumerate() {
                if m >> j & 1 == 1 {
                    v[if early { a + 3 } else { z - 1 }] = 0;
                }
            }
            if m >> 4 & 1 == 1 {
                v.truncate(70);
            }
            for (k, x) in s.iter().enumerate() {
                if at + k < v.len() {
                    v[at + k] = *x;
                }
            }
            run(PK_MonVer, &v, r);
        }
    });
    c.space("MON-VER: every byte", 70 * 256, |i, r| {
        let mut v: Vec<u8> = (0..70).map(|k| if [5, 29, 37, 39, 50, 69].contains(&k) { 0 } else { b'a' + (k % 26) as u8 }).collect();
        v[(i / 256) as usize] = i as u8;
        run(PK_MonVer, &v, r);
    });

    // information text: every short string over the bytes UTF-8 turns on, and every length
    let alpha = [0x00u8, 0x41, 0x7f, 0x80, 0xbf, 0xc2, 0xe0, 0xa0, 0xed, 0xf0, 0x90, 0xf4, 0xff];
    let d = c.pick(4usize, 5);
    let inf = [PK_InfError, PK_InfWarning, PK_InfNotice, PK_InfTest, PK_InfDebug];
    for l in 0..=d {
        c.space(&format!("information text: strings of {l}"), 5 * 13u64.pow(l as u32), |i, r| {
            let mut v = vec![];
            nth_string(&alpha, l, i / 5, &mut v);
            run(inf[(i % 5) as usize], &v, r);
        });
    }
    c.space("information text: every byte pair", 5 * 65536, |i, r| {
        let v = [(i / 5) as u8, (i / 5 >> 8) as u8];
        run(inf[(i % 5) as usize], &v, r);
    });
    c.space("information text: every length", 5 * 8177, |i, r| {
        let n = (i / 5) as usize;
        let mut v: Vec<u8> = (0..n).map(|k| b' ' + (k % 95) as u8).collect();
        run(inf[(i % 5) as usize], &v, r);
        if n > 0 {
            v[n - 1] = 0xc3;
            run(inf[(i % 5) as usize], &v, r);
        }
    });
    // every number of repeated blocks, one of them odd, at every place
    let reps = repeat_cases(c.pick(300, 700));
    c.space("one odd block among every number of blocks", reps.len() as u64, |i, r| {
        let (j, n, k) = reps[i as usize];
        let p = &PACKETS[REPEATED[j].0];
        for v in repeated(j, n, k) {
            run(REPEATED[j].0, &v, r);
            let _ = p;
        }
    });
    c.finish(
        "payloads of the variable-length definitions: every length (whole and broken blocks, several patterns, head counts that disagree), every value of every byte of up to three blocks, block sequences, every ESF-MEAS flag word against every length near the announced one, MON-VER strings with every terminator pattern and broken text at every place, information text over all short strings of UTF-8-relevant bytes and all byte pairs. Distinct by payload; each is compared with the block list the model reads from the payload",
        &["blocks beyond the stated number behave like the ones enumerated"],
    );
}
