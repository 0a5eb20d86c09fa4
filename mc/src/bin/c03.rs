//! C03: only frames with a matching checksum are delivered; mismatches report both checksums.
use mc::*;
use ublox::*;

#[derive(Clone, Debug)]
enum O {
    Pkt(u8, u8, Vec<u8>),
    Ck(u16, u16),
    Other,
}

fn collect<T: UnderlyingBuffer>(p: &mut Parser<T>, chunks: &[&[u8]]) -> Vec<O> {
    let mut v = vec![];
    for c in chunks {
        let mut it = p.consume(c);
        while let Some(g) = it.next() {
            v.push(match g {
                Ok(p) => {
                    let (c, i, b, _) = parts(&p);
                    O::Pkt(c, i, b.to_vec())
                },
                Err(ParserError::InvalidChecksum { expect, got }) => O::Ck(expect, got),
                Err(_) => O::Other,
            });
            if v.len() > 1_000_000 {
                return v;
            }
        }
    }
    v
}

/// The monitor: every delivered packet is a right frame of the stream, in order and without
/// overlap; every checksum error belongs to a complete frame of the stream; `must` (found, computed)
/// is among the errors.
fn check(s: &[u8], out: &[O], must: Option<(u16, u16)>) -> Result<usize, String> {
    let mut from = 0;
    let mut npk = 0;
    let mut seen = false;
    for o in out {
        match o {
            O::Pkt(c, i, b) => {
                npk += 1;
                let n = b.len();
                let at = (from..s.len().saturating_sub(n + 7)).find(|&k| {
                    s[k] == 0xb5
                        && s[k + 1] == 0x62
                        && s[k + 2] == *c
                        && s[k + 3] == *i
                        && s[k + 4] as usize + 256 * s[k + 5] as usize == n
                        && s[k + 6..k + 6 + n] == b[..]
                        && (s[k + 6 + n], s[k + 7 + n]) == fletcher(&s[k + 2..k + 6 + n])
                });
                match at {
                    Some(k) => from = k + n + 8,
                    None => return Err(format!("[{}]: delivered {c:#04x} {i:#04x} [{}], which is no right frame behind byte {from}", hex(s), hex(b))),
                }
            },
            O::Ck(expect, got) => {
                seen |= must == Some((*expect, *got));
                let at = (0..s.len().saturating_sub(7)).any(|k| {
                    if s[k] != 0xb5 || s[k + 1] != 0x62 {
                        return false;
                    }
                    let n = s[k + 4] as usize + 256 * s[k + 5] as usize;
                    if k + n + 8 > s.len() {
                        return false;
                    }
                    let (a, b) = fletcher(&s[k + 2..k + 6 + n]);
                    (a as u16 + 256 * b as u16, s[k + 6 + n] as u16 + 256 * s[k + 7 + n] as u16) == (*got, *expect) && expect != got
                });
                if !at {
                    return Err(format!("[{}]: checksum error expect {expect:#06x} got {got:#06x} fits no frame of the stream", hex(s)));
                }
            },
            O::Other => return Err(format!("[{}]: an error other than a checksum error", hex(s))),
        }
    }
    if let (Some(m), false) = (must, seen) {
        return Err(format!("[{}]: the error expect {:#06x} got {:#06x} is not reported: {out:?}", hex(s), m.0, m.1));
    }
    Ok(npk)
}

fn corpus() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        frame(5, 1, &[6, 1]),
        frame(0x77, 1, &[]),
        frame(0x77, 2, &[0]),
        frame(0x77, 3, &[0xff; 7]),
        frame(0xff, 0xff, &[0xff, 0xff]),
        frame(0, 0, &[0, 0, 0]),
        frame(1, 0x61, &[1, 2, 3, 4]),
        frame(0x77, 4, &[0xb5, 0x62, 0x77, 5, 0, 0, 0x7c, 0xb7]),
    ];
    v.push(frame(1, 2, &(0..28).map(|k| (k * 37) as u8).collect::<Vec<_>>()));
    v.push(frame(1, 7, &(0..92).map(|k| (k * 11 + 3) as u8).collect::<Vec<_>>()));
    v
}

fn expected(s: &[u8]) -> Option<(u16, u16)> {
    // the mismatch the scan meets first, when the frame at byte 0 is complete and damaged
    let mut p = 0;
    match candidate(s, &mut p) {
        Cand::Complete { ok: false, expect, got, .. } if p == 0 => Some((expect, got)),
        _ => None,
    }
}

fn one(s: &[u8], original: &[u8], r: &mut Rec) {
    let out = collect(&mut Parser::default(), &[s]);
    r.eval(if s != original { Some(hash64(s, 3)) } else { None });
    match check(s, &out, expected(s)) {
        Err(e) => r.fail(e),
        Ok(_) => {
            // an intact copy is delivered, which shows that the monitor is not idle
            if s == original && !matches!(out.first(), Some(O::Pkt(..))) {
                r.fail(format!("[{}]: the intact frame is not delivered: {out:?}", hex(s)));
            }
        },
    }
}

fn main() {
    let c = Ctx::new("C03", Level::FaultEnumeration);
    let fs = corpus();
    for (k, f) in fs.iter().enumerate() {
        let l = f.len() as u64;
        c.space(&format!("frame {k}: every byte replaced by every value"), l * 256, |i, r| {
            let mut s = f.clone();
            s[(i / 256) as usize] = i as u8;
            r.sample(|| hex(&s));
            one(&s, f, r);
        });
        if l <= c.pick(13, 20) {
            c.space(&format!("frame {k}: every two bytes replaced by every value"), l * l * 256, |i, r| {
                let (a, b) = ((i / 256 % l) as usize, (i / 256 / l) as usize);
                if a >= b {
                    return;
                }
                for x in 0..=255u8 {
                    let mut s = f.clone();
                    s[a] = i as u8;
                    s[b] = x;
                    one(&s, f, r);
                }
            });
        }
        c.space(&format!("frame {k}: every two bits flipped"), l * 8 * l * 8, |i, r| {
            let (a, b) = (i % (l * 8), i / (l * 8));
            if a < b {
                let mut s = f.clone();
                s[(a / 8) as usize] ^= 1 << (a % 8);
                s[(b / 8) as usize] ^= 1 << (b % 8);
                one(&s, f, r);
            }
        });
        c.space(&format!("frame {k}: a byte inserted anywhere"), (l + 1) * 256, |i, r| {
            let mut s = f.clone();
            s.insert((i / 256) as usize, i as u8);
            one(&s, f, r);
        });
        c.space(&format!("frame {k}: a run deleted, doubled or two bytes swapped"), l * l, |i, r| {
            let (a, b) = ((i % l) as usize, (i / l) as usize);
            let mut s = f.clone();
            s.swap(a, b);
            one(&s, f, r);
            if a <= b {
                let mut s = f[..a].to_vec();
                s.extend_from_slice(&f[b + 1..]);
                one(&s, f, r);
                let mut s = f[..=b].to_vec();
                s.extend_from_slice(&f[a..]);
                one(&s, f, r);
            }
        });
        // damaged frames arriving in two pieces, for growable and fixed buffers
        c.space(&format!("frame {k}: every bit flipped, every split"), l * 8 * (l + 1), |i, r| {
            let mut s = f.clone();
            let bit = i % (l * 8);
            s[(bit / 8) as usize] ^= 1 << (bit % 8);
            let a = (i / (l * 8)) as usize;
            for kind in 0..3 {
                let ch: [&[u8]; 2] = [&s[..a], &s[a..]];
                let mut mem = vec![0xb5u8; s.len() + kind];
                let out = match kind {
                    0 => collect(&mut Parser::default(), &ch),
                    _ => collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &ch),
                };
                r.eval(Some(hash64(&s, 100 + a as u64)));
                if let Err(e) = check(&s, &out, expected(&s)) {
                    r.fail(format!("split at {a}, buffer kind {kind}: {e}"));
                }
            }
        });
        c.space(&format!("frame {k}: the intact frame, every two splits"), (l + 1) * (l + 1), |i, r| {
            let (a, b) = ((i % (l + 1)) as usize, (i / (l + 1)) as usize);
            if a > b {
                return;
            }
            for kind in 0..3 {
                let ch: [&[u8]; 3] = [&f[..a], &f[a..b], &f[b..]];
                let mut mem = vec![0u8; f.len() + kind];
                let out = match kind {
                    0 => collect(&mut Parser::default(), &ch),
                    _ => collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &ch),
                };
                r.eval(Some(hash64(f, 1000 + i)));
                match check(f, &out, None) {
                    Ok(1) if out.len() == 1 => {},
                    x => r.fail(format!("split at {a} and {b}, buffer kind {kind}: {x:?}, {out:?}")),
                }
            }
        });
    }

    // all checksums of a frame: exactly one is right
    for (k, f) in fs.iter().enumerate().take(8) {
        c.space(&format!("frame {k}: every checksum pair"), 65536, |i, r| {
            let mut s = f.clone();
            let n = s.len();
            s[n - 2] = i as u8;
            s[n - 1] = (i >> 8) as u8;
            one(&s, f, r);
        });
    }

    // every payload length, with wrong and right checksums; byte values walk with the length
    c.space("every payload length", MAX_PAYLOAD as u64 + 1, |i, r| {
        let n = i as usize;
        for fill in 0..3u32 {
            let p: Vec<u8> = (0..n as u32).map(|k| if fill == 0 { 0xff } else { (k * (2 * fill + 1) + i as u32) as u8 }).collect();
            let f = frame(0x71, fill as u8, &p);
            one(&f, &f, r);
            for (d, x) in [(1, 0x01u8), (2, 0x80)] {
                let mut s = f.clone();
                let l = s.len();
                s[l - d] ^= x;
                one(&s, &f, r);
            }
            if n > 0 {
                for at in [6, 6 + n / 2, 5 + n] {
                    let mut s = f.clone();
                    s[at] = s[at].wrapping_add(1);
                    one(&s, &f, r);
                }
            }
        }
    });
    // every byte value summed at every position class: single byte payloads and class/id
    c.space("every class, id and one byte payload", 65536, |i, r| {
        for x in [0u8, 1, 0x7f, 0x80, 0xb5, 0xff, i as u8] {
            let f = frame((i >> 8) as u8, i as u8, &[x]);
            one(&f, &f, r);
            let mut s = f.clone();
            s[7] ^= 1;
            one(&s, &f, r);
            let mut s = f.clone();
            s[8] ^= 0x80;
            one(&s, &f, r);
        }
    });
    // one parser which lives through more than 2^16 packets and errors
    const K: [u64; 4] = [0, 1, 3, 7];
    let n = c.pick(66_000, 140_000);
    c.space("long lives of one parser", 16, |i, r| {
        let (a, b) = (K[(i % 4) as usize], K[(i / 4) as usize]);
        let (s, ends) = life(a + LIFE_KINDS * b, n);
        let bad = n * ((a == 3) as usize + (b == 3) as usize);
        for kind in 0..6 {
            let whole = [&s[..]];
            let ch = life_pieces(&s, &ends, [0, 0, 1, 0, 3, 0][kind]);
            let mut mem = vec![0u8; [0, 0, 0, 1000, 1000, 300][kind]];
            let out = match kind {
                0 => collect(&mut Parser::default(), &whole),
                1 | 2 => collect(&mut Parser::default(), &ch),
                3 | 4 => collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &ch),
                _ => collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &whole),
            };
            r.eval(Some(hash64(&[kind as u8, i as u8], 7)));
            let errors = out.iter().filter(|o| matches!(o, O::Ck(..))).count();
            let how = format!("{n} times units {a} and {b} (life.rs), way {kind}");
            // `check` prints the stream, which is too long here
            match check(&s, &out, None) {
                Err(e) => return r.fail(format!("{how}: ...{}", &e[e.len().saturating_sub(300)..])),
                Ok(_) if errors != bad => return r.fail(format!("{how}: {bad} damaged frames, {errors} checksum errors")),
                Ok(_) => {},
            }
        }
    });
    c.finish(
        "each case is one stream (a frame after one enumerated alteration, under one split); non-trivial: the stream differs from every intact frame or arrives split. A monitor independent of the parser checks each delivered packet against the stream's own bytes and each error against the frames in it",
        &["two-byte replacements on short frames only"],
    )
}
