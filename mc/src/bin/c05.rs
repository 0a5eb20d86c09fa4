//! C05: what fits a fixed buffer is delivered, the rest is reported and skipped.
use mc::*;
use std::collections::HashSet;
use ublox::*;

fn run(s: &[u8], chunks: &[&[u8]], cap: usize, mem: &mut Vec<u8>, r: &mut Rec) -> Result<(), String> {
    mem.clear();
    mem.resize(cap, 0xb5);
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem[..]));
    let mut f = FollowFixed::new(s, cap);
    let mut n = 0;
    for c in chunks {
        feed_all_fixed(&mut p, &mut f, c, &mut n)?;
        r.state(hash64(&s[f.pos..f.avail], cap as u64));
    }
    for _ in 0..n {
        r.step();
    }
    r.trace();
    Ok(())
}

/// Explicit-state search to the fixpoint: states are buffer contents of a parser with `cap` bytes,
/// transitions feed any string of up to `k` bytes over `alpha`.
fn closure(c: &Ctx, cap: usize, alpha: &[u8], k: usize) {
    let mut chunks: Vec<Vec<u8>> = vec![];
    for l in 1..=k {
        for i in 0..(alpha.len() as u64).pow(l as u32) {
            let mut s = vec![];
            nth_string(alpha, l, i, &mut s);
            chunks.push(s);
        }
    }
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut front: Vec<Vec<u8>> = vec![vec![]];
    seen.insert(vec![]);
    let mut level = 0;
    while !front.is_empty() && level < 40 {
        let found = std::sync::Mutex::new(HashSet::new());
        c.space_search(&format!("capacity {cap}, {} symbols, chunks up to {k}: states at depth {level}", alpha.len()), front.len() as u64, |i, r| {
            let st = &front[i as usize];
            let mut mem = vec![0u8; cap];
            let mut mine: HashSet<Vec<u8>> = HashSet::new();
            for ch in &chunks {
                let mut s = st.clone();
                s.extend_from_slice(ch);
                let mut b = FixedLinearBuffer::new(&mut mem);
                b.extend_from_slice(st);
                let mut p = Parser::new(b);
                let mut f = FollowFixed::new(&s, cap);
                f.avail = st.len();
                let mut n = 0;
                r.step();
                if let Err(e) = feed_all_fixed(&mut p, &mut f, ch, &mut n) {
                    r.fail(format!("buffered [{}], fed [{}]: {e}", hex(st), hex(ch)));
                    return;
                }
                r.trace();
                let next = s[f.pos..].to_vec();
                r.state(hash64(&next, cap as u64));
                mine.insert(next);
            }
            found.lock().unwrap().extend(mine);
        });
        let mut nf = vec![];
        for s in found.into_inner().unwrap() {
            if seen.insert(s.clone()) {
                nf.push(s);
            }
        }
        nf.sort();
        front = nf;
        level += 1;
    }
    c.note(
        &format!("closure capacity {cap}"),
        format!("{} buffer states, {} chunks each, depth {level}, {}", seen.len(), chunks.len(), if front.is_empty() { "fixpoint reached" } else { "cut off" }),
    );
}

fn main() {
    let c = Ctx::new("C05", Level::ModelChecking);
    let show_chunks = |ch: &[&[u8]]| ch.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" | ");

    for cap in 6..=c.pick(9, 11) {
        closure(&c, cap, &[0xb5, 0x62, 0, 1], c.pick(5, 6));
    }
    closure(&c, 8, &[0xb5, 0x62, 0, 1, 2, 0xff], c.pick(4, 5));

    let caps: Vec<usize> = (6..=12).collect();
    for l in 1..=c.pick(8, 9) {
        c.space(&format!("strings of length {l} over b5 62 00 01, all compositions, capacities 6..12"), 4u64.pow(l as u32), |i, r| {
            let mut s = vec![];
            nth_string(&[0xb5, 0x62, 0, 1], l, i, &mut s);
            if !s.windows(2).any(|w| w == [0xb5, 0x62]) {
                return;
            }
            let mut mem = vec![];
            for m in 0..1u64 << (l - 1) {
                let ch = chunks_of(&s, m);
                for cap in &caps {
                    if let Err(e) = run(&s, &ch, *cap, &mut mem, r) {
                        return r.fail(format!("{}: {e}", show_chunks(&ch)));
                    }
                }
            }
        });
    }

    let toks = tokens();
    let nt = toks.len() as u64;
    let tcaps = [6usize, 7, 8, 9, 10, 11, 12, 14, 16, 20, 24, 32];
    for d in 1..=3 {
        c.space(&format!("{d} tokens, all two cuts, {} capacities", tcaps.len()), nt.pow(d as u32), |i, r| {
            let mut s = vec![];
            nth_tokens(&toks, d, i, &mut s);
            let l = s.len();
            let mut mem = vec![];
            let step = if d == 3 { c.pick(3, 1) } else { 1 };
            for a in (0..=l).step_by(step) {
                for b in (a..=l).step_by(step) {
                    let ch = [&s[..a], &s[a..b], &s[b..]];
                    for cap in tcaps {
                        if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                            return r.fail(format!("{}: {e}", show_chunks(&ch)));
                        }
                    }
                }
            }
            let ones: Vec<&[u8]> = s.chunks(1).collect();
            let threes: Vec<&[u8]> = s.chunks(3).collect();
            for cap in tcaps {
                for ch in [&ones, &threes] {
                    if let Err(e) = run(&s, ch, cap, &mut mem, r) {
                        return r.fail(format!("{}: {e}", show_chunks(ch)));
                    }
                }
            }
        });
    }

    // frames of every size against capacities around them, in equal pieces and in one
    c.space("payload lengths around the capacity", 420 * 12, |i, r| {
        let (n, k) = ((i / 12) as usize, i % 12);
        let p: Vec<u8> = (0..n).map(|x| (x % 181) as u8).collect();
        let mut s = vec![0xb5];
        s.extend(frame(0x68, 1, &p));
        s.extend(frame(0x68, 2, &[7; 4]));
        s.extend(frame(0x68, 3, &p[..n.min(3)]));
        let t = n + 8;
        let cap = match k {
            0 => 6,
            1 => 12,
            2 => t.saturating_sub(3),
            3 => t.saturating_sub(2),
            4 => t.saturating_sub(1),
            5 => t,
            6 => t + 1,
            7 => t + 2,
            8 => 2 * t,
            9 => n,
            10 => t.saturating_sub(6),
            _ => 36,
        }
        .max(6);
        let mut mem = vec![];
        for piece in 1..=s.len() {
            if piece > 24 && piece % 5 != 0 && piece != s.len() {
                continue;
            }
            let ch: Vec<&[u8]> = s.chunks(piece).collect();
            if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                return r.fail(format!("payload {n}, pieces of {piece}: {e}"));
            }
        }
    });
    // what is left of a previous frame in the buffer shifts the next one: all two-frame splits
    c.space("two frames, all splits, capacities around the larger", 40 * 40, |i, r| {
        let (n1, n2) = ((i % 40) as usize, (i / 40) as usize);
        let mut s = frame(0x68, 1, &vec![0x11; n1]);
        s.extend(frame(0x68, 2, &vec![0xb5; n2]));
        let t = n1.max(n2) + 8;
        let mut mem = vec![];
        for cap in [6, t - 1, t, t + 1, t + 4, n1 + n2 + 15, n1 + n2 + 16] {
            for a in 0..=s.len() {
                for b in [a, (a + 1).min(s.len()), (a + 7).min(s.len()), (a + s.len()) / 2, s.len()] {
                    let ch = [&s[..a], &s[a..b], &s[b..]];
                    if let Err(e) = run(&s, &ch, cap.max(6), &mut mem, r) {
                        return r.fail(format!("payloads {n1} and {n2}, {}: {e}", show_chunks(&ch)));
                    }
                }
            }
        }
    });
    // another frame begins in the header, or anywhere in the payload, of a frame which may be too large
    c.space("frames within frames, all positions and cuts, capacities up to the outer", 5 * 24 * 3, |i, r| {
        let (q, at, tail) = ((i % 5) as usize, (i / 5 % 24) as usize, (i / 120) as usize);
        let (class, id, n, p) = match at {
            0 => {
                // the outer class and id are the inner sync bytes
                let n = q + 4 + tail;
                let mut p = vec![q as u8, 0];
                p.extend(vec![0x21; q]);
                let f = frame(n as u8, 0, &p[2..]);
                p.extend(&f[q + 6..]);
                p.resize(n, 0x33);
                (0xb5, 0x62, n, p)
            }
            1 | 2 => {
                // the outer id and length are
                let n = 0x62 + 256 * (at - 1);
                let mut p = vec![0x68, q as u8, 0];
                p.extend(vec![0x21; q]);
                let f = frame((at - 1) as u8, 0x68, &p[3..]);
                p.extend(&f[q + 6..]);
                p.resize(n, 0x33);
                (0x68, 0xb5, n, p)
            }
            _ => {
                let mut p = vec![0x31; at - 3];
                p.extend(frame(0x68, 5, &vec![0x21; q]));
                p.extend(vec![0x33; tail]);
                (0x68, 1, p.len(), p)
            }
        };
        let mut s = vec![0xff; tail];
        s.extend(frame(class, id, &p));
        s.extend(frame(0x68, 2, &[]));
        let l = s.len();
        let step = if l > 60 { 7 } else { 1 };
        let mut mem = vec![];
        for broken in [false, true] {
            if broken {
                s[tail + n + 7] ^= 1;
            }
            for cap in (6..=n + 8).filter(|x| *x < 30 || *x > n + 3 || x % 16 == 0) {
                for a in (0..=l).filter(|x| *x < 16 || x % step == 0 || *x > l - 14) {
                    for b in [a, (a + 1).min(l), (a + 2).min(l), (a + 5).min(l), (a + l) / 2, l] {
                        let ch = [&s[..a], &s[a..b], &s[b..]];
                        if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                            return r.fail(format!("{}: {e}", show_chunks(&ch)));
                        }
                    }
                }
            }
        }
    });
    // every 16-bit length in a header met by small buffers
    c.space("every length in a header", 65536, |i, r| {
        let mut s = vec![0xb5, 0x62, 0x01, 0x07, i as u8, (i >> 8) as u8];
        s.extend(frame(0x68, 9, &[1, 2]));
        s.extend(frame(0x68, 8, &[]));
        let mut mem = vec![];
        for cap in [6usize, 10, 16, 26] {
            for ch in [&[&s[..]][..], &[&s[..6], &s[6..]], &[&s[..3], &s[3..11], &s[11..]], &[&s[..10], &s[10..20], &s[20..]]] {
                if let Err(e) = run(&s, ch, cap, &mut mem, r) {
                    return r.fail(format!("length {i}, {}: {e}", show_chunks(ch)));
                }
            }
        }
    });
    // large frames and buffers, and calls with more than 16 bits worth of bytes
    let big: Vec<usize> = around(9, 13, 3).into_iter().chain(8160..=MAX_PAYLOAD).filter(|n| *n <= MAX_PAYLOAD).collect();
    c.space("large payloads around the capacity", big.len() as u64 * 8, |i, r| {
        let n = big[(i / 8) as usize];
        let t = n + 8;
        let cap = [t - 6, t - 2, t - 1, t, t + 1, t + 255, 65536, n][(i % 8) as usize];
        let mut s = frame(0x68, 2, &[7; 4]);
        s.extend(frame(0x68, 1, &(0..n).map(|x| (x % 181) as u8).collect::<Vec<_>>()));
        s.extend(frame(0x68, 3, &[1; 9]));
        let mut mem = vec![];
        let l = s.len();
        for piece in [1, 2, 7, 64, 255, 256, 257, 1000, n.max(1), n + 2, n + 6, t, t + 1, l / 2, l - 17, l - 1, l] {
            let ch: Vec<&[u8]> = s.chunks(piece).collect();
            if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                return r.fail(format!("payload {n}, pieces of {piece}: {e}"));
            }
        }
    });
    let ns = around(8, 17, c.pick(2, 9));
    c.space("long streams", ns.len() as u64 * LONG_KINDS, |i, r| {
        let s = long_stream(i % LONG_KINDS, ns[(i / LONG_KINDS) as usize]);
        let mut mem = vec![];
        for cap in [6usize, 12, 255, 256, 300, 8183, 8184, 65535, 65536, 140_000] {
            for piece in [s.len(), 65536, 65535, 1000, 256, 61] {
                if piece * 400 < s.len() && cap % 3 != 0 {
                    continue;
                }
                let ch: Vec<&[u8]> = s.chunks(piece).collect();
                if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                    return r.fail(format!("{} bytes in pieces of {piece}: {e}", s.len()));
                }
            }
        }
    });
    // one parser which lives through more than 2^16 calls, packets and errors
    let n = c.pick(33_000, 70_000);
    c.space_limit("long lives of one parser", LIFE_KINDS * LIFE_KINDS, 120, |i, r| {
        let (s, ends) = life(i, n);
        let mut mem = vec![];
        let same = i % LIFE_KINDS == i / LIFE_KINDS;
        let caps: &[usize] = if same { &[6, 9, 14, 24, 64, 1000] } else { &[10, 40] };
        for &cap in caps {
            for shift in if same { vec![0, 1, 4] } else { vec![0, 3] } {
                let ch = life_pieces(&s, &ends, shift);
                if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                    return r.fail(format!("{n} times units {} and {}, a piece per unit, {shift} bytes early, capacity {cap}: {e}", i % LIFE_KINDS, i / LIFE_KINDS));
                }
            }
            if same {
                for piece in [1, s.len()] {
                    let ch: Vec<&[u8]> = s.chunks(piece).collect();
                    if let Err(e) = run(&s, &ch, cap, &mut mem, r) {
                        return r.fail(format!("{n} times units {} and {}, pieces of {piece}, capacity {cap}: {e}", i % LIFE_KINDS, i / LIFE_KINDS));
                    }
                }
            }
        }
    });
    c.finish(
        "state: bytes kept by a fixed buffer of a given capacity; transition: one chunk fed to exhaustion (closure spaces) or one next() call; every transition is executed on Parser<FixedLinearBuffer> and compared with the nondeterministic specification. The closure spaces run until no new state appears, so they cover histories of any length over their chunks",
        &["capacity at least 6 bytes", "iterators exhausted"],
    )
}
