//! C02: outcomes do not depend on chunking or on when iterators are dropped.
use mc::*;
use ublox::*;

/// Feeds the chunks; of chunk k only `take(k)` outcomes are taken before the iterator is dropped
/// (None: all). Ends with an empty chunk, exhausted.
fn run<T: UnderlyingBuffer>(p: &mut Parser<T>, f: &mut Follow, chunks: &[&[u8]], take: impl Fn(usize) -> Option<usize>, r: &mut Rec) -> Result<(), String> {
    for (k, ch) in chunks.iter().enumerate() {
        f.feed(ch.len());
        let mut it = p.consume(ch);
        let mut left = take(k);
        loop {
            if left == Some(0) {
                break;
            }
            left = left.map(|x| x - 1);
            r.step();
            if !f.step(&it.next())? {
                break;
            }
        }
        drop(it);
        r.state(hash64(&f.s[f.pos..f.avail], k as u64 & 1));
    }
    let mut n = 0;
    feed_all(p, f, &[], &mut n)
}

fn report(res: Result<(), String>, r: &mut Rec, how: impl FnOnce() -> String) {
    match res {
        Ok(()) => r.trace(),
        Err(e) => r.fail(format!("{}: {e}", how())),
    }
}

fn main() {
    let c = Ctx::new("C02", Level::ModelChecking);
    let show_chunks = |ch: &[&[u8]]| ch.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" | ");

    // every string x every composition
    for (alpha, len) in [(&[0xb5u8, 0x62, 0, 1][..], c.pick(9, 10)), (&[0xb5, 0x62, 0][..], c.pick(10, 12))] {
        for l in 1..=len {
            let ns = (alpha.len() as u64).pow(l as u32);
            let nc = 1u64 << (l - 1);
            c.space(&format!("strings over {} symbols, length {l}, all compositions", alpha.len()), ns, |i, r| {
                let mut s = vec![];
                nth_string(alpha, l, i, &mut s);
                if !s.windows(2).any(|w| w == [0xb5, 0x62]) {
                    // no sync pair at all: two compositions say it all
                    for m in [0, nc - 1] {
                        let ch = chunks_of(&s, m);
                        let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
                        report(res, r, || show_chunks(&ch));
                    }
                    return;
                }
                for m in 0..nc {
                    let ch = chunks_of(&s, m);
                    let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
                    if res.is_err() {
                        return report(res, r, || show_chunks(&ch));
                    }
                    r.trace();
                }
            });
        }
    }

    let toks = tokens();
    let nt = toks.len() as u64;
    for d in 1..=c.pick(2, 3) {
        // every pair of cuts x every early drop
        c.space(&format!("{d} tokens, all two cuts, all early drops"), nt.pow(d as u32), |i, r| {
            let mut s = vec![];
            nth_tokens(&toks, d, i, &mut s);
            let l = s.len();
            let drops: [Option<usize>; 4] = [None, Some(0), Some(1), Some(2)];
            for a in 0..=l {
                for b in a..=l {
                    let ch = [&s[..a], &s[a..b], &s[b..]];
                    for q in 0..64 {
                        let tk = |k: usize| drops[(q >> (2 * k)) & 3];
                        let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, tk, r);
                        if res.is_err() {
                            return report(res, r, || format!("{} (outcomes taken {:?})", show_chunks(&ch), [tk(0), tk(1), tk(2)]));
                        }
                        r.trace();
                    }
                }
            }
        });
    }
    for d in 3..=c.pick(3, 4) {
        c.space(&format!("{d} tokens, all two cuts"), nt.pow(d as u32), |i, r| {
            let mut s = vec![];
            nth_tokens(&toks, d, i, &mut s);
            let l = s.len();
            let step = if d > 3 { 2 } else { 1 };
            for a in (0..=l).step_by(step) {
                for b in (a..=l).step_by(step) {
                    let ch = [&s[..a], &s[a..b], &s[b..]];
                    let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
                    if res.is_err() {
                        return report(res, r, || show_chunks(&ch));
                    }
                    r.trace();
                }
            }
        });
        // byte by byte, empty pieces in between, one outcome per call, and prefilled buffers
        c.space(&format!("{d} tokens, byte by byte, prefilled, default-method buffer"), nt.pow(d as u32), |i, r| {
            let mut s = vec![];
            nth_tokens(&toks, d, i, &mut s);
            let ones: Vec<&[u8]> = s.chunks(1).collect();
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ones, |_| None, r);
            report(res, r, || "byte by byte".into());
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ones, |_| Some(1), r);
            report(res, r, || "byte by byte, one outcome each".into());
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ones, |_| Some(0), r);
            report(res, r, || "byte by byte, no outcome until the end".into());
            let mut holes: Vec<&[u8]> = vec![];
            for p in s.chunks(3) {
                holes.push(p);
                holes.push(&[]);
            }
            let res = run(&mut Parser::new(PlainBuf::default()), &mut Follow::new(&s), &holes, |_| None, r);
            report(res, r, || "pieces of three with empty ones between, own buffer type".into());
            let res = run(&mut Parser::new(PlainBuf::default()), &mut Follow::new(&s), &holes, |_| Some(1), r);
            report(res, r, || "pieces of three with empty ones between, one outcome each, own buffer type".into());
            for a in 0..=s.len() {
                // the first a bytes are already in the buffer handed over
                let mut f = Follow::new(&s);
                f.feed(a);
                let res = run(&mut Parser::new(s[..a].to_vec()), &mut f, &[&s[a..]], |_| None, r);
                if res.is_err() {
                    return report(res, r, || format!("{a} bytes were in the buffer"));
                }
                r.trace();
                let mut f = Follow::new(&s);
                f.feed(a);
                let m = (a + s.len()) / 2;
                let res = run(&mut Parser::new(s[..a].to_vec()), &mut f, &[&[], &s[a..m], &s[m..]], |k| Some(k), r);
                if res.is_err() {
                    return report(res, r, || format!("{a} bytes were in the buffer, then pieces"));
                }
                r.trace();
            }
        });
    }

    // every split position of frames of every size class
    let sizes = [0usize, 1, 2, 28, 92, 255, 256, 1000, 4095, 4096, 8175, 8176];
    for n in sizes {
        let p: Vec<u8> = (0..n).map(|k| ((k * 7) % 251) as u8).collect();
        let mut s = frame(0x66, 0x44, &p);
        s.extend(frame(0x66, 0x45, &[0xb5]));
        let l = s.len() as u64 + 1;
        c.space(&format!("every split of a {n} byte payload"), l, |i, r| {
            let a = i as usize;
            let ch = [&s[..a], &s[a..]];
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
            report(res, r, || format!("split at {a}"));
            if n <= 256 || i % 16 == 0 {
                for q in 0..16u8 {
                    let tk = |k: usize| [None, Some(0), Some(1), Some(2)][(q >> (2 * k) & 3) as usize];
                    let res = run(&mut Parser::new(PlainBuf::default()), &mut Follow::new(&s), &ch, tk, r);
                    report(res, r, || format!("split at {a}, drops {q}"));
                }
            }
        });
        c.space(&format!("uniform pieces of a {n} byte payload"), c.pick(64, 512).min(l), |i, r| {
            let ch: Vec<&[u8]> = s.chunks(i as usize + 1).collect();
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
            report(res, r, || format!("pieces of {}", i + 1));
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |k| Some(k % 2), r);
            report(res, r, || format!("pieces of {}, alternating drops", i + 1));
        });
    }
    // every header byte value and every payload length against splits inside and around the
    // header, the payload's end and the checksum
    let near = |l: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..=9).chain(l.saturating_sub(4)..=l).filter(|k| *k <= l).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    let split_all = |s: &[u8], l: usize, r: &mut Rec| {
        let at = near(l);
        for (k, a) in at.iter().enumerate() {
            for b in &at[k..] {
                for (n, ch) in [vec![&s[..*a], &s[*a..*b], &s[*b..]], vec![&s[..*a], &s[*a..*b], &[], &s[*b..l], &s[l..]]].iter().enumerate() {
                    let tk = |k: usize| if n == 1 && k == 2 { Some(1) } else { None };
                    let res = run(&mut Parser::default(), &mut Follow::new(s), ch, tk, r);
                    if res.is_err() {
                        return report(res, r, || format!("cut at {a} and {b}"));
                    }
                    r.trace();
                }
            }
        }
    };
    c.space("every class and id, cut around the header", 512 * c.pick(16, 128), |i, r| {
        let (x, y) = ((i / 2 % 256) as u8, ((i / 512) as u8).wrapping_mul(c.pick(17, 2)));
        let (cl, id) = if i % 2 == 0 { (x, y) } else { (y, x) };
        let mut s = frame(cl, id, &[x, 0xb5, y]);
        let l = s.len();
        s.extend(frame(0x66, 0x45, &[0xb5]));
        split_all(&s, l, r);
    });
    c.space("every length, cut around the header", 8200, |i, r| {
        let n = i as usize;
        let p: Vec<u8> = (0..n).map(|k| ((k * 11) % 253) as u8).collect();
        let mut s = frame(0x66, 0x44, &p);
        let l = s.len();
        s.extend(frame(0x66, 0x45, &[0xb5]));
        if n <= 520 || n % 256 == 255 || n % 256 < 2 || c.thorough() {
            return split_all(&s, l, r);
        }
        for a in near(l) {
            let ch = [&s[..a], &s[a..]];
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
            report(res, r, || format!("split at {a}"));
        }
    });
    c.space("every announced length alone, byte by byte", 65536, |i, r| {
        // the announced frame never completes; an intact one follows right behind the header
        let mut s = vec![0xb5, 0x62, 0x66, 0x44, i as u8, (i >> 8) as u8];
        s.extend(frame(0x66, 0x45, &[0xb5]));
        let ones: Vec<&[u8]> = s.chunks(1).collect();
        let res = run(&mut Parser::default(), &mut Follow::new(&s), &ones, |_| None, r);
        report(res, r, || "byte by byte".into());
    });
    // offsets and counts beyond 8, 15 and 16 bits
    let mut ns = around(8, 14, 2);
    ns.extend(around(15, 17, c.pick(2, 9)));
    c.space("long streams", ns.len() as u64 * LONG_KINDS, |i, r| {
        let s = long_stream(i % LONG_KINDS, ns[(i / LONG_KINDS) as usize]);
        let l = s.len();
        for piece in [l, 65535, 65536, 65537, 32768, 1000, 257, 256, 255, 61] {
            let ch: Vec<&[u8]> = s.chunks(piece).collect();
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| None, r);
            report(res, r, || format!("{l} bytes in pieces of {piece}"));
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |k| if k % 3 == 0 { None } else { Some(k % 3) }, r);
            report(res, r, || format!("{l} bytes in pieces of {piece}, some iterators dropped"));
            let res = run(&mut Parser::default(), &mut Follow::new(&s), &ch, |_| Some(0), r);
            report(res, r, || format!("{l} bytes in pieces of {piece}, no outcome taken until the end"));
        }
        let mut f = Follow::new(&s);
        f.feed(l - 305);
        let res = run(&mut Parser::new(s[..l - 305].to_vec()), &mut f, &[&s[l - 305..]], |_| None, r);
        report(res, r, || format!("{} bytes were in the buffer", l - 305));
    });
    // one parser which lives through more than 2^16 calls, packets and errors
    let n = c.pick(33_000, 70_000);
    c.space_limit("long lives of one parser", LIFE_KINDS * LIFE_KINDS, 120, |i, r| {
        let (s, ends) = life(i, n);
        let same = i % LIFE_KINDS == i / LIFE_KINDS;
        let mut go = |ch: &[&[u8]], take: &dyn Fn(usize) -> Option<usize>, how: &str| {
            let res = run(&mut Parser::default(), &mut Follow::new(&s), ch, take, r);
            report(res, r, || format!("{n} times units {} and {}, {how}", i % LIFE_KINDS, i / LIFE_KINDS));
        };
        for shift in if same { vec![0, 1, 2, 3, 5, 7] } else { vec![0, 3] } {
            let ch = life_pieces(&s, &ends, shift);
            go(&ch, &|_| None, &format!("a piece per unit, {shift} bytes early"));
            if shift < 2 || same {
                // no more is left behind than is taken
                let m = if i % LIFE_KINDS < 9 && i / LIFE_KINDS < 9 { 1 } else { 2 };
                go(&ch, &|_| Some(m), &format!("{m} outcomes taken per unit, {shift} bytes early"));
                go(&ch, &|k| if k % 4 == 3 { None } else { Some(0) }, &format!("outcomes taken from every fourth piece, {shift} bytes early"));
            }
        }
        if same {
            let ones: Vec<&[u8]> = s.chunks(1).collect();
            go(&ones, &|_| None, "byte by byte");
            let mut idle: Vec<&[u8]> = vec![&s[..4]];
            idle.resize(2 * n, &[]);
            idle.push(&s[4..]);
            go(&idle, &|_| None, "many empty calls");
            go(&idle, &|k| Some(k % 2), "many empty calls, some outcomes taken");
        }
    });
    c.finish(
        "state: unread bytes of the stream between calls; transition: one next() call compared with the scan over all bytes received so far; trace: one stream under one chunking and one pattern of early drops, on the real parser",
        &["at most two cuts (all positions) for token streams, all compositions for byte strings"],
    )
}
