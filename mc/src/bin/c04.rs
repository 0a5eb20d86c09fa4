//! C04: after any damage every later intact frame is delivered, once and in order.
use mc::*;
use ublox::*;

struct Seen {
    frames: Vec<Vec<u8>>,
    other: usize,
}
fn collect<T: UnderlyingBuffer>(p: &mut Parser<T>, chunks: &[&[u8]], drop_early: bool) -> Seen {
    let mut v = Seen { frames: vec![], other: 0 };
    for (k, c) in chunks.iter().enumerate() {
        let mut it = p.consume(c);
        let mut n = 0;
        loop {
            if drop_early && k + 1 < chunks.len() && n >= k % 3 {
                break;
            }
            match it.next() {
                None => break,
                Some(Ok(p)) => {
                    let (c, i, b, _) = parts(&p);
                    v.frames.push(frame(c, i, b));
                },
                Some(Err(_)) => v.other += 1,
            }
            n += 1;
            if n > 1_000_000 {
                break;
            }
        }
    }
    v
}

/// `marks`: positions of the intact frames. Each has to be delivered exactly once and in order,
/// unless it overlaps a frame delivered before it.
fn check(s: &[u8], marks: &[(usize, usize)], v: &Seen) -> Result<(), String> {
    let mut from = 0;
    let mut spans: Vec<(usize, usize)> = vec![];
    for f in &v.frames {
        match (from..=s.len().saturating_sub(f.len())).find(|&k| s[k..].starts_with(f)) {
            Some(k) => {
                spans.push((k, k + f.len()));
                from = k + f.len();
            },
            None => return Err(format!("delivered [{}], which does not follow in the stream", hex(f))),
        }
    }
    // the spans come in order and do not overlap
    for &(a, b) in marks {
        let at = spans.partition_point(|x| x.0 < a);
        if spans.get(at) == Some(&(a, b)) || (at > 0 && spans[at - 1].1 > a) {
            continue;
        }
        let n = 0;
        return Err(format!("the intact frame at byte {a} was delivered {n} times (delivered spans {spans:?})"));
    }
    Ok(())
}

/// damage ++ F1 ++ damage2 ++ F2 ++ F3 ++ a frame's worth of zeros
fn stream(d1: &[u8], d2: &[u8]) -> (Vec<u8>, Vec<(usize, usize)>) {
    let mut s = d1.to_vec();
    let mut m = vec![];
    for (k, gap) in [(1u8, d2), (2, &[][..]), (3, &[][..])] {
        let f = frame(0x74, k, &[0x10 + k, 0x20 + k]);
        m.push((s.len(), s.len() + f.len()));
        s.extend_from_slice(&f);
        s.extend_from_slice(gap);
    }
    s.resize(s.len() + 8184, 0);
    (s, m)
}

fn all_ways(s: &[u8], marks: &[(usize, usize)], caps: &[usize], r: &mut Rec) {
    let body = s.len() - 8184;
    let mut go = |v: Seen, how: String| {
        r.eval(if v.other > 0 || v.frames.len() != marks.len() || how != "whole" { Some(hash64(&s[..body], hash64(how.as_bytes(), 0))) } else { None });
        if let Err(e) = check(s, marks, &v) {
            r.fail(format!("[{}] {how}: {e}", hex(&s[..body])));
        }
    };
    go(collect(&mut Parser::default(), &[s], false), "whole".into());
    let mut ones: Vec<&[u8]> = s[..body].chunks(1).collect();
    ones.push(&s[body..]);
    go(collect(&mut Parser::default(), &ones, false), "byte by byte".into());
    go(collect(&mut Parser::default(), &ones, true), "byte by byte, iterators dropped early".into());
    let mut fives: Vec<&[u8]> = s[..body].chunks(5).collect();
    fives.push(&s[body..]);
    go(collect(&mut Parser::default(), &fives, true), "pieces of five, iterators dropped early".into());
    for cap in caps {
        let mut mem = vec![0xb5u8; *cap];
        go(collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &[s], false), format!("whole, capacity {cap}"));
        go(collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &ones, false), format!("byte by byte, capacity {cap}"));
        go(collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &fives, false), format!("pieces of five, capacity {cap}"));
        let mut even: Vec<&[u8]> = s.chunks(7).collect();
        if s.len() > 9000 {
            even = s.chunks(64).collect();
        }
        go(collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &even, false), format!("equal pieces, capacity {cap}"));
    }
}

fn main() {
    let c = Ctx::new("C04", Level::FaultEnumeration);
    let caps = [10usize, 11, 12, 16, 20, 33, 64];
    let alpha = [0xb5u8, 0x62, 0x00, 0x01, 0x1f];
    for l in 0..=c.pick(5, 7) {
        c.space(&format!("every damage string of length {l}"), 5u64.pow(l as u32), |i, r| {
            let mut d = vec![];
            nth_string(&alpha, l, i, &mut d);
            let (s, m) = stream(&d, &[]);
            r.sample(|| hex(&s[..s.len() - 8184]));
            all_ways(&s, &m, if l <= 4 { &caps } else { &caps[..3] }, r);
        });
    }
    let toks = tokens();
    let nt = toks.len() as u64;
    c.space("token before, token between", nt * nt, |i, r| {
        let (s, m) = stream(&toks[(i % nt) as usize].1, &toks[(i / nt) as usize].1);
        all_ways(&s, &m, &caps, r);
    });
    c.space("two tokens before", nt * nt, |i, r| {
        let mut d = vec![];
        nth_tokens(&toks, 2, i, &mut d);
        let (s, m) = stream(&d, &[]);
        all_ways(&s, &m, &caps, r);
    });
    if c.thorough() {
        c.space("three tokens before", nt * nt * nt, |i, r| {
            let mut d = vec![];
            nth_tokens(&toks, 3, i, &mut d);
            let (s, m) = stream(&d, &[]);
            all_ways(&s, &m, &caps[..3], r);
        });
    }
    c.space("token before, token between, every two cuts", nt * nt, |i, r| {
        let (s, m) = stream(&toks[(i % nt) as usize].1, &toks[(i / nt) as usize].1);
        let body = s.len() - 8184;
        for a in 0..=body {
            for b in a..=body {
                let ch = [&s[..a], &s[a..b], &s[b..]];
                for q in 0..4 {
                    let mut mem = [0u8; 24];
                    let cap = [0, 10, 17, 24][q];
                    let v = if q == 0 {
                        collect(&mut Parser::default(), &ch, (a + b) % 2 == 1)
                    } else {
                        collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem[..cap])), &ch, false)
                    };
                    r.eval(Some(hash64(&s[..body], (a * 1000 + b) as u64)));
                    if let Err(e) = check(&s, &m, &v) {
                        return r.fail(format!("[{}] cut at {a} and {b}, capacity {cap}: {e}", hex(&s[..body])));
                    }
                }
            }
        }
    });
    // a false header announcing any length, before and right inside the gap
    c.space("a false header with every length", 65536, |i, r| {
        let h = [0xb5, 0x62, 0x01, 0x02, i as u8, (i >> 8) as u8];
        let (s, m) = stream(&h, &[]);
        let mut go = |v: Seen, how: &str| {
            r.eval(Some(hash64(&h, how.len() as u64)));
            if let Err(e) = check(&s, &m, &v) {
                r.fail(format!("length {i}, {how}: {e}"));
            }
        };
        go(collect(&mut Parser::default(), &[&s], false), "whole");
        let q: Vec<&[u8]> = s.chunks(1024).collect();
        go(collect(&mut Parser::default(), &q, false), "pieces of 1024");
        for cap in [10usize, 64, 300] {
            let mut mem = vec![0u8; cap];
            let cut = s.len() - 8184;
            let q = [&s[..8], &s[8..cut], &s[cut..]];
            go(collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &q, false), if cap == 10 { "capacity 10" } else { "larger capacity" });
        }
    });
    // a frame cut short at every point, and every single bit of it flipped, in front of intact ones
    let victim = frame(0x01, 0x61, &[0xb5, 0x62, 0x01, 0x02]);
    let l = victim.len() as u64;
    c.space("a frame cut at every point or with any bit flipped", l + l * 8 + l * l, |i, r| {
        let mut d = victim.clone();
        if i < l {
            d.truncate(i as usize);
        } else if i < l + l * 8 {
            let b = i - l;
            d[(b / 8) as usize] ^= 1 << (b % 8);
        } else {
            let q = i - l - l * 8;
            let (a, b) = ((q % l) as usize, (q / l) as usize);
            if a >= b {
                return;
            }
            d.drain(a..b);
        }
        let (s, m) = stream(&d, &d);
        all_ways(&s, &m, &caps, r);
    });
    // damage of every length of a repeated byte
    c.space("runs of one byte", 600 * 5, |i, r| {
        let d = vec![alpha[(i % 5) as usize]; (i / 5) as usize];
        let (s, m) = stream(&d, &[]);
        all_ways(&s, &m, &caps[..2], r);
    });
    // sync pairs repeated: chains of false headers nested in each other
    c.space("chains of false headers", 64 * 9, |i, r| {
        let h: [u8; 2] = [[0, 0], [1, 0], [8, 0], [0x10, 0], [0xff, 0], [0, 1], [0xf0, 0x1f], [0xf1, 0x1f], [0xb5, 0x62]][(i % 9) as usize];
        let mut d = vec![];
        for _ in 0..i / 9 {
            d.extend_from_slice(&[0xb5, 0x62, 0x33, 0x44, h[0], h[1]]);
        }
        let (s, m) = stream(&d, &d);
        all_ways(&s, &m, &caps, r);
    });
    // one parser which lives through more than 2^16 calls, packets and errors
    let n = c.pick(33_000, 70_000);
    c.space_limit("long lives of one parser", LIFE_KINDS * LIFE_KINDS, 120, |i, r| {
        let (a, b) = (i % LIFE_KINDS, i / LIFE_KINDS);
        let n = if a == b || !c.thorough() { n } else { 2 * n };
        let (mut s, mut ends) = life(i, n);
        // the intact frames among the units; a unit which ends in an open false header may hide the next one
        let (mut marks, mut from) = (vec![], 0);
        for (k, e) in ends.iter().enumerate() {
            let kind = if k >= 2 * n { 0 } else { [a, b][k % 2] };
            match kind {
                0 | 1 | 2 | 7 => marks.push((from, *e)),
                10 | 11 => marks.push((from + 6, *e)),
                _ => {},
            }
            from = *e;
        }
        s.resize(s.len() + 8184, 0);
        ends.push(s.len());
        for kind in 0..6 {
            let ch = life_pieces(&s, &ends, [0, 0, 1, 0, 3, 0][kind]);
            let whole = [&s[..]];
            let mut mem = vec![0u8; [0, 0, 0, 300, 1000, 300][kind]];
            let v = match kind {
                0 => collect(&mut Parser::default(), &whole, false),
                1 => collect(&mut Parser::default(), &ch, false),
                2 => collect(&mut Parser::default(), &ch, true),
                3 | 4 => collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &ch, false),
                _ => collect(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &whole, false),
            };
            r.eval(Some(hash64(&[kind as u8, i as u8], 7)));
            if let Err(e) = check(&s, &marks, &v) {
                return r.fail(format!("{n} times units {a} and {b} (life.rs), way {kind}: {}", e.chars().take(300).collect::<String>()));
            }
        }
    });
    // chains of false headers the last of which is cut short by the intact frame
    c.space("chains of false headers, cut short", 12 * 9 * 6, |i, r| {
        let h: [u8; 2] = [[0, 0], [1, 0], [8, 0], [0x10, 0], [0xff, 0], [0, 1], [0xf0, 0x1f], [0xf1, 0x1f], [0xb5, 0x62]][(i % 9) as usize];
        let h = [0xb5, 0x62, 0x33, 0x44, h[0], h[1]];
        let mut d = h.repeat((i / 54) as usize);
        d.extend_from_slice(&h[..(i / 9 % 6) as usize]);
        let (s, m) = stream(&d, &d);
        all_ways(&s, &m, &caps, r);
        // a stretch of zeros no longer than what a chain may hide, then the same again
        let mut e = d.clone();
        e.resize(d.len() + 300, 0);
        e.extend_from_slice(&d);
        let (s, m) = stream(&e, &d);
        all_ways(&s, &m, &caps, r);
    });
    c.finish(
        "a case is one damaged stream under one chunking, dropping pattern and buffer; three stamped intact frames follow or surround the damage, then 8184 zero bytes; non-trivial: damage produced an error, an extra or a missing packet, or the stream was split or met a fixed buffer",
        &["damage strings up to the stated lengths over five byte values"],
    )
}
