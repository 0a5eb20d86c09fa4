//! C07: parsing terminates and what is buffered stays bounded.
use mc::*;
use ublox::*;

/// Runs a stream in pieces and checks the bounds after each; returns the number of outcomes.
fn run<T: UnderlyingBuffer>(p: &mut Parser<T>, s: &[u8], piece: usize, cap: usize, r: &mut Rec) -> Result<(), String> {
    run_pieces(p, s.chunks(piece), cap, r)
}

fn run_pieces<'s, T: UnderlyingBuffer>(p: &mut Parser<T>, pieces: impl Iterator<Item = &'s [u8]>, cap: usize, r: &mut Rec) -> Result<(), String> {
    let mut outs = 0usize;
    let mut fed = 0usize;
    let mut worst = 0;
    for ch in pieces {
        fed += ch.len();
        {
            let mut it = p.consume(ch);
            while it.next().is_some() {
                r.step();
                outs += 1;
                if outs * 2 > fed {
                    return Err(format!("{outs} outcomes from {fed} bytes"));
                }
            }
            for _ in 0..3 {
                if let g @ Some(_) = it.next() {
                    return Err(format!("after nothing comes {}", show(&g)));
                }
            }
        }
        let l = p.buffer_len();
        worst = worst.max(l);
        if l > cap {
            return Err(format!("{l} bytes buffered after {fed}"));
        }
        if p.is_buffer_empty() != (l == 0) {
            return Err(format!("is_buffer_empty {} at {l}", p.is_buffer_empty()));
        }
    }
    r.state(hash64(&[worst as u8, (worst >> 8) as u8, outs as u8, (outs >> 8) as u8], 1));
    r.trace();
    Ok(())
}

fn both(s: &[u8], pieces: &[usize], caps: &[usize], what: impl Fn() -> String, r: &mut Rec) {
    for &p in pieces {
        if let Err(e) = run(&mut Parser::default(), s, p, 8183, r) {
            r.fail(format!("{}, pieces of {p}, growable buffer: {e}", what()));
        }
        for &cap in caps {
            let mut mem = vec![0u8; cap];
            if let Err(e) = run(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), s, p, cap, r) {
                r.fail(format!("{}, pieces of {p}, capacity {cap}: {e}", what()));
            }
        }
    }
}

fn periodic(head: &[u8], period: &[u8], len: usize) -> Vec<u8> {
    let mut s = head.to_vec();
    while s.len() < len {
        s.extend_from_slice(period);
    }
    s.truncate(len);
    s
}

fn main() {
    let c = Ctx::new("C07", Level::ModelChecking);
    let alpha = [0xb5u8, 0x62, 0x00, 0x1f, 0xf0, 0xff];
    for l in 1..=c.pick(4, 5) {
        c.space_limit(&format!("periodic streams, period {l}"), 6u64.pow(l as u32), 120, |i, r| {
            let mut per = vec![];
            nth_string(&alpha, l, i, &mut per);
            let s = periodic(&[], &per, 20_000);
            both(&s, &[20_000, 997], &[6, 64], || format!("period [{}]", hex(&per)), r);
        });
        c.space_limit(&format!("an open 8176 byte frame, then period {l}"), 6u64.pow(l as u32), 120, |i, r| {
            let mut per = vec![];
            nth_string(&alpha, l, i, &mut per);
            let s = periodic(&[0xb5, 0x62, 1, 2, 0xf0, 0x1f], &per, 17_000);
            both(&s, &[17_000, 411], &[16, 8184], || format!("open frame, period [{}]", hex(&per)), r);
        });
    }
    for l in 1..=c.pick(3, 4) {
        c.space_limit(&format!("periodic streams byte by byte, period {l}"), 6u64.pow(l as u32), 120, |i, r| {
            let mut per = vec![];
            nth_string(&alpha, l, i, &mut per);
            let s = periodic(&[], &per, 9_000);
            both(&s, &[1, 2, 3], &[6, 7, 8, 9, 16, 300], || format!("period [{}]", hex(&per)), r);
        });
    }
    // headers of every announced length, repeated back to back
    c.space_limit("every length repeated", 65536, 120, |i, r| {
        let h = [0xb5, 0x62, 0x01, 0x02, i as u8, (i >> 8) as u8];
        let s = periodic(&[], &h, if i % 16 == 0 { 18_000 } else { 8_400 });
        both(&s, &[5_000], &[12], || format!("headers of length {i}"), r);
    });
    let toks = tokens();
    let nt = toks.len() as u64;
    c.space_limit("token pairs repeated", nt * nt, 120, |i, r| {
        let mut per = vec![];
        nth_tokens(&toks, 2, i, &mut per);
        let s = periodic(&[], &per, 18_000);
        both(&s, &[18_000, 1000, 13, 1], &[6, 7, 10, 33], || format!("tokens [{}]", hex(&per)), r);
    });
    // short streams, every one, all buffers: termination and bounds at every step
    for l in 1..=c.pick(8, 10) {
        c.space(&format!("every string of length {l} over b5 62 00 01"), 4u64.pow(l as u32), |i, r| {
            let mut s = vec![];
            nth_string(&[0xb5, 0x62, 0, 1], l, i, &mut s);
            both(&s, &[1, 2, 3, 5, l], &[4, 5, 6, 8, 10], || hex(&s), r);
        });
    }
    // empty consumes, any number of times, never yield anything new
    c.space("repeated empty input", nt, |i, r| {
        let t = &toks[i as usize].1;
        let mut p = Parser::default();
        let mut n = 0;
        {
            let mut it = p.consume(t);
            while it.next().is_some() && n < 100 {
                n += 1;
            }
        }
        let l = p.buffer_len();
        for _ in 0..50 {
            r.step();
            let mut it = p.consume(&[]);
            if let g @ Some(_) = it.next() {
                r.fail(format!("empty input yields {}", show(&g)));
            }
            drop(it);
            if p.buffer_len() != l {
                r.fail(format!("buffered {l}, after empty input {}", p.buffer_len()));
            }
        }
        r.trace();
    });
    // one parser which lives through more than 2^16 calls, packets and errors
    let n = c.pick(33_000, 140_000);
    c.space_limit("long lives of one parser", LIFE_KINDS * LIFE_KINDS, 120, |i, r| {
        let (a, b) = (i % LIFE_KINDS, i / LIFE_KINDS);
        let n = if a == b || !c.thorough() { n } else { 2 * n };
        let (s, ends) = life(i, n);
        for shift in [0, 1, 4] {
            let ch = life_pieces(&s, &ends, shift);
            for cap in [0, 10, 64, 1000] {
                let mut mem = vec![0u8; cap];
                let got = if cap == 0 {
                    run_pieces(&mut Parser::default(), ch.iter().copied(), 8183, r)
                } else {
                    run_pieces(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), ch.iter().copied(), cap, r)
                };
                if let Err(e) = got {
                    return r.fail(format!("{n} times units {a} and {b} (life.rs), a piece per unit, {shift} bytes early, capacity {cap} (0: growable): {e}"));
                }
            }
        }
        both(&s, &[s.len(), 1000], &[64], || format!("{n} times units {a} and {b} (life.rs)"), r);
    });
    if c.thorough() {
        // more than 2^32 bytes, packets, errors and calls: for what is counted in 32 bits
        c.space_limit("very long lives of one parser", 4, 3000, |i, r| {
            let unit = [frame(0x77, 1, &[]), life_unit(9), vec![0xb5], life_unit(1)][i as usize].clone();
            let s = unit.repeat(if i == 0 { 4096 } else { 1 << 16 });
            let rounds = (1u64 << 32) / if i == 2 || i == 3 { s.len() as u64 } else { s.len() as u64 / unit.len() as u64 } + 2;
            let mut p = Parser::default();
            let mut first = 0;
            for k in 0..rounds {
                let mut outs = 0u64;
                let mut it = p.consume(&s);
                while it.next().is_some() {
                    outs += 1;
                }
                drop(it);
                if k == 1 {
                    first = outs;
                }
                r.step();
                if p.buffer_len() > 8183 || (k > 0 && outs != first) {
                    return r.fail(format!("round {k} of [{}] repeated: {outs} outcomes after {first}, {} bytes buffered", hex(&unit), p.buffer_len()));
                }
            }
            r.trace();
        });
    }
    c.finish(
        "transition: one outcome of the real parser; state: (peak buffered bytes, number of outcomes) reached; trace: one whole stream in pieces, with the outcome count, the end-of-input answer and the buffered length checked at every step and a watchdog on every call",
        &["adversarial histories are periodic streams of up to 20000 bytes with all periods up to the stated length over six byte values, and the long lives named"],
    )
}
