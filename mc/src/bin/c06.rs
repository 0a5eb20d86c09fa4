//! C06: the provided buffers are faithful byte queues inside their memory.
use mc::*;
use ublox::*;

const CANARY: u8 = 0xa5;
const PAD: usize = 16;

#[derive(Clone, Copy, Debug)]
enum Op {
    Ext(usize),
    Drain(usize),
    Clear,
}

struct Mem {
    raw: Vec<u8>,
    cap: usize,
}
impl Mem {
    fn new(cap: usize) -> Self {
        let mut raw = vec![CANARY; cap + 2 * PAD];
        for b in &mut raw[PAD..PAD + cap] {
            *b = 0xee;
        }
        Self { raw, cap }
    }
    fn slice(&mut self) -> &mut [u8] {
        let c = self.cap;
        &mut self.raw[PAD..PAD + c]
    }
    fn intact(&self) -> bool {
        self.raw[..PAD].iter().chain(&self.raw[PAD + self.cap..]).all(|b| *b == CANARY)
    }
}

/// All observations of one buffer against the queue it should be.
fn observe<B: UnderlyingBuffer>(b: &B, q: &[u8], cap: usize) -> Result<(), String> {
    if b.len() != q.len() {
        return Err(format!("len is {}, {} stored", b.len(), q.len()));
    }
    if b.is_empty() != q.is_empty() {
        return Err(format!("is_empty is {} with {} stored", b.is_empty(), q.len()));
    }
    if b.max_capacity() != cap {
        return Err(format!("max_capacity is {}, not {cap}", b.max_capacity()));
    }
    for i in 0..q.len() {
        if b[i] != q[i] {
            return Err(format!("byte {i} is {:#x}, not {:#x}", b[i], q[i]));
        }
    }
    for x in 0..=q.len() {
        for y in x..=q.len() {
            if b[x..y] != q[x..y] {
                return Err(format!("range {x}..{y} is {:x?}, not {:x?}", &b[x..y], &q[x..y]));
            }
        }
    }
    for v in [1u8, 2, 3, 7, 0xb5, 0xee, CANARY] {
        let want = q.iter().position(|x| *x == v);
        if b.find(v) != want {
            return Err(format!("find({v:#x}) is {:?}, not {want:?}", b.find(v)));
        }
    }
    for (x, y) in [(0, q.len() + 1), (q.len(), q.len() + 1), (0, cap.min(1000) + 1)] {
        if y > q.len() && x <= y && no_panic(|| b[x..y].len()).is_ok() {
            return Err(format!("range {x}..{y} beyond the {} stored bytes is answered", q.len()));
        }
    }
    Ok(())
}

/// The same without going through every pair of ends.
fn glance<B: UnderlyingBuffer>(b: &B, q: &[u8], cap: usize) -> Result<(), String> {
    let l = q.len();
    if b.len() != l || b.is_empty() != q.is_empty() || b.max_capacity() != cap {
        return Err(format!("len {} empty {} capacity {} with {l} stored of {cap}", b.len(), b.is_empty(), b.max_capacity()));
    }
    if b[0..l] != *q {
        let at = (0..l).find(|k| b[*k] != q[*k]);
        return Err(format!("byte {at:?} of {l} differs"));
    }
    for x in [0, 1, l / 2, 255, 256, l.saturating_sub(1), l] {
        for y in [0, 1, l / 2, 255, 256, 257, l.saturating_sub(1), l] {
            if x <= y && y <= l && b[x..y] != q[x..y] {
                return Err(format!("range {x}..{y} of {l} differs"));
            }
        }
        if x < l && b[x] != q[x] {
            return Err(format!("byte {x} of {l} differs"));
        }
    }
    for v in [0xb5u8, 0xee, CANARY, 0x24] {
        let want = q.iter().position(|x| *x == v);
        if b.find(v) != want {
            return Err(format!("find({v:#x}) is {:?}, not {want:?}", b.find(v)));
        }
    }
    if cap < usize::MAX && no_panic(|| b[0..l + 1].len()).is_ok() {
        return Err(format!("range 0..{} beyond the {l} stored bytes is answered", l + 1));
    }
    Ok(())
}

fn apply<B: UnderlyingBuffer>(b: &mut B, q: &mut Vec<u8>, cap: usize, op: Op, stamp: &mut u8, overdrain_ok: bool) -> Result<(), String> {
    match op {
        Op::Ext(n) => {
            let data: Vec<u8> = (0..n)
                .map(|_| {
                    *stamp = stamp.wrapping_add(1);
                    if *stamp % 5 == 0 {
                        0xb5
                    } else {
                        *stamp
                    }
                })
                .collect();
            let fit = n.min(cap.saturating_sub(q.len()));
            let left = b.extend_from_slice(&data);
            q.extend_from_slice(&data[..fit]);
            if left != n - fit {
                return Err(format!("appending {n} returned {left}, not {}", n - fit));
            }
        },
        Op::Drain(n) => {
            if n > q.len() && !overdrain_ok {
                return Ok(());
            }
            b.drain(n);
            q.drain(..n.min(q.len()));
        },
        Op::Clear => {
            b.clear();
            q.clear();
        },
    }
    Ok(())
}

fn ops(max_ext: usize, max_drain: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..=max_ext).map(Op::Ext).collect();
    v.extend((0..=max_drain).map(Op::Drain));
    v.push(Op::Clear);
    v
}

fn seq(ops: &[Op], depth: usize, mut i: u64) -> Vec<Op> {
    (0..depth)
        .map(|_| {
            let o = ops[(i % ops.len() as u64) as usize];
            i /= ops.len() as u64;
            o
        })
        .collect()
}

fn flb(sq: &[Op], cap: usize, over: bool, r: &mut Rec) {
    let mut mem = Mem::new(cap);
    let res = {
        let mut b = FixedLinearBuffer::new(mem.slice());
        let mut q = vec![];
        let mut st = 0u8;
        let mut res = observe(&b, &q, cap);
        for (k, op) in sq.iter().enumerate() {
            r.step();
            res = res.and_then(|_| apply(&mut b, &mut q, cap, *op, &mut st, over));
            if k + 1 == sq.len() {
                res = res.and_then(|_| observe(&b, &q, cap));
            }
            r.state(hash64(&q, cap as u64));
        }
        res
    };
    r.trace();
    if let Err(e) = res {
        r.fail(format!("FixedLinearBuffer of {cap}, {sq:?}: {e}"));
    } else if !mem.intact() {
        r.fail(format!("FixedLinearBuffer of {cap}, {sq:?}: memory outside the slice was written"));
    }
}

fn main() {
    let c = Ctx::new("C06", Level::ModelChecking);
    // every prefix of a sequence is itself a case of a smaller depth, so only the last state of a
    // sequence is observed in full
    for cap in 0..=c.pick(5usize, 6) {
        let o = ops(cap + 2, cap + 2);
        for d in 1..=c.pick(if cap <= 3 { 5 } else { 4 }, if cap <= 3 { 6 } else { 5 }) {
            c.space(&format!("FixedLinearBuffer of {cap}, all sequences of {d} operations"), (o.len() as u64).pow(d as u32), |i, r| {
                let s = seq(&o, d, i);
                r.sample(|| format!("{s:?}"));
                flb(&s, cap, true, r);
            });
        }
    }
    for cap in [8usize, 16, 31, 64, 100] {
        let mut o = vec![Op::Clear];
        for k in [0, 1, 2, cap / 2, cap - 1, cap, cap + 1, 2 * cap] {
            o.push(Op::Ext(k));
            o.push(Op::Drain(k));
        }
        for d in 1..=c.pick(3, 5) {
            c.space(&format!("FixedLinearBuffer of {cap}, boundary sizes, {d} operations"), (o.len() as u64).pow(d as u32), |i, r| {
                flb(&seq(&o, d, i), cap, true, r);
            });
        }
    }
    // append a, drain b, append c for all sizes
    c.space("FixedLinearBuffer, append a, drain b, append c, drain d", 20 * 20 * 20 * 20, |i, r| {
        let (a, b, e, f) = ((i % 20) as usize, (i / 20 % 20) as usize, (i / 400 % 20) as usize, (i / 8000) as usize);
        flb(&[Op::Ext(a), Op::Drain(b), Op::Ext(e), Op::Drain(f)], 13, true, r);
    });
    let o = ops(5, 5);
    for d in 1..=c.pick(5, 6) {
        c.space(&format!("Vec<u8>, all sequences of {d} operations"), (o.len() as u64).pow(d as u32), |i, r| {
            let sq = seq(&o, d, i);
            let (mut b, mut q, mut st) = (Vec::<u8>::new(), vec![], 0u8);
            let mut res = Ok(());
            for op in &sq {
                r.step();
                res = res.and_then(|_| apply::<Vec<u8>>(&mut b, &mut q, usize::MAX, *op, &mut st, false));
                r.state(hash64(&q, 9999));
            }
            r.trace();
            if let Err(e) = res.and_then(|_| observe_dyn(&b, &q)) {
                r.fail(format!("Vec, {sq:?}: {e}"));
            }
            // the default methods of the trait
            let (mut b, mut q, mut st) = (PlainBuf::default(), vec![], 0u8);
            let mut res = Ok(());
            for op in &sq {
                res = res.and_then(|_| apply(&mut b, &mut q, usize::MAX, *op, &mut st, false));
            }
            if let Err(e) = res.and_then(|_| observe(&b, &q, usize::MAX)) {
                r.fail(format!("trait default methods, {sq:?}: {e}"));
            }
        });
    }
    // find among all contents
    c.space("find in every content of up to eight bytes", 3u64.pow(9) * 9, |i, r| {
        let l = (i % 9) as usize;
        let mut s = vec![];
        nth_string(&[0xb5, 0x62, 0x00], 9, i / 9, &mut s);
        s.truncate(l);
        let mut mem = Mem::new(9);
        let mut b = FixedLinearBuffer::new(mem.slice());
        b.extend_from_slice(&[0xb5, 0x62]);
        b.drain(2);
        b.extend_from_slice(&s);
        r.step();
        r.trace();
        r.state(hash64(&s, 77));
        if let Err(e) = observe(&b, &s, 9) {
            r.fail(format!("after [{}]: {e}", hex(&s)));
        }
        if let Err(e) = observe_dyn(&s, &s) {
            r.fail(format!("Vec [{}]: {e}", hex(&s)));
        }
    });
    // the buffers under the parser: every capacity, canaries around the memory, streams in pieces
    let toks = tokens();
    let nt = toks.len() as u64;
    c.space("parsing with a fixed buffer stays inside its memory", nt * nt * 3, |i, r| {
        let mut s = vec![];
        nth_tokens(&toks, 2, i / 3, &mut s);
        s.extend(frame(5, 1, &[6, 1]));
        for cap in 6..=26usize {
            for piece in [1usize, 3, 7, 100] {
                let mut mem = Mem::new(cap);
                {
                    let mut p = Parser::new(FixedLinearBuffer::new(mem.slice()));
                    for (k, ch) in s.chunks(piece).enumerate() {
                        let mut it = p.consume(ch);
                        let mut n = 0;
                        while (i % 3 != 1 || n < k % 3) && (i % 3 != 2 || n < 1) {
                            if it.next().is_none() || n > 1000 {
                                break;
                            }
                            n += 1;
                        }
                    }
                    if p.buffer_len() > cap {
                        r.fail(format!("{} bytes buffered in {cap}", p.buffer_len()));
                    }
                }
                r.step();
                if !mem.intact() {
                    return r.fail(format!("capacity {cap}, pieces of {piece} of [{}]: memory outside the slice was written", hex(&s)));
                }
            }
        }
        r.trace();
    });
    // sizes beyond 8, 15 and 16 bits
    let caps: Vec<usize> = vec![127, 128, 129, 255, 256, 257, 1000, 8183, 8184, 32767, 32768, 65535, 65536, 65537, 70000];
    let nops = 9u64;
    for d in 1..=c.pick(4u32, 5) {
        c.space(&format!("large buffers, boundary sizes, {d} operations"), caps.len() as u64 * 2 * nops.pow(d), |i, r| {
            let cap = caps[(i / 2 % caps.len() as u64) as usize];
            let fixed = i % 2 == 0;
            let mut j = i / 2 / caps.len() as u64;
            let sq: Vec<Op> = (0..d)
                .map(|_| {
                    let o = [Op::Ext(1), Op::Ext(cap / 2), Op::Ext(cap - 1), Op::Ext(cap), Op::Drain(1), Op::Drain(cap / 2 - 1), Op::Drain(255), Op::Drain(cap - 1), Op::Clear][(j % nops) as usize];
                    j /= nops;
                    o
                })
                .collect();
            let mut mem = Mem::new(cap);
            let (mut q, mut st) = (vec![], 0u8);
            let res = if fixed {
                let mut b = FixedLinearBuffer::new(mem.slice());
                let mut res = Ok(());
                for op in &sq {
                    res = res.and_then(|_| apply(&mut b, &mut q, cap, *op, &mut st, false)).and_then(|_| glance(&b, &q, cap));
                }
                res
            } else {
                let mut b = Vec::<u8>::new();
                let mut res = Ok(());
                for op in &sq {
                    res = res.and_then(|_| apply::<Vec<u8>>(&mut b, &mut q, usize::MAX, *op, &mut st, false)).and_then(|_| glance(&b, &q, usize::MAX));
                }
                res
            };
            for _ in &sq {
                r.step();
            }
            r.trace();
            r.state(hash64(&(q.len() as u64).to_le_bytes(), cap as u64));
            if let Err(e) = res {
                r.fail(format!("{} of {cap}, {sq:?}: {e}", if fixed { "FixedLinearBuffer" } else { "Vec" }));
            } else if !mem.intact() {
                r.fail(format!("FixedLinearBuffer of {cap}, {sq:?}: memory outside the slice was written"));
            }
        });
    }
    // find: one searched byte anywhere in a long queue, behind a drained prefix
    c.space("find at every place", 700, |i, r| {
        let n = 700usize;
        let at = i as usize;
        let mut q = vec![0x24u8; n];
        q[at] = 0xb5;
        q[n - 1] = 0xb5;
        for skip in [0usize, 1, 5, 300] {
            let mut mem = Mem::new(n + 300);
            let mut b = FixedLinearBuffer::new(mem.slice());
            b.extend_from_slice(&vec![0xb5; skip]);
            b.extend_from_slice(&q);
            b.drain(skip);
            r.step();
            if let Err(e) = glance(&b, &q, n + 300) {
                return r.fail(format!("searched byte at {at} behind {skip} drained ones: {e}"));
            }
            let mut b = vec![0xb5u8; skip];
            UnderlyingBuffer::extend_from_slice(&mut b, &q);
            UnderlyingBuffer::drain(&mut b, skip);
            if let Err(e) = glance::<Vec<u8>>(&b, &q, usize::MAX) {
                return r.fail(format!("Vec, searched byte at {at} behind {skip} drained ones: {e}"));
            }
        }
        r.trace();
        r.state(hash64(&q, 3));
    });
    // find at distances around every power of two
    let far = around(4, c.pick(17, 20), 9);
    c.space("find far away", far.len() as u64, |i, r| {
        let at = far[i as usize];
        for extra in [0usize, 1, 77] {
            let mut q = vec![0x24u8; at];
            q.push(0xb5);
            q.resize(at + 1 + extra, 0x25);
            let mut mem = Mem::new(at + 100);
            let mut b = FixedLinearBuffer::new(mem.slice());
            b.extend_from_slice(&q);
            let mut v: Vec<u8> = vec![];
            UnderlyingBuffer::extend_from_slice(&mut v, &q);
            for (name, got) in [
                ("FixedLinearBuffer", [b.find(0xb5), b.find(0x24), b.find(0x25), b.find(7)]),
                ("Vec", [UnderlyingBuffer::find(&v, 0xb5), UnderlyingBuffer::find(&v, 0x24), UnderlyingBuffer::find(&v, 0x25), UnderlyingBuffer::find(&v, 7)]),
            ] {
                r.step();
                let want = [Some(at), if at > 0 { Some(0) } else { None }, if extra > 0 { Some(at + 1) } else { None }, None];
                if got != want {
                    return r.fail(format!("{name} of {} bytes: find of four values gives {got:?}, expected {want:?}", q.len()));
                }
            }
        }
        r.trace();
        r.state(hash64(&(at as u64).to_le_bytes(), 9));
    });
    // one buffer which lives through more than 2^16 operations of each kind
    let rounds = c.pick(66_000u64, 200_000);
    c.space("long lives of one buffer", 4 * 9 * 9, |i, r| {
        let cap = [5usize, 8, 64, 1000][(i % 4) as usize];
        let sizes = [0, 1, 2, 3, 4, 7, cap - 1, cap, cap + 1];
        let (a, b) = (sizes[(i / 4 % 9) as usize], sizes[(i / 36) as usize]);
        let rounds = if cap == 1000 && !c.thorough() { rounds / 8 } else { rounds };
        let mut mem = Mem::new(cap);
        let (mut q, mut st) = (vec![], 0u8);
        let (mut vq, mut vst) = (vec![], 0u8);
        let mut res = Ok(());
        {
            let mut f = FixedLinearBuffer::new(mem.slice());
            let mut v = Vec::<u8>::new();
            for k in 0..rounds {
                // every 255 rounds the drain is left out, every 1021 rounds all goes
                let op = if k % 1021 == 1020 { Op::Clear } else { Op::Drain(if k % 255 == 254 { 0 } else { b }) };
                r.step();
                res = res
                    .and_then(|_| apply(&mut f, &mut q, cap, Op::Ext(a), &mut st, true))
                    .and_then(|_| apply(&mut f, &mut q, cap, op, &mut st, true))
                    .and_then(|_| apply::<Vec<u8>>(&mut v, &mut vq, usize::MAX, Op::Ext(a), &mut vst, false))
                    .and_then(|_| {
                        let op = if let Op::Drain(n) = op { Op::Drain(n.min(vq.len())) } else { op };
                        apply::<Vec<u8>>(&mut v, &mut vq, usize::MAX, op, &mut vst, false)
                    });
                if f[0..f.len()] != q[..] || UnderlyingBuffer::len(&v) != vq.len() || f.find(0xb5) != q.iter().position(|x| *x == 0xb5) {
                    res = res.and(Err("length, contents or find differ".into()));
                }
                if vq.len() > 3000 {
                    let n = vq.len() - 1;
                    res = res.and_then(|_| apply::<Vec<u8>>(&mut v, &mut vq, usize::MAX, Op::Drain(n), &mut vst, false));
                }
                if k % 997 == 0 || k + 1 == rounds {
                    res = res.and_then(|_| glance(&f, &q, cap)).and_then(|_| glance::<Vec<u8>>(&v, &vq, usize::MAX));
                }
                if let Err(e) = res {
                    return r.fail(format!("buffers of {cap} and Vec, append {a} and drain {b} in turn, round {k}: {e}"));
                }
                if k < 2000 {
                    r.state(hash64(&q, cap as u64));
                }
            }
        }
        r.trace();
        if !mem.intact() {
            r.fail(format!("FixedLinearBuffer of {cap}, append {a} and drain {b} in turn: memory outside the slice was written"));
        }
    });
    c.finish(
        "state: queue contents at a capacity; transition: one buffer operation executed on the implementation; trace: one operation sequence, after which length, emptiness, capacity, every byte, every sub-range, find and the refusal of ranges beyond the end are compared with the queue and the canaries around the memory are checked",
        &["draining more bytes than stored is only exercised on the fixed buffer, where it is documented to empty it"],
    )
}

/// Vec<u8> has inherent methods of the same names: go through the trait.
fn observe_dyn(b: &Vec<u8>, q: &[u8]) -> Result<(), String> {
    observe::<Vec<u8>>(b, q, usize::MAX)
}
