//! C27: iterators over repeated parts can be copied, resumed and mixed like any list's.
use mc::*;
use std::fmt::Debug;
use ublox::cfg_val::CfgVal;
use ublox::*;

/// Two iterators over the same part, and where a list's would be.
struct Two<I> {
    it: [I; 2],
    at: [usize; 2],
}

/// Which block an item is, from 0.
trait Tag {
    fn tag(self) -> usize;
}
impl Tag for NavSatSvInfoRef<'_> {
    fn tag(self) -> usize {
        self.sv_id() as usize
    }
}
impl Tag for RxmRawxInfoRef<'_> {
    fn tag(self) -> usize {
        self.sv_id() as usize
    }
}
impl Tag for u32 {
    fn tag(self) -> usize {
        self as usize
    }
}
impl Tag for &str {
    fn tag(self) -> usize {
        self.len()
    }
}
impl Tag for EsfMeasData {
    fn tag(self) -> usize {
        self.data_field as usize
    }
}
impl Tag for EsfRawData {
    fn tag(self) -> usize {
        self.data_field as usize
    }
}
impl Tag for CfgVal {
    fn tag(self) -> usize {
        match self {
            CfgVal::RateMeas(x) => x as usize,
            CfgVal::Uart1Enabled(x) => x as usize,
            CfgVal::Uart1Baudrate(x) => x as usize,
            CfgVal::MsgoutUbxNavPvtUart1(x) => x as usize,
            x => panic!("unexpected item {x:?}"),
        }
    }
}

const OPS: [&str; 14] = ["next", "next of the copy", "nth(1)", "nth(3) of the copy", "copy", "copy back", "start again", "by_ref().take(2)", "by_ref().take(2) of the copy", "by_ref().skip(1).next()", "find", "position", "by_ref().count()", "by_ref().last() of the copy"];

/// All the ways of looking at an iterator through copies of it.
fn look<I: Iterator<Item: Tag> + Clone + Debug>(it: &I, at: usize, n: usize) -> Result<(), String> {
    let want: Vec<usize> = (at..n).collect();
    let left = want.len();
    let (lo, hi) = it.size_hint();
    if lo > left || hi.is_some_and(|h| h < left) {
        return Err(format!("the size hint is ({lo}, {hi:?}) with {left} left"));
    }
    let same = |what: &str, got: Vec<usize>, want: Vec<usize>| if got == want { Ok(()) } else { Err(format!("{what} yields blocks {got:?}, expected {want:?}")) };
    same("collect", it.clone().map(Tag::tag).collect(), want.clone())?;
    let mut v = vec![];
    for x in it.clone() {
        v.push(x.tag());
    }
    same("a loop", v, want.clone())?;
    let mut v = vec![];
    it.clone().for_each(|x| v.push(x.tag()));
    same("for_each", v, want.clone())?;
    same("fold", it.clone().fold(vec![], |mut v, x| { v.push(x.tag()); v }), want.clone())?;
    if it.clone().count() != left {
        return Err(format!("count is {}, expected {left}", it.clone().count()));
    }
    same("last", it.clone().last().map(Tag::tag).into_iter().collect(), want.last().copied().into_iter().collect())?;
    for k in 0..left + 2 {
        let mut c = it.clone();
        same(&format!("nth({k})"), c.nth(k).map(Tag::tag).into_iter().collect(), want.get(k).copied().into_iter().collect())?;
        same(&format!("what follows nth({k})"), c.map(Tag::tag).collect(), want.iter().skip(k + 1).copied().collect())?;
        same(&format!("skip({k})"), it.clone().skip(k).map(Tag::tag).collect(), want.iter().skip(k).copied().collect())?;
    }
    for k in 1..4 {
        same(&format!("step_by({k})"), it.clone().step_by(k).map(Tag::tag).collect(), want.iter().step_by(k).copied().collect())?;
        same(&format!("take({k})"), it.clone().take(k).map(Tag::tag).collect(), want.iter().take(k).copied().collect())?;
    }
    same("zip with a copy", it.clone().zip(it.clone().skip(1)).map(|(a, b)| a.tag() * 100 + b.tag()).collect(), want.windows(2).map(|w| w[0] * 100 + w[1]).collect())?;
    same("chain", it.clone().chain(it.clone()).map(Tag::tag).collect(), [&want[..], &want[..]].concat())?;
    same("peekable", { let mut p = it.clone().peekable(); p.peek(); p.map(Tag::tag).collect() }, want.clone())?;
    // stays finished
    let mut c = it.clone();
    while c.next().is_some() {}
    for _ in 0..3 {
        let (lo, hi) = c.size_hint();
        if lo > 0 || c.next().is_some() || c.nth(0).is_some() || hi.is_some_and(|h| h > (1 << 40)) || c.clone().count() > 0 {
            return Err("a finished iterator goes on".into());
        }
    }
    // printing it changes nothing
    let a = format!("{it:?}");
    if a != format!("{:?}", it.clone()) {
        return Err(format!("prints as {a}, and its copy as {:?}", it.clone()));
    }
    Ok(())
}

fn step<I: Iterator<Item: Tag> + Clone + Debug>(t: &mut Two<I>, op: usize, n: usize, fresh: &dyn Fn() -> I) -> Result<(), String> {
    let w = [0, 1, 0, 1, 0, 1, 0, 0, 1, 0, 0, 1, 0, 1][op];
    let at = t.at[w];
    let it = &mut t.it[w];
    let (got, want, now): (Vec<usize>, Vec<usize>, usize) = match op {
        0 | 1 => (it.next().map(Tag::tag).into_iter().collect(), (at..n).take(1).collect(), at + 1),
        2 => (it.nth(1).map(Tag::tag).into_iter().collect(), (at..n).skip(1).take(1).collect(), at + 2),
        3 => (it.nth(3).map(Tag::tag).into_iter().collect(), (at..n).skip(3).take(1).collect(), at + 4),
        4 => {
            t.it[1] = t.it[0].clone();
            t.at[1] = t.at[0];
            return Ok(());
        },
        5 => {
            t.it[0] = t.it[1].clone();
            t.at[0] = t.at[1];
            return Ok(());
        },
        6 => {
            t.it[0] = fresh();
            t.at[0] = 0;
            return Ok(());
        },
        7 | 8 => (it.by_ref().take(2).map(Tag::tag).collect(), (at..n).take(2).collect(), at + 2),
        9 => (it.by_ref().skip(1).next().map(Tag::tag).into_iter().collect(), (at..n).skip(1).take(1).collect(), at + 2),
        10 => {
            // the first at or behind block 2
            let g = it.by_ref().map(Tag::tag).find(|x| *x >= 2);
            (g.into_iter().collect(), (at.max(2)..n).take(1).collect(), at.max(2) + 1)
        },
        11 => {
            let g = it.by_ref().map(Tag::tag).position(|x| x % 2 == 1);
            let first = (at..n).find(|x| x % 2 == 1);
            (g.into_iter().collect(), first.map(|x| x - at).into_iter().collect(), first.map_or(n, |x| x + 1))
        },
        12 => (vec![it.by_ref().count()], vec![n.saturating_sub(at)], n),
        _ => (it.by_ref().last().map(Tag::tag).into_iter().collect(), (at..n).last().into_iter().collect(), n),
    };
    t.at[w] = now.min(n);
    if got == want {
        Ok(())
    } else {
        Err(format!("{} gives {got:?}, expected {want:?}", OPS[op]))
    }
}

/// One sequence of operations; looked at closely after the last one, as every prefix is a sequence too.
fn history<I: Iterator<Item: Tag> + Clone + Debug>(name: &str, n: usize, ops: &[usize], fresh: &dyn Fn() -> I, r: &mut Rec) {
    r.trace();
    let res = no_panic(|| -> Result<(usize, usize), String> {
        let mut t = Two { it: [fresh(), fresh()], at: [0, 0] };
        for op in ops {
            step(&mut t, *op, n, fresh)?;
        }
        for w in 0..2 {
            look(&t.it[w], t.at[w], n).map_err(|m| format!("{}: {m}", ["the iterator", "the copy"][w]))?;
        }
        Ok((t.at[0], t.at[1]))
    });
    for _ in ops {
        r.step();
    }
    match res {
        Ok(Ok(s)) => r.state(hash64(&[n as u8, s.0 as u8, s.1 as u8], hash64(name.as_bytes(), 27))),
        Ok(Err(m)) | Err(m) => r.fail(format!("{name} of {n} blocks after {:?}: {m}", ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>())),
    }
}

/// A payload whose blocks are told apart.
fn payload(kind: usize, n: usize) -> (u8, u8, Vec<u8>) {
    let (c, i, head, blk, tag) = [(1u8, 0x35u8, 8usize, 12usize, 1usize), (2, 0x15, 16, 32, 21), (2, 0x13, 8, 4, 0), (10, 4, 40, 30, 99), (0x10, 2, 8, 4, 0), (0x10, 2, 8, 4, 0), (0x10, 3, 4, 8, 0)][kind];
    let mut v = vec![0u8; head + n * blk];
    for k in 0..n {
        let b = &mut v[head + k * blk..head + (k + 1) * blk];
        if kind == 3 {
            b[..k].fill(b'x');
        } else {
            b[tag] = k as u8;
        }
    }
    if kind == 4 || kind == 5 {
        v[5] = (n as u8) << 3;
    }
    if kind == 5 {
        v[4] = 8;
        v.extend_from_slice(&[7; 4]);
    }
    (c, i, v)
}
const NAMES: [&str; 8] = ["satellites", "raw measurements", "subframe words", "version extensions", "sensor measurements", "sensor measurements with a tag", "raw sensor data", "configuration items"];

fn run(kind: usize, n: usize, ops: &[usize], r: &mut Rec) {
    let name = NAMES[kind];
    if kind == 7 {
        let items: Vec<CfgVal> = (0..n)
            .map(|k| match k % 3 {
                0 if k == 0 => CfgVal::Uart1Enabled(false),
                0 => CfgVal::MsgoutUbxNavPvtUart1(k as u8),
                1 => CfgVal::RateMeas(k as u16),
                _ => CfgVal::Uart1Baudrate(k as u32),
            })
            .collect();
        let (mut a, mut b) = ([0u8; 128], [0u8; 128]);
        // an iterator can be started again only from a copy
        CfgValIter::new(&mut b, &items);
        let it = CfgValIter::new(&mut a, &items);
        return history(name, n, ops, &|| it.clone(), r);
    }
    let (c, i, v) = payload(kind, n);
    first(&frame(c, i, &v), |g| match g {
        Some(Ok(PacketRef::NavSat(p))) => history(name, n, ops, &|| p.svs(), r),
        Some(Ok(PacketRef::RxmRawx(p))) => history(name, n, ops, &|| p.measurements(), r),
        Some(Ok(PacketRef::RxmSfrbx(p))) => history(name, n, ops, &|| p.dwrd(), r),
        Some(Ok(PacketRef::MonVer(p))) => history(name, n, ops, &|| p.extension(), r),
        Some(Ok(PacketRef::EsfMeas(p))) => history(name, n, ops, &|| p.data(), r),
        Some(Ok(PacketRef::EsfRaw(p))) => history(name, n, ops, &|| p.data(), r),
        x => r.fail(format!("{name}: {}", show(x))),
    });
}

/// Reading changes nothing: all fields observed, printed, partly iterated and observed again, twice over.
fn pure(class: u8, id: u8, b: &[u8], r: &mut Rec) {
    r.eval(Some(hash64(b, (class as u64) << 8 | id as u64)));
    first(&frame(class, id, b), |g| {
        let Some(Ok(q)) = g else { return r.fail(format!("class {class:#04x} id {id:#04x} [{}]: no packet", hex(b))) };
        let seen = || {
            let mut v = vec![];
            observe(q, &mut |i, raw, x| v.push(format!("{i} {raw} {x:?}")));
            v
        };
        let a = seen();
        let d = format!("{q:?}");
        match q {
            PacketRef::NavSat(p) => drop((p.svs().next(), p.svs().nth(1))),
            PacketRef::RxmRawx(p) => drop((p.measurements().next(), p.measurements().last())),
            PacketRef::MonVer(p) => drop((p.extension().next(), p.extension().last())),
            PacketRef::EsfMeas(p) => drop((p.data().last(), p.calib_tag(), p.data().next())),
            _ => {},
        }
        let _ = capture(q);
        let _ = q.class_and_msg_id();
        if a != seen() || d != format!("{q:?}") {
            r.fail(format!("class {class:#04x} id {id:#04x} [{}]: reading the packet again gives {:?} and {q:?}, before {a:?} and {d}", hex(b), seen()));
        }
    });
}

fn main() {
    let c = Ctx::new("C27", Level::ModelChecking);
    let depth = c.pick(4u32, 5);
    let most = c.pick(5usize, 7);
    let no = OPS.len() as u64;
    for d in 0..=depth {
        let all = no.pow(d);
        c.space(&format!("operation sequences of length {d}"), NAMES.len() as u64 * most as u64 * all, |i, r| {
            let (kind, n, mut j) = (i as usize % NAMES.len(), i as usize / NAMES.len() % most, i / (NAMES.len() * most) as u64);
            let mut ops = [0usize; 8];
            for k in 0..d as usize {
                ops[k] = (j % no) as usize;
                j /= no;
            }
            run(kind, n, &ops[..d as usize], r);
        });
    }
    // as many blocks as a frame can hold, read from every position
    c.space("many blocks", NAMES.len() as u64 * 60, |i, r| {
        let (kind, n) = (i as usize % NAMES.len(), i as usize / NAMES.len());
        if n > [255, 255, 255, 29, 31, 31, 255, 16][kind] {
            return;
        }
        for skip in 0..n {
            let mut ops = vec![0; skip];
            ops.push(4);
            run(kind, n, &ops, r);
        }
    });
    let mut jobs = vec![];
    for (k, p) in PACKETS.iter().enumerate() {
        if p.dispatch.is_some() {
            for bg in 0..c.pick(12u64, 64) {
                let mut v = background(p, 0, bg);
                if p.name == "MonVer" {
                    v = payload(3, bg as usize % 20).2;
                } else if let Some(kind) = ["NavSat", "RxmRawx", "RxmSfrbx", "", "EsfMeas", "", "EsfRaw"].iter().position(|x| *x == p.name) {
                    v = payload(kind, bg as usize % 20).2;
                }
                jobs.push((k, v));
            }
        }
    }
    c.space("reading again", jobs.len() as u64, |i, r| {
        let (k, v) = &jobs[i as usize];
        pure(PACKETS[*k].class, PACKETS[*k].id, v, r);
    });
    c.finish(
        "every sequence of iterator operations up to the depth on two iterators over each kind of repeated part with each number of blocks, compared step by step with positions in a list; after each, all adaptors on copies, size hints, printing and going on after the end. A state is the kind, number of blocks and both positions",
        &["longer sequences behave like these"],
    );
}
