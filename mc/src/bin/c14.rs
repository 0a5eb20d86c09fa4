//! C14: all ways of emitting a packet produce the same bytes and honour the sink.
use mc::*;
use ublox::*;

#[derive(Debug, PartialEq, Clone)]
enum Call {
    Reserve(usize),
    Write(Vec<u8>),
}
#[derive(Debug, PartialEq, Clone, Copy)]
struct Tag(u32);

/// Records its calls and fails the `at`-th one.
struct Sink {
    calls: Vec<Call>,
    at: usize,
    custom: bool,
}
impl Sink {
    fn step(&mut self, c: Call) -> Result<(), MemWriterError<Tag>> {
        self.calls.push(c);
        if self.calls.len() - 1 == self.at {
            return Err(if self.custom { MemWriterError::Custom(Tag(self.at as u32 ^ 0xdead)) } else { MemWriterError::NotEnoughMem });
        }
        Ok(())
    }
}
impl MemWriter for Sink {
    type Error = Tag;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<Tag>> {
        self.step(Call::Reserve(len))
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<Tag>> {
        self.step(Call::Write(buf.to_vec()))
    }
}
/// A bounded sink which takes what fits only when told to reserve enough.
struct Bounded {
    data: Vec<u8>,
    cap: usize,
    reserved: usize,
    early: bool,
}
impl MemWriter for Bounded {
    type Error = ();
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<()>> {
        if self.data.len() + len > self.cap {
            return Err(MemWriterError::NotEnoughMem);
        }
        self.reserved = self.reserved.max(self.data.len() + len);
        Ok(())
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<()>> {
        if self.data.len() + buf.len() > self.reserved {
            self.early = true;
        }
        self.data.extend_from_slice(buf);
        Ok(())
    }
}

fn judge<B: UbxPacketCreator>(name: &str, want: &[u8], mk: impl Fn() -> B) -> Result<usize, String> {
    let mut n = 0;
    // undisturbed
    let mut s = Sink { calls: vec![], at: usize::MAX, custom: false };
    if let Err(e) = mk().create_packet(&mut s) {
        return Err(format!("{name}: create_packet fails by itself: {e:?}"));
    }
    n += 1;
    let first_write = s.calls.iter().position(|c| matches!(c, Call::Write(b) if !b.is_empty()));
    let reserved = s.calls[..first_write.unwrap_or(0)].iter().filter_map(|c| if let Call::Reserve(l) = c { Some(*l) } else { None }).max();
    if reserved.map_or(true, |l| l < want.len()) {
        return Err(format!("{name}: asked to reserve {reserved:?} bytes before the first of {} bytes", want.len()));
    }
    let all: Vec<u8> = s.calls.iter().flat_map(|c| if let Call::Write(b) = c { b.clone() } else { vec![] }).collect();
    if all != want {
        return Err(format!("{name}: the writer received [{}], expected [{}]", hex(&all), hex(want)));
    }
    // every call fails once, in both ways
    let total = s.calls.len();
    for at in 0..total {
        for custom in [false, true] {
            let mut f = Sink { calls: vec![], at, custom };
            n += 1;
            let res = mk().create_packet(&mut f);
            let ok = match &res {
                Err(MemWriterError::NotEnoughMem) => !custom,
                Err(MemWriterError::Custom(t)) => custom && *t == Tag(at as u32 ^ 0xdead),
                Ok(()) => false,
            };
            if !ok {
                return Err(format!("{name}: call {at} of the writer failed (custom error: {custom}), create_packet returned {res:?}"));
            }
            if f.calls.len() != at + 1 {
                return Err(format!("{name}: after call {at} failed, {} more calls were made", f.calls.len() - at - 1));
            }
            if f.calls[..] != s.calls[..at + 1] {
                return Err(format!("{name}: the calls before a failure differ from an undisturbed run"));
            }
        }
    }
    // bounded memory, every capacity, and bytes already there
    for pre in [0usize, 3] {
        for cap in 0..want.len() + pre + 2 {
            let mut b = Bounded { data: vec![0xb5; pre.min(cap)], cap, reserved: 0, early: false };
            let pre = pre.min(cap);
            n += 1;
            let res = mk().create_packet(&mut b);
            let fits = pre + want.len() <= cap;
            if res.is_ok() != fits || b.early {
                return Err(format!("{name}: {cap} bytes of memory, {pre} used: {res:?}, wrote beyond the reservation: {}", b.early));
            }
            let mut e = vec![0xb5; pre];
            if fits {
                e.extend_from_slice(want);
            }
            if b.data != e {
                return Err(format!("{name}: {cap} bytes of memory hold [{}], expected [{}]", hex(&b.data), hex(&e)));
            }
        }
    }
    // a vector, empty and with content
    for pre in [vec![], vec![0xb5u8, 0x62, 6, 0x8a, 9], vec![0u8; 300]] {
        let mut v = pre.clone();
        n += 1;
        let res = mk().create_packet(&mut v);
        if res.is_err() || v[..pre.len()] != pre[..] || v[pre.len()..] != want[..] {
            return Err(format!("{name}: writing to a vector with {} bytes: {:?}, [{}]", pre.len(), res.is_ok(), hex(&v)));
        }
    }
    Ok(n)
}

struct Ways<'a> {
    name: &'a str,
    out: Result<usize, String>,
    bytes: Vec<u8>,
}
impl Emit for Ways<'_> {
    fn emit<B: UbxPacketCreator, const N: usize>(&mut self, b: impl Fn() -> B, bytes: fn(B) -> [u8; N], from: fn(B) -> [u8; N]) {
        let want = bytes(b());
        self.bytes = want.to_vec();
        let f = from(b());
        if f != want {
            self.out = Err(format!("{}: From gives [{}], into_packet_bytes [{}]", self.name, hex(&f), hex(&want)));
            return;
        }
        self.out = judge(self.name, &want, b);
    }
}

/// A growable container other than a vector: a fixed array which counts.
struct Ring {
    data: [u8; 2048],
    n: usize,
}
impl Extend<u8> for Ring {
    fn extend<T: IntoIterator<Item = u8>>(&mut self, it: T) {
        for b in it {
            self.data[self.n] = b;
            self.n += 1;
        }
    }
}
impl<'a> Extend<&'a u8> for Ring {
    fn extend<T: IntoIterator<Item = &'a u8>>(&mut self, it: T) {
        for b in it {
            self.data[self.n] = *b;
            self.n += 1;
        }
    }
}
impl core::ops::Deref for Ring {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.data[..self.n]
    }
}
impl core::ops::DerefMut for Ring {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.data[..self.n]
    }
}

fn main() {
    let c = Ctx::new("C14", Level::FaultEnumeration);
    let t = builders();
    let run = |pk: usize, v: &[FV], r: &mut Rec| {
        let mut w = Ways { name: PACKETS[pk].name, out: Ok(0), bytes: vec![] };
        let res = no_panic(|| {
            build(pk, v, &mut w);
        });
        match res.map_err(|m| format!("{}Builder with {v:?}: {m}", PACKETS[pk].name)).and(w.out) {
            Ok(n) => r.evals(n as u64),
            Err(m) => r.fail(m),
        }
        r.eval(Some(hash64(&w.bytes, pk as u64)));
    };
    let nb = c.pick(48u64, 400);
    c.space("every builder, every failing call", t.len() as u64 * nb, |i, r| {
        let pk = t[(i / nb) as usize];
        run(pk, &base_values(pk, i % nb), r);
        r.sample(|| format!("{}Builder, value set {}, each call of the writer failing in turn", PACKETS[pk].name, i % nb));
    });
    let mut one = vec![];
    for &pk in &t {
        for f in 0..PACKETS[pk].fields.len() {
            for x in 0..domain(&PACKETS[pk].fields[f], false).len() {
                one.push((pk, f, x));
            }
        }
    }
    c.space("each field over its domain", one.len() as u64, |i, r| {
        let (pk, f, x) = one[i as usize];
        let mut v = base_values(pk, 2);
        v[f] = domain(&PACKETS[pk].fields[f], false)[x];
        run(pk, &v, r);
    });
    // the defaulted builders
    c.space("defaulted builders", t.len() as u64, |i, r| {
        let pk = t[i as usize];
        let mut w = Ways { name: PACKETS[pk].name, out: Ok(0), bytes: vec![] };
        if build_default(pk, &mut w) {
            match w.out {
                Ok(n) => r.evals(n as u64),
                Err(m) => r.fail(m),
            }
        }
    });
    // CFG-VALSET: building and appending, to every kind of content
    use cfg_val::CfgVal;
    let pool = [
        CfgVal::Uart1Enabled(true),
        CfgVal::Uart1DataBits(DataBits::Seven),
        CfgVal::MsgoutUbxNavPvtI2c(0x62),
        CfgVal::RateMeas(0xb562),
        CfgVal::Uart1Baudrate(0x6282_b562),
        CfgVal::TpFreqTp1(u32::MAX),
    ];
    let depth = c.pick(4u32, 6);
    let opts = pool.len() as u64 + 1;
    let pres: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0xb5],
        vec![0xb5, 0x62],
        vec![0xb5, 0x62, 6, 0x8a, 0, 0],
        frame(6, 0x8a, &[1, 2, 3]),
        (0..=255).collect(),
        vec![0xff; 700],
    ];
    c.space("CFG-VALSET appended to existing content", opts.pow(depth), |i, r| {
        let mut items = vec![];
        let mut j = i;
        for _ in 0..depth {
            if j % opts > 0 {
                items.push(pool[(j % opts) as usize - 1].clone());
            }
            j /= opts;
        }
        for (layer, ver, rs) in [(0u8, 0u8, 0u16), (0xff, 0xb5, 0x62b5)] {
            let mk = || CfgValSetBuilder { version: ver, layers: CfgLayer::from_bits_truncate(layer), reserved1: rs, cfg_data: &items };
            let want = mk().into_packet_vec();
            r.eval(Some(hash64(&want, 3)));
            // a frame of its own
            let n = want.len();
            let l = n.wrapping_sub(8);
            if n < 12 || want[..6] != [0xb5, 0x62, 6, 0x8a, l as u8, (l >> 8) as u8] || fletcher(&want[2..n - 2]) != (want[n - 2], want[n - 1]) {
                r.fail(format!("CfgValSetBuilder {items:?}: [{}] is no frame", hex(&want)));
            }
            for pre in &pres {
                let mut v = pre.clone();
                r.evals(1);
                mk().extend_to(&mut v);
                if v[..pre.len()] != pre[..] || v[pre.len()..] != want[..] {
                    r.fail(format!("CfgValSetBuilder {items:?} appended to [{}] gives [{}], expected [{}] behind it", hex(pre), hex(&v), hex(&want)));
                }
                let mut g = Ring { data: [0; 2048], n: 0 };
                g.extend(pre.iter());
                mk().extend_to(&mut g);
                if g[..] != v[..] {
                    r.fail(format!("CfgValSetBuilder {items:?} appended to another container with [{}] gives [{}]", hex(pre), hex(&g)));
                }
                // twice in a row
                let k = v.len();
                mk().extend_to(&mut v);
                if v[k..] != want[..] || v[..pre.len()] != pre[..] || v[pre.len()..k] != want[..] {
                    r.fail(format!("CfgValSetBuilder {items:?} appended twice to [{}] gives [{}]", hex(pre), hex(&v)));
                }
            }
        }
    });
    // behind long content
    let pre = around(4, c.pick(17, 20), c.pick(13, 40));
    c.space("emitted behind long content", pre.len() as u64, |i, r| {
        let n = pre[i as usize];
        for fill in [0u8, 0xb5, 0xff] {
            for k in [0usize, 1, 2, 6] {
                let items = &pool[..k];
                let mk = || CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: items };
                let want = mk().into_packet_vec();
                let mut v = vec![fill; n];
                v.shrink_to_fit();
                mk().extend_to(&mut v);
                r.eval(Some(hash64(&(n as u64).to_le_bytes(), fill as u64 * 8 + k as u64)));
                if v.len() != n + want.len() || v[..n].iter().any(|b| *b != fill) || v[n..] != want[..] {
                    r.fail(format!("CfgValSetBuilder {items:?} appended to {n} bytes {fill:#x} gives [{}], expected [{}] behind them", hex(&v[n.min(v.len())..]), hex(&want)));
                }
            }
            let mk = || CfgMsgAllPortsBuilder { msg_class: fill, msg_id: 1, rates: [1, 2, 3, 4, 5, fill] };
            let want = mk().into_packet_bytes();
            let mut v = vec![fill; n];
            v.shrink_to_fit();
            let res = mk().create_packet(&mut v);
            r.evals(1);
            if res.is_err() || v.len() != n + want.len() || v[..n].iter().any(|b| *b != fill) || v[n..] != want[..] {
                r.fail(format!("a packet written to a vector of {n} bytes gives {:?} and [{}]", res.is_ok(), hex(&v[n.min(v.len())..])));
            }
        }
    });
    c.finish(
        "every builder over many value sets: each writer call fails in turn in both error kinds, every memory size from nothing to more than enough, vectors with and without content; CFG-VALSET over all item sequences up to a depth appended to several contents. Distinct by emitted frame",
        &["a writer that reports success keeps what it was given"],
    );
}
