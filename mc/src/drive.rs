//! Drives the real parser and compares every outcome with the reference scan.
use crate::frame::*;
use ublox::*;

#[macro_export]
macro_rules! for_packets {
    ($m:ident) => {
        $m! {
            NavPosLlh NavStatus NavDop NavPvt NavSolution NavVelNed NavHpPosLlh NavHpPosEcef NavTimeUTC
            NavTimeLs NavSat NavEoe NavOdo CfgOdo MgaAck MgaGpsIono MgaGpsEph MgaGloEph AlpSrv AckAck
            AckNak CfgItfm CfgPrtI2c CfgPrtSpi CfgPrtUart CfgNav5 CfgAnt CfgTmode2 CfgTmode3 CfgTp5
            InfError InfWarning InfNotice InfTest InfDebug RxmRawx TimTp TimTm2 MonVer MonGnss MonHw
            RxmRtcm EsfMeas EsfIns HnrAtt HnrIns HnrPvt NavAtt NavClock NavVelECEF MgaGpsEPH RxmSfrbx
            EsfRaw TimSvin SecUniqId
        }
    };
}

macro_rules! parts_impl {
    ($($n:ident)*) => {
        /// Class, id, payload and variant name of a delivered packet.
        pub fn parts<'p>(p: &'p PacketRef) -> (u8, u8, &'p [u8], &'static str) {
            let (c, i) = p.class_and_msg_id();
            match p {
                $( PacketRef::$n(r) => (c, i, r.as_bytes(), stringify!($n)), )*
                PacketRef::Unknown(u) => (c, i, u.payload, "Unknown"),
                #[allow(unreachable_patterns)]
                _ => (c, i, &[], "?"),
            }
        }
    };
}
for_packets!(parts_impl);

pub type Got<'a> = Option<Result<PacketRef<'a>, ParserError>>;

pub fn show(g: &Got) -> String {
    match g {
        None => "nothing".into(),
        Some(Err(e)) => format!("{e:?}"),
        Some(Ok(p)) => {
            let (c, i, b, n) = parts(p);
            format!("packet {n} class {c:#04x} id {i:#04x} payload [{}]", hex(b))
        },
    }
}

fn same_packet(g: &Got, s: &[u8], at: usize, n: usize) -> bool {
    match g {
        Some(Ok(p)) => {
            let (c, i, b, _) = parts(p);
            c == s[at + 2] && i == s[at + 3] && b == &s[at + 6..at + 6 + n]
        },
        _ => false,
    }
}

/// Follows a parser with a growable buffer over the stream `s`, of which `avail` bytes were fed.
pub struct Follow<'s> {
    pub s: &'s [u8],
    pub pos: usize,
    pub avail: usize,
}
impl<'s> Follow<'s> {
    pub fn new(s: &'s [u8]) -> Self {
        Self { s, pos: 0, avail: 0 }
    }
    pub fn feed(&mut self, n: usize) {
        self.avail += n;
    }
    /// Compares one outcome; true when it was not the end.
    pub fn step(&mut self, g: &Got) -> Result<bool, String> {
        let p0 = self.pos;
        let e = ref_next(&self.s[..self.avail], &mut self.pos);
        let ok = match (&e, g) {
            (None, None) => true,
            (Some(RefEv::Pkt { at, n, .. }), g) => same_packet(g, self.s, *at, *n),
            (Some(RefEv::Ck { expect, got, .. }), Some(Err(ParserError::InvalidChecksum { expect: e2, got: g2 }))) => {
                expect == e2 && got == g2
            },
            _ => false,
        };
        if ok {
            Ok(e.is_some())
        } else {
            Err(format!("scanning from byte {p0} of [{}] ({} received): expected {e:?}, got {}", hex(self.s), self.avail, show(g)))
        }
    }
    /// Bytes which have to be buffered once the outcomes are exhausted.
    pub fn retained(&self) -> usize {
        self.avail - self.pos
    }
}

/// Follows a parser with a fixed buffer of `cap` bytes, iterators exhausted. The specification
/// leaves a choice for candidates larger than the buffer.
pub struct FollowFixed<'s> {
    pub s: &'s [u8],
    pub pos: usize,
    pub avail: usize,
    pub cap: usize,
    pub oom: u32,
    pub delivered: u32,
}
impl<'s> FollowFixed<'s> {
    pub fn new(s: &'s [u8], cap: usize) -> Self {
        Self { s, pos: 0, avail: 0, cap, oom: 0, delivered: 0 }
    }
    pub fn step(&mut self, g: &Got) -> Result<bool, String> {
        let c = candidate(&self.s[..self.avail], &mut self.pos);
        let l = self.avail - self.pos;
        let oom = |t: usize| matches!(g, Some(Err(ParserError::OutOfMemory { required_size })) if *required_size == t - 6);
        let bad = |why: &str| {
            Err(format!(
                "capacity {}, candidate at byte {} of [{}] ({} received) is {c:?}: {why}, got {}",
                self.cap,
                self.pos,
                hex(self.s),
                self.avail,
                show(g)
            ))
        };
        match c {
            Cand::Nothing | Cand::Incomplete { total: None } => {
                if g.is_none() {
                    Ok(false)
                } else {
                    bad("nothing to deliver yet")
                }
            },
            Cand::Incomplete { total: Some(t) } => {
                if g.is_none() && (t <= self.cap || l <= self.cap) {
                    return Ok(false);
                }
                if t > self.cap && oom(t) {
                    self.oom += 1;
                    self.pos += 2;
                    return Ok(true);
                }
                bad("neither waiting nor refusing is right here")
            },
            Cand::Complete { n, ok, expect, got } => {
                let t = n + 8;
                if t > self.cap && oom(t) {
                    self.oom += 1;
                    self.pos += 2;
                    return Ok(true);
                }
                if ok && same_packet(g, self.s, self.pos, n) {
                    self.delivered += 1;
                    self.pos += t;
                    return Ok(true);
                }
                match g {
                    Some(Err(ParserError::InvalidChecksum { expect: e, got: k })) if !ok && *e == expect && *k == got => {
                        self.pos += 2;
                        Ok(true)
                    },
                    _ => bad("a complete frame"),
                }
            },
        }
    }
    pub fn retained(&self) -> usize {
        self.avail - self.pos
    }
}

/// The bytes which turn a retained, incomplete frame into a complete, right one.
pub fn completion(r: &[u8]) -> Vec<u8> {
    let mut f = r.to_vec();
    for (k, b) in [0xb5u8, 0x62, 0x77, 0x01, 0x00, 0x00].iter().enumerate() {
        if f.len() == k {
            f.push(*b);
        }
    }
    let n = f[4] as usize + 256 * f[5] as usize;
    while f.len() < n + 6 {
        f.push((f.len() as u8) & 0x7f);
    }
    let (a, b) = fletcher(&f[2..n + 6]);
    if f.len() == n + 6 {
        f.push(a);
    }
    if f.len() == n + 7 {
        f.push(b);
    }
    f[r.len()..].to_vec()
}

/// A growable buffer with the trait's default methods.
#[derive(Default)]
pub struct PlainBuf(pub Vec<u8>);
impl core::ops::Index<core::ops::Range<usize>> for PlainBuf {
    type Output = [u8];
    fn index(&self, r: core::ops::Range<usize>) -> &[u8] {
        &self.0[r]
    }
}
impl core::ops::Index<usize> for PlainBuf {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.0[i]
    }
}
impl UnderlyingBuffer for PlainBuf {
    fn clear(&mut self) {
        self.0.clear()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_capacity(&self) -> usize {
        usize::MAX
    }
    fn extend_from_slice(&mut self, other: &[u8]) -> usize {
        self.0.extend_from_slice(other);
        0
    }
    fn drain(&mut self, count: usize) {
        self.0.drain(..count.min(self.0.len()));
    }
}

/// Feeds `chunk` to a parser, exhausts the iterator and compares; then compares the buffered length.
pub fn feed_all<T: UnderlyingBuffer>(p: &mut Parser<T>, f: &mut Follow, chunk: &[u8], steps: &mut u64) -> Result<(), String> {
    f.feed(chunk.len());
    {
        let mut it = p.consume(chunk);
        loop {
            *steps += 1;
            if !f.step(&it.next())? {
                break;
            }
        }
        let g = it.next();
        if g.is_some() {
            return Err(format!("after its end the iterator yields {}", show(&g)));
        }
    }
    let (l, want) = (p.buffer_len(), f.retained());
    if l != want {
        return Err(format!("{} of [{}] received: {l} bytes buffered, {want} may still complete a frame", f.avail, hex(f.s)));
    }
    if p.is_buffer_empty() != (l == 0) {
        return Err(format!("is_buffer_empty is {} with {l} bytes buffered", p.is_buffer_empty()));
    }
    Ok(())
}

/// The same for a fixed buffer.
pub fn feed_all_fixed<T: UnderlyingBuffer>(p: &mut Parser<T>, f: &mut FollowFixed, chunk: &[u8], steps: &mut u64) -> Result<(), String> {
    f.avail += chunk.len();
    {
        let mut it = p.consume(chunk);
        loop {
            *steps += 1;
            if !f.step(&it.next())? {
                break;
            }
        }
        let g = it.next();
        if g.is_some() {
            return Err(format!("after its end the iterator yields {}", show(&g)));
        }
    }
    let (l, want) = (p.buffer_len(), f.retained());
    if l != want {
        return Err(format!("capacity {}: {} of [{}] received: {l} bytes buffered, {want} may still complete a frame", f.cap, f.avail, hex(f.s)));
    }
    if p.is_buffer_empty() != (l == 0) {
        return Err(format!("is_buffer_empty is {} with {l} bytes buffered", p.is_buffer_empty()));
    }
    Ok(())
}

/// The fully buffered header-known candidate in a stream, for reports.
pub fn chunks_of(s: &[u8], mask: u64) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut a = 0;
    for k in 1..s.len() {
        if mask >> (k - 1) & 1 == 1 {
            v.push(&s[a..k]);
            a = k;
        }
    }
    v.push(&s[a..]);
    v
}

/// Parses one frame with a fixed buffer on the stack and hands the first outcome on.
pub fn first<R>(frame: &[u8], f: impl FnOnce(&Got) -> R) -> R {
    let mut store = [0u8; 8300];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut store[..frame.len().max(8)]));
    let mut it = p.consume(frame);
    f(&it.next())
}
/// The same with a growable buffer.
#[cfg(feature = "std")]
pub fn first_vec<R>(frame: &[u8], f: impl FnOnce(&Got) -> R) -> R {
    let mut p = Parser::new(Vec::new());
    let mut it = p.consume(frame);
    f(&it.next())
}
