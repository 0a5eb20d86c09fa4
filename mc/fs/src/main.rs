//! C23: one feature set of the crate, driven through the same bounded space as every other.
//!
//! `fs digest TIER` prints one line per block of cases: section, block, number of cases, digest of
//! everything observed. `fs dump TIER SECTION BLOCK` prints every case of a block as text.
#![allow(unreachable_patterns, non_upper_case_globals, dead_code, unused_imports, unused_variables)]
#[path = "../../src/build.rs"]
pub mod build;
#[path = "../../src/deep.rs"]
pub mod deep;
#[path = "../../src/drive.rs"]
pub mod drive;
#[path = "../../src/frame.rs"]
pub mod frame;
#[path = "../../src/gen.rs"]
pub mod gen;
#[path = "../../src/gencfg.rs"]
pub mod gencfg;
#[path = "../../src/model.rs"]
pub mod model;
#[cfg(feature = "serde")]
#[path = "../../src/ser.rs"]
pub mod ser;
pub use build::*;
pub use deep::*;
pub use drive::*;
pub use frame::*;
pub use gen::*;
pub use gencfg::*;
pub use model::*;
#[cfg(feature = "serde")]
pub use ser::{capture, Cap, SV};

use chrono::prelude::*;
use core::fmt::Write;
use std::convert::TryFrom;
use ublox::cfg_val::CfgVal;
use ublox::*;

/// Takes what is observed: a digest, or text.
enum Out {
    Hash(u64, u64),
    Text(String),
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        match self {
            Out::Hash(h, _) => {
                for b in s.bytes() {
                    *h = (*h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
                    *h ^= *h >> 31;
                }
            },
            Out::Text(t) => t.push_str(s),
        }
        Ok(())
    }
}
macro_rules! put { ($o:expr, $($a:tt)*) => { { let _ = write!($o, $($a)*); } }; }
impl Out {
    fn word(&mut self, x: u64) {
        match self {
            Out::Hash(h, n) => {
                *n += 1;
                *h = (*h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                *h ^= *h >> 29;
            },
            Out::Text(t) => put!(t, " {x:#x}"),
        }
    }
    fn bytes(&mut self, b: &[u8]) {
        match self {
            Out::Hash(..) => {
                for k in b.chunks(8) {
                    let mut w = [0u8; 8];
                    w[..k.len()].copy_from_slice(k);
                    self.word(u64::from_le_bytes(w));
                }
                self.word(b.len() as u64);
            },
            Out::Text(t) => put!(t, " [{}]", hex(b)),
        }
    }
    fn val(&mut self, v: &Val) {
        if let Out::Text(t) = self {
            put!(t, " {v:?}");
            return;
        }
        match v {
            Val::U(x) | Val::Bits(x) => self.word(*x),
            Val::I(x) => self.word(*x as u64 ^ 1 << 60),
            Val::F(x) => self.word(x.to_bits()),
            Val::F32(x) => self.word(x.to_bits() as u64 | 1 << 40),
            Val::B(x) => self.word(*x as u64 + 77),
            Val::Str(b) | Val::Bytes(b) => self.bytes(b),
            Val::E(n, x) => {
                let _ = self.write_str(n);
                self.word(x.map_or(0, |x| x + 1));
            },
            Val::D(t) => {
                let _ = self.write_str(t);
            },
        }
    }
}

type Case<'a> = Box<dyn Fn(u64, &mut Out) + 'a>;
struct Section<'a> {
    name: &'static str,
    n: u64,
    case: Case<'a>,
}

fn got(o: &mut Out, g: &Got) {
    match g {
        Some(Ok(p)) => {
            let (c, i, b, n) = parts(p);
            put!(o, " {n}");
            o.word((c as u64) << 8 | i as u64);
            o.bytes(b);
        },
        Some(Err(e)) => put!(o, " {e:?} <{e}>"),
        None => put!(o, " -"),
    }
}
fn run<T: UnderlyingBuffer>(p: &mut Parser<T>, s: &[u8], how: u64, o: &mut Out) {
    // how: 0 whole, 1 byte by byte, 2 in halves leaving the iterator early, 3 in threes
    let size = [s.len().max(1), 1, s.len() / 2 + 1, 3][how as usize];
    for ch in s.chunks(size) {
        let mut it = p.consume(ch);
        if how == 2 {
            got(o, &it.next());
            continue;
        }
        for _ in 0..s.len() + 3 {
            let g = it.next();
            got(o, &g);
            if g.is_none() {
                break;
            }
        }
        drop(it);
        o.word(p.buffer_len() as u64 * 2 + p.is_buffer_empty() as u64);
    }
}
/// A sequence of operations on a buffer, everything it tells after each one.
fn operate<T: UnderlyingBuffer>(b: &mut T, ops: u64, n: u64, o: &mut Out) {
    let mut j = ops;
    for k in 0..n {
        let fresh = [0xb5, 0x62, k as u8, 0xb5, 7];
        match j % 10 {
            x @ 0..=4 => o.word(b.extend_from_slice(&fresh[..x as usize + 1]) as u64),
            x @ 5..=7 => b.drain([0, 1, 3][x as usize - 5].min(b.len())),
            8 => b.clear(),
            _ => b.drain(b.len()),
        }
        j /= 10;
        o.word(b.len() as u64 * 2 + b.is_empty() as u64);
        o.word(b.max_capacity() as u64);
        o.bytes(&b[0..b.len()]);
        for x in [0xb5, 0x62, 0, 1, 7, 9] {
            o.word(b.find(x).map_or(99, |x| x as u64));
        }
    }
}
/// Every value of a packet, and the conversions.
fn everything(p: &PacketRef, o: &mut Out) {
    observe(p, &mut |i, raw, v| {
        o.word(i as u64 * 2 + raw as u64);
        o.val(&v);
    });
    deep(p, &mut |x| {
        if x.group == "config" || x.group == "config2" || x.group == "mode" {
            return;
        }
        put!(o, "{}", x.group);
        o.val(&x.v);
    });
    put!(o, " {:?}", p.class_and_msg_id());
    let mut f = |x: f64| o.val(&Val::F(x));
    match p {
        PacketRef::NavPosLlh(r) => [Position::from(r)].iter().for_each(|x| [x.lon, x.lat, x.alt].map(&mut f).map(drop).iter().for_each(drop)),
        PacketRef::NavHpPosLlh(r) => [Position::from(r)].iter().for_each(|x| [x.lon, x.lat, x.alt].map(&mut f).map(drop).iter().for_each(drop)),
        PacketRef::NavHpPosEcef(r) => [PositionECEF::from(r)].iter().for_each(|x| [x.x, x.y, x.z].map(&mut f).map(drop).iter().for_each(drop)),
        PacketRef::NavVelNed(r) => [Velocity::from(r)].iter().for_each(|x| [x.speed, x.heading].map(&mut f).map(drop).iter().for_each(drop)),
        PacketRef::NavPvt(r) => {
            let x = Position::from(r);
            [x.lon, x.lat, x.alt].map(&mut f);
            let x = Velocity::from(r);
            [x.speed, x.heading].map(&mut f);
            match DateTime::<Utc>::try_from(r) {
                Ok(t) => put!(o, " {t:?}"),
                Err(e) => put!(o, " {e:?} <{e}>"),
            }
        },
        PacketRef::AckAck(r) => put!(o, " {}", r.is_ack_for::<NavPvt>()),
        PacketRef::AckNak(r) => put!(o, " {}", r.is_nak_for::<NavPvt>()),
        _ => {},
    }
}

struct Fails;
struct Tag(u32);
/// Records every call, failing the `at`-th.
struct Writer<'a> {
    o: &'a mut Out,
    n: usize,
    at: usize,
}
impl Writer<'_> {
    fn step(&mut self) -> Result<(), MemWriterError<u32>> {
        self.n += 1;
        match self.n.wrapping_sub(1) == self.at {
            true if self.at % 2 == 0 => Err(MemWriterError::NotEnoughMem),
            true => Err(MemWriterError::Custom(self.at as u32)),
            false => Ok(()),
        }
    }
}
impl MemWriter for Writer<'_> {
    type Error = u32;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<u32>> {
        self.o.word(len as u64 | 1 << 32);
        self.step()
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<u32>> {
        self.o.bytes(buf);
        self.step()
    }
}
fn create(b: impl UbxPacketCreator, at: usize, o: &mut Out) -> usize {
    let mut w = Writer { o, n: 0, at };
    let r = b.create_packet(&mut w);
    let n = w.n;
    match r {
        Ok(()) => put!(o, " done {n}"),
        Err(e) => put!(o, " {e:?} <{e}> {n}"),
    }
    n
}
struct All<'a> {
    o: &'a mut Out,
    calls: bool,
}
impl Emit for All<'_> {
    fn emit<B: UbxPacketCreator, const N: usize>(&mut self, b: impl Fn() -> B, bytes: fn(B) -> [u8; N], from: fn(B) -> [u8; N]) {
        self.o.bytes(&bytes(b()));
        if self.calls {
            self.o.bytes(&from(b()));
            let n = create(b(), usize::MAX, self.o);
            for at in 0..n {
                create(b(), at, self.o);
            }
        }
    }
}
#[cfg(feature = "std")]
struct IntoVec<'a>(&'a mut Out, usize);
#[cfg(feature = "std")]
impl Emit for IntoVec<'_> {
    fn emit<B: UbxPacketCreator, const N: usize>(&mut self, b: impl Fn() -> B, _: fn(B) -> [u8; N], _: fn(B) -> [u8; N]) {
        let mut v: Vec<u8> = vec![0xb5; self.1];
        put!(self.0, " {:?}", b().create_packet(&mut v).map_err(|e| e.to_string()));
        self.0.bytes(&v);
    }
}

/// A growable list of bytes which is no `Vec`, for `extend_to`.
#[derive(Default)]
struct List(Vec<u8>);
impl Extend<u8> for List {
    fn extend<T: IntoIterator<Item = u8>>(&mut self, i: T) {
        self.0.extend(i)
    }
}
impl core::ops::Deref for List {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl core::ops::DerefMut for List {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
fn valset(items: &[CfgVal]) -> CfgValSetBuilder<'_> {
    CfgValSetBuilder { version: 3, layers: CfgLayer::RAM | CfgLayer::FLASH, reserved1: 0x55, cfg_data: items }
}
fn cfg_values(k: usize) -> Vec<u64> {
    let c = &CFGS[k];
    if c.codes > 0 {
        return (0..c.codes).collect();
    }
    let bits = 8 * c.width as u32;
    let m = !0u64 >> (64 - bits);
    let mut o = vec![0, m, 0x0123_4567_89ab_cdef & m, 0xfedc_ba98_7654_3210 & m];
    o.extend((0..bits).flat_map(|b| [1u64 << b, !(1u64 << b) & m]));
    o
}

fn around(r: i64, s: f64) -> Vec<f64> {
    let mut o = vec![];
    for d in [0.0, 0.25, 0.49, 0.499_999, 0.5, 0.500_001, 0.51, 0.75] {
        for k in [r as f64 + d, r as f64 - d] {
            o.push(k * s);
            o.push(k / (1.0 / s));
        }
    }
    let x = r as f64 * s;
    o.extend([x.next_up(), x.next_down()]);
    let h = (r as f64 + 0.5) * s;
    o.extend([h.next_up(), h.next_down()]);
    o
}
fn specials() -> Vec<f64> {
    let mut o = vec![f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 0.0, -0.0, f32::MAX as f64, 1e-45];
    for e in -60..=80 {
        for m in [1.0, -1.0, 1.5, -1.5, 1.999_999, -1.999_999] {
            o.push(m * 2f64.powi(e));
        }
    }
    o
}
/// Lengths worth trying for a packet: its own ones, and the wrong ones around them.
fn lengths(pk: usize) -> Vec<usize> {
    let p = &PACKETS[pk];
    match p.fixed {
        Some(n) => vec![n],
        None => {
            let h = p.fields.iter().map(|f| f.off + f.size).max().unwrap_or(0);
            (h..=h + 40).chain([h + 64, h + 96, h + 120]).collect()
        },
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let deep_tier = a[2] == "thorough";
    let pick = |q: u64, t: u64| if deep_tier { t } else { q };
    std::panic::set_hook(Box::new(|_| {}));
    let mut secs: Vec<Section> = vec![];
    macro_rules! sec {
        ($name:expr, $n:expr, |$i:ident, $o:ident| $b:block) => {
            secs.push(Section { name: $name, n: $n as u64, case: Box::new(move |$i: u64, $o: &mut Out| $b) })
        };
    }
    // parsing
    let toks: &'static [(&'static str, Vec<u8>)] = Box::leak(tokens().into_boxed_slice());
    let nt = toks.len() as u64;
    for d in 1..=3usize {
        for (name, caps) in [("token streams, fixed buffers", true), ("token streams, own buffer", false)] {
            sec!(name, nt.pow(d as u32), |i, o| {
                let mut s = vec![];
                nth_tokens(toks, d, i, &mut s);
                for how in 0..4 {
                    if caps {
                        for cap in [4usize, 5, 8, 9, 10, 11, 16, 18, 25, 64] {
                            let mut m = vec![0u8; cap];
                            run(&mut Parser::new(FixedLinearBuffer::new(&mut m)), &s, how, o);
                        }
                    } else {
                        run(&mut Parser::new(PlainBuf::default()), &s, how, o);
                    }
                }
            });
        }
    }
    let alpha: &'static [u8] = &[0xb5, 0x62, 0, 1, 2];
    for l in 1..=pick(7, 9) as usize {
        sec!("short strings behind a header", 5u64.pow(l as u32), |i, o| {
            let mut t = vec![];
            nth_string(alpha, l, i, &mut t);
            let mut s = vec![0xb5, 0x62, 5];
            s.extend_from_slice(&t);
            s.extend_from_slice(&[6, 0, 0x0b, 0x27, 0xb5]);
            run(&mut Parser::new(PlainBuf::default()), &s, i % 4, o);
            let mut m = [0u8; 12];
            run(&mut Parser::new(FixedLinearBuffer::new(&mut m)), &s, (i + 1) % 4, o);
        });
    }
    sec!("every length", 65536, |i, o| {
        let n = i as usize;
        let full = n <= 8300 && (n % 16 == 0 || n >= 8160 || n < 64);
        let mut s = if full { frame(5, 1, &vec![n as u8; n]) } else { vec![0xb5, 0x62, 5, 1, n as u8, (n >> 8) as u8, 1, 2] };
        s.extend_from_slice(&frame(5, 1, &[6, 0]));
        run(&mut Parser::new(PlainBuf::default()), &s, 0, o);
        let mut m = vec![0u8; [64usize, 8192, 256, 8184][n % 4]];
        run(&mut Parser::new(FixedLinearBuffer::new(&mut m)), &s, 0, o);
    });
    sec!("every class and id", 65536, |i, o| {
        for n in [0usize, 2, 4] {
            first(&frame((i >> 8) as u8, i as u8, &[7; 4][..n]), |g| {
                got(o, g);
                if let Some(Ok(p)) = g {
                    put!(o, "{p:?}");
                    everything(p, o);
                }
            });
        }
    });
    // decoding
    let known: &'static [usize] = Box::leak((0..PACKETS.len()).filter(|k| PACKETS[*k].dispatch.is_some()).collect::<Vec<_>>().into_boxed_slice());
    let mut cells: Vec<(usize, usize, usize)> = vec![];
    for &pk in known {
        for n in lengths(pk) {
            for at in 0..n {
                if n < 48 || PACKETS[pk].fixed.is_some() || at % 7 == 0 {
                    cells.push((pk, n, at));
                }
            }
            if n == 0 {
                cells.push((pk, 0, 0));
            }
        }
    }
    let cells: &'static [(usize, usize, usize)] = Box::leak(cells.into_boxed_slice());
    let payload = |(pk, n, at): (usize, usize, usize), bg: u64, x: u8| {
        let p = &PACKETS[pk];
        let h = p.fields.iter().map(|f| f.off + f.size).max().unwrap_or(0);
        let mut v = background(p, n.saturating_sub(p.fixed.unwrap_or(h)), bg);
        v.truncate(n);
        if at < v.len() {
            v[at] = x;
        }
        (p.class, p.id, v)
    };
    let bgs: &'static [u64] = if deep_tier { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12] } else { &[0, 1, 2] };
    sec!("every value of every byte of every packet", cells.len() as u64, |i, o| {
        let c = cells[i as usize];
        for bg in bgs {
            let step = if PACKETS[c.0].fixed.is_some() || deep_tier { 1 } else { 3 };
            for x in (0..=255u8).step_by(step) {
                let (cl, id, v) = payload(c, *bg, x);
                first(&frame(cl, id, &v), |g| match g {
                    Some(Ok(p)) => everything(p, o),
                    g => got(o, g),
                });
            }
        }
    });
    let vals: &'static [u8] = if deep_tier { &(const { let mut v = [0u8; 256]; let mut k = 0; while k < 256 { v[k] = k as u8; k += 1; } v }) } else { &[0, 1, 2, 3, 4, 8, 0x10, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff] };
    sec!("formatting every packet", cells.len() as u64, |i, o| {
        let c = cells[i as usize];
        for x in vals {
            let (cl, id, v) = payload(c, 2, *x);
            first(&frame(cl, id, &v), |g| match g {
                Some(Ok(p)) => put!(o, "{p:?}{}", debug_inner(p)),
                g => got(o, g),
            });
        }
    });
    sec!("calendar", 13 * 33, |i, o| {
        let (mo, d) = ((i % 13) as u8, (i / 13) as u8);
        for y in [0u16, 1, 1970, 1999, 2000, 2004, 2023, 2024, 2100, 65535] {
            for (h, m, s) in [(0u8, 0u8, 0u8), (23, 59, 59), (24, 0, 0), (12, 60, 0), (1, 2, 60), (7, 8, 9)] {
                for ns in [0i32, 1, -1, 999_999_999, -999_999_999, 1_000_000_000, -1_000_000_000, i32::MIN, i32::MAX] {
                    let mut v = vec![0u8; 92];
                    v[4..6].copy_from_slice(&y.to_le_bytes());
                    v[6..11].copy_from_slice(&[mo, d, h, m, s]);
                    v[16..20].copy_from_slice(&ns.to_le_bytes());
                    first(&frame(1, 7, &v), |g| match g {
                        Some(Ok(PacketRef::NavPvt(r))) => match DateTime::<Utc>::try_from(r) {
                            Ok(t) => {
                                o.word(t.timestamp() as u64);
                                o.word(t.timestamp_subsec_nanos() as u64);
                            },
                            Err(e) => put!(o, " {e:?} <{e}>"),
                        },
                        g => got(o, g),
                    });
                }
            }
        }
    });
    // building
    let bs: &'static [usize] = Box::leak(builders().into_boxed_slice());
    let mut bf: Vec<(usize, usize)> = vec![];
    for &pk in bs {
        bf.push((pk, usize::MAX));
        bf.extend((0..PACKETS[pk].fields.len()).map(|k| (pk, k)));
    }
    let bf: &'static [(usize, usize)] = Box::leak(bf.into_boxed_slice());
    sec!("builders", bf.len(), |i, o| {
        let (pk, fi) = bf[i as usize];
        if fi == usize::MAX {
            let some = build_default(pk, &mut All { o, calls: true });
            put!(o, "{some}");
            build(pk, &base_values(pk, 0), &mut All { o, calls: true });
            return;
        }
        let f = &PACKETS[pk].fields[fi];
        for b in 0..3u64 {
            let mut v = base_values(pk, b);
            for (k, x) in domain(f, deep_tier || b == 0).into_iter().enumerate() {
                v[fi] = x;
                build(pk, &v, &mut All { o, calls: k % 16 == 0 });
            }
        }
    });
    let mut sf: Vec<(usize, usize, f64)> = vec![];
    for &pk in bs {
        for (k, f) in PACKETS[pk].fields.iter().enumerate() {
            if let Map::Scale { s, .. } = f.map {
                sf.push((pk, k, s));
            }
        }
    }
    let sf: &'static [(usize, usize, f64)] = Box::leak(sf.into_boxed_slice());
    let sp: &'static [f64] = Box::leak(specials().into_boxed_slice());
    sec!("scaled fields of builders", sf.len() * 64, |i, o| {
        let (pk, fi, s) = sf[(i / 64) as usize];
        let f = &PACKETS[pk].fields[fi];
        let mut v = base_values(pk, 0);
        let mut xs: Vec<f64> = vec![];
        if i % 64 == 0 {
            xs.extend(sp.iter().flat_map(|x| [*x, *x * s]));
        }
        let (lo, hi) = bounds(f);
        let k = (i % 64) as i64;
        for r in [k, -k, lo + k, hi - k, hi + k, lo - k, 1i64 << (k % 34), -(1i64 << (k % 34)), (hi - lo) / 64 * k + lo] {
            xs.extend(around(r, s));
        }
        for x in xs {
            v[fi] = FV::flt(x);
            build(pk, &v, &mut All { o, calls: false });
        }
    });
    sec!("aiding data", 400, |i, o| {
        let b = || {
            let w = |k: usize| u32::from_le_bytes([pat(i, k), pat(i, k + 1), pat(i, k + 2), pat(i, k + 3)]);
            AidIniBuilder { flags: w(3), tow_ns: w(9) as i32, ..Default::default() }
        };
        let e = [0.0, 1e-7, -1e-7, 1.5e-7, 45.123_456_78, -89.999_999_9, 90.0, 179.999_999_95, -180.0, 214.748_364_7, 1e9, -1e9, f64::NAN, f64::INFINITY, 0.005, 8848.865, -430.5, 1e-300, 33.000_000_05, 1e8];
        let (x, y) = (e[(i % 20) as usize], e[(i / 20) as usize]);
        o.bytes(&b().set_position(Position { lon: x, lat: y, alt: x + y }).into_packet_bytes());
        let t = Utc.timestamp_opt(946_684_800 + (i as i64) * 7_889_230, (i as u32 * 2_500_003) % 1_000_000_000).unwrap();
        o.bytes(&b().set_time(t).into_packet_bytes());
    });
    sec!("polls, rates and acknowledgements", PACKETS.len(), |i, o| {
        let pk = i as usize;
        put!(o, "{:?}", META.get(pk));
        if pk < META.len() {
            o.bytes(&poll(pk));
            for r in [0u8, 1, 5, 255] {
                o.bytes(&single_rate(pk, r));
                o.bytes(&all_rates(pk, [r, 1, 2, 3, 4, r]));
            }
            for k in 0..65536u32 {
                for t in [0u8, 1] {
                    if k % 97 == 0 || k as u8 == META[pk].1 {
                        first(&frame(5, t, &[(k >> 8) as u8, k as u8]), |g| match g {
                            Some(Ok(PacketRef::AckAck(r))) => o.word(ack_for(pk, r) as u64),
                            Some(Ok(PacketRef::AckNak(r))) => o.word(nak_for(pk, r) as u64 + 2),
                            g => got(o, g),
                        });
                    }
                }
            }
        }
    });
    // configuration items
    sec!("configuration items", CFGS.len(), |i, o| {
        let k = i as usize;
        for v in cfg_values(k) {
            let x = cfg_make(k, v);
            put!(o, "{x:?} {} {}", x.len(), x.is_empty());
            let mut b = [0xa5u8; 24];
            o.word(x.write_to(&mut b) as u64);
            o.bytes(&b);
            let mut l = List::default();
            o.word(x.extend_to(&mut l.0) as u64);
            o.bytes(&l.0);
            put!(o, "{:?}", CfgVal::parse(&b));
            let mut l = List::default();
            valset(&[x]).extend_to(&mut l);
            o.bytes(&l.0);
        }
    });
    sec!("configuration lists", pick(400, 4000), |i, o| {
        let n = (i % 40) as usize;
        let items: Vec<CfgVal> = (0..n).map(|k| (k * 37 + i as usize * 11) % CFGS.len()).map(|k| cfg_make(k, *cfg_values(k).last().unwrap())).collect();
        let mut m = vec![0u8; 1024];
        {
            let it = CfgValIter::new(&mut m, &items);
            put!(o, "{:?}", it.clone().collect::<Vec<_>>());
        }
        o.bytes(&m);
        let mut l = List(vec![0xb5; (i % 3) as usize]);
        valset(&items).extend_to(&mut l);
        o.bytes(&l.0);
    });
    for n in 1..=pick(4, 5) {
        sec!("buffer operations", 10u64.pow(n as u32), |i, o| {
            for cap in 0..9usize {
                let mut m = vec![0xa5u8; cap];
                operate(&mut FixedLinearBuffer::new(&mut m), i, n, o);
                o.bytes(&m);
            }
            operate(&mut PlainBuf::default(), i, n, o);
        });
    }
    sec!("errors", 512, |i, o| {
        let k = i as usize;
        for e in [
            ParserError::InvalidChecksum { expect: (k * 129) as u16, got: !(k * 129) as u16 },
            ParserError::InvalidField { packet: "NavPvt", field: "fix_type" },
            ParserError::InvalidPacketLen { packet: "NavPvt", expect: k, got: k * 3 },
            ParserError::OutOfMemory { required_size: k * 131 },
        ] {
            put!(o, "{e} {e:?} {e:#?}");
        }
        for e in [MemWriterError::NotEnoughMem, MemWriterError::Custom(i)] {
            put!(o, "{e} {e:?}");
        }
        for e in [DateTimeError::InvalidDate, DateTimeError::InvalidTime, DateTimeError::InvalidNanoseconds] {
            put!(o, "{e} {e:?}");
        }
    });
    // interfaces which some feature sets add
    #[cfg(any(feature = "std", feature = "alloc"))]
    for d in 1..=3usize {
        sec!("token streams, growable buffer", nt.pow(d as u32), |i, o| {
            let mut s = vec![];
            nth_tokens(toks, d, i, &mut s);
            for how in 0..4 {
                if i % 2 == 0 {
                    run(&mut Parser::default(), &s, how, o);
                } else {
                    run(&mut Parser::new(Vec::new()), &s, how, o);
                }
            }
        });
    }
    #[cfg(any(feature = "std", feature = "alloc"))]
    for n in 1..=pick(4, 5) {
        sec!("growable buffer operations", 10u64.pow(n as u32), |i, o| {
            operate(&mut Vec::new(), i, n, o);
        });
    }
    #[cfg(feature = "alloc")]
    sec!("configuration packets as vectors", pick(400, 4000), |i, o| {
        let n = (i % 40) as usize;
        let items: Vec<CfgVal> = (0..n).map(|k| (k * 37 + i as usize * 11) % CFGS.len()).map(|k| cfg_make(k, *cfg_values(k).last().unwrap())).collect();
        o.bytes(&valset(&items).into_packet_vec());
    });
    #[cfg(feature = "std")]
    sec!("vectors as writers", bs.len() * 4, |i, o| {
        build(bs[(i / 4) as usize], &base_values(bs[(i / 4) as usize], i % 4), &mut IntoVec(o, (i % 4) as usize));
        fn is_error<T: std::error::Error>(e: &T) -> bool {
            e.source().is_some()
        }
        put!(o, "{}", is_error(&ParserError::OutOfMemory { required_size: 1 }));
        put!(o, "{}", is_error(&DateTimeError::InvalidDate));
        put!(o, "{}", is_error(&MemWriterError::Custom(std::io::Error::from_raw_os_error(2))));
    });
    #[cfg(feature = "serde")]
    sec!("serialising every packet", cells.len() as u64, |i, o| {
        let c = cells[i as usize];
        for x in vals {
            let (cl, id, v) = payload(c, 2, *x);
            first(&frame(cl, id, &v), |g| match g {
                Some(Ok(p)) => {
                    put!(o, "{:?}", capture(p).map_err(|e| e.to_string()));
                    if let Some(r) = serialize_inner(p, Cap) {
                        put!(o, "{:?}", r.map_err(|e| e.to_string()));
                    }
                },
                g => got(o, g),
            });
        }
    });

    let case = |s: &Section, i: u64, o: &mut Out| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.case)(i, o)));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            put!(o, " panic: {m}");
        }
    };
    // sections of the same name follow each other as one
    let size = |s: &Section| (s.n / 256).clamp(1, 2048);
    if a[1] == "digest" {
        for (k, s) in secs.iter().enumerate() {
            let b = size(s);
            let mut at = 0;
            while at < s.n {
                let end = (at + b).min(s.n);
                let mut o = Out::Hash(0xcbf2_9ce4_8422_2325, 0);
                for i in at..end {
                    o.word(i);
                    case(s, i, &mut o);
                }
                let Out::Hash(h, words) = o else { unreachable!() };
                println!("{}#{}\t{at}\t{}\t{words}\t{h:016x}", s.name, s.n, end - at);
                at = end;
            }
        }
    } else {
        let at: u64 = a[4].parse().unwrap();
        for s in secs.iter().filter(|s| format!("{}#{}", s.name, s.n) == a[3]) {
            for i in at..(at + size(s)).min(s.n) {
                let mut o = Out::Text(String::new());
                case(s, i, &mut o);
                let Out::Text(t) = o else { unreachable!() };
                println!("{i}\t{}", t.replace('\n', " "));
            }
        }
    }
}
