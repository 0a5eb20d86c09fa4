//! The protocol model: what each field's bytes mean, and observation of the values the code reports.
use crate::gen::*;
use core::fmt::Debug;
use ublox::UbxPacketCreator;

pub struct En {
    pub name: &'static str,
    pub reserved: bool,
    pub variants: &'static [(&'static str, u64)],
    pub default: Option<u64>,
}
pub struct Fl {
    pub name: &'static str,
    pub bits: u32,
    pub flags: &'static [(&'static str, u64)],
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    U,
    I,
    F,
    Arr,
    Var,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Map {
    None,
    Scale { s: f64, single: bool },
    Enum(usize),
    Flags(usize),
    Other(&'static str),
}
pub struct Fd {
    pub name: &'static str,
    pub acc: &'static str,
    pub off: usize,
    pub size: usize,
    pub kind: Kind,
    pub map: Map,
    pub may_fail: bool,
}
pub struct Pk {
    pub name: &'static str,
    pub class: u8,
    pub id: u8,
    pub recv: bool,
    pub send: bool,
    pub fixed: Option<usize>,
    pub max: usize,
    pub default: bool,
    /// Position in the dispatch order.
    pub dispatch: Option<usize>,
    pub fields: &'static [Fd],
}

/// A value an accessor returned.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    I(i64),
    F(f64),
    F32(f32),
    B(bool),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Bits(u64),
    E(&'static str, Option<u64>),
    /// Anything else, by its debug text.
    D(String),
}

pub struct Wrap<T>(pub T);
pub trait ObsA {
    fn obs(&self) -> Val;
}
macro_rules! obs_int {
    ($($t:ident $v:ident $w:ident),*) => { $( impl ObsA for &Wrap<$t> { fn obs(&self) -> Val { Val::$v(self.0 as $w) } } )* };
}
obs_int!(u8 U u64, u16 U u64, u32 U u64, u64 U u64, usize U u64, i8 I i64, i16 I i64, i32 I i64, i64 I i64, f32 F32 f32, f64 F f64);
impl ObsA for &Wrap<bool> {
    fn obs(&self) -> Val {
        Val::B(self.0)
    }
}
impl ObsA for &Wrap<&str> {
    fn obs(&self) -> Val {
        Val::Str(self.0.as_bytes().to_vec())
    }
}
impl ObsA for &Wrap<&[u8]> {
    fn obs(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
}
impl<const N: usize> ObsA for &Wrap<[u8; N]> {
    fn obs(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
}
impl<const N: usize> ObsA for &Wrap<&[u8; N]> {
    fn obs(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
}
/// Fallback, chosen by method resolution only when no other observation exists.
pub trait ObsB {
    fn obs(&self) -> Val;
}
impl<T: Debug> ObsB for Wrap<T> {
    fn obs(&self) -> Val {
        Val::D(format!("{:?}", self.0))
    }
}

/// Little-endian raw value of a numeric field.
pub fn raw_u(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
pub fn raw_i(b: &[u8]) -> i64 {
    let n = 8 * b.len() as u32;
    let u = raw_u(b);
    if n < 64 && u >> (n - 1) & 1 == 1 {
        u as i64 - (1i64 << n)
    } else {
        u as i64
    }
}

fn int_of(v: &Val) -> Option<i128> {
    match v {
        Val::U(x) => Some(*x as i128),
        Val::I(x) => Some(*x as i128),
        _ => None,
    }
}

/// Does the raw accessor's value equal the field's bytes?
pub fn raw_matches(f: &Fd, b: &[u8], v: &Val) -> bool {
    match f.kind {
        Kind::U => int_of(v) == Some(raw_u(b) as i128),
        Kind::I => int_of(v) == Some(raw_i(b) as i128),
        Kind::F => match v {
            Val::F(x) => b.len() == 8 && x.to_bits() == raw_u(b),
            Val::F32(x) => b.len() == 4 && x.to_bits() as u64 == raw_u(b),
            _ => false,
        },
        Kind::Arr | Kind::Var => matches!(v, Val::Bytes(x) if x == b),
    }
}

pub fn num(f: &Fd, b: &[u8]) -> f64 {
    if f.kind == Kind::I {
        raw_i(b) as f64
    } else {
        raw_u(b) as f64
    }
}

pub fn close(x: f64, want: f64, rel: f64) -> bool {
    x == want || (x - want).abs() <= want.abs() * rel
}

/// Does the accessor's value mean what the field's bytes mean? Views with inner structure
/// (`Map::Other`) are judged elsewhere.
pub fn value_matches(f: &Fd, b: &[u8], v: &Val) -> bool {
    match f.map {
        Map::None => raw_matches(f, b, v),
        Map::Scale { s, single } => {
            let want = num(f, b) * s;
            match v {
                Val::F(x) => !single && close(*x, want, 1e-14),
                Val::F32(x) => close(*x as f64, want, 3e-7),
                _ => false,
            }
        },
        Map::Enum(e) => {
            let raw = raw_u(b);
            let en = &ENUMS[e];
            let known = en.variants.iter().find(|x| x.1 == raw).map(|x| x.0);
            match v {
                Val::E(name, code) => code.map_or(true, |c| c == raw) && known.unwrap_or("reserved") == *name,
                Val::D(t) => match known {
                    Some(k) => t == k,
                    None => t.contains(&raw.to_string()),
                },
                _ => false,
            }
        },
        Map::Flags(_) => matches!(v, Val::Bits(x) if *x == raw_u(b)),
        Map::Other("&str") => match (v, b.iter().position(|x| *x == 0)) {
            (Val::Str(s), Some(k)) => s == &b[..k],
            _ => false,
        },
        Map::Other(_) => true,
    }
}

/// Do the bytes satisfy the field's restriction?
pub fn field_valid(f: &Fd, b: &[u8]) -> bool {
    if !f.may_fail {
        return true;
    }
    match f.map {
        Map::Enum(e) => ENUMS[e].variants.iter().any(|x| x.1 == raw_u(b)),
        Map::Other("UartMode") => {
            let r = raw_u(b);
            matches!(r >> 6 & 3, 2 | 3) && matches!(r >> 9 & 7, 0 | 1 | 4 | 5)
        },
        Map::Other("TimTm2Flags") => raw_u(b) >> 3 & 3 != 3,
        Map::Other("&str") => cstr(b).is_some(),
        Map::Other("NavSatIter") => b.len() % 12 == 0,
        Map::Other("RxmRawxInfoIter") => b.len() % 32 == 0,
        Map::Other("MonVerExtensionIter") => b.len() % 30 == 0 && b.chunks(30).all(|c| cstr(c).is_some()),
        Map::Other("EsfMeasDataIter") | Map::Other("DwrdIter") => b.len() % 4 == 0,
        Map::Other("EsfRawDataIter") => b.len() % 8 == 0,
        Map::Other("Option<&str>") => true,
        m => panic!("no rule for {m:?}"),
    }
}

/// The zero-terminated UTF-8 text at the start of `b`.
pub fn cstr(b: &[u8]) -> Option<&str> {
    let k = b.iter().position(|x| *x == 0)?;
    std::str::from_utf8(&b[..k]).ok()
}

/// Does a payload satisfy a definition (length and restricted values)?
pub fn payload_valid(p: &Pk, b: &[u8]) -> bool {
    match p.fixed {
        Some(n) => b.len() == n && p.fields.iter().all(|f| field_valid(f, &b[f.off..f.off + f.size])),
        None => {
            let min = p.fields.iter().map(|f| f.off + f.size).max().unwrap_or(0);
            let mut need = min;
            if p.name == "EsfMeas" && b.len() >= 8 {
                let fl = raw_u(&b[4..6]);
                need += 4 * (fl >> 11 & 31) as usize + if fl & 8 != 0 { 4 } else { 0 };
            }
            b.len() >= need
                && p.fields.iter().all(|f| {
                    if f.kind == Kind::Var {
                        field_valid(f, &b[f.off..])
                    } else {
                        field_valid(f, &b[f.off..f.off + f.size])
                    }
                })
        },
    }
}

/// The definition a frame has to be dispatched to.
pub fn dispatch(class: u8, id: u8, payload: &[u8]) -> Option<usize> {
    let mut best: Option<(usize, usize)> = None;
    for (k, p) in PACKETS.iter().enumerate() {
        if let Some(d) = p.dispatch {
            if p.class == class && p.id == id && payload_valid(p, payload) && best.map_or(true, |b| d < b.0) {
                best = Some((d, k));
            }
        }
    }
    best.map(|b| b.1)
}

/// A value for a builder field.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct FV {
    pub i: i64,
    pub f: f64,
    pub b: [u8; 8],
}
impl FV {
    pub fn int(i: i64) -> Self {
        Self { i, ..Default::default() }
    }
    pub fn flt(f: f64) -> Self {
        Self { f, ..Default::default() }
    }
    pub fn bytes(x: &[u8]) -> Self {
        let mut b = [0; 8];
        b[..x.len()].copy_from_slice(x);
        Self { b, ..Default::default() }
    }
    pub fn arr<T: From<u8> + Copy, const N: usize>(&self) -> [T; N] {
        core::array::from_fn(|k| T::from(self.b[k]))
    }
}

/// Every way of emitting a builder's bytes.
pub trait Emit {
    fn emit<B: UbxPacketCreator, const N: usize>(&mut self, b: impl Fn() -> B, bytes: fn(B) -> [u8; N], from: fn(B) -> [u8; N]);
}

/// Just the bytes of `into_packet_bytes`.
#[derive(Default)]
pub struct Bytes(pub Vec<u8>);
impl Emit for Bytes {
    fn emit<B: UbxPacketCreator, const N: usize>(&mut self, b: impl Fn() -> B, bytes: fn(B) -> [u8; N], _from: fn(B) -> [u8; N]) {
        self.0 = bytes(b()).to_vec();
    }
}
pub fn built(pk: usize, v: &[FV]) -> Vec<u8> {
    let mut e = Bytes::default();
    assert!(build(pk, v, &mut e), "no builder for {}", PACKETS[pk].name);
    e.0
}

/// Raw integer bounds of a numeric field.
pub fn bounds(f: &Fd) -> (i64, i64) {
    let n = 8 * f.size as u32;
    if f.kind == Kind::I {
        (-(1i64 << (n - 1)), (1i64 << (n - 1)) - 1)
    } else {
        (0, (1i64 << n) - 1)
    }
}

/// Is `raw` a correct encoding of `x` in a field scaled by `s`?
pub fn scaled_ok(f: &Fd, s: f64, single: bool, x: f64, raw: i64) -> bool {
    let (lo, hi) = bounds(f);
    if x.is_nan() {
        return true;
    }
    let r = x / s;
    let eps = if s == 1.0 { 0.0 } else { (if single { 2.5e-7 } else { 5e-16 }) * r.abs().min(1e18) };
    if r >= hi as f64 + 0.5 + eps {
        return raw == hi;
    }
    if r <= lo as f64 - 0.5 - eps {
        return raw == lo;
    }
    let d = (raw as f64 - r).abs();
    if d < 0.5 - eps {
        return true;
    }
    if d > 0.5 + eps {
        // at the ends of the range the clamped value may be further away
        return (raw == hi && r > hi as f64) || (raw == lo && r < lo as f64);
    }
    if eps == 0.0 || s == 1.0 {
        // an exact tie goes away from zero
        return raw.unsigned_abs() as f64 > r.abs() || raw == hi || raw == lo;
    }
    true
}

/// Pattern byte k of background `pat`.
pub fn pat(p: u64, k: usize) -> u8 {
    match p {
        0 => 0,
        1 => 0xff,
        2 => (k as u8).wrapping_mul(0x35).wrapping_add(0x11),
        3 => 0x80,
        4 => 0x7f,
        5 => 1,
        n => ((k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15 ^ n.wrapping_mul(0xd6e8_feb8_6659_fd93)) >> 41) as u8,
    }
}

/// Makes a restricted field's bytes acceptable, changing as little as possible.
pub fn repair(f: &Fd, b: &mut [u8], n: u64) {
    if !f.may_fail || f.size == 0 || field_valid(f, b) {
        return;
    }
    match f.map {
        Map::Enum(e) => {
            let v = ENUMS[e].variants;
            b[0] = v[n as usize % v.len()].1 as u8;
        },
        Map::Other("UartMode") => {
            b[0] |= 0x80;
            b[1] &= !0x04;
        },
        Map::Other("TimTm2Flags") => b[0] &= !0x10,
        Map::Other("&str") => {
            for x in b.iter_mut() {
                *x &= 0x7f;
            }
            let k = b.len() - 1;
            b[k] = 0;
        },
        m => panic!("no repair for {m:?}"),
    }
}

/// A payload which satisfies the definition, filled with background `n`; `rest` more bytes behind
/// the fixed part, which the caller makes fit.
pub fn background(p: &Pk, rest: usize, n: u64) -> Vec<u8> {
    let len = p.fixed.unwrap_or_else(|| p.fields.iter().map(|f| f.off + f.size).max().unwrap_or(0)) + rest;
    let mut v: Vec<u8> = (0..len).map(|k| pat(n, k)).collect();
    for f in p.fields {
        repair(f, &mut v[f.off..f.off + f.size], n);
    }
    v
}

/// Compares every fixed-size accessor of a delivered packet with the model. `known` gets
/// deviations which are recorded findings.
pub fn check_fields(pk: usize, b: &[u8], obs: impl FnOnce(&mut dyn FnMut(usize, bool, Val))) -> Result<(), (Option<&'static str>, String)> {
    let p = &PACKETS[pk];
    let mut out = Ok(());
    let mut seen = 0;
    obs(&mut |i, raw, v| {
        let f = &p.fields[i];
        let fb = &b[f.off..f.off + f.size];
        seen += 1;
        let ok = if raw { raw_matches(f, fb, &v) } else { value_matches(f, fb, &v) };
        if pk == PK_MgaGpsIono && !raw && f.size == 1 && matches!(f.map, Map::Scale { .. }) {
            const E: [i32; 8] = [-30, -27, -24, -24, 11, 14, 16, 16];
            let x = match v {
                Val::F(x) => x,
                _ => f64::NAN,
            };
            if close(x, num(f, fb) * 2f64.powi(E[f.off - 4]), 1e-12) {
                return;
            }
            if out.is_ok() && ok && num(f, fb) != 0.0 {
                out = Err((Some("mga-gps-iono-unscaled"), format!("MgaGpsIono.{}() is {x}, without its scale 2^{}", f.acc, E[f.off - 4])));
                return;
            }
        }
        if !ok && !matches!(out, Err((None, _))) {
            out = Err((
                None,
                format!(
                    "{}.{}{}() returned {v:?}, its bytes at {}..{} are [{}]",
                    p.name,
                    f.acc,
                    if raw { "_raw" } else { "" },
                    f.off,
                    f.off + f.size,
                    crate::hex(fb)
                ),
            ));
        }
    });
    let want: usize = p.fields.iter().filter(|f| f.size > 0).map(|f| 1 + (f.map != Map::None) as usize).sum();
    if out.is_ok() && seen != want {
        return Err((None, format!("{}: {seen} accessors observed, {want} defined", p.name)));
    }
    out
}

/// By size in bytes: words at which field values may change their meaning. Limits of the widths, single bits,
/// small numbers, and decimal limits of the protocol's units (rates, times of week, angles, nanoseconds).
pub fn field_words() -> Vec<Vec<u64>> {
    let mut o = vec![vec![]; 9];
    for n in 1..=8usize {
        let m = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
        let mut w: Vec<u64> = (0..=17).collect();
        for b in 0..8 * n {
            w.extend([1u64 << b, (1u64 << b) - 1, !(1u64 << b)]);
        }
        for d in [24u64, 31, 59, 60, 90, 100, 180, 255, 359, 360, 365, 999, 1000, 1023, 1024, 1240, 1980, 2000, 2020, 3600, 8176, 9600, 10_000, 86_400, 115_200, 604_800, 1_000_000, 9_000_000, 18_000_000, 36_000_000, 86_400_000, 90_000_000, 180_000_000, 360_000_000, 604_800_000, 900_000_000, 999_999_999, 1_000_000_000, 1_800_000_000, 3_600_000_000] {
            for e in [d - 1, d, d + 1] {
                w.extend([e, e.wrapping_neg()]);
            }
        }
        w.extend([0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 0x0123_4567_89ab_cdef, u64::MAX, u64::MAX - 1]);
        for x in &mut w {
            *x &= m;
        }
        w.sort();
        w.dedup();
        o[n] = w;
    }
    o
}

/// All pairs and triples of the numeric fields (at most eight bytes) of these packets.
pub fn field_tuples(t: &[usize]) -> (Vec<(usize, usize, usize)>, Vec<(usize, usize, usize, usize)>) {
    let (mut two, mut three) = (vec![], vec![]);
    for &k in t {
        let w: Vec<usize> = (0..PACKETS[k].fields.len())
            .filter(|i| {
                let f = &PACKETS[k].fields[*i];
                f.kind != Kind::Arr && f.kind != Kind::Var && f.size <= 8
            })
            .collect();
        for (x, &i) in w.iter().enumerate() {
            for (y, &j) in w.iter().enumerate().skip(x + 1) {
                two.push((k, i, j));
                three.extend(w[y + 1..].iter().map(|l| (k, i, j, *l)));
            }
        }
    }
    (two, three)
}
/// Writes the low bytes of a word into a field.
pub fn put_word(v: &mut [u8], f: &Fd, w: u64) {
    v[f.off..f.off + f.size].copy_from_slice(&w.to_le_bytes()[..f.size]);
}
/// A few words of a width at which most decisions are made.
pub fn few_words(n: usize) -> Vec<u64> {
    let m = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
    let mut v = vec![0, 1, 2, 3, 4, 5, 0x20, m >> 1, (m >> 1) + 1, m];
    if n >= 4 {
        v.extend([999_999_999, 1_000_000_000, (-999_999_999i64) as u64 & m]);
    }
    v
}
