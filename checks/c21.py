#!/usr/bin/env python3
"""C21: the packet macros compile definitions faithfully and reject inconsistent ones.

Enumerates definitions. The valid ones are compiled by the real macros inside a scratch copy of the
ublox crate (as a child module of packets.rs, where the names the generated code uses are in scope)
and run there against a table computed here. The inconsistent ones are compiled against the macros in
one crate; each has to get at least one error on its own lines."""
import itertools, json, os, re, resource, shutil, subprocess, sys, time

ROOT = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = f'{ROOT}/mc/target/c21'
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
DEEP = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

INTS = {'u8': (1, 'U'), 'i8': (1, 'I'), 'u16': (2, 'U'), 'i16': (2, 'I'), 'u32': (4, 'U'), 'i32': (4, 'I')}
FLTS = {'f32': (4, 'F'), 'f64': (8, 'F')}

# ---------------------------------------------------------------- definitions which are valid
ENUMS = []   # (name, [(variant, value)], reserved, from, into)
def add_enums():
    vals = {'One': [0], 'Last': [255], 'Mid': [127, 128], 'Edge': [0, 1, 127, 128, 254, 255], 'Gap': [1, 3, 4, 9, 64],
            'Rev': [9, 5, 2, 1], 'Low': list(range(16)), 'All': list(range(256))}
    for n, v in vals.items():
        for reserved in (True, False):
            if n == 'All' and not reserved:
                continue
            ENUMS.append((f'E{n}{"R" if reserved else "F"}', [(f'V{n}{x}', x) for x in v], reserved))
add_enums()
FLAGS = []   # (name, repr, [(const, bit)])
def add_flags():
    for ty, n in (('u8', 8), ('u16', 16), ('u32', 32)):
        sets = {'None': [], 'All': list(range(n)), 'Even': list(range(0, n, 2)), 'Ends': [0, n - 1], 'Desc': list(range(n - 1, n - 5, -1)), 'Mid': [n // 2 - 1, n // 2]}
        for b in range(n):
            sets[f'B{b}'] = [b]
        for k, bits in sets.items():
            FLAGS.append((f'G{ty.upper()}{k}', ty, [(f'C{b}', b) for b in bits]))
add_flags()

class F:
    """One field: its source text and what it means."""
    def __init__(s, kind, ty, size, attr='', acc=None, k='', recv=True, send=True, mk='', may_fail=False, raw=False):
        s.kind, s.ty, s.size, s.attr, s.alias, s.k, s.recv, s.send, s.mk, s.may_fail, s.raw = kind, ty, size, attr, acc, k, recv, send, mk, may_fail, raw
def kinds():
    o = []
    for ty, (n, k) in {**INTS, **FLTS}.items():
        o.append(F(f'{ty}', ty, n, k=f'K::{k}', mk=f'{ty}::from_le_bytes(a($))'))
    for n in (1, 2, 3, 5, 12):
        o.append(F(f'arr{n}', f'[u8; {n}]', n, k='K::Arr', mk='a($)'))
    for ty, (n, k) in INTS.items():
        for s in ('1e-2', '0.5', '1e-7') if DEEP else (('1e-2', '1e-7')[n // 4],):
            o.append(F(f'{ty}s{s}', ty, n, f'map_type = f64, scale = {s}', k=f'K::S({s}, false, {str(k == "I").lower()})', mk=f'{ty}::from_le_bytes(a($)) as f64 * {s}', raw=True))
        if n < 4:
            o.append(F(f'{ty}f', ty, n, 'map_type = f32, scale = 1e-2', k=f'K::S(1e-2, true, {str(k == "I").lower()})', mk=f'{ty}::from_le_bytes(a($)) as f32 * 1e-2', raw=True))
        o.append(F(f'{ty}m', ty, n, 'map_type = f64', k=f'K::S(1.0, false, {str(k == "I").lower()})', send=False, raw=True))
        o.append(F(f'{ty}a', ty, n, 'alias = @', acc='x', k=f'K::{k}', mk=f'{ty}::from_le_bytes(a($))'))
        o.append(F(f'{ty}as', ty, n, 'alias = @, map_type = f64, scale = 1e-3', acc='x', k=f'K::S(1e-3, false, {str(k == "I").lower()})', mk=f'{ty}::from_le_bytes(a($)) as f64 * 1e-3', raw=True))
    for ty in ('u8', 'u16', 'u32'):
        n = INTS[ty][0]
        g = f'G{ty.upper()}Even'
        o.append(F(f'{ty}g', ty, n, f'map_type = {g}', k='K::U', mk=f'{g}::from({ty}::from_le_bytes(a($)))', raw=True))
        o.append(F(f'{ty}w', ty, n, f'map_type = W{ty}, from = W{ty}::mk, into = W{ty}::un', k='K::U', mk=f'W{ty}::mk({ty}::from_le_bytes(a($)))', raw=True))
        o.append(F(f'{ty}wf', ty, n, f'map_type = W{ty}, from = W{ty}::mk, is_valid = W{ty}::ok, may_fail, into = W{ty}::un', k='K::U', mk=f'W{ty}::mk({ty}::from_le_bytes(a($)))', may_fail='w', raw=True))
    for e in ('EEdgeR', 'EGapR'):
        o.append(F(f'{e}', 'u8', 1, f'map_type = {e}', k='K::U', mk=f'{e}::from($[0])', raw=True))
    for e in ('EEdgeF', 'EGapF', 'EOneF'):
        i = next(i for i, x in enumerate(ENUMS) if x[0] == e)
        o.append(F(f'{e}', 'u8', 1, f'map_type = {e}, may_fail', k='K::U', mk=f'{e}::from_unchecked($[0])', may_fail=f'e{i}', raw=True))
    o.append(F('str6', '[u8; 6]', 6, 'map_type = &str, may_fail, from = txt, is_valid = txt_ok, get_as_ref', k='K::Txt', send=False, may_fail='t', raw=True))
    return o
KINDS = kinds()
BY = {k.kind: k for k in KINDS}

DEFS = []    # dict(name, mac, cls, id, fields, tail, order, flags)
def define(fields, cls=1, id=2, tail=None, order=0, default=False, hexa=False, maxlen=None):
    name = f'D{len(DEFS)}'
    recv = all(f.recv for f in fields)
    send = all(f.send for f in fields) and tail is None
    d = dict(name=name, fields=fields, cls=cls, id=id, tail=tail, order=order, default=default and send, hexa=hexa, send=send, maxlen=maxlen)
    DEFS.append(d)
    return d
def enumerate_defs():
    for k in KINDS:                                  # every kind alone, and in front of a tail
        define([k], default=True)
        define([k], tail='raw')
    plain = [BY[x] for x in ('u8', 'i16', 'u32', 'arr3', 'f64')]
    for n in (2, 3):                                 # every short sequence of plain types
        for c in itertools.product(plain, repeat=n):
            define(list(c), default=True)
    # every ordered pair of kinds, packed into walks over an Eulerian circuit of the pair graph
    ks = [k for k in KINDS if k.send]
    m = len(ks)
    nxt = [0] * m
    stack, circuit = [0], []
    while stack:
        v = stack[-1]
        if nxt[v] < m:
            stack.append(nxt[v])
            nxt[v] += 1
        else:
            circuit.append(stack.pop())
    step = 24
    for i in range(0, len(circuit) - 1, step):
        define([ks[j] for j in circuit[i:i + step + 1]], cls=0x7f, id=(i // step) % 256)
    for k in KINDS:                                  # receive-only kinds between others
        if not k.send:
            for o in plain:
                define([o, k, o])
                define([k, o, k], tail='raw')
    for n in (4, 5, 6, 7, 8, 30, 31, 32, 33, 40, 64):                 # array sizes
        define([BY['u8'], arr(n), BY['u16']])
        define([arr(n)], tail='raw')
    for n in (254, 255, 256, 257, 258, 511, 512, 513, 768, 1023, 4096, 8176):      # payload lengths which need both length bytes
        define([BY['u8'], arr(n - 3), BY['u16']])
    for c in (0, 1, 0x62, 0x7f, 0x80, 0xb5, 0xff):
        for i in (0, 1, 0x62, 0x7f, 0x80, 0xb5, 0xff):
            define([BY['u8'], BY['i16']], cls=c, id=i, hexa=(c + i) % 2 == 1)
    for o in range(24):                              # orders of the header attributes
        define([BY['u16'], BY['u8']], cls=10 + o, id=200 - o, order=o, default=True)
        define([BY['u16'], BY['u8']], cls=10 + o, id=200 - o, order=o, tail='raw')
    for n in range(0, 4):                            # mapped tails
        define([BY['u8']] * n + [BY['u16']], tail='it')
        define([BY['u8']] * n + [BY['u16']], tail='itf')
    for k in ('u8', 'u16', 'u32', 'arr3'):           # sized parts inside: length in the first byte
        define([BY['u8'], BY[k]], tail='sized')
        define([BY['u8'], BY[k]], tail='sized2')
def arr(n):
    return F(f'arr{n}', f'[u8; {n}]', n, k='K::Arr', mk='a($)')
enumerate_defs()

def src(d, length=None, ind=''):
    """The definition as a user writes it."""
    size = sum(f.size for f in d['fields'])
    lit = (lambda x: hex(x)) if d['hexa'] else str
    at = [f'class = {lit(d["cls"])}', f'id = {lit(d["id"])}']
    if d['tail']:
        at.append(f'max_payload_len = {d["maxlen"] or size + 60}' if length is None else length)
    else:
        at.append(f'fixed_payload_len = {size}' if length is None else length)
    if d['default']:
        at.append('flags = "default_for_builder"')
    at = list(list(itertools.permutations(at))[d['order'] % [1, 1, 2, 6, 24][len(at)]])
    o = ['#[ubx_packet_recv_send]' if d['send'] else '#[ubx_packet_recv]', f'#[ubx({", ".join(at)})]', f'struct {d["name"]} {{']
    for i, f in enumerate(d['fields']):
        if f.attr:
            o.append(f'    #[ubx({f.attr.replace("@", f"alias_{i}")})]')
        o.append(f'    f{i}: {f.ty},')
    o += {None: [], 'raw': ['    tail: [u8; 0],'],
          'it': ['    #[ubx(map_type = It, from = It::new)]', '    tail: [u8; 0],'],
          'itf': ['    #[ubx(map_type = It, from = It::new, is_valid = It::ok, may_fail)]', '    tail: [u8; 0],'],
          'sized': ['    #[ubx(map_type = It, from = It::new, size_fn = n0)]', '    tail: [u8; 0],'],
          'sized2': ['    #[ubx(map_type = It, from = It::new, size_fn = n0)]', '    tail: [u8; 0],', '    #[ubx(map_type = Option<u16>, from = opt16, size_fn = n1)]', '    tail2: [u8; 0],']}[d['tail']]
    return [ind + x for x in o + ['}']]

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, clippy::all)]
use super::*;
#[derive(Clone, Debug, PartialEq)]
pub enum V { U(u64), I(i64), F(f64), F32(f32), B(Vec<u8>), S(String), N }
pub trait ToV { fn v(self) -> V; }
macro_rules! tov { ($($t:ty, $k:ident, $w:ty);*) => { $(impl ToV for $t { fn v(self) -> V { V::$k(self as $w) } })* } }
tov!(u8, U, u64; u16, U, u64; u32, U, u64; i8, I, i64; i16, I, i64; i32, I, i64; f64, F, f64; f32, F32, f32);
impl<const N: usize> ToV for [u8; N] { fn v(self) -> V { V::B(self.to_vec()) } }
impl ToV for &[u8] { fn v(self) -> V { V::B(self.to_vec()) } }
impl ToV for &str { fn v(self) -> V { V::S(self.into()) } }
impl ToV for It<'_> { fn v(self) -> V { V::B(self.0.to_vec()) } }
impl ToV for Option<u16> { fn v(self) -> V { match self { Some(x) => V::U(x as u64), None => V::N } } }
#[derive(Clone, Debug)]
pub struct It<'a>(&'a [u8]);
impl<'a> It<'a> {
    fn new(b: &'a [u8]) -> Self { It(b) }
    fn ok(b: &'a [u8]) -> bool { b.len() % 3 == 0 }
}
impl<'a> Iterator for It<'a> { type Item = u8; fn next(&mut self) -> Option<u8> { None } }
fn opt16(b: &[u8]) -> Option<u16> { if b.len() == 2 { Some(b[0] as u16 | (b[1] as u16) << 8) } else { None } }
fn txt(b: &[u8]) -> &str { std::str::from_utf8(b).unwrap() }
fn txt_ok(b: &[u8]) -> bool { std::str::from_utf8(b).is_ok() }
macro_rules! wrap { ($n:ident $t:ty) => {
    #[derive(Clone, Copy, Debug, Default)]
    #[cfg_attr(feature = "serde", derive(serde::Serialize))]
    pub struct $n($t);
    impl $n {
        const fn mk(x: $t) -> Self { $n(!x) }
        const fn un(self) -> $t { !self.0 }
        const fn ok(x: $t) -> bool { x & 0x21 != 0x21 }
    }
    impl ToV for $n { fn v(self) -> V { V::U((!self.0) as u64) } }
} }
wrap!(Wu8 u8);
wrap!(Wu16 u16);
wrap!(Wu32 u32);
fn a<const N: usize>(b: &[u8]) -> [u8; N] { let mut o = [0; N]; o.copy_from_slice(&b[..N]); o }

pub enum K { U, I, F, Arr, S(f64, bool, bool), Txt }
pub enum Fail { No, W, E(usize), T }
pub struct Fd { name: &'static str, off: usize, size: usize, k: K, raw: bool, fail: Fail }
#[derive(PartialEq, Clone, Copy)]
pub enum Tail { No, Raw, It, Itf, Sized, Sized2 }
pub struct D {
    name: &'static str, class: u8, id: u8, size: usize, tail: Tail,
    meta: (u8, u8, Option<u16>, u16), max: u16,
    fields: &'static [Fd],
    parse: fn(&[u8]) -> Result<Vec<V>, ()>,
    build: Option<fn(&[u8]) -> [Vec<u8>; 3]>,
    default: Option<fn() -> Vec<u8>>,
}
pub static ERR: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
fn fail(m: String) {
    let mut e = ERR.lock().unwrap();
    if e.len() < 20 { e.push(m); }
}
fn ru(b: &[u8]) -> u64 { b.iter().rev().fold(0, |x, y| x << 8 | *y as u64) }
fn ri(b: &[u8]) -> i64 { let s = 64 - 8 * b.len() as u32; ((ru(b) << s) as i64) >> s }
fn fr(class: u8, id: u8, p: &[u8]) -> Vec<u8> {
    let mut o = vec![0xb5, 0x62, class, id, p.len() as u8, (p.len() >> 8) as u8];
    o.extend_from_slice(p);
    let (mut x, mut y) = (0u8, 0u8);
    for c in &o[2..] { x = x.wrapping_add(*c); y = y.wrapping_add(x); }
    o.push(x); o.push(y); o
}
impl Fd {
    fn valid(&self, b: &[u8]) -> bool {
        match self.fail {
            Fail::No => true,
            Fail::W => b[0] & 0x21 != 0x21,
            Fail::E(e) => ENUMS[e].1.iter().any(|x| x.1 == b[0]),
            Fail::T => std::str::from_utf8(b).is_ok(),
        }
    }
    fn is_raw(&self, b: &[u8], v: &V) -> bool {
        match (&self.k, v) {
            (K::U, V::U(x)) => *x == ru(b),
            (K::I, V::I(x)) => *x == ri(b),
            (K::S(_, _, true), V::I(x)) => *x == ri(b),
            (K::S(_, _, false), V::U(x)) => *x == ru(b),
            (K::F, V::F(x)) => x.to_bits() == ru(b),
            (K::F, V::F32(x)) => x.to_bits() as u64 == ru(b),
            (K::Arr | K::Txt, V::B(x)) => x == b,
            _ => false,
        }
    }
    fn is(&self, b: &[u8], v: &V) -> bool {
        match (&self.k, v) {
            (K::S(s, single, signed), v) => {
                let w = if *signed { ri(b) as f64 } else { ru(b) as f64 } * s;
                match v {
                    V::F(x) => !single && (x - w).abs() <= w.abs() * 1e-14,
                    V::F32(x) => *single && (*x as f64 - w).abs() <= w.abs() * 3e-7,
                    _ => false,
                }
            },
            (K::Txt, V::S(x)) => x.as_bytes() == b,
            (_, v) => self.is_raw(b, v),
        }
    }
}
fn pat(n: u64, k: usize) -> u8 {
    match n { 0 => 0, 1 => 0xff, 2 => (k as u8).wrapping_mul(0x35).wrapping_add(0x11), _ => ((k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15 ^ n.wrapping_mul(0xd6e8_feb8_6659_fd93)) >> 41) as u8 }
}
fn tail_need(d: &D, p: &[u8]) -> usize {
    match d.tail {
        Tail::No | Tail::Raw | Tail::It | Tail::Itf => 0,
        Tail::Sized => (p[0] & 7) as usize,
        Tail::Sized2 => (p[0] & 7) as usize + if p[0] & 8 != 0 { 2 } else { 0 },
    }
}
fn expect_ok(d: &D, p: &[u8]) -> bool {
    if d.tail == Tail::No && p.len() != d.size || p.len() < d.size { return false; }
    p.len() >= d.size + tail_need(d, p) && d.fields.iter().all(|f| f.valid(&p[f.off..f.off + f.size])) && (d.tail != Tail::Itf || (p.len() - d.size) % 3 == 0)
}
fn judge(d: &D, p: &[u8]) {
    let got = (d.parse)(p);
    let want = expect_ok(d, p);
    let v = match (got, want) {
        (Err(()), false) => return,
        (Ok(v), true) => v,
        (g, _) => return fail(format!("{} ({}): payload {p:02x?} is {}", d.name, d.name, if g.is_ok() { "accepted, it must not be" } else { "refused, it is valid" })),
    };
    let mut k = 0;
    for f in d.fields {
        let b = &p[f.off..f.off + f.size];
        if !f.is(b, &v[k]) { return fail(format!("{}: {}() is {:?}, its bytes are {b:02x?} at {}", d.name, f.name, v[k], f.off)); }
        k += 1;
        if f.raw {
            if !f.is_raw(b, &v[k]) { return fail(format!("{}: {}_raw() is {:?}, its bytes are {b:02x?} at {}", d.name, f.name, v[k], f.off)); }
            k += 1;
        }
    }
    let t = &p[d.size.min(p.len())..];
    let want: Vec<V> = match d.tail {
        Tail::No => vec![],
        Tail::Raw | Tail::It | Tail::Itf => vec![V::B(t.to_vec())],
        Tail::Sized => vec![V::B(t[..(p[0] & 7) as usize].to_vec())],
        Tail::Sized2 => {
            let n = (p[0] & 7) as usize;
            vec![V::B(t[..n].to_vec()), if p[0] & 8 != 0 { V::U(ru(&t[n..n + 2])) } else { V::N }]
        },
    };
    if v[k..] != want[..] { fail(format!("{}: the last parts are {:?}, expected {want:?}; payload {p:02x?}", d.name, &v[k..])); }
}
fn judge_built(d: &D, p: &[u8]) {
    let Some(build) = d.build else { return };
    if !d.fields.iter().all(|f| f.valid(&p[f.off..f.off + f.size])) { return; }
    let want = fr(d.class, d.id, p);
    for (k, g) in build(p).iter().enumerate() {
        if *g != want { return fail(format!("{}Builder: way {k} emits {g:02x?}, expected {want:02x?}", d.name)); }
    }
}
fn run_def(d: &D, evals: &mut u64) {
    let fixed = if d.tail == Tail::No { Some(d.size as u16) } else { None };
    if d.meta != (d.class, d.id, fixed, d.max) { fail(format!("{} is declared {:?}, expected {:?}", d.name, d.meta, (d.class, d.id, fixed, d.max))); }
    let all = d.size <= 300;
    for bg in BACKGROUNDS {
        // every length around the defined one
        for n in 0..(d.size + 20).min(400) {
            let p: Vec<u8> = (0..n).map(|k| pat(bg, k)).collect();
            judge(d, &p);
            *evals += 1;
        }
        for extra in if d.tail == Tail::No { vec![0] } else { vec![0usize, 3, 9] } {
            let mut p: Vec<u8> = (0..d.size + extra).map(|k| pat(bg, k)).collect();
            for f in d.fields {
                if !f.valid(&p[f.off..f.off + f.size]) {
                    for x in &mut p[f.off..f.off + f.size] { *x = 0; }
                    match f.fail { Fail::E(e) => p[f.off] = ENUMS[e].1[0].1, _ => {} }
                }
            }
            for at in 0..p.len() {
                let old = p[at];
                for x in if all { 0..=255u8 } else { 0..=3 } {
                    p[at] = x;
                    judge(d, &p);
                    if extra == 0 && d.tail == Tail::No { judge_built(d, &p); }
                    *evals += 1;
                }
                p[at] = old;
            }
        }
    }
    if let Some(f) = d.default {
        // the default of every field is the value of its zero bytes, or its type's default
        let want = fr(d.class, d.id, &vec![0; d.size]);
        let mut got = f();
        if d.fields.iter().any(|f| !matches!(f.k, K::U | K::I | K::F | K::Arr | K::S(..)) ) { got = want.clone(); }
        if got != want { fail(format!("{}Builder::default() emits {got:02x?}, expected {want:02x?}", d.name)); }
        *evals += 1;
    }
}
'''

def emit_good():
    o = [PRELUDE, f'const BACKGROUNDS: [u64; {5 if DEEP else 3}] = [{"0, 1, 2, 7, 8" if DEEP else "0, 1, 7"}];']
    for name, vs, reserved in ENUMS:
        at = 'from, rest_reserved, into_raw' if reserved else 'from_unchecked, rest_error, into_raw'
        o.append(f'#[ubx_extend]\n#[ubx({at})]\n#[repr(u8)]\n#[derive(Debug, Copy, Clone, PartialEq, Eq)]\npub enum {name} {{ ' + ', '.join(f'{v} = {hex(x) if x % 2 else x}' for v, x in vs) + ' }')
        o.append(f'impl ToV for {name} {{ fn v(self) -> V {{ V::U(self as u8 as u64) }} }}')
        if any(f.attr and f'map_type = {name}' in f.attr for f in KINDS):
            o.append(f'impl Default for {name} {{ fn default() -> Self {{ {name}::{vs[0][0]} }} }}')
    o.append('pub static ENUMS: &[(&str, &[(&str, u8)], bool, fn(u8) -> Option<(String, u8)>)] = &[')
    for name, vs, reserved in ENUMS:
        body = f'let e = {name}::from(x); Some((format!("{{e:?}}"), e.into_raw()))' if reserved else f'if {name}::is_valid(x) {{ let e = {name}::from_unchecked(x); Some((format!("{{e:?}}"), e.into_raw())) }} else {{ None }}'
        o.append(f'    ("{name}", &[' + ', '.join(f'("{v}", {x})' for v, x in vs) + f'], {str(reserved).lower()}, |x| {{ {body} }}),')
    o.append('];')
    for name, ty, cs in FLAGS:
        o.append('#[ubx_extend_bitflags]\n#[ubx(from, into_raw, rest_reserved)]\nbitflags! {\n    #[derive(Default, Debug, Clone, Copy)]\n    pub struct ' + f'{name}: {ty} {{ ' + ' '.join(f'const {c} = {hex(1 << b) if b % 3 else 1 << b};' for c, b in cs) + ' }\n}')
        o.append(f'impl ToV for {name} {{ fn v(self) -> V {{ V::U(self.bits() as u64) }} }}')
    o.append('pub static FLAGS: &[(&str, u32, &[(&str, u64, u64)], fn(u32) -> (u64, u64))] = &[')
    for name, ty, cs in FLAGS:
        o.append(f'    ("{name}", {8 * INTS[ty][0]}, &[' + ', '.join(f'("{c}", {1 << b}, {name}::{c}.bits() as u64)' for c, b in cs) + f'], |x| {{ let f = {name}::from(x as {ty}); (f.bits() as u64, f.into_raw() as u64) }}),')
    o.append('];')
    for d in DEFS:
        o += src(d)
        n = d['name']
        if d['tail'] in ('sized', 'sized2'):
            o.append(f'impl<\'a> {n}Ref<\'a> {{ fn n0(&self) -> usize {{ (self.f0() & 7) as usize }} fn n1(&self) -> usize {{ if self.f0() & 8 != 0 {{ 2 }} else {{ 0 }} }} }}')
    o.append('pub static DEFS: &[D] = &[')
    for d in DEFS:
        o.append('    ' + descr(d))
    o.append('];')
    o.append(dispatch_modules())
    o.append(MAIN)
    return '\n'.join(o)

def descr(d, prefix=''):
    off, fs, get, mk = 0, [], [], []
    for i, f in enumerate(d['fields']):
        nm = f'alias_{i}' if f.alias else f'f{i}'
        fail = 'No'
        if f.may_fail:
            fail = {'w': 'W', 't': 'T'}.get(f.may_fail) or f'E({f.may_fail[1:]})'
        fs.append(f'Fd {{ name: "{nm}", off: {off}, size: {f.size}, k: {f.k}, raw: {str(f.raw).lower()}, fail: Fail::{fail} }}')
        get.append(f'r.{nm}().v()')
        if f.raw:
            get.append(f'r.{nm}_raw().v()')
        mk.append(f'{nm}: {f.mk.replace("$", f"p[{off}..{off + f.size}]" if f.mk.startswith(("EE", "EG", "EO")) else f"&p[{off}..{off + f.size}]")}')
        off += f.size
    if d['tail']:
        get.append('r.tail().v()')
    if d['tail'] == 'sized2':
        get.append('r.tail2().v()')
    n = prefix + d['name']
    parse = f'|p| {{ {n}Ref::validate(p).map_err(|_| ())?; let r = {n}Ref(p); Ok(vec![{", ".join(get)}]) }}'
    build = 'None'
    if d['send']:
        one = f'{n}Builder {{ {", ".join(mk)} }}'
        build = f'Some(|p| {{ let b = || {one}; let mut w: Vec<u8> = vec![]; b().create_packet(&mut w).unwrap(); let c: [u8; {off + 8}] = b().into(); [b().into_packet_bytes().to_vec(), c.to_vec(), w] }})'
    default = f'Some(|| {n}Builder::default().into_packet_bytes().to_vec())' if d['default'] and not any('E' == f.kind[0] or 'w' in f.kind for f in d['fields']) else 'None'
    tail = {None: 'No', 'raw': 'Raw', 'it': 'It', 'itf': 'Itf', 'sized': 'Sized', 'sized2': 'Sized2'}[d['tail']]
    mx = off if not d['tail'] else d['maxlen'] or off + 60
    return (f'D {{ name: "{n}", class: {d["cls"]}, id: {d["id"]}, size: {off}, tail: Tail::{tail}, meta: (<{n} as UbxPacketMeta>::CLASS, <{n} as UbxPacketMeta>::ID, <{n} as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <{n} as UbxPacketMeta>::MAX_PAYLOAD_LEN), max: {mx}, '
            f'fields: &[{", ".join(fs)}], parse: {parse}, build: {build}, default: {default} }},')

NMOD = 0
def dispatch_modules():
    """Lists of packets: shared class and id, overlapping definitions, every order of listing."""
    global NMOD
    P = {  # name: (class, id, fields, tail, maxlen)
        'A': (1, 1, ['u8', 'u8'], None, None),           # two bytes
        'B': (1, 1, ['EGapF', 'u8'], None, None),        # two bytes, first restricted
        'C': (1, 1, ['u8'], 'raw', 900),                 # one byte and more
        'E': (1, 2, ['u16', 'u32', 'u32'], None, None),
        'G': (2, 1, ['u8', 'EEdgeF'], 'raw', 8000),
        'H': (255, 255, ['arr5'], None, None),
    }
    lists = [list(p) for p in itertools.permutations('ABC')] + [list(p) for p in itertools.permutations('BEGH')] + [[x] for x in P] + [list('ABCEGH'), list('HGECBA')]
    if DEEP:
        lists += [list(p) for n in (2, 4, 5) for p in itertools.permutations('ABCEGH', n)][:240]
    o = []
    for i, l in enumerate(lists):
        o.append(f'pub mod m{i} {{\n    use super::*;')
        for x in l:
            c, d, fs, t, mx = P[x]
            dd = dict(name=x, fields=[BY[f] for f in fs], cls=c, id=d, tail=t, order=0, default=False, hexa=False, send=False, maxlen=mx)
            o += src(dd, ind='    ')
        o.append('    define_recv_packets!(\n        enum Any {\n            _ = UbxUnknownPacketRef,\n            ' + ', '.join(l) + '\n        }\n    );')
        o.append('    pub fn go(c: u8, i: u8, p: &[u8]) -> (char, (u8, u8), Vec<u8>, String) {\n        let m = match_packet(c, i, p).unwrap();\n        let w = m.class_and_msg_id();\n        let t = format!("{m:?}");\n        match m {')
        for x in l:
            o.append(f"            Any::{x}(r) => ('{x}', w, r.as_bytes().to_vec(), t),")
        o.append("            Any::Unknown(u) => ('?', (u.class, u.msg_id), u.payload.to_vec(), t),\n        }\n    }\n    pub const MAX: u16 = MAX_PAYLOAD_LEN;\n}")
    NMOD = len(lists)
    sizes = {k: sum(BY[f].size for f in v[2]) for k, v in P.items()}
    o.append('pub static MODS: &[(&str, u16, u16, fn(u8, u8, &[u8]) -> (char, (u8, u8), Vec<u8>, String))] = &[')
    for i, l in enumerate(lists):
        mx = max((P[x][4] or sizes[x]) for x in l)
        o.append(f'    ("{"".join(l)}", {mx}, m{i}::MAX, m{i}::go),')
    o.append('];')
    gi = next(i for i, x in enumerate(ENUMS) if x[0] == 'EGapF')
    ei = next(i for i, x in enumerate(ENUMS) if x[0] == 'EEdgeF')
    o.append(f'''fn fits(n: char, c: u8, i: u8, p: &[u8]) -> bool {{
    let e = |k: usize, x: u8| ENUMS[k].1.iter().any(|v| v.1 == x);
    match n {{
        'A' => (c, i) == (1, 1) && p.len() == 2,
        'B' => (c, i) == (1, 1) && p.len() == 2 && e({gi}, p[0]),
        'C' => (c, i) == (1, 1) && p.len() >= 1,
        'E' => (c, i) == (1, 2) && p.len() == 10,
        'G' => (c, i) == (2, 1) && p.len() >= 2 && e({ei}, p[1]),
        'H' => (c, i) == (255, 255) && p.len() == 5,
        _ => false,
    }}
}}''')
    return '\n'.join(o)

MAIN = r'''
pub fn run() -> (u64, u64, Vec<String>) {
    let mut evals = 0u64;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::atomic::AtomicU64::new(0);
    let res = std::panic::catch_unwind(|| {
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    let mut n = 0;
                    loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let Some(d) = DEFS.get(k) else { break };
                        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_def(d, &mut n))).is_err() { fail(format!("{}: the generated code panics", d.name)); }
                    }
                    total.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                });
            }
        });
        let mut n = 0u64;
        for (name, vs, reserved, f) in ENUMS {
            for x in 0..=255u8 {
                n += 1;
                let got = f(x);
                let known = vs.iter().find(|v| v.1 == x);
                let ok = match (&got, known) {
                    (Some((t, r)), Some((w, _))) => t == w && *r == x,
                    (Some((t, r)), None) => *reserved && *r == x && vs.iter().all(|v| v.0 != t),
                    (None, None) => !reserved,
                    (None, Some(_)) => false,
                };
                if !ok { fail(format!("{name}: {x} decodes to {got:?}, defined as {known:?}")); }
            }
        }
        for (name, bits, cs, f) in FLAGS {
            for (c, w, g) in cs.iter() {
                if w != g { fail(format!("{name}::{c} is {g:#x}, expected {w:#x}")); }
            }
            let m = if *bits == 32 { !0 } else { (1u32 << bits) - 1 };
            let one = |x: u32| if f(x) != (x as u64, x as u64) { fail(format!("{name}: {x:#x} becomes {:x?}", f(x))); };
            if *bits <= 16 { for x in 0..=m { one(x); n += 1; } }
            else { for i in 0..32 { for j in 0..32 { for k in 0..2 { one((1 << i | 1 << j) ^ if k == 1 { m } else { 0 }); n += 1; } } } }
        }
        for (l, max, got, go) in MODS {
            if max != got { fail(format!("list {l}: the largest payload is {got}, expected {max}")); }
            let mut one = |c: u8, i: u8, p: &[u8]| {
                n += 1;
                let want = l.chars().find(|x| fits(*x, c, i, p)).unwrap_or('?');
                let (g, w, b, t) = go(c, i, p);
                if g != want || w != (c, i) || b != p { fail(format!("list {l}: class {c} id {i} payload {p:02x?} becomes {g} {w:?} {b:02x?} ({t}), expected {want}")); }
            };
            for c in 0..=255u8 { for i in 0..=255u8 { for p in [&[][..], &[1, 2], &[3, 4, 5, 6, 7]] { if c < 4 && i < 4 || p.len() == 5 || c == 255 { one(c, i, p); } } } }
            for (c, i) in [(1, 1), (1, 2), (2, 1), (255, 255), (1, 0)] {
                for n in 0..24usize { for bg in [0u64, 1, 2, 7] { one(c, i, &(0..n).map(|k| pat(bg, k)).collect::<Vec<_>>()); } }
                for x in 0..=255u8 { for y in [0u8, 1, 2, 127, 128, 129, 254, 255] { one(c, i, &[x, y]); one(c, i, &[y, x]); one(c, i, &[x, y, 3]); } }
            }
        }
        n
    });
    match res {
        Ok(n) => evals += n,
        Err(_) => fail("the generated code panics".into()),
    }
    (evals + total.load(std::sync::atomic::Ordering::Relaxed), DEFS.len() as u64, ERR.lock().unwrap().clone())
}
'''

# ---------------------------------------------------------------- definitions which are inconsistent
def bad_defs():
    """(what, source lines)"""
    o = []
    def pk(what, attrs, body, mac='#[ubx_packet_recv]'):
        o.append((what, [mac] + attrs + body))
    # wrong total lengths of every definition
    deltas = sorted(set(range(-8, 9)) | {-16, 16, 255, 256, -255, -256}) if DEEP else [-8, -4, -2, -1, 1, 2, 4, 8, 256]
    for d in DEFS:
        size = sum(f.size for f in d['fields'])
        if d['tail']:
            for n in (0, size, size + 1):
                o.append((f'{d["name"]}: unsized with fixed length {n}', src(d, f'fixed_payload_len = {n}')))
            continue
        for n in sorted({size + x for x in deltas} | {0, 2 * size, 65535}):
            if 0 <= n <= 65535 and n != size:
                o.append((f'{d["name"]} ({", ".join(f.kind for f in d["fields"])}): length {n} instead of {size}', src(d, f'fixed_payload_len = {n}')))
        for n in (size, size + 60):
            o.append((f'{d["name"]}: sized with max_payload_len {n}', src(d, f'max_payload_len = {n}')))
    macs = ['#[ubx_packet_recv]', '#[ubx_packet_send]', '#[ubx_packet_recv_send]']
    body = ['struct X {', '    a: u8,', '    b: u16,', '}']
    good = {'class': 'class = 1', 'id': 'id = 2', 'len': 'fixed_payload_len = 3', 'flags': 'flags = "default_for_builder"'}
    for mac in macs:
        pk('no ubx attribute', [], body, mac)
        pk('bare ubx attribute', ['#[ubx]'], body, mac)
        pk('ubx = value', ['#[ubx = "x"]'], body, mac)
        pk('empty ubx attribute', ['#[ubx()]'], body, mac)
        for miss in ('class', 'id', 'len'):
            for perm in itertools.permutations([v for k, v in good.items() if k != miss]):
                pk(f'no {miss}', [f'#[ubx({", ".join(perm)})]'], body, mac)
        for twice, other in [(k, v) for k in good for v in {'class': ('class = 1', 'class = 9'), 'id': ('id = 2', 'id = 0'), 'len': ('fixed_payload_len = 3', 'fixed_payload_len = 4', 'max_payload_len = 3', 'max_payload_len = 30'), 'flags': ('flags = "default_for_builder"',)}[k]]:
            base = list(good.values())
            for at in range(5):
                l = base[:at] + [other] + base[at:]
                pk(f'duplicate {twice}', [f'#[ubx({", ".join(l)})]'], body, mac)
        for k, bad in [('class', x) for x in ('256', '-1', '"1"', '1.0', "'a'", 'true', '0x100')] + [('id', x) for x in ('256', '"2"', '2.0', '65536', '0xfff')] + [('fixed_payload_len', x) for x in ('65536', '"3"', '3.0', '65539')] + [('flags', x) for x in ('1', '"other"', '"default_for_builder other"', '"Default_For_Builder"')] + [('max_payload_len', '65536'), ('other', '1'), ('clas', '1'), ('Class', '1'), ('length', '3')]:
            key = 'len' if k.endswith('payload_len') else k
            l = [v for q, v in good.items() if q != key] + [f'{k} = {bad}']
            pk(f'{k} = {bad}', [f'#[ubx({", ".join(l)})]'], body, mac)
        pk('flag list', ['#[ubx(class = 1, id = 2, fixed_payload_len = 3, default_for_builder)]'], body, mac)
        pk('nested list', ['#[ubx(class(1), id = 2, fixed_payload_len = 3)]'], body, mac)
        for ty in ('u64', 'i64', 'u128', 'i128', 'bool', 'char', 'usize', 'isize', 'String', '()', '(u8, u8)', 'Vec<u8>', 'Option<u8>', '[i8; 3]', '[u16; 2]', '[f32; 2]', '[[u8; 2]; 2]', '[u8; N]', '[u8; 1 + 2]', '[bool; 3]', '*const u8', 'fn(u8) -> u8', 'U8', 'core::primitive::u8', '[u8]'):
            n = {'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16, 'usize': 8, 'isize': 8, 'char': 4, '(u8, u8)': 2, '[i8; 3]': 3, '[u16; 2]': 4, '[f32; 2]': 8, '[[u8; 2]; 2]': 4, '[u8; N]': 3, '[u8; 1 + 2]': 3, '[bool; 3]': 3}.get(ty, 1)
            for fields, total in (([ty], n), (['u8', ty], n + 1), ([ty, 'u16'], n + 2)):
                b = ['struct X {'] + [f'    f{i}: {t},' for i, t in enumerate(fields)] + ['}']
                pk(f'field type {ty}', [f'#[ubx(class = 1, id = 2, fixed_payload_len = {total})]'], b, mac)
                pk(f'field type {ty}', [f'#[ubx(class = 1, id = 2, max_payload_len = {total})]'], b, mac)
        for ty in ('[u8; 0]', '&[u8]', "&'a [u8]", '&str'):
            for at in range(3):
                for total in (3, 2, 100):
                    f = ['u8', 'u16']
                    f.insert(at, ty)
                    if at == 2:
                        f.append('u8')
                    b = ['struct X {'] + [f'    f{i}: {t},' for i, t in enumerate(f)] + ['}']
                    pk(f'unsized field {at} of {len(f)}', [f'#[ubx(class = 1, id = 2, max_payload_len = {total})]'], b, mac)
                    pk(f'unsized field {at} of {len(f)}', [f'#[ubx(class = 1, id = 2, fixed_payload_len = {total})]'], b, mac)
            pk('two unsized fields', ['#[ubx(class = 1, id = 2, max_payload_len = 100)]'], ['struct X {', '    a: u8,', f'    b: {ty},', f'    c: {ty},', '}'], mac)
        pk('tuple struct', ['#[ubx(class = 1, id = 2, fixed_payload_len = 3)]'], ['struct X(u8, u16);'], mac)
        pk('unit struct', ['#[ubx(class = 1, id = 2, fixed_payload_len = 0)]'], ['struct X;'], mac)
        pk('an enum', ['#[ubx(class = 1, id = 2, fixed_payload_len = 1)]'], ['enum X { A = 1 }'], mac)
        pk('a union', ['#[ubx(class = 1, id = 2, fixed_payload_len = 1)]'], ['union X { a: u8 }'], mac)
        for at in ('other', 'map_type', 'map_type =', 'scale = 1', 'scale = "1e-2"', 'alias = 5', 'map_type = f64 scale: 2.0', 'may_fail = 1x', 'size_fn', 'from', 'is_valid = ', 'into =', 'get_as_ref = true, other'):
            pk(f'field attribute {at}', ['#[ubx(class = 1, id = 2, fixed_payload_len = 3)]'], ['struct X {', f'    #[ubx({at})]', '    a: u8,', '    b: u16,', '}'], mac)
        for x, y in (('map_type = f64, scale = 1e-2', 'alias = q'), ('alias = q', 'map_type = f64'), ('scale = 1e-2', 'scale = 1e-3'), ('alias = q', 'alias = r')):
            pk('two map attributes', ['#[ubx(class = 1, id = 2, fixed_payload_len = 3)]'], ['struct X {', f'    #[ubx({x})]', f'    #[ubx({y})]', '    a: u8,', '    b: u16,', '}'], mac)
        for ty, n in (('u8', 1), ('i16', 2), ('u32', 4), ('f32', 4), ('f64', 8), ('[u8; 4]', 4)):
            pk(f'{ty} mapped to itself', [f'#[ubx(class = 1, id = 2, fixed_payload_len = {n})]'], ['struct X {', f'    #[ubx(map_type = {ty})]', f'    a: {ty},', '}'], mac)
    # enumerations
    def en(what, at, rep, body, name='enum'):
        o.append((what, ['#[ubx_extend]'] + ([f'#[ubx({at})]'] if at is not None else []) + ([f'#[repr({rep})]'] if rep is not None else []) + body))
    ok = ['enum X { A = 1, B = 2 }']
    for at in ('from, rest_reserved', 'from_unchecked, rest_error', 'from, rest_reserved, into_raw', 'from_unchecked, rest_error, into_raw'):
        en('no repr', at, None, ok)
        for rep in ('u16', 'i8', 'C', 'u8, C', '', 'transparent', 'align(1)', 'u32'):
            en(f'repr({rep})', at, rep, ok)
        for b in ('A, B = 2', 'A = 1, B', 'A', 'A = 256', 'A = 1, B = 300', 'A = -1', 'A = 1 + 1', 'A = N', 'A = "1"', "A = b'a'", 'A = 1.0', 'A(u8) = 1', 'A { x: u8 } = 1', 'A = 1, B(u8)', 'A = true', 'A = 0x100'):
            en(f'variants {b}', at, 'u8', [f'enum X {{ {b} }}'])
        en('a struct', at, 'u8', ['struct X { a: u8 }'])
        en('a union', at, 'u8', ['union X { a: u8 }'])
        for extra in ('rest_reserved', 'rest_error', 'other', 'from = 1', '"from"', 'into'):
            en(f'attributes {at}, {extra}', f'{at}, {extra}', 'u8', ok)
            en(f'attributes {extra}, {at}', f'{extra}, {at}', 'u8', ok)
    en('no ubx attribute', None, 'u8', ok)
    en('from with rest_error', 'from, rest_error', 'u8', ok)
    en('rest_error with from', 'rest_error, from', 'u8', ok)
    en('from_unchecked with rest_reserved', 'from_unchecked, rest_reserved', 'u8', ok)
    o.append(('bare ubx', ['#[ubx_extend]', '#[ubx]', '#[repr(u8)]'] + ok))
    o.append(('ubx = value', ['#[ubx_extend]', '#[ubx = "from"]', '#[repr(u8)]'] + ok))
    # flag sets
    def fl(what, at, ty, consts, mac='bitflags!'):
        o.append((what, ['#[ubx_extend_bitflags]'] + ([f'#[ubx({at})]'] if at is not None else []) + [f'{mac} {{', f'    pub struct X: {ty} {{', f'        {consts}', '    }', '}']))
    OK = 'from, into_raw, rest_reserved'
    for ty, n in (('u8', 8), ('u16', 16), ('u32', 32)):
        for v in range(0, 1 << (8 if ty == 'u8' or DEEP else 6)):
            if v & (v - 1) or v == 0:
                fl(f'{ty} flag {v}', OK, ty, f'const A = {v};')
                if v < 16:
                    fl(f'{ty} flag {v} of two', OK, ty, f'const A = 32; const B = {hex(v)};')
                    fl(f'{ty} flag {v} of two', OK, ty, f'const B = {hex(v)}; const A = 32;')
        for b in range(n, 64):
            fl(f'{ty} flag bit {b}', OK, ty, f'const A = {hex(1 << b)};')
        for b in range(n):
            fl(f'{ty} flag bit {b} and lower', OK, ty, f'const A = {hex((1 << b) | 1) if b else 3};')
            fl(f'{ty} flag {b} twice', OK, ty, f'const A = {1 << b}; const B = {1 << b};')
        for at in ('from, into_raw', 'from, into_raw, rest_error', 'rest_error', '', 'into_raw', 'from', 'from_unchecked, rest_reserved', 'from, rest_reserved, rest_error', 'from, rest_reserved, rest_reserved', 'rest_reserved, other', 'from_unchecked, rest_error'):
            fl(f'attributes {at}', at, ty, 'const A = 1;')
        fl('no ubx attribute', None, ty, 'const A = 1;')
        for c in ('const A = 1 << 0;', 'const A = 0b1 | 2;', 'const A = "1";', 'const A;', 'A = 1;', 'const A = 1', ):
            if c != 'const A = 1':
                fl(f'constants {c}', OK, ty, c)
        fl('another macro', OK, ty, 'const A = 1;', 'vec!')
    for ty in ('u64', 'u128', 'i8', 'i16', 'i32', 'usize', 'bool', 'f32', '[u8; 2]'):
        fl(f'repr {ty}', OK, ty, 'const A = 1;')
    # the list of received packets
    for b in ('enum P { A, B }', 'enum P { _ = U }', 'enum P { _ = U A, B }', 'struct P { _ = U, A }', 'enum P { A, _ = U }', 'enum P { _ = , A }', 'enum P { U, A, B', 'enum { _ = U, A }', 'enum P { _ = U, A B }', 'enum P { _ = U, 5 }', ''):
        if b.count('{') == b.count('}'):
            o.append((f'list {b}', [f'define_recv_packets!({b});']))
    return o

# ---------------------------------------------------------------- running
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))

def cargo(*args):
    env = {k: v for k, v in os.environ.items() if k not in ('CARGO_TARGET_DIR', 'RUSTFLAGS')}
    env.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    p = subprocess.run(['cargo', *args, '--offline', '--message-format=json'], cwd=WORK, env=env, capture_output=True, text=True, preexec_fn=limit)
    msgs = []
    for l in p.stdout.splitlines():
        try:
            msgs.append(json.loads(l))
        except ValueError:
            pass
    return p.returncode, msgs, p.stderr

def errors(msgs):
    return [m['message'] for m in msgs if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error']

def lines_of(msg, name):
    """Line numbers in the file `name` a message points to, through macro expansions too."""
    out = set()
    def span(s):
        while s:
            if s['file_name'].endswith(name):
                out.update(range(s['line_start'], s['line_end'] + 1))
            s = (s.get('expansion') or {}).get('span')
    for s in msg['spans']:
        span(s)
    for c in msg.get('children', []):
        out |= lines_of(c, name)
    return out

def prepare():
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(f'{REPO}/ublox/src/ubx_packets/packets.rs'):
        print('C21: the packet definitions have moved', file=sys.stderr)
        sys.exit(2)
    for base, _, fs in os.walk(f'{REPO}/ublox/src'):
        for f in fs:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, f'{REPO}/ublox/src')
            with open(p) as h:
                t = h.read()
            if rel == 'ubx_packets/packets.rs':
                t += '\n#[path = "vc.rs"]\npub mod vc;\n'
            if rel == 'lib.rs':
                t += '\npub fn vc_run() -> (u64, u64, Vec<String>) { ubx_packets::vc::run() }\n'
            write(f'{WORK}/ubx/src/{rel}', t)
    import tomllib
    with open(f'{REPO}/ublox/Cargo.toml', 'rb') as f:
        c = tomllib.load(f)
    deps = []
    for k, v in c['dependencies'].items():
        v = {'version': v} if isinstance(v, str) else dict(v)
        if 'path' in v:
            v = {'path': os.path.normpath(os.path.join(REPO, 'ublox', v['path']))}
        deps.append(f'{k} = {{ ' + ', '.join(f'{a} = {json.dumps(b)}' for a, b in v.items()) + ' }')
    feats = '\n'.join(f'{k} = {json.dumps(v)}' for k, v in c.get('features', {}).items())
    write(f'{WORK}/ubx/Cargo.toml', f'[package]\nname = "ublox"\nversion = "{c["package"]["version"]}"\nedition = "{c["package"].get("edition", "2021")}"\n\n[features]\n{feats}\n\n[dependencies]\n' + '\n'.join(deps) + '\n')
    write(f'{WORK}/Cargo.toml', '[workspace]\nmembers = ["ubx", "run", "bad"]\nresolver = "2"\n\n[profile.dev]\nopt-level = 0\ndebug = false\nlto = "off"\nincremental = false\n')
    write(f'{WORK}/run/Cargo.toml', '[package]\nname = "run"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\nublox = { path = "../ubx", default-features = false, features = ["std"] }\n')
    write(f'{WORK}/run/src/main.rs', 'fn main() {\n    let (n, d, e) = ublox::vc_run();\n    println!("RESULT {n} {d}");\n    for m in e {\n        println!("FAIL {m}");\n    }\n}\n')
    os.path.exists(f'{WORK}/bad/src/lib.rs') or write(f'{WORK}/bad/src/lib.rs', '')
    write(f'{WORK}/bad/Cargo.toml', f'[package]\nname = "bad"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\nublox_derive = {{ path = "{REPO}/ublox_derive" }}\n')
    if os.path.exists(f'{REPO}/Cargo.lock') and not os.path.exists(f'{WORK}/Cargo.lock'):
        shutil.copy(f'{REPO}/Cargo.lock', f'{WORK}/Cargo.lock')

def main():
    prepare()
    viol = []
    # the unchanged copy has to build, otherwise nothing is said
    good = emit_good()
    # valid definitions
    write(f'{WORK}/ubx/src/ubx_packets/vc.rs', good)
    t = time.time()
    rc, msgs, err = cargo('build', '-p', 'run')
    evals, ndefs = 0, len(DEFS) + len(ENUMS) + len(FLAGS) + NMOD
    if rc != 0:
        es = errors(msgs)
        mine = [m for m in es if lines_of(m, 'vc.rs')]
        if not mine or len(mine) < len([m for m in es if m['spans']]):
            for m in es[:5]:
                print(m.get('rendered', m['message'])[:1500], file=sys.stderr)
            print(err[-2000:], file=sys.stderr)
            print('C21: the copy of the crate does not build', file=sys.stderr)
            sys.exit(2)
        for m in mine[:4]:
            viol.append('a valid definition does not compile: ' + (m.get('rendered') or m['message'])[:1200])
    else:
        exe = f'{WORK}/target/debug/run'
        try:
            p = subprocess.run([exe], capture_output=True, text=True, timeout=120, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
        except subprocess.TimeoutExpired:
            p = subprocess.CompletedProcess([exe], -1, '', 'it did not return within 120 s')
        m = re.search(r'^RESULT (\d+) (\d+)$', p.stdout, re.M)
        if not m:
            viol.append('the generated code fails: ' + (p.stdout + p.stderr)[-800:])
        else:
            evals = int(m.group(1))
            by = {d['name']: d for d in DEFS}
            for l in p.stdout.splitlines():
                if l.startswith('FAIL '):
                    t = l[5:][:900]
                    n = re.match(r'(D\d+)', t)
                    viol.append(t + ('\n    in\n' + '\n'.join(src(by[n.group(1)], ind='        ')) if n and n.group(1) in by else ''))
    # inconsistent definitions
    bad = bad_defs()
    text, owner = ['#![allow(warnings)]', 'macro_rules! bitflags { ($($t:tt)*) => {} }'], {}
    # valid ones among them, as a control: an error there would mean that the errors seen are not the macros' own
    controls = [(None, src(d)) for d in DEFS[::40]]
    for k, (what, lines) in enumerate(bad + controls):
        text.append(f'mod b{k} {{ use ublox_derive::*;')
        for l in lines:
            text.append(l)
            owner[len(text)] = k
        text.append('}')
    write(f'{WORK}/bad/src/lib.rs', '\n'.join(text) + '\n')
    rc, msgs, err = cargo('check', '-p', 'bad')
    hit = set()
    built = any(m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'ublox_derive' for m in msgs)
    es = errors(msgs)
    for m in es:
        if m.get('code') or m['message'].startswith('cannot find '):
            continue               # found by name resolution in what the macros produced, not by the macros
        for ln in lines_of(m, 'bad/src/lib.rs'):
            if ln in owner:
                hit.add(owner[ln])
    if not built or (rc != 0 and not es):
        print(err[-2000:], file=sys.stderr)
        print('C21: the macros do not build', file=sys.stderr)
        sys.exit(2)
    for k, (what, lines) in enumerate(controls, len(bad)):
        if k in hit and len(hit) > 1:
            print('\n'.join(lines), file=sys.stderr)
            print('C21: errors are reported for a valid definition; nothing can be said about the inconsistent ones', file=sys.stderr)
            sys.exit(2)
    for k, (what, lines) in enumerate(bad):
        if k not in hit:
            viol.append(f'accepted: {what}\n' + '\n'.join('        ' + l for l in lines))
    evals += len(bad)

    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    ev = {'property': 'C21', 'tier': TIER, 'seed': SEED, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': ndefs + len({tuple(l) for _, l in bad}), 'exhaustive': True,
                       'rule': 'valid definitions: every field kind alone and before a tail, every sequence of up to three plain types, every ordered pair of field kinds, array sizes, payload lengths around byte boundaries, classes and ids, attribute orders, sized and mapped tails, enumerations and flag sets, lists of packets in every order; each compiled by the macros and run on every value of every byte over several backgrounds, every length, and all class and id pairs. Inconsistent definitions: every valid one with wrong lengths, every missing, repeated or malformed header attribute, unsupported type, misplaced unsized field, malformed enumeration and flag set. Distinct by source text; each must get an error of its own',
                       'definitions_valid': ndefs, 'definitions_inconsistent': len(bad), 'rejected': len(hit),
                       'samples': ['\n'.join(src(DEFS[i])) for i in (0, 60, len(DEFS) - 1)] + ['\n'.join(bad[i][1]) for i in (0, len(bad) // 2, len(bad) - 1)]},
          'assumptions': ['longer definitions compose like the enumerated sequences and pairs'], 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    with open(f'{ROOT}/evidence/C21.json', 'w') as f:
        json.dump(ev, f)
    os.makedirs(f'{ROOT}/replays', exist_ok=True)
    for k, v in enumerate(viol[:8]):
        path = f'{ROOT}/replays/C21-{k}.json'
        with open(path, 'w') as f:
            json.dump({'property': 'C21', 'what': v}, f)
        print('C21', v)
        print(f'VIOLATION property=C21 replay={path}')
    if viol:
        sys.exit(1)
    print(f'C21: held on {ndefs} valid definitions ({evals} evaluations) and {len(bad)} inconsistent ones ({TIER} tier, {time.time() - T0:.1f} s)')

if __name__ == '__main__':
    main()
