#!/usr/bin/env python3
"""Writes mc/src/gen.rs (protocol tables and glue to the public API) from the frozen spec/packets.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = json.load(open(f'{ROOT}/spec/packets.json'))
for p in S['packets']:
    for f in p['fields']:
        f['size'] = f['size'] or 0
P, E, B = S['packets'], S['enums'], S['bitflags']
EI = {e['name']: i for i, e in enumerate(E)}
BI = {b['name']: i for i, b in enumerate(B)}
o = []
w = o.append
w('//! Written by tools/gen_rust.py from spec/packets.json. Do not edit.')
w('#![allow(non_snake_case, non_upper_case_globals, clippy::all, unused_variables)]')
w('use crate::model::*;')
w('use ublox::*;')
w('')
w('pub static ENUMS: &[En] = &[')
for e in E:
    vs = ', '.join(f'("{n}", {v})' for n, v in e['variants'])
    d = next((v for n, v in e['variants'] if n == e['default']), None)
    w(f'    En {{ name: "{e["name"]}", reserved: {str(e["rest"]=="reserved").lower()}, variants: &[{vs}], default: {"None" if d is None else f"Some({d})"} }},')
w('];')
w('pub static FLAGS: &[Fl] = &[')
for b in B:
    vs = ', '.join(f'("{n}", {v:#x})' for n, v in b['flags'])
    w(f'    Fl {{ name: "{b["name"]}", bits: {b["repr"][1:]}, flags: &[{vs}] }},')
w('];')

def kind(f):
    t = f['ty']
    if t.startswith('[') or t.startswith('&'):
        return 'Var' if f['size'] == 0 else 'Arr'
    return {'u': 'U', 'i': 'I', 'f': 'F'}[t[0]]

def fmap(f):
    m = f.get('map_type')
    if m is None:
        return 'None'
    if m in ('f32', 'f64'):
        return f'Scale {{ s: {float(f.get("scale", "1.0"))!r}, single: {str(m=="f32").lower()} }}'
    if m in EI:
        return f'Enum({EI[m]})'
    if m in BI:
        return f'Flags({BI[m]})'
    return f'Other("{m}")'

def acc(f):
    return f.get('alias') or f['name']

w('pub static PACKETS: &[Pk] = &[')
for p in P:
    di = S['dispatch'].index(p['name']) if p['name'] in S['dispatch'] else None
    fs = []
    for f in p['fields']:
        fs.append(f'Fd {{ name: "{f["name"]}", acc: "{acc(f)}", off: {f["off"]}, size: {f["size"]}, kind: Kind::{kind(f)}, map: Map::{fmap(f)}, may_fail: {str(bool(f.get("may_fail"))).lower()} }}')
    w(f'    Pk {{ name: "{p["name"]}", class: {p["class"]:#04x}, id: {p["id"]:#04x}, recv: {str("recv" in p["dir"]).lower()}, send: {str("send" in p["dir"]).lower()}, '
      f'fixed: {"None" if p["fixed"] is None else "Some(%d)" % p["fixed"]}, max: {p["max"] if p["fixed"] is None else p["fixed"]}, default: {str(p["default"]).lower()}, dispatch: {"None" if di is None else f"Some({di})"}, fields: &[')
    for f in fs:
        w('        ' + f + ',')
    w('    ] },')
w('];')
for i, p in enumerate(P):
    w(f'pub const PK_{p["name"]}: usize = {i};')

# observation glue
for e in E:
    if not e['pub']:
        continue
    w(f'impl ObsA for &Wrap<{e["name"]}> {{')
    arms = ', '.join(f'{e["name"]}::{n} => "{n}"' for n, v in e['variants'])
    rest = ', _ => "reserved"' if e['rest'] == 'reserved' else ', #[allow(unreachable_patterns)] _ => "no variant of the table"'
    w(f'    fn obs(&self) -> Val {{ Val::E(match self.0 {{ {arms}{rest} }}, Some(self.0 as u8 as u64)) }}')
    w('}')
for b in B:
    w(f'impl ObsA for &Wrap<{b["name"]}> {{ fn obs(&self) -> Val {{ Val::Bits(self.0.bits() as u64) }} }}')

obs = [p for p in P if p['name'] in S['dispatch'] or p['name'] in ('NavSatSvInfo', 'RxmRawxInfo')]
for p in obs:
    n = p['name']
    w(f'pub fn obs_{n}(r: &{n}Ref, s: &mut dyn FnMut(usize, bool, Val)) {{')
    for i, f in enumerate(p['fields']):
        if f['size'] == 0:
            continue
        w(f'    s({i}, false, (&&Wrap(r.{acc(f)}())).obs());')
        if f.get('map_type'):
            w(f'    s({i}, true, (&&Wrap(r.{acc(f)}_raw())).obs());')
    w('}')
w('/// Calls every fixed-size accessor of a typed packet; the index of its definition.')
w('pub fn observe(p: &PacketRef, s: &mut dyn FnMut(usize, bool, Val)) -> Option<usize> {')
w('    match p {')
for n in S['dispatch']:
    w(f'        PacketRef::{n}(r) => {{ obs_{n}(r, s); Some(PK_{n}) }}')
w('        _ => None,')
w('    }')
w('}')
w('/// The definition a delivered packet was given.')
w('pub fn which(p: &PacketRef) -> Option<usize> {')
w('    match p {')
for n in S['dispatch']:
    w(f'        PacketRef::{n}(_) => Some(PK_{n}),')
w('        _ => None,')
w('    }')
w('}')
w('/// Formats and serialises the packet inside its variant.')
w('pub fn debug_inner(p: &PacketRef) -> String {')
w('    match p {')
for n in S['dispatch']:
    w(f'        PacketRef::{n}(r) => format!("{{r:?}}"),')
w('        PacketRef::Unknown(u) => format!("{u:?}"),')
w('        #[allow(unreachable_patterns)] _ => String::new(),')
w('    }')
w('}')
w('#[cfg(feature = "serde")]')
w('pub fn serialize_inner<S: serde::Serializer>(p: &PacketRef, s: S) -> Option<Result<S::Ok, S::Error>> {')
w('    use serde::Serialize;')
w('    match p {')
for n in S['dispatch']:
    w(f'        PacketRef::{n}(r) => Some(r.serialize(s)),')
w('        _ => None,')
w('    }')
w('}')

w('/// A named value of a packet, as its accessor reports it.')
w('pub type Named<\'a> = (&\'static str, &\'a dyn core::fmt::Debug);')
for n in S['dispatch'] + ['NavSatSvInfo', 'RxmRawxInfo']:
    p = next(x for x in P if x['name'] == n)
    fs = ', '.join(f'("{f["name"]}", &r.{acc(f)}())' for f in p['fields'])
    w(f'pub fn named_{n}(r: &{n}Ref, k: &mut dyn FnMut(&\'static str, &[Named])) {{ k("{n}", &[{fs}]) }}')
w('/// Every field of a packet in the order of its definition, unlike `observe` with the repeated parts.')
w('pub fn named(p: &PacketRef, k: &mut dyn FnMut(&\'static str, &[Named])) -> bool {')
w('    match p {')
for n in S['dispatch']:
    w(f'        PacketRef::{n}(r) => named_{n}(r, k),')
w('        _ => return false,')
w('    }')
w('    true')
w('}')

# builders
def conv(f, i):
    m = f.get('map_type')
    k = kind(f)
    if m in ('f32', 'f64'):
        return f'v[{i}].f as _'
    if m in EI:
        e = E[EI[m]]
        arms = ', '.join(f'{v} => {m}::{n}' for n, v in e['variants'])
        return f'match v[{i}].i {{ {arms}, x => panic!("no variant {{x}}") }}'
    if m in BI:
        return f'{m}::from_bits_truncate(v[{i}].i as _)'
    if m == 'UartMode':
        return f'uart_mode(v[{i}].i as u32)'
    if m in ('CfgItfmConfig', 'CfgItfmConfig2'):
        return f'{m}::from(v[{i}].i as u32)'
    if m == 'ResetMode':
        return f'match v[{i}].i {{ 0 => ResetMode::HardwareResetImmediately, 1 => ResetMode::ControlledSoftwareReset, 2 => ResetMode::ControlledSoftwareResetGpsOnly, 4 => ResetMode::HardwareResetAfterShutdown, 8 => ResetMode::ControlledGpsStop, _ => ResetMode::ControlledGpsStart }}'
    if m == 'AlignmentToReferenceTime':
        return f'match v[{i}].i {{ 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, 2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, _ => AlignmentToReferenceTime::Gal }}'
    assert m is None, m
    if k == 'Arr':
        return f'v[{i}].arr()'
    return f'v[{i}].i as _'

w('''
pub fn uart_mode(raw: u32) -> UartMode {
    UartMode::new(
        if raw >> 6 & 3 == 2 { DataBits::Seven } else { DataBits::Eight },
        match raw >> 9 & 7 { 0 => Parity::Even, 1 => Parity::Odd, _ => Parity::None },
        match raw >> 12 & 3 { 0 => StopBits::One, 1 => StopBits::OneHalf, 2 => StopBits::Two, _ => StopBits::Half },
    )
}
''')
bl = [p for p in P if 'send' in p['dir'] and p['fixed'] is not None]
for p in bl:
    n = p['name']
    fs = ', '.join(f'{acc(f)}: {conv(f, i)}' for i, f in enumerate(p['fields']))
    w(f'pub fn mk_{n}(v: &[FV]) -> {n}Builder {{ {n}Builder {{ {fs} }} }}')
w('/// Runs `e` on the builder of a definition with the given field values.')
w('pub fn build<T: Emit>(pk: usize, v: &[FV], e: &mut T) -> bool {')
w('    match pk {')
for p in bl:
    n = p['name']
    w(f'        PK_{n} => e.emit(|| mk_{n}(v), {n}Builder::into_packet_bytes, <[u8; {n}Builder::PACKET_LEN]>::from),')
w('        _ => return false,')
w('    }')
w('    true')
w('}')
w('pub fn build_default<T: Emit>(pk: usize, e: &mut T) -> bool {')
w('    match pk {')
for p in bl:
    if p['default']:
        n = p['name']
        w(f'        PK_{n} => e.emit(|| {n}Builder::default(), {n}Builder::into_packet_bytes, <[u8; {n}Builder::PACKET_LEN]>::from),')
w('        _ => return false,')
w('    }')
w('    true')
w('}')
w('/// Named flags as the code under test defines them: index into FLAGS, name, bits.')
w('pub fn flag_consts() -> Vec<(usize, &\'static str, u64)> {')
w('    vec![')
for i, b in enumerate(B):
    for n, _ in b['flags']:
        w(f'        ({i}, "{n}", {b["name"]}::{n}.bits() as u64),')
w('    ]')
w('}')
# meta and helpers
w('/// (CLASS, ID, FIXED_PAYLOAD_LEN, MAX_PAYLOAD_LEN) of every definition, from the code under test.')
w('pub static META: &[(u8, u8, Option<u16>, u16)] = &[')
for p in P:
    n = p['name']
    w(f'    (<{n} as UbxPacketMeta>::CLASS, <{n} as UbxPacketMeta>::ID, <{n} as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <{n} as UbxPacketMeta>::MAX_PAYLOAD_LEN),')
w('];')
def per_type(name, args, ret, expr, default):
    w(f'pub fn {name}(pk: usize{args}) -> {ret} {{')
    w('    match pk {')
    for i, p in enumerate(P):
        w(f'        {i} => {expr.replace("@", p["name"])},')
    w(f'        _ => {default},')
    w('    }')
    w('}')
per_type('poll', '', '[u8; 8]', 'UbxPacketRequest::request_for::<@>().into_packet_bytes()', 'unreachable!()')
per_type('ack_for', ', r: &AckAckRef', 'bool', 'r.is_ack_for::<@>()', 'unreachable!()')
per_type('nak_for', ', r: &AckNakRef', 'bool', 'r.is_nak_for::<@>()', 'unreachable!()')
per_type('single_rate', ', rate: u8', '[u8; 11]', 'CfgMsgSinglePortBuilder::set_rate_for::<@>(rate).into_packet_bytes()', 'unreachable!()')
per_type('all_rates', ', rates: [u8; 6]', '[u8; 16]', 'CfgMsgAllPortsBuilder::set_rate_for::<@>(rates).into_packet_bytes()', 'unreachable!()')
open(f'{ROOT}/mc/src/gen.rs', 'w').write('\n'.join(o) + '\n')
print(len(o), 'lines')
