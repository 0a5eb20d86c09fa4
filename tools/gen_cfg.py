#!/usr/bin/env python3
"""Writes mc/src/gencfg.rs from the frozen spec/cfgval.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(f'{ROOT}/spec/cfgval.json'))
T = {  # type: (width, codes or None)
    'bool': (1, [('false', 0), ('true', 1)]),
    'DataBits': (1, [('DataBits::Eight', 0), ('DataBits::Seven', 1)]),
    'Parity': (1, [('Parity::None', 0), ('Parity::Odd', 1), ('Parity::Even', 2)]),
    'StopBits': (1, [('StopBits::Half', 0), ('StopBits::One', 1), ('StopBits::OneHalf', 2), ('StopBits::Two', 3)]),
    'AlignmentToReferenceTime': (1, [(f'AlignmentToReferenceTime::{n}', i) for i, n in enumerate(['Utc', 'Gps', 'Glo', 'Bds', 'Gal'])]),
    'TpPulse': (1, [('TpPulse::Period', 0), ('TpPulse::Freq', 1)]),
    'TpPulseLength': (1, [('TpPulseLength::Ratio', 0), ('TpPulseLength::Length', 1)]),
    'CfgInfMask': (1, None), 'u8': (1, None), 'u16': (2, None), 'i16': (2, None), 'u32': (4, None), 'u64': (8, None),
}
o = []
w = o.append
w('//! Written by tools/gen_cfg.py from spec/cfgval.json. Do not edit.')
w('use ublox::cfg_val::*;')
w('use ublox::*;')
w('pub struct Ck {\n    pub name: &\'static str,\n    pub key: u32,\n    pub width: usize,\n    /// The number of codes, 0: any value of the width.\n    pub codes: u64,\n}')
w('pub static CFGS: &[Ck] = &[')
for x in L:
    wd, c = T[x['type']]
    w(f'    Ck {{ name: "{x["name"]}", key: {x["key"]}, width: {wd}, codes: {len(c) if c else 0} }},')
w('];')
w('/// The item with a value code.')
w('pub fn cfg_make(k: usize, v: u64) -> CfgVal {')
w('    match k {')
for i, x in enumerate(L):
    wd, c = T[x['type']]
    t = x['type']
    if c:
        e = 'match v { ' + ', '.join(f'{n} => {s}' for s, n in c[:-1]) + f', _ => {c[-1][0]} }}'
    elif t == 'CfgInfMask':
        e = 'CfgInfMask::from_bits_truncate(v as u8)'
    else:
        e = f'v as {t}'
    w(f'        {i} => CfgVal::{x["name"]}({e}),')
w('        _ => panic!("no item {k}"),')
w('    }')
w('}')
w('/// Which item, with which value code.')
w('pub fn cfg_read(x: &CfgVal) -> Option<(usize, u64)> {')
w('    Some(match x {')
for i, x in enumerate(L):
    wd, c = T[x['type']]
    t = x['type']
    if c:
        e = 'match v { ' + ', '.join(f'{s} => {n}' for s, n in c) + ', #[allow(unreachable_patterns)] _ => u64::MAX }'
    elif t == 'CfgInfMask':
        e = 'v.bits() as u64'
    elif t == 'i16':
        e = '*v as u16 as u64'
    else:
        e = '*v as u64'
    w(f'        CfgVal::{x["name"]}(v) => ({i}, {e}),')
w('        _ => return None,')
w('    })')
w('}')
open(f'{ROOT}/mc/src/gencfg.rs', 'w').write('\n'.join(o) + '\n')
