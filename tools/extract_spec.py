#!/usr/bin/env python3
"""One-off: reads the packet definitions of ublox-rs/ublox into spec/packets.json. The result was then
reviewed against the u-blox protocol description and frozen; the checks only read the frozen file."""
import json, re, sys
src = open(sys.argv[1] if len(sys.argv) > 1 else '/repo/ublox/src/ubx_packets/packets.rs').read()
src = re.sub(r'//[^\n]*', '', src)

def attrs(text):
    """splits a,b=c,... at top level"""
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch in '([<': depth += 1
        if ch in ')]>': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    d = {}
    for a in out:
        if '=' in a:
            k, v = a.split('=', 1); d[k.strip()] = v.strip()
        else: d[a] = True
    return d

SIZES = {'u8':1,'i8':1,'u16':2,'i16':2,'u32':4,'i32':4,'f32':4,'f64':8,'u64':8,'i64':8}
packets = []
for m in re.finditer(r'#\[ubx_packet_(recv_send|recv|send)\]\s*#\[ubx\((.*?)\)\]\s*(?:#\[derive\([^)]*\)\]\s*)?(?:pub )?struct (\w+)(?:<\'a>)? \{(\}|.*?\n\})', src, re.S):
    dirn, a, name, body = m.group(1), m.group(2), m.group(3), m.group(4)
    if body and 'struct' in body: sys.exit('bad match ' + name)
    a = attrs(a)
    p = {'name': name, 'dir': dirn, 'class': int(a['class'], 0), 'id': int(a['id'], 0),
         'fixed': int(a['fixed_payload_len']) if 'fixed_payload_len' in a else None,
         'max': int(a['max_payload_len'].split()[0]) if 'max_payload_len' in a else None,
         'default': 'default_for_builder' in a.get('flags', ''), 'fields': []}
    off = 0
    pos = 0
    for fm in re.finditer(r'(?:#\[ubx\(((?:[^()]|\([^()]*\))*)\)\]\s*)?(?:pub )?(\w+)\s*:\s*(\[u8; *\d+\]|&\'a \[CfgVal\]|\w+)\s*,', body, re.S):
        fa = attrs(fm.group(1) or '')
        ty = fm.group(3)
        am = re.match(r'\[u8; *(\d+)\]', ty)
        size = int(am.group(1)) if am else SIZES.get(ty)
        f = {'name': fm.group(2), 'ty': ty, 'off': off, 'size': size}
        for k in ('map_type', 'alias', 'from', 'is_valid', 'size_fn'):
            if k in fa: f[k] = fa[k]
        if 'scale' in fa: f['scale'] = fa['scale']
        for k in ('may_fail', 'get_as_ref'):
            if k in fa: f[k] = True
        p['fields'].append(f)
        off += size or 0
    if p['fixed'] is not None and off != p['fixed']:
        sys.exit(f'{name}: fields give {off}, not {p["fixed"]}')
    packets.append(p)

enums, bits = [], []
for m in re.finditer(r'#\[ubx_extend\]\s*#\[ubx\(([^)]*)\)\]\s*#\[repr\(u8\)\](?:\s*#\[[^\]]*\])*\s*(pub )?enum (\w+) \{(.*?)\n\}', src, re.S):
    a = attrs(m.group(1))
    vs = re.findall(r'(#\[default\]\s*)?(\w+) = (\w+)', m.group(4))
    enums.append({'name': m.group(3), 'pub': bool(m.group(2)), 'rest': 'reserved' if 'rest_reserved' in a else 'error',
                  'into_raw': 'into_raw' in a, 'variants': [[v[1], int(v[2], 0)] for v in vs],
                  'default': next((v[1] for v in vs if v[0]), None)})
for m in re.finditer(r'#\[ubx_extend_bitflags\]\s*#\[ubx\(([^)]*)\)\]\s*bitflags! \{(.*?)\n\}', src, re.S):
    b = m.group(2)
    h = re.search(r'pub struct (\w+)\s*:\s*(\w+) \{', b)
    bits.append({'name': h.group(1), 'repr': h.group(2), 'from': 'from' in attrs(m.group(1)),
                 'flags': [[x, int(y, 0)] for x, y in re.findall(r'const (\w+)\s*=\s*(\w+);', b)]})
disp = re.search(r'define_recv_packets!\(\s*enum PacketRef \{(.*?)\}', src, re.S).group(1)
order = [x.strip() for x in disp.split(',') if x.strip() and '=' not in x]
json.dump({'packets': packets, 'enums': enums, 'bitflags': bits, 'dispatch': order}, open(sys.argv[2] if len(sys.argv) > 2 else '/verif/spec/packets.json', 'w'), indent=1)
print(len(packets), 'packets', len(enums), 'enums', len(bits), 'bitflags', len(order), 'dispatched')
