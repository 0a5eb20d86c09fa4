#!/usr/bin/env python3
"""Wrote spec/cfgval.json once from the reviewed table of the code; the checks use the frozen file only."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open('/repo/ublox/src/ubx_packets/cfg_val.rs').read()
s = s[s.index('cfg_val! {\n'):]
L = re.findall(r'^\s*(\w+),\s*(0x[0-9a-fA-F]+),\s*(\w+),', s, re.M)
json.dump([{'name': n, 'key': k, 'type': t} for n, k, t in L], open(f'{ROOT}/spec/cfgval.json', 'w'), indent=0)
print(len(L), 'items')
