#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = open(f'{ROOT}/DESIGN.md').read()
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
open(f'{ROOT}/DESIGN.md', 'w').write(t)
print(len(rows) - 2, 'planted bugs')
