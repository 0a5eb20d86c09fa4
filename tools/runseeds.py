#!/usr/bin/env python3
"""Applies every planted bug to /repo in turn, runs the check of its property and
undoes it.  runseeds.py [ID...]; results are appended to /tmp/seedres.txt"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE).stdout
for i in ids:
    d = f'{V}/seeded/{i}'
    m = json.load(open(d + '/meta.json'))
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run(['timeout', '900', V + '/check.sh', m['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V,
                           env=dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + m['property'])]
    s = '%-28s %s %s rc=%d %4.0fs %s' % (i, m['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t, v[:1])
    print(s, flush=True)
    open('/tmp/seedres.txt', 'a').write(s + '\n')
    if not v:
        print(r.stdout[-1500:])
