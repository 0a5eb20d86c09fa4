#!/usr/bin/env python3
"""C23: every supported feature set behaves the same.

The same driver (mc/fs) is compiled against the crate under each of the eight combinations of std, alloc
and serde and walks the same bounded space of inputs; what it observes is compared block by block. The sets
without std are also linked into a library that has no standard library (mc/nostd)."""
import concurrent.futures as cf, itertools, json, os, resource, shutil, subprocess, sys, time

ROOT = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = f'{ROOT}/mc/target/c23'
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
ALL = ('std', 'alloc', 'serde')
SETS = [tuple(f for k, f in enumerate(ALL) if n >> k & 1) for n in range(8)]
name = lambda s: '+'.join(s) or 'none'
ENV = {k: v for k, v in os.environ.items() if k not in ('CARGO_TARGET_DIR', 'RUSTFLAGS')} | {'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never'}

def build(crate, s, sub):
    d = f'{WORK}/{sub}-{name(s)}' if sub == 'fs' else f'{WORK}/{sub}'
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--manifest-path', f'{ROOT}/mc/{crate}/Cargo.toml',
                        '--target-dir', d, '--features', ','.join(s)], env=ENV, capture_output=True, text=True)
    return p.returncode == 0, d, p.stderr

def errors(text):
    o, on = [], 0
    for l in text.splitlines():
        if l.startswith('error'):
            on = 8
        if on:
            o.append(l)
            on -= 1
    return '\n'.join(o[:40])

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def digest(s):
    try:
        p = subprocess.run([f'{WORK}/fs-{name(s)}/release/fs', 'digest', TIER], capture_output=True, text=True, preexec_fn=limit, timeout=1500 if TIER == 'thorough' else 300)
    except subprocess.TimeoutExpired:
        return None, 'it did not return'
    if p.returncode:
        return None, p.stderr
    o = {}
    for l in p.stdout.splitlines():
        sec, at, n, words, h = l.split('\t')
        o[sec, int(at)] = (int(n), int(words), h)
    return o, ''

def dump(s, sec, at, tier):
    p = subprocess.run([f'{WORK}/fs-{name(s)}/release/fs', 'dump', tier, sec, str(at)], capture_output=True, text=True)
    return dict(l.split('\t', 1) for l in p.stdout.splitlines())

def compare(a, b, sec, at, tier):
    """The first case of a block on which two sets differ."""
    x, y = dump(a, sec, at, tier), dump(b, sec, at, tier)
    for k in x:
        if x[k] != y.get(k):
            u, v = x[k], y.get(k, '')
            m = next((i for i, (p, q) in enumerate(zip(u, v)) if p != q), min(len(u), len(v)))
            m = max(0, m - 120)
            return int(k), u[m:m + 400], v[m:m + 400]
    return None

def main():
    replay = None
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            replay = json.load(f)
    os.makedirs(WORK, exist_ok=True)
    viol = []
    with cf.ThreadPoolExecutor(8) as ex:
        built = dict(zip(SETS, ex.map(lambda s: build('fs', s, 'fs'), SETS)))
    # a set which is refused while its neighbours are accepted lost an interface it has to have
    if not any(ok for ok, _, _ in built.values()):
        print(errors(built[SETS[0]][2]), file=sys.stderr)
        print('C23: the driver does not build under any feature set', file=sys.stderr)
        sys.exit(2)
    for s, (ok, _, err) in built.items():
        if not ok:
            viol.append({'kind': 'build', 'set': name(s), 'what': f'the driver does not build under the features {name(s)}, it does under {", ".join(name(t) for t in SETS if built[t][0])}', 'text': errors(err)})
    live = [s for s in SETS if built[s][0]]
    bare = [s for s in SETS if 'std' not in s]
    linked = {s: build('nostd', s, 'nostd') for s in bare}
    for s, (ok, _, err) in linked.items():
        if not ok:
            viol.append({'kind': 'nostd', 'set': name(s), 'what': f'with the features {name(s)} the crate does not link without the standard library', 'text': errors(err)})
    # the link test can fail: with std it has to
    d = f'{WORK}/nostd'
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--manifest-path', f'{ROOT}/mc/nostd/Cargo.toml', '--target-dir', d, '--features', 'ublox/std'], env=ENV, capture_output=True, text=True)
    if p.returncode == 0:
        print('C23: the link test accepts the standard library', file=sys.stderr)
        sys.exit(2)
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(zip(live, ex.map(digest, live)))
    for s in live:
        if res[s][0] is None:
            viol.append({'kind': 'run', 'set': name(s), 'what': f'the driver dies under the features {name(s)}', 'text': res[s][1][-2000:]})
    live = [s for s in live if res[s][0] is not None]
    first = {}
    blocks = cases = words = 0
    worst = set()
    for s in live:
        for k, v in res[s][0].items():
            blocks += 1
            cases += v[0]
            words += v[1]
            if k not in first:
                first[k] = s
            elif res[first[k]][0][k] != v and (k[0], s) not in worst:
                worst.add((k[0], s))
                viol.append({'kind': 'differs', 'a': name(first[k]), 'b': name(s), 'section': k[0], 'block': k[1], 'tier': TIER})
    # no set may skip a part of the space
    secs = {s: {k for k in res[s][0]} for s in live}
    need = lambda sec, s: not (sec.startswith(('token streams, growable', 'growable')) and not ('std' in s or 'alloc' in s)
                               or sec.startswith('configuration packets as vectors') and 'alloc' not in s
                               or sec.startswith('vectors as writers') and 'std' not in s
                               or sec.startswith('serialising') and 'serde' not in s)
    everything = set().union(*secs.values()) if secs else set()
    for s in live:
        miss = [k for k in everything - secs[s] if need(k[0], s)]
        if miss:
            print(f'C23: the driver under {name(s)} skipped {miss[:3]}', file=sys.stderr)
            sys.exit(2)
    for v in viol:
        if v['kind'] == 'differs':
            t = lambda n: tuple(f for f in ALL if f in n.split('+'))
            d = compare(t(v['a']), t(v['b']), v['section'], v['block'], TIER)
            v['what'] = f'{v["section"].split("#")[0]}: features {v["a"]} and {v["b"]} differ in block {v["block"]}'
            if d:
                v['text'] = f'case {d[0]}\n    {v["a"]}: ..{d[1]}\n    {v["b"]}: ..{d[2]}'
    if replay:
        same = [v for v in viol if all(v.get(k) == replay.get(k) for k in ('kind', 'set', 'section'))]
        print(f'C23: {len(same)} of {len(viol)} deviations are of the replayed kind')
        for v in same[:1]:
            print(v['what'], v.get('text', ''), sep='\n')
        if same:
            print(f'VIOLATION property=C23 replay={sys.argv[2]}')
        sys.exit(1 if same else 0)
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    distinct = sum(res[first[k]][0][k][0] for k in first)
    ev = {'property': 'C23', 'tier': TIER, 'seed': SEED, 'level': 'exploration',
          'coverage': {'evaluations': cases, 'distinct': distinct, 'exhaustive_in_bound': True,
                       'bound': 'all 8 combinations of std, alloc, serde over: all streams of at most 3 of 28 tokens in 11 buffers and 4 schedules, short strings behind a header, every length, every class and id, every byte value of every packet, buffer operations, builders over their domains with every write failing, scaled fields, calendar, configuration items and lists, errors; 4 sets linked without std',
                       'feature_sets': [name(s) for s in live], 'linked_without_std': [name(s) for s in bare if linked[s][0]],
                       'observations': words, 'blocks': blocks,
                       'distinct_by': 'section and case, counted once for all feature sets',
                       'samples': [f'{k[0]} block {k[1]}: {v[0]} cases, digest {v[2]}' for k, v in list(res[live[0]][0].items())[::max(1, len(res[live[0]][0]) // 5)]] if live else []},
          'assumptions': ['the interfaces of each feature set are the ones its documentation names'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    with open(f'{ROOT}/evidence/C23.json', 'w') as f:
        json.dump(ev, f)
    os.makedirs(f'{ROOT}/replays', exist_ok=True)
    for k, v in enumerate(viol[:8]):
        path = f'{ROOT}/replays/C23-{k}.json'
        with open(path, 'w') as f:
            json.dump(v, f)
        print(f'C23 {v["what"]}\n    {v.get("text", "")}')
        print(f'VIOLATION property=C23 replay={path}')
    if viol:
        sys.exit(1)
    print(f'C23: held on {cases} cases, {words} observations under {len(live)} feature sets ({TIER} tier, {time.time() - T0:.1f} s)')

if __name__ == '__main__':
    main()
