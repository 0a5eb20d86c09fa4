#!/usr/bin/env python3
"""C26: the example CLI reports what the receiver sent.

The real binary runs against the simulated serial device of C22; what it prints for every received packet
is compared with an independent reading of the packet's bytes. Separators, unknown packets which the tool
prints too, delimit the report of each packet."""
import calendar, concurrent.futures as cf, datetime, importlib.util, itertools, json, os, re, signal, subprocess, sys, time
from fractions import Fraction as F

ROOT = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('c22', f'{ROOT}/checks/c22.py')
dev = importlib.util.module_from_spec(spec)
spec.loader.exec_module(dev)
frame, D = dev.frame, dev.D
TIER, DEEP, SEED = dev.TIER, dev.DEEP, dev.SEED
T0 = time.time()
S = json.load(open(f'{ROOT}/spec/packets.json'))
DEFS = {(p['class'], p['id']): p for p in reversed(S['packets']) if p['name'] in S['dispatch']}
KNOWN, SEEN = {}, {}
for l in open(f'{ROOT}/known_findings.txt'):
    if l.startswith('finding: property=C26 key='):
        k, _, t = l[len('finding: property=C26 key='):].partition(' ')
        KNOWN[k] = t.strip()

class Bad(Exception):
    pass

# ---------------------------------------------------------------- separators
def sep(k):
    return frame(0x77, 0x5a, bytes([0xfe, k & 255, k >> 8]))
SEP = re.compile(r'payload: \[254, (\d+), (\d+)\], class: 119, msg_id: 90')

# ---------------------------------------------------------------- what has to be printed
def le(b, signed):
    return int.from_bytes(b, 'little', signed=signed)
def near(text, want, what):
    """The printed number is the exact one, rounded to the digits shown."""
    d = len(text.partition('.')[2])
    if abs(F(text) - want) > F(1, 2 * 10 ** d) + F(1, 10 ** 9) + abs(want) * F(1, 10 ** 12):
        raise Bad(f'{what} is reported as {text}, expected {float(want)}')
def labelled(t, label, want):
    m = re.search(label + r'[^0-9{\n-]*(-?\d+(?:\.\d+)?)', t, re.I)
    if not m:
        raise Bad(f'no {label} is reported')
    near(m.group(1), want, label)
def debug_fields(t, p, b):
    """Integers and scaled values in a printed packet."""
    m = re.search(r'\b' + p['name'] + r' \{', t)
    if not m:
        raise Bad(f'no {p["name"]} is printed')
    rest = t[m.end():]
    for f in p['fields']:
        k = re.match(r'.*?\b' + f['name'] + r': ', rest, re.S)
        if not k:
            raise Bad(f'{p["name"]}.{f["name"]} is not printed in its place')
        rest = rest[k.end():]
        if f['ty'][0] not in 'ui' or f.get('map_type') not in (None, 'f32', 'f64'):
            continue
        v = le(b[f['off']:f['off'] + f['size']], f['ty'][0] == 'i')
        n = re.match(r'-?[0-9.]+(?:e-?\d+)?', rest)
        if not n:
            raise Bad(f'{f["name"]} is printed as {rest[:20]!r}')
        got, want = F(n.group()), v * F(f.get('scale', '1').replace('_', ''))
        if abs(got - want) > abs(want) * (F(1, 10 ** 6) if f.get('map_type') == 'f32' else F(1, 10 ** 12)):
            raise Bad(f'{f["name"]} is printed as {n.group()}, expected {float(want)}')
def cstr(b):
    i = b.find(b'\0')
    if i < 0:
        return None
    try:
        return b[:i].decode()
    except UnicodeDecodeError:
        return None
def rust_str(s):
    o = '"'
    for ch in s:
        o += {'"': '\\"', '\\': '\\\\', '\t': '\\t', '\n': '\\n', '\r': '\\r'}.get(ch, ch if ' ' <= ch <= '~' else '\\u{%x}' % ord(ch))
    return o + '"'
def calendar_time(b):
    """The UTC time of a NAV-PVT, or None for an impossible one."""
    y, mo, d, h, mi, s = le(b[4:6], False), *b[6:11]
    n = le(b[16:20], True)
    if not (1 <= mo <= 12 and 1 <= d <= (29 if mo == 2 and (y % 4 == 0 and (y % 100 or y % 400 == 0)) else calendar.mdays[mo]) and h < 24 and mi < 60 and s < 60 and abs(n) < 10 ** 9):
        return None
    if not 1 <= y <= 9998:
        return 'skip'
    return datetime.datetime(y, mo, d, h, mi, s), n

def unknown(c, i, b, t):
    if f'payload: {list(b)}, class: {c}, msg_id: {i}' not in t:
        raise Bad(f'{t!r} is printed for an unknown packet')

def expect(c, i, b, t):
    """Checks the text printed for one packet."""
    p = DEFS.get((c, i))
    if (c, i) == (1, 7) and len(b) == 92:
        fix = b[20]
        head = re.sub(r'\w+ \{.*\}', '', t)
        if fix in (3, 4):
            labelled(head, 'latitude', le(b[28:32], True) * F(1, 10 ** 7))
            labelled(head, 'longitude', le(b[24:28], True) * F(1, 10 ** 7))
            labelled(head, 'altitude', le(b[36:40], True) * F(1, 10 ** 3))
            labelled(head, 'speed', le(b[60:64], False) * F(1, 10 ** 3))
            labelled(head, 'heading', le(b[64:68], True) * F(1, 10 ** 5))
            debug_fields(t, p, b)
        elif re.search(r'latitude|longitude|altitude|speed|heading', t, re.I):
            raise Bad(f'a position is reported for fix type {fix}')
        m = re.search(r'(\d{4,})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.(\d+))?', head)
        if fix in (3, 4, 5):
            w = calendar_time(b)
            if w == 'skip':
                return
            if w is None:
                if m:
                    raise Bad(f'the time {m.group()} is reported for one no calendar has')
                return
            at = w[0] - datetime.timedelta(seconds=1) if w[1] < 0 else w[0]
            if not m:
                raise Bad('no time is reported')
            got = datetime.datetime(*(int(x) for x in m.groups()[:6])), int((m.group(7) or '0').ljust(9, '0'))
            if got != (at, w[1] % 10 ** 9):
                raise Bad(f'the time is reported as {m.group()}, expected {at} and {w[1] % 10 ** 9} ns')
        elif m:
            raise Bad(f'a time is reported for fix type {fix}')
        return
    if (c, i) == (10, 4) and len(b) >= 40 and (len(b) - 40) % 30 == 0:
        parts = [cstr(b[:30]), cstr(b[30:40])] + [cstr(b[k:k + 30]) for k in range(40, len(b), 30)]
        if None in parts:
            unknown(c, i, b, t)
            return
        ext = '[' + ', '.join(map(rust_str, parts[2:])) + ']'
        at = 0
        for what, x in (('software version', parts[0]), ('hardware version', parts[1]), ('extensions', ext)):
            k = t.find(x, at)
            if k < 0:
                raise Bad(f'the {what} {x!r} is not printed in its place: {t!r}')
            at = k + len(x)
        m = re.match(r'[^\n]*?SW version: (.*?) HW version: (.*?); Extensions: (.*)', t, re.S)
        if m and (m.group(1), m.group(2)) != (parts[0], parts[1]) and not re.search('HW version|;', parts[0] + parts[1]):
            raise Bad(f'versions {m.groups()[:2]} are printed, expected {parts[:2]}')
        return
    if p and p['fixed'] == len(b) and not any(f.get('may_fail') for f in p['fields']):
        debug_fields(t, p, b)
    elif p is None or p['fixed'] not in (None, len(b)):
        unknown(c, i, b, t)

# ---------------------------------------------------------------- runs
def chunks(job):
    """The data of a run: every packet between separators, in the pieces of its style."""
    fr, style = job
    data = sep(0)
    for k, (c, i, b, ok) in enumerate(fr):
        f = frame(c, i, bytes(b))
        data += (f if ok else f[:-1] + bytes([f[-1] ^ 1])) + sep(k + 1)
    if style == 'whole':
        return [D(data)]
    if style == 'bytes':
        return [D(data[k:k + 1]) for k in range(len(data))]
    n, pause = style
    return [x for k in range(0, len(data), n) for x in ([D(data[k:k + n])] + (['T'] if pause else []))]

def run(job):
    fr, style = job
    script = [D(dev.ACK(6, 1)), 'T'] + chunks(job) + ['T', 'T']
    rc, out, err, _ = dev.execute((['-p', dev.PORT], script))
    out = out.decode(errors='replace')
    marks = list(SEP.finditer(out))
    ids = [int(m.group(1)) | int(m.group(2)) << 8 for m in marks]
    for k, (c, i, b, ok) in enumerate(fr):
        if k + 1 >= len(ids) or ids[k] != k or ids[k + 1] != k + 1:
            why = err.decode(errors='replace')[-300:]
            if rc not in (0, None, -signal.SIGXCPU, -signal.SIGXFSZ, -signal.SIGKILL) and k + 1 >= len(ids) and (c, i) == (1, 7) and len(b) == 92 and b[20] in (3, 4, 5) and calendar_time(bytes(b)) is None and 'impossible-time' in KNOWN:
                return job, k, None, k          # the listed finding
            return job, k, f'the tool stops or loses a packet at packet {k}, class {c} id {i} [{bytes(b).hex()}]: status {rc}: {why}', None
        t = out[out.index('\n', marks[k].end()) + 1:out.rindex('\n', 0, marks[k + 1].start()) + 1]
        try:
            if ok:
                expect(c, i, bytes(b), t)
            elif t.strip():
                raise Bad(f'{t!r} is printed for a broken frame')
        except Bad as e:
            return job, k, f'class {c} id {i} [{bytes(b).hex()}]: {e}', None
    if rc != 0 or len(ids) != len(fr) + 1:
        return job, len(fr), f'the tool ends with status {rc}: {err.decode(errors="replace")[-300:]}', None
    return job, len(fr), None, None

# ---------------------------------------------------------------- what is enumerated
def pvt(fix=3, lon=0, lat=0, alt=0, speed=0, heading=0, t=(2018, 4, 20, 12, 30, 59), nano=0, fill=0):
    p = bytearray([fill]) * 92
    p[4:11] = t[0].to_bytes(2, 'little') + bytes(t[1:])
    p[16:20] = nano.to_bytes(4, 'little', signed=True)
    p[20] = fix
    p[24:28] = lon.to_bytes(4, 'little', signed=True)
    p[28:32] = lat.to_bytes(4, 'little', signed=True)
    p[36:40] = alt.to_bytes(4, 'little', signed=True)
    p[60:64] = speed.to_bytes(4, 'little')
    p[64:68] = heading.to_bytes(4, 'little', signed=True)
    return 1, 7, p, True
EDGE = sorted({s * v for s in (1, -1) for v in (0, 1, 4, 5, 6, 9, 10, 49, 50, 51, 99, 100, 149, 150, 151, 499, 500, 501, 994, 995, 996, 999, 1000, 4999, 5000, 5001, 9999, 10000, 99999, 100000, 123456789, 900000000, 1800000000, 2 ** 31 - 1)} | {-2 ** 31} | {s << k for k in range(31) for s in (1, -1)})
def pat(n, k):
    return [0, 255, (37 * k + 11) & 255, (k * k + 131 * k + 0x55) & 255, 0x80, 0x7f][n]

def packets():
    """All single packets, by kind."""
    for fix in range(256):
        for fill in (0, 1, 255):
            yield pvt(fix, 123456789, -456789123, 12345, 6789, 18000000, fill=fill)
    for v in EDGE:
        for k in ('lon', 'lat', 'alt', 'heading', 'speed'):
            if k != 'speed' or v >= 0:
                for fix in (3, 4):
                    yield pvt(fix, **{k: v})
                yield pvt(3, **{'lon': 11, 'lat': -22, 'alt': 33, 'speed': 44, 'heading': -55, k: v})
    yield pvt(3, speed=2 ** 32 - 1)
    few = [v for v in EDGE if abs(v) in (0, 5, 995, 123456789, 2 ** 31 - 1, 2 ** 31)]
    for a, b in itertools.product(few, repeat=2):
        yield pvt(3, lon=a, lat=b, alt=b, heading=a)
    for y in (2000, 2018, 2024, 2100):
        for m in range(1, 13):
            for d in range(1, calendar.mdays[m] + (m == 2 and calendar.isleap(y)) + 1):
                yield pvt(5, t=(y, m, d, d % 24, m, 59))
    for h, mi in itertools.product(range(24), range(60)):
        if DEEP or mi in (0, 1, 29, 30, 59) or h in (0, 23):
            yield pvt((3, 4, 5)[h % 3], t=(2020, 2, 29, h, mi, (h * 7 + mi) % 60))
    for s in range(60):
        yield pvt(5, t=(1999, 12, 31, 23, 59, s))
    for n in [s * v for v in (0, 1, 9, 10, 999, 1000, 1001, 999999, 1000000, 123456789, 999999000, 999999999) for s in (1, -1)]:
        for t in ((2020, 3, 1, 0, 0, 0), (2019, 12, 31, 23, 59, 59), (2024, 1, 1, 0, 0, 0)):
            for fix in (3, 4, 5):
                yield pvt(fix, t=t, nano=n)
    # versions
    sw, hw = b'EXT CORE 1.00 (94e56e)', b'00080000'
    ver = lambda s, h, *e: (10, 4, s.ljust(30, b'\0')[:30] + h.ljust(10, b'\0')[:10] + b''.join(x.ljust(30, b'\0')[:30] for x in e), True)
    yield ver(sw, hw)
    for n in range(31):
        yield ver(bytes(65 + k for k in range(n)), hw)
        yield ver(sw, hw, b'PROTVER=18.00', bytes(65 + k for k in range(n)), b'GPS;GLO')
    for n in range(11):
        yield ver(sw, bytes(48 + k for k in range(n)))
    for n in range(40 if DEEP else 20):
        yield ver(sw, hw, *(b'EXT%d' % k for k in range(n)))
    for ch in list(range(1, 256)):
        for x in (b'a' + bytes([ch]) + b'b', b'ab' + bytes([ch]), bytes([ch]) + b'ab', b'a' + bytes([ch, ch]), bytes([ch])):
            yield ver(x, hw)
            yield ver(sw, x)
            yield ver(sw, hw, b'x', x)
            yield ver(sw, hw, x, b'x')
    for text in ('\u00e9t\u00e9', '\u20ac', '"quoted"', 'back\\slash', "it's"):
        yield ver(text.encode(), text.encode())
    # every fixed packet type
    for (c, i), p in sorted(DEFS.items()):
        if p['fixed'] is not None and (c, i) != (1, 7):
            for n in range(6):
                yield c, i, bytes(pat(n, k) for k in range(p['fixed'])), True
            for k in range(p['fixed']):
                b = bytearray(p['fixed'])
                b[k] = 0x81
                yield c, i, b, True
    for c in range(256):
        if not any((c, 0x42) == k for k in DEFS):
            yield c, 0x42, bytes([c, 1, 2]), True
    for n in list(range(40)) + [255, 256, 1000]:
        yield 0x99, 1, bytes(pat(2, k) for k in range(n)), True

def texty(x):
    """Versions with non-ASCII text are compared in ASCII only."""
    c, i, b, ok = x
    return (c, i) == (10, 4) and ok and any(ch >= 0x80 or ch < 0x20 and ch for ch in b)

def jobs():
    all_ = [x for x in packets() if not (texty(x) and all(s is not None for s in ([cstr(x[2][:30]), cstr(x[2][30:40])] + [cstr(x[2][k:k + 30]) for k in range(40, len(x[2]), 30)])))]
    at = 0
    while at < len(all_):
        n, size = 0, 0
        while at + n < len(all_) and n < 400 and size < 40000:
            size += len(all_[at + n][2]) + 24
            n += 1
        yield all_[at:at + n], 'whole'
        at += n
    # orders and splits: sequences of different packets, some broken, in pieces of every size
    tk = [pvt(3, 5, 6, 7, 8, 9), pvt(5), pvt(0), (10, 4, b'SW'.ljust(30, b'\0') + b'HW'.ljust(10, b'\0'), True), (1, 2, bytes(range(28)), True), (5, 1, b'\6\1', True), (1, 3, bytes(16), True),
          (0x99, 9, b'\xb5\x62', True), (1, 7, pvt(3)[2], False), (10, 4, b'x' * 40, True), (0x99, 8, bytes(300), False)]
    for n in range(1, 4 if DEEP else 3):
        for seq in itertools.product(tk, repeat=n):
            yield list(seq), 'bytes'
            for style in ((1, True), (7, False), (64, True), (1240, False)):
                yield list(seq), style
    for n in range(1, 140 if DEEP else 120):
        yield tk, (n, False)
    # times no calendar has
    for t, nano in [((2018, 0, 1, 0, 0, 0), 0), ((2018, 13, 1, 0, 0, 0), 0), ((2018, 2, 29, 0, 0, 0), 0), ((2018, 4, 31, 0, 0, 0), 0), ((2018, 4, 0, 0, 0, 0), 0), ((2018, 4, 1, 24, 0, 0), 0), ((2018, 4, 1, 0, 60, 0), 0), ((2016, 12, 31, 23, 59, 60), 0), ((2018, 4, 1, 0, 0, 0), 10 ** 9), ((2018, 4, 1, 0, 0, 0), -10 ** 9)]:
        for fix in (3, 4, 5):
            yield [pvt(fix, t=t, nano=nano), pvt(3)], 'whole'
        for fix in (0, 1, 2, 6, 255):
            yield [pvt(fix, t=t, nano=nano), pvt(3)], 'whole'

def main():
    dev.build('C26')
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            j = json.load(f)
        todo = [([(c, i, bytes.fromhex(b), ok) for c, i, b, ok in j['frames']], j['style'])]
    else:
        todo = list(jobs())
    viol, done, seen = [], 0, set()
    with cf.ThreadPoolExecutor(16) as ex:
        for job, n, what, listed in ex.map(run, todo):
            done += n
            for c, i, b, ok in job[0][:n]:
                seen.add((c, i, bytes(b), ok, str(job[1])))
            if listed is not None:
                SEEN['impossible-time'] = SEEN.get('impossible-time', 0) + 1
            if what is not None:
                viol.append((job, n, what))
                if len(viol) == 8:
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    ev = {'property': 'C26', 'tier': TIER, 'seed': SEED, 'level': 'exploration',
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(seen), 'exhaustive': True,
                       'rule': 'every fix type, edge values of position, height, speed and heading alone and in pairs, every calendar day of four years, clock times and nanoseconds, version texts of all lengths and bytes, every packet type of fixed length, every sequence of up to %d of eleven packets in several piece sizes; distinct by packet and pieces' % (3 if DEEP else 2),
                       'runs': len(todo), 'known_findings_seen': SEEN,
                       'samples': [{'packet': [j[0][0][0], j[0][0][1], bytes(j[0][0][2]).hex()], 'pieces': str(j[1])} for j in (todo[0], todo[len(todo) // 2], todo[-1])]},
          'assumptions': ['separator packets do not change how the tool treats others'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    with open(f'{ROOT}/evidence/C26.json', 'w') as f:
        json.dump(ev, f)
    for k in sorted(SEEN):
        print(f'KNOWN-FINDING: property=C26 {KNOWN[k]}')
    os.makedirs(f'{ROOT}/replays', exist_ok=True)
    for k, (job, n, what) in enumerate(viol[:8]):
        path = f'{ROOT}/replays/C26-{k}.json'
        lo = max(0, n - 1)
        with open(path, 'w') as f:
            json.dump({'property': 'C26', 'what': what, 'style': job[1], 'frames': [(c, i, bytes(b).hex(), ok) for c, i, b, ok in job[0][:n + 1]]}, f)
        print(f'C26 {what}')
        print(f'VIOLATION property=C26 replay={path}')
    if viol:
        sys.exit(1)
    print(f'C26: held on {done} packets in {len(todo)} runs ({TIER} tier, {time.time() - T0:.1f} s)')

if __name__ == '__main__':
    main()
