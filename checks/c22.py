#!/usr/bin/env python3
"""C22: the example CLI configures and polls the device as its options say.

The real binary runs against a simulated serial device (c22-serial.c, preloaded): every answer of the
device and every timeout comes from a script, so that a run is one execution of the closed system of CLI
and device. Enumerates option combinations and device behaviours while an acknowledgement is awaited, and
checks the record of every run against an independent model of what the tool has to do."""
import concurrent.futures as cf, itertools, json, os, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = f'{ROOT}/mc/target/c22'
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
DEEP = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
PORT = '/dev/simulated-ublox'

# ---------------------------------------------------------------- frames
def frame(c, i, p=b''):
    b = bytes([c, i, len(p) & 255, len(p) >> 8]) + bytes(p)
    x = y = 0
    for v in b:
        x = (x + v) & 255
        y = (y + x) & 255
    return b'\xb5\x62' + b + bytes([x, y])

def scan(s):
    """Left-to-right framing scan: the packets which are complete."""
    at, o = 0, []
    while True:
        at = s.find(b'\xb5\x62', at)
        if at < 0 or len(s) - at < 6:
            return o
        n = s[at + 4] | s[at + 5] << 8
        if n > 8176:
            at += 2
            continue
        if len(s) - at < n + 8:
            return o
        f = s[at:at + n + 8]
        if frame(f[2], f[3], f[6:-2]) == f:
            o.append((f[2], f[3], f[6:-2]))
            at += n + 8
        else:
            at += 2

# ---------------------------------------------------------------- what the tool has to do
PARITY = {None: 0b100, 'odd': 0b001, 'even': 0b000}
def expected_cfg(o):
    mode = {'7': 2, '8': 3}[o['data'] or '8'] << 6 | PARITY[o['parity']] << 9 | {'1': 0, '2': 2}[o['stop'] or '1'] << 12
    inp = 1 | (2 if 'in-nmea' in o['flags'] else 0) | (4 if 'in-rtcm' in o['flags'] else 0) | (32 if 'in-rtcm3' in o['flags'] else 0)
    out = (1 if 'out-ublox' in o['flags'] else 0) | (2 if 'out-nmea' in o['flags'] else 0) | (32 if 'out-rtcm3' in o['flags'] else 0)
    baud = 9600 if o['baud'] is None else o['baud']
    port = {'uart1': 1, 'uart2': 2, 'usb': 3}[o['select'] or 'usb']
    le = lambda v, n: v.to_bytes(n, 'little')
    return frame(6, 0, bytes([port, 0]) + le(0, 2) + le(mode, 4) + le(baud, 4) + le(inp, 2) + le(out or 1, 2) + le(0, 2) + le(0, 2))
CFG_MSG = frame(6, 1, bytes([1, 7, 0, 1, 1, 1, 0, 0]))
POLL = frame(10, 4)
ACK = lambda c, i: frame(5, 1, bytes([c, i]))

def args_of(g, o):
    a = ['-p', PORT]
    for k in ('baud', 'stop-bits', 'data-bits', 'parity'):
        if g.get(k) is not None:
            a += [f'--{k}', str(g[k])]
    if o is not None:
        a.append('configure')
        for k, n in (('select', 'select'), ('baud', 'baud'), ('stop', 'stop-bits'), ('data', 'data-bits'), ('parity', 'parity')):
            if o[k] is not None:
                a += [f'--{n}', str(o[k])]
        a += [f'--{f}' for f in o['flags']]
    return a
def opts(select='usb', baud=None, stop=None, data=None, parity=None, flags=()):
    return dict(select=select, baud=baud, stop=stop, data=data, parity=parity, flags=list(flags))

KNOWN = {}
def load_known():
    for l in open(f'{ROOT}/known_findings.txt'):
        if l.startswith('finding: property=C22 key='):
            k, _, t = l[len('finding: property=C22 key='):].partition(' ')
            KNOWN[k] = t.strip()
SEEN = {}

class Bad(Exception):
    pass

def known(key, what):
    """A listed finding is noted and the run goes on; anything else is a violation."""
    if key not in KNOWN:
        raise Bad(what)
    SEEN[key] = SEEN.get(key, 0) + 1

def check_settings(g, flag, speed):
    b = 9600 if g.get('baud') is None else g['baud']
    if speed != (b, b):
        raise Bad(f'the port is opened with {speed} baud, expected {b}')
    size = {0o40: '7', 0o60: '8'}.get(flag & 0o60)
    if size != (g.get('data-bits') or '8'):
        raise Bad(f'the port is opened with {size} data bits')
    stop = '2' if flag & 0o100 else '1'
    if stop != (g.get('stop-bits') or '1'):
        raise Bad(f'the port is opened with {stop} stop bits')
    par = None if not flag & 0o400 else 'odd' if flag & 0o1000 else 'even'
    if par != g.get('parity'):
        w = f'the port is opened with parity {par}, expected {g.get("parity")}'
        if {par, g.get('parity')} == {'odd', 'even'}:
            known('parity-swapped', w)
        else:
            raise Bad(w)

def same_cfg(got, o):
    want = expected_cfg(o)
    if got == want:
        return
    w = f'the port configuration sent is {got.hex()}, expected {want.hex()}'
    if len(got) != len(want):
        raise Bad(w)
    # the listed findings, and nothing else, may explain the difference
    alt = dict(o)
    keys = []
    if o['parity'] in ('odd', 'even') and got[13 - 2] != want[13 - 2]:
        alt['parity'] = {'odd': 'even', 'even': 'odd'}[o['parity']]
        keys.append('parity-swapped')
    if got[14:18] != want[14:18] and o['baud'] is not None:
        alt['baud'] = 9600
        keys.append('cfg-baud-ignored')
    if not keys or got != expected_cfg(alt):
        raise Bad(w)
    for k in keys:
        known(k, w)

def judge(g, o, script, rc, log, tail):
    """The record of one run against the model."""
    if o is not None and 'in-rtcm' in o['flags'] and 'in-rtcm3' in o['flags']:
        if rc == 0 or any(e[0] == 'W' for e in log):
            raise Bad('RTCM and RTCM3 together are not refused')
        return
    if rc != 0:
        raise Bad(f'the tool ends with status {rc}: {tail}')
    if not log or log[0] != 'O':
        raise Bad('the port is not opened')
    if log[-1] != 'E':
        raise Bad('the tool ends by itself')
    if sum(e == 'O' for e in log) != 1:
        raise Bad('the port is opened more than once')
    todo = ([('cfg', (6, 0))] if o is not None else []) + [('msg', (6, 1)), ('poll', None)]
    data = b''.join(bytes.fromhex(e[1:]) for e in script if e[0] == 'D')
    seen, sent = 0, b''        # bytes read; bytes of the current request
    step = 0                   # request being written or waited for
    base, due = 0, False       # packets before the request; its acknowledgement is there
    settings = None
    started = False
    def size(k):
        return {'cfg': 28, 'msg': 16, 'poll': 8}[todo[k][0]]
    for e in log[1:]:
        if e[0] == 'S':
            f, _, i, w = e[1:].split()
            settings = (int(f, 16), (int(i), int(w)))
        elif e[0] == 'W':
            if not started:
                started = True
                if settings is None:
                    raise Bad('the port settings are not made')
                check_settings(g, *settings)
            if step == len(todo):
                raise Bad(f'{e[1:]} is sent after everything was')
            if len(sent) == size(step):
                if not due:
                    raise Bad(f'{e[1:]} is sent before {todo[step][0]} was acknowledged')
                step, sent, due = step + 1, b'', False
                if step == len(todo):
                    raise Bad(f'{e[1:]} is sent after everything was')
            sent += bytes.fromhex(e[1:])
            if len(sent) > size(step):
                raise Bad(f'{sent.hex()} is sent, longer than the {todo[step][0]} request')
            if len(sent) == size(step):
                if todo[step][0] == 'cfg':
                    same_cfg(sent, o)
                elif sent != (CFG_MSG if todo[step][0] == 'msg' else POLL):
                    raise Bad(f'{sent.hex()} is sent instead of the {todo[step][0]} request')
                base = len(scan(data[:seen]))
        elif e[0] in 'RTE':
            if len(sent) != (size(step) if step < len(todo) else 0):
                raise Bad(f'only {sent.hex()} of the {todo[step][0]} request is sent')
            if e[0] == 'R':
                seen += int(e[1:])
                if todo[step][1] is not None:
                    due = any(p == (5, 1, bytes(todo[step][1])) for p in scan(data[:seen])[base:])
            elif due and quiet:
                raise Bad(f'the tool keeps waiting although {todo[step][0]} was acknowledged')
        quiet = e[0] == 'T' and due
    want = len(todo) - 1
    if due:
        raise Bad('the tool never went on after the last acknowledgement')
    return step

def execute(script):
    """One run of the tool against the scripted device: its status (None if it neither ends nor computes for
    a minute), what it printed, its errors and the device's record. The preloaded device limits its computing
    time and its output."""
    args, events = script
    files = [tempfile.TemporaryFile(dir=WORK) for _ in range(3)]
    try:
        out, err, log = files
        p = subprocess.Popen([EXE, *args], stdin=subprocess.DEVNULL, stdout=out, stderr=err, pass_fds=(log.fileno(),),
                             env={'PATH': '/usr/bin:/bin', 'LD_PRELOAD': SHIM, 'MC_PORT': PORT, 'MC_LOG': str(log.fileno()), 'MC_SCRIPT': ';'.join(events) + ';', 'RUST_BACKTRACE': '0'})
        try:
            rc = p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        r = []
        for f in files:
            f.seek(0)
            r.append(f.read())
        return rc, *r
    finally:
        for f in files:
            f.close()

HANG = 'the tool keeps computing or printing, or hangs'
def run(job):
    g, o, script = job
    rc, _, err, log = execute((args_of(g, o), script))
    log = log[:1 << 20].decode().split('\n')[:-1]
    if rc in (None, -signal.SIGXCPU, -signal.SIGXFSZ, -signal.SIGKILL):
        return job, log[:2000], HANG
    try:
        step = judge(g, o, script, rc, log, err.decode(errors='replace')[-300:])
    except Bad as b:
        return job, log, str(b)
    return job, (step, tuple(e[0] for e in log)), None

# ---------------------------------------------------------------- what is enumerated
def D(b):
    return 'D' + b.hex()
def finish(o):
    """The device acknowledges everything at once."""
    return ([D(ACK(6, 0)), 'T'] if o is not None else []) + [D(ACK(6, 1)), 'T', D(MONVER), 'T', 'T']
MONVER = frame(10, 4, b'EXT CORE 1.00'.ljust(30, b'\0') + b'00080000'.ljust(10, b'\0') + b'PROTVER=18.00'.ljust(30, b'\0'))
def pvt(fix):
    p = bytearray(92)
    p[4:12] = bytes([0xe7, 7, 5, 17, 12, 30, 59, 7])
    p[20] = fix
    return frame(1, 7, p)

def option_jobs():
    flags = ('in-ublox', 'in-nmea', 'in-rtcm', 'in-rtcm3', 'out-ublox', 'out-nmea', 'out-rtcm3')
    sets = [c for n in range(8) for c in itertools.combinations(flags, n)]
    par = (None, 'even', 'odd')
    one, two = (None, '1', '2'), (None, '7', '8')
    bauds = (None, 1, 300, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800, 921600, 65535, 65536, 16777216, 4294967295)
    for b, s, d, p in itertools.product(bauds, one, two, par):         # the port's own settings
        g = {'baud': b, 'stop-bits': s, 'data-bits': d, 'parity': p}
        yield g, None, finish(None)
        if DEEP or (b in (None, 115200)):
            o = opts()
            yield g, o, finish(o)
    for f in sets:                                                     # all masks with all ports
        for sel in ('usb', 'uart1', 'uart2'):
            for p in par:
                o = opts(sel, None, None, None, p, f)
                yield {}, o, finish(o)
                if DEEP:
                    for s, d in itertools.product(one, two):
                        o = opts(sel, None, s, d, p, f)
                        yield {}, o, finish(o)
    for sel, b, s, d, p in itertools.product(('usb', 'uart1', 'uart2'), bauds, one[1:], two[1:], par):
        o = opts(sel, b, s, d, p)
        yield {}, o, finish(o)
    for p, q, s, t, d, e in itertools.product(par, par, one[1:], one[1:], two[1:], two[1:]):   # port and configured settings do not mix
        o = opts('uart1', 38400, t, e, q, ('in-nmea',))
        yield {'baud': 57600, 'stop-bits': s, 'data-bits': d, 'parity': p}, o, finish(o)

def tokens(own, other):
    c, i = own
    a = ACK(c, i)
    return {
        'ack': a,
        'ack of the other request': ACK(*other),
        'ack of another class': ACK(c + 1, i),
        'ack of another id': ACK(c, i + 2),
        'ack with class and id exchanged': ACK(i, c),
        'rejection': frame(5, 0, bytes([c, i])),
        'broken ack': a[:-1] + bytes([a[-1] ^ 1]),
        'ack naming another message': a[:7] + bytes([a[7] ^ 0x40]) + a[8:],
        'first bytes of an ack': a[:7],
        'rest of an ack': a[7:],
        'long ack': frame(5, 1, bytes([c, i, 0])),
        'short ack': frame(5, 1, bytes([c])),
        'NMEA': b'$GPTXT,01,01,02,ANTSTATUS=OK*25\r\n',
        'sync byte': b'\xb5',
        'sync bytes': b'\xb5\x62',
        'oversized header': b'\xb5\x62\x05\x01\xff\xff' + bytes([c, i]),
        'short false header': b'\xb5\x62\x05\x01\x0a\x00',
        'NAV-PVT': pvt(3),
        'MON-VER': MONVER,
        'timeout': None,
    }

def scripts():
    """Device behaviours while an acknowledgement is awaited: (options, script)"""
    o = opts('uart1')
    depth = 3 if DEEP else 2
    for phase in (0, 1):
        own, other = ((6, 0), (6, 1)) if phase == 0 else ((6, 1), (6, 0))
        tk = tokens(own, other)
        before = [D(ACK(6, 0)), 'T'] if phase else []
        after = ([D(ACK(6, 1)), 'T'] if not phase else []) + [D(MONVER), 'T', 'T']
        flush = D(b'\0' * 16)      # completes any false header
        for n in range(depth + 1):
            for seq in itertools.product(tk, repeat=n):
                parts = [tk[t] for t in seq]
                ev = [D(x) if x is not None else 'T' for x in parts]
                yield o, before + ev + [flush, D(tk['ack']), 'T'] + after                   # arriving piece by piece
                yield o, before + [x for e in ev for x in (e, 'T')] + [flush, D(tk['ack']), 'T'] + after
                if any(x is not None for x in parts):
                    whole = b''.join(x or b'' for x in parts)
                    yield o, before + [D(whole + b'\0' * 16 + tk['ack']), 'T'] + after      # in one piece
                    yield o, before + [D(whole), 'T', 'T', 'T'] + ['T']                       # nothing more comes
        # every split of the acknowledgement, alone and behind or before other traffic
        a = tk['ack']
        for pre, post in itertools.product((b'', tk['NMEA'], tk['NAV-PVT'], tk['rejection'], tk['broken ack'], tk['ack of the other request']), repeat=2):
            s = pre + a + post
            cuts = range(1, len(s)) if not pre and not post or DEEP else range(len(pre), len(pre) + len(a) + 1)
            for k in cuts:
                for mid in ([], ['T']):
                    yield o, before + [D(s[:k])] + mid + [D(s[k:]), 'T'] + after
            for i, j in itertools.combinations(range(len(pre) + 1, len(pre) + len(a)), 2):
                for m in range(4):
                    yield o, before + [D(s[:i])] + (['T'] if m & 1 else []) + [D(s[i:j])] + (['T'] if m & 2 else []) + [D(s[j:]), 'T'] + after
            yield o, before + [D(bytes([x])) for x in s] + ['T'] + after
            yield o, before + [y for x in s for y in (D(bytes([x])), 'T')] + after
        # more data than one read takes
        for n in (1, 10, 36, 37, 38, 39, 40, 80, 200):
            big = tk['NMEA'] * n
            yield o, before + [D(big + a), 'T'] + after
            yield o, before + [D(a + big), 'T'] + after
            yield o, before + [D(big), 'T', D(a), 'T'] + after
        for k in range(1225, 1245):
            yield o, before + [D(b'\n' * k + a), 'T'] + after
            yield o, before + [D(frame(1, 0x35, bytes(k)) + a), 'T'] + after
    # devices which take few bytes at a time
    for n in range(1, 30):
        yield o, [f'W{n}'] + finish(o)
        yield None, [f'W{n}'] + finish(None)
    # afterwards: whatever is received is only reported
    tk = tokens((6, 0), (6, 1))
    for n in range(1, 3):
        for seq in itertools.product(list(tk) + ['fix'], repeat=n):
            ev = []
            for t in seq:
                x = pvt(5) if t == 'fix' else tk[t]
                ev.append(D(x) if x is not None else 'T')
            yield None, finish(None) + ev + ['T']

def build(who):
    """Compiles the tool of the working tree and the simulated device."""
    global EXE, SHIM
    src = f'{REPO}/examples/ublox-cli'
    if not os.path.exists(f'{src}/Cargo.toml'):
        print(f'{who}: the example has moved', file=sys.stderr)
        sys.exit(2)
    os.makedirs(WORK, exist_ok=True)
    shutil.copytree(src, f'{WORK}/ublox-cli', dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
    t = open(f'{WORK}/ublox-cli/Cargo.toml').read().replace('"../../ublox"', f'"{REPO}/ublox"')
    open(f'{WORK}/ublox-cli/Cargo.toml', 'w').write(t)
    # clap looks arguments up by name and only checks the names in debug builds (known finding cfg-baud-ignored)
    open(f'{WORK}/Cargo.toml', 'w').write('[workspace]\nmembers = ["ublox-cli"]\nresolver = "2"\n\n[profile.dev]\ndebug = false\ndebug-assertions = false\noverflow-checks = true\nlto = "off"\nincremental = false\n')
    if not os.path.exists(f'{WORK}/Cargo.lock'):
        shutil.copy(f'{ROOT}/checks/c22-Cargo.lock', f'{WORK}/Cargo.lock')
    env = {k: v for k, v in os.environ.items() if k not in ('CARGO_TARGET_DIR', 'RUSTFLAGS')}
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=WORK, env=env, capture_output=True, text=True)
    SHIM = f'{WORK}/serial.so'
    q = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', SHIM, f'{ROOT}/checks/c22-serial.c', '-ldl'], capture_output=True, text=True)
    if p.returncode or q.returncode:
        print(p.stderr[-3000:] + q.stderr, file=sys.stderr)
        print(f'{who}: the tool or the simulated device does not build', file=sys.stderr)
        sys.exit(2)
    EXE = f'{WORK}/target/debug/ublox-cli'

def main():
    load_known()
    build('C22')
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            j = json.load(f)
        jobs = [(j['port'], j['configure'], j['script'])]
    else:
        jobs = list(option_jobs()) + [({}, o, s) for o, s in scripts()]
    uniq, seen = [], set()
    for j in jobs:
        k = json.dumps(j)
        if k not in seen:
            seen.add(k)
            uniq.append(j)
    viol, shapes, events = [], set(), 0
    with cf.ThreadPoolExecutor(24) as ex:
        for job, log, what in ex.map(run, uniq, chunksize=16):
            if what is None:
                shapes.add((log, tuple(args_of(job[0], job[1]))))
                events += len(log[1])
            else:
                viol.append((job, log, what))
                if len(viol) == 8:
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
    # the same script gives the same record
    for j in [] if viol else uniq[::max(1, len(uniq) // 40)]:
        if run(j)[1] != run(j)[1]:
            print('C22: a run is not repeatable', file=sys.stderr)
            sys.exit(2)
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    ev = {'property': 'C22', 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': len(shapes), 'transitions': events, 'traces_validated_against_impl': len(uniq), 'exhaustive': True,
                       'bound': f'all option combinations of the stated sets; every sequence of at most {3 if DEEP else 2} of {len(tokens((6, 0), (6, 1)))} device events while each acknowledgement is awaited, in pieces, with pauses, in one piece and cut off; every two- and three-way split of an acknowledgement in other traffic',
                       'runs': len(uniq), 'conformance': 'the model is checked on the binary itself, run by run',
                       'known_findings_seen': SEEN,
                       'samples': [{'args': args_of(j[0], j[1]), 'script': j[2]} for j in (uniq[0], uniq[len(uniq) // 2], uniq[-1])]},
          'assumptions': ['the device acknowledges a request only after it was sent', 'reads fail only by timeout'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    with open(f'{ROOT}/evidence/C22.json', 'w') as f:
        json.dump(ev, f)
    for k in sorted(SEEN):
        print(f'KNOWN-FINDING: property=C22 {KNOWN[k]}')
    os.makedirs(f'{ROOT}/replays', exist_ok=True)
    for k, (job, log, what) in enumerate(viol[:8]):
        path = f'{ROOT}/replays/C22-{k}.json'
        with open(path, 'w') as f:
            json.dump({'property': 'C22', 'what': what, 'port': job[0], 'configure': job[1], 'script': job[2], 'args': args_of(job[0], job[1]), 'record': log}, f)
        print(f'C22 {what}\n    ublox-cli {" ".join(args_of(job[0], job[1]))}\n    {";".join(job[2])[:400]}')
        print(f'VIOLATION property=C22 replay={path}')
    if viol:
        sys.exit(1)
    print(f'C22: held on {len(uniq)} runs ({TIER} tier, {time.time() - T0:.1f} s)')

if __name__ == '__main__':
    main()
