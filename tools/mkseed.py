#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py.

Each seed is applied in a scratch copy of /repo (a git worktree under /tmp); it
is kept only if it builds, the stable tests still pass under every feature set,
and its demonstration passes without and fails with it.

    mkseed.py [ID...]     (default: every seed that has no folder yet)
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS, PRELUDE
SC = os.environ.get('SEEDWORK', '/tmp/seedwork')
REPO = SC + '/repo'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable')
FEATS = ['--features ublox/alloc', '', '--no-default-features --features ublox/alloc',
         '--no-default-features --features ublox/serde', '--no-default-features']
DEMO = '''#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -r -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
[profile.dev]
debug = false
T
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/target"
cargo build --offline -q%s
%s
'''
DEPS = {
    'std': 'ublox = { path = "$repo/ublox", features = ["alloc"] }',
    'serde': 'ublox = { path = "$repo/ublox", features = ["alloc", "serde"] }\nserde_json = "1"',
    'chrono': 'ublox = { path = "$repo/ublox", features = ["alloc"] }\nchrono = { version = "0.4", default-features = false }',
    'derive': 'ublox_derive = { path = "$repo/ublox_derive" }\nbitflags = "2"\nserde = "1"',
}

def sh(cmd, cwd, env=ENV, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tests():
    env = dict(ENV, CARGO_TARGET_DIR=SC + '/target', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    bad, n = set(), 0
    for f in FEATS:
        if bad:
            break
        r = sh('cargo test --workspace --no-fail-fast --offline %s -- --test-threads 8' % f, REPO, env)
        if 'could not compile' in r.stdout:
            return {'BUILD ' + r.stdout[-1500:]}, 0
        bad |= set(re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M))
        n += len(re.findall(r'^test \S+ .*\.\.\. ok', r.stdout, re.M))
        if r.returncode and not bad:
            bad.add('rc ' + r.stdout[-800:])
    return bad, n

def main():
    ids = sys.argv[1:] or [s['id'] for s in SEEDS if not os.path.exists(f"{V}/seeded/{s['id']}/meta.json")]
    os.makedirs(SC, exist_ok=True)
    if os.path.exists(REPO):
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', REPO], stderr=subprocess.DEVNULL)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', REPO, 'HEAD'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists('/repo/Cargo.lock') and not os.path.exists(REPO + '/Cargo.lock'):
        shutil.copy('/repo/Cargo.lock', REPO)
    base_bad = None
    for s in SEEDS:
        if s['id'] not in ids:
            continue
        if base_bad is None:
            base_bad, n = tests()
            print('base tests: ok', n, 'failed', base_bad)
        sh('git checkout -q -- .', REPO)
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT matches', t.count(old), 'times:', old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = SC + '/new/' + s['id']
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = sh('git diff', REPO).stdout
            open(d + '/patch.diff', 'w').write(diff)
            kind = s.get('kind', 'std')
            if 'demo' in s:
                open(d + '/main.rs', 'w').write(PRELUDE[kind] + s['demo'])
                run = '"$d/target/debug/demo"'
                tail = ' || exit 2' if not s.get('compile_fail') else ''
                if s.get('compile_fail'):
                    # the definition must be refused by the macro itself
                    demo = DEMO % (DEPS[kind], ' 2> err', 'rc=$?\n[ $rc -ne 0 ] && grep -q %s err' % json.dumps(s['compile_fail']))
                else:
                    demo = DEMO % (DEPS[kind], tail, run)
                open(d + '/demo.sh', 'w').write(demo)
            else:
                open(d + '/demo.sh', 'w').write(s['demo_sh'])
            os.chmod(d + '/demo.sh', 0o755)
            if kind != 'derive':
                shutil.copy(V + ('/checks/c22-Cargo.lock' if kind == 'cli' else '/mc/Cargo.lock'), d + '/Cargo.lock')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            bad, n = tests()
            r1 = sh(f'bash {d}/demo.sh', REPO, timeout=300)
            sh('git checkout -q -- .', REPO)
            r0 = sh(f'bash {d}/demo.sh', REPO, timeout=300)
            ok = bad <= base_bad and r0.returncode == 0 and r1.returncode != 0 and r1.returncode != (2 if not s.get('compile_fail') else 0)
            print(s['id'], 'KEPT' if ok else 'REJECTED', 'tests failed', bad - base_bad, 'demo clean', r0.returncode, 'patched', r1.returncode, flush=True)
            if not ok or '-v' in sys.argv:
                print('   | '.join(['']+[l for l in (r0.stdout+r1.stdout).splitlines() if 'panicked' in l or l.startswith('error') or 'left' in l][:4]))
            if ok:
                t = f"{V}/seeded/{s['id']}"
                shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', REPO], stderr=subprocess.DEVNULL)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])

main()
