#!/usr/bin/env python3
"""Confirms planted bugs and stores them under /verif/seeded.

usage: plant.py SPEC.py [ID...]
SPEC.py defines BUGS: a list of dicts with id, property, edits [(file, old, new)],
needs, breaks, demo (Rust statements). Each bug is tried in a scratch copy of
/repo: it must build, pass the stable tests, and its demo must pass without the
patch and fail with it.
"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'
BASE = 'b6a6315'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', RUSTFLAGS='-Awarnings')
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

PRELUDE = open('/verif/tools/demo_prelude.rs').read()
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
topogeo = { path = "$repo" }
encoding = "*"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo run -q --offline
'''

def run(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def one(bug):
    d = f'/tmp/plant-{bug["id"]}'
    out = f'{SEEDED}/{bug["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    try:
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        os.makedirs(out, exist_ok=True)
        open(f'{out}/demo.rs', 'w').write(PRELUDE + '\nfn main() {\n' + bug['demo'].strip('\n') + '\n}\n')
        open(f'{out}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{out}/demo.sh', 0o755)
        r = run(['bash', f'{out}/demo.sh'], d)
        if r.returncode != 0:
            return bug['id'], 'REJECT: demo fails on the unchanged tree\n' + r.stdout[-1500:]
        for f, old, new in bug['edits']:
            p = f'{d}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return bug['id'], f'REJECT: {f}: old text occurs {s.count(old)} times: {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], d).stdout
        # removed lines must be original ones
        for f, _, _ in bug['edits']:
            blame = run(['git', 'blame', '-s', 'HEAD', '--', f], d).stdout.splitlines()
            cur = None
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? .*?$((?:\n[ +\-].*)*)', run(['git', 'diff', f], d).stdout, re.M):
                n = int(h.group(1))
                for l in h.group(3).split('\n')[1:]:
                    if l.startswith('-'):
                        if not blame[n-1].lstrip('^').startswith(BASE):
                            return bug['id'], f'REJECT: touches a line of ours: {blame[n-1]}'
                    if not l.startswith('+'):
                        n += 1
        r = run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '-q'], d)
        if r.returncode != 0:
            return bug['id'], 'REJECT: tests fail\n' + '\n'.join(l for l in r.stdout.splitlines() if 'error[' in l or '--- FAILED' in l)[-500:]
        r = run(['bash', f'{out}/demo.sh'], d)
        if r.returncode == 0:
            return bug['id'], 'REJECT: demo passes with the patch'
        tail = [l for l in r.stdout.splitlines() if 'panicked' in l or 'left' in l or 'right' in l or 'error' in l][:4]
        open(f'{out}/patch.diff', 'w').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
        return bug['id'], 'OK ' + ' | '.join(tail)[:300]
    finally:
        if not os.path.exists(f'{out}/meta.json'):
            shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)

spec = runpy.run_path(sys.argv[1])['BUGS']
ids = sys.argv[2:]
with ThreadPoolExecutor(4) as ex:
    for i, msg in ex.map(one, [b for b in spec if not ids or b['id'] in ids]):
        print(i, msg, flush=True)
