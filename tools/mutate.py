#!/usr/bin/env python3
"""Mutation run: mutates the library's source token by token, keeps the mutants that
pass the stable tests, and looks for a check that catches each (with fewer cases than
the quick tier). usage: mutate.py OUTDIR [stage1|stage2] [FILE-SUBSTRING...]
"""
import json, os, re, subprocess, sys, shutil, threading, queue, time
OUT = sys.argv[1]; STAGE = sys.argv[2]; ONLY = sys.argv[3:]
N = 8 if STAGE == 'stage1' else 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='0', CARGO_BUILD_JOBS='2')
FILES = {
 'src/read/shapefile/shp.rs': 'C01 C04 C06 C03 C26',
 'src/read/shapefile/dbf.rs': 'C02 C05 C06 C03 C26',
 'src/read/shapefile/shapefile.rs': 'C03 C06 C26',
 'src/read/shapefile/geo.rs': 'C07 C08 C25',
 'src/read/shapefile/mod.rs': 'C03',
 'src/geo/mod.rs': 'C09 C10 C26 C08 C11 C12',
 'src/topology/build.rs': 'C11 C12 C13 C14',
 'src/normalize.rs': 'C14 C15 C16 C17 C13',
 'src/simplify/simplify_edge.rs': 'C19 C18 C20',
 'src/simplify/mod.rs': 'C19 C18 C20',
 'src/clip/types.rs': 'C21 C22 C24',
 'src/clip/edge.rs': 'C21 C22 C24',
 'src/clip/topology.rs': 'C22 C23 C24 C13',
}
SUBS = [
 (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' && ', ' || '), (r' \|\| (?!\{)', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '),
 (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\.0\b(?!\.)', '.1'), (r'(?<=[a-z)\]])\.1\b', '.0'),
 (r'Direction::Forward', 'Direction::Backward'), (r'Direction::Backward', 'Direction::Forward'),
 (r'WindingOrder::Clockwise', 'WindingOrder::CounterClockwise'), (r'WindingOrder::CounterClockwise', 'WindingOrder::Clockwise'),
 (r'ClipLocation::Inside', 'ClipLocation::Outside'), (r'ClipLocation::Outside', 'ClipLocation::Inside'), (r'ClipLocation::OnEdge', 'ClipLocation::Inside'), (r'ClipLocation::Inside', 'ClipLocation::OnEdge'),
 (r'min_by_key', 'max_by_key'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'outer_rings', 'inner_rings'), (r'inner_rings', 'outer_rings'),
 (r'\.rev\(\)', ''), (r'\bi128\b', 'i64'), (r'\bu128\b', 'u64'), (r'\bu64\b', 'u32'), (r'as usize', 'as u16 as usize'), (r'as usize', 'as u8 as usize'), (r'as u32', 'as u16 as u32'), (r'as f64', 'as f32 as f64'),
 (r'read_u32', 'read_u16'), (r'read_u16', 'read_u8'), (r'BigEndian', 'LittleEndian'), (r'LittleEndian', 'BigEndian'),
 (r'\.next\b', '.previous'), (r'\.previous\b', '.next'), (r'sift_up', 'sift_down'), (r'sift_down', 'sift_up'),
 (r'min_value', 'max_value'), (r'max_value', 'min_value'), (r'p1', 'p2'), (r'p2', 'p1'),
 (r'Strict', 'Replace'), (r'\bSome\(ref mut last\) if ', 'Some(ref mut last) if false && '), (r'MinX', 'MinY'), (r'MaxX', 'MinX'), (r'MinY', 'MaxY'),
]
def mutants(path):
    src = open('/repo/' + path).read()
    lines = src.split('\n')
    end = next((i for i, l in enumerate(lines) if re.match(r'\s*#\[cfg\([tT]est\)\]', l)), len(lines))
    out = set()
    for i in range(end):
        l = lines[i]
        st = l.strip()
        if not st or st.startswith('//') or st.startswith('use ') or st.startswith('#') or st.startswith('type ') : continue
        code = l.split(' //')[0]
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        inside = lambda p: any(a < p < b for a, b in strs)
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                if inside(m.start()): continue
                out.add((i, code[:m.start()] + rep + code[m.end():]))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-f]+|\d+)(u8|u32)?(?![\w.])', code):
            if inside(m.start()): continue
            v = int(m.group(1), 0); suf = m.group(2) or ''
            out.add((i, code[:m.start()] + str(v + 1) + suf + code[m.end():]))
            if v > 0: out.add((i, code[:m.start()] + str(v - 1) + suf + code[m.end():]))
        m = re.match(r'^(\s*(?:\} else )?if )(?!let )(.*)( \{.*)$', code)
        if m:
            out.add((i, f'{m.group(1)}false && ({m.group(2)}){m.group(3)}'))
            out.add((i, f'{m.group(1)}true || ({m.group(2)}){m.group(3)}'))
        if st.endswith(';') and not re.match(r'(let|use|type|const|return|pub|fn|struct|break|continue)\b', st) and not st.startswith('}'):
            out.add((i, re.match(r'\s*', l).group(0) + '();' if False else ''))
    for i, new in sorted(out):
        if new != lines[i]:
            yield i + 1, lines[i].strip(), new
def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return -9, 'timeout'
def setup(k):
    d = f'{OUT}/w{k}'
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(f'{d}/repo'):
        subprocess.run(['git', 'clone', '-q', '/repo', f'{d}/repo'], check=True)
        for x in ['Cargo.lock']:
            if os.path.exists('/repo/' + x): shutil.copy('/repo/' + x, f'{d}/repo/')
    if STAGE == 'stage2':
        subprocess.run(['rsync', '-a', '--exclude', 'target', '/verif/harness', d]) if shutil.which('rsync') else subprocess.run(f'mkdir -p {d}/harness && cp -r /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {d}/harness/', shell=True, check=True)
        subprocess.run(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/harness/Cargo.toml; sed -i 's#Tier::Quick => P::QUICK,#Tier::Quick => P::QUICK / 8,#; s#(true, Tier::Quick) => P::LARGE,#(true, Tier::Quick) => if shard < 4 {{ (P::LARGE + 3) / 4 }} else {{ 0 }},#; s#Duration::from_secs(60)#Duration::from_secs(1)#; s#CASE_CPU_S: u64 = 40#CASE_CPU_S: u64 = 10#; s#LARGE_CASE_CPU_S: u64 = 180#LARGE_CASE_CPU_S: u64 = 60#; s#Duration::from_secs(40)#Duration::from_secs(1)#' {d}/harness/src/run.rs", shell=True, check=True)
        os.makedirs(f'{d}/root', exist_ok=True)
        subprocess.run(f"cp /verif/known_findings.jsonl {d}/root/; sed -i 's#usize = 3 << 30#usize = 3 << 29#' {d}/harness/src/alloc.rs", shell=True)
    return d
lock = threading.Lock()
def emit(f, rec):
    with lock:
        with open(f, 'a') as h: h.write(json.dumps(rec) + '\n')
def apply(d, m):
    p = f'{d}/repo/{m["file"]}'
    s = open(f'{OUT}/pristine/' + m['file']).read().split('\n')
    s[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(s))
def restore(d, m):
    shutil.copy(f'{OUT}/pristine/' + m['file'], f'{d}/repo/{m["file"]}')
def stage1(d, m):
    apply(d, m)
    e = dict(ENV, CARGO_TARGET_DIR=f'{d}/t1')
    rc, o = run(['cargo', 'test', '--offline', '-q', '--lib'], f'{d}/repo', 90, e)
    r = 'pass'
    if rc != 0: r = 'nocompile' if 'could not compile' in o else 'killed'
    if rc == 0:
        rc, o = run(['cargo', 'test', '--offline', '-q', '--doc'], f'{d}/repo', 180, e)
        if rc != 0: r = 'killed'
    restore(d, m)
    emit(f'{OUT}/stage1.jsonl', dict(m, result=r))
def stage2(d, m):
    apply(d, m)
    e = dict(ENV, CARGO_TARGET_DIR=f'{d}/t2', VERIF_ROOT=f'{d}/root', VERIF_SEED='1')
    rc, o = run(['cargo', 'build', '--release', '--offline', '-q'], f'{d}/harness', 300, e)
    r = 'nobuild'; msg = o[-300:]
    if rc == 0:
        r = 'survived'; msg = ''
        for c in m['checks'].split():
            rc, o = run([f'{d}/t2/release/vh', 'run', c, 'quick'], d, 400, e)
            if rc == 1: r = c; msg = o[-300:]; break
            if rc != 0: r = f'{c} rc={rc}'; msg = o[-300:]; break
    restore(d, m)
    emit(f'{OUT}/stage2.jsonl', dict(m, result=r, msg=msg))
def key(m): return (m['file'], m['line'], m['new'])
if STAGE == 'stage1':
    todo = [dict(file=f, line=n, old=o, new=w, checks=c) for f, c in FILES.items() if not ONLY or any(x in f for x in ONLY) for n, o, w in mutants(f)]
else:
    todo = [m for m in map(json.loads, open(f'{OUT}/stage1.jsonl')) if m['result'] == 'pass' and (not ONLY or any(x in m['file'] for x in ONLY))]
done = set()
if os.path.exists(f'{OUT}/{STAGE}.jsonl'): done = {key(m) for m in map(json.loads, open(f'{OUT}/{STAGE}.jsonl'))}
todo = [m for m in todo if key(m) not in done]
print(len(todo), 'mutants', flush=True)
q = queue.Queue()
for m in todo: q.put(m)
def worker(k):
    d = setup(k)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        try: (stage1 if STAGE == 'stage1' else stage2)(d, m)
        except Exception as ex: emit(f'{OUT}/errors.jsonl', dict(m, error=str(ex)))
ts = [threading.Thread(target=worker, args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
