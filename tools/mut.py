#!/usr/bin/env python3
"""mut.py cXX[,cYY] N SEED FILE...: random one-token mutations of library sources, each compiled and
checked by the given contract binaries in a scratch copy; prints the survivors."""
import sys, re, random, subprocess, shutil, os, concurrent.futures as cf, threading
bins = sys.argv[1].split(','); N = int(sys.argv[2]); seed = int(sys.argv[3]); files = sys.argv[4:]
SRC = '/repo/crates/multicalc/src/'
W = int(os.environ.get('W', '5'))
base = '/tmp/mut'
RULES = [
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '),
    (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' > ', ' < '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r'T::ONE\b', 'T::TWO'), (r'T::HALF\b', 'T::ONE'), (r'T::TWO\b', 'T::ONE'),
    (r'T::ZERO\b', 'T::ONE'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\[2\]', '[1]'), (r'(?<=[(\s=,])-(?=[a-z(T])', ''),
    (r'\bif (?!let)([^{]+) \{', r'if false && (\1) {'), (r'\bif (?!let)([^{]+) \{', r'if true || (\1) {'), (r'\bif !', 'if '),
    (r'\.sin\(\)', '.cos()'), (r'\.cos\(\)', '.sin()'), (r'\.transpose\(\)', ''), (r'\.abs\(\)', ''), (r'\.sqrt\(\)', ''),
    (r'\.\.=', '..'), (r'(?<=\d)\.\.(?=[A-Za-z0-9])', '..='), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r' \+= ', ' -= '), (r' -= ', ' += '),
    (r'from_f64\((\d)', r'from_f64(1\1'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' - 1\b', ''),
    (r'^(\s+)self\.\w+(\.\w+)* = .*;$', r'\1;'), (r'^(\s+)\w+\[.*\] = .*;$', r'\1;'), (r'\.is_finite\(\)', '.is_nan()'),
]
muts = []
for f in files:
    p = SRC + f
    lines = open(p).read().split('\n')
    intest = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]'):
            break
        if s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'assert', 'debug_assert', 'impl', 'pub fn', 'fn ', 'where', 'const ', 'pub const')) or 'expect(' in s:
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                code = l.split('//')[0]
                if m.start() >= len(code): continue
                if re.search(r"<'|->|=>", l[max(0,m.start()-2):m.end()+2]): continue
                muts.append((f, i, l[:m.start()] + m.expand(rep) + l[m.end():], l))
random.seed(seed); random.shuffle(muts)
only = os.environ.get('LINES')
if only:
    a, z = map(int, only.split('-')); muts = [m for m in muts if a <= m[1]+1 <= z]
muts = muts[:N]
pool = list(range(W)); lock = threading.Lock()
def setup(k):
    d = f'{base}/{k}'
    subprocess.run(['rm', '-rf', d + '/repo'])
    os.makedirs(d, exist_ok=True)
    subprocess.run(f'mkdir -p {d}/repo && cp -a /repo/Cargo.toml /repo/crates {d}/repo/ ; cp /repo/Cargo.lock {d}/repo/ 2>/dev/null; mkdir -p {d}/vc {d}/v/evidence/replay; cp -a /verif/vc/Cargo.* /verif/vc/engine /verif/vc/contracts {d}/vc/; mkdir -p {d}/v/vc; cp -a /verif/vc/baseline {d}/v/vc/; cp -a /verif/kani /verif/known_findings.txt {d}/v/', shell=True)
    if not os.path.isdir(d + '/vc/target'):
        subprocess.run(f'cp -a /verif/vc/target {d}/vc/', shell=True)
    subprocess.run(f'grep -rl /repo/crates {d}/vc/contracts/Cargo.toml {d}/vc/engine/Cargo.toml {d}/v/kani/Cargo.toml | xargs -r sed -i "s#/repo/crates#{d}/repo/crates#"', shell=True)
for k in pool: setup(k)
stats = dict(caught=0, survived=0, nobuild=0, timeout=0)
def run(m):
    f, i, new, old = m
    with lock: k = pool.pop()
    d = f'{base}/{k}'
    p = f'{d}/repo/crates/multicalc/src/{f}'
    src = open(p).read()
    try:
        ls = src.split('\n'); assert ls[i] == old
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        r = subprocess.run(['cargo', 'build', '--offline', '--quiet'] + [x for bn in bins for x in ('--bin', bn)], cwd=d + '/vc', capture_output=True)
        if r.returncode: return m, 'nobuild'
        for bn in bins:
            try:
                r = subprocess.run([f'{d}/vc/target/debug/{bn}', '--verif', d + '/v'], capture_output=True, timeout=int(os.environ.get('TMO', '250')))
            except subprocess.TimeoutExpired:
                return m, 'timeout'
            if r.returncode: return m, 'caught'
        return m, 'survived'
    finally:
        open(p, 'w').write(src)
        with lock: pool.append(k)
with cf.ThreadPoolExecutor(W) as ex:
    for m, r in ex.map(run, muts):
        stats[r] += 1
        if r in ('survived', 'timeout'):
            print(f'{r} {m[0]}:{m[1]+1}: {m[3].strip()[:110]}   ==>   {m[2].strip()[:110]}', flush=True)
print(stats)
