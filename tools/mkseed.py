#!/usr/bin/env python3
"""Packs a planted bug: the diff of a scratch worktree and a demonstration that runs the harness named in a replay file natively
on that (concrete) input.   mkseed.py ID PROPERTY WORKTREE REPLAY 'needs' 'what it breaks'"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPERTIES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, wt, replay, needs, breaks = sys.argv[1:7]
d = os.path.join(V, 'seeded', sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE, check=True).stdout
assert diff
open(d + '/patch.diff', 'wb').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
if replay != '-':
    text = ''.join(l for l in open(replay) if not l.startswith('#') or 'harness=' in l)
    h, e = re.search(r'harness=(\S+) entry=(\S+)', text).groups()
    open(d + '/input.txt', 'w').write(re.sub(r'^#.*\n', '', text, flags=re.M))
    job = [j for p in PROPERTIES.values() for j in p['jobs'] if j['harness'] == h and j['entry'] == e][0]
    shutil.copy(V + '/harness/' + h, d + '/demo.cpp')
    for f in os.listdir(V + '/harness'):
        if f.endswith('.hpp') and f in open(d + '/demo.cpp').read():
            shutil.copy(V + '/harness/' + f, d)
    for f in ['sx.hpp', 'native.cpp', 'inc/config.hpp']:
        shutil.copy(V + '/engine/' + f, d)
    pats = []
    for s in job['src']:
        lib, rest = s.split('/', 1)
        neg = lib.startswith('!')
        lib = lib.lstrip('!')
        pats.append(('!' if neg else '') + 'cpp/subprojects/%s/src/mlrl/%s/%s' % (lib, lib, rest))
    defs = ' '.join(job.get('defines', []))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Runs the code of the repository on the input in input.txt and tests what it does (demo.cpp).
# Exits with a nonzero code if the behaviour is wrong.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
R=$(pwd)
python3 - "$here" "$tmp" <<'P' || exit 0
import concurrent.futures as cf, glob, os, subprocess, sys
here, tmp = sys.argv[1:]
pats = %s
files = []
for p in pats:
    if p[0] == '!':
        out = set(f for q in (p[1:] + '.cpp', p[1:] + '/**/*.cpp') for f in glob.glob(q, recursive=True))
        files = [f for f in files if f not in out]
    else:
        files += [f for q in (p + '.cpp', p + '/**/*.cpp') for f in glob.glob(q, recursive=True)]
files = sorted(set(files)) + [here + '/demo.cpp', here + '/native.cpp']
flags = ['-std=c++20', '-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS=1', '-DSX_DEMO=1', '-DSX_ENTRY=%s'] + %r.split()
flags += ['-I' + here] + ['-Icpp/subprojects/%%s/%%s' %% (l, k) for l in ('common', 'boosting', 'seco') for k in ('include', 'src')]
def cc(i):
    o = '%%s/%%d.o' %% (tmp, i)
    r = subprocess.run(['g++', *flags, '-c', files[i], '-o', o], stderr=subprocess.PIPE, text=True)
    return o, r
objs = []
with cf.ThreadPoolExecutor(8) as pool:
    for o, r in pool.map(cc, range(len(files))):
        if r.returncode:
            print('cannot compile the demonstration:', r.stderr[-2000:])
            sys.exit(1)
        objs.append(o)
r = subprocess.run(['g++', *flags, *objs, '-o', tmp + '/demo'], stderr=subprocess.PIPE, text=True)
if r.returncode:
    print('cannot link the demonstration:', r.stderr[-2000:])
    sys.exit(1)
P
for fill in 0 255 190; do
    ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=$fill SX_REPLAY=$here/input.txt timeout 100 "$tmp/demo"
    rc=$?
    # 3, 4: the demonstration does not apply to the input
    if [ $rc -ne 0 ] && [ $rc -ne 3 ] && [ $rc -ne 4 ]; then
        echo "the property is violated (exit code $rc)"
        exit 1
    fi
done
exit 0
''' % (pats, e, defs))
    os.chmod(d + '/demo.sh', 0o755)
print('wrote', d)
