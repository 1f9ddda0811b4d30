#!/usr/bin/env python3
"""
Decides one property: compiles the harnesses of the property together with the current sources in /repo to LLVM bitcode,
executes them symbolically with symx, and replays every counterexample against a native build of the same sources.

    check.py <property> [--tier quick|thorough] [--job NAME] [--verbose]

Exit 0: held on everything explored. Exit 1: a confirmed violation that is not a known finding. Exit 2: no answer.
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.environ.get('SX_BUILD', os.path.join(VERIF, 'build'))
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
SUB = os.path.join(REPO, 'cpp/subprojects')
CPUS = min(8, os.cpu_count() or 8)
START = time.time()

INC = ['-I' + os.path.join(VERIF, 'engine/inc'), '-I' + os.path.join(VERIF, 'engine'), '-I' + os.path.join(VERIF, 'harness')]
for _lib in ('common', 'boosting', 'seco'):
    INC += ['-I' + os.path.join(SUB, _lib, 'include'), '-I' + os.path.join(SUB, _lib, 'src')]
BC_FLAGS = ['-std=c++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-w',
            '-D_GLIBCXX_ASSERTIONS=1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-math-errno', '-ffp-contract=off', '-U_FORTIFY_SOURCE',
            '-fno-stack-protector']
NATIVE_FLAGS = ['-std=c++20', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS=1', '-fsanitize=address', '-fno-omit-frame-pointer',
                '-ffp-contract=off']

verbose = False


def log(*a):
    if verbose:
        print('[%6.1f]' % (time.time() - START), *a, file=sys.stderr, flush=True)


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(path):
    with open(path, 'rb') as f:
        return f.read()


_tree = None


def tree_hash():
    """Hash of all C++ headers and sources of /repo."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for lib in ('common', 'boosting', 'seco'):
            for sub in ('include', 'src'):
                for root, dirs, files in sorted(os.walk(os.path.join(SUB, lib, sub))):
                    dirs.sort()
                    for f in sorted(files):
                        if f.endswith('.hpp') or f.endswith('.h'):
                            h.update(os.path.join(root, f).encode())
                            h.update(read(os.path.join(root, f)))
        for f in sorted(glob.glob(os.path.join(VERIF, 'engine/*.hpp')) + glob.glob(os.path.join(VERIF, 'engine/inc/*'))):
            h.update(read(f))
        _tree = h.hexdigest()[:20]
    return _tree


def build_engine():
    srcs = sorted(glob.glob(os.path.join(VERIF, 'engine/symx*')))
    key = sha(*[read(s) for s in srcs])
    exe = os.path.join(BUILD, 'symx-' + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = sh(['llvm-config-18', '--cppflags']).stdout.split()
    tmp = exe + '.%d.tmp' % os.getpid()
    r = sh(['clang++-18', '-O2', '-std=c++17', '-w', '-fno-rtti', '-fexceptions', *flags, '-I' + Z3 + '/include',
            os.path.join(VERIF, 'engine/symx.cpp'), '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-L' + Z3 + '/lib', '-lz3',
            '-Wl,-rpath,' + Z3 + '/lib'])
    if r.returncode:
        print(r.stdout)
        raise RuntimeError('engine build failed')
    os.rename(tmp, exe)
    log('engine built')
    return exe


def _compile(src, out, cmd):
    if os.path.exists(out):
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = sh(cmd + [src, '-o', tmp])
    if r.returncode:
        return '%s: %s' % (src, r.stdout[-3000:])
    os.rename(tmp, out)
    return None


def bc_path(src, defines):
    inc_harness = b''
    if src.startswith(VERIF):
        inc_harness = b''.join(read(f) for f in sorted(glob.glob(os.path.join(VERIF, 'harness/*.hpp'))))
    k = sha(read(src), inc_harness, src, tree_hash(), ' '.join(BC_FLAGS + defines))
    return os.path.join(BUILD, 'bc', os.path.basename(src)[:-4] + '-' + k + '.bc')


def nat_path(src, defines):
    inc_harness = b''
    if src.startswith(VERIF):
        inc_harness = b''.join(read(f) for f in sorted(glob.glob(os.path.join(VERIF, 'harness/*.hpp'))))
    k = sha(read(src), inc_harness, src, tree_hash(), ' '.join(NATIVE_FLAGS + defines))
    return os.path.join(BUILD, 'nat', os.path.basename(src)[:-4] + '-' + k + '.o')


def compile_bc(pool, srcs, defines):
    futs = {}
    for s in srcs:
        out = bc_path(s, defines)
        futs[s] = (out, pool.submit(_compile, s, out, ['clang++-18', *BC_FLAGS, *defines, *INC, '-c', '-emit-llvm']))
    outs, errors = [], []
    for s, (out, f) in futs.items():
        e = f.result()
        if e:
            errors.append(e)
        else:
            outs.append(out)
    return outs, errors


def expand(patterns):
    """'common/input/*' -> all matching .cpp files of that library"""
    res = []
    for p in patterns:
        lib, _, rest = p.partition('/')
        base = os.path.join(SUB, lib, 'src/mlrl', lib)
        if not rest or rest == '**':
            m = glob.glob(base + '/**/*.cpp', recursive=True)
        else:
            m = glob.glob(os.path.join(base, rest if rest.endswith('.cpp') else rest + '.cpp'), recursive=True)
        for x in sorted(m):
            if x not in res:
                res.append(x)
    return res


def all_sources(libs):
    return expand([l + '/**' for l in libs])


def undefined_repo_symbols(bc):
    r = sh(['llvm-nm-18', '--undefined-only', '--demangle', bc])
    bad = []
    for line in r.stdout.splitlines():
        s = line.strip()
        if s.startswith('U '):
            s = s[2:]
        m = re.match(r'(?:non-virtual thunk to |virtual thunk to |vtable for |typeinfo (?:name )?for |VTT for |guard variable for )*(.*)', s)
        n = m.group(1)
        if n.startswith(('std::', '__', 'operator', 'sx_', 'llvm.', '_', 'vtable for std', 'typeinfo for std')):
            continue
        if re.match(r'^[a-z_0-9]+$', n):
            continue
        bad.append(n)
    return bad


def link(pool, harness, srcs, defines, entries, libs):
    hsrc = os.path.join(VERIF, 'harness', harness)
    rt = os.path.join(VERIF, 'engine/rt.cpp')
    files = expand(srcs)

    def attempt(fs):
        outs, errors = compile_bc(pool, [hsrc, rt] + fs, defines)
        if errors:
            return None, errors
        key = sha(*sorted(outs), ' '.join(sorted(entries)))
        linked = os.path.join(BUILD, 'link', harness[:-4] + '-' + key + '.bc')
        if not os.path.exists(linked):
            os.makedirs(os.path.dirname(linked), exist_ok=True)
            tmp = linked + '.%d.%d' % (os.getpid(), threading.get_ident())
            r = sh(['llvm-link-18', '-o', tmp + '.a'] + outs)
            if r.returncode:
                return None, ['llvm-link: ' + r.stdout[-2000:]]
            r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(sorted(entries)),
                    tmp + '.a', '-o', tmp + '.b'])
            if r.returncode:
                return None, ['opt: ' + r.stdout[-2000:]]
            os.unlink(tmp + '.a')
            os.rename(tmp + '.b', linked)
        return linked, []

    linked, errors = attempt(files)
    if linked:
        und = undefined_repo_symbols(linked)
        if und:
            log('undefined symbols, falling back to all sources:', und[:12])
            files2 = all_sources(libs)
            linked2, errors2 = attempt(files2)
            if linked2:
                return linked2, files2, []
        return linked, files, []
    if any(e.startswith(VERIF) for e in errors):
        return None, files, errors
    # a source file may have been renamed or split
    files2 = all_sources(libs)
    if files2 != files:
        linked, errors2 = attempt(files2)
        if linked:
            return linked, files2, []
    return None, files, errors


class Native:
    """Native builds of a harness for replays."""

    def __init__(self, harness, files, defines, linked):
        self.harness, self.files, self.defines, self.linked = harness, files, defines, linked
        self.lock = threading.Lock()
        self.exe = {}

    def asan(self, entry):
        with self.lock:
            if ('asan', entry) in self.exe:
                return self.exe[('asan', entry)]
            hsrc = os.path.join(VERIF, 'harness', self.harness)
            objs = []
            with cf.ThreadPoolExecutor(CPUS) as pool:
                fs = []
                for s in [hsrc] + self.files:
                    out = nat_path(s, self.defines)
                    objs.append(out)
                    fs.append(pool.submit(_compile, s, out, ['g++', *NATIVE_FLAGS, *self.defines, *INC, '-c']))
                for f in fs:
                    if f.result():
                        log('native compile:', f.result())
                        self.exe[('asan', entry)] = None
                        return None
            exe = os.path.join(BUILD, 'nat', 'asan-%s-%s-%s' % (self.harness[:-4], entry, sha(*objs)))
            if not os.path.exists(exe):
                cmd = ['g++', *NATIVE_FLAGS, *INC, '-DSX_ENTRY=' + entry, os.path.join(VERIF, 'engine/native.cpp'), *objs, '-o', exe]
                r = sh(cmd)
                if r.returncode:
                    # functions that are not needed by the harness may be missing
                    r = sh(cmd + ['-Wl,--unresolved-symbols=ignore-all'])
                if r.returncode:
                    log('native link:', r.stdout[-3000:])
                    exe = None
            self.exe[('asan', entry)] = exe
            return exe

    def plain(self, entry):
        """Built from the linked bitcode: used to validate the symbolic interpreter against compiled code."""
        with self.lock:
            if ('plain', entry) in self.exe:
                return self.exe[('plain', entry)]
            exe = os.path.join(BUILD, 'nat', 'plain-%s-%s-%s' % (self.harness[:-4], entry, sha(self.linked)))
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            if not os.path.exists(exe):
                r = sh(['clang++-18', '-O0', '-w', '-std=c++20', '-I' + os.path.join(VERIF, 'engine'), '-DSX_ENTRY=' + entry,
                        os.path.join(VERIF, 'engine/native.cpp'), self.linked, '-o', exe])
                if r.returncode:
                    log('plain link:', r.stdout[-3000:])
                    exe = None
            self.exe[('plain', entry)] = exe
            return exe


def replay_text(prop, job, inputs, extra=''):
    lines = ['# property=%s harness=%s entry=%s' % (prop, job['harness'], job['entry'])]
    if extra:
        lines += ['# ' + l for l in extra.splitlines()]
    for k, v in sorted(job.get('params', {}).items()):
        lines.append('param %s=%d' % (k, v))
    for n, v in inputs:
        lines.append('in %s=%s' % (n, v))
    return '\n'.join(lines) + '\n'


def run_native(exe, replay, fill=None, timeout=60):
    env = dict(os.environ, SX_REPLAY=replay)
    opts = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0'
    if fill is not None:
        opts += ':max_malloc_fill_size=1000000000:malloc_fill_byte=%d' % fill
    env['ASAN_OPTIONS'] = opts
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -999, 'TIMEOUT'


def confirm(native, prop, job, viol, path):
    """Replays a counterexample natively. Returns (confirmed, output)."""
    with open(path, 'w') as f:
        f.write(replay_text(prop, job, viol['inputs'], '%s: %s\nat %s\n%s' % (viol['kind'], viol['msg'], viol['loc'], viol['trace'])))
    exe = native.asan(job['entry'])
    if not exe:
        return None, 'native build failed'
    out = ''
    for fill in ([None, 0, 255, 1, 127, 190] if viol['uninit'] else [None]):
        rc, out = run_native(exe, path, fill)
        crashed = 'AddressSanitizer' in out or rc < 0 or rc == 134 or 'terminate called' in out or 'Assertion' in out
        if viol['kind'] == 'check':
            ok = any(l.startswith('SX-FAIL\t%s\t%s' % (viol['known'], viol['msg'])) for l in out.splitlines())
            # a crash on the way to the assertion is a violation as well
            ok = ok or (crashed and rc != -999)
        else:
            ok = crashed
        if rc == -999:
            ok = viol['kind'] == 'hang'
        if ok:
            with open(path, 'a') as f:
                f.write('# native replay (fill=%s): exit %d\n' % (fill, rc) + ''.join('#   %s\n' % l for l in out.splitlines()[:40]))
            return True, out
    return False, out


def validate_sample(native, prop, job, sample, path):
    exe = native.plain(job['entry'])
    if not exe:
        return None
    with open(path, 'w') as f:
        f.write(replay_text(prop, job, sample['inputs']))
    rc, out = run_native(exe, path)
    if rc not in (0, 1):
        return False
    obs = [l.split('\t')[1:] for l in out.splitlines() if l.startswith('SX-OBS')]
    want = sample['obs']
    if rc == 1:
        return False
    if len(obs) != len(want):
        return False
    for (n, v), (n2, v2) in zip(obs, want):
        a, b = float.fromhex(v), float.fromhex(v2)
        if n != n2 or not (a == b or (a != a and b != b) or abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))):
            return False
    return True


def load_jobs(prop):
    spec = importlib.util.spec_from_file_location('registry', os.path.join(VERIF, 'tools/registry.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.PROPERTIES[prop]


def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def merge(results):
    tot = {}
    for r in results:
        for k, v in r.items():
            if k in ('entry',):
                tot[k] = v
            elif k == 'wall':
                tot[k] = max(tot.get(k, 0), v)
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                l = tot.setdefault(k, [])
                if k == 'functions':
                    l += [x for x in v if x not in l]
                else:
                    l += v
    return tot


def main():
    global verbose
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true', help='only build the engine')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-samples', action='store_true')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--var', help='ad-hoc variants: "entry:k=v,k=v;entry:k=v"')
    args = ap.parse_args()
    verbose = args.verbose
    if args.setup:
        build_engine()
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    prop = args.property
    spec = load_jobs(prop)
    jobs = []
    for j in spec['jobs']:
        if args.var:
            for v in args.var.split(';'):
                e, _, rest = v.partition(':')
                if e == j['entry']:
                    jj = dict(j, procs=2)
                    jj['params'] = {k: int(x) for k, x in (kv.split('=') for kv in rest.split(',') if kv)}
                    jj['name'] = v.replace(':', ',')
                    jobs.append(jj)
            continue
        tiers = j.get('tiers', ('quick', 'thorough'))
        if tier not in tiers:
            continue
        for p in (j.get('variants') or [{}]) + ((j.get('thorough_variants') or []) if tier == 'thorough' else []):
            jj = dict(j)
            jj['params'] = dict(j.get('params', {}), **p)
            jj['name'] = j['entry'] + ''.join(',%s=%s' % kv for kv in sorted(jj['params'].items()))
            if args.job and args.job not in jj['name']:
                continue
            jobs.append(jj)
    evdir = os.path.join(VERIF, 'evidence')
    repdir = os.path.join(evdir, 'replays')
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(os.path.join(repdir, prop + '-*')):
        os.unlink(f)
    work = os.path.join(BUILD, 'work', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    errors, warnings = [], []
    pool = cf.ThreadPoolExecutor(CPUS)
    engine_f = pool.submit(build_engine)

    groups = {}
    for j in jobs:
        groups.setdefault((j['harness'], tuple(j['src']), tuple(j.get('defines', ()))), []).append(j)
    natives = {}
    pool2 = cf.ThreadPoolExecutor(4)

    def prep(key):
        harness, src, defines = key
        entries = {j['entry'] for j in groups[key]}
        libs = sorted({s.split('/')[0] for s in src} | {'common'})
        return key, link(pool, harness, list(src), list(defines), entries, libs)

    linked = {}
    for key, (l, files, errs) in pool2.map(prep, list(groups)):
        if not l:
            errors += errs
        else:
            linked[key] = l
            natives[key] = Native(key[0], files, list(key[2]), l)
    try:
        engine = engine_f.result()
    except RuntimeError as e:
        print('ERROR:', e)
        return 2
    log('linked %d groups' % len(linked))

    # run the jobs; every job uses "procs" processes
    slots = threading.Semaphore(CPUS)
    slot_lock = threading.Lock()

    def run(j):
        key = (j['harness'], tuple(j['src']), tuple(j.get('defines', ())))
        if key not in linked:
            return j, None
        n = min(CPUS, j.get('procs', 1))
        with slot_lock:
            for _ in range(n):
                slots.acquire()
        try:
            out = os.path.join(work, re.sub(r'[^A-Za-z0-9_=]', '_', j['name']))
            t = j.get('time_thorough', 1200) if tier == 'thorough' else j.get('time', 120)
            cmd = [engine, linked[key], '-entry', j['entry'], '-o', out, '-time', str(t), '-j', str(n), '-seed', str(seed),
                   '-samples', str(j.get('samples', 5)), '-query-ms', str(j.get('query_ms', 20000))]
            if j.get('ieee'):
                cmd.append('-ieee')
            if args.trace:
                cmd.append('-trace')
            for k, v in j['params'].items():
                cmd += ['-p', '%s=%d' % (k, v)]
            try:
                r = sh(cmd, timeout=t + 240)
                if r.stdout.strip():
                    log('symx output of %s: %s' % (j['name'], r.stdout[-6000:]))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -999
            res = []
            for f in glob.glob(glob.escape(out) + '.*'):
                try:
                    res.append(json.load(open(f)))
                except ValueError:
                    rc = rc or 5
            m = merge(res) if res else None
            if m is not None:
                m['rc'] = rc
            log('job', j['name'], 'rc=%s' % rc, {k: m[k] for k in ('paths', 'queries', 'checks', 'killed_unsupported', 'killed_limit', 'killed_error', 'pending', 'unknown', 'checks_unknown', 'solver_time', 'wall')} if m else None,
                m and m['unsupported'] or '', m and [(v['msg'], v['known']) for v in m['violations']] or '')
            return j, m
        finally:
            for _ in range(n):
                slots.release()

    jobs.sort(key=lambda j: -j.get('cost', 1))
    with cf.ThreadPoolExecutor(CPUS) as rpool:
        results = list(rpool.map(run, jobs))

    known = known_findings(prop)
    known_seen = {}
    confirmed, unconfirmed = [], []
    validated = mismatched = 0
    reach_missing = []
    sample_list = []
    vi = 0
    for j, m in results:
        if m is None:
            errors.append('job %s gave no result' % j['name'])
            continue
        if m['rc'] not in (0,):
            warnings.append('job %s: engine exit %s' % (j['name'], m['rc']))
        key = (j['harness'], tuple(j['src']), tuple(j.get('defines', ())))
        nat = natives[key]
        done = {}
        for v in m['violations']:
            sig = (v['kind'], v['msg'], v['known'])
            if done.get(sig) or (v['known'] and v['known'] in known and v['known'] in known_seen):
                continue
            vi += 1
            path = os.path.join(repdir, '%s-%d.txt' % (prop, vi))
            ok, out = confirm(nat, prop, j, v, path)
            log('replay', j['name'], sig, 'confirmed' if ok else 'NOT confirmed', '' if ok else out[-1500:])
            if ok:
                done[sig] = True
                if v['known'] and v['known'] in known:
                    known_seen[v['known']] = path
                else:
                    confirmed.append((j, v, path))
            else:
                unconfirmed.append({'job': j['name'], 'msg': v['msg'], 'loc': v['loc'], 'exact': v['exact']})
                if ok is not None:
                    os.unlink(path)
        unconfirmed = [u for u in unconfirmed if not any(c[1]['msg'] == u['msg'] for c in confirmed)]
        missing = [l for l in j.get('reach', []) if not m['reach'].get(l)]
        if missing:
            reach_missing.append('%s: %s' % (j['name'], ', '.join(missing)))
        if not args.no_samples and not confirmed:
            for s in m['samples'][:j.get('samples', 5)]:
                ok = validate_sample(nat, prop, j, s, os.path.join(work, 'sample.txt'))
                if ok:
                    validated += 1
                elif ok is False:
                    mismatched += 1
                    log('sample mismatch', j['name'], s)
        if m['samples']:
            sample_list.append({'job': j['name'], 'inputs': dict((str(i) + ' ' + a, b) for i, (a, b) in enumerate(m['samples'][-1]['inputs']))})

    tot = merge([m for _, m in results if m]) if any(m for _, m in results) else {}
    complete = bool(tot) and not errors and not warnings and not reach_missing and not any(
        tot.get(k) for k in ('killed_unsupported', 'killed_limit', 'pending', 'checks_unknown'))
    fns = sorted(f for f in tot.get('functions', []) if not f.startswith(('std::', 'h_', 'harness', '__', 'void std::', 'bool std::', 'operator'))
                 and 'std::' not in f.split('(')[0] and '__gnu_cxx' not in f.split('(')[0])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0) + tot.get('forks', 0)),
            'transitions': int(tot.get('insts', 0)),
            'paths': int(tot.get('paths', 0)),
            'traces_validated_against_impl': validated,
            'trace_mismatches': mismatched,
            'solver_queries': int(tot.get('queries', 0)), 'sat': int(tot.get('sat', 0)), 'unsat': int(tot.get('unsat', 0)),
            'unknown': int(tot.get('unknown', 0)),
            'solver_time_s': round(tot.get('solver_time', 0), 2),
            'assertions_evaluated': int(tot.get('checks', 0)), 'assertions_decided_by_solver': int(tot.get('checks_solver', 0)),
            'assertion_sites': tot.get('check_sites', {}),
            'exhaustive': complete,
            'incomplete_because': {k: tot.get(k, 0) for k in ('killed_unsupported', 'killed_limit', 'pending', 'checks_unknown') if tot.get(k)},
            'unsupported': tot.get('unsupported', {}),
            'unconfirmed_counterexamples': unconfirmed,
            'reach': tot.get('reach', {}), 'reach_missing': reach_missing,
            'functions_encoded': fns, 'functions_encoded_count': len(fns),
            'bounds': spec.get('bounds', ''),
            'jobs': [{'job': j['name'], **({k: m[k] for k in ('paths', 'queries', 'checks', 'solver_time', 'wall')} if m else {'error': True}),
                      'arithmetic': 'IEEE-754' if j.get('ieee') else 'reals', 'bounds': j.get('bounds', '')} for j, m in results],
            'samples': sample_list[:8],
            'explanation': spec.get('explanation', ''),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - START, 2),
        'violations': len(confirmed),
        'errors': errors, 'warnings': warnings,
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)

    print('%s: %d jobs, %d paths, %d assertions (%d by the solver), %d queries, %.1f s solver time, %d traces validated, %s, %.1f s' % (
        prop, len(jobs), tot.get('paths', 0), tot.get('checks', 0), tot.get('checks_solver', 0), tot.get('queries', 0),
        tot.get('solver_time', 0), validated, 'exhaustive within the bounds' if complete else 'NOT exhaustive', time.time() - START))
    for e in errors:
        print('ERROR:', e)
    for w in warnings:
        print('WARNING:', w)
    for k, n in sorted(tot.get('unsupported', {}).items()):
        print('WARNING: %d path(s) given up: %s' % (n, k))
    for l in reach_missing:
        print('WARNING: not reached:', l)
    for u in unconfirmed:
        print('WARNING: counterexample not reproduced natively:', u)
    if mismatched:
        print('WARNING: %d sampled traces differ between the encoding and the native code' % mismatched)
    for k in sorted(known):
        if k in known_seen:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]))
    for j, v, path in confirmed:
        print('%s in %s: %s (at %s)' % (v['kind'], j['name'], v['msg'], v['loc']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if confirmed:
        return 1
    if not tot or not tot.get('checks') or not tot.get('paths'):
        print('ERROR: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
