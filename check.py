#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current C sources (see DESIGN.md).

usage: check.py <ID> [--tier quick|thorough] [--only HARNESS] [--keep]   exit 0 held / 1 violated
       check.py --replay FILE                                            re-run a recorded counterexample natively
       check.py --build                                                  build the engine
"""
import sys, os, json, subprocess, shutil, time, re, threading, fcntl, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
ENGINE = os.path.join(ROOT, 'engine', 'build', 'symx')
sys.path.insert(0, ROOT)
NPROC = 8
CDEF = ['-D_GNU_SOURCE', '-DIOT_BUILD_COMPONENTS', '-DIOT_BUILD_DYNAMIC_LOAD', '-D__NO_CTYPE', '-U_FORTIFY_SOURCE', '-std=gnu11']
UBSAN = 'signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,bounds,return,unreachable'


def build_engine():
    os.makedirs(os.path.join(ROOT, 'engine', 'build'), exist_ok=True)
    with open(os.path.join(ROOT, 'engine', 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(ROOT, 'engine')], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(ENGINE):
            sys.stderr.write(r.stdout + r.stderr)
            raise SystemExit('cannot build the symbolic execution engine')


def defs_h(work):
    """include/iot/defs.h is generated by the build; generate it into the work directory when the tree has none"""
    if os.path.exists(REPO + '/include/iot/defs.h'):
        return []
    d = os.path.join(work, 'inc', 'iot'); os.makedirs(d, exist_ok=True)
    t = open(REPO + '/src/c/defs.h.in').read()
    t = re.sub(r'@[A-Za-z_]+@', '0', t)
    t = re.sub(r'#cmakedefine (\w+)', r'#define \1', t)
    open(os.path.join(d, 'defs.h'), 'w').write(t)
    return ['-I' + os.path.join(work, 'inc')]


class Build:
    def __init__(self, work):
        self.work = work; self.inc = ['-I' + REPO + '/include', '-I' + REPO + '/src/c', '-I' + ROOT + '/rt', '-I' + ROOT + '/harness'] + defs_h(work)
        self.memo = {}; self.lock = threading.Lock()

    def once(self, key, fn):
        with self.lock:
            if key not in self.memo:
                self.memo[key] = [threading.Lock(), None, False]
            ent = self.memo[key]
        with ent[0]:
            if not ent[2]:
                ent[1] = fn(); ent[2] = True
        return ent[1]

    def srcpath(self, s):
        if s.startswith('repo:'):
            return REPO + '/src/c/' + s[5:] + '.c'
        if s.startswith('rt:'):
            return ROOT + '/rt/' + s[3:] + '.c'
        return ROOT + '/harness/' + s

    def pool(self, h):
        return ['repo:' + os.path.basename(f)[:-2] for f in sorted(glob.glob(REPO + '/src/c/*.c')) if os.path.basename(f)[:-2] not in h['repo']]

    def bitcode(self, src, defs, ubsan, hook):
        p = self.srcpath(src); key = ('bc', p, tuple(defs), ubsan, hook)
        def go():
            out = os.path.join(self.work, 'bc-' + hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '.bc')
            cmd = ['clang-18'] + CDEF + self.inc + list(defs) + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin', '-emit-llvm', '-w', '-c', p, '-o', out]
            if src.startswith('repo:'):
                cmd += ['-include', ROOT + '/rt/clang_compat.h']
            if ubsan and src.startswith('repo:'):
                cmd += ['-fsanitize=' + UBSAN, '-fsanitize-trap=' + UBSAN]
            if hook and src.startswith('repo:'):
                cmd += ['-include', ROOT + '/rt/atomic_hook.h']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError('compile %s: %s' % (p, r.stderr[:3000]))
            return out
        return self.once(key, go)

    def program(self, h, defs):
        key = ('prog', h['name'], tuple(defs))
        def go():
            srcs = [h['src']] + ['repo:' + x for x in h['repo']] + ['rt:' + x for x in h['rt']]
            bcs = [self.bitcode(s, defs if (s == h['src'] or s.startswith('rt:')) else h.get('cflags', ()), h.get('ubsan', True), h.get('hook', False)) for s in srcs]
            out = os.path.join(self.work, 'p-' + hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '.bc')
            lib = self.once('libc', lambda: self.bitcode('rt:libc', (), False, False))
            def run(cmd):
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError('%s: %s' % (' '.join(cmd)[:200], r.stderr[:2000]))
                return r.stdout
            run(['llvm-link-18'] + bcs + ['-o', out + '.l'])
            und = [l.split()[-1] for l in run(['llvm-nm-18', '-u', out + '.l']).splitlines()]
            if any(u.startswith('iot_') for u in und):
                # code moved to a file the harness does not name: take what is needed from the other sources
                for s in self.pool(h):
                    try:
                        bc = self.bitcode(s, h.get('cflags', ()), h.get('ubsan', True), h.get('hook', False))
                    except RuntimeError:
                        continue
                    run(['llvm-link-18', '--only-needed', out + '.l', bc, '-o', out + '.m']); os.replace(out + '.m', out + '.l')
            run(['llvm-link-18', out + '.l', lib, '-o', out + '.m'])
            run(['opt-18', '-passes=sroa,mem2reg', out + '.m', '-o', out])
            os.unlink(out + '.m')
            os.unlink(out + '.l')
            return out
        return self.once(key, go)

    # ---- native replay build
    def obj(self, src, defs, hook, tsan=False):
        p = self.srcpath(src); key = ('obj', p, tuple(defs), hook, tsan)
        def go():
            out = os.path.join(self.work, 'o-' + hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '.o')
            cmd = ['gcc'] + CDEF + self.inc + list(defs) + ['-O0', '-g', '-fno-builtin', '-fno-omit-frame-pointer', '-w', '-c', p, '-o', out]
            if tsan:     # only the code under test is instrumented: the harness and the environment model are not part of the claim
                cmd += ['-DSYMX_NATIVE', '-DSYMX_TSAN'] + (['-fsanitize=thread'] if src.startswith('repo:') else [])
            else:
                cmd += ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=alignment,null,pointer-overflow,nonnull-attribute', '-fno-sanitize-recover=all', '-DSYMX_NATIVE', '-DSYMX_ASAN']
            if hook and src.startswith('repo:'):
                cmd += ['-include', ROOT + '/rt/atomic_hook.h']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError('compile %s: %s' % (p, r.stderr[:3000]))
            return out
        return self.once(key, go)

    def native(self, h, defs, tsan=False):
        key = ('nat', h['name'], tuple(defs), tsan)
        def go():
            srcs = [h['src']] + ['repo:' + x for x in h['repo']] + ['rt:' + x for x in h['rt']]
            objs = [self.obj(s, defs if (s == h['src'] or s.startswith('rt:')) else h.get('cflags', ()), h.get('hook', False), tsan) for s in srcs]
            base = os.path.join(self.work, 'n-' + hashlib.sha1(repr(key).encode()).hexdigest()[:16])
            syms = set()
            for o in objs:
                for l in subprocess.run(['nm', '--defined-only', o], capture_output=True, text=True).stdout.splitlines():
                    n = l.split()[-1]
                    if n.startswith('sx_') and l.split()[-2] in 'TW':
                        syms.add(n)
            with open(base + '.map', 'w') as f:
                for n in sorted(syms):
                    f.write('%s %s\n' % (n[3:], n))
            os.makedirs(base + '.d', exist_ok=True)
            robjs = []
            for s, o in zip(srcs, objs):
                d = os.path.join(base + '.d', os.path.basename(o))
                subprocess.run(['objcopy', '--redefine-syms=' + base + '.map', o, d], check=True)
                robjs.append(d)
            rt = self.obj('rt:native', (), False, tsan)
            wraps = ['-Wl,--wrap=' + w for w in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup')]
            link = ['gcc', '-fsanitize=' + ('thread' if tsan else 'address,undefined'), '-o', base] + robjs + [rt] + wraps
            tail = ['-lm', '-lpthread'] + h.get('libs', [])
            r = subprocess.run(link + tail, capture_output=True, text=True)
            if r.returncode and re.search(r'undefined reference to .iot_', r.stderr):
                ar = []
                for s in self.pool(h):
                    try:
                        o = self.obj(s, h.get('cflags', ()), h.get('hook', False), tsan)
                    except RuntimeError:
                        continue
                    d = os.path.join(base + '.d', os.path.basename(o))
                    subprocess.run(['objcopy', '--redefine-syms=' + base + '.map', o, d], check=True); ar.append(d)
                subprocess.run(['ar', 'rcs', base + '.a'] + ar, check=True)
                r = subprocess.run(link + [base + '.a', '-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all'] + tail, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError('link: ' + r.stderr[:3000])
            return base
        return self.once(key, go)


def run_native(exe, inputs, work, tag, timeout=20, uar=0):
    inp = os.path.join(work, tag + '.in'); lg = os.path.join(work, tag + '.log')
    with open(inp, 'w') as f:
        for i in inputs:
            f.write('%d\n' % i[1])
    env = dict(os.environ, SYMX_REPLAY=inp, SYMX_LOG=lg, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=%d:allocator_may_return_null=1' % uar, TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=67:print_stacktrace=1')
    try:
        r = subprocess.run([exe], env=env, capture_output=True, timeout=timeout, cwd=work)
        rc, out = r.returncode, (r.stdout + r.stderr).decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', ''
    log = []
    if os.path.exists(lg):
        log = [int(x) for x in open(lg).read().split()]
    return rc, out, log


def confirmed(err, rc):
    """does the native outcome reproduce the violation found symbolically?"""
    if rc == 'timeout':
        return True            # the real code did not come back
    return rc not in (0, 78, 79)


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def run_job(b, job, outdir, budget_end):
    h, defs, label = job['h'], job['defs'], job['label']
    t0 = time.time()
    res = {'label': label, 'job': job}
    try:
        prog = b.program(h, defs)
    except RuntimeError as e:
        res['fatal'] = str(e); return res
    out = os.path.join(outdir, label + '.json')
    tmo = min(job['timeout'], max(5, budget_end - time.time()))
    cmd = [ENGINE, prog, '-o', out, '--timeout', str(tmo), '--repo', REPO + '/'] + h.get('opts', []) + (['--races'] if 'env_pthread' in h['rt'] and not h.get('noraces') else [])
    res['compile_s'] = time.time() - t0
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=tmo + 120)
    except subprocess.TimeoutExpired:
        res['fatal'] = 'engine did not stop within its limit'; res['soft'] = True; return res
    if r.returncode not in (0, 1, 2) or not os.path.exists(out):
        res['fatal'] = 'engine error %s: %s' % (r.returncode, r.stderr[-2000:]); res['soft'] = r.returncode < 0; return res
    try:
        res['r'] = json.load(open(out))
    except ValueError as e:
        res['fatal'] = 'bad engine output: %s' % e; return res
    res['stderr'] = r.stderr[-3000:]
    if os.environ.get('SYMX_DEBUG'): sys.stderr.write(r.stderr)
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == '--build':
        build_engine(); return 0
    if args and args[0] == '--replay':
        return replay(args[1])
    pid = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; verbose = False
    i = 1
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]; i += 1
        elif args[i] == '--only': only = args[i + 1]; i += 1
        elif args[i] == '--keep': keep = True
        elif args[i] == '-v': verbose = True
        i += 1
    t0 = time.time()
    build_engine()
    import specs
    hs = [h for h in specs.HARNESSES if h['prop'] == pid and (not only or h['name'] == only)]
    if not hs:
        print('no harness for', pid); return 2
    budget = 780 if tier == 'quick' else 3000
    work = os.path.join(ROOT, '.work', '%s-%s-%d' % (pid, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    b = Build(work)
    jobs = []
    for h in hs:
        for k, v in enumerate(h['tiers'].get(tier, h['tiers']['quick'])):
            defs = tuple('-D%s=%s' % kv for kv in sorted(v.items()) if not kv[0].startswith('_')) + tuple(h.get('defs', ()))
            jobs.append({'h': h, 'defs': defs, 'label': '%s-%d' % (h['name'], k), 'timeout': v.get('_t', h.get('timeout', 240 if tier == 'quick' else 1200))})
    end = t0 + budget - 60
    with ThreadPoolExecutor(NPROC) as ex:
        # warm the compile cache in parallel: one task per distinct source
        results = list(ex.map(lambda j: run_job(b, j, work, end), jobs))
    known = load_known(); kf = {k['key']: k for k in known['findings']}
    fatal = [r for r in results if 'fatal' in r and not r.get('soft')]
    violations = []; knownhits = {}; unconfirmed = []; notes = []
    mism = 0; validated = 0; natfail = None
    rdir = os.path.join(ROOT, 'evidence', 'replays', pid); shutil.rmtree(rdir, ignore_errors=True)
    def post(r):
        nonlocal mism, validated, natfail
        if 'r' not in r: return
        j = r['job']; h = j['h']
        errs = [e for e in r['r']['errors'] if e['kind'] != 'unsupported']
        for e in r['r']['errors']:
            if e['kind'] == 'unsupported': r['r']['incomplete'].append(e['msg'])
        if not errs and not r['r']['samples']: return
        try:
            exe = b.native(h, j['defs'])
        except (RuntimeError, subprocess.CalledProcessError) as ex:
            natfail = str(ex); exe = None
            print('native build failed:', natfail[:1500])
        for k, e in enumerate(errs):
            m = re.match(r'KF:(\S+)', e['msg'])
            if exe is None:
                rc, out = None, natfail
            elif e['kind'] == 'race':
                try:     # the schedule is replayed under ThreadSanitizer (fibers, no implied synchronisation)
                    rc, out, _ = run_native(b.native(h, j['defs'], True), e['inputs'], work, '%s-e%d' % (r['label'], k))
                    rc = 66 if 'ThreadSanitizer: data race' in out else 0
                except (RuntimeError, subprocess.CalledProcessError) as ex:
                    rc, out = None, str(ex)
            else:
                rc, out, _ = run_native(exe, e['inputs'], work, '%s-e%d' % (r['label'], k))
                if e['kind'] == 'memory' and not confirmed(e, rc):     # perhaps a use of a stack frame that is gone
                    rc, out, _ = run_native(exe, e['inputs'], work, '%s-e%d' % (r['label'], k), uar=1)
            e['native'] = rc
            if rc is None or confirmed(e, rc):
                if m and m.group(1) in kf and kf[m.group(1)]['property'] == pid:
                    knownhits[m.group(1)] = e['msg']; continue
                os.makedirs(rdir, exist_ok=True)
                p = os.path.join(rdir, '%s-%d.json' % (r['label'], k))
                json.dump({'property': pid, 'harness': h['name'], 'defs': list(j['defs']), 'error': e, 'native_output': (out or '')[-4000:]}, open(p, 'w'), indent=1)
                violations.append((p, e, r['label']))
            else:
                unconfirmed.append((r['label'], e, rc, (out or '')[-800:]))
        if exe:
            for k, s in enumerate(r['r']['samples'][:6]):
                rc, out, log = run_native(exe, s['inputs'], work, '%s-s%d' % (r['label'], k))
                if rc == 0 and log == s['log']: validated += 1
                else:
                    mism += 1; notes.append('sample of %s: native outcome %s, log %s' % (r['label'], rc, 'equal' if log == s['log'] else 'differs'))
                    if verbose: print('MISMATCH', r['label'], rc, s, log, out[-1500:])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(post, results))
    write_evidence(pid, tier, hs, results, violations, unconfirmed, knownhits, notes, validated, mism, time.time() - t0)
    for r in results:
        if verbose or 'fatal' in r:
            x = r.get('r', {})
            print('%-28s paths %-8s queries %-8s solver %-8s wall %-8s errs %d %s %s' % (r['label'], x.get('paths'), x.get('queries'), x.get('solver_s'), x.get('wall_s'), len(x.get('errors', [])), x.get('incomplete'), r.get('fatal', '')))
            if verbose:
                miss = [c for c in r['job']['h'].get('covers', []) if c not in x.get('covers', {})]
                if miss: print('   MISSING COVERS', miss)
    for l, e, rc, out in unconfirmed:
        print('UNCONFIRMED %s %s: %s at %s (native outcome %s)' % (l, e['kind'], e['msg'], e['loc'], rc))
        if verbose: print('   ', e['stack'], str (e['inputs'])[:1500], out[-800:])
    if verbose:
        for p, e, l in violations: print('   ', l, e['kind'], e['msg'], e['stack'], str (e['inputs'])[:1500], 'native', e['native'])
    for k in sorted(knownhits):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]['what']))
    if not keep: shutil.rmtree(work, ignore_errors=True)
    if violations:
        p, e, l = violations[0]
        print('%s: %s at %s [%s]' % (e['kind'], e['msg'], e['loc'], l))
        for p, e, l in violations[:5]:
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if fatal:
        return 3
    print('%s held: %d harness runs, %d validated paths, %.1f s%s' % (pid, len(results), validated, time.time() - t0, '' if not any(r.get('r', {}).get('incomplete') for r in results) else ' (some runs incomplete, see evidence)'))
    return 0


def write_evidence(pid, tier, hs, results, violations, unconfirmed, knownhits, notes, validated, mism, wall):
    tot = lambda k: sum(r['r'].get(k, 0) for r in results if 'r' in r)
    funcs = {}
    files = set()
    blocks = {}
    runs = []
    for r in results:
        x = r.get('r')
        if not x:
            runs.append({'run': r['label'], 'failed': r.get('fatal')}); continue
        for f in x['functions']: funcs[f] = funcs.get(f, 0) + x['functions'][f]
        for f in x['blocks']:
            for i, line, hit in x['blocks'][f]: blocks[(f, i, line)] = blocks.get((f, i, line), 0) or hit
        files.update(f.replace(REPO + '/', '') for f in x['files'])
        h = r['job']['h']
        runs.append({'run': r['label'], 'bounds': h['bounds'], 'defines': list(r['job']['defs']), 'paths': x['paths'], 'pruned': x['pruned'], 'queries': x['queries'], 'unsat': x['unsat'], 'sat': x['sat'], 'unknown': x['unknown'], 'solver_s': x['solver_s'], 'wall_s': x['wall_s'], 'exhausted': not x['incomplete'], 'incomplete': x['incomplete'], 'covers_reached': x['covers'], 'covers_missing': [c for c in h.get('covers', []) if c not in x['covers']], 'property_checks': x['checks'], 'scheduling_points': x['sched_points']})
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': max(1, tot('states')), 'transitions': max(1, tot('instructions')), 'traces_validated_against_impl': validated,
            'samples': [{'run': r['label'], 'inputs': s['inputs'][:60]} for r in results if 'r' in r for s in r['r']['samples'][:1]][:12],
            'engine': 'symx (symbolic execution of LLVM IR built by clang 18 from the current /repo sources; Z3 4.8.12 decides every branch and every property check)',
            'paths': tot('paths'), 'solver_queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'), 'cache_hits': tot('cache_hits') + tot('model_hits'), 'solver_seconds': round(tot('solver_s'), 3),
            'property_checks_evaluated': tot('checks'), 'scheduling_points': tot('sched_points'),
            'functions_encoded': sorted(funcs), 'files_encoded': sorted(files), 'runs': runs,
            'basic_blocks': {'reached': sum(blocks.values()), 'of': len(blocks), 'lines_not_reached': {f: l for f in sorted(funcs) for l in [sorted({k[2] for k in blocks if k[0] == f and not blocks[k]} - {k[2] for k in blocks if k[0] == f and blocks[k]})] if l}},
            'exhausted_within_bounds': all('r' in r and not r['r']['incomplete'] for r in results),
            'native_replay_mismatches': mism, 'notes': notes[:20],
            'unconfirmed_counterexamples': [{'run': l, 'kind': e['kind'], 'msg': e['msg'], 'loc': e['loc'], 'native': str(rc)} for l, e, rc, o in unconfirmed][:20],
            'known_findings_seen': sorted(knownhits),
        },
        'assumptions': sorted(set(a for h in hs for a in h.get('assume', []))) + ['memory allocation succeeds', 'C library functions behave as modelled in rt/libc.c (models cross-checked by native replay of sampled paths)', 'clang -O0 IR of the sources with the flags of the real build; Debug configuration unless the harness says otherwise'],
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    if violations:
        ev['coverage']['counterexamples'] = [{'replay': p, 'kind': e['kind'], 'msg': e['msg'], 'loc': e['loc']} for p, e, l in violations]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)


def replay(path):
    import specs
    j = json.load(open(path)); h = [h for h in specs.HARNESSES if h['name'] == j['harness']][0]
    work = os.path.join(ROOT, '.work', 'replay-%d' % os.getpid()); os.makedirs(work)
    b = Build(work); exe = b.native(h, tuple(j['defs']))
    rc, out, _ = run_native(exe, j['error']['inputs'], work, 'replay')
    if not confirmed(j['error'], rc): rc, out, _ = run_native(exe, j['error']['inputs'], work, 'replay', uar=1)
    print(out); print('native outcome:', rc)
    shutil.rmtree(work, ignore_errors=True)
    return 0 if rc == 0 else 1


if __name__ == '__main__':
    sys.exit(main())
