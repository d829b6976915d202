#!/usr/bin/env python3
"""Runs the solver-based check of one property: compiles its harnesses together with /repo's current sources to LLVM bitcode,
explores them with the bsx symbolic executor (every branch, assertion and memory access decided by Z3), replays counterexamples
and a sample of completed paths against a native g++-10 build of the same sources, and writes evidence/<id>.json."""
import sys, os, re, json, subprocess, time, shutil, tempfile, struct, mmap, concurrent.futures as cf, glob, hashlib
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('BSX_REPO', '/repo')
CLANG = '/usr/bin/clang-18'; OPT = '/usr/bin/opt-18'; LINK = '/usr/bin/llvm-link-18'; GXX = 'g++-10' if shutil.which('g++-10') else 'g++'
NC = os.cpu_count() or 8
IRF = ['-O0', '-Xclang', '-disable-O0-optnone', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-gline-tables-only', '-emit-llvm', '-c', '-mcx16', '-msse2', '-w', '-fno-builtin', '-fno-math-errno']
CXXF = ['-std=c++17', '-fdelayed-template-parsing', '-fheinous-gnu-extensions', '-DBSS_DEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
NATF = ['-O0', '-g', '-std=c++17', '-msse2', '-mcx16', '-w', '-DBSS_DEBUG', '-fno-builtin-malloc']
WRAP = ['-Wl,' + ','.join('--wrap=' + x for x in ['malloc', 'free', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign'])]

START = time.time()
def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

class BuildError(Exception): pass

def engine():
    b = V + '/build'; srcs = [V + '/engine/' + x for x in ('bsx.cpp', 'expr.cpp', 'expr.h', 'blast.cpp', 'blast.h', 'order.cpp', 'order.h', 'build.sh')]
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()
    st = b + '/stamp'
    if os.path.exists(b + '/bsx') and os.path.exists(st) and open(st).read() == h: return b + '/bsx'
    os.makedirs(b, exist_ok=True)
    rc, o = sh(['bash', V + '/engine/build.sh', b], 900)
    if rc != 0 or not os.path.exists(b + '/bsx'): raise BuildError('engine build failed:\n' + o[-3000:])
    open(st, 'w').write(h); return b + '/bsx'

import threading
OVLOCK = threading.Lock()
def autofix(out, ov):
    """source-compatibility rewrites in the scratch copy of the headers so that clang accepts what g++-10 accepts; none changes what the code does"""
    done = False
    with OVLOCK:
        for f, l in set(re.findall(r"(%s/\S+?):(\d+):\d+: error: dependent using declaration resolved to type without 'typename'" % re.escape(ov), out)):
            L = open(f, encoding='latin-1').read().split('\n'); k = int(l) - 1; n = re.sub(r'\busing\s+(?!typename)(?=\w+::)', 'using typename ', L[k])
            if n != L[k]: L[k] = n; open(f, 'w', encoding='latin-1').write('\n'.join(L)); done = True
            elif 'using typename' in n: done = True
    return done
def overlay(tmp):
    ov = tmp + '/ov'; shutil.copytree(REPO + '/include', ov)
    return ov

def parse(src):
    h = {'src': src, 'name': os.path.splitext(os.path.basename(src))[0], 'sources': [], 'covers': [], 'def': {'quick': [], 'thorough': []}, 'threads': 0, 'preempt': {'quick': 2, 'thorough': 3}, 'steps': 2000000, 'tier': 'quick', 'bounds': '', 'shim': 0, 'timeout': {'quick': 240, 'thorough': 3000}, 'opt': 'sroa', 'spin': 40, 'incs': [], 'variants': None, 'itemax': 300, 'depth': 1500}
    for l in open(src):
        if not l.startswith('//BSX'): 
            if l.strip() and not l.startswith('//'): break
            continue
        m = re.match(r'//BSX\s+bounds:\s*(.*)', l)
        if m: h['bounds'] += m.group(1).strip() + ' '; continue
        for k, v in re.findall(r'([\w.]+)=(\S+)', l[5:]):
            if k == 'property': h['property'] = v.split(',')
            elif k == 'sources': h['sources'] = v.split(',')
            elif k == 'covers': h['covers'] = v.split(',')
            elif k.startswith('def.'): h['def'][k[4:]] = v.split(',')
            elif k == 'def': h['def']['quick'] += v.split(','); h['def']['thorough'] += v.split(',')
            elif k.startswith('preempt'): 
                if '.' in k: h['preempt'][k.split('.')[1]] = int(v)
                else: h['preempt'] = {'quick': int(v), 'thorough': int(v)}
            elif k.startswith('timeout'):
                if '.' in k: h['timeout'][k.split('.')[1]] = int(v)
                else: h['timeout'] = {'quick': int(v), 'thorough': int(v)}
            elif k in ('threads', 'steps', 'shim', 'spin', 'itemax', 'depth'): h[k] = int(v)
            elif k == 'variants': h['variants'] = v.split(',')
            else: h[k] = v
    return h

def run_group(h, tier, tmp, ov, bsx, tokens, log):
    """build + explore one harness variant; returns result dict"""
    t0 = time.time(); n = h['vname']; d = tmp + '/' + n; os.makedirs(d)
    defs = ['-D' + x for x in h['def'][tier]] + (['-DVARIANT=' + h['variant']] if h.get('variant') is not None else [])
    inc = ['-I' + ov, '-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO]
    shim = ['-isystem', V + '/rt/shim'] if h['shim'] else []
    th = h['threads']
    pre = ['-include', V + ('/rt/prelude_shim.h' if h['shim'] else '/rt/prelude.h')]
    bcs = []
    def comp(src, out, c=False):
        if c: cmd = [CLANG] + IRF + defs + inc + [src, '-o', out]
        else: cmd = [CLANG] + IRF + CXXF + defs + shim + inc + pre + [src, '-o', out]
        rc, o = sh(cmd, 300)
        for _ in range(8):
            if rc == 0 or not autofix(o, ov): break
            rc, o = sh(cmd, 300)
        if rc != 0: raise BuildError('clang failed on %s:\n%s' % (src, o[-4000:]))
        return out
    jobs = [(h['src'], d + '/h.bc', False), (V + '/rt/rt.c', d + '/rt.bc', True)]
    if h['shim']: jobs.append((V + '/rt/shimrt.cpp', d + '/shimrt.bc', False))
    for s in h['sources']: jobs.append((REPO + '/bss-util/' + s, d + '/' + s + '.bc', s.endswith('.c')))
    with cf.ThreadPoolExecutor(4) as ex: bcs = list(ex.map(lambda j: comp(*j), jobs))
    rc, o = sh([LINK] + bcs + ['-o', d + '/l.bc'])
    if rc != 0: raise BuildError('llvm-link: ' + o[-2000:])
    passes = 'mem2reg' if th else h['opt']
    rc, o = sh([OPT, '-passes=' + 'internalize,globaldce,function(%s)' % passes, '-internalize-public-api-list=main', d + '/l.bc', '-o', d + '/o.bc'])
    if rc != 0: raise BuildError('opt: ' + o[-2000:])
    if th:
        rc, o = sh([bsx, '--instrument', d + '/i.bc', d + '/o.bc'])
        if rc != 0: raise BuildError('instrument: ' + o[-2000:])
        shutil.move(d + '/i.bc', d + '/o.bc')
    tb = time.time() - t0
    os.makedirs(d + '/w')
    tmo = h['timeout'][tier]
    if tier == 'quick': tmo = max(20, min(tmo, 560 - (time.time() - START)))
    natf = cf.ThreadPoolExecutor(1).submit(native, h, d, defs, ov, 'plain')
    t1 = time.time()
    rc, o = sh([bsx, d + '/o.bc', '--out', d + '/w', '--tokens', tokens, '--timeout', str(tmo), '--steps', str(h['steps']), '--preempt', str(h['preempt'][tier]), '--spin', str(h['spin']), '--itemax', str(h['itemax']), '--depth', str(h['depth']), '--repo', '/ov/', '--repo', REPO + '/bss-util/'], tmo + 60)
    res = {'name': n, 'instr': 0, 'forks': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'cache': 0, 'modelhit': 0, 'ok': 0, 'assume': 0, 'steps': 0, 'unsup': 0, 'viol': 0, 'undef': 0, 'solver_s': 0.0, 'incomplete': {}, 'covers': {}, 'functions': set(), 'violations': [], 'samples': [], 'externals': {}, 'explore_s': time.time() - t1, 'build_s': tb, 'bounds': h['bounds'].strip(), 'defs': h['def'][tier]}
    if rc != 0: res['incomplete']['engine exit %s: %s' % (rc, o[-400:])] = 1
    elif o.strip(): log.append(n + ': ' + o.strip()[-400:])
    for f in glob.glob(d + '/w/w.*.json'):
        try: w = json.load(open(f))
        except Exception as e: res['incomplete']['unreadable worker output'] = 1; continue
        for k in ('instr', 'forks', 'queries', 'sat', 'unsat', 'unknown', 'cache', 'modelhit', 'ok', 'assume', 'steps', 'unsup', 'viol', 'undef', 'solver_s'): res[k] += w[k]
        for k in ('incomplete', 'covers', 'externals'):
            for a, b in w[k].items(): res[k][a] = res[k].get(a, 0) + b
        res['functions'].update(w['functions']); res['violations'] += w['violations']; res['samples'] += w['samples']
    # translation validation of sampled paths
    res['validated'] = 0; res['mismatch'] = []
    exe, err = natf.result()
    res['native_err'] = err
    if exe:
        def val(i_s):
            i, s = i_s; rp = '%s/s%d.txt' % (d, i); write_replay(rp, s); rc, o = run_native(exe, rp, 20, trace=True)
            got = [l[4:] for l in o.splitlines() if l.startswith('OUT ')]
            return (rc == 0 and got == s['outs']), rc, got, s, o
        with cf.ThreadPoolExecutor(NC) as ex:
            for ok, rc, got, s, o in ex.map(val, enumerate(res['samples'][:40])):
                if ok: res['validated'] += 1
                else: res['mismatch'].append({'rc': str(rc), 'got': got[:40], 'expected': s['outs'][:40], 'inputs': s['inputs'], 'out': o[-300:]})
    # confirm violations
    seen = {}; res['confirmed'] = []; res['unconfirmed'] = []
    for v in res['violations']:
        k = (v['kind'], re.sub(r'0x[0-9a-f]+|\d+', 'N', v['msg'])[:160], v['where'].split(' <- ')[0])
        if seen.get(k, 0) >= 2: continue
        seen[k] = seen.get(k, 0) + 1
        c = confirm(h, d, defs, ov, v, exe)
        (res['confirmed'] if c else res['unconfirmed']).append(v)
        if c: seen[k] = 99
        if len(res['confirmed']) >= 6: break
    res['seconds'] = time.time() - t0
    return res

def native(h, d, defs, ov, mode):
    exe = d + '/nat_' + mode
    inc = ['-I' + ov, '-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO]
    if h['threads']:
        rc, o = sh([CLANG, '-O0', '-mcx16', '-w', '-c', '-Xclang', '-disable-O0-optnone', d + '/o.bc', '-o', d + '/nb.o'])
        if rc == 0: rc, o = sh([GXX] + NATF + ['-I' + V + '/rt', V + '/rt/bsx_native.cpp', d + '/nb.o', '-o', exe, '-no-pie', '-lm', '-latomic', '-pthread'] + WRAP)
        if rc != 0: return None, o[-2000:]
        return exe, ''
    f = {'plain': [], 'asan': ['-fsanitize=address', '-fno-omit-frame-pointer']}[mode]
    objs = []
    def one(a):
        src, out = a; return sh((['gcc-10' if GXX == 'g++-10' else 'gcc'] + [x for x in NATF if 'std=' not in x] if src.endswith('.c') else [GXX] + NATF + ['-include', V + '/rt/prelude.h']) + f + defs + inc + ['-c', src, '-o', out])
    l = [(h['src'], d + '/h_%s.o' % mode), (V + '/rt/bsx_native.cpp', d + '/n_%s.o' % mode)] + [(REPO + '/bss-util/' + s, d + '/%s_%s.o' % (s, mode)) for s in h['sources']]
    with cf.ThreadPoolExecutor(4) as ex:
        for rc, o in ex.map(one, l):
            if rc != 0: return None, o[-3000:]
    rc, o = sh([GXX] + f + [x[1] for x in l] + ['-o', exe, '-latomic', '-pthread'] + WRAP)
    if rc != 0: return None, o[-3000:]
    return exe, ''

def write_replay(p, v):
    with open(p, 'w') as f:
        for n, x in v['inputs']: f.write('I %s %s\n' % (n, x))
        for y, t in v.get('sched', []): f.write('S %d %d\n' % (y, t))

def run_native(exe, rp, tmo, trace=False, fill=None, valgrind=False):
    env = dict(os.environ, BSX_REPLAY=rp, ASAN_OPTIONS='detect_leaks=0:exitcode=77:abort_on_error=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:max_redzone=128')
    env.pop('BSX_TRACE', None)
    if trace: env['BSX_TRACE'] = '1'
    if fill is not None: env['BSX_FILL'] = fill
    cmd = [exe] if not valgrind else ['valgrind', '-q', '--error-exitcode=77', exe]
    return sh(cmd, tmo, env=env)

def confirm(h, d, defs, ov, v, plain):
    rp = d + '/v.txt'; write_replay(rp, v)
    def bad(rc, o):
        if rc in (0, 98, 99): return None
        return 'rc=%s %s' % (rc, ' '.join(l for l in o.splitlines() if 'BSX-' in l or 'ERROR: AddressSanitizer' in l or 'Assertion' in l or 'terminate' in l or 'Conditional jump' in l or 'Invalid' in l)[:400])
    fills = ['cd', '00', 'ff'] + sorted({x[:2] for x in v.get('undef', {}).values()})[:4]
    if plain:
        for f in fills:
            rc, o = run_native(plain, rp, 20, fill=f); b = bad(rc, o)
            if b: v['native'] = 'plain build (fill %s): %s' % (f, b); return True
    if h['threads']: return False
    if 'asan' not in h:
        h['asan'] = native(h, d, defs, ov, 'asan')[0]
    if h['asan']:
        for f in fills:
            rc, o = run_native(h['asan'], rp, 60, fill=f); b = bad(rc, o)
            if b: v['native'] = 'address-sanitizer build: ' + b; return True
    if v.get('uses_undef') and plain and shutil.which('valgrind'):
        rc, o = run_native(plain, rp, 120, valgrind=True); b = bad(rc, o)
        if b: v['native'] = 'valgrind: ' + b; return True
    return False

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup': engine(); return 0
    if a and a[0] == '--list':
        for f in sorted(glob.glob(V + '/harness/*.cpp')): h = parse(f); print(h['name'], h.get('property'))
        return 0
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--only': only = a[i + 1].split(',')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    hs = []
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        h = parse(f)
        if pid not in h.get('property', []): continue
        if h['tier'] == 'thorough' and tier == 'quick': continue
        for var in (h['variants'] or [None]):
            g = dict(h); g['variant'] = var; g['vname'] = h['name'] + ('.' + var if var is not None else '')
            if only and not any(o in g['vname'] for o in only): continue
            hs.append(g)
    if not hs: print('no harness for', pid); return 2
    bsx = engine()
    tmp = tempfile.mkdtemp(prefix='bsx-%s-' % pid, dir=os.environ.get('BSX_TMP', '/tmp')); outd = V + '/out/' + pid
    shutil.rmtree(outd, ignore_errors=True); os.makedirs(outd)
    log = []; results = []; errors = []
    try:
        ov = overlay(tmp); tok = tmp + '/tokens'
        nj = min(len(hs), max(2, NC // 2))
        open(tok, 'wb').write(struct.pack('i', max(0, NC - nj)) + b'\0' * 4092)
        def go(h):
            try: return run_group(h, tier, tmp, ov, bsx, tok, log)
            except BuildError as e: return {'name': h['vname'], 'error': str(e)}
        with cf.ThreadPoolExecutor(nj) as ex:
            fs = {ex.submit(go, h): h for h in hs}; done = 0
            for f in cf.as_completed(fs):
                r = f.result()
                if 'error' in r: errors.append(r)
                else: results.append((fs[f], r))
        rc = report(pid, tier, seed, t0, hs, results, errors, log, outd)
    finally:
        if not os.environ.get('BSX_KEEP'): shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)
    return rc

def known():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def report(pid, tier, seed, t0, hs, results, errors, log, outd):
    kf = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']; nviol = 0; kseen = set(); vac = []; inc = []; lines = []
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'harnesses': [], 'solver_queries': 0, 'solver_sat': 0, 'solver_unsat': 0, 'solver_unknown': 0, 'queries_answered_by_cache_or_model': 0, 'solver_seconds': 0.0, 'paths_completed': 0, 'paths_infeasible_by_assumption': 0}
    funcs = set(); exts = {}
    for h, r in results:
        cov['states'] += r['forks'] + 1; cov['transitions'] += r['instr']; cov['traces_validated_against_impl'] += r['validated']
        cov['solver_queries'] += r['queries']; cov['solver_sat'] += r['sat']; cov['solver_unsat'] += r['unsat']; cov['solver_unknown'] += r['unknown']; cov['queries_answered_by_cache_or_model'] += r['cache'] + r['modelhit']; cov['solver_seconds'] = round(cov['solver_seconds'] + r['solver_s'], 3); cov['paths_completed'] += r['ok']; cov['paths_infeasible_by_assumption'] += r['assume']
        funcs |= r['functions']
        for k, v in r['externals'].items(): exts[k] = exts.get(k, 0) + v
        if r['samples']: cov['samples'].append({'harness': r['name'], 'inputs': r['samples'][0]['inputs'][:40], 'outs': r['samples'][0]['outs'][:12]})
        complete = not r['incomplete']
        missing = [c for c in h['covers'] if c not in r['covers']]
        cov['harnesses'].append({'name': r['name'], 'bounds': r['bounds'], 'defs': r['defs'], 'paths': r['ok'], 'forks': r['forks'], 'instructions': r['instr'], 'queries': r['queries'], 'solver_s': round(r['solver_s'], 3), 'explore_s': round(r['explore_s'], 2), 'build_s': round(r['build_s'], 2), 'total_s': round(r['seconds'], 2), 'complete_within_bounds': complete, 'incomplete': r['incomplete'], 'covers': r['covers'], 'covers_missing': missing, 'native_traces_ok': r['validated'], 'native_mismatch': r['mismatch'][:3], 'unconfirmed_candidates': [{'kind': v['kind'], 'msg': v['msg'], 'where': v['where'][:300]} for v in r['unconfirmed'][:5]]})
        print('%s: paths=%d instr=%d forks=%d queries=%d solver=%.1fs explore=%.1fs total=%.1fs validated=%d/%d%s%s%s' % (r['name'], r['ok'], r['instr'], r['forks'], r['queries'], r['solver_s'], r['explore_s'], r['seconds'], r['validated'], r['validated'] + len(r['mismatch']), '' if complete else ' INCOMPLETE ' + json.dumps(r['incomplete'])[:1200], ' MISSING-COVERS ' + ','.join(missing) if missing else '', ' NATIVE-BUILD-ERROR ' + r['native_err'] if r.get('native_err') else ''))
        for m in r['mismatch'][:2]: print('  MISMATCH', json.dumps(m)[:1500])
        for v in r['unconfirmed'][:4]: print('  UNCONFIRMED %s: %s at %s inputs=%s' % (v['kind'], v['msg'], v['where'][:400], json.dumps(v['inputs'])[:600]))
        for v in r['confirmed']:
            k = next((k for k in kf if re.search(k['harness'], r['name']) and re.search(k['match'], '%s: %s | %s' % (v['kind'], v['msg'], v['where']))), None)
            if k:
                kseen.add(k['id']); continue
            nviol += 1; rp = '%s/violation-%d.json' % (outd, nviol); json.dump({'property': pid, 'harness': r['name'], 'defs': r['defs'], **v}, open(rp, 'w'), indent=1); write_replay(rp[:-5] + '.replay', v)
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s: %s\n    at %s\n    native: %s' % (v['kind'], v['msg'], v['where'][:700], v.get('native')))
        if not complete: inc.append(r['name'])
        if missing and complete and not r['confirmed']: vac.append(r['name'] + ':' + ','.join(missing))
    for k in kf:
        if k['id'] in kseen: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for e in errors: print('BUILD-ERROR %s: %s' % (e['name'], e['error']))
    for l in log: print('log:', l)
    cov['functions_encoded'] = len(funcs); cov['functions_sample'] = sorted(funcs)[:60]; cov['modelled_externals'] = exts
    cov['exhaustive'] = not inc and not errors; cov['undecided'] = inc
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
          'assumptions': ['bounds per harness as listed; outside them nothing is claimed', 'sequentially consistent memory in multi-threaded harnesses, preemption bound as listed', 'heap allocation never fails; one address layout', 'harness preconditions (bsx_assume) as written in the harness source', 'clang-18 -O0 -fwrapv lowering of the sources is taken as their meaning; sampled paths are re-run natively under g++-10']}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    if lines:
        for l in lines: print(l)
        return 1
    if errors: return 2
    if vac: print('VACUITY: witnesses not reached:', vac); return 2
    if inc: print('NOTE: not decided completely within the budget:', inc)
    print('property %s held on everything explored (%.1fs)' % (pid, time.time() - t0)); return 0

if __name__ == '__main__': sys.exit(main())
