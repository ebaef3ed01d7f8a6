#!/usr/bin/env python3
"""Driver: compile /repo's current sources + a harness to LLVM bitcode, run the
symbolic engine, replay counterexamples natively, write evidence.

  run.py setup                 build the engine
  run.py check ID [--tier T]   decide one property
  run.py one ID JOB [...]      run a single job verbosely
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GGGGC_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
ENGINE = V + '/.build/ggse'
sys.path.insert(0, V)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build_engine():
    srcs = [V + '/engine/' + f for f in ('ggse.cpp', 'expr.h', 'mem.h')]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) > os.path.getmtime(s) for s in srcs):
        return
    os.makedirs(V + '/.build', exist_ok=True)
    cxx = sh([LLVM + '/llvm-config', '--cxxflags']).stdout.split()
    ld = sh([LLVM + '/llvm-config', '--ldflags']).stdout.split()
    tmp = ENGINE + '.%d' % os.getpid()
    r = sh(['g++', '-O2', '-w'] + cxx + ['-frtti', '-fexceptions', srcs[0], '-o', tmp] + ld + ['-lLLVM-18', '-lz3'])
    if r.returncode:
        print(r.stdout); sys.exit(3)
    os.replace(tmp, ENGINE)

def lib_sources():
    mk = open(REPO + '/Makefile').read().replace('\\\n', ' ')
    m = re.search(r'^OBJS\s*=\s*(.*)$', mk, re.M)
    return [o[:-2] + '.c' for o in m.group(1).split() if o.endswith('.o')]

def cflags(job):
    f = ['-I' + REPO, '-I' + V + '/env', '-I' + V + '/harness', '-include', V + '/env/env.h', '-w', '-g']
    return f + ['-D' + d for d in job.get('defs', [])]

def langflags(job, env=False, harness=False):
    if not env and (job.get('lang') == 'c++all' or (job.get('lang') == 'c++' and harness)):
        return ['-x', 'c++', '-std=gnu++17', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-DENV_CXX=1']
    return ['-x', 'c', '-std=' + job.get('std', 'gnu99')]

def srcs_of(job):
    l = [(REPO + '/' + s, False) for s in job.get('sources', None) or lib_sources()]
    l += [(V + '/harness/' + h, False) for h in ([job['harness']] + job.get('extra', []))]
    l += [(V + '/env/env.c', True)]
    return l

class CompileError(Exception): pass

def fine_ll(ll):
    """job option fine=1: a scheduling point before every access of the repository's code to
    shared (not thread-local) variables, descriptor slots and substitute barriers, in both the encoding and the native replay build"""
    t = open(ll).read()
    glob = set(re.findall(r'^@([\w.]+) = (?!.*thread_local)(?:[\w() ]+ )?global ', t, re.M)) - {'llvm.global_ctors', 'toSearchList'}
    out, n = [], 0
    for l in t.split('\n'):
        m = re.match(r'  (?:%[\w.]+ = )?(?:load|store|getelementptr)\b', l)
        ty = re.search(r'%struct\.(GGGGC_DescriptorSlot|ggggc_barrier_t_), ptr', l)
        if m and ('ptr @' in l or ty):
            if any(g in glob for g in re.findall(r'ptr @([\w.]+)', l)) or ty:
                dbg = re.search(r'!dbg !\d+', l)
                out.append('  call void @env_sched_point()' + (', ' + dbg.group(0) if dbg else '')); n += 1
        out.append(l)
    t = '\n'.join(out)
    if n and not re.search(r'^(declare|define) .*@env_sched_point\(', t, re.M): t += '\ndeclare void @env_sched_point()\n'
    open(ll, 'w').write(t)

def compile_bc(job, d):
    def one(a):
        i, (s, env) = a
        if job.get('fine') and not s.startswith(V):
            out = '%s/%d.ll' % (d, i)
            r = sh([LLVM + '/clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-delete-null-pointer-checks', '-fno-builtin', '-fno-stack-protector', '-DENV_ENGINE=1']
                   + langflags(job, env) + cflags(job) + [s, '-o', out], cwd=REPO)
            if r.returncode: raise CompileError(s + ':\n' + r.stdout[:4000])
            fine_ll(out)
            return out
        out = '%s/%d.bc' % (d, i)
        r = sh([LLVM + '/clang', '-emit-llvm', '-c', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-vectorize',
                '-fno-slp-vectorize', '-fno-delete-null-pointer-checks', '-fno-builtin', '-fno-stack-protector', '-DENV_ENGINE=1'] + langflags(job, env, s.startswith(V + '/harness/')) + cflags(job) + [s, '-o', out], cwd=REPO)
        if r.returncode: raise CompileError(s + ':\n' + r.stdout[:4000])
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, enumerate(srcs_of(job))))
    r = sh([LLVM + '/llvm-link', '-o', d + '/all.bc'] + outs)
    if r.returncode: raise CompileError(r.stdout)
    r = sh([LLVM + '/opt', '-passes=mem2reg,simplifycfg', d + '/all.bc', '-o', d + '/opt.bc'])
    if r.returncode: raise CompileError(r.stdout)
    return d + '/opt.bc'

def compile_native(job, d):
    def one(a):
        i, (s, env) = a
        out = '%s/n%d.o' % (d, i)
        if job.get('fine') and not s.startswith(V):
            ll = '%s/n%d.ll' % (d, i)
            r = sh([LLVM + '/clang', '-S', '-emit-llvm', '-O0', '-fsanitize=address', '-Xclang', '-disable-llvm-passes', '-fno-builtin'] + langflags(job, env) + cflags(job) + [s, '-o', ll], cwd=REPO)
            if r.returncode: raise CompileError(s + ':\n' + r.stdout[:4000])
            fine_ll(ll)
            r = sh([LLVM + '/clang', '-c', '-O0', '-w', '-fsanitize=address', ll, '-o', out])
            if r.returncode: raise CompileError(s + ':\n' + r.stdout[:4000])
            return out
        r = sh([LLVM + '/clang', '-c', '-O0', '-fsanitize=address', '-fno-builtin'] + langflags(job, env, s.startswith(V + '/harness/')) + cflags(job) + [s, '-o', out], cwd=REPO)
        if r.returncode: raise CompileError(s + ':\n' + r.stdout[:4000])
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, enumerate(srcs_of(job))))
    r = sh([LLVM + '/clang', '-c', '-O0', '-g', '-w', '-fsanitize=address', '-I' + V + '/env', V + '/env/native.c', '-o', d + '/native.o'])
    if r.returncode: raise CompileError(r.stdout)
    r = sh([LLVM + ('/clang++' if job.get('lang') else '/clang'), '-fsanitize=address', '-o', d + '/native'] + outs + [d + '/native.o', '-lpthread'])
    if r.returncode: raise CompileError(r.stdout)
    return d + '/native'

def replay(job, vio, d, path):
    """write the replay file, build the real code natively, run it on the counterexample"""
    with open(path, 'w') as f:
        f.write('# property=%s job=%s\n# %s: %s\n# at %s\n' % (job['prop'], job['name'], vio['kind'], vio['msg'], vio['stack']))
        f.write('# native replay: python3 run.py replay %s %s %s\n' % (job['prop'], job['name'], path))
        for n, v in vio['inputs']: f.write('v %s # %s\n' % (v, n))
        for a, v in vio['uninit']: f.write('u %s %s\n' % (a, v))
    return run_native(job, d, path)

def run_native(job, d, path):
    exe = compile_native(job, d)
    env = dict(os.environ, GS_REPLAY=path, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0')
    try:
        r = sh([exe], env=env, timeout=60)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = 'timeout', 42
    rep = rc == 42 or rc < 0 or 'AddressSanitizer' in out
    return rep, out, rc

def run_job(job, tier, nw=8):
    d = tempfile.mkdtemp(prefix='ggse.')
    res = {'name': job['name'], 'job': job}
    try:
        t0 = time.time()
        try:
            bc = compile_bc(job, d)
        except CompileError as e:
            res.update(status='error', error='compile: ' + str(e)); return res
        res['compile_s'] = round(time.time() - t0, 2)
        tl = job.get('time', 240)
        cmd = [ENGINE, bc, '--out', d + '/out.json', '--jobs', str(nw), '--time', str(tl), '--max-inst', str(job.get('max_inst', 20000000)), '--frontier', str(job.get('frontier', 200))]
        if os.environ.get('GS_TRACE'): cmd.append('--trace')
        r = sh(cmd, timeout=tl + 120)
        try:
            st = json.load(open(d + '/out.json'))
        except Exception as e:
            res.update(status='error', error='engine failed rc=%d: %s' % (r.returncode, r.stdout[:2000])); return res
        if os.environ.get('GS_TRACE'): print(r.stdout)
        covers, funcs, samples, vio, errs = {}, {}, [], [], []
        for f in sorted(os.listdir(d)):
            if not f.startswith('out.json.w'): continue
            w = json.load(open(d + '/' + f))
            for k, v in w['covers'].items(): covers[k] = covers.get(k, 0) + v
            samples += w['samples'][:2]
            if w['violation']: vio.append(w['violation'])
            if w['error']: errs.append(w['error'])
            for k, (file, n, h) in w['functions'].items():
                o = funcs.setdefault(k, [file, n, 0])
                o[2] |= int(h[::-1], 16) if h else 0
        res.update(stats=st, covers=covers, samples=samples[:4],
                   functions={k: {'file': v[0], 'insts': v[1], 'executed': bin(v[2]).count('1')} for k, v in funcs.items()})
        if st['error_msg']: errs.append(st['error_msg'])
        if vio:
            v = vio[0]; res['violation'] = v
            os.makedirs(V + '/evidence', exist_ok=True)
            path = '%s/evidence/%s-%s.replay' % (V, job['prop'], re.sub(r'\W+', '_', job['name']))
            try:
                rep, out, rc = replay(job, v, d, path)
            except CompileError as e:
                rep, out, rc = False, 'native build failed: ' + str(e), -1
            res.update(status='violation' if rep else 'unconfirmed', replay=path, replay_rc=rc, replay_out=out[-3000:])
        elif errs: res.update(status='error', error=errs[0])
        elif st['incomplete']: res.update(status='bound-not-reached', error='time budget exhausted or solver unknown: explored paths held, the rest of this job\'s bound was not decided')
        elif r.returncode: res.update(status='error', error='engine rc=%d %s' % (r.returncode, r.stdout[:500]))
        else:
            miss = [c for c in job.get('covers', []) if not covers.get(c)]
            if miss: res.update(status='vacuous', error='coverage witnesses not reached: ' + ', '.join(miss))
            else: res['status'] = 'held'
        return res
    except subprocess.TimeoutExpired:
        res.update(status='error', error='engine timeout'); return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def load_known():
    fn = V + '/known_findings.json'
    return json.load(open(fn)) if os.path.exists(fn) else {'findings': [], 'fixed': []}

def check(pid, tier):
    import checks
    t0 = time.time()
    build_engine()
    c = checks.CHECKS[pid]
    jobs = [dict(j, prop=pid) for j in c['jobs'] if tier == 'thorough' or j.get('tier', 'quick') == 'quick']
    if tier == 'thorough':
        for j in jobs:
            j['defs'] = j.get('defs', []) + ['THOROUGH=1'] + j.get('thorough_defs', [])
            j['time'] = j.get('thorough_time', 3000)
    par = c.get('parallel', 4)
    known = [k for k in load_known()['findings'] if k['property'] == pid]
    results = []
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda j: run_job(j, tier, 8), jobs):
            results.append(r)
    status = 0
    viol, bad, nviol = [], [], 0
    for r in results:
        kf = [k for k in known if k['job'] == r['name']]
        if kf:
            # a demonstration of a listed finding: expected to fail in the listed way
            if r['status'] == 'violation' and re.search(kf[0]['match'], r['violation']['kind'] + ': ' + r['violation']['msg'] + ' @ ' + r['violation']['stack']):
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what'])); r['known'] = True
            elif r['status'] == 'violation': viol.append(r)
            elif r['status'] == 'held': print('note: listed finding %s no longer reproduces' % kf[0]['id'])
            else: bad.append(r)
        elif r['status'] == 'violation': viol.append(r)
        elif r['status'] == 'bound-not-reached': print('BOUND-NOT-REACHED property=%s job=%s' % (pid, r['name']))
        elif r['status'] != 'held': bad.append(r)
    write_evidence(pid, tier, c, results, len(viol), time.time() - t0)
    for r in results:
        s = r.get('stats', {})
        print('%-28s %-11s paths=%s killed=%s insts=%s queries=%s solver=%.1fs wall=%.1fs %s' % (r['name'], r['status'], s.get('paths'), s.get('killed'), s.get('insts'), s.get('queries'), s.get('solver_s', 0), s.get('wall_s', 0), r.get('error', '')[:1500]))
    for r in viol:
        v = r['violation']
        print('VIOLATION property=%s replay=%s' % (pid, r['replay']))
        print('  job %s: %s: %s' % (r['name'], v['kind'], v['msg']))
        print('  at %s' % v['stack'])
        print('  inputs: %s' % ', '.join('%s=%s' % (n, x) for n, x in v['inputs'][:60]))
        print('  native replay rc=%s: %s' % (r['replay_rc'], ' | '.join(l for l in r['replay_out'].splitlines() if 'REPLAY' in l or 'ERROR' in l)[:400]))
    if viol: return 1
    for r in bad:
        print('INCONCLUSIVE property=%s job=%s %s %s' % (pid, r['name'], r['status'], r.get('error', '')))
        if r['status'] == 'unconfirmed': print(json.dumps(r['violation'])[:2000], r['replay_rc'], r['replay_out'][-1500:])
    return 2 if bad else 0

def write_evidence(pid, tier, c, results, nviol, wall):
    os.makedirs(V + '/evidence', exist_ok=True)
    tot = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    funcs, covers, samples = {}, {}, []
    for r in results:
        for k, v in r.get('functions', {}).items():
            if '/verif/' in v['file'] or v['file'].startswith(V): continue
            o = funcs.setdefault(k, dict(v)); o['executed'] = max(o['executed'], v['executed'])
        for k, v in r.get('covers', {}).items(): covers[k] = covers.get(k, 0) + v
        samples += [dict(s, job=r['name']) for s in r.get('samples', [])[:2]]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': c.get('level', 'exploration'),
      'coverage': {
        'evaluations': tot('paths') + tot('killed'), 'distinct_nontrivial': tot('paths'),
        'rule': 'one evaluation = one feasible symbolic path of the real code; it is non-trivial when it ran to completion with every assertion decided for all inputs satisfying its path condition (paths cut by an assumption are not); paths have pairwise disjoint input sets, so all are distinct',
        'samples': samples[:12],
        'explanation': 'Bounded symbolic execution of the LLVM bitcode of /repo (regenerated this run) with Z3 deciding every feasible branch, pointer resolution and assertion.',
        'functions_encoded': {k: '%s: %d/%d instructions reached' % (v['file'], v['executed'], v['insts']) for k, v in sorted(funcs.items())},
        'bounds': c['bounds'],
        'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'query_cache_hits': tot('cache_hits'), 'solver_s': round(tot('solver_s'), 2),
        'assertions_decided_by_solver': tot('asserts_solver'), 'assertions_decided_by_simplification': tot('asserts_folded'),
        'paths_cut_by_assumption': tot('killed'), 'instructions_executed': tot('insts'), 'forks': tot('forks'),
        'reachability_witnesses': covers,
        'jobs': [{'name': r['name'], 'status': r['status'], 'defs': r['job'].get('defs', []), 'harness': r['job']['harness'], 'known_finding': r.get('known', False), 'stats': r.get('stats', {})} for r in results],
      },
      'assumptions': c.get('assumptions', []) + checks_common_assumptions(),
      'wall_s': round(wall, 2), 'violations': nviol}
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)

def checks_common_assumptions():
    return ['clang-18 -O0 semantics of the C/C++ sources on x86-64 (LP64); data-layout as compiled',
            'libc, OS allocation and pthreads are replaced by the model in env/env.c; block bounds are tracked at 8-byte granularity',
            'uninitialised heap and stack words read by the code are arbitrary 64-bit values']

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup': build_engine(); sys.exit(0)
    tier = 'quick'
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == 'check': sys.exit(check(a[1], tier))
    import checks
    if a[0] == 'one':
        build_engine()
        job = [dict(j, prop=a[1]) for j in checks.CHECKS[a[1]]['jobs'] if j['name'] == a[2]][0]
        if tier == 'thorough': job['defs'] = job.get('defs', []) + ['THOROUGH=1'] + job.get('thorough_defs', [])
        r = run_job(job, tier)
        for k in ('status', 'error', 'compile_s', 'stats', 'covers', 'violation', 'replay', 'replay_rc', 'replay_out'):
            if k in r: print(k, ':', r[k])
        if '-s' in a: print(json.dumps(r.get('samples'), indent=1))
        if '-f' in a:
            for k, v in sorted(r.get('functions', {}).items()): print('%5d/%5d %s %s' % (v['executed'], v['insts'], k, v['file']))
    elif a[0] == 'replay':
        job = [dict(j, prop=a[1]) for j in checks.CHECKS[a[1]]['jobs'] if j['name'] == a[2]][0]
        d = tempfile.mkdtemp(prefix='ggse.')
        try:
            rep, out, rc = run_native(job, d, a[3]); print(out); print('reproduced' if rep else 'not reproduced', rc)
        finally: shutil.rmtree(d, ignore_errors=True)
