#!/usr/bin/env python3
"""Solver-based checks of monotone.

  check.py <ID> [--tier quick|thorough] [--only JOB] [--keep]   decide one property
  check.py --setup                                              build the executor
  check.py --replay <file>                                      replay a reported counterexample

Every run compiles /repo's current sources to LLVM IR, links the environment
models and the harnesses of the property, explores every path with symbolic
inputs, and replays what the solver returns against a native build of the same
sources.
"""
import sys, os, subprocess, json, time, tempfile, shutil, glob, re, threading, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'checks'))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPUS = 8
CLANG = 'clang-18'
BCF = '-c -emit-llvm -g -O1 -Xclang -disable-llvm-passes -D_GNU_SOURCE -std=gnu11 -fno-builtin-memcmp -w'.split()
NATF = '-c -g -O0 -fsanitize=address -fno-omit-frame-pointer -fno-common -D_GNU_SOURCE -std=gnu11 -fno-builtin -U_FORTIFY_SOURCE -w'.split()
ASAN = 'detect_leaks=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=171:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0'

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write(' '.join(cmd[:6]) + ' ...\n' + r.stdout.decode(errors='replace')[-4000:] + '\n')
        raise SystemExit(3)
    return r.stdout.decode(errors='replace')

def executor():
    """the symbolic executor, rebuilt when its sources are newer"""
    out = os.path.join(HERE, 'build', 'msym')
    src = [os.path.join(HERE, 'engine', f) for f in ('msym.cpp', 'expr.h', 'build.sh')]
    stamp = out + '.stamp'
    import hashlib
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    sh(['bash', os.path.join(HERE, 'engine', 'build.sh'), tmp])
    os.rename(tmp, out)
    with open(stamp, 'w') as f: f.write(h)
    return out

class Build:
    def __init__(self, dir):
        self.dir = dir
        self.srcs = sorted(glob.glob(REPO + '/monotone/**/*.c', recursive=True))
        self.inc = ['-I' + d for d, _, _ in sorted(os.walk(REPO + '/monotone'))]
        self.mods = ['libc', 'env', 'libs']
        self.lock = threading.Lock(); self.nat = None
    def bitcode(self, pool):
        def one(a):
            src, out, extra = a
            sh([CLANG] + BCF + extra + [src, '-o', out]); return out
        work = [(s, '%s/r%d.bc' % (self.dir, i), self.inc) for i, s in enumerate(self.srcs)]
        work += [('%s/model/%s.c' % (HERE, m), '%s/m_%s.bc' % (self.dir, m), ['-I' + HERE + '/model']) for m in self.mods]
        outs = list(pool.map(one, work))
        self.repo_bc = self.dir + '/repo.bc'
        sh(['llvm-link-18'] + outs + ['-o', self.repo_bc])
        for o in outs: os.unlink(o)
    def harness(self, name, src, defs):
        bc = '%s/h_%s.bc' % (self.dir, name); out = '%s/p_%s.bc' % (self.dir, name)
        sh([CLANG] + BCF + self.inc + ['-I' + HERE + '/model', '-I' + HERE + '/harness'] + defs + [HERE + '/harness/' + src, '-o', bc])
        sh(['llvm-link-18', self.repo_bc, bc, '-o', out]); os.unlink(bc)
        return out
    def native_objs(self):
        with self.lock:
            if self.nat: return self.nat
            with cf.ThreadPoolExecutor(CPUS) as pool:
                def one(a):
                    src, out, extra = a
                    sh([CLANG] + NATF + extra + [src, '-o', out]); return out
                work = [(s, '%s/n%d.o' % (self.dir, i), self.inc) for i, s in enumerate(self.srcs)]
                work += [('%s/model/%s.c' % (HERE, m), '%s/nm_%s.o' % (self.dir, m), ['-I' + HERE + '/model']) for m in ('env', 'libs', 'native')]
                outs = list(pool.map(one, work))
            repo = [o for o in outs if '/nm_' not in o]; mod = [o for o in outs if '/nm_' in o]
            syms = re.findall(r' [TW] model_(\w+)', sh(['nm'] + mod))
            self.map = self.dir + '/syms'
            with open(self.map, 'w') as f: f.write(''.join('%s model_%s\n' % (s, s) for s in syms))
            sh(['ld', '-r', '-o', self.dir + '/nrepo0.o'] + repo)
            sh(['objcopy', '--redefine-syms=' + self.map, self.dir + '/nrepo0.o', self.dir + '/nrepo.o'])
            for o in repo: os.unlink(o)
            self.nat = [self.dir + '/nrepo.o'] + mod
            return self.nat
    def native(self, name, src, defs):
        exe = '%s/x_%s' % (self.dir, name)
        if os.path.exists(exe): return exe
        objs = list(self.native_objs())
        h = '%s/nh_%s.o' % (self.dir, name)
        sh([CLANG] + NATF + self.inc + ['-I' + HERE + '/model', '-I' + HERE + '/harness'] + defs + [HERE + '/harness/' + src, '-o', h])
        stubs = re.findall(r' [TWD] stub_(\w+)', sh(['nm', h]))
        sh(['objcopy', '--redefine-syms=' + self.map] + [x for s in stubs for x in ('--redefine-sym', 'stub_%s=%s' % (s, s))] + [h])
        if stubs:
            o = '%s/nrepo_%s.o' % (self.dir, name)
            sh(['objcopy'] + ['--weaken-symbol=' + s for s in stubs] + [objs[0], o]); objs[0] = o
        sh([CLANG, '-fsanitize=address', '-o', exe, h] + objs + ['-lcurl', '-lssl', '-lcrypto', '-lzstd', '-llz4', '-lpthread', '-lm'])
        return exe

def run_native(exe, vec, timeout=40):
    env = dict(os.environ, MSE_VECTOR=vec, ASAN_OPTIONS=ASAN)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=os.path.dirname(exe))
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace')

CRASH = (-6, -8, -11, -7, 99, 1)
def reproduced(kind, rc):
    if kind == 'hang': return rc == 'timeout' or rc in CRASH
    return rc in CRASH or rc == 'timeout'

def job_defs(j, tier):
    d = dict(j.get('defs', {}))
    if tier == 'thorough': d.update(j.get('thorough', {}))
    return ['-D%s=%s' % kv if kv[1] != '' else '-D' + kv[0] for kv in d.items()]

def run_job(b, exe, j, tier, procs, limit):
    name = j['name']; out = '%s/o_%s.json' % (b.dir, name)
    defs = job_defs(j, tier)
    try: bc = b.harness(name, j['src'], defs)
    except SystemExit:
        # an internal interface this job drives is gone: other jobs still decide the property
        return {'skipped': 1, 'violations': [], 'samples': [], 'reach': {}, 'incomplete': {'the internal interface this job drives has changed': 1}, 'functions': [], 'timed_out': False, 'max_query_s': 0,
                'paths': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'inst': 0}
    t = time.time()
    cmd = [exe, '--procs=%d' % procs, '--time=%d' % limit, '--max-inst=%d' % j.get('max_inst', 40000000), '--rss=%d' % (24000 // max(procs, 1) // 2 + 600), '--out=' + out] + j.get('opts', []) + [bc]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or not os.path.exists(out):
        sys.stderr.write('executor failed on %s\n%s\n' % (name, r.stdout.decode(errors='replace')[-3000:])); raise SystemExit(3)
    tot = None
    for f in [out] + glob.glob(out + '.*'):
        try: d = json.load(open(f))
        except Exception: d = {'incomplete': {'worker output lost': 1}}
        os.unlink(f)
        if tot is None: tot = d; continue
        for k, v in d.items():
            if k in ('wall_s',): continue
            if k == 'max_query_s': tot[k] = max(tot.get(k, 0), v)
            elif k == 'timed_out': tot[k] = tot.get(k) or v
            elif isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                for a, n in v.items(): tot[k][a] = tot[k].get(a, 0) + n
            elif isinstance(v, list):
                if k == 'functions': tot[k] = sorted(set(tot[k]) | set(v))
                else: tot[k] = tot[k] + v
    tot['wall_s'] = time.time() - t
    os.unlink(bc)
    return tot

def load_findings():
    known, fixed = [], []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                m = dict(re.findall(r'(\w+)="([^"]*)"', l)); m['text'] = l.split('::', 1)[1].strip() if '::' in l else l
                mm = re.search(r'property=(\w+)', l); m['property'] = mm.group(1); known.append(m)
    return known

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup': print(executor()); return 0
    if a and a[0] == '--replay': return replay(a[1])
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; verbose = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--only': only = a[i + 1]; i += 1
        elif a[i] == '--keep': keep = True
        elif a[i] == '-v': verbose = True
        i += 1
    if tier not in ('quick', 'thorough'): tier = 'quick'
    import table
    P = table.CHECKS[pid]
    jobs = [j for j in P['jobs'] if (tier == 'thorough' or not j.get('thorough_only')) and (not only or j['name'] == only)]
    T0 = time.time()
    scratch = tempfile.mkdtemp(prefix='msym-%s-' % pid)
    try:
        return decide(pid, tier, P, jobs, scratch, T0, verbose, only)
    finally:
        if not keep: shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, P, jobs, scratch, T0, verbose, only):
    b = Build(scratch)
    with cf.ThreadPoolExecutor(CPUS) as pool:
        fx = pool.submit(executor)
        b.bitcode(pool)
        exe = fx.result()
    budget = P.get('budget', 240) if tier == 'quick' else P.get('thorough_budget', 780)
    # run jobs so that their processes fit the machine
    res = {}; cond = threading.Condition(); free = [CPUS]; err = []
    natt = threading.Thread(target=lambda: None)
    def worker(j):
        w = min(CPUS, j.get('procs', 2))
        with cond:
            while free[0] < w: cond.wait()
            free[0] -= w
        try: res[j['name']] = run_job(b, exe, j, tier, w, min(j.get('time', budget), max(10, T0 + budget - time.time())))
        except BaseException as e: err.append(e)
        finally:
            with cond: free[0] += w; cond.notify_all()
    ths = [threading.Thread(target=worker, args=(j,)) for j in sorted(jobs, key=lambda j: -j.get('procs', 2))]
    for t in ths: t.start()
    for t in ths: t.join()
    if err: sys.stderr.write('error: %r\n' % err[0]); return 3
    if jobs and all(d.get('skipped') for d in res.values()): return 3
    known = [k for k in load_findings() if k['property'] == pid]
    viol = []; unconf = []; seenknown = set(); validated = 0; tried = 0; notes = []
    rdir = os.path.join(HERE, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    for j in jobs:
        d = res[j['name']]
        defs = job_defs(j, tier)
        per = {}
        for n, v in enumerate(d['violations']):
            key = (v['kind'], v['msg'], v['loc'])
            if per.get(key, 0) >= 3: continue
            vec = '%s/%s-%s-%d.vec' % (rdir, pid, j['name'], n)
            with open(vec, 'w') as f: f.write('\n'.join(v['inputs']) + '\n')
            x = b.native(j['name'], j['src'], defs)
            rc, out = run_native(x, vec)
            ok = reproduced(v['kind'], rc)
            with open(vec + '.json', 'w') as f: json.dump({'property': pid, 'tier': tier, 'job': j['name'], 'violation': v, 'native_exit': rc, 'native_output': out[-3000:]}, f, indent=1)
            rec = {'job': j['name'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'inputs': v['inputs'][:40], 'replay': vec, 'native_exit': rc, 'native_tail': out[-400:]}
            if not ok:
                unconf.append(rec); continue
            per[key] = per.get(key, 0) + 1
            kf = next((k for k in known if k.get('job', j['name']) == j['name'] and k['msg'] in v['msg'] and k.get('at', '') in v['loc'] + ' ' + v['stack']), None)
            if kf: seenknown.add(kf['text']); continue
            viol.append(rec)
        # cross-check: complete passing paths also pass in the native build
        if P.get('validate', True) and not d['violations']:
            for n, s in enumerate(d['samples'][:P.get('nvalidate', 3)]):
                vec = '%s/s_%s_%d.vec' % (scratch, j['name'], n)
                with open(vec, 'w') as f: f.write('\n'.join(s) + '\n')
                rc, out = run_native(b.native(j['name'], j['src'], defs), vec)
                tried += 1
                if rc == 0: validated += 1
                else: notes.append('native run of a passing path of %s: exit %s: %s' % (j['name'], rc, out[-300:]))
        for r in j.get('reach', []):
            if not d['reach'].get(r) and not d['violations'] and not d.get('skipped'): notes.append('VACUOUS: %s never reached "%s"' % (j['name'], r))
    for k in known:
        if k['text'] in seenknown: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    # evidence
    tot = lambda k: sum(d.get(k, 0) for d in res.values())
    incompl = {}
    for n, d in res.items():
        for k, v in d['incomplete'].items(): incompl['%s: %s' % (n, k)] = v
    funcs = sorted({re.sub(r'\.\d+$', '', f.replace(REPO + '/', '')) for d in res.values() for f in d['functions'] if f.startswith(REPO)})
    wall = time.time() - T0
    samples = [{'job': n, 'path_inputs': s[:30]} for n, d in res.items() for s in d['samples'][:2]]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P['level'], 'wall_s': round(wall, 2),
          'coverage': {
            'states': tot('states'), 'transitions': tot('inst'), 'traces_validated_against_impl': validated,
            'samples': samples[:12], 'paths_completed': tot('paths'), 'forks': tot('forks'),
            'solver_queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'answered_by_cached_model': tot('modelhit'), 'answered_by_interval_reasoning': tot('ranged'),
            'assertions_checked': tot('asserts'), 'assertions_decided_by_solver': tot('assert_queries'), 'solver_s': round(tot('solver_s'), 2), 'max_query_s': max([d['max_query_s'] for d in res.values()] + [0]),
            'assumption_killed_paths': tot('assume_killed'), 'exhaustive_within_bounds': not incompl and not any(d['timed_out'] for d in res.values()),
            'incomplete': incompl, 'functions_encoded': funcs, 'functions_encoded_count': len(funcs),
            'bounds': P.get('bounds', ''), 'outside': P.get('outside', ''),
            'jobs': {n: {'paths': d['paths'], 'queries': d['queries'], 'solver_s': round(d['solver_s'], 2), 'wall_s': round(d['wall_s'], 2), 'instructions': d['inst'], 'reach': d['reach'], 'timed_out': d['timed_out']} for n, d in res.items()},
            'native_runs_of_passing_paths': tried, 'unconfirmed_counterexamples': unconf[:10], 'notes': notes, 'known_findings_seen': sorted(seenknown)},
          'assumptions': P.get('assumptions', []) + ['environment models in model/*.c (files, clock, threads, compression and cipher libraries)', 'clang 18 front end; x86-64 data layout', 'z3 4.8.12'],
          'violations': viol}
    evd = os.environ.get('VERIF_EVIDENCE', HERE + '/evidence'); os.makedirs(evd, exist_ok=True)
    with open(evd + '/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d queries, %.1fs solver, %.1fs wall, %d functions, validated %d/%d%s' % (pid, tier, tot('paths'), tot('queries'), tot('solver_s'), wall, len(funcs), validated, tried, '' if not incompl else ', INCOMPLETE ' + json.dumps(incompl)))
    for n, d in sorted(res.items()): 
        if verbose: print('  %-20s paths=%d queries=%d solver=%.1f wall=%.1f inst=%d reach=%s' % (n, d['paths'], d['queries'], d['solver_s'], d['wall_s'], d['inst'], d['reach']))
    for n in notes: print('note: ' + n)
    for u in unconf: print('unconfirmed (native build does not show it): %s %s at %s (exit %s)' % (u['kind'], u['msg'], u['loc'], u['native_exit']))
    if viol:
        for v in viol: print('  %s: %s: %s at %s inputs=%s' % (v['job'], v['kind'], v['msg'], v['loc'], v['inputs'][:20]))
        print('VIOLATION property=%s replay=%s' % (pid, viol[0]['replay']))
        return 1
    return 0

def replay(path):
    d = json.load(open(path + '.json'))
    import table
    j = next(x for x in table.CHECKS[d['property']]['jobs'] if x['name'] == d['job'])
    scratch = tempfile.mkdtemp(prefix='msym-replay-')
    try:
        b = Build(scratch)
        rc, out = run_native(b.native(j['name'], j['src'], job_defs(j, d['tier'])), path)
        print(out); print('exit', rc)
        return 1 if reproduced(d['violation']['kind'], rc) else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
