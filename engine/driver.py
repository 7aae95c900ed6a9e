"""Runs the solver jobs of one property and writes its evidence file."""
import os, sys, time, json, random, subprocess, traceback, tempfile, shutil, signal, math, struct
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from expr import f32


class Job:
    def __init__(self, file, entry, mode='real', reach=(), tier='quick', opts=None, split=None, defs=(), hdefs=(),
                 limit=None, stubs=None, fix=None, note='', safety=True, native=True, setup=None):
        self.file, self.entry, self.mode, self.reach, self.tier = file, entry, mode, tuple(reach), tier
        self.opts = opts or {}
        self.split = split
        self.defs, self.hdefs = tuple(defs), tuple(hdefs)
        self.limit = limit
        self.stubs = stubs
        self.fix = fix or {}
        self.note = note
        self.safety = safety
        self.native = native
        self.setup = setup       # name of a function in hooks.py called as f(engine)
        self.ll = None
        self.bin = None

    def name(self):
        s = self.entry
        if self.fix:
            s += '[' + ','.join('%s=%s' % kv for kv in sorted(self.fix.items())) + ']'
        if self.hdefs:
            s += '{' + ','.join(self.hdefs) + '}'
        return s

    def expand(self):
        if not self.split:
            return [self]
        jobs = [self]
        for nm, n in self.split:
            out = []
            for j in jobs:
                for i in (n if isinstance(n, (list, tuple)) else range(n)):
                    k = Job.__new__(Job)
                    k.__dict__.update(j.__dict__)
                    k.fix = dict(j.fix)
                    k.fix[nm + '#0' if '#' not in nm else nm] = i
                    k.split = None
                    out.append(k)
            jobs = out
        return jobs


def variants(asg, kinds, rnd, n=80):
    yield dict(asg)
    fl = [k for k in asg if kinds.get(k) == 'f']
    if not fl:
        return
    for i in range(n):
        a = dict(asg)
        s = 10 ** rnd.uniform(-6, -0.7)
        sub = fl if i % 2 else [k for k in fl if rnd.random() < 0.4] or fl
        for k in sub:
            v = a[k]
            v = v * (1 + rnd.uniform(-s, s)) + (rnd.uniform(-s, s) * 0.3 if rnd.random() < 0.6 else 0)
            a[k] = v
        yield a


def match(kind, aid, res):
    st, info, _ = res
    if st == 'assert:' + aid:
        return True
    if not isinstance(info, dict):
        return kind == 'bound' and st == 'timeout'
    if kind == 'memory':
        return st == 'memory' or 'memory' in info['ub']
    if kind in ('fp2int', 'overflow', 'divzero'):
        return kind in info['ub'] or st == kind
    if kind in ('bound', 'recursion'):
        return st in ('timeout', 'memory')
    if kind == 'deadlock':
        return st == 'timeout'
    return False


def wait_bin(path):
    t = time.time()
    while time.time() - t < 600:
        if os.path.exists(path + '.ok'):
            return True
        if os.path.exists(path + '.fail'):
            return False
        time.sleep(0.2)
    return False


def worker(job, ll, binpath, deadline, seed, outfile, workdir):
    import symexec, irparse, z3
    import expr as X
    try:
        import resource
        lim = int(os.environ.get('VERIF_JOB_MEM', str(6 << 30)))
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    sys.setrecursionlimit(100000)
    z3.set_param('memory_max_size', 4000)
    res = {'job': job.name(), 'mode': job.mode, 'error': None}
    t0 = time.time()
    try:
        m = irparse.Module(open(ll).read())
        rnd = random.Random(seed)

        def on_violation(eng, st, neg, v):
            kinds = {n: k for n, e, k in st.inputs}
            asg = dict(v['asg'] or {})
            for n, e, k in st.inputs:
                if not isinstance(e, X.E):
                    asg[n] = e
            v['asg'] = asg
            if not job.native:
                v['replay'] = 'none'
                return True
            if not wait_bin(binpath):
                v['why'] = 'native build failed'
                return False
            tries = []
            budget = time.time() + 25
            seenst = {}
            for i, a in enumerate(variants(asg, kinds, rnd)):
                if time.time() > budget or time.time() > deadline - 1:
                    break
                r = build.run_native(binpath, job.entry, a, workdir)
                seenst[r[0]] = seenst.get(r[0], 0) + 1
                if match(v['kind'], v['id'], r):
                    v['asg'] = a
                    v['input'] = r[2]
                    v['native'] = r[0]
                    v['stderr'] = (r[1]['err'] if isinstance(r[1], dict) else '')[:1500]
                    return True
                os.unlink(r[2])
            v['why'] = 'not reproduced natively: %s' % seenst
            return False

        opts = dict(job.opts)
        setup = job.setup
        import hooks
        eng = symexec.Engine(m, job.mode, job.entry, deadline=deadline, on_violation=on_violation, seed=seed, **opts)
        eng.fixed = job.fix
        eng.want_reach = set(job.reach)
        if setup:
            getattr(hooks, setup)(eng)
        R = eng.run()
        res.update(paths=R.paths, ends=R.ends, violations=R.violations, unconfirmed=R.unconfirmed,
                   inconclusive=R.inconclusive, reached=sorted(R.witness), asserts=R.asserts, queries=R.queries,
                   solver_time=round(R.solver_time, 2), steps=R.steps, complete=R.complete,
                   funcs=sorted(f for f in R.funcs), notes=sorted(R.notes), unknown=R.sat_unknown,
                   reached_any=sorted(R.reached))
        val = []
        if job.native and R.witness and not R.violations and time.time() < deadline:
            done = set()
            if wait_bin(binpath):
                for lab, (asg, outs) in R.witness.items():
                    key = repr(sorted(asg.items()))
                    if key in done or len(done) >= 6:
                        continue
                    done.add(key)
                    r = build.run_native(binpath, job.entry, asg, workdir)
                    os.unlink(r[2])
                    ok, why = r[0] == 'ok', r[0]
                    if r[0] == 'ok':
                        nat = [l.split() for l in r[1]['out'].splitlines() if l.startswith('OUT ')]
                        nat = [(a[1], float(a[2])) for a in nat]
                        if len(nat) == len(outs) and all(x[0] == y[0] for x, y in zip(nat, outs)):
                            for (n1, a), (n2, b) in zip(nat, outs):
                                if b is None:
                                    continue
                                if not (abs(a - b) <= 1e-3 * (1 + abs(a)) or a != a and b != b or a == b):
                                    ok, why = False, 'output %s: native %g executor %g' % (n1, a, b)
                        elif outs:
                            ok, why = False, 'outputs differ in shape'
                    val.append(dict(label=lab, ok=ok, why=why) if ok else dict(label=lab, ok=ok, why=why, err=r[1]['err'][-900:] if r[1] else ''))
        res['validated'] = val
    except Exception as ex:
        res['error'] = '%s: %s' % (type(ex).__name__, ex)
        res['trace'] = traceback.format_exc()[-3000:]
    res['wall'] = round(time.time() - t0, 2)
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(outfile + '.tmp', outfile)


def load_known():
    p = os.path.join(build.V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def run_jobs(jobs, tier, seed, budget, verbose=False, nproc=None):
    """returns list of job results"""
    t0 = time.time()
    ir = build.IR()
    jobs = [k for j in jobs for k in j.expand()]
    work = tempfile.mkdtemp(prefix='run', dir=build.BUILD)
    lls = {}
    groups = {}
    for j in jobs:
        groups.setdefault((j.file, j.defs, j.hdefs), set()).add(j.entry)
    for (f, d, h), ents in groups.items():
        lls[(f, d, h)] = ir.harness(f, sorted(ents), d, h)
    # native binaries in a process of their own (no threads here: the workers are forked from this process)
    build.drop_pool()
    bins = {}

    def mk(todo):
        os.setsid()
        try:
            os.nice(5)
        except OSError:
            pass
        nat = build.Native()
        for key, path in todo:
            try:
                b = nat.binary(*key)
                os.symlink(b, path)
                open(path + '.ok', 'w').close()
            except Exception as ex:
                open(path + '.fail', 'w').write(str(ex))
                print('native build failed: %s' % str(ex)[-1500:], file=sys.stderr)
        os._exit(0)
    todo = []
    for i, key in enumerate(groups):
        if any(j.native for j in jobs if (j.file, j.defs, j.hdefs) == key):
            bins[key] = os.path.join(work, 'bin%d' % i)
            todo.append((key, bins[key]))
    natp = None
    if todo:
        natp = mp.get_context('fork').Process(target=mk, args=(todo,))
        natp.start()
    build_time = time.time() - t0
    pend = list(enumerate(jobs))
    # longest first
    pend.sort(key=lambda x: -(x[1].limit or 60))
    running = {}
    results = [None] * len(jobs)
    nproc = nproc or int(os.environ.get('VERIF_PROCS', '8'))
    ctx = mp.get_context('fork')
    end = t0 + budget
    while pend or running:
        while pend and len(running) < nproc and time.time() < end - 3:
            i, j = pend.pop(0)
            key = (j.file, j.defs, j.hdefs)
            dl = min(end, time.time() + (j.limit or 240))
            of = os.path.join(work, 'res%d.json' % i)
            p = ctx.Process(target=worker, args=(j, lls[key], bins.get(key), dl, seed, of, work))
            p.start()
            running[i] = (p, j, dl, of)
        if pend and time.time() >= end - 3 and not running:
            for i, j in pend:
                results[i] = {'job': j.name(), 'error': 'not started: budget exhausted'}
            pend = []
            break
        time.sleep(0.05)
        for i, (p, j, dl, of) in list(running.items()):
            if os.path.exists(of) and not p.is_alive() or not p.is_alive():
                p.join()
                if os.path.exists(of):
                    results[i] = json.load(open(of))
                else:
                    results[i] = {'job': j.name(), 'error': 'worker died (%s)' % p.exitcode}
                del running[i]
                if verbose:
                    r = results[i]
                    print('  %-50s %s paths=%s q=%s %.1fs %s' % (
                        r['job'], 'ERR ' + str(r.get('error')) if r.get('error') else 'ok', r.get('paths'),
                        r.get('queries'), r.get('wall', 0), r.get('inconclusive') or ''), flush=True)
            elif time.time() > dl + 40:
                p.kill()
                p.join()
                results[i] = {'job': j.name(), 'error': 'killed at its time limit'}
                del running[i]
    if natp is not None and natp.is_alive():
        try:
            os.killpg(natp.pid, signal.SIGKILL)
        except OSError:
            natp.kill()
        natp.join()
    for i, r in enumerate(results):
        if r is None:
            results[i] = {'job': jobs[i].name(), 'error': 'no result'}
    return jobs, results, work, build_time


def check(pid, tier, seed=1, verbose=False, only=None):
    import props
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(build.BUILD, exist_ok=True)
    budget = (P.get('quick_budget', 420) if tier == 'quick' else P.get('thorough_budget', 820))
    jobs = [j for j in P['jobs'] if j.tier == 'quick' or tier == 'thorough']
    if only:
        jobs = [j for j in jobs if only in j.entry]
    if tier == 'thorough':
        for j in jobs:
            if j.limit is None:
                j.limit = 700
    work = None
    try:
        jobs, results, work, bt = run_jobs(jobs, tier, seed, budget, verbose)
        extra = []
        for fn in P.get('extra', ()):
            extra.append(fn(tier, budget - (time.time() - t0)))
    except RuntimeError as ex:
        # the tree does not build: nothing was decided
        print('INCONCLUSIVE property=%s build: %s' % (pid, str(ex)[-1500:]))
        evidence(pid, P, tier, seed, [], [], time.time() - t0, ['build failed: ' + str(ex)[-800:]], 0, [])
        if work:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'known']
    viol, knownhit, incon = [], [], []
    rdir = os.path.join(build.V, 'evidence', pid + '.replay')
    shutil.rmtree(rdir, ignore_errors=True)
    for j, r in list(zip(jobs, results)) + [(None, x) for x in extra]:
        if r.get('error'):
            incon.append('%s: %s' % (r['job'], r['error']))
            if r.get('trace'):
                print(r['trace'], file=sys.stderr)
            continue
        for x in r.get('inconclusive', []):
            incon.append('%s: %s' % (r['job'], x))
        for v in r.get('unconfirmed', []):
            incon.append('%s: candidate for %s not reproduced (%s)' % (r['job'], v['id'], v.get('why')))
        miss = set(j.reach) - set(r['reached']) if j is not None and not j.fix else set()
        if miss:
            incon.append('%s: never reached %s' % (r['job'], sorted(miss)))
        for v in r.get('validated', []):
            if not v['ok']:
                incon.append('%s: translation check %s' % (r['job'], v))
        for v in r.get('violations', []):
            k = [x for x in known if x['assert'] == v['id']]
            if k:
                knownhit.append((k[0], v))
                continue
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%d.json' % (r['job'].split('[')[0].split('{')[0], len(viol)))
            with open(rp, 'w') as f:
                json.dump({'property': pid, 'job': r['job'], 'assert': v['id'], 'kind': v['kind'],
                           'inputs': v['asg'], 'native': v.get('native'), 'where': v.get('where'),
                           'stderr': v.get('stderr'), 'harness': j.file if j else None,
                           'entry': j.entry if j else None}, f, indent=1, default=str)
            viol.append((v, rp))
    if work:
        shutil.rmtree(work, ignore_errors=True)
    evidence(pid, P, tier, seed, jobs, results + extra, time.time() - t0, incon, len(viol), known, bt)
    seen = set()
    for k, v in knownhit:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for x in incon:
        print('note: inconclusive: ' + x[:400])
    done = set()
    for v, rp in viol:
        if v['id'] in done:
            continue
        done.add(v['id'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  assertion %s (%s) inputs %s' % (v['id'], v['kind'], json.dumps(v['asg'], default=str)[:600]))
    ok = sum(sum(r.get('asserts', {}).values()) for r in results + extra if not r.get('error'))
    print('%s %s: %d jobs, %d paths, %d assertion instances proved, %d queries, %.1fs solver, %.1fs wall, %d inconclusive' % (
        pid, tier, len(results), sum(r.get('paths', 0) for r in results), ok,
        sum(r.get('queries', 0) for r in results), sum(r.get('solver_time', 0) for r in results), time.time() - t0,
        len(incon)))
    return 1 if viol else 0


def demangle(names):
    try:
        p = subprocess.run([build.LLVM + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        return p.stdout.split('\n')[:len(names)]
    except OSError:
        return names


def evidence(pid, P, tier, seed, jobs, results, wall, incon, nviol, known, bt=0):
    funcs = sorted({f for r in results for f in r.get('funcs', []) if not f.startswith(('_ZNSt', '_ZSt', '_ZNKSt', 'h_'))})
    ends = {}
    asserts = {}
    val = 0
    for r in results:
        for k, v in (r.get('ends') or {}).items():
            ends[k] = ends.get(k, 0) + v
        for k, v in (r.get('asserts') or {}).items():
            asserts[k] = asserts.get(k, 0) + v
        val += sum(1 for v in r.get('validated', []) if v['ok'])
    good = [r for r in results if not r.get('error')]
    cov = {
        'explanation': 'symbolic execution of the LLVM IR compiled from /repo on this run; every assertion of every '
                       'path is decided by an SMT query over all values of the symbolic inputs within the bounds',
        'instructions_executed': sum(r.get('steps', 0) for r in good),
        'witnesses_replayed_natively': val,
        'samples': [{'job': r['job'], 'mode': r.get('mode'), 'paths': r.get('paths'), 'ends': r.get('ends'),
                     'queries': r.get('queries'), 'solver_s': r.get('solver_time'), 'wall_s': r.get('wall'),
                     'witnesses': r.get('reached'), 'complete': r.get('complete')} for r in good][:60],
        'functions_encoded': [x[:160] for x in demangle(funcs)][:300],
        'paths': sum(r.get('paths', 0) for r in good),
        'path_ends': ends,
        'assertions_proved': asserts,
        'queries': sum(r.get('queries', 0) for r in good),
        'solver_s': round(sum(r.get('solver_time', 0) for r in good), 2),
        'bounds': P.get('bounds', ''),
        'outside': P.get('outside', ''),
        'inconclusive': incon,
        'build_s': round(bt, 1),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'other'), 'coverage': cov,
          'wall_s': round(wall, 2),
          'assumptions': P.get('assumptions', []) + sorted({n for r in good for n in r.get('notes', [])}),
          'violations': nviol}
    os.makedirs(os.path.join(build.V, 'evidence'), exist_ok=True)
    with open(os.path.join(build.V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
