"""Runs the check of one property.

checks/cXX.py offers tasks(tier) -> list of T(...) and harness functions fn(c, m, cfg).  Every task is explored
symbolically; counterexamples are replayed on the real code; path samples are run through the symbolic and the real
code and compared.
"""
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BTA_REPO', '/repo')


class T(object):
    """a task: harness function, configuration (JSON), options of the exploration"""

    def __init__(self, fn, cfg=None, covers=(), samples=2, **opts):
        self.fn = fn if isinstance(fn, str) else fn.__name__
        self.cfg = cfg or {}
        self.covers = list(covers)
        self.samples = samples
        self.opts = opts

    @property
    def name(self):
        return self.fn + ('' if not self.cfg else '[' + ','.join('%s=%s' % (k, v) for k, v in sorted(self.cfg.items())) + ']')


def check_module(pid):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module('checks.' + pid.lower())


_world = None


def world():
    global _world
    if _world is None:
        from engine.loader import SymWorld
        _world = SymWorld(REPO)
    return _world


def _profile_collector(seen):
    pre = os.path.join(REPO, 'beam_telescope_analysis') + os.sep

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(pre) and co.co_name != '<module>':
                seen.add(co.co_filename[len(pre):] + ':' + getattr(co, 'co_qualname', co.co_name))
            elif co.co_filename == 'analysis_functions.pyx' and co.co_name != '<module>':
                seen.add('cpp/analysis_functions.pyx:' + co.co_name)
    return prof


def run_task(arg):
    pid, k, tier, seed, deadline = arg
    t0 = time.time()
    from engine import core
    mod = check_module(pid)
    task = mod.tasks(tier)[k]
    fn = getattr(mod, task.fn)
    out = dict(k=k, name=task.name)
    try:
        w = world()

        def run(c):
            w.reset()
            w.ctx = c
            fn(c, w, task.cfg)
        opts = dict(timeout=20000, branch_timeout=8000, stop_cex=0 if known_findings(pid) else 24)
        opts.update(task.opts)
        e = core.Explorer(deadline=deadline, seed=seed * 1000 + k, n_samples=task.samples, **opts)
        e.run(run)
        out['stats'] = e.stats.__dict__
        out['cex'] = e.cex
        out['inconclusive'] = e.inconclusive
        out['covers'] = e.covers
        out['samples'] = []
        seen = set()
        for s in e.samples:
            f = core.Explorer(fixed=s, n_samples=0, deadline=deadline, **opts)
            sys.setprofile(_profile_collector(seen))
            try:
                f.run(run)
            finally:
                sys.setprofile(None)
            if f.inconclusive:
                out['samples'].append(dict(inputs=s, error=f.inconclusive[0]))
                continue
            out['samples'].append(dict(inputs=s, observed=getattr(f, 'last', None) and f.last.observed or [], failures=sorted({x['msg'] for x in f.cex})))
        for n in w.used.get('C++ kernels (LLVM IR)', ()):
            seen.add('cpp/AnalysisFunctions.h:' + n)
        out['functions'] = sorted(seen)
    except BaseException as e:
        import traceback
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-3000:]
        if isinstance(e, KeyboardInterrupt):
            raise
    out['wall'] = time.time() - t0
    return out


# ---------------------------------------------------------------- real code
class Real(object):
    """builds the extension and runs batches of harness items on the real code"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vchk')
        self.so = {}
        self.err = {}
        self.th = {}
        self.n = 0

    def start_build(self, asan=False):
        def go():
            from engine import real
            d = os.path.join(self.dir, 'asan' if asan else 'ext')
            try:
                os.makedirs(d)
                self.so[asan] = real.build_ext(REPO, d, asan)
            except subprocess.CalledProcessError as e:
                self.err[asan] = (e.stderr or b'').decode(errors='replace')[-2000:]
            except Exception as e:
                self.err[asan] = repr(e)
        t = threading.Thread(target=go)
        t.start()
        self.th[asan] = t

    def ext(self, asan=False):
        if asan not in self.th:
            self.start_build(asan)
        self.th[asan].join()
        return self.so.get(asan)

    def env(self, asan):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_'))}
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_BOUNDSCHECK='1',
                 NUMBA_CACHE_DIR=os.path.join(self.dir, 'numba'), HOME=self.dir, BTA_REPO=REPO, NUMBA_NUM_THREADS='2')
        if asan:
            lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
            e.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', PYTHONMALLOC='malloc')
        return e

    def run(self, items, timeout=60, asan=False, procs=6):
        """results by id; crashed items get {'crash': ...}, hanging ones {'timeout': True}"""
        so = self.ext(asan)
        if so is None:
            return {it['id']: dict(error='extension does not build: ' + self.err.get(asan, '')) for it in items}
        res = {}
        groups = [items[i::procs] for i in range(procs)]
        ths = []
        for g in groups:
            if g:
                t = threading.Thread(target=self._run_group, args=(g, res, so, timeout, asan))
                t.start()
                ths.append(t)
        for t in ths:
            t.join()
        return res

    def _run_group(self, items, res, so, timeout, asan):
        todo = list(items)
        while todo:
            self.n += 1
            tag = '%d_%d' % (id(items) % 100000, self.n)
            b, o = os.path.join(self.dir, 'b%s.json' % tag), os.path.join(self.dir, 'o%s.jsonl' % tag)
            with open(b, 'w') as f:
                json.dump(dict(repo=REPO, so=so, items=todo), f)
            tmp = os.path.join(self.dir, 'tmp' + tag)
            os.makedirs(tmp, exist_ok=True)
            env = self.env(asan)
            env['TMPDIR'] = tmp
            p = subprocess.Popen([sys.executable, os.path.join(ROOT, 'engine', 'realrun.py'), b, o], cwd=tmp, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
            errbuf = []
            et = threading.Thread(target=lambda: errbuf.append(p.stderr.read()))
            et.start()
            last, n = time.time(), 0
            hung = False
            while p.poll() is None:
                time.sleep(0.05)
                try:
                    m = os.path.getsize(o)
                except OSError:
                    m = 0
                if m != n:
                    n, last = m, time.time()
                if time.time() - last > timeout + (60 if n == 0 else 0):
                    hung = True
                    os.killpg(p.pid, 9)
                    break
            p.wait()
            et.join()
            cur = None
            try:
                with open(o) as f:
                    lines = f.read().split('\n')
            except OSError:
                lines = []
            for ln in lines:
                if not ln.strip():
                    continue
                try:
                    r = json.loads(ln)
                except ValueError:
                    continue
                if 'start' in r:
                    cur = r['start']
                else:
                    res[r['id']] = r
                    cur = None
            done = [it for it in todo if it['id'] in res]
            todo = [it for it in todo if it['id'] not in res]
            if not todo:
                break
            err = (errbuf[0] if errbuf else b'').decode(errors='replace')
            if cur is not None:
                res[cur] = dict(timeout=True) if hung else dict(crash='exit status %s: %s' % (p.returncode, err[-1500:]))
                todo = [it for it in todo if it['id'] != cur]
            elif not done:
                for it in todo:
                    res[it['id']] = dict(error='real run did not start: ' + err[-1500:])
                break

    def close(self):
        for t in self.th.values():
            t.join()
        shutil.rmtree(self.dir, ignore_errors=True)


def reproduces(r, msg):
    """does the outcome of a real run show the violation?"""
    if r is None or 'error' in r or 'skip' in r:
        return None
    if 'crash' in r:
        return 'the real code crashes: %s' % r['crash'][-600:]
    if 'timeout' in r:
        return 'the real code does not terminate' if 'NonTermination' in msg else None
    if r.get('failures'):
        return '; '.join(r['failures'][:4]) + (' (%s)' % r['detail'] if r.get('detail') else '')
    return None


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k['property'] == pid and k.get('status') == 'finding']


def main(pid, tier=None, only=None, keep_going=True):
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET') or (480 if tier == 'quick' else 3 * 3600))
    mod = check_module(pid)
    tasks = mod.tasks(tier)
    real = Real()
    try:
        return _main(pid, tier, seed, t0, budget, mod, tasks, real, only)
    finally:
        real.close()


def _main(pid, tier, seed, t0, budget, mod, tasks, real, only):
    real.start_build()
    ks = [k for k, t in enumerate(tasks) if only is None or re.search(only, t.name)]
    deadline = t0 + budget
    args = [(pid, k, tier, seed, deadline) for k in ks]
    args.sort(key=lambda a: -tasks[a[1]].cfg.get('weight', 0) if isinstance(tasks[a[1]].cfg, dict) else 0)
    nproc = int(os.environ.get('VERIF_PROCS') or min(8, len(args) or 1))
    results = []
    verbose = os.environ.get('VERIF_VERBOSE')
    ctxm = multiprocessing.get_context('fork')
    with ctxm.Pool(nproc) as pool:
        for r in pool.imap_unordered(run_task, args, chunksize=1):
            results.append(r)
            if verbose:
                print('  %-60s %6.1fs paths=%s cex=%d inc=%d%s' % (r['name'][:60], r['wall'], r.get('stats', {}).get('paths'), len(r.get('cex', ())), len(r.get('inconclusive', ())), ' ERROR ' + r['error'] if 'error' in r else ''), flush=True)
                if 'error' in r:
                    print(r['trace'])
                for i in r.get('inconclusive', ())[:3]:
                    print('      ', i)
    t1 = time.time()
    # -- real code: counterexamples and samples
    items, meta = [], {}
    for r in results:
        t = tasks[r['k']]
        for i, x in enumerate(r.get('cex', ())):
            it = dict(id=len(items), check=pid, fn=t.fn, cfg=t.cfg, inputs=x['inputs'])
            meta[it['id']] = ('cex', r, x)
            items.append(it)
        for s in r.get('samples', ()):
            it = dict(id=len(items), check=pid, fn=t.fn, cfg=t.cfg, inputs=s['inputs'])
            meta[it['id']] = ('sample', r, s)
            items.append(it)
    out = real.run(items, timeout=getattr(mod, 'REAL_TIMEOUT', 60), procs=min(6, max(1, len(items) // 4))) if items else {}
    # memory violations that did not show: once more with the address sanitizer
    retry = [it for it in items if meta[it['id']][0] == 'cex' and not reproduces(out.get(it['id']), meta[it['id']][2]['msg'])
             and re.search('MemoryViolation|CppTerminate', meta[it['id']][2]['msg'])][:6]
    if retry:
        out.update(real.run(retry, timeout=120, asan=True, procs=3))
    problems, violations, validated, mismatches = [], [], 0, []
    for it in items:
        kind, r, x = meta[it['id']]
        o = out.get(it['id'])
        if kind == 'cex':
            shown = reproduces(o, x['msg'])
            if shown:
                violations.append(dict(item=it, msg=x['msg'], detail=x.get('detail'), shown=shown, task=r['name'], name=tasks[r['k']].fn))
            else:
                problems.append('counterexample to "%s" (%s %s) does not reproduce on the real code: %s' % (x['msg'], r['name'], x.get('detail', ''), _short(o)))
        else:
            if o is None or 'error' in o:
                problems.append('real run: %s' % _short(o))
                continue
            if 'skip' in o or 'error' in x:
                if 'error' in x:
                    problems.append('validation run of %s: %s' % (r['name'], x['error']))
                continue
            shown = reproduces(o, 'NonTermination')
            if shown and not x['failures']:
                violations.append(dict(item=it, msg='real run disagrees with the symbolic run and fails: ' + shown, detail=None, shown=shown, task=r['name'], name=tasks[r['k']].fn))
                continue
            from engine.conc import same
            a, b = [list(v) for v in x['observed']], o['observed']
            if same(a, b):
                validated += 1
            else:
                mismatches.append((r['name'], a, b, it['inputs']))
    if mismatches:
        bad = {}
        for nme, a, b, i in mismatches:
            bad.setdefault(nme.split('[')[0], []).append((a, b, i))
        for nme, l in bad.items():
            tot = sum(1 for it in items if meta[it['id']][0] == 'sample' and it['fn'] == nme)
            has_real = any(isinstance(v, float) for _, _, i in l for v in i.values())
            if not has_real or len(l) * 3 > tot:
                problems.append('symbolic and real execution of %s differ: %s / %s for %s' % (nme, str(l[0][0])[:600], str(l[0][1])[:600], str(l[0][2])[:600]))
    # confirmed violations with the same message explain unreproduced ones
    vmsgs = {(v['name'], v['msg']) for v in violations}
    stats = {}
    functions = set()
    covers = {}
    for r in results:
        if 'error' in r:
            problems.append('%s: %s' % (r['name'], r['error']))
            continue
        for i in r['inconclusive'][:5]:
            problems.append('%s: %s' % (r['name'], i))
        for k, v in r['stats'].items():
            if isinstance(v, dict):
                d = stats.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                stats[k] = stats.get(k, 0) + v
        functions.update(r['functions'])
        for l, n in r['covers'].items():
            covers[l] = covers.get(l, 0) + n
        for l in tasks[r['k']].covers:
            if l not in r['covers']:
                problems.append('%s: "%s" was never reached' % (r['name'], l))
        if r['stats']['paths'] == 0:
            problems.append('%s: no path was completed' % r['name'])
    # known findings
    known = known_findings(pid)
    new, seen_known = [], {}
    for v in violations:
        k = next((k for k in known if k['fn'] == v['name'] and k['msg'] == v['msg'] and all(json.loads(json.dumps(v['item']['cfg'])).get(a) == b for a, b in k.get('cfg', {}).items())), None)
        if k is None:
            new.append(v)
        else:
            seen_known[k['what']] = k
    for k in known:
        if k['what'] in seen_known or only is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(new),
              coverage=dict(states=stats.get('paths', 0), transitions=stats.get('branches', 0), traces_validated_against_impl=validated,
                            samples=[dict(task=r['name'], inputs=s['inputs']) for r in results for s in r.get('samples', ())][:8],
                            exhaustive=not problems,
                            explanation='states: symbolic paths completed (each stands for all inputs that take it); transitions: branch decisions on symbolic conditions; '
                                        'traces: path samples whose outputs agree between the symbolic and the real execution',
                            method='symbolic execution of the current sources, assertions decided by z3 for every input within the bounds',
                            bounds=getattr(mod, 'BOUNDS', ''), bounds_outside=getattr(mod, 'OUTSIDE', ''),
                            functions_encoded=sorted(functions), tasks=len(results), infeasible_paths=stats.get('infeasible', 0),
                            assertions=stats.get('checks', 0), assertions_folded=stats.get('trivial', 0), assertions_discharged=stats.get('discharged', 0),
                            queries=stats.get('queries', 0), queries_unknown=stats.get('unknown', 0), solver_s=round(stats.get('solver_s', 0), 2), queries_by_solver=stats.get('solvers', {}),
                            reached=covers, exploration_s=round(t1 - t0, 2), problems=problems[:20],
                            violations=[dict(msg=v['msg'], task=v['task'], shown=v['shown']) for v in new[:10]]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON)
    if only is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d tasks, %d paths, %d branch decisions, %d assertions, %d queries, solver %.1f s, validated %d, wall %.1f s' % (
        pid, tier, len(results), stats.get('paths', 0), stats.get('branches', 0), stats.get('checks', 0), stats.get('queries', 0), stats.get('solver_s', 0), validated, wall))
    if new:
        d = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for n, v in enumerate(new):
            if (v['name'], v['msg']) in seen or len(seen) >= 5:
                continue
            seen.add((v['name'], v['msg']))
            p = os.path.join(d, '%s-%d.json' % (pid, n))
            with open(p, 'w') as f:
                json.dump(dict(v['item'], msg=v['msg'], detail=v['detail'], shown=v['shown'], task=v['task'], asan=bool(re.search('MemoryViolation|CppTerminate', v['msg'])),
                               how='%s engine/realrun.py --replay %s' % (sys.executable, p)), f, indent=1, default=str)
            print('  violated: %s [%s] real code: %s' % (v['msg'], v['task'], v['shown'][:500].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if problems:
        for p in problems[:12]:
            print('INCONCLUSIVE property=%s %s' % (pid, p))
        return 2
    return 0


COMMON = ['floating point numbers are modelled as real numbers; comparisons with computed values in the real runs use a relative tolerance of 1e-6',
          'numpy, PyTables and numba are modelled (engine/symnp.py, engine/faketables.py); sampled paths are compared with the real libraries on every run',
          'plots, log messages and progress bars have no effect on the results']


def _short(o):
    s = json.dumps({k: v for k, v in (o or {}).items() if k not in ('observed', 'covers')}, default=str) if o is not None else 'no result'
    return s[:1200]


def replay_file(path):
    with open(path) as f:
        item = json.load(f)
    real = Real()
    try:
        item['id'] = 0
        out = real.run([item], timeout=60, asan=bool(item.get('asan')), procs=1)
        print(json.dumps(out[0], indent=1, default=str))
        s = reproduces(out[0], item['msg'])
        print('reproduced: %s' % s if s else 'not reproduced')
        return 1 if s else 0
    finally:
        real.close()
