"""Driver of one check:  python -m vc.main C09 [--tier quick|thorough]

Runs, in forked workers, the proof procedures of the property (symbolic execution of the instrumented /repo code) and
the runtime-contract harness on the uninstrumented code, merges the verdicts, writes the evidence file.
Exit 0: held;  exit 1: a line VIOLATION;  exit 2: nothing could be decided (error of the check).
"""
import sys, os, json, time, random, importlib, traceback, hashlib, signal, multiprocessing as mp, queue, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get('VC_REPO', '/repo')
NW = int(os.environ.get('VC_WORKERS', '0')) or min(8, os.cpu_count() or 4)


# ------------------------------------------------------------------ proof side
def _proof_worker(plist, idx, scale, out):
    try:
        from vc.core import run_proof
        name, fn, opts = plist[idx]
        t0 = time.time()
        r = run_proof(name, fn, timeout=opts.get('timeout', 10), max_paths=opts.get('paths', 3000),
                      budget=opts.get('budget', 100) * scale)
        out.put(('proof', idx, dict(name=name, obligations=r.obligations, paths=r.paths, reason=r.reason,
                                    complete=r.complete, time=r.time, queries=r.queries, solver_time=r.solver_time,
                                    trace=getattr(r, 'trace', ''), functions=opts.get('functions', []),
                                    depends=opts.get('depends', False))))
    except BaseException:       # noqa
        out.put(('proof', idx, dict(name='proof %d' % idx, obligations={}, paths=0, complete=False,
                                    reason='engine crash', trace=traceback.format_exc()[-2000:], time=0., queries=0,
                                    solver_time=0., functions=[])))


def _proof_server(pid, tier, scale, only, nw, total, out):
    """import the instrumented package once, then one forked worker per proof procedure"""
    try:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        sys.argv = ['check']
        wd = tempfile.mkdtemp(prefix='vcp_%s_' % pid)
        os.chdir(wd)
        tempfile.tempdir = wd
        import logging, warnings
        logging.disable(logging.CRITICAL)
        warnings.simplefilter('ignore')
        from vc import load
        load.install()
        import pylbm            # noqa
        mod = importlib.import_module('vc.props.' + pid.lower())
        plist = mod.proofs(tier)
        tasks = []
        for i, (n, f, o) in sorted(enumerate(plist), key=lambda x: -x[1][2].get('budget', 100)):
            if only and only not in n:
                continue
            tasks.append((i, _proof_worker, (plist, i, scale), o.get('budget', 100) * scale + 60))
        res = run_tasks(tasks, nw, total)
        outl = []
        for i, (n, f, o) in enumerate(plist):
            if i not in res:
                continue
            r = res[i]
            if r is None:
                d = dict(name=n, obligations={n: dict(status='unknown', detail='worker timeout', count=1, time=0, model=None, backend='')},
                         paths=0, complete=False, reason='worker timeout', time=0., queries=0, solver_time=0., functions=o.get('functions', []), trace='')
            else:
                d = r[2]
            outl.append(d)
        out.put(outl)
    except BaseException:       # noqa
        out.put(traceback.format_exc()[-3000:])
    finally:
        os.chdir('/')
        shutil.rmtree(wd, ignore_errors=True)


# ------------------------------------------------------------------ harness side
class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def in_repo(e):
    """exception coming out of the code of /repo (or of a library it called) on a valid input"""
    tb = e.__traceback__
    frames = []
    while tb is not None:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    mine = [i for i, f in enumerate(frames) if f.startswith(HERE)]
    repo = [i for i, f in enumerate(frames) if f.startswith(REPO + '/pylbm') or 'generated' in f]
    # a mismatch between harness and code (renamed internal attribute) ends in a harness frame
    return bool(repo) and (not mine or repo[-1] > mine[-1])


LIVE = []


def recycle():
    """free the communicators of the topologies that are no longer used (MPI gives about 2000 of them to a process)"""
    import gc
    gc.collect()
    for t, comm in LIVE[:]:
        if t() is None:
            LIVE.remove((t, comm))
            try:
                comm.Free()
            except Exception:      # noqa
                pass


def _track_topologies():
    import weakref
    import pylbm.mpi_topology as T
    init = T.MpiTopology.__init__

    def tracked(self, *a, **k):
        init(self, *a, **k)
        LIVE.append((weakref.ref(self), self.cartcomm))
        if len(LIVE) > 600 and len(LIVE) % 100 == 0:
            recycle()
    T.MpiTopology.__init__ = tracked


def eval_case(mod, case):
    """None | (key, message) | ('undecided', text)"""
    try:
        r = mod.check_case(case)
    except CaseTimeout:
        return ('undecided', 'timeout')
    except (Exception, SystemExit) as e:      # noqa
        if in_repo(e) and 'MPI_ERR_INTERN' not in str(e):
            return ('exception', 'the code raises %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        return ('undecided', traceback.format_exc()[-1500:])
    if r is None or r is True:
        return None
    if isinstance(r, str):
        return ('contract', r)
    return tuple(r)


def _harness_setup(pid):
    sys.argv = ['check']
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    wd = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    os.chdir(wd)
    os.environ['TMPDIR'] = wd
    tempfile.tempdir = wd
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    sys.setrecursionlimit(10000)
    try:
        _track_topologies()
    except Exception:      # noqa
        pass
    return wd


def known_keys(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    return {k['key'] for k in json.load(open(p)) if k['property'] == pid and k.get('status') == 'open'} if os.path.exists(p) else set()


def _harness_worker(pid, w, nw, tier, seed, budget, out):
    wd = None
    try:
        wd = _harness_setup(pid)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        mod = importlib.import_module('vc.props.' + pid.lower())
        mod.TIER = tier
        signal.signal(signal.SIGALRM, _alarm)
        t0 = time.time()
        n = 0
        und = 0
        keys = set()
        samples = []
        fails = []
        undtxt = ''
        per_key, known = {}, known_keys(pid)
        exhausted = True
        nfirst = getattr(mod, 'PRIORITY', 0)
        rng = random.Random(seed * 7919 + 13)
        tcase = getattr(mod, 'CASE_TIMEOUT', 60)
        for i, case in enumerate(mod.cases(tier, rng)):
            if i % nw != w:
                continue
            if time.time() - t0 > budget:
                exhausted = False
                break
            signal.alarm(tcase)
            try:
                r = eval_case(mod, case)
            finally:
                signal.alarm(0)
            if r is not None and r[0] == 'undecided':
                und += 1
                undtxt = r[1]
                continue
            n += 1
            h = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
            if h not in keys:
                keys.add(h)
                if len(samples) < 2:
                    samples.append(case)
            if r is not None:
                per_key[r[0]] = per_key.get(r[0], 0) + 1
                if per_key[r[0]] <= 3:
                    fails.append((case, r[0], r[1]))
                if len(fails) >= 20 or max([k for q, k in per_key.items() if q not in known], default=0) >= 20:
                    break
        out.put(('harness', w, dict(n=n, und=und, undtxt=undtxt, distinct=len(keys), samples=samples, fails=fails,
                                    exhausted=exhausted, time=time.time() - t0)))
    except BaseException:       # noqa
        out.put(('harness', w, dict(n=0, und=1, undtxt=traceback.format_exc()[-2000:], distinct=0, samples=[], fails=[],
                                    exhausted=False, time=0.)))
    finally:
        if wd:
            os.chdir('/')
            shutil.rmtree(wd, ignore_errors=True)


def _harness_server(pid, nw, tier, seed, budget, out):
    wd = None
    try:
        wd = _harness_setup(pid)
        mod = importlib.import_module('vc.props.' + pid.lower())
        mod.TIER = tier
        getattr(mod, 'setup', lambda: None)()
        tasks = [(w, _harness_worker, (pid, w, nw, tier, seed, budget), budget + 150) for w in range(nw)]
        res = run_tasks(tasks, nw)
        out.put([res[w][2] if res[w] else dict(n=0, und=1, undtxt='harness worker timed out', distinct=0, samples=[], fails=[],
                                               exhausted=False, time=0.) for w in range(nw)])
    except BaseException:       # noqa
        out.put([dict(n=0, und=1, undtxt=traceback.format_exc()[-2000:], distinct=0, samples=[], fails=[], exhausted=False, time=0.)])
    finally:
        if wd:
            os.chdir('/')
            shutil.rmtree(wd, ignore_errors=True)


def _replay_worker(pid, case, out):
    wd = None
    try:
        wd = _harness_setup(pid)
        mod = importlib.import_module('vc.props.' + pid.lower())
        mod.TIER = 'quick'
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(120)
        r = eval_case(mod, case)
        out.put(r)
    except BaseException:       # noqa
        out.put(('undecided', traceback.format_exc()[-1500:]))
    finally:
        if wd:
            os.chdir('/')
            shutil.rmtree(wd, ignore_errors=True)


CTXM = mp.get_context('fork')


def _kill(p):
    try:
        p.terminate()
        p.join(1)
        if p.is_alive():
            p.kill()
    except Exception:           # noqa
        pass


def run_tasks(tasks, nw, total=None):
    """tasks: list of (key, target, args, hard_timeout, queue); returns {key: result or None}"""
    pend = list(tasks)
    run = {}
    res = {}
    end = time.time() + total if total else None
    while pend or run:
        if end and time.time() > end:
            for key, (p, q, dl) in run.items():
                _kill(p)
                res[key] = None
            for key, *_ in pend:
                res[key] = None
            break
        while pend and len(run) < nw:
            key, target, args, tmo = pend.pop(0)
            q = CTXM.Queue()
            p = CTXM.Process(target=target, args=args + (q,), daemon=False)
            p.start()
            run[key] = (p, q, time.time() + tmo)
        time.sleep(0.02)
        for key in list(run):
            p, q, dl = run[key]
            try:
                res[key] = q.get_nowait()
                p.join(2)
                _kill(p)
                del run[key]
                continue
            except queue.Empty:
                pass
            if not p.is_alive():
                try:
                    res[key] = q.get(timeout=0.5)
                except queue.Empty:
                    res[key] = None
                del run[key]
            elif time.time() > dl:
                _kill(p)
                res[key] = None
                del run[key]
    return res


def replay_case(pid, case, tmo=150):
    r = run_tasks([('r', _replay_worker, (pid, case), tmo)], 1)
    return r['r']


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    meta = importlib.import_module('vc.meta').META[pid]
    scale = 1 if tier == 'quick' else 6
    hbudget = meta.get('hbudget', 40) * scale
    sys.stdout.flush()

    tasks = []
    hn = 0
    if only != 'harness' and meta.get('proofs', True):
        ponly = None if only in (None, 'proofs') else only
        pb = meta.get('pbudget', 420) * scale
        tasks.append(('p', _proof_server, (pid, tier, scale, ponly, meta.get('pworkers', max(2, NW - 2)), pb), pb + 60))
    if only in (None, 'harness') and meta.get('harness', True):
        hn = meta.get('hworkers', min(4, NW))
        tasks.append(('h', _harness_server, (pid, hn, tier, seed, hbudget), hbudget + 240))
    res = run_tasks(tasks, 2)
    procs = res.get('p')
    listing_error = ''
    if not isinstance(procs, list):
        if 'p' in res:
            listing_error = procs or 'proof server timed out'
        procs = []

    # ---- merge
    obl = {}
    for d in procs:
        n = d['name']
        if not d['obligations']:
            d['obligations'] = {n: dict(status='unknown', detail=d['reason'], count=1, time=0, model=None, backend='')}
        for k, o in d['obligations'].items():
            obl['%s / %s' % (d['name'], k)] = o
        if verbose:
            print('PROOF %-60s paths=%d complete=%s %.1fs %s' % (d['name'], d['paths'], d['complete'], d['time'], d['reason']))
            if '-vv' in sys.argv:
                for n, o in sorted(d['obligations'].items(), key=lambda x: -x[1]['time'])[:6]:
                    print('        %6.1fs %d %s %s' % (o['time'], o['count'], n, o['backend']))
            for k, o in d['obligations'].items():
                if o['status'] != 'proved':
                    print('     ', o['status'], k, o['detail'], json.dumps(o['model'], default=str)[:600])
            if d.get('trace'):
                print(d['trace'])
    hs = res.get('h') or []
    fails = []
    for h in hs:
        fails += h['fails']
    n_eval = sum(h['n'] for h in hs)
    n_und = sum(h['und'] for h in hs)
    undtxt = next((h['undtxt'] for h in hs if h['undtxt']), '')
    if verbose and hn:
        print('HARNESS evaluations=%d undecided=%d distinct=%d exhausted=%s' % (n_eval, n_und, sum(h['distinct'] for h in hs), [h['exhausted'] for h in hs]))
        if undtxt:
            print('  undecided:', undtxt)
        for f in fails[:5]:
            print('  FAIL', f[1], f[2][:1500], json.dumps(f[0])[:800])

    known = json.load(open(os.path.join(ROOT, 'known_findings.json'))) if os.path.exists(os.path.join(ROOT, 'known_findings.json')) else []
    known = [k for k in known if k['property'] == pid and k.get('status') == 'open']
    kkeys = {k['key']: k for k in known}
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viol = []
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    def record(kind, data):
        h = hashlib.md5(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(rdir, '%s-%s-%s.json' % (pid, kind, h))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, kind=kind, how='python -m vc.replay <this file>', **data), f, indent=1, default=str)
        return p

    seen = set()
    failed_names = [k for k, o in obl.items() if o['status'] == 'refuted'][:20]
    open_names = [k for k, o in obl.items() if o['status'] == 'unknown'][:20]
    for case, key, msg in fails:
        if key in kkeys or key in seen:
            continue
        seen.add(key)
        viol.append((record('input', dict(case=case, key=key, message=msg, failed_obligations=failed_names, undecided_obligations=open_names)), True, msg))
    refuted = [(k, o) for k, o in obl.items() if o['status'] == 'refuted' and ('obligation:' + k) not in kkeys]
    tried = 0
    for k, o in refuted:
        case = (o.get('model') or {}).get('case')
        confirmed = None
        if case is not None and tried < 6 and not viol:
            tried += 1
            confirmed = replay_case(pid, case)
            if confirmed is not None and confirmed[0] != 'undecided':
                if confirmed[0] in kkeys:
                    continue
                viol.append((record('counterexample', dict(obligation=k, case=case, key=confirmed[0], message=confirmed[1], solver=o['detail'])), True, confirmed[1]))
                continue
    if refuted and not any(v[1] for v in viol):
        k, o = refuted[0]
        viol.append((record('obligation', dict(obligation=k, all_failed=[x[0] for x in refuted], detail=o['detail'], model=o.get('model'),
                                               backend=o.get('backend'))), False, 'obligation %s fails: %s' % (k, o['detail'])))

    # ---- evidence
    n_obl = sum(o['count'] for o in obl.values())
    n_dis = sum(o['count'] for o in obl.values() if o['status'] == 'proved')
    backends = {}
    for o in obl.values():
        if o['status'] == 'proved':
            backends[o['backend'] or 'z3'] = backends.get(o['backend'] or 'z3', 0) + o['count']
    level = meta['level']
    cov = dict(
        obligations=n_obl, discharged=n_dis,
        checker_cmd='bash run.sh %s  (vc symbolic execution of /repo + z3 %s, cvc5)' % (pid, _z3v()),
        trusted_base=BASE_TRUST + meta.get('trust', []),
        named_obligations=len(obl), backends=backends,
        undischarged=[dict(name=k, status=o['status'], why=str(o['detail'])[:200]) for k, o in obl.items() if o['status'] != 'proved'][:40],
        functions_under_contract=sorted({f for d in procs for f in d['functions']}),
        paths=sum(d['paths'] for d in procs), solver_queries=sum(d['queries'] for d in procs),
        solver_time_s=round(sum(d['solver_time'] for d in procs), 2),
        proofs=[dict(name=d['name'], paths=d['paths'], complete=d['complete'], obligations=sum(o['count'] for o in d['obligations'].values()),
                     time_s=round(d['time'], 2), reason=d['reason']) for d in procs],
        evaluations=n_eval, distinct_nontrivial=sum(h['distinct'] for h in hs), undecided_cases=n_und,
        rule=meta.get('rule', ''), samples=[s for h in hs for s in h['samples']][:4],
        bounded_standin=meta.get('bounded', ''), explanation=meta['note'])
    if level == 'translation_validation':
        cov['programs'] = sum(1 for d in procs if d['complete'])
        cov['disagreements_checked'] = n_obl
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=BASE_ASSUME + meta.get('assume', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if listing_error:
        ev['coverage']['engine_error'] = listing_error[-500:]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s: obligations %d/%d discharged (%d named), harness %d cases (%d undecided), %.1fs' % (
        pid, n_dis, n_obl, len(obl), n_eval, n_und, time.time() - t0))
    if listing_error and verbose:
        print(listing_error)
    if viol:
        viol.sort(key=lambda v: not v[1])
        for p, ok, msg in viol[:3]:
            print('  ' + msg.strip().split('\n')[0][:300])
            print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if ok else ' no-failing-input-found'))
        return 1
    if n_eval == 0 and n_dis == 0:
        print('nothing could be decided: %s %s' % (listing_error, undtxt))
        return 2
    return 0


def _z3v():
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    try:
        import z3
        return z3.get_version_string()
    except ImportError:
        return '?'


BASE_TRUST = [
    'z3 / cvc5',
    'the symbolic executor in /verif/vc (core.py, farr.py, npshim.py, load.py), including its model of numpy views, slices, broadcasting and masks',
    'CPython executing the instrumented source',
]
BASE_ASSUME = [
    'floating point arithmetic is read as real arithmetic; float constants as the nearest simple rational within rounding',
    'numpy integers are read as mathematical integers (no wrap-around)',
    'nan and infinities do not occur in the symbolic part (they are exercised by the bounded harness only)',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
