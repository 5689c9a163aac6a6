"""Check runner: shards cases over worker processes, collects what the
monitors observed, and turns it into a three-valued verdict."""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'MPLBACKEND': 'agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}


class SkipCase(Exception):
    """The oracle cannot decide this case (degenerate/ambiguous input)."""


class Stop(Exception):
    pass


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        if o.size > 64:
            return f'array{o.shape}'
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


class Mon:
    """Per-worker recorder handed to every case."""

    def __init__(self, tier, seed, scratch, so):
        self.tier, self.seed, self.scratch, self.so = tier, seed, scratch, so
        self.events = {}
        self.evals = 0
        self.nontrivial = set()
        self.violations = []
        self.vcount = {}
        self.samples = []
        self.skipped = 0
        self.case = None

    # -- what the monitors saw -------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def evaluated(self, key=None, nontrivial=True, n=1):
        """One oracle evaluation; ``key`` identifies the case for distinctness."""
        self.evals += n
        if nontrivial:
            if key is None:
                key = (repr(self.case), self.evals)
            self.nontrivial.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    # -- verdicts ---------------------------------------------------------
    def fail(self, key, msg, **detail):
        n = self.vcount.get(key, 0)
        self.vcount[key] = n + 1
        if n < 3 and len(self.violations) < 60:
            self.violations.append({'key': key, 'msg': str(msg)[:600],
                                    'case': jsonable(self.case),
                                    'detail': jsonable(detail)})

    def check(self, ok, key, msg='', **detail):
        import numpy as np
        self.evals += 1
        if not bool(np.all(ok)):
            self.fail(key, msg or key, **detail)
            return False
        return True

    def close(self, a, b, key, msg='', rtol=1e-9, atol=0., **detail):
        """|a-b| <= atol + rtol*max|b| elementwise (NaN in a violates)."""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        self.evals += 1
        if a.shape != b.shape:
            self.fail(key, f'{msg or key}: shape {a.shape} != expected {b.shape}', **detail)
            return False
        if a.size == 0:
            return True
        fin = np.isfinite(b)
        if not fin.any():
            scale = 0.
        else:
            scale = np.max(np.abs(b[fin]))
        with np.errstate(all='ignore'):
            err = np.where(fin, np.abs(a - b), np.where(np.isnan(b), ~np.isnan(a), a != b))
        err = np.where(np.isnan(err), np.inf, err)
        worst = float(np.max(err))
        tol = atol + rtol*scale
        if not worst <= tol:
            i = np.unravel_index(int(np.argmax(err)), err.shape)
            self.fail(key, f'{msg or key}: |got-expected|={worst:.3g} > tol={tol:.3g}',
                      index=list(i), got=a[i], expected=b[i], **detail)
            return False
        return True

    def raises(self, fn, exc, key, msg=''):
        """fn() must raise one of exc."""
        self.evals += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # noqa
            self.fail(key, f'{msg or key}: raised {type(e).__name__}: {e} instead of {exc}')
            return False
        self.fail(key, f'{msg or key}: accepted')
        return False


def rng_for(seed, *what):
    import numpy as np
    return np.random.default_rng([int(seed) & 0xffffffff, zlib.crc32(repr(what).encode())])


def _worker(check, cases, idx, n, outdir, tier, seed, so, deadline):
    os.environ.update(ENV)
    scratch = os.path.join(outdir, f'scratch{idx}')
    os.makedirs(scratch, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = os.path.join(outdir, 'mpl')
    devnull = open(os.path.join(outdir, f'log{idx}'), 'w')
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    from . import load
    mod = importlib.import_module(f'vm.checks.{check.lower()}')
    warnings.simplefilter('ignore')
    mon = Mon(tier, seed, scratch, so)
    res = {'harness_errors': [], 'done': 0, 'dropped': 0}
    try:
        load.load(so)
        if hasattr(mod, 'setup'):
            mod.setup(mon)
    except Exception:
        res['harness_errors'].append('setup: ' + traceback.format_exc()[-3000:])
        cases = []
    known = {k['key'] for k in known_findings(check)}
    stop = os.path.join(outdir, 'stop')
    failfast = os.environ.get('VERIF_FAILFAST')     # development: stop at the first violation
    for i in range(idx, len(cases), n):
        if failfast and (os.path.exists(stop) or any(v['key'] not in known for v in mon.violations)):
            open(stop, 'w').close()
            break
        if time.time() > deadline:
            res['dropped'] += 1
            continue
        mon.case = cases[i]
        with open(os.path.join(outdir, f'current{idx}'), 'w') as f:
            json.dump(jsonable(cases[i]), f)
        run_one(mod, mon, res, load.PKG)
        res['done'] += 1
    if hasattr(mod, 'teardown'):
        try:
            mod.teardown(mon)
        except Exception:
            res['harness_errors'].append('teardown: ' + traceback.format_exc()[-2000:])
    res.update(events=mon.events, evals=mon.evals, nontrivial=sorted(mon.nontrivial),
               violations=mon.violations, samples=mon.samples, skipped=mon.skipped)
    with open(os.path.join(outdir, f'result{idx}.json'), 'w') as f:
        json.dump(res, f)
    f = os.path.join(outdir, f'current{idx}')
    if os.path.exists(f):
        os.remove(f)


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang(f'still running after {CASE_LIMIT} s')


CASE_LIMIT = 180        # s; the slowest case takes a few


def run_one(mod, mon, res, pkg):
    import numpy as np
    np.random.seed(zlib.crc32(repr((mon.seed, mon.case)).encode()) & 0x7fffffff)
    limit = getattr(mod, 'CASE_LIMIT', CASE_LIMIT)*(1 if mon.tier == 'quick' else 5)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        _run_one(mod, mon, res, pkg)
    finally:
        signal.alarm(0)


def _run_one(mod, mon, res, pkg):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run_case(mon.case, mon)
    except SkipCase:
        mon.skipped += 1
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(pkg + os.sep)]
        text = traceback.format_exc()[-2500:]
        if inside:
            mon.fail(f'unexpected-exception:{type(e).__name__}',
                     f'{type(e).__name__}: {e} at {os.path.basename(inside[-1].filename)}:'
                     f'{inside[-1].name}', traceback=text[-1500:])
        elif isinstance(e, (ValueError, IndexError, KeyError, TypeError, AttributeError, AssertionError)):
            # The oracle is exercised over the whole workload on correct code without
            # ever raising these: a result it cannot digest is not of the documented form.
            mon.fail(f'malformed-result:{type(e).__name__}', f'oracle could not interpret the result: {e}',
                     traceback=text[-1500:])
        else:
            res['harness_errors'].append(repr(mon.case)[:300] + '\n' + text)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def main(check, tier, seed, replay=None, workers=None):
    t0 = time.time()
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f'vm.checks.{check.lower()}')
    outdir = tempfile.mkdtemp(prefix=f'verif_{check}_')
    rc = 2
    try:
        rc = _main(check, tier, seed, replay, workers, mod, outdir, t0)
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', outdir)
        else:
            shutil.rmtree(outdir, ignore_errors=True)
    return rc


def _main(check, tier, seed, replay, workers, mod, outdir, t0):
    from . import load
    so = None
    flavour = getattr(mod, 'FLAVOUR', 'plain')
    if flavour:
        try:
            so = load.build_ext(os.path.join(outdir, 'ext'), flavour)
        except load.BuildError as e:
            print(f'INCONCLUSIVE property={check}: C extension does not build\n{e}')
            return 2
    if replay:
        with open(replay) as f:
            r = json.load(f)
        cases, seed, tier = [r['case']], r['seed'], r['tier']
    else:
        cases = mod.cases(tier, seed)
    n = workers or getattr(mod, 'WORKERS', 7)
    n = max(1, min(n, len(cases)))
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (
        getattr(mod, 'BUDGET', {}).get(tier) or {'quick': 240., 'thorough': 3000.}[tier])
    deadline = t0 + budget
    hard = t0 + budget + 240.
    pids = {}
    sys.stdout.flush()
    if hasattr(mod, 'run_master'):
        # checks which drive their own subprocesses (sanitizers)
        mon = Mon(tier, seed, outdir, so)
        res = {'harness_errors': [], 'done': 0, 'dropped': 0}
        try:
            mod.run_master(cases, mon, res, deadline)
        except Exception:
            res['harness_errors'].append(traceback.format_exc()[-3000:])
        res.update(events=mon.events, evals=mon.evals, nontrivial=sorted(mon.nontrivial),
                   violations=mon.violations, samples=mon.samples, skipped=mon.skipped)
        results = [res]
        crashes, timeouts = [], 0
    else:
        for i in range(n):
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.setpgid(0, 0)
                    _worker(check, cases, i, n, outdir, tier, seed, so, deadline)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[pid] = i
        crashes, timeouts, results = [], 0, []
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > hard:
                    for p in list(pids):
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            pass
                        os.waitpid(p, 0)
                        timeouts += 1
                    break
                time.sleep(0.02)
                continue
            if pid not in pids:
                continue
            i = pids.pop(pid)
            rf = os.path.join(outdir, f'result{i}.json')
            if os.path.exists(rf):
                with open(rf) as f:
                    results.append(json.load(f))
                continue
            cur = None
            cf = os.path.join(outdir, f'current{i}')
            if os.path.exists(cf):
                with open(cf) as f:
                    cur = json.load(f)
            log = open(os.path.join(outdir, f'log{i}'), errors='replace').read()[-1500:]
            crashes.append({'case': cur, 'status': status, 'log': log,
                            'signal': os.WTERMSIG(status) if os.WIFSIGNALED(status) else None})
    return verdict(check, tier, seed, mod, results, crashes, timeouts, cases, t0, replay)


def verdict(check, tier, seed, mod, results, crashes, timeouts, cases, t0, replay):
    events, nontrivial, violations, samples, herr = {}, set(), [], [], []
    evals = done = dropped = skipped = 0
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        nontrivial.update(r['nontrivial'])
        violations += r['violations']
        samples += r['samples']
        herr += r['harness_errors']
        evals += r['evals']
        done += r['done']
        dropped += r['dropped']
        skipped += r['skipped']
    for c in crashes:
        if c['signal'] and c['signal'] not in (signal.SIGKILL, signal.SIGTERM):
            violations.append({'key': f'crash:signal{c["signal"]}',
                               'msg': f'process died with signal {c["signal"]} while running '
                                      f'the code under test', 'case': c['case'],
                               'detail': {'log': c['log']}})
        else:
            herr.append(f'worker ended with status {c["status"]} on {c["case"]}\n{c["log"]}')
    known = known_findings(check)
    fresh, seen_known = [], {}
    for v in violations:
        k = next((k for k in known if k['key'] == v['key']), None)
        if k:
            seen_known[k['key']] = k
        else:
            fresh.append(v)
    # every listed finding is announced on every run
    for k in known:
        print(f"KNOWN-FINDING: property={check} {k['what']}")
    rule = getattr(mod, 'RULE', '')
    ev = {'property': check, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nontrivial),
                       'rule': rule, 'samples': samples[:6], 'cases_run': done,
                       'cases_dropped_for_time': dropped, 'cases_undecidable': skipped,
                       'monitor_events': dict(sorted(events.items())),
                       'known_findings_observed': sorted(seen_known)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{check}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        byk = {}
        for v in fresh:
            byk.setdefault(v['key'], v)
        for i, (k, v) in enumerate(sorted(byk.items())[:8]):
            path = os.path.join(VERIF, 'replays', f'{check}-{seed}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': check, 'seed': seed, 'tier': tier, **v}, f, indent=1)
            print(f'  [{k}] {v["msg"]} | case={json.dumps(v["case"])[:300]} '
                  f'| {json.dumps({a: b for a, b in v["detail"].items() if a != "traceback"})[:400]}')
            print(f'VIOLATION property={check} replay={path}')
        return 1
    missing = [] if replay else [e for e in getattr(mod, 'REQUIRED_EVENTS', []) if not events.get(e)]
    if herr or timeouts or missing or (not replay and (evals == 0 or dropped > len(cases)//2)):
        print(f'INCONCLUSIVE property={check} evals={evals} done={done} dropped={dropped} '
              f'timeouts={timeouts} monitors-not-reached={missing}')
        for h in herr[:3]:
            print(h)
        return 2
    print(f'HELD property={check} on {done} cases, {evals} oracle evaluations, '
          f'{len(nontrivial)} distinct non-trivial, skipped={skipped} dropped={dropped} '
          f'in {time.time()-t0:.1f}s')
    return 0
