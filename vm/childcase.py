"""Run one case of a check in a process of its own: ``python -m vm.childcase FILE``.

For cases that reach brille (a dependency, not under test), which may die by SIGSEGV
in its own threads.  A fresh process rather than a fork, since OpenMP does not survive
a fork.
"""
import os
import pickle
import signal
import subprocess
import sys


def run_apart(name, spec, mon, limit=150):
    """True when the case finished, its verdicts merged into ``mon``; False when the process died."""
    from . import core
    path = os.path.join(mon.scratch, 'child.pkl')
    for p in (path, path + '.out'):
        if os.path.exists(p):
            os.remove(p)
    with open(path, 'wb') as f:
        pickle.dump((name, spec, mon.tier, mon.seed, mon.scratch, mon.so, limit), f)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(path + '.log', 'wb') as log:
        p = subprocess.Popen([sys.executable, '-m', 'vm.childcase', path], cwd=root, stdout=log, stderr=log)
        try:
            p.wait(limit + 20)
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    if not os.path.exists(path + '.out'):
        return False
    with open(path + '.out', 'rb') as f:
        sub = pickle.load(f)
    for k, n in sub['events'].items():
        mon.event(k, n)
    mon.evals += sub['evals']
    mon.nontrivial |= sub['nontrivial']
    for v in sub['violations']:
        mon.fail(v['key'], v['msg'], **{'detail': v['detail']})
    if sub['skip']:
        raise core.SkipCase
    if sub['error']:
        raise RuntimeError(sub['error'])
    return True


def main(path):
    import importlib
    import traceback
    from . import core, load
    with open(path, 'rb') as f:
        name, spec, tier, seed, scratch, so, limit = pickle.load(f)
    signal.alarm(int(limit))        # ends the process even inside native code
    load.load(so)
    mod = importlib.import_module(name)
    mon = core.Mon(tier, seed, scratch, so)
    mon.case = spec
    skip, error = False, ''
    try:
        mod.run_here(spec, mon)
    except core.SkipCase:
        skip = True
    except BaseException as e:
        inside = [x for x in traceback.extract_tb(e.__traceback__) if os.path.realpath(x.filename).startswith(load.PKG + os.sep)]
        if inside:
            mon.fail('unexpected-exception:' + type(e).__name__, f'{type(e).__name__}: {e}', traceback=traceback.format_exc()[-2500:])
        else:
            error = traceback.format_exc()[-2500:]
    with open(path + '.tmp', 'wb') as f:
        pickle.dump({'events': mon.events, 'evals': mon.evals, 'nontrivial': mon.nontrivial, 'violations': mon.violations,
                     'skip': skip, 'error': error}, f)
    os.rename(path + '.tmp', path + '.out')
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1])
