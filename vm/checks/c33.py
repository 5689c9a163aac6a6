"""C33: faults and interruptions in the middle of a call."""
import ctypes
import io
import json
import os
import sys
import numpy as np
from .. import gen, phon, core, objs, load, ref
from . import c08

TECHNIQUE = ('runtime fault injection: exceptions raised at chosen executed lines of the package, failing LAPACK calls and heap allocations in the C '
             'extension, full disk; oracle compares the surviving objects with fresh ones')
RULE = ('random force-constants calculations and methods of every class interrupted (KeyboardInterrupt, MemoryError, other) at a random executed line '
        'of the package, C calculations with the n-th zheevd or malloc failing on 1-8 threads, and files written to a full device; afterwards the public '
        'data must be unchanged and the repeated call must give what a fresh object gives; distinct by (case, line or fault)')
ASSUMPTIONS = ['in-place operations (setters, reorder_frequencies) are not interrupted', 'a file being written when the fault strikes may be incomplete',
               'the exception type is not judged, except that an injected one must come through (or be absorbed without effect on the result)']
REQUIRED_EVENTS = ['interrupted', 'interrupted-fc', 'interrupted-object', 'interrupted-reader', 'repeat-after-interrupt', 'keyboard-interrupt',
                   'solver-failed', 'solver-query-failed', 'allocation-failed', 'threads', 'disk-full', 'solver-failed-python', 'global-state']
FLAVOUR = 'fault'
_lib = {}


class Injected(Exception):
    pass


EXC = [KeyboardInterrupt, MemoryError, Injected]


def setup(mon):
    lib = ctypes.CDLL(mon.so)
    lib.vm_track_fail.argtypes = [ctypes.c_long, ctypes.c_int]
    lib.vm_zheevd_fail.argtypes = [ctypes.c_long, ctypes.c_long]
    for f in ('vm_track_seen', 'vm_track_failed', 'vm_track_live', 'vm_zheevd_solves', 'vm_zheevd_queries', 'vm_zheevd_failed'):
        getattr(lib, f).restype = ctypes.c_long
    lib.vm_track_fail(-1, 0)
    _lib['lib'] = lib
    _lib['cap'] = load.watch_zheevd(lib)


def cases(tier, seed):
    n = {'quick': 60, 'thorough': 1500}[tier]
    return ([{'w': 'fc', 'i': i} for i in range(2*n)] + [{'w': 'obj', 'i': i} for i in range(2*n)] + [{'w': 'native', 'i': i} for i in range(3*n)]
            + [{'w': 'disk', 'i': i} for i in range(n)] + [{'w': 'read', 'i': i} for i in range(n)])


# -- interruption at a line ------------------------------------------------------
class Lines:
    """Records, or raises at, the lines of the package executed by a call."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.seen, self.fired = at, exc, [], False

    def _line(self, frame, event, arg):
        if event == 'line':
            if self.at is not None and len(self.seen) == self.at and not self.fired:
                self.fired = True
                raise self.exc
            self.seen.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._line

    def _call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(load.PKG) and frame.f_code.co_name not in ('__del__', '<module>'):
            return self._line
        return None

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._call)
        try:
            return fn()
        finally:
            sys.settrace(old)


def pick_line(rng, seen):
    """A distinct line first, then one of its occurrences: rare lines get their share."""
    occ = {}
    for i, k in enumerate(seen):
        occ.setdefault(k, []).append(i)
    k = objs.pick(rng, sorted(occ))
    return objs.pick(rng, [occ[k][0], occ[k][-1], objs.pick(rng, occ[k])]), k


def fds():
    return len(os.listdir('/proc/self/fd'))


def world():
    from euphonic import ureg
    try:
        (1*ureg('1/meV')).to('cm')
        ctx = True
    except Exception:
        ctx = False
    return {'errstate': np.geterr(), 'cwd': os.getcwd(), 'environ': dict(os.environ), 'unit-context': ctx,
            'rng': np.random.get_state()[1].tobytes()}


def interrupted(mon, rng, fn, at, line, want, same, what):
    """Run fn with an exception raised at its at-th package line."""
    e = objs.pick(rng, EXC)
    exc = e() if e is KeyboardInterrupt else e('injected')
    tr = Lines(at, exc)
    w, n = world(), fds()
    try:
        r = tr.run(fn)
    except BaseException as x:
        if not tr.fired:
            raise
        # an exception raised from the injected one, or another one that reports it
        mon.check(x is exc or not isinstance(exc, KeyboardInterrupt), 'interrupt-replaced', f'{what} at {line}: {type(exc).__name__} became {type(x).__name__}: {x}')
        x.__traceback__ = None
    else:
        if not tr.fired:
            return False
        # absorbed: allowed only if nothing was lost
        mon.check(not isinstance(exc, KeyboardInterrupt), 'interrupt-swallowed', f'{what} at {line}')
        same(r, want, 'absorbed-fault', f'{what}: {type(exc).__name__} at {line} was absorbed and the result differs')
        mon.event('absorbed')
    exc.__traceback__ = None
    w2 = world()
    bad = [k for k in w if w[k] != w2[k]]
    mon.check(not bad, 'global-state', f'{what} at {line}: {bad} differ afterwards')
    mon.event('global-state')
    mon.check(fds() <= n, 'open-file', f'{what} interrupted at {line} leaves {fds() - n} files open')
    mon.event('interrupted')
    mon.event('keyboard-interrupt', e is KeyboardInterrupt)
    return True


def options(rng, nq):
    return {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))], 'use_c': bool(rng.random() < .4),
            'n_threads': 1, 'dipole': bool(rng.random() < .8), 'splitting': bool(rng.random() < .6), 'insert_gamma': bool(rng.random() < .3),
            'reduce_qpts': bool(rng.random() < .7), 'weights': rng.uniform(.1, 1, nq) if rng.random() < .3 else None,
            'return_mode_gradients': bool(rng.random() < .25)}


def fc_case(spec, mon, rng):
    polar = rng.random() < .7
    d = gen.system(rng, polar=polar, nmax=4, n_atoms=int(rng.integers(1, 4)), stable=rng.random() > .2, asr=False)
    sc = phon.scale(ref.Model(d))*3
    nq = int(rng.integers(1, 4))
    q = gen.qpoints(rng, nq)
    if rng.random() < .4:
        q[int(rng.integers(nq))] = 0.
    kw = options(rng, nq)
    grad = kw['return_mode_gradients']
    name = objs.pick(rng, ['calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies'])

    def same(a, b, key, msg):
        if grad:
            a, b = a[0], b[0]
        c08.same_modes(mon, key, a, b, sc)

    want = getattr(gen.make_fc(d), name)(q, **kw)
    tr = Lines()
    tr.run(lambda: getattr(gen.make_fc(d), name)(q, **kw))
    tr2 = Lines()
    fc = gen.make_fc(d)
    tr2.run(lambda: getattr(fc, name)(q, **kw))
    for rep in range(3):
        fc = gen.make_fc(d)
        hist = []
        for k in range(int(rng.integers(1, 4))):
            at, line = pick_line(rng, tr2.seen)
            before, args = objs.snap(fc), objs.snap([q, kw])
            if not interrupted(mon, rng, lambda: getattr(fc, name)(q, **kw), at, line, want, same, name):
                break
            hist.append(line)
            mon.event('interrupted-fc')
            after = objs.snap(fc)
            mon.check(after == before, 'object-changed', f'{name} interrupted at {line}: {objs.diff(before, after)}')
            mon.check(objs.snap([q, kw]) == args, 'arguments-changed', f'{name} interrupted at {line}')
            mon.evaluated((spec['i'], name, line, rep, k))
        # the object must be as good as new, with these options and with others
        same(getattr(fc, name)(q, **kw), want, 'after-interrupt', '')
        kw2 = {**options(rng, nq), 'return_mode_gradients': False, 'weights': None}
        a = fc.calculate_qpoint_phonon_modes(q, **kw2)
        c08.same_modes(mon, 'after-interrupt:other-options', a, gen.make_fc(d).calculate_qpoint_phonon_modes(q, **kw2), sc)
        mon.event('repeat-after-interrupt')
        mon.sample({'call': name, 'options': {k: v for k, v in kw.items() if k != 'weights'}, 'interrupted at': [f'{a}:{b}' for a, b in hist]})
    if spec['i'] % 3 == 0:
        # numpy's solver failing inside the Python path
        from unittest import mock
        fc = gen.make_fc(d)
        n = [0]
        real, stop = np.linalg.eigh, int(rng.integers(1, nq + 1))

        def eigh(*a, **k):
            n[0] += 1
            if n[0] == stop:
                raise np.linalg.LinAlgError('Eigenvalues did not converge')
            return real(*a, **k)
        with mock.patch('numpy.linalg.eigh', eigh):
            try:
                r = getattr(fc, name)(q, **{**kw, 'use_c': False})
            except np.linalg.LinAlgError:
                r = None
                mon.event('solver-failed-python')
        if n[0] >= stop:
            mon.check(r is None, 'solver-failure-ignored', 'numpy.linalg.eigh failed but the call returned')
        same(getattr(fc, name)(q, **kw), want, 'after-solver-failure', '')


def obj_case(spec, mon, rng):
    state = rng.bit_generator.state
    kind, o, calls, plt = c08.obj_calls(rng, mon)
    calls = [c for c in calls if not callable(c[0]) or c[0].__name__ == 'apply_kinematic_constraints' or rng.random() < .3]
    del state

    def same(a, b, key, msg):
        mon.check(c08.result_snap(a) == b, key, msg)

    for c in [objs.pick(rng, calls) for _ in range(4)]:
        name, a, kw = c
        fn = (lambda: name(*a, **kw)) if callable(name) else (lambda: getattr(o, name)(*a, **kw))
        lab = f'{kind}.{name.__name__ if callable(name) else name}'
        try:
            tr = Lines()
            want = c08.result_snap(tr.run(fn))
            plt.close('all')
            if not tr.seen:
                continue
            for k in range(3):
                at, line = pick_line(rng, tr.seen)
                before, args = objs.snap(o), objs.snap([list(a), kw])
                ok = interrupted(mon, rng, fn, at, line, want, same, lab)
                plt.close('all')
                if not ok:
                    break
                mon.event('interrupted-object')
                after = objs.snap(o)
                mon.check(after == before, f'object-changed:{lab}', f'interrupted at {line}: {objs.diff(before, after)}')
                mon.check(objs.snap([list(a), kw]) == args, f'arguments-changed:{lab}', f'interrupted at {line}')
                mon.evaluated((spec['i'], lab, line, k))
            same(fn(), want, f'after-interrupt:{lab}', 'the repeated call differs from the undisturbed one')
            mon.event('repeat-after-interrupt')
        finally:
            plt.close('all')


def read_case(spec, mon, rng):
    """Readers: an interrupted read leaves nothing behind and can be repeated."""
    from euphonic import QpointPhononModes, ForceConstants, Spectrum1DCollection, QpointFrequencies
    T = load.TESTDATA
    L = []
    for cls, pat in ((QpointPhononModes, '.phonon'), (Spectrum1DCollection, '.phonon_dos'), (ForceConstants, '.castep_bin'), (ForceConstants, '.check')):
        for root, _, files in sorted(os.walk(T)):
            for f in sorted(files):
                if f.endswith(pat) and os.path.getsize(os.path.join(root, f)) < 3e5:
                    L.append((cls, cls.from_castep if pat != '.phonon_dos' else cls.from_castep_phonon_dos, os.path.join(root, f)))
    o = objs.pick(rng, [objs.modes, objs.structure_factor, objs.debye_waller, objs.spectrum1d, objs.spectrum2d])(rng)
    p = os.path.join(mon.scratch, 'o.json')
    with open(os.devnull, 'w') as null:
        so, sys.stdout = sys.stdout, null
        try:
            o.to_json_file(p)
        finally:
            sys.stdout = so
    cls, fn, path = objs.pick(rng, L) if rng.random() < .7 else (type(o), type(o).from_json_file, p)
    tr = Lines()
    try:
        want = objs.snap(tr.run(lambda: fn(path)))
    except RuntimeError:
        raise core.SkipCase
    if not tr.seen:
        raise core.SkipCase

    def same(a, b, key, msg):
        mon.check(objs.snap(a) == b, key, msg)
    for k in range(3):
        at, line = pick_line(rng, tr.seen)
        if interrupted(mon, rng, lambda: fn(path), at, line, want, same, os.path.basename(path)):
            mon.event('interrupted-reader')
            mon.evaluated((spec['i'], path, line, k))
    same(fn(path), want, 'after-interrupt:reader', os.path.basename(path))


# -- native faults ----------------------------------------------------------------
def native(spec, mon, rng):
    lib = _lib['lib']
    polar = rng.random() < .6
    d = gen.system(rng, polar=polar, nmax=4, n_atoms=int(rng.integers(1, 4)), stable=rng.random() > .2, asr=False)
    sc = phon.scale(ref.Model(d))*3
    nq = int(rng.integers(1, 9))
    q = gen.qpoints(rng, nq)
    q[rng.random(nq) < .3] = 0.
    kw = {**options(rng, nq), 'use_c': True, 'n_threads': int(rng.choice([1, 1, 2, 4, 8]))}
    name = objs.pick(rng, ['calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies'])
    fc = gen.make_fc(d)

    def call():
        r = getattr(fc, name)(q, **kw)
        return r[0] if kw['return_mode_gradients'] else r
    # a first call counts the events of this request
    lib.vm_zheevd_fail(-1, -1)
    lib.vm_track_fail(-1, 0)
    want = call()
    ns, nqy, na = lib.vm_zheevd_solves(), lib.vm_zheevd_queries(), lib.vm_track_seen()
    live = lib.vm_track_live()
    before = objs.snap(fc)
    for rep in range(4):
        what = ['solve', 'query', 'malloc', 'malloc-all'][(spec['i'] + rep) % 4]
        n = {'solve': ns, 'query': nqy}.get(what, na)
        if not n:
            continue
        k = int(rng.integers(n))
        f0 = lib.vm_track_failed(), lib.vm_zheevd_failed()
        try:
            lib.vm_zheevd_fail(k if what == 'solve' else -1, k if what == 'query' else -1)
            if what.startswith('malloc'):
                lib.vm_track_fail(k, what == 'malloc-all')
            r = call()
        except Exception as e:  # noqa
            r = None
            mon.event('raised-' + type(e).__name__)
        finally:
            lib.vm_zheevd_fail(-1, -1)
            lib.vm_track_fail(-1, 0)
        hit = (lib.vm_track_failed(), lib.vm_zheevd_failed()) != f0
        if not hit:
            continue
        if r is not None:
            # only a thread without work can do without its memory
            mon.check(what.startswith('malloc') and kw['n_threads'] > 1, 'native-failure-ignored',
                      f'{what} number {k} of {n} failed ({kw["n_threads"]} threads) but {name} returned')
            c08.same_modes(mon, 'native-failure-ignored', r, want, sc)
        mon.event({'solve': 'solver-failed', 'query': 'solver-query-failed'}.get(what, 'allocation-failed'))
        mon.event('threads', kw['n_threads'] > 1)
        mon.check(objs.snap(fc) == before, 'object-changed', f'{what}: {objs.diff(before, objs.snap(fc))}')
        mon.check(lib.vm_track_live() == live, 'native-leak', f'{what} number {k}: {lib.vm_track_live() - live} blocks are never freed')
        c08.same_modes(mon, 'after-native-failure', call(), want, sc)
        mon.evaluated((spec['i'], what, k))
        mon.sample({'fault': what, 'number': k, 'of': n, 'threads': kw['n_threads']})


# -- full disk ----------------------------------------------------------------------
def disk(spec, mon, rng):
    make = [objs.modes, objs.qpoint_frequencies, objs.structure_factor, objs.debye_waller, objs.spectrum1d, objs.spectrum1dcollection, objs.spectrum2d,
            objs.spectrum2dcollection, objs.crystal][spec['i'] % 9]
    o = make(rng)
    before = objs.snap(o)
    names = ['to_json_file'] + (['to_text_file'] if hasattr(o, 'to_text_file') else [])
    for name in names:
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            mon.raises(lambda: getattr(o, name)('/dev/full'), OSError, 'disk-full', f'{type(o).__name__}.{name}')
            said = sys.stdout.getvalue()
        finally:
            sys.stdout = out
        mon.check('ritten' not in said, 'claims-written', f'{type(o).__name__}.{name} announced {said!r} on a full device')
        mon.raises(lambda: getattr(o, name)(os.path.join(mon.scratch, 'no', 'such', 'directory')), OSError, 'no-directory', f'{type(o).__name__}.{name}')
        mon.event('disk-full')
    mon.check(objs.snap(o) == before, 'object-changed', 'failed write')
    if spec['i'] % 2 == 0:
        tools(spec, mon, rng)
    mon.evaluated((spec['i'], type(o).__name__))


def tools(spec, mon, rng):
    """A command-line tool that cannot save does not end as if it had."""
    import importlib
    import matplotlib.pyplot as plt
    src = os.path.join(mon.scratch, 'm.json')
    with open(src, 'w') as f:
        d = objs.modes(rng, unit='meV').to_dict()
        f.write(json.dumps(_plain(d)))
    t, opt = objs.pick(rng, [('dos', '--save-json'), ('dos', '-s'), ('dispersion', '--save-json'), ('dispersion', '-s'),
                             ('intensity_map', '--save-json')])
    mod = importlib.import_module('euphonic.cli.' + t)
    target = '/dev/full'
    if opt == '-s':
        target = os.path.join(mon.scratch, 'full.png')
        if not os.path.islink(target):
            os.symlink('/dev/full', target)
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        mon.raises(lambda: mod.main([src, opt, target]), (Exception, SystemExit), 'tool-ignores-full-disk', f'{t} {opt}')
    finally:
        sys.stdout = so
        plt.close('all')
    mon.event('tools')


def _plain(d):
    if isinstance(d, dict):
        return {k: _plain(v) for k, v in d.items()}
    if isinstance(d, np.ndarray):
        return d.view(float).reshape(*d.shape, 2).tolist() if d.dtype.kind == 'c' else d.tolist()
    return d


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, 'C33', spec['w'], spec['i'])
    {'fc': fc_case, 'obj': obj_case, 'native': native, 'disk': disk, 'read': read_case}[spec['w']](spec, mon, rng)
