"""Child process of C05/C06: drives the instrumented C extension.

usage: drive.py <so> <flavour> <cases.json> <log>
Every case is bracketed by BEGIN/END lines in <log>, so that a report or crash
can be attributed; END carries what the monitors read.
"""
import ctypes
import gc
import hashlib
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
warnings.simplefilter('ignore')
import numpy as np  # noqa
from vm import load, gen, core, phon  # noqa


hook = {}


def make(spec, seed):
    rng = core.rng_for(seed, 'drive', spec['kind'], spec['i'], spec.get('name'))
    if spec['kind'] == 'material':
        d = phon.material(spec['name'])[1]
    else:
        d = gen.system(rng, n_atoms=spec.get('n_atoms'), polar=spec['polar'], asr=rng.random() < .5,
                       nmax=spec.get('nmax', 6), check_ws=False)
    nq = spec['nq']
    q = gen.qpoints(rng, nq)
    if spec.get('gammas') and nq:
        q[rng.random(nq) < .4] = 0.
    o = spec['options']
    kw = {k: o[k] for k in ('asr', 'splitting', 'insert_gamma', 'reduce_qpts', 'dipole', 'return_mode_gradients')}
    if o.get('weights'):
        kw['weights'] = rng.uniform(.1, 1, nq)
    return rng, d, q, kw


def digest(res):
    """Bytes of everything returned."""
    h = {}
    if isinstance(res, tuple):
        h['gradients'] = res[1].magnitude
        res = res[0]
    h['frequencies'] = res.frequencies.to('hartree').magnitude
    h['qpts'] = res.qpts
    h['weights'] = res.weights
    if hasattr(res, 'eigenvectors'):
        h['eigenvectors'] = res.eigenvectors
    return h


BAD = ['two-columns', 'four-columns', 'one-dim', 'scalar', 'transposed', 'three-dim', 'empty', 'empty-two',
       'strings', 'complex', 'object', 'nan', 'inf', 'huge', 'int8', 'float32', 'list', 'negative-threads',
       'zero-threads', 'many-threads', 'readonly', 'bigendian', 'none', 'weights-short', 'weights-long',
       'misaligned', 'negative-strides', 'masked', 'matrix']


def bad_input(rng, what, q):
    kw = {}
    n = len(q)
    if what == 'two-columns':
        q = q[:, :2].copy()
    elif what == 'four-columns':
        q = np.concatenate([q, q[:, :1]], axis=1)
    elif what == 'one-dim':
        q = q[0]
    elif what == 'scalar':
        q = np.array(.5)
    elif what == 'transposed':
        q = np.asfortranarray(q.T)
    elif what == 'three-dim':
        q = q[None]
    elif what == 'empty':
        q = np.zeros((0, 3))
    elif what == 'empty-two':
        q = np.zeros((0, 2))
    elif what == 'strings':
        q = q.astype(str)
    elif what == 'complex':
        q = q + 0j
    elif what == 'object':
        q = q.astype(object)
    elif what == 'nan':
        q = q.copy(); q[-1, 0] = np.nan
    elif what == 'inf':
        q = q.copy(); q[-1, 0] = np.inf
    elif what == 'huge':
        q = q*1e17
    elif what == 'int8':
        q = np.rint(q).astype(np.int8)
    elif what == 'float32':
        q = q.astype(np.float32)
    elif what == 'list':
        q = q.tolist()
    elif what.endswith('threads'):
        kw['n_threads'] = {'negative-threads': -3, 'zero-threads': 0, 'many-threads': 64}[what]
    elif what == 'readonly':
        q = q.copy(); q.flags.writeable = False
    elif what == 'bigendian':
        q = q.astype('>f8')
    elif what == 'none':
        q = None
    elif what == 'weights-short':
        kw['weights'] = np.ones(max(n - 1, 0))
    elif what == 'weights-long':
        kw['weights'] = np.ones(n + 3)
    elif what == 'misaligned':
        b = np.zeros(q.nbytes + 1, np.uint8)
        b[1:] = np.frombuffer(q.tobytes(), np.uint8)
        q = b[1:].view(np.float64).reshape(q.shape)
    elif what == 'negative-strides':
        q = np.ascontiguousarray(q[::-1, ::-1])[::-1, ::-1]
    elif what == 'masked':
        q = np.ma.array(q)
    elif what == 'matrix':
        q = np.matrix(q)
    return q, kw


def bad_material(rng, d, what):
    """Mutations of the constructor data; most must be refused."""
    d = dict(d)
    n = len(d['atom_r'])
    if what == 'fc-small':
        d['fc'] = d['fc'][:, :-3, :-3]
    elif what == 'fc-cells':
        d['fc'] = d['fc'][:-1]
    elif what == 'origins-extra':
        d['origins'] = np.concatenate([d['origins'], d['origins'][:1]])
    elif what == 'born-short' and d['born'] is not None:
        d['born'] = d['born'][:-1]
    elif what == 'scm-zero':
        d['scm'] = np.zeros((3, 3), np.int32)
    elif what == 'scm-other':
        d['scm'] = np.eye(3, dtype=np.int32)*2
    elif what == 'origins-far':
        d['origins'] = d['origins'] + 100
    elif what == 'origins-float':
        d['origins'] = d['origins'].astype(float)
    elif what == 'eps-flat' and d['eps'] is not None:
        d['eps'] = np.ones(3)
    elif what == 'atom_r-outside':
        d['atom_r'] = d['atom_r'] + rng.integers(-3, 4, (n, 3))
    elif what == 'one-cell':
        d['fc'], d['origins'], d['scm'] = d['fc'][:1], d['origins'][:1], np.eye(3, dtype=np.int32)
    return d


BADM = ['fc-small', 'fc-cells', 'origins-extra', 'born-short', 'scm-zero', 'scm-other', 'origins-far', 'origins-float',
        'eps-flat', 'atom_r-outside', 'one-cell']


def replace_data(fc, rng):
    """Assign data of other shapes/layouts to an object already used; returns what was refused."""
    from euphonic import ureg
    refused = 0
    n = fc.crystal.n_atoms
    if fc.born is None:
        return 0
    tests = [('born', np.ones((n + 1, 3, 3))*ureg('e')), ('born', np.ones((n, 3, 3))*ureg('e')),
             ('dielectric', np.ones((2, 2))*ureg(gen.EPSU)), ('dielectric', np.eye(3)*ureg(gen.EPSU)*2),
             ('force_constants', np.zeros((1, 3, 3))*ureg('hartree/bohr**2')),
             ('force_constants', np.asfortranarray(fc.force_constants.magnitude)*fc.force_constants.units),
             ('force_constants', fc.force_constants[:, :-3, :-3]), ('dielectric', np.ones((1, 1))*ureg(gen.EPSU)),
             ('born', np.ones((n - 1, 3, 3))*ureg('e'))]
    for k in rng.permutation(len(tests)):
        try:
            setattr(fc, *tests[k])
        except Exception:
            refused += 1
    return refused


def main():
    so, flavour, casefile, logname = sys.argv[1:5]
    job = json.load(open(casefile))
    seed = job['seed']
    log = open(logname, 'a')

    def say(*a):
        log.write(' '.join(map(str, a)) + '\n')
        log.flush()
    say('START')
    lib = ctypes.CDLL(so)
    if flavour in ('asan', 'tsan'):
        keep = load.watch_zheevd(lib)  # noqa
    eu = load.load(so)
    from euphonic import _euphonic
    n_calls = [0]
    real = _euphonic.calculate_phonons

    def counted(*a):
        n_calls[0] += 1
        if 'grow' in hook:
            for w in range(12):
                b0 = sys.getallocatedblocks()
                for _ in range(20):
                    real(*a)
                if w > 6:
                    hook['grow'].append(sys.getallocatedblocks() - b0)
        return real(*a)
    _euphonic.calculate_phonons = counted
    if flavour == 'tsan':
        for f in ('vm_gomp_regions', 'vm_gomp_delays', 'vm_gomp_threads'):
            getattr(lib, f).restype = ctypes.c_long
    if flavour.startswith('track'):
        lib.vm_track_fill(0 if flavour == 'track0' else 0xA7)
        for f in ('live', 'total', 'bytes', 'errors'):
            getattr(lib, 'vm_track_' + f).restype = ctypes.c_long
    say('LOADED')
    outputs = {}
    for spec in job['cases']:
        i = spec['id']
        say('BEGIN', i)
        rec = {'outcome': 'ok'}
        c0 = n_calls[0]
        try:
            if flavour.startswith('track'):
                rec.update(track_case(spec, seed, lib, outputs))
            else:
                rec.update(plain_case(spec, seed, lib, flavour))
        except Exception as e:
            rec['outcome'] = type(e).__name__
            rec['message'] = str(e)[:200]
        rec['c_calls'] = n_calls[0] - c0
        say('END', i, json.dumps(rec))
    fin = {}
    if flavour in ('asan', 'tsan'):
        for f in ('queries', 'solves'):
            getattr(lib, 'vm_zheevd_' + f).restype = ctypes.c_long
            fin['zheevd-' + f] = getattr(lib, 'vm_zheevd_' + f)()
    if flavour == 'tsan':
        for f in ('regions', 'delays', 'threads'):
            fin['omp-' + f] = getattr(lib, 'vm_gomp_' + f)()
    if flavour.startswith('track'):
        for f in ('live', 'total', 'errors'):
            fin['heap-' + f] = getattr(lib, 'vm_track_' + f)()
        np.savez(logname + '.npz', **outputs)
    say('FINISH', json.dumps(fin))


def call(fc, spec, q, kw, **extra):
    name = 'calculate_qpoint_frequencies' if spec['options'].get('freq_only') else 'calculate_qpoint_phonon_modes'
    kw = {**kw, **extra}
    return getattr(fc, name)(q, **kw)


def plain_case(spec, seed, lib, flavour):
    rng, d, q, kw = make(spec, seed)
    rec = {}
    bad = spec.get('bad')
    if flavour == 'tsan':
        lib.vm_gomp_seed(ctypes.c_uint(spec.get('schedule', 1)))
    if bad in BADM:
        d = bad_material(rng, d, bad)
    fc = gen.make_fc(d)
    extra = {'use_c': True, 'n_threads': spec['threads']}
    if bad in BAD:
        q, e = bad_input(rng, bad, q)
        kw.update(e)
        extra.update({k: v for k, v in e.items() if k == 'n_threads'})
        kw.pop('n_threads', None)
    try:
        call(fc, spec, q, kw, **extra)
    except Exception as e:
        if not bad:
            raise
        rec['outcome'] = 'refused'
        rec['message'] = f'{type(e).__name__}: {e}'[:150]
    if spec.get('again'):
        # the object stays usable after a refusal or a change of data
        rec['refused_assignments'] = replace_data(fc, rng)
        rng2, d2, q2, kw2 = make(spec, seed)
        call(fc, spec, q2, kw2, use_c=True, n_threads=spec['threads'])
    if flavour == 'tsan':
        for s in range(spec.get('repeat', 1) - 1):
            lib.vm_gomp_seed(ctypes.c_uint(spec.get('schedule', 1) + 1000*(s + 1)))
            call(fc, spec, q, kw, **extra)
    return rec


def refs(fc):
    out = {}
    for pre, o in (('', fc), ('crystal.', fc.crystal)):
        for k, v in vars(o).items():
            out[pre + k] = sys.getrefcount(v)
            if isinstance(v, dict):
                for kk, vv in v.items():
                    if isinstance(vv, np.ndarray):
                        out[pre + k + '.' + str(kk)] = sys.getrefcount(vv)
    return out


def track_case(spec, seed, lib, outputs):
    rng, d, q, kw = make(spec, seed)
    fc = gen.make_fc(d)
    rec = {}
    live0 = lib.vm_track_live()
    tot0, err0 = lib.vm_track_total(), lib.vm_track_errors()
    res = digest(call(fc, spec, q, kw, use_c=True, n_threads=1))
    rec['leaked_blocks'] = lib.vm_track_live() - live0
    for k, v in res.items():
        outputs[f"{spec['id']}:{k}"] = v
    call(fc, spec, q, kw, use_c=True, n_threads=spec['threads'])
    rec['leaked_blocks_threads'] = lib.vm_track_live() - live0 - rec['leaked_blocks']
    call(fc, spec, q, kw, use_c=True, n_threads=1)
    gc.collect()
    r0 = refs(fc)
    nr = 3
    for _ in range(nr):
        call(fc, spec, q, kw, use_c=True, n_threads=1)
    gc.collect()
    r1 = refs(fc)
    rec['ref_changes'] = {k: [r0[k], r1[k]] for k in r0 if k in r1 and abs(r1[k] - r0[k]) >= nr}
    rec['refs_watched'] = len(r0)
    if spec.get('blocks'):
        # repeat exactly the extension call and watch the interpreter's live blocks
        hook['grow'] = []
        call(fc, spec, q, kw, use_c=True, n_threads=1)
        rec['block_growth'] = hook.pop('grow')
    rec['allocs'] = lib.vm_track_total() - tot0
    rec['heap_errors'] = lib.vm_track_errors() - err0
    return rec


if __name__ == '__main__':
    main()
