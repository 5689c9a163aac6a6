"""C04: the C extension and pure Python agree, for every option and thread count."""
import os
import numpy as np
from .. import gen, ref, phon, core

RULE = ('random polar/non-polar crystals and stored materials x random option combinations x thread counts 1-16 '
        '(argument, EUPHONIC_NUM_THREADS, default) x array layouts/dtypes; both paths run on separately built '
        'objects and the dynamical matrix rebuilt from each path is compared; distinct by (system, options, layout)')
ASSUMPTIONS = ['tolerance 2e-11 of the scale of the dynamical matrix (LAPACK rounding)',
               'gradients are compared per cluster of near-degenerate modes (gap 1e-5)']
REQUIRED_EVENTS = ['next-to-gamma', 'pairs-compared', 'threads-argument', 'threads-environment', 'threads-default', 'gradients-compared',
                   'dipole', 'asr', 'insert_gamma', 'layout-fortran', 'layout-strided', 'layout-int', 'layout-plain',
                   'c-calls-observed', 'default-path-uses-c']
MATS = ['LZO_force_constants', 'NaCl_QE_force_constants', 'NaCl_prim_force_constants', 'CaHgO2_force_constants',
        'quartz_force_constants', 'graphite_force_constants', 'Si2-sc-skew_force_constants']


def cases(tier, seed):
    n = {'quick': 380, 'thorough': 8000}[tier]
    reps = {'quick': 1, 'thorough': 8}[tier]
    return ([{'kind': 'material', 'name': k, 'i': r} for k in MATS if k in phon.find_materials() for r in range(reps)]
            + [{'kind': 'random', 'i': i} for i in range(n)])


calls = []


def setup(mon):
    """Observe what reaches the C extension."""
    from euphonic import _euphonic
    real = _euphonic.calculate_phonons

    def watched(*a, **k):
        calls.append(a[-1])
        return real(*a, **k)
    _euphonic.calculate_phonons = watched


def strided(a):
    b = np.zeros(tuple(2*s for s in a.shape), dtype=a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def build(d, layout):
    from euphonic import ureg, Crystal, ForceConstants
    f = {'plain': np.array, 'fortran': np.asfortranarray, 'strided': strided,
         'int': np.array}[layout]
    cell, r = d['cell'], d['atom_r']
    fc = d['fc']
    org, scm = d['origins'], d['scm']
    if layout == 'int':
        org, scm = org.astype(np.int64), scm.astype(np.int64)
    born, eps = d['born'], d['eps']
    if layout == 'int':
        if np.array_equal(cell, np.rint(cell)):
            cell = cell.astype(int)
        if born is not None and np.array_equal(born, np.rint(born)):
            born = born.astype(int)
    kw = {}
    if born is not None:
        kw = {'born': f(born)*ureg('e'), 'dielectric': f(eps)*ureg(gen.EPSU)}
    c = Crystal(f(cell)*ureg('bohr'), f(r), np.array(d['atom_type']), d['atom_mass']*ureg('amu'))
    return ForceConstants(c, f(fc)*ureg('hartree/bohr**2'), f(scm), f(org), **kw)


def clusters(w, tol):
    b = [0] + [i for i in range(1, len(w)) if w[i] - w[i-1] > tol] + [len(w)]
    return list(zip(b[:-1], b[1:]))


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec.get('name'), spec['i'])
    layout = 'plain'
    if spec['kind'] == 'material':
        _, d, images = phon.material(spec['name'])
        m = ref.Model(d, images)
        nq = 3
    else:
        polar = rng.random() < .55
        layout = str(rng.choice(['plain', 'plain', 'fortran', 'strided', 'int']))
        d = gen.system(rng, polar=polar, asr=rng.random() > .5, nmax=8, stable=rng.random() > .2, check_ws=True,
                       kind='cubic' if layout == 'int' and rng.random() < .6 else None,
                       rotate=layout != 'int')
        if layout == 'int':
            if d['lattice'] == 'cubic':
                k = np.rint(d['cell'])
                d['cell'] = k
            if polar:
                z = np.rint(d['born']*2)
                z[-1] -= z.sum(axis=0)
                d['born'] = z
        m = ref.Model(d)
        nq = int(rng.integers(1, 8))
    q = gen.qpoints(rng, nq)
    if rng.random() < .4:
        # next to gamma, where a polar crystal is discontinuous: only gamma itself may be treated as gamma
        k = int(rng.integers(nq))
        q[k] = rng.normal(size=3)*10.**rng.uniform(-13, -4) if rng.random() < .8 else rng.integers(-2, 3, 3) + rng.normal(size=3)*1e-4
        mon.event('next-to-gamma')
    if layout == 'int' and rng.random() < .5:
        q = rng.integers(-1, 2, (nq, 3))
    mon.event(f'layout-{layout}')
    qin = q.copy() if layout in ('plain', 'int') else (np.asfortranarray(q) if layout == 'fortran' else strided(q))
    grads = bool(rng.random() < .35)
    kw = {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))],
          'splitting': bool(rng.random() < .7), 'insert_gamma': bool(rng.random() < .3),
          'reduce_qpts': bool(rng.random() < .6), 'dipole': bool(rng.random() < .85),
          'dipole_parameter': float(rng.choice([1., .8, 1.4]))}
    if rng.random() < .3:
        kw['weights'] = rng.uniform(.1, 1, nq)
    mode = str(rng.choice(['argument', 'argument', 'environment', 'default']))
    nt = int(rng.integers(1, 17))
    ckw = {'use_c': True if rng.random() < .7 else None}
    if mode == 'argument':
        ckw['n_threads'] = nt
    os.environ.pop('EUPHONIC_NUM_THREADS', None)
    if mode == 'environment':
        os.environ['EUPHONIC_NUM_THREADS'] = str(nt)
    mon.event('threads-' + mode)
    del calls[:]
    fcc, fcp = build(d, layout), build(d, 'plain')
    freq_only = rng.random() < .2
    name = 'calculate_qpoint_frequencies' if freq_only else 'calculate_qpoint_phonon_modes'
    kw['return_mode_gradients'] = grads
    try:
        rc = getattr(fcc, name)(qin, **kw, **ckw)
    finally:
        os.environ.pop('EUPHONIC_NUM_THREADS', None)
    mon.event('c-calls-observed', len(calls))
    if ckw['use_c'] is None and calls:
        mon.event('default-path-uses-c')
    if mode != 'default' and calls and calls[0] == nt:
        mon.event('requested-threads-observed')
    rp = getattr(fcp, name)(np.array(q, float), **kw, use_c=False)
    if grads:
        rc, gc = rc
        rp, gp = rp
    sc = phon.scale(m)
    key = f'{name[10:]}'
    mon.close(rc.qpts, rp.qpts, key + ':qpts', rtol=0, atol=1e-14)
    mon.close(rc.weights, rp.weights, key + ':weights', rtol=1e-13)
    wc, wp = (ref.w2(r.frequencies.to('meV').magnitude) for r in (rc, rp))
    if not mon.close(wc, wp, key + ':frequencies', 'C against Python frequencies', rtol=0, atol=2e-11*sc):
        return
    if not freq_only:
        ec, ep = phon.evecs(rc), phon.evecs(rp)
        for i in range(len(wp)):
            Dc = (ec[i].T*wc[i])@ec[i].conj()
            Dp = (ep[i].T*wp[i])@ep[i].conj()
            mon.close(Dc, Dp, key + ':eigenvectors', f'dynamical matrix rebuilt from modes at q-point {i}',
                      rtol=0, atol=4e-11*sc)
    mon.event('pairs-compared', len(wp))
    if grads:
        gc, gp = (g.to('hartree*bohr').magnitude for g in (gc, gp))
        mon.check(gc.shape == gp.shape == rp.frequencies.shape + (3,), key + ':gradients-shape')
        gs = sc*np.max(np.linalg.norm(m.d['scm']@m.d['cell'], axis=1))
        for i in range(len(wp)):
            for a, b in clusters(wp[i], 1e-5*sc):
                w = np.sqrt(np.abs(wp[i, a:b]))
                if w.min() < np.sqrt(1e-4*sc):
                    continue
                x = np.sum(2*w[:, None]*gc[i, a:b], axis=0)
                y = np.sum(2*w[:, None]*gp[i, a:b], axis=0)
                mon.close(x, y, key + ':gradients', 'w*dw/dq of a mode cluster', rtol=0, atol=1e-7*gs)
                mon.event('gradients-compared', b - a)
    mon.event('dipole', d['born'] is not None and kw['dipole'])
    mon.event('asr', kw['asr'] is not None)
    mon.event('insert_gamma', len(rp.qpts) > nq)
    mon.evaluated((spec, sorted(map(str, kw.items())), layout, mode, nt))
    mon.sample({**gen.describe(d), 'q': q, 'options': {k: v for k, v in kw.items() if k != 'weights'},
                'threads': [mode, nt], 'layout': layout})
