"""C07: every q-point is calculated independently of the rest of the request."""
import numpy as np
from .. import gen, ref, phon, core

RULE = ('random polar/non-polar crystals and stored materials; each base q-point is calculated alone, then inside lists '
        'built by permutation, duplication, reciprocal-lattice shifts and inversion with random reduce_qpts, weights, '
        'threads and path; the dynamical matrix rebuilt from every returned mode set is compared; distinct by (system, list, options)')
ASSUMPTIONS = ['tolerance 2e-10 of the scale of the dynamical matrix',
               'gamma points of polar materials are compared across lists only without LO-TO splitting (their direction '
               'is defined by the neighbouring q-points)',
               'with dipole terms, q-points within 1e-3 of (but not at) gamma are not shifted by lattice vectors (rounding of q+G)']
REQUIRED_EVENTS = ['qpoints-compared', 'duplicates', 'G-shifted', 'inverted', 'reduced', 'unreduced', 'freqs-vs-modes',
                   'split-gamma-lists', 'weights-given', 'weights-default', 'path-c', 'path-python', 'asr']
MATS = ['LZO_force_constants', 'NaCl_QE_force_constants', 'NaCl_prim_force_constants', 'CaHgO2_force_constants',
        'quartz_force_constants', 'graphite_force_constants', 'Si2-sc-skew_force_constants']


def cases(tier, seed):
    n = {'quick': 330, 'thorough': 7000}[tier]
    reps = {'quick': 1, 'thorough': 8}[tier]
    return ([{'kind': 'material', 'name': k, 'i': r} for k in MATS if k in phon.find_materials() for r in range(reps)]
            + [{'kind': 'random', 'i': i} for i in range(n)])


def rebuilt(res):
    e, w = phon.evecs(res), ref.w2(res.frequencies.to('meV').magnitude)
    return [(e[i].T*w[i])@e[i].conj() for i in range(len(w))], w


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec.get('name'), spec['i'])
    if spec['kind'] == 'material':
        fc, d, images = phon.material(spec['name'])
        m = ref.Model(d, images)
        nb = 2
    else:
        d = gen.system(rng, polar=rng.random() < .5, nmax=8, stable=rng.random() > .2, asr=rng.random() > .3)
        fc = gen.make_fc(d)
        m = ref.Model(d)
        nb = int(rng.integers(1, 6))
    polar = d['born'] is not None
    kw = {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))], 'use_c': bool(rng.random() < .6)}
    if polar:
        kw['dipole'] = bool(rng.random() < .8)
        kw['splitting'] = bool(rng.random() < .4)
    split = polar and kw['dipole'] and kw['splitting']
    mon.event('path-c' if kw['use_c'] else 'path-python')
    mon.event('asr', kw['asr'] is not None)
    sc = phon.scale(m)
    tol = 2e-10*sc
    base = gen.qpoints(rng, nb)
    isg = np.all(np.abs(base - np.rint(base)) < 1e-14, axis=1)
    near = (np.max(np.abs(base - np.rint(base)), axis=1) < 1e-3) & ~isg
    # every base point alone
    alone, wal = [], []
    for q in base:
        r = fc.calculate_qpoint_phonon_modes(q[None], **kw)
        a, b = rebuilt(r)
        alone.append(a[0])
        wal.append(b[0])
    for _ in range(2):
        # a list: indices into base, lattice shift, sign
        ln = int(rng.integers(1, 3*nb + 3))
        idx = rng.integers(0, nb, ln)
        if rng.random() < .3:
            idx = rng.permutation(nb)
        sgn = np.where(rng.random(len(idx)) < .3, -1, 1)
        G = np.where(rng.random((len(idx), 1)) < .4, rng.integers(-2, 3, (len(idx), 3)), 0)
        if polar:
            G[near[idx]] = 0
        q = base[idx]*sgn[:, None] + G
        okw = dict(kw, reduce_qpts=bool(rng.random() < .6), n_threads=int(rng.integers(1, 6)))
        if rng.random() < .3:
            okw['use_c'] = not kw['use_c']
        wts = rng.uniform(0, 2, len(q)) if rng.random() < .5 else None
        q0 = q.copy()
        mon.event('reduced' if okw['reduce_qpts'] else 'unreduced')
        res = fc.calculate_qpoint_phonon_modes(q, weights=None if wts is None else wts.copy(), **okw)
        fr = fc.calculate_qpoint_frequencies(q, weights=None if wts is None else wts.copy(), **okw)
        mon.close(q, q0, 'qpts-argument-modified', rtol=0)
        expw = np.full(len(q), 1/len(q)) if wts is None else wts
        mon.event('weights-default' if wts is None else 'weights-given')
        for nm, r in (('modes', res), ('frequencies', fr)):
            mon.close(r.qpts, q0, f'returned-qpts:{nm}', 'q-points returned against requested', rtol=0, atol=0)
            mon.close(r.weights, expw, f'returned-weights:{nm}', rtol=1e-14)
        mon.close(ref.w2(fr.frequencies.to('meV').magnitude), ref.w2(res.frequencies.to('meV').magnitude),
                  'freqs-vs-modes', 'calculate_qpoint_frequencies against calculate_qpoint_phonon_modes', rtol=0, atol=tol*.1)
        mon.event('freqs-vs-modes', len(q))
        D, w = rebuilt(res)
        if not mon.check(len(D) == len(q), 'number-of-results'):
            return
        for k in range(len(q)):
            if split and isg[idx[k]]:
                continue
            want = alone[idx[k]] if sgn[k] > 0 else alone[idx[k]].conj()
            mon.close(w[k], wal[idx[k]], 'list-changes-frequencies',
                      f'q-point {k} of {len(q)} against the same q-point alone (G={G[k].tolist()}, sign={sgn[k]})', rtol=0, atol=tol)
            mon.close(D[k], want, 'list-changes-eigenvectors', f'dynamical matrix at q-point {k} of {len(q)} (G={G[k].tolist()}, '
                      f'sign={sgn[k]})', rtol=0, atol=2*tol)
            mon.event('qpoints-compared')
            mon.event('G-shifted', bool(G[k].any()))
            mon.event('inverted', sgn[k] < 0)
        mon.event('duplicates', len(idx) - len(set(idx)))
        if split and np.any(isg[idx]):
            # same list, other reduction setting: identical including the gamma points
            res2 = fc.calculate_qpoint_phonon_modes(q, **dict(okw, reduce_qpts=not okw['reduce_qpts']))
            mon.close(ref.w2(res2.frequencies.to('meV').magnitude), w, 'reduce_qpts-changes-frequencies', rtol=0, atol=tol)
            mon.event('split-gamma-lists')
        mon.evaluated((spec, len(q), sorted(map(str, okw.items()))))
        mon.sample({**gen.describe(d), 'q': q, 'options': okw})
