"""C02: dipole-dipole (Ewald) part, LO-TO splitting and gamma insertion."""
import numpy as np
from .. import gen, ref, phon, core

RULE = ('random charge-neutral polar crystals (anisotropic, off-diagonal dielectric tensors) and every stored polar '
        'material; q-point paths with 0-3 gamma points first/interior/last, gamma written as any lattice vector; '
        'random dipole_parameter; distinct by (system, options); all are non-trivial (non-zero dipole term)')
ASSUMPTIONS = ['Born charges are charge neutral and the dielectric tensor is positive definite',
               'independent Ewald sum converged to 1e-16 of its largest term; comparison tolerance 2e-9 of the scale '
               'of the dynamical matrix']
REQUIRED_EVENTS = ['eigenproblems-verified', 'gamma-split-verified', 'gamma-inserted', 'path-c', 'path-python',
                   'dipole-parameter-pairs', 'weights-verified']
POLAR = ['LZO_force_constants', 'NaCl_QE_force_constants', 'NaCl_prim_force_constants', 'CaHgO2_force_constants',
         'NaCl_force_constants', 'quartz_force_constants']


def cases(tier, seed):
    n = {'quick': 230, 'thorough': 5000}[tier]
    names = [m for m in POLAR if m in phon.find_materials()]
    reps = {'quick': 1, 'thorough': 10}[tier]
    return ([{'kind': 'material', 'name': k, 'i': r} for k in names for r in range(reps)]
            + [{'kind': 'random', 'i': i} for i in range(n)])


def path(rng, n):
    """q-points with isolated gamma points (written as lattice vectors)."""
    q = rng.uniform(-.9, .9, (n, 3))
    where = [i for i in range(n) if rng.random() < .35]
    gam = []
    for i in where:
        if gam and i - gam[-1] < 2:
            continue
        gam.append(i)
    for i in gam:
        q[i] = 0. if rng.random() < .7 else rng.integers(-1, 2, 3)
    return q, gam


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec.get('name'), spec['i'])
    if spec['kind'] == 'material':
        fc, d, images = phon.material(spec['name'])
        if d['born'] is None:
            raise core.SkipCase
        # the acoustic charge sum of first-principles data is only nearly zero
        m = ref.Model(d, images)
        nq = 3 if m.n > 8 else 5
    else:
        d = gen.system(rng, polar=True, asr=rng.random() > .3, nmax=6)
        fc = gen.make_fc(d)
        m = ref.Model(d)
        nq = int(rng.integers(1, 7))
    if rng.random() < .75 or nq < 3:
        q, gam = path(rng, nq)
    else:
        q, gam = rng.uniform(-.9, .9, (nq, 3)), [int(rng.integers(1, nq - 1))]
        q[gam[0]] = 0.
    use_c = bool(rng.random() < .6)
    mon.event('path-c' if use_c else 'path-python')
    dp = float(10**rng.uniform(-.25, .35))
    kw = {'use_c': use_c, 'n_threads': int(rng.integers(1, 4)), 'dipole_parameter': dp,
          'splitting': bool(rng.random() < .75), 'insert_gamma': bool(rng.random() < .6),
          'reduce_qpts': bool(rng.random() < .7)}
    weights = rng.uniform(.1, 2., nq) if rng.random() < .6 else None
    w_in = None if weights is None else weights.copy()
    res = fc.calculate_qpoint_phonon_modes(q, weights=weights, **kw)
    # expected q-point list, weights, and allowed splitting directions
    eq, ew, dirs = [], [], []
    for i in range(nq):
        w = w_in[i] if w_in is not None else 1./nq
        if i in gam and kw['splitting']:
            prev = q[i] - q[i-1] if i > 0 else None
            nxt = q[i+1] - q[i] if i < nq - 1 else None
            if prev is not None and nxt is not None and kw['insert_gamma']:
                eq += [q[i], q[i]]
                ew += [w/2, w/2]
                dirs += [[prev], [nxt]]
                mon.event('gamma-inserted')
                continue
            dirs.append([x for x in (prev, nxt) if x is not None] or [None])
        else:
            dirs.append([None])
        eq.append(q[i])
        ew.append(w)
    mon.close(res.qpts, np.array(eq), 'qpts', 'returned q-points', rtol=0, atol=1e-14)
    if weights is not None:
        mon.close(res.weights, np.array(ew), 'weights', 'returned weights', rtol=1e-12)
        mon.close(weights, w_in, 'weights-mutated', rtol=0)
        mon.event('weights-verified')
    if res.qpts.shape != np.shape(eq):
        return
    mats = []
    e = phon.evecs(res)
    f2 = ref.w2(res.frequencies.to('meV').magnitude)
    for i, (x, dd) in enumerate(zip(eq, dirs)):
        c = [m.dynmat(x, qdir=v) for v in dd]
        # an isolated interior gamma point may use either neighbour
        best = min(c, key=lambda D: np.max(np.abs(D@e[i].T - e[i].T*f2[i])))
        mats.append(best)
        if dd[0] is not None:
            mon.event('gamma-split-verified')
            split = np.max(np.abs(np.linalg.eigvalsh(.5*(best + best.conj().T))
                                  - np.linalg.eigvalsh(m.dynmat(x))))/phon.scale(m)
            mon.event('gamma-split-nonzero', split > 1e-6)
    phon.check_modes(mon, m, res, mats, 'modes')
    # the result may not depend on the Ewald balance
    fc2 = gen.make_fc(d)
    dp2 = dp*float(rng.choice([.7, 1.35]))
    r2 = fc2.calculate_qpoint_frequencies(q, weights=weights, **{**kw, 'dipole_parameter': dp2})
    mon.close(ref.w2(r2.frequencies.to('meV').magnitude), f2, 'dipole-parameter',
              f'dipole_parameter {dp2} against {dp}', rtol=0, atol=2e-9*phon.scale(m))
    mon.event('dipole-parameter-pairs')
    mon.evaluated((spec, sorted(map(str, kw.items()))))
    mon.sample({**gen.describe(d), 'q': q, 'gamma': gam, 'options': kw})
