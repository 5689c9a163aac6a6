"""C03: acoustic sum rules."""
import numpy as np
from .. import gen, ref, phon, core

RULE = ('random polar/non-polar crystals with translational invariance broken by 1e-6..3e-3 relative or exactly '
        'obeyed, both sum rules and none, C and Python; non-trivial when a correction was needed; distinct by '
        '(system, options)')
ASSUMPTIONS = ['the three translation-like gamma eigenvectors are identifiable (overlap with rigid translations above '
               '0.5 for three modes and below 0.35 for all others); where they are not, only the eigenvalues at gamma are judged']
REQUIRED_EVENTS = ['eigenproblems-verified', 'asr-reciprocal', 'asr-realspace', 'asr-none', 'invariant-already',
                   'polar', 'acoustic-zero-verified', 'path-c', 'path-python', 'correction-nonzero', 'large-supercell', 'strongly-broken-corrected',
                   'strongly-broken-warned']


def cases(tier, seed):
    return ([{'i': i} for i in range({'quick': 450, 'thorough': 9000}[tier])]
            + [{'i': i, 'kind': 'large'} for i in range({'quick': 90, 'thorough': 1500}[tier])]
            + [{'i': i, 'kind': 'strong'} for i in range({'quick': 120, 'thorough': 1500}[tier])])


def run_strong(spec, mon, rng):
    """Sum rule broken so badly that translations mix with optic modes: of equal masses, the eigenvalues at
    gamma are the old ones with exactly three replaced by zero (or, with a warning, all the old ones)."""
    import warnings
    n = int(rng.integers(2, 6))
    _, cell = gen.lattice(rng)
    scm, org, nc = np.eye(3, dtype=np.int32), np.zeros((1, 3), dtype=np.int32), 1
    a = rng.normal(size=(3*n, 3*n))*.05
    phi = a@a.T*10**rng.uniform(-1, 1)
    if rng.random() < .5:
        # half of it a proper crystal
        t = np.kron(np.eye(n) - np.ones((n, n))/n, np.eye(3))
        phi = t@phi@t*rng.uniform(1, 5) + phi
    f = np.zeros((nc, 3*n, 3*n))
    f[0] = phi
    d = {'cell': cell, 'atom_r': rng.uniform(0, 1, (n, 3)), 'atom_type': np.array(['O']*n), 'atom_mass': np.full(n, 16.),
         'scm': scm, 'origins': org, 'fc': f, 'born': None, 'eps': None}
    old = np.linalg.eigvalsh(phi)/(16.*ref.AMU)
    sc = np.abs(old).max()
    q = np.zeros((1, 3))
    get = lambda **k: np.sort(ref.w2(gen.make_fc(d).calculate_qpoint_frequencies(q, **k).frequencies.to('meV').magnitude[0]))
    use_c = bool(rng.random() < .5)
    if np.abs(get(use_c=use_c) - old).max() > 1e-9*sc:
        raise core.SkipCase
    for asr in ('reciprocal', 'realspace'):
        with warnings.catch_warnings(record=True) as wn:
            warnings.simplefilter('always')
            new = get(asr=asr, use_c=use_c)
        warned = any('acoustic' in str(x.message) for x in wn)
        left = list(new)
        gone = 0
        for v in old:
            k = int(np.argmin(np.abs(np.array(left) - v)))
            if abs(left[k] - v) < 1e-8*sc:
                left.pop(k)
            else:
                gone += 1
        zeros = len(left) == gone and np.all(np.abs(left) < 1e-7*sc)
        mon.check((gone == 0 and warned) or (gone == 3 and zeros), 'strong:' + asr,
                  f'{gone} eigenvalues changed, to {np.array(left)/sc} of the largest; warned: {warned}', old=old, new=new)
        mon.event('strongly-broken-warned' if warned else 'strongly-broken-corrected')
    mon.evaluated((spec, n))


def run_large(spec, mon, rng):
    """Large, skewed supercells and origins outside the first supercell: gamma only."""
    n = int(rng.integers(1, 3))
    for _ in range(500):
        _, cell = gen.lattice(rng)
        if rng.random() < .3:
            scm = np.diag(rng.integers(1, 9, 3))
        else:
            scm = rng.integers(-3, 4, (3, 3)) + 2*np.eye(3, dtype=int)
        nc = int(round(np.linalg.det(scm)))
        if 8 <= nc <= 150:
            break
    org = gen.cell_origins(scm)
    if rng.random() < .5:
        org[1:] += (rng.integers(-1, 2, (nc - 1, 3))@scm).astype(np.int32)
    neg = gen.negate_map(org, scm)[:, 0]
    f = rng.normal(size=(nc, n, 3, n, 3))*.01/np.sqrt(nc)
    f = .5*(f + f[neg].transpose(0, 3, 4, 1, 2))
    f[0] += np.eye(3*n).reshape(n, 3, n, 3)*2e-4
    if n == 2:
        f[0, 0, :, 0] += .3*np.eye(3)
        f[0, 1, :, 1] += .3*np.eye(3)
        f[0, 0, :, 1] -= .3*np.eye(3)
        f[0, 1, :, 0] -= .3*np.eye(3)
    t = np.array(['O', 'Ti'][:n])
    d = {'cell': cell, 'atom_r': np.array([[0, 0, 0], [.5, .45, .55]][:n]), 'atom_type': t, 'atom_mass': np.array([gen.MASS[x] for x in t]),
         'scm': scm.astype(np.int32), 'origins': org, 'fc': f.reshape(nc, 3*n, 3*n), 'born': None, 'eps': None}
    w = 1/np.sqrt(np.repeat(d['atom_mass']*ref.AMU, 3))
    D0 = d['fc'].sum(axis=0)*np.outer(w, w)
    sc = np.max(np.abs(D0)) + np.abs(d['fc']).max()*np.max(w)**2
    fc = gen.make_fc(d)
    kw = {'use_c': bool(rng.random() < .5)}
    free = ref.w2(fc.calculate_qpoint_frequencies(np.zeros((1, 3)), **kw).frequencies.to('meV').magnitude[0])
    if np.max(np.abs(free - np.linalg.eigvalsh(.5*(D0 + D0.T)))) > 1e-9*sc:
        # some pairs have no minimum image within reach of the image search
        raise core.SkipCase
    A = acoustic_projection(d['fc'].sum(axis=0), n)
    if A is None:
        raise core.SkipCase
    D1 = D0 - A*np.outer(w, w)
    got = ref.w2(gen.make_fc(d).calculate_qpoint_frequencies(np.zeros((1, 3)), asr='realspace', **kw).frequencies.to('meV').magnitude[0])
    mon.close(got, np.linalg.eigvalsh(.5*(D1 + D1.T)), 'large-supercell', f'{nc} cells, supercell {scm.tolist()}', rtol=0, atol=3e-9*sc)
    mon.event('large-supercell')
    mon.evaluated((spec, nc))


def acoustic_projection(phi0, n):
    """The gamma-point matrix restricted to its three translation-like eigenvectors."""
    w, v = np.linalg.eigh(.5*(phi0 + phi0.T))
    com = np.sum(np.sum(v.T.reshape(3*n, n, 3), axis=1)**2, axis=1)/n
    o = np.argsort(com)[::-1]
    if com[o[2]] < .55 or (n > 1 and com[o[3]] > .35):
        return None
    A = np.zeros_like(phi0)
    for k in o[:3]:
        A += w[k]*np.outer(v[:, k], v[:, k])
    return A


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['i'], *([spec['kind']] if 'kind' in spec else []))
    if spec.get('kind') == 'strong':
        return run_strong(spec, mon, rng)
    if 'kind' in spec:
        return run_large(spec, mon, rng)
    polar = rng.random() < .4
    obeys = rng.random() < .3
    d = gen.system(rng, polar=polar, asr=True, noise=0. if obeys else None, nmax=10, stable=rng.random() > .1)
    nc, n = len(d['origins']), len(d['atom_r'])
    if not obeys:
        neg = gen.negate_map(d['origins'], d['scm'])[:, gen.home(d)]
        z = rng.normal(size=(nc, n, 3, n, 3))*max(np.abs(d['fc']).max(), .01)*10**rng.uniform(-6, -2.5)
        z = .5*(z + z[neg].transpose(0, 3, 4, 1, 2))
        d['fc'] = d['fc'] + z.reshape(d['fc'].shape)
    else:
        # the noise-free model obeys the sum rule to rounding
        mon.event('invariant-already')
    asr = ['reciprocal', 'realspace', None][int(rng.choice(3, p=[.45, .45, .1]))]
    use_c = bool(rng.random() < .6)
    mon.event('path-c' if use_c else 'path-python')
    mon.event(f'asr-{asr or "none"}'.lower())
    m = ref.Model(d)
    sc = phon.scale(m)
    A = np.zeros((3*n, 3*n))
    if asr:
        if asr == 'realspace':
            A = acoustic_projection(d['fc'].sum(axis=0), n)
        else:
            D0 = m.fourier(np.zeros(3))
            if polar:
                D0 = D0 + m.dd(np.zeros(3))
            A = acoustic_projection(D0.real, n)
        if A is None:
            raise core.SkipCase
    if np.abs(A).max() > 1e-9*np.abs(d['fc']).max():
        mon.event('correction-nonzero')
        mon.evaluated((spec, asr, use_c, polar))
    q = np.concatenate([np.zeros((1, 3)), gen.qpoints(rng, int(rng.integers(1, 4)))])
    fc = gen.make_fc(d)
    kw = {'asr': asr, 'use_c': use_c, 'n_threads': int(rng.integers(1, 3)), 'splitting': False}
    if polar:
        mon.event('polar')
    res = fc.calculate_qpoint_phonon_modes(q, **kw)
    if asr == 'realspace':
        m2 = ref.Model(d, (m.inside, m.sh), fc=d['fc'] - A/nc)
        mats = [m2.dynmat(x) for x in q]
    else:
        mats = [m.dynmat(x, extra=-A) for x in q]
    phon.check_modes(mon, m, res, mats, f'modes-{asr}', tol=3e-9)
    w2 = ref.w2(res.frequencies.to('meV').magnitude)
    if asr == 'reciprocal' or (asr == 'realspace' and not polar):
        ac = np.sort(np.abs(w2[0]))[:3]
        mon.close(ac, np.zeros(3), 'acoustic-zero', 'acoustic eigenvalues at gamma', rtol=0, atol=1e-10*sc + 1e-12*np.max(m.w)**2)
        mon.event('acoustic-zero-verified')
    if obeys and not polar:
        free = gen.make_fc(d).calculate_qpoint_frequencies(q, use_c=use_c)
        mon.close(w2, ref.w2(free.frequencies.to('meV').magnitude), 'invariant-changed',
                  'sum rule changed translationally invariant force constants', rtol=0, atol=1e-10*sc)
    mon.sample({**gen.describe(d), 'options': kw, 'gamma_meV': np.sort(np.abs(res.frequencies.to('meV').magnitude[0]))[:4]})
