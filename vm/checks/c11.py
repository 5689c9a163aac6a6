"""C11: phonons do not depend on how the same crystal is described."""
import numpy as np
from .. import gen, ref, phon, core, objs

RULE = ('random polar/non-polar crystals, each re-described by a random chain of 1-4 transformations (atom permutation, rigid '
        'rotation or reflection, change of cell basis incl. left-handed, atoms moved by lattice vectors, cell list permuted, cell '
        'origins moved by supercell vectors, supercell basis re-ordered); the dynamical matrices rebuilt from the modes of both '
        'descriptions must map onto each other; distinct by (system, chain)')
ASSUMPTIONS = ['re-descriptions whose images lie further than two supercells away, or whose cell is elongated (longest vector '
               '> 2.4 times the cube root of the volume), are skipped',
               "with asr='reciprocal' atoms are not moved to other cells: that sum rule subtracts one q-independent matrix and is "
               'by construction not covariant under it',
               'tolerance 1e-7 of the scale of the dynamical matrix']
REQUIRED_EVENTS = ['permute-atoms', 'rotate', 'reflect', 'basis', 'basis-left-handed', 'move-atoms', 'permute-cells', 'move-cells',
                   'sc-basis', 'polar', 'non-polar', 'gamma-with-splitting']
KINDS = ['permute-atoms', 'rotate', 'reflect', 'basis', 'move-atoms', 'permute-cells', 'move-cells', 'sc-basis']


def cases(tier, seed):
    n = {'quick': 320, 'thorough': 8000}[tier]
    return [{'i': i} for i in range(n)] + [{'i': i, 'mat': k} for k in MATS for i in range(2 if tier == 'quick' else 12)]


MATS = ['NaCl_QE_force_constants', 'NaCl_prim_force_constants', 'quartz_force_constants', 'LZO_force_constants',
        'Si2-sc-skew_force_constants', 'graphite_force_constants']


def apply(kind, d, rng, T, qmap, mon):
    """Returns (new description, T' , qmap') with D' = T D T^+ and q' = q@qmap'."""
    d = dict(d)
    n, nc = len(d['atom_r']), len(d['origins'])
    f = d['fc'].reshape(nc, n, 3, n, 3)
    if kind == 'permute-atoms':
        p = rng.permutation(n)
        for k in ('atom_r', 'atom_type', 'atom_mass', 'born'):
            d[k] = None if d[k] is None else d[k][p]
        f = f[:, p][:, :, :, p]
        P = np.zeros((n, n))
        P[np.arange(n), p] = 1
        T2 = lambda q: np.kron(P, np.eye(3))                          # noqa: E731
    elif kind in ('rotate', 'reflect'):
        R = gen.rand_rotation(rng)
        if kind == 'reflect':
            R = R@np.diag([-1, 1, 1])
        d['cell'] = d['cell']@R.T
        f = np.einsum('ax,cixjy,by->ciajb', R, f, R)
        if d['born'] is not None:
            d['born'] = np.einsum('ax,ixy,by->iab', R, d['born'], R)
            d['eps'] = R@d['eps']@R.T
        T2 = lambda q: np.kron(np.eye(n), R)                          # noqa: E731
    elif kind == 'basis':
        U = np.eye(3, dtype=int)[rng.permutation(3)]*rng.choice([-1, 1], 3)[:, None]
        if rng.random() < .4:
            i, j = rng.permutation(3)[:2]
            U[i] += int(rng.choice([-1, 1]))*U[j]
        Ui = np.rint(np.linalg.inv(U)).astype(int)
        mon.event('basis-left-handed', np.linalg.det(U@d['cell']) < 0)
        d['cell'] = U@d['cell']
        d['atom_r'] = d['atom_r']@Ui
        d['origins'] = d['origins']@Ui
        d['scm'] = d['scm']@Ui
        qmap = qmap@U.T
        T2 = lambda q: np.eye(3*n)                                    # noqa: E731
    elif kind == 'move-atoms':
        t = rng.integers(0, 2, (n, 3))
        d['atom_r'] = d['atom_r'] + t
        new = np.empty_like(f)
        si = np.linalg.inv(d['scm'])
        for i in range(n):
            for j in range(n):
                # atom j of cell R is now listed in cell R - t_j + t_i relative to the cell of i
                e = (d['origins'][:, None, :] + t[i] - t[j] - d['origins'][None])@si
                k = np.argmin(np.abs(e - np.rint(e)).sum(axis=-1), axis=1)
                assert np.array_equal(np.sort(k), np.arange(nc))
                new[k, i, :, j] = f[:, i, :, j]
        f = new
        T2 = lambda q: np.kron(np.diag(np.exp(2j*np.pi*(t@q))), np.eye(3))   # noqa: E731
    elif kind == 'permute-cells':
        p = rng.permutation(nc)
        d['origins'], f = d['origins'][p], f[p]
        T2 = lambda q: np.eye(3*n)                                    # noqa: E731
    elif kind == 'move-cells':
        s = rng.integers(-1, 2, (nc, 3))*(rng.random((nc, 1)) < .5)
        s[gen.home(d)] = 0
        d['origins'] = d['origins'] + s@d['scm']
        T2 = lambda q: np.eye(3*n)                                    # noqa: E731
    else:
        V = np.eye(3, dtype=int)[rng.permutation(3)]*rng.choice([-1, 1], 3)[:, None]
        d['scm'] = V@d['scm']
        T2 = lambda q: np.eye(3*n)                                    # noqa: E731
    d['fc'] = np.ascontiguousarray(f.reshape(nc, 3*n, 3*n))
    d['origins'] = np.ascontiguousarray(d['origins'])
    d['scm'] = np.ascontiguousarray(d['scm'])
    qm = qmap
    return d, (lambda q: T2(q@qm)@T(q)), qmap


def reachable(d):
    """The minimum images of every pair lie within two supercells."""
    try:
        a, sh = gen.ws_images(d['cell'], d['atom_r'], d['scm'], d['origins'], 2, 1)
        b, sh3 = gen.ws_images(d['cell'], d['atom_r'], d['scm'], d['origins'], 4, 1)
    except ValueError:
        return False
    near = np.all(np.abs(sh3) <= 2, axis=1)
    return np.array_equal(a, b[..., near]) and not b[..., ~near].any() and np.all(a.any(axis=-1))


def compact(d):
    c = d['cell']
    return np.max(np.linalg.norm(c, axis=1)) <= 2.4*abs(np.linalg.det(c))**(1/3)


def dyn(res, i):
    w, e = ref.w2(res.frequencies.to('meV').magnitude)[i], phon.evecs(res)[i]
    return (e.T*w)@e.conj()


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['i'], spec.get('mat'))
    if 'mat' in spec:
        if spec['mat'] not in phon.find_materials():
            return
        _, d, images = phon.material(spec['mat'])
        if not compact(d):
            raise core.SkipCase
    else:
        d = gen.system(rng, polar=rng.random() < .5, nmax=6, asr=rng.random() < .7)
    d0 = dict(d)
    polar = d['born'] is not None
    chain, T, qm = [], (lambda q: np.eye(3*len(d0['atom_r']))), np.eye(3)
    n_want = int(rng.integers(1, 5))
    for _ in range(12):
        if len(chain) == n_want:
            break
        k = KINDS[(spec['i'] + len(chain)*3) % len(KINDS)] if not chain else objs.pick(rng, KINDS)
        if k in ('permute-cells', 'move-cells') and len(d['origins']) < 2:
            continue
        d1, T1, q1 = apply(k, d, rng, T, qm, mon)
        if not reachable(d1) or not (compact(d1) or not polar):
            continue
        d, T, qm = d1, T1, q1
        chain.append(k)
        mon.event(k)
    if not chain:
        raise core.SkipCase
    mon.event('polar' if polar else 'non-polar')
    nq = 3 if 'mat' in spec else 5
    q = gen.qpoints(rng, nq)
    if polar:
        q = q[np.all(np.abs(q - np.rint(q)).max(axis=1, keepdims=True) > 1e-3, axis=1)]
    if rng.random() < .5 and len(q):
        q = np.concatenate([[[0., 0, 0]], q])
        mon.event('gamma-with-splitting', polar)
    if not len(q):
        raise core.SkipCase
    kw = {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))], 'use_c': bool(rng.random() < .6), 'n_threads': 2}
    if kw['asr'] == 'reciprocal' and 'move-atoms' in chain:
        # the reciprocal-space sum rule subtracts one q-independent matrix, which has
        # a meaning only for one choice of the cell each atom is assigned to
        kw['asr'] = None
    m = ref.Model(d0)
    sc = phon.scale(m)
    qn = q@qm
    a = gen.make_fc(d0).calculate_qpoint_phonon_modes(q, **kw)
    b = gen.make_fc(d, units=(objs.pick(rng, ['bohr', 'angstrom']), 'amu')).calculate_qpoint_phonon_modes(qn, **kw)
    mon.close(b.frequencies.to('meV').magnitude.shape, a.frequencies.magnitude.shape, 'shape')
    wa, wb = (ref.w2(x.frequencies.to('meV').magnitude) for x in (a, b))
    mon.close(wb, wa, 'frequencies', f'after {chain}, {kw}', rtol=0, atol=1e-7*sc)
    for i in range(len(q)):
        t = T(q[i])
        mon.close(dyn(b, i), t@dyn(a, i)@t.conj().T, 'dynamical-matrix', f'after {chain} at q={q[i].tolist()}, {kw}',
                  rtol=0, atol=2e-7*sc)
    mon.evaluated((spec, chain, sorted(map(str, kw.items()))))
    mon.sample({**gen.describe(d0), 'chain': chain, 'options': kw})
