"""Shared phonon oracles: eigenpair monitors against the independent model."""
import os
import numpy as np
from . import gen, ref, load

FCDIR = os.path.join(load.TESTDATA, 'force_constants')
NAMES = ['CaHgO2_force_constants', 'LZO_force_constants', 'NaCl_QE_force_constants', 'NaCl_force_constants',
         'NaCl_prim_force_constants', 'Si2-sc-skew_force_constants', 'graphite_force_constants',
         'quartz_force_constants', 'quartz_random_force_constants']


def find_materials():
    """Stored force constants of real materials that exist in this tree."""
    return [n for n in NAMES if os.path.exists(os.path.join(FCDIR, n + '.json'))]


_cache = {}


def material(name):
    """Plain description and images of a stored material; its force constants
    (some are noisy first-principles output) are made to obey
    Phi_ij(R) = Phi_ji(-R)^T exactly."""
    if name not in _cache:
        from euphonic import ForceConstants
        fc = ForceConstants.from_json_file(os.path.join(FCDIR, name + '.json'))
        d = gen.from_object(fc)
        d['lattice'] = name
        n = len(d['atom_r'])
        neg = gen.negate_map(d['origins'], d['scm'])
        k0 = int(np.where(~d['origins'].any(axis=1))[0][0])
        ph = d['fc'].reshape(-1, n, 3, n, 3)
        ph = .5*(ph + ph[neg[:, k0]].transpose(0, 3, 4, 1, 2))
        d['fc'] = ph.reshape(-1, 3*n, 3*n)
        images = gen.ws_images(d['cell'], d['atom_r'], d['scm'], d['origins'], 2, 2)
        _cache[name] = (d, images)
    d, images = _cache[name]
    return gen.make_fc(d), dict(d), images


def scale(m):
    """Magnitude of the dynamical matrix, for relative tolerances."""
    d = m.d
    s = max(np.max(np.abs(m.fc).sum(axis=0)), 1e-3)
    if d['born'] is not None:
        s += np.max(np.abs(d['born']))**2*12/m.vol
    return s*np.max(m.w)**2


def evecs(res):
    e = res.eigenvectors
    n = e.shape[1]
    return e.reshape(len(e), n, n)


def check_modes(mon, m, res, mats, key, tol=2e-9, freq_only=False):
    """res' modes must be ascending orthonormal eigenpairs of mats[i]."""
    sc = scale(m)
    f = res.frequencies.to('meV').magnitude
    n = 3*m.n
    if not mon.check(f.shape == (len(mats), n), key + ':shape', f'{f.shape}'):
        return False
    ok = True
    e = None if freq_only else evecs(res)
    if e is not None and e.shape != (len(mats), n, n):
        return mon.check(False, key + ':evshape', f'{e.shape}')
    ws = ref.w2(f)
    for i, D in enumerate(mats):
        D = .5*(D + D.conj().T)
        ev = np.linalg.eigvalsh(D)
        ok &= mon.close(ws[i], ev, key + ':eigenvalues', f'frequencies at q-point {i} are not the '
                        'ascending square roots of the eigenvalues', rtol=0, atol=tol*sc)
        if e is not None:
            g = e[i]@e[i].conj().T
            ok &= mon.close(g, np.eye(n), key + ':orthonormal', f'eigenvectors at q-point {i}', atol=1e-9, rtol=0)
            r = D@e[i].T - e[i].T*ws[i]
            ok &= mon.close(r, np.zeros_like(r), key + ':residual',
                            f'D(q)e - w^2 e at q-point {i}', rtol=0, atol=tol*sc)
        mon.event('eigenproblems-verified')
        mon.event('modes-verified', n)
        if ev[0] < -1e-6*sc:
            mon.event('qpoints-with-imaginary-modes')
    return ok


def q_list(rng, n):
    return gen.qpoints(rng, n)
