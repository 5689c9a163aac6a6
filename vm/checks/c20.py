"""C20: Debye-Waller exponents are the thermal displacement sums they are defined as."""
import numpy as np
import spglib
from .. import core, objs, gen

RULE = ('random modes (zero, tiny, imaginary frequencies included), weights, temperatures incl. 0, frequency_min and symmetrisation '
        'on low- and high-symmetry crystals, up to 2300 q-points: exponents against a per-mode sum with an independent symmetry '
        'average, plus metamorphic monitors (temperature, weights, q-point order, splitting the list); distinct by (case, options)')
ASSUMPTIONS = ['symmetry operations come from spglib, called by the monitor with the same tolerance']
REQUIRED_EVENTS = ['unsymmetrised', 'symmetrised', 'nontrivial-symmetry', 'zero-temperature', 'zero-frequency', 'imaginary-modes',
                   'monotonic', 'weights-scaled', 'several-chunks', 'partition', 'masked-modes']
KB = 1.380649e-23/4.3597447222071e-18


def cases(tier, seed):
    n = {'quick': 420, 'thorough': 12000}[tier]
    return [{'i': i} for i in range(n)]


def oracle(f, e, w, mass, T, fmin):
    """f hartree (nq, nm), mass in electron masses, result bohr**2."""
    n = len(mass)
    out = np.zeros((n, 3, 3))
    for q in range(len(f)):
        for m in range(f.shape[1]):
            x = f[q, m]
            if x < fmin:
                continue
            t = 1/x
            if T > 0:
                t /= np.tanh(x/(2*KB*T))
            for k in range(n):
                v = e[q, m, k]
                out[k] += w[q]*t/(4*mass[k])*np.outer(v, v.conj()).real
    return out/w.sum()


def symmetrise(d, cell, r, types, tol_bohr):
    _, num = np.unique(types, return_inverse=True)
    s = spglib.get_symmetry((cell.tolist(), r.tolist(), num.tolist()), symprec=tol_bohr)
    out = np.zeros_like(d)
    for R, t in zip(s['rotations'], s['translations']):
        C = cell.T@R@np.linalg.inv(cell.T)
        for k in range(len(r)):
            x = R@r[k] + t
            dd = r - x
            dd -= np.rint(dd)
            j = [i for i in range(len(r)) if types[i] == types[k] and np.linalg.norm(dd[i]@cell) < tol_bohr]
            if len(j) != 1:
                raise core.SkipCase
            out[j[0]] += C@d[k]@C.T
    return out/len(s['rotations']), len(s['rotations'])


def run_case(spec, mon):
    from euphonic import ureg, QpointPhononModes, DebyeWaller
    rng = core.rng_for(mon.seed, spec['i'])
    big = spec['i'] % 60 == 7
    d = gen.prototype(rng) if rng.random() < .5 else objs.system(rng, n_atoms=1 if big else None)
    lu, mu = objs.pick(rng, ['angstrom', 'bohr', 'nm']), objs.pick(rng, objs.MASS)
    c = gen.make_crystal(d, (lu, mu))
    n = c.n_atoms
    nq = [1000, 1001, 2000, 2300][int(rng.integers(4))] if big else int(rng.integers(1, 7))
    if big and n > 2:
        nq = 1001
    mon.event('several-chunks', nq > 1000)
    q = gen.qpoints(rng, nq)
    f = objs.freqs(rng, nq, n, imaginary=rng.random() < .4)
    r = rng.random((nq, 3*n))
    f = np.where(r < .08, f*10**rng.uniform(-5, -2, f.shape), f)
    if rng.random() < .4:
        f = np.where(rng.random(f.shape) < .1, 0., f)
    f = np.sort(f, axis=1)
    mon.event('zero-frequency', int((f == 0).sum()))
    mon.event('imaginary-modes', int((f < 0).sum()))
    e = objs.evecs(rng, nq, n)
    w = rng.uniform(.05, 2., nq) if rng.random() < .6 else None
    if w is not None and nq > 1 and rng.random() < .2:
        w[0] = 0.
    fu = objs.pick(rng, objs.ENERGY)
    F = (f*ureg('meV')).to(fu)
    o = QpointPhononModes(c, q, F, e, weights=w)
    w = np.full(nq, 1/nq) if w is None else w
    T = 0. if rng.random() < .25 else float(10**rng.uniform(-1, 3.3))
    mon.event('zero-temperature', T == 0)
    kw, fmin = {}, .01
    if rng.random() < .6:
        fmin = float(10**rng.uniform(-4, 1.7))
        kw['frequency_min'] = ureg.Quantity(fmin, 'meV').to(objs.pick(rng, objs.ENERGY))
    sym = bool(rng.random() < .5)
    if not sym or rng.random() < .5:
        kw['symmetrise'] = sym
    else:
        sym = True
    TQ = ureg.Quantity(T, 'K').to(objs.pick(rng, objs.TEMP))
    fh = F.to('hartree').magnitude
    mh = c.atom_mass.to('m_e').magnitude
    fm = ureg.Quantity(fmin, 'meV').to('hartree').magnitude
    if np.any((np.abs(fh - fm) < 1e-9*fm)):
        raise core.SkipCase
    mon.event('masked-modes', int((fh < fm).sum()))
    before = objs.snap([o, TQ, kw])
    dw = o.calculate_debye_waller(TQ, **kw)
    after = objs.snap([o, TQ, kw])
    mon.check(after == before, 'inputs-modified', str(objs.diff(before, after)))
    mon.check(isinstance(dw, DebyeWaller), 'type')
    mon.check(dw.debye_waller.units == (1*ureg(lu)**2).units, 'unit', str(dw.debye_waller.units))
    mon.close(dw.temperature.to('K').magnitude, T, 'temperature', rtol=1e-12)
    got = dw.debye_waller.to('bohr**2').magnitude
    if not mon.check(np.isrealobj(got) and got.shape == (n, 3, 3), 'shape', f'{got.shape} {got.dtype}'):
        return
    if big:
        t = np.where(fh < fm, 0., 1/np.where(fh < fm, 1., fh)/(np.tanh(np.where(fh < fm, 1., fh)/(2*KB*T)) if T else 1.))
        want = np.einsum('q,qm,qmka,qmkb->kab', w/w.sum(), t, e, e.conj()).real/(4*mh[:, None, None])
    else:
        want = oracle(fh, e, w, mh, T, fm)
    nops = 1
    if sym:
        want, nops = symmetrise(want, c.cell_vectors.to('bohr').magnitude, c.atom_r, list(c.atom_type), ureg('1e-5 angstrom').to('bohr').magnitude)
        mon.event('nontrivial-symmetry', nops > 1)
    mon.close(got, want, 'symmetrised' if sym else 'exponents', f'T={T}, fmin={fmin}, {nops} operations', rtol=1e-6 if sym else 1e-9)
    mon.event('symmetrised' if sym else 'unsymmetrised')
    sc = np.max(np.abs(got)) if got.size else 0
    mon.close(got, got.transpose(0, 2, 1), 'symmetric-matrix', rtol=1e-9)
    if np.all(np.isfinite(got)):
        mon.check(np.linalg.eigvalsh(.5*(got + got.transpose(0, 2, 1))).min() >= -1e-9*sc, 'positive-semidefinite')
    if big:
        mon.evaluated((spec, n, nq))
        return
    k = rng.random()
    if k < .35:
        T2 = T*rng.uniform(1.01, 3) + rng.uniform(0, 50)
        g2 = o.calculate_debye_waller(T2*ureg('K'), **kw).debye_waller.to('bohr**2').magnitude
        mon.check(np.linalg.eigvalsh(g2 - got).min() >= -1e-9*np.max(np.abs(g2), initial=1e-300), 'monotonic', f'{T} K -> {T2} K')
        mon.event('monotonic')
    elif k < .55:
        o2 = QpointPhononModes(c, q, F, e, weights=w*rng.uniform(.01, 50))
        mon.close(o2.calculate_debye_waller(TQ, **kw).debye_waller.to('bohr**2').magnitude, got, 'weights-scaled', rtol=1e-10)
        mon.event('weights-scaled')
    elif nq > 1 and w[0] > 0:
        i = int(rng.integers(1, nq))
        p = rng.permutation(nq)
        parts = [QpointPhononModes(c, q[s], F[s], e[s], weights=w[s]) for s in (p[:i], p[i:])]
        if all(x.weights.sum() > 0 for x in parts):
            v = sum(x.calculate_debye_waller(TQ, **kw).debye_waller.to('bohr**2').magnitude*x.weights.sum() for x in parts)/w.sum()
            mon.close(v, got, 'partition', 'weighted mean over parts of the q-point list', rtol=1e-9)
            mon.event('partition')
    mon.evaluated((spec, n, nq, T == 0, sym))
    mon.sample({'crystal': d['lattice'], 'n_atoms': n, 'nq': nq, 'T': T, 'fmin': fmin, 'symmetrise': sym, 'operations': nops})
