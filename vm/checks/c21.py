"""C21: the one-phonon structure factor obeys its defining formula and symmetries."""
import json
import os
import numpy as np
from .. import core, objs, gen
from . import c11, c17

RULE = ('random modes, scattering lengths (table, file, dictionaries in any length unit, complex values), Debye-Waller exponents in any '
        'unit: structure factors against an explicit sum over atoms; metamorphic monitors for eigenvector phases, unitary mixing of '
        'degenerate modes, scaling, rigid shifts, and (modes interpolated from force constants) re-description of the crystal; '
        'distinct by (kind, case, options)')
ASSUMPTIONS = ['frequencies that are exactly zero are not judged (the formula diverges)',
               'weights of the q-points are not carried to the structure factor by the code and are not judged']
REQUIRED_EVENTS = ['formula', 'debye-waller', 'own-debye-waller', 'table', 'file', 'dictionary', 'complex-lengths', 'phases', 'degenerate-mixing',
                   'scaling', 'rigid-shift', 're-described-crystal', 'mismatched-debye-waller', 'gamma', 'imaginary']


def cases(tier, seed):
    n = {'quick': 600, 'thorough': 15000}[tier]
    return [{'kind': 'formula', 'i': i} for i in range(n)] + [{'kind': 'crystal', 'i': i} for i in range(n//6)]


def oracle(cell, r, mass, q, f, e, b, W=None):
    """bohr, electron masses, hartree -> bohr**2"""
    rec = 2*np.pi*np.linalg.inv(cell).T
    n = len(r)
    out = np.zeros(f.shape)
    for i in range(len(q)):
        Q = q[i]@rec
        for m in range(f.shape[1]):
            F = 0
            for k in range(n):
                t = b[k]/np.sqrt(mass[k])*np.vdot(e[i, m, k], Q)*np.exp(1j*Q@(r[k]@cell))
                if W is not None:
                    t *= np.exp(-Q@W[k]@Q)
                F += t
            out[i, m] = abs(F)**2/(2*abs(f[i, m])*n)
    return out


def lengths(rng, mon, types):
    from euphonic import ureg
    k = rng.random()
    sp = sorted(set(types))
    if k < .25:
        t = c17.table('Sears1992', 'coherent_scattering_length')
        val = {}
        for s in sp:
            v = t[s]
            val[s] = complex(v['real'], v['imag']) if isinstance(v, dict) else v
        mon.event('table')
        return ('Sears1992' if rng.random() < .5 else None), val
    val = {s: float(rng.normal()*8) for s in sp}
    if rng.random() < .4:
        val = {s: v + 1j*float(rng.normal()) for s, v in val.items()}
        mon.event('complex-lengths')
    if k < .5:
        u = objs.pick(rng, ['fm', 'angstrom', 'bohr'])
        fac = (1*ureg('fm')).to(u).magnitude
        fn = os.path.join(mon.scratch, 'sl.json')
        with open(fn, 'w') as fd:
            json.dump({'physical_property': {'coherent_scattering_length': {'__units__': u, **{
                s: ({'__complex__': True, 'real': v.real*fac, 'imag': v.imag*fac} if isinstance(v, complex) else v*fac)
                for s, v in val.items()}}}}, fd)
        mon.event('file')
        return fn, val
    mon.event('dictionary')
    d = {s: (v*ureg('fm')).to(objs.pick(rng, ['fm', 'bohr', 'angstrom', 'm'])) for s, v in val.items()}
    d['Xx'] = 1*ureg('fm')
    return d, val


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    (run_formula if spec['kind'] == 'formula' else run_crystal)(spec, mon, rng)


def run_formula(spec, mon, rng):
    from euphonic import ureg, QpointPhononModes, DebyeWaller, StructureFactor
    d = gen.prototype(rng) if rng.random() < .3 else objs.system(rng)
    if rng.random() < .2:
        # elements with complex tabulated lengths
        t = c17.table('Sears1992', 'coherent_scattering_length')
        cx = [s for s, v in t.items() if isinstance(v, dict)]
        d['atom_type'] = np.array(d['atom_type'], dtype='<U2')
        d['atom_type'][0] = objs.pick(rng, cx)
    c = gen.make_crystal(d, (objs.pick(rng, ['angstrom', 'bohr', 'nm']), objs.pick(rng, objs.MASS)))
    n = c.n_atoms
    nq = int(rng.integers(1, 7))
    q = gen.qpoints(rng, nq)*objs.pick(rng, [1, 1, 3, 6])
    if rng.random() < .3:
        q[0] = 0
        mon.event('gamma')
    f = objs.freqs(rng, nq, n, imaginary=rng.random() < .3)
    mon.event('imaginary', int((f < 0).sum()))
    if rng.random() < .5 and n > 1:
        f[:, 1] = f[:, 0]
        f[:, 2] = f[:, 0]
    F = (f*ureg('meV')).to(objs.pick(rng, objs.ENERGY))
    e = objs.evecs(rng, nq, n)
    o = QpointPhononModes(c, q, F, e)
    types = [str(t) for t in c.atom_type]
    arg, val = lengths(rng, mon, types)
    kw = {} if arg is None else {'scattering_lengths': arg}
    dw, W = None, None
    if rng.random() < .5:
        if rng.random() < .4:
            dw = o.calculate_debye_waller(ureg.Quantity(float(rng.uniform(0, 500)), 'K'), symmetrise=False)
            mon.event('own-debye-waller')
        else:
            dw = objs.debye_waller(rng, cr=c)
        if rng.random() < .4:
            dw.debye_waller_unit = objs.pick(rng, objs.AREA)
        W = dw.debye_waller.to('bohr**2').magnitude
        kw['dw'] = dw
        mon.event('debye-waller')
    before = objs.snap([o, dw, arg if isinstance(arg, dict) else None])
    s = o.calculate_structure_factor(**kw)
    after = objs.snap([o, dw, arg if isinstance(arg, dict) else None])
    mon.check(after == before, 'inputs-modified', str(objs.diff(before, after)))
    mon.check(isinstance(s, StructureFactor), 'type')
    cell, r = c.cell_vectors.to('bohr').magnitude, np.array(c.atom_r)
    mass, fh = c.atom_mass.to('m_e').magnitude, F.to('hartree').magnitude
    FM = ureg('fm').to('bohr').magnitude
    b = np.array([val[t]*FM for t in types])
    want = oracle(cell, r, mass, q, fh, e, b, W)
    got = s.structure_factors.to('bohr**2').magnitude
    sc = np.max(np.sum(np.abs(b)**2/mass)*np.sum((q@(2*np.pi*np.linalg.inv(cell).T))**2, axis=1)/(2*np.min(np.abs(fh))*n))
    mon.close(got, want, 'formula', f'scattering lengths {arg if isinstance(arg, str) else type(arg).__name__}, dw={dw is not None}',
              rtol=1e-9, atol=1e-13*sc)
    mon.check(np.all(got >= 0), 'negative')
    mon.event('formula', got.size)
    mon.close(s.qpts, q, 'qpts', rtol=0)
    mon.close(s.frequencies.to('hartree').magnitude, fh, 'frequencies', rtol=1e-12)
    mon.check(s.frequencies.units == F.units, 'frequency-unit')
    if dw is None:
        mon.check(s.temperature is None, 'temperature')
    else:
        mon.close(s.temperature.to('K').magnitude, dw.temperature.to('K').magnitude, 'temperature', rtol=1e-12)
    k = rng.random()
    tol = 1e-9*np.max(got, initial=0) + 1e-12*sc
    if k < .25:
        ph = np.exp(2j*np.pi*rng.random((nq, 3*n)))
        g2 = QpointPhononModes(c, q, F, e*ph[:, :, None, None]).calculate_structure_factor(**kw).structure_factors.to('bohr**2').magnitude
        mon.close(g2, got, 'phases', rtol=0, atol=tol)
        mon.event('phases')
    elif k < .5 and n > 1 and np.all(f[:, 0] == f[:, 2]):
        U = objs.evecs(rng, 1, 1)[0].reshape(3, 3)
        e2 = e.copy()
        e2[:, :3] = np.einsum('ab,qbij->qaij', U, e[:, :3])
        g2 = QpointPhononModes(c, q, F, e2).calculate_structure_factor(**kw).structure_factors.to('bohr**2').magnitude
        mon.close(g2[:, :3].sum(axis=1), got[:, :3].sum(axis=1), 'degenerate-mixing', rtol=0, atol=3*tol)
        mon.event('degenerate-mixing')
    elif k < .75:
        z = float(rng.uniform(-3, 3))
        d2 = {t: (val[t]*z*ureg('fm')) for t in types}
        g2 = o.calculate_structure_factor(**dict(kw, scattering_lengths=d2)).structure_factors.to('bohr**2').magnitude
        mon.close(g2, z*z*got, 'scaling', rtol=0, atol=max(1, z*z)*tol)
        mon.event('scaling')
    else:
        dd = dict(d, atom_r=d['atom_r'] + rng.uniform(-1, 1, 3))
        c2 = gen.make_crystal(dd)
        k2 = dict(kw)
        if dw is not None:
            k2['dw'] = DebyeWaller(c2, dw.debye_waller, dw.temperature)
        g2 = QpointPhononModes(c2, q, F, e).calculate_structure_factor(**k2).structure_factors.to('bohr**2').magnitude
        mon.close(g2, got, 'rigid-shift', rtol=0, atol=10*tol)
        mon.event('rigid-shift')
    if rng.random() < .1:
        other = objs.crystal(rng, n_atoms=n + 1)
        mon.raises(lambda: o.calculate_structure_factor(dw=objs.debye_waller(rng, cr=other)), ValueError, 'mismatched-debye-waller')
        mon.raises(lambda: o.calculate_structure_factor(scattering_lengths=3.), TypeError, 'bad-lengths')
        mon.raises(lambda: o.calculate_structure_factor(scattering_lengths='no-such-table'), ValueError, 'unknown-table')
        mon.event('mismatched-debye-waller')
    mon.evaluated((spec, n, nq, sorted(kw)))
    mon.sample({'types': types, 'nq': nq, 'dw': dw is not None, 'lengths': arg if isinstance(arg, str) else 'dict/None'})


def run_crystal(spec, mon, rng):
    """Structure factors of interpolated modes do not depend on the description."""
    from euphonic import ureg
    d = gen.system(rng, polar=rng.random() < .4, nmax=4, noise=0.)
    polar = d['born'] is not None
    d0, chain, T, qm = dict(d), [], (lambda q: np.eye(3*len(d0['atom_r']))), np.eye(3)
    kinds = [k for k in c11.KINDS]
    for k in [kinds[(spec['i'] + 4) % len(kinds)]] + [objs.pick(rng, kinds) for _ in range(3)]:
        if k in ('permute-cells', 'move-cells') and len(d['origins']) < 2:
            continue
        d1, T1, q1 = c11.apply(k, d, rng, T, qm, core_mon(mon))
        if c11.reachable(d1) and (not polar or c11.compact(d1)):
            d, T, qm = d1, T1, q1
            chain.append(k)
        if len(chain) == 2:
            break
    if not chain or not c11.compact(d0):
        raise core.SkipCase
    q = rng.uniform(-2, 2, (3, 3))
    kw = {'asr': objs.pick(rng, [None, 'realspace'])}
    fa, fb = gen.make_fc(d0), gen.make_fc(d)
    a, b = fa.calculate_qpoint_phonon_modes(q, **kw), fb.calculate_qpoint_phonon_modes(q@qm, **kw)
    f = a.frequencies.to('meV').magnitude
    if np.min(np.abs(f)) < .1:
        raise core.SkipCase
    sl = {s: float(rng.normal()*6)*ureg('fm') for s in set(d0['atom_type'])}
    Tk = ureg.Quantity(float(rng.uniform(0, 300)), 'K')
    use = rng.random() < .5
    out = []
    for x in (a, b):
        k = {'dw': x.calculate_debye_waller(Tk, symmetrise=False)} if use else {}
        out.append(x.calculate_structure_factor(sl, **k).structure_factors.to('mbarn').magnitude)
    A, B = out
    for i in range(len(q)):
        cuts = [0] + [j + 1 for j in np.where(np.diff(f[i]) > 1e-3*f.max())[0]] + [f.shape[1]]
        for u, v in zip(cuts[:-1], cuts[1:]):
            mon.close(B[i, u:v].sum(), A[i, u:v].sum(), 're-described', f'structure factor after {chain} at q={q[i].tolist()}',
                      rtol=1e-4, atol=1e-4*A[i].max())
    mon.event('re-described-crystal')
    mon.evaluated((spec, chain, use))


class core_mon:
    def __init__(self, m):
        self.m = m

    def event(self, *a):
        pass
