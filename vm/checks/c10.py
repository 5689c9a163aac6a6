"""C10: conversion of total force constants to short-range form."""
import numpy as np
from .. import gen, ref, phon, core, objs

RULE = ('random polar crystals and supercells: total force constants built with an independent Ewald sum from known short-range '
        'ones (or random total matrices) and converted with all inputs in random units; the short-range matrix and the phonons at '
        'every commensurate q-point are compared; distinct by (system, units)')
ASSUMPTIONS = ['tolerance 1e-8 of the scale of the dynamical matrix (convergence of two independent Ewald sums)',
               'the longest supercell vector is at most 2.4 times the cube root of its volume: the Ewald parameter is chosen '
               'from the mean cell length, and for needle-like supercells the 50-shell limit truncates the sums',
               'gamma is compared without the non-analytic term']
REQUIRED_EVENTS = ['short-range-recovered', 'commensurate-qpoints', 'converted-units', 'arbitrary-total', 'nondiagonal-supercell']
FCU = ['hartree/bohr**2', 'eV/angstrom**2', 'meV/angstrom**2', 'N/m']
BORNU = ['e', 'coulomb', 'me']
EPSU = [gen.EPSU, 'e**2/(angstrom*eV)', 'e**2/(nm*hartree)', 'coulomb**2/(meter*joule)']


def cases(tier, seed):
    return [{'i': i} for i in range({'quick': 150, 'thorough': 3000}[tier])]


def commensurate(scm):
    """All q-points (primitive fractional) periodic in the supercell."""
    g = gen.cell_origins(np.array(scm).T)
    return g@np.linalg.inv(scm).T


def run_case(spec, mon):
    from euphonic import ForceConstants, ureg
    rng = core.rng_for(mon.seed, spec['i'])
    d = gen.system(rng, polar=True, nmax=6, sc_kind='nondiag' if rng.random() < .35 else None, n_atoms=int(rng.integers(2, 4)), asr=rng.random() < .7)
    sv = d['scm']@d['cell']
    if np.max(np.linalg.norm(sv, axis=1)) > 2.4*abs(np.linalg.det(sv))**(1/3):
        raise core.SkipCase
    m = ref.Model(d)
    q = commensurate(d['scm'])
    nc, n = len(d['origins']), m.n
    if not mon.check(len(q) == nc, 'harness-commensurate'):
        return
    if np.any(d['scm'] != np.diag(np.diag(d['scm']))):
        mon.event('nondiagonal-supercell')
    short = np.array(d['fc'])
    # dipole part in real space: inverse Fourier transform over commensurate points
    dd = np.zeros((nc, 3*n, 3*n), complex)
    for x in q:
        C = m.dd(x)
        dd += np.exp(-2j*np.pi*(d['origins']@x))[:, None, None]*C
    dd /= nc
    scf = phon.scale(m)/np.max(m.w)**2
    mon.check(np.max(np.abs(dd.imag)) < 1e-9*scf, 'harness-dipole-real')
    arbitrary = rng.random() < .3
    total = short + dd.real
    if arbitrary:
        total = short.copy()
        mon.event('arbitrary-total')
    fu, bu, eu, cu = (objs.pick(rng, u) for u in (FCU, BORNU, EPSU, ['bohr', 'angstrom', 'nm']))
    if rng.random() < .3:
        bu, eu = 'e', gen.EPSU
    mon.event('converted-units', eu != gen.EPSU or bu != 'e' or fu != FCU[0])
    c = gen.make_crystal(d, (cu, 'amu'))
    T = (total*ureg('hartree/bohr**2')).to(fu)
    B, E = (d['born']*ureg('e')).to(bu), (d['eps']*ureg(gen.EPSU)).to(eu)
    args = {'T': T, 'B': B, 'E': E, 'scm': d['scm'], 'o': d['origins']}
    before = objs.snap(args)
    out = ForceConstants.from_total_fc_with_dipole(c, T, np.array(d['scm']), np.array(d['origins']), B, E)
    mon.check(objs.snap(args) == before, 'arguments-modified', str(objs.diff(before, objs.snap(args))))
    got = out.force_constants.to('hartree/bohr**2').magnitude
    mon.check(out.force_constants.units == T.units, 'fc-unit', f'{out.force_constants.units}')
    mon.check(out.born.units == B.units and out.dielectric.units == E.units, 'born-dielectric-unit')
    mon.close(out.born.to('e').magnitude, d['born'], 'born', rtol=1e-13)
    mon.close(out.dielectric.to(gen.EPSU).magnitude, d['eps'], 'dielectric', rtol=1e-13)
    mon.close(out.cell_origins, d['origins'], 'cell-origins', rtol=0)
    mon.close(out.sc_matrix, d['scm'], 'sc-matrix', rtol=0)
    mon.check(np.isrealobj(got), 'fc-real')
    want = total - dd.real
    mon.close(got, want, 'short-range-matrix', f'units {fu}, {bu}, {eu}, {cu}', rtol=0, atol=1e-8*scf)
    mon.event('short-range-recovered')
    # phonons at commensurate points
    tot = ref.Model(dict(d, born=None, eps=None, fc=total), (m.inside, m.sh))
    use_c = bool(rng.random() < .5)
    res = out.calculate_qpoint_phonon_modes(q, splitting=False, use_c=use_c, dipole_parameter=float(rng.choice([1., .8, 1.25])))
    sc = phon.scale(m)
    w = ref.w2(res.frequencies.to('meV').magnitude)
    e = phon.evecs(res)
    for i, x in enumerate(q):
        D = tot.dynmat(x)
        D = .5*(D + D.conj().T)
        mon.close((e[i].T*w[i])@e[i].conj(), D, 'commensurate-phonons', f'dynamical matrix at commensurate q={x.tolist()}',
                  rtol=0, atol=1e-8*sc)
        mon.event('commensurate-qpoints')
    mon.evaluated((spec, fu, bu, eu, cu))
    mon.sample({**gen.describe(d), 'units': [fu, bu, eu, cu]})
