"""C01: eigenpairs of the Fourier-interpolated dynamical matrix."""
import numpy as np
from .. import gen, ref, phon, core

RULE = ('random model crystals (8 lattice families, 1-6 atoms, diagonal/skew supercells, stable and unstable, '
        'any orientation) and every stored material, each at random/special/gamma q-points through the public '
        'API with C and Python paths; an evaluation is non-trivial when the eigenproblem has more than one '
        'supercell cell or more than one atom; distinct by (system, options)')
ASSUMPTIONS = ['supercells whose Wigner-Seitz cell is bounded by nearest supercell translations and reached within '
               'two supercells (what the implementation documents)',
               'pair separations within 4e-3 of a Wigner-Seitz face but not on it are not generated']
REQUIRED_EVENTS = ['eigenproblems-verified', 'path-c', 'path-python', 'qpoints-with-imaginary-modes',
                   'nondiagonal-supercell', 'shared-images']


def cases(tier, seed):
    n = {'quick': 260, 'thorough': 6000}[tier]
    c = [{'kind': 'random', 'i': i} for i in range(n)]
    mats = phon.find_materials()
    reps = {'quick': 1, 'thorough': 12}[tier]
    # the heavy ones first so that they spread over the workers
    return [{'kind': 'material', 'name': k, 'i': r} for k in mats for r in range(reps)] + c


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec.get('name'), spec['i'])
    if spec['kind'] == 'material':
        fc, d, images = phon.material(spec['name'])
        m = ref.Model(d, images)
        nq = 3 if m.n > 10 else 6
    else:
        big = spec['i'] % 13 == 0
        d = gen.system(rng, n_atoms=int(rng.integers(5, 9)) if big else None, stable=rng.random() > .2,
                       asr=rng.random() > .3, nmax=4 if big else 12, polar=False)
        fc = gen.make_fc(d)
        m = ref.Model(d)
        nq = int(rng.integers(1, 6))
    q = gen.qpoints(rng, nq)
    if m.nim.max() > 1:
        mon.event('shared-images')
    if np.any(d['scm'] != np.diag(np.diag(d['scm']))):
        mon.event('nondiagonal-supercell')
    use_c = [True, False, None][int(rng.integers(3))]
    mon.event({True: 'path-c', False: 'path-python', None: 'path-default'}[use_c])
    kw = {'use_c': use_c, 'n_threads': int(rng.integers(1, 4)), 'dipole': False}
    if d['born'] is None and rng.random() < .5:
        del kw['dipole']
    if rng.random() < .3:
        kw['reduce_qpts'] = False
    mats = [m.dynmat(x, dipole=False) for x in q]
    modes = fc.calculate_qpoint_phonon_modes(q, **kw)
    mon.close(modes.qpts, q, 'qpts', atol=0, rtol=0)
    phon.check_modes(mon, m, modes, mats, 'modes')
    freq = fc.calculate_qpoint_frequencies(q, **kw)
    phon.check_modes(mon, m, freq, mats, 'freqs', freq_only=True)
    if len(d['origins'])*m.n > 1:
        mon.evaluated((spec, sorted(map(str, kw.items()))))
    mon.sample({**gen.describe(d), 'q': q, 'options': kw, 'freqs_meV': modes.frequencies.to('meV').magnitude[0]})
