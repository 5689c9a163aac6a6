"""C30: brille interpolation against direct calculation."""
import contextlib
import io
import os
import pickle
import signal
import numpy as np
from .. import core, gen, objs, brillesafe

os.environ.setdefault('OMP_WAIT_POLICY', 'passive')

RULE = ('random and symmetric crystals (springs respecting the space group), polar or not, grid types, sizes and densities: at every sampled q-point inside the '
        'Brillouin zone, and at its reciprocal-lattice translates and symmetry images, frequencies and the dynamical matrix rebuilt from frequencies and '
        'eigenvectors are compared with direct calculation; elsewhere the error is compared between a coarse and a fine grid; every case runs in a forked '
        'process because brille itself may crash; distinct by (case)')
ASSUMPTIONS = ['sampled points on the Brillouin-zone boundary and at gamma may be interpolated by brille from other points', 'vertices of nest grids need not be interpolated exactly: '
               'their stored values are compared instead', 'crystals are right-handed (brille cannot handle others)', 'crashes inside brille (a dependency) make a case inconclusive',
               'of symmetry images at least 60% must be exact: brille may choose an image inside its wedge that is not sampled']
REQUIRED_EVENTS = ['trellis', 'mesh', 'nest', 'vertex-exact', 'translated', 'rotated', 'convergence', 'polar', 'symmetric', 'density', 'grid-kwargs', 'interpolation-kwargs',
                   'threads', 'batches', 'fortran-order', 'frequencies-only', 'refusal', 'imaginary', 'default-grid']
BUDGET = {'quick': 300., 'thorough': 2400.}
KINDS = ('exact', 'exact', 'exact', 'converge', 'config')


def cases(tier, seed):
    k = {'quick': 18, 'thorough': 500}[tier]
    return [{'kind': kind, 'i': i*len(KINDS) + j} for i in range(k) for j, kind in enumerate(KINDS)] + [{'kind': 'refuse', 'i': i} for i in range(2)]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def build(F, mon, **kw):
    """Interpolator, its grid built single-threaded."""
    from euphonic.brille import BrilleInterpolator
    brillesafe.single()
    with quiet():
        return BrilleInterpolator.from_force_constants(F, **kw)


def material(rng, mon, n=None):
    """(ForceConstants, d)"""
    if rng.random() < .5:
        mon.event('symmetric')
        for _ in range(50):
            d = gen.prototype(rng)
            if np.linalg.det(d['cell']) > 0:
                break
        else:
            raise core.SkipCase
        scm = np.diag([2, 2, 2])
        org = gen.cell_origins(scm)
        c = dict(zip(sorted(set(d['atom_type'])), rng.uniform(.5, 1.5, 9)))
        fc = gen.spring_fc(rng, d['cell'], d['atom_r'], scm, org, chg=np.array([c[t] for t in d['atom_type']]), stable=rng.random() < .8)
        d.update(scm=scm, origins=org, fc=fc, born=None, eps=None)
    else:
        polar = rng.random() < .4
        d = gen.system(rng, n_atoms=int(rng.integers(2, 4)), polar=polar, nmax=5, noise=None, stable=rng.random() < .8)
        mon.event('polar', polar)
        if polar:
            sv = d['scm']@d['cell']
            if np.max(np.linalg.norm(sv, axis=1)) > 2.4*abs(np.linalg.det(sv))**(1/3):
                raise core.SkipCase
    return gen.make_fc(d, units=(objs.pick(rng, ['bohr', 'angstrom', 'nm']), 'amu')), d


def dyn(m):
    """w^2-weighted projector, free of phases and of the choice within degenerate subspaces."""
    f, e = m.frequencies.to('meV').magnitude, m.eigenvectors
    n = e.shape[1]
    e = e.reshape(len(f), n, n)
    return np.einsum('qi,qia,qib->qab', f*np.abs(f), e, e.conj())


def grid_of(b):
    import brille as br
    for v in vars(b).values():
        if isinstance(v, (br.BZTrellisQdc, br.BZMeshQdc, br.BZNestQdc)):
            return v
    raise core.SkipCase


def interior(q, cell):
    B = 2*np.pi*np.linalg.inv(cell).T
    sh = np.array(np.meshgrid(*[[-2, -1, 0, 1, 2]]*3)).reshape(3, -1).T
    G = sh[np.any(sh != 0, axis=1)]@B
    k = q@B
    r = np.linalg.norm(k, axis=1)
    gap = np.array([np.min(np.linalg.norm(x - G, axis=1)) for x in k]) - r
    s = np.linalg.norm(B, axis=1).min()
    return (gap > 2e-3*s) & (r > 2e-3*s)


def compare(mon, b, F, q, key, kw, share=1., call=None):
    a = b.calculate_qpoint_phonon_modes(q, **(call or {}))
    c = F.calculate_qpoint_phonon_modes(q, insert_gamma=False, **kw)
    af, cf = a.frequencies.to('meV').magnitude, c.frequencies.to('meV').magnitude
    mon.check(np.array_equal(a.qpts, q), key + ':qpts', 'the q-points are not those requested')
    if not mon.check(af.shape == cf.shape and a.eigenvectors.shape == c.eigenvectors.shape, key + ':shape', f'{af.shape} {a.eigenvectors.shape}'):
        return None
    w = np.abs(cf).max()
    ef = np.abs(np.sort(af, axis=1) - np.sort(cf, axis=1))
    # near-zero acoustic frequencies amplify rounding of the dynamical matrix
    ef = np.where(np.abs(np.sort(cf, axis=1)) < 1e-3*w, np.minimum(ef, np.abs(np.sort(af, axis=1)**2 - np.sort(cf, axis=1)**2)/w), ef).max(axis=1)/w
    D = dyn(c)
    ed = np.abs(dyn(a) - D).max(axis=(1, 2))/w**2
    bad = (ef > 1e-6) | (ed > 1e-6)
    lim = (1 - share)*len(q)
    mon.check((ef > 1e-6).sum() <= lim, key + ':frequencies', f'{(ef > 1e-6).sum()} of {len(q)} differ, up to {ef.max():.3g} of the largest frequency')
    mon.check(bad.sum() <= lim, key + ':eigenvectors', f'{bad.sum()} of {len(q)} differ, up to {ed.max():.3g}')
    mon.event('imaginary', (cf < -1e-2*w).any())
    return a


def exact(rng, mon):
    F, d = material(rng, mon)
    gt = ['trellis', 'trellis', 'mesh', 'nest'][mon.case['i'] % 4]
    kw = {}
    if rng.random() < .3:
        kw['asr'] = objs.pick(rng, ['reciprocal', 'realspace'])
    if rng.random() < .3:
        kw['use_c'] = False
    if d['born'] is not None and rng.random() < .3:
        kw['dipole_parameter'] = float(rng.uniform(.6, 1.4))
    n = int(rng.integers(30, 200))
    snap = objs.snap(F)
    args = dict(kw)
    b = build(F, mon, grid_type=gt, grid_npts=n, **({'interpolation_kwargs': args} if kw else {}))
    mon.event(gt)
    if kw:
        mon.event('interpolation-kwargs')
        mon.check(args == kw, 'interpolation-kwargs-modified', f'{args}')
    mon.check(not objs.diff(snap, objs.snap(F)), 'modified', f'{objs.diff(snap, objs.snap(F))}')
    mon.check(not objs.diff(objs.snap(b.crystal), objs.snap(F.crystal)), 'crystal')
    g = grid_of(b)
    q = np.array(g.rlu)
    # stored values, whatever brille does with them afterwards
    v, e = np.array(g.values), np.array(g.vectors)
    c = F.calculate_qpoint_phonon_modes(q, insert_gamma=False, reduce_qpts=False, **kw)
    mon.close(np.sort(v[..., 0], axis=1), np.sort(c.frequencies.to('hartree').magnitude, axis=1), 'stored:frequencies', rtol=1e-7)
    na = F.crystal.n_atoms
    D = np.einsum('qi,qia,qib->qab', v[..., 0]*np.abs(v[..., 0]), e.reshape(len(q), 3*na, 3*na), e.reshape(len(q), 3*na, 3*na).conj())
    C = dyn(c)
    f = c.frequencies.to('hartree').magnitude.max()/c.frequencies.to('meV').magnitude.max()
    mon.close(D, C*f*f, 'stored:eigenvectors', rtol=1e-7)
    if gt == 'nest':
        return
    q = q[interior(q, d['cell'])]
    if not len(q):
        raise core.SkipCase
    mon.event('vertex-exact', len(q))
    a = compare(mon, b, F, q, f'{gt}:vertices', kw)
    if a is None:
        return
    f2 = b.calculate_qpoint_frequencies(q)
    mon.close(f2.frequencies.to('meV').magnitude, a.frequencies.to('meV').magnitude, 'frequencies-only', rtol=1e-12)
    mon.check(np.array_equal(f2.qpts, q), 'frequencies-only:qpts')
    mon.event('frequencies-only')
    if gt == 'trellis':
        mon.event('translated')
        compare(mon, b, F, q + rng.integers(-2, 3, q.shape), 'translated', kw, .9)
        W = F.crystal.get_symmetry_equivalent_atoms()[0]
        if len(W) > 1 and not kw.get('asr') and 'scm' in d and np.array_equal(d['scm'], 2*np.eye(3)):
            R = W[rng.integers(len(W), size=len(q))]
            k = np.array([np.linalg.inv(r).T@x for r, x in zip(R, q)])
            mon.event('rotated')
            compare(mon, b, F, np.round(k, 14), 'rotated', kw, .6)


def mean_error(b, F, q, kw):
    a, c = b.calculate_qpoint_phonon_modes(q), F.calculate_qpoint_phonon_modes(q, insert_gamma=False, **kw)
    af, cf = a.frequencies.to('meV').magnitude, c.frequencies.to('meV').magnitude
    D = dyn(c)
    return np.abs(np.sort(af, axis=1) - cf).mean()/np.abs(cf).max(), np.abs(dyn(a) - D).mean()/np.abs(D).mean()


def converge(rng, mon):
    F, d = material(rng, mon)
    gt = ['trellis', 'nest', 'mesh'][mon.case['i']//len(KINDS) % 3]
    lo, hi = {'trellis': (20, 500), 'nest': (30, 1000), 'mesh': (30, 300)}[gt]
    q = rng.uniform(-1, 1, (300, 3))
    e, n = [], []
    for npts in (lo, hi):
        b = build(F, mon, grid_type=gt, grid_npts=npts)
        n.append(len(grid_of(b).rlu))
        e.append(mean_error(b, F, q, {}))
    if gt == 'mesh' and n[0] == n[1]:
        raise core.SkipCase     # brille settled on its smallest mesh
    mon.event(gt)
    mon.event('convergence')
    mon.check(n[1] > 1.8*n[0], 'converge:points', f'{n} points for grid_npts {lo}, {hi} ({gt})')
    mon.check(e[0][0] < .08 and e[1][0] < (.03 if gt == 'mesh' else .02), 'converge:frequency-error', f'{gt}: mean error {e[0][0]:.3g}, {e[1][0]:.3g} of the largest frequency')
    mon.check(e[1][0] < (.9 if gt == 'mesh' else .8)*e[0][0] + 1e-6, 'converge:frequencies', f'{gt}: mean error {e[0][0]:.3g} -> {e[1][0]:.3g} with {n} points')
    mon.check(gt == 'mesh' or e[1][1] < .9*e[0][1] + 1e-6 and e[1][1] < .6, 'converge:eigenvectors', f'{gt}: mean error {e[0][1]:.3g} -> {e[1][1]:.3g} with {n} points')


def config(rng, mon):
    """Grid options reach brille; calls are repeatable and independent of threads and batching."""
    import brille as br
    F, d = material(rng, mon)
    gt = objs.pick(rng, ['trellis', 'trellis', 'nest'])
    r = rng.random()
    if r < .4:
        mon.event('density')
        n = [len(grid_of(build(F, mon, grid_type=gt, grid_density=k)).rlu) for k in ((100, 1500) if gt == 'trellis' else (800, 4000))]
        mon.check(n[1] > n[0], 'density', f'{gt}: {n}')
        b = build(F, mon, grid_type=gt, grid_density=1500)
    elif r < .7:
        mon.event('grid-kwargs')
        kw = {'node_volume_fraction': float(rng.uniform(.002, .02)), 'always_triangulate': bool(rng.random() < .5)} if gt == 'trellis' else {'number_density': int(rng.integers(50, 200))}
        before = dict(kw)
        orig = {'trellis': br.BZTrellisQdc, 'nest': br.BZNestQdc}[gt]
        b = build(F, mon, grid_type=gt, grid_npts=3, grid_kwargs=kw)
        mon.check(kw == before, 'grid-kwargs-modified')
        g = grid_of(b)
        ref = reference_grid(F, orig, kw)
        mon.check(g.rlu.shape == ref.rlu.shape and np.allclose(g.rlu, ref.rlu, atol=1e-9), 'grid-kwargs', f'{g.rlu.shape} points, brille itself gives {ref.rlu.shape}')
    else:
        mon.event('default-grid')
        b = build(F, mon, grid_npts=100)
        mon.check(isinstance(grid_of(b), br.BZTrellisQdc), 'default-grid-type', type(grid_of(b)).__name__)
    q = rng.uniform(-1, 1, (int(rng.integers(5, 80)), 3))
    base = b.calculate_qpoint_phonon_modes(q)
    def same(a, key, sl=slice(None)):
        mon.close(a.frequencies.to('meV').magnitude, base.frequencies.to('meV').magnitude[sl], key + ':frequencies', rtol=1e-10)
        mon.close(a.eigenvectors, base.eigenvectors[sl], key + ':eigenvectors', rtol=1e-10)
    mon.check(str(base.frequencies.units) == 'millielectron_volt', 'default-unit', str(base.frequencies.units))
    mon.close(base.weights, np.full(len(q), 1/len(q)), 'weights', rtol=1e-12)
    for kw in ({'useparallel': False}, {'useparallel': True, 'threads': int(rng.integers(1, 9))}, {'useparallel': False, 'threads': 1}):
        same(b.calculate_qpoint_phonon_modes(q, **kw), 'threads')
    mon.event('threads')
    same(b.calculate_qpoint_phonon_modes(np.asfortranarray(q)), 'fortran')
    big = np.empty((2*len(q), 4))
    big[::2, :3] = q
    same(b.calculate_qpoint_phonon_modes(big[::2, :3]), 'strided')
    mon.event('fortran-order')
    k = int(rng.integers(1, len(q)))
    same(b.calculate_qpoint_phonon_modes(q[:k]), 'batches', slice(0, k))
    p = rng.permutation(len(q))
    same(b.calculate_qpoint_phonon_modes(q[p]), 'permuted', p)
    mon.event('batches')
    f = b.calculate_qpoint_frequencies(q, useparallel=False)
    mon.close(f.frequencies.to('meV').magnitude, base.frequencies.to('meV').magnitude, 'frequencies-only', rtol=1e-10)
    mon.check(type(f).__name__ == 'QpointFrequencies' and type(base).__name__ == 'QpointPhononModes', 'types')


def reference_grid(F, cls, kw):
    import brille as br
    import spglib
    cell = F.crystal.to_spglib_cell()
    s = spglib.get_symmetry(cell)
    brillesafe.single()
    L = br.Lattice(cell[0], symmetry=br.Symmetry(s['rotations'], s['translations']), basis=br.Basis(cell[1], cell[2]), snap_to_symmetry=True)
    return cls(br.BrillouinZone(L), **kw)


def refuse(rng, mon):
    from euphonic.brille import BrilleInterpolator
    F, d = material(rng, mon)
    for g in ('grid', '', 'Trellis', None):
        mon.raises(lambda: build(F, mon, grid_type=g, grid_npts=30), ValueError, 'grid-type')
    b = build(F, mon, grid_npts=30)
    g = grid_of(b)
    mon.raises(lambda: BrilleInterpolator(F, g), TypeError, 'constructor:crystal')
    mon.raises(lambda: BrilleInterpolator(F.crystal, F), TypeError, 'constructor:grid')
    other = gen.make_crystal({'cell': d['cell'], 'atom_r': np.zeros((F.crystal.n_atoms + 1, 3)), 'atom_type': np.array(['H']*(F.crystal.n_atoms + 1)),
                              'atom_mass': np.ones(F.crystal.n_atoms + 1)})
    mon.raises(lambda: BrilleInterpolator(other, g), ValueError, 'constructor:atoms')
    import brille as br
    empty = reference_grid(F, br.BZTrellisQdc, {'node_volume_fraction': .1})
    mon.raises(lambda: BrilleInterpolator(F.crystal, empty), (ValueError, TypeError), 'constructor:unfilled')
    mon.check(BrilleInterpolator(F.crystal, g).calculate_qpoint_phonon_modes(np.zeros((2, 3))).n_qpts == 2, 'constructor')
    mon.event('refusal')


class Died(Exception):
    pass


DIED = {'runs': 0, 'died': 0}


def run_case(spec, mon):
    """Fork: brille (a dependency) may segfault or terminate in its own threads."""
    path = os.path.join(mon.scratch, 'child.pkl')
    if os.path.exists(path):
        os.remove(path)
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)     # ends the child even inside native code
            signal.alarm(60)
            sub = core.Mon(mon.tier, mon.seed, mon.scratch, mon.so)
            sub.case = spec
            err = None
            rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
            try:
                globals()[spec['kind']](rng, sub)
            except core.SkipCase:
                err = 'skip'
            except BaseException as e:
                import traceback
                from .. import load
                inside = [x for x in traceback.extract_tb(e.__traceback__) if os.path.realpath(x.filename).startswith(load.PKG + os.sep)]
                err = (type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:], bool(inside))
                last = traceback.extract_tb(e.__traceback__)[-1]
                if type(e) is RuntimeError and (os.path.basename(last.filename) in ('brille.py', 'c30.py') or '/brille/' in last.filename):
                    err = 'brille'      # raised by the extension module of brille
            with open(path + '.t', 'wb') as f:
                pickle.dump((sub.events, sub.evals, sub.violations, err), f)
            os.rename(path + '.t', path)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    fragile = spec['kind'] == 'exact' and spec['i'] % 4 == 2 or spec['kind'] == 'converge' and spec['i']//len(KINDS) % 3 == 2
    DIED['runs'] += not fragile
    events, evals, violations, err = {}, 0, [], 'brille'
    if os.path.exists(path):
        with open(path, 'rb') as f:
            events, evals, violations, err = pickle.load(f)
    if err == 'brille':
        mon.event('brille-crash')
        DIED['died'] += not fragile
        raise core.SkipCase
    for k, n in events.items():
        mon.event(k, n)
    mon.evals += evals
    for v in violations:
        mon.fail(v['key'], v['msg'], **{'detail': v['detail']})
    if err == 'skip':
        raise core.SkipCase
    if err:
        if err[3]:
            mon.fail('unexpected-exception:' + err[0], f'{err[0]}: {err[1]}', traceback=err[2])
        elif err[0] in ('ValueError', 'IndexError', 'KeyError', 'TypeError', 'AttributeError'):
            mon.fail('malformed-result:' + err[0], err[1], traceback=err[2])
        else:
            raise RuntimeError(err[2])
    mon.evaluated((spec['kind'], spec['i']))
    if spec['i'] < 3:
        mon.sample(spec)


def teardown(mon):
    if DIED['runs'] >= 8:
        mon.check(DIED['died'] <= .5*DIED['runs'], 'crashes', f'{DIED["died"]} of {DIED["runs"]} processes died')
