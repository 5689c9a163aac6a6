"""C08: results depend on current data only; inputs and objects are not modified."""
import numpy as np
from .. import gen, ref, phon, core, objs

RULE = ('random histories (5-10 operations: calculations with any options, assignment of force constants, Born charges, '
        'dielectric tensor, unit changes, serialisation) on one ForceConstants object, every calculation compared with a freshly built object holding '
        'the current data; and random method calls on every other class with deep snapshots of the object and of all '
        'arguments before and after; distinct by history')
ASSUMPTIONS = ['tolerance 1e-11 of the dynamical-matrix scale between the used and the fresh object (same code path)',
               'private caches, the memory layout of attributes and in-place reorder_frequencies may change',
               'assigning to attributes other than force_constants/born/dielectric/units after a calculation is not covered']
REQUIRED_EVENTS = ['calculations-compared', 'assign-fc', 'assign-born', 'assign-dielectric', 'unit-change', 'asr-after-assignment',
                   'dipole-after-assignment', 'methods-snapshot', 'arguments-snapshot', 'plots', 'repeat-call-equal',
                   'mutated-source-array', 'internal-unit-arguments']


def cases(tier, seed):
    n = {'quick': 220, 'thorough': 5000}[tier]
    m = {'quick': 420, 'thorough': 9000}[tier]
    return ([{'kind': 'fc', 'i': i} for i in range(n)] + [{'kind': 'obj', 'i': i} for i in range(m)])


def same_modes(mon, key, a, b, sc):
    from euphonic import QpointPhononModes
    wa, wb = (ref.w2(x.frequencies.to('meV').magnitude) for x in (a, b))
    ok = mon.close(wa, wb, key, 'frequencies of the used object against a fresh one', rtol=0, atol=1e-11*sc)
    mon.close(a.qpts, b.qpts, key + ':qpts', rtol=0)
    mon.close(a.weights, b.weights, key + ':weights', rtol=1e-14)
    if ok and isinstance(a, QpointPhononModes):
        ea, eb = phon.evecs(a), phon.evecs(b)
        for i in range(len(wa)):
            mon.close((ea[i].T*wa[i])@ea[i].conj(), (eb[i].T*wb[i])@eb[i].conj(), key + ':eigenvectors', rtol=0, atol=3e-11*sc)
    return ok


def nocache(fc):
    """Values (not layout) of the public data of a ForceConstants."""
    return objs.snap(fc.to_dict())


def run_fc(spec, mon, rng):
    from euphonic import ureg
    polar = rng.random() < .7
    d = gen.system(rng, polar=polar, nmax=6, n_atoms=int(rng.integers(2, 4)), stable=rng.random() > .2, asr=False)
    crystal = gen.make_crystal(d)
    args = [np.array(d['fc']), np.array(d['scm']), np.array(d['origins'])]
    fc = gen.make_fc(d)
    m = ref.Model(d)
    sc = phon.scale(m)*3
    cur = dict(d)
    dirty = False
    trace = []
    for step in range(int(rng.integers(5, 11))):
        op = objs.pick(rng, ['calc']*5 + ['fc', 'born', 'eps', 'unit', 'serial'])
        if op == 'fc':
            s = gen.system(rng, polar=False, nmax=1, sc_kind='unit', n_atoms=1)  # just advances the generator
            del s
            new = gen.spring_fc(rng, d['cell'], d['atom_r'], d['scm'], d['origins'], asr=rng.random() < .5,
                                noise=10**rng.uniform(-4, -2.5))
            fc.force_constants = (new*ureg('hartree/bohr**2')).to(objs.pick(rng, ['hartree/bohr**2', 'eV/angstrom**2']))
            cur['fc'] = new
            dirty = True
            mon.event('assign-fc')
        elif op == 'born' and polar:
            z = rng.normal(size=d['born'].shape)*.4 + np.eye(3)*rng.uniform(-2, 2, (len(d['atom_r']), 1, 1))
            z -= z.mean(axis=0)
            fc.born = (z*ureg('e')).to(objs.pick(rng, ['e', 'coulomb']))
            cur['born'] = z
            dirty = True
            mon.event('assign-born')
        elif op == 'eps' and polar:
            e = rng.normal(size=(3, 3))*.3
            e = np.eye(3)*rng.uniform(1.5, 6) + .5*(e + e.T)
            fc.dielectric = e*ureg(gen.EPSU)
            cur['eps'] = e
            dirty = True
            mon.event('assign-dielectric')
        elif op == 'unit':
            at = objs.pick(rng, [('force_constants_unit', 'eV/angstrom**2'), ('force_constants_unit', 'hartree/bohr**2')]
                           + ([('born_unit', 'coulomb'), ('born_unit', 'e')] if polar else []))
            setattr(fc, *at)
            if rng.random() < .5:
                fc.crystal.cell_vectors_unit = objs.pick(rng, ['angstrom', 'bohr', 'nm'])
            mon.event('unit-change')
        elif op == 'serial':
            before = nocache(fc)
            fc.to_dict()
            fc.crystal.reciprocal_cell()
            mon.check(nocache(fc) == before, 'to_dict-modified-object', objs.diff(before, nocache(fc)) or '')
        elif op == 'calc':
            nq = int(rng.integers(1, 4))
            q = gen.qpoints(rng, nq)
            kw = {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))], 'use_c': bool(rng.random() < .7),
                  'n_threads': int(rng.integers(1, 3)), 'dipole': bool(rng.random() < .8),
                  'splitting': bool(rng.random() < .6), 'insert_gamma': bool(rng.random() < .3),
                  'reduce_qpts': bool(rng.random() < .7), 'dipole_parameter': float(rng.choice([1., 1., .8, 1.3])),
                  'return_mode_gradients': bool(rng.random() < .2)}
            w = rng.uniform(.1, 1, nq) if rng.random() < .3 else None
            name = objs.pick(rng, ['calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies'])
            fresh = gen.make_fc(cur)
            arg = {'q': q, 'w': w}
            before, ab = nocache(fc), objs.snap(arg)
            a = getattr(fc, name)(q, weights=w, **kw)
            mon.check(nocache(fc) == before, 'calculation-modified-object', f'{name} {kw}: {objs.diff(before, nocache(fc))}')
            mon.check(objs.snap(arg) == ab, 'calculation-modified-arguments', f'{name} {kw}: {objs.diff(ab, objs.snap(arg))}')
            mon.event('arguments-snapshot')
            b = getattr(fresh, name)(q.copy(), weights=None if w is None else w.copy(), **kw)
            if kw['return_mode_gradients']:
                (a, ga), (b, gb) = a, b
                u = 'hartree*bohr'
                wb = np.abs(ref.w2(b.frequencies.to('meV').magnitude))
                # only well separated, non-zero modes have determined gradients
                x = np.sort(ref.w2(b.frequencies.to('meV').magnitude), axis=1)
                g = np.min(np.abs(np.diff(x, axis=1)), axis=1) > 1e-4*sc
                sel = (wb > 1e-4*sc) & g[:, None]
                mon.close(ga.to(u).magnitude[sel], gb.to(u).magnitude[sel], 'history:gradients', rtol=1e-6, atol=1e-9)
            same_modes(mon, 'history', a, b, sc)
            mon.event('calculations-compared')
            if dirty:
                mon.event('asr-after-assignment', kw['asr'] is not None)
                mon.event('dipole-after-assignment', polar and kw['dipole'])
            trace.append((name[10:], {k: v for k, v in kw.items() if k in ('asr', 'dipole', 'use_c', 'splitting')}))
        if op != 'calc':
            trace.append(op)
    mon.evaluated((spec, str(trace)))
    mon.sample({**gen.describe(d), 'history': trace[:8]})


def obj_calls(rng, mon):
    """(label, object, list of (name, callable, argument list))"""
    from euphonic import ureg, plot
    import matplotlib.pyplot as plt
    kind = objs.pick(rng, ['modes', 'modes', 'qpf', 'sf', 'dw', 's1', 's1c', 's2', 's2c', 'crystal'])
    # internal units too: there a conversion returns the caller's own array
    eu = lambda: objs.pick(rng, ['meV', 'hartree', 'hartree', '1/cm', 'THz'])
    E = ureg.Quantity(np.linspace(0, 130, int(rng.integers(5, 40))), 'meV').to(eu())
    Es = ureg.Quantity(np.linspace(-130, 130, int(rng.integers(5, 40))), 'meV').to(eu())
    T = ureg.Quantity(float(rng.uniform(5, 300)), 'K')
    mon.event('internal-unit-arguments', (str(E.units) == 'hartree') + (str(Es.units) == 'hartree'))
    calls = []

    def add(name, *a, **k):
        calls.append((name, a, k))
    if kind in ('modes', 'qpf', 'sf'):
        o = {'modes': objs.modes, 'qpf': objs.qpoint_frequencies, 'sf': objs.structure_factor}[kind](
            rng, imaginary=False, path=rng.random() < .5)
        mw = ureg.Quantity(rng.uniform(.5, 5, o.frequencies.shape)*10.**rng.integers(-3, 1, o.frequencies.shape), 'meV').to(eu())
        add('calculate_dos', E)
        add('calculate_dos', E, mode_widths=mw)
        add('calculate_dos', E, mode_widths=mw, adaptive_method='fast')
        add('calculate_dos_map', E)
        add('calculate_dos_map', E, mode_widths=mw)
        add('get_dispersion')
        add('to_dict')
        if kind == 'modes':
            for wt in (None, 'coherent', 'incoherent', 'coherent-plus-incoherent'):
                add('calculate_pdos', E, weighting=wt)
            add('calculate_pdos', E, mode_widths=mw)
            cs = {t: ureg.Quantity(float(rng.uniform(1, 9)), 'barn') for t in o.crystal.atom_type}
            if rng.random() < .5:
                cs = {t: v.to('bohr**2') for t, v in cs.items()}
            add('calculate_pdos', E, weighting='coherent', cross_sections=cs)
            add('calculate_debye_waller', T, symmetrise=False)
            add('calculate_debye_waller', T, frequency_min=ureg.Quantity(20., 'meV'))
            add('calculate_structure_factor')
            sl = {t: ureg.Quantity(float(rng.uniform(1, 9)), 'fm') for t in o.crystal.atom_type}
            if rng.random() < .5:
                sl = {t: v.to('bohr') for t, v in sl.items()}
            add('calculate_structure_factor', scattering_lengths=sl, dw=objs.debye_waller(rng, cr=o.crystal))
            add('to_qpoint_frequencies')
        if kind == 'sf':
            kw = {} if o.temperature is not None else {'temperature': T}
            add('calculate_sqw_map', Es, **kw)
            add('calculate_sqw_map', Es, calc_bose=False)
            add('calculate_1d_average', Es, weights=rng.uniform(.1, 1, o.n_qpts), **kw)
            add('calculate_1d_average', Es, **kw)
            add('to_qpoint_frequencies')
    elif kind == 'dw':
        o = objs.debye_waller(rng)
        add('to_dict')
    elif kind == 'crystal':
        o = objs.crystal(rng)
        for n in ('reciprocal_cell', 'cell_volume', 'get_mp_grid_spec', 'to_spglib_cell', 'get_species_idx',
                  'get_symmetry_equivalent_atoms', 'to_dict'):
            add(n)
    elif kind == 's1':
        o = objs.spectrum1d(rng, regular=True, n=int(rng.integers(4, 30)))
        w = ureg.Quantity(float(rng.uniform(1, 9)), o.x_data.units)
        for sh in ('gauss', 'lorentz'):
            add('broaden', w, shape=sh)
        o.x_data.shape != o.y_data.shape[-1:] and add('broaden', _const(w))
        for n in ('get_bin_edges', 'get_bin_centres', 'get_bin_widths', 'to_dict', 'copy'):
            add(n)
        add('split', indices=[2])
        add('__mul__', 2.5)
        add('__add__', o.copy())
        add('to_text_file', mon.scratch + '/t.txt')
        calls.append((plot.plot_1d, (o,), {'ymin': 0., 'title': 'a', 'labels': ['u']}))
    elif kind == 's1c':
        o = objs.spectrum1dcollection(rng, regular=True, n=int(rng.integers(4, 30)), m=int(rng.integers(2, 6)))
        w = ureg.Quantity(float(rng.uniform(1, 9)), o.x_data.units)
        for sh in ('gauss', 'lorentz'):
            add('broaden', w, shape=sh)
        o.x_data.shape != o.y_data.shape[-1:] and add('broaden', _const(w))
        add('__getitem__', 0)
        add('__getitem__', slice(0, 1))
        add('__getitem__', [1, 0, 1])
        for n in ('sum', 'copy', 'to_dict', 'get_bin_edges'):
            add(n)
        add('group_by', 'species')
        add('split', indices=[2])
        add('__mul__', 2.5)
        add('__add__', o.copy())
        add('to_text_file', mon.scratch + '/t.txt')
        calls.append((plot.plot_1d, (o,), {'ymin': 0., 'ls': '--'}))
        calls.append((plot.plot_1d, (o.split(indices=[2]),), {}))
    elif kind == 's2':
        o = objs.spectrum2d(rng, xreg=True, yreg=True, nx=int(rng.integers(4, 12)), xu='1/angstrom', yu='meV')
        xw, yw = ureg.Quantity(.7, '1/angstrom'), ureg.Quantity(2., 'meV')
        add('broaden', x_width=xw)
        add('broaden', y_width=yw, shape='lorentz')
        add('broaden', x_width=xw, y_width=_const(yw))
        for n in ('copy', 'to_dict', 'get_bin_edges', 'get_bin_centres'):
            add(n)
        add('split', indices=[2])
        add('__mul__', 2.5)
        calls.append((plot.plot_2d, (o,), {'cmap': 'viridis', 'vmin': 0.}))
        from euphonic.spectra import apply_kinematic_constraints
        calls.append((apply_kinematic_constraints, (o,), {'e_i': ureg.Quantity(30., 'meV'), 'angle_range': (3., 120.)}))
    else:
        o = objs.spectrum2dcollection(rng, m=int(rng.integers(2, 5)), nx=int(rng.integers(3, 10)))
        add('__getitem__', 1)
        add('__getitem__', [1, 0])
        for n in ('sum', 'copy', 'to_dict'):
            add(n)
        add('group_by', 'species')
        add('split', indices=[2])
        add('__add__', o.copy())
    return kind, o, calls, plt


def _const(w):
    def f(x):
        return np.ones_like(x.magnitude)*w
    return f


def result_snap(r):
    import matplotlib.figure
    if isinstance(r, matplotlib.figure.Figure):
        return tuple((tuple(objs.snap(np.asarray(ln.get_xydata())) for ln in ax.lines), len(ax.images)) for ax in r.axes)
    return objs.snap(r)


def run_obj(spec, mon, rng):
    kind, o, calls, plt = obj_calls(rng, mon)
    order = rng.permutation(len(calls))
    first = {}
    hist = []
    for rnd in range(2):
        for k in order if rnd == 0 else order[::-1][:4]:
            name, a, kw = calls[k]
            before, ab = objs.snap(o), objs.snap([list(a), kw])
            fn = name if callable(name) else getattr(o, name)
            lab = f'{kind}.{name if isinstance(name, str) else name.__name__}'
            if lab in ('sf.calculate_debye_waller',):
                continue
            try:
                r = fn(*a, **kw)
            finally:
                plt.close('all')
            after, aa = objs.snap(o), objs.snap([list(a), kw])
            mon.check(after == before, f'object-modified:{lab}', f'{lab} changed the object: {objs.diff(before, after)}')
            mon.check(aa == ab, f'arguments-modified:{lab}', f'{lab} changed its arguments: {objs.diff(ab, aa)}')
            mon.event('methods-snapshot')
            mon.event('arguments-snapshot')
            mon.event('plots', callable(name) and 'plot' in name.__name__)
            rs = result_snap(r)
            if k in first:
                mon.check(rs == first[k], f'repeat-call-differs:{lab}', f'{lab} after {hist[-5:]}: {objs.diff(first[k], rs)}')
                mon.event('repeat-call-equal')
            first[k] = rs
            hist.append(lab)
            # a result must be independent of the source: overwrite its arrays
            if isinstance(name, str) and name in ('copy', 'split', '__getitem__', '__mul__', '__add__', 'broaden', 'sum', 'to_dict', 'group_by'):
                wreck(r)
                mon.check(objs.snap(o) == before, f'result-shares-data:{lab}', f'writing into the result of {lab} changed '
                          f'the object: {objs.diff(before, objs.snap(o))}')
                mon.event('mutated-source-array')
    mon.evaluated((spec, kind))
    mon.sample({'class': type(o).__name__, 'calls': hist[:12]})


def wreck(r):
    """Overwrite the arrays and metadata inside a result."""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind in 'fc':
            r[...] = -7.25
    elif isinstance(r, dict):
        for k in list(r):
            wreck(r[k])
        r['wrecked'] = 1
    elif isinstance(r, list):
        for v in r:
            wreck(v)
        r.append(('wrecked',))
    elif hasattr(r, 'magnitude') and hasattr(r, 'units'):
        wreck(r.magnitude)
    elif type(r).__module__.startswith('euphonic'):
        for k, v in vars(r).items():
            if k in ('crystal',):
                continue
            wreck(v)


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    (run_fc if spec['kind'] == 'fc' else run_obj)(spec, mon, rng)
