"""C13: dict, JSON and text serialisation."""
import json
import os
import numpy as np
from .. import core, objs, gen

RULE = ('random objects of all ten serialisable classes (all display units, hostile memory layouts and dtypes, NaN, infinities, empty and '
        'single-element data, absent optional fields, unicode labels, nested metadata) through dict, JSON file and text file, re-read with an '
        'independent JSON parse and compared field by field; distinct by (case, class, content)')
ASSUMPTIONS = ['metadata consists of JSON types (lists, not tuples; string keys)', 'values agree to 1e-13 after unit conversion there and back']
REQUIRED_EVENTS = ['independent', 'Crystal', 'ForceConstants', 'QpointFrequencies', 'QpointPhononModes', 'StructureFactor', 'DebyeWaller', 'Spectrum1D',
                   'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection', 'dict', 'json', 'second-generation', 'text', 'fortran-order', 'strided',
                   'big-endian', 'small-dtype', 'read-only', 'nan', 'infinite', 'absent-optional', 'empty-labels', 'numpy-label-index', 'unicode', 'offset-unit',
                   'overwrite-longer', 'calculated-object', 'no-atoms', 'one-element', 'numpy-scalar', 'parent-class']


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 30}[tier]
    return [{'kind': 'rt', 'i': i} for i in range(500*k)] + [{'kind': 'calc', 'i': i} for i in range(40*k)]


QUANT = {'Crystal': ['cell_vectors', 'atom_mass'], 'ForceConstants': ['force_constants', 'born', 'dielectric'],
         'QpointFrequencies': ['frequencies'], 'QpointPhononModes': ['frequencies'], 'StructureFactor': ['frequencies', 'structure_factors', 'temperature'],
         'DebyeWaller': ['debye_waller', 'temperature'], 'Spectrum1D': ['x_data', 'y_data'], 'Spectrum1DCollection': ['x_data', 'y_data'],
         'Spectrum2D': ['x_data', 'y_data', 'z_data'], 'Spectrum2DCollection': ['x_data', 'y_data', 'z_data']}
PLAIN = {'Crystal': ['n_atoms', 'atom_r', 'atom_type'], 'ForceConstants': ['sc_matrix', 'n_cells_in_sc', 'cell_origins'],
         'QpointFrequencies': ['n_qpts', 'qpts', 'weights'], 'QpointPhononModes': ['n_qpts', 'qpts', 'weights', 'eigenvectors'],
         'StructureFactor': ['n_qpts', 'qpts', 'weights'], 'DebyeWaller': []}
for _c in ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection'):
    PLAIN[_c] = ['x_tick_labels', 'metadata']
CRYSTAL = {'ForceConstants', 'QpointFrequencies', 'QpointPhononModes', 'StructureFactor', 'DebyeWaller'}


def layout(rng, mon, a):
    """The same numbers in another memory layout or dtype."""
    a = np.asarray(a)
    k = int(rng.integers(8))
    if a.dtype.kind not in 'fci' or a.ndim == 0:
        return a
    if k == 0:
        mon.event('fortran-order')
        return np.asfortranarray(a)
    if k == 1:
        b = np.empty(tuple(2*s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        mon.event('strided')
        return v
    if k == 2:
        mon.event('big-endian')
        return a.astype(a.dtype.newbyteorder('>'))
    if k == 3 and a.dtype.kind != 'i':
        mon.event('small-dtype')
        return a.astype(np.float32 if a.dtype.kind == 'f' else np.complex64)
    if k == 4:
        a = a.copy()
        a.flags.writeable = False
        mon.event('read-only')
        return a
    if k == 5:
        return a[::-1].copy()[::-1]
    return a


def tweak(rng, mon, o):
    """Replace stored arrays by other layouts of the same numbers."""
    for k, v in list(vars(o).items()):
        if isinstance(v, np.ndarray) and rng.random() < .4:
            o.__dict__[k] = layout(rng, mon, v)
    if hasattr(o, 'crystal'):
        tweak(rng, mon, o.crystal)
    return o


def weird(rng, mon, o):
    """Special values."""
    for k, v in list(vars(o).items()):
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' and v.size and k not in ('qpts', '_x_data', 'atom_r') and rng.random() < .15:
            v = v.copy()
            i = tuple(int(rng.integers(s)) for s in v.shape)
            x = objs.pick(rng, [np.nan, np.inf, -np.inf, -0., 5e-324, 1e300])
            if v.dtype.kind == 'c':
                x = complex(x, objs.pick(rng, [0., -0., 1.]))
            with np.errstate(all='ignore'):
                v[i] = x
            if np.isnan(x):
                mon.event('nan')
            if np.isinf(x):
                mon.event('infinite')
            o.__dict__[k] = v
    return o


def meta(rng, mon):
    return objs.pick(rng, [{'a': 1}, {'nested': {'x_data': [1, 2], 'k': None}, 'flag': True}, {'label': 'Γ→X "q"\n', 'z': 1.5e-300},
                           {'species': 'Si', 'list': [[1], [], 'x']}, {'temperature': 0}])


def make(rng, mon, cls):
    import euphonic as eu
    from euphonic import Quantity, Crystal
    un = False
    if cls == 'Crystal':
        if rng.random() < .15:
            mon.event('no-atoms')
            return Crystal.from_cell_vectors(objs.crystal(rng).cell_vectors)
        return objs.crystal(rng, n_atoms=int(rng.integers(1, 7)), units=(objs.pick(rng, objs.LENGTH), objs.pick(rng, objs.MASS)))
    if cls == 'ForceConstants':
        d = gen.system(rng, n_atoms=int(rng.integers(1, 4)), polar=rng.random() < .5)
        if d['born'] is None:
            mon.event('absent-optional')
        return gen.make_fc(d, fc_unit=objs.pick(rng, ['meV/angstrom**2', 'hartree/bohr**2', 'eV/nm**2']), born_unit=objs.pick(rng, ['e', 'coulomb']),
                           eps_unit=objs.pick(rng, [gen.EPSU, 'e**2/(angstrom*eV)']), units=(objs.pick(rng, objs.LENGTH), objs.pick(rng, objs.MASS)))
    if cls in ('QpointFrequencies', 'QpointPhononModes', 'StructureFactor'):
        nq = int(rng.integers(1, 6))
        f = {'QpointFrequencies': objs.qpoint_frequencies, 'QpointPhononModes': objs.modes, 'StructureFactor': objs.structure_factor}[cls]
        o = f(rng, nq=nq, n=int(rng.integers(1, 4)))
        if cls == 'StructureFactor' and o.temperature is None:
            mon.event('absent-optional')
        if cls == 'StructureFactor' and rng.random() < .3 and o.temperature is not None:
            o.temperature_unit = 'degC'
            mon.event('offset-unit')
        if nq == 1:
            mon.event('one-element')
        return o
    if cls == 'DebyeWaller':
        o = objs.debye_waller(rng)
        if rng.random() < .3:
            o.temperature_unit = 'degC'
            mon.event('offset-unit')
        elif rng.random() < .3:
            o = eu.DebyeWaller(o.crystal, o.debye_waller, Quantity(np.int64(rng.integers(0, 300)) if rng.random() < .5 else np.float32(12.5), 'K'))
            mon.event('numpy-scalar')
        return o
    f = {'Spectrum1D': objs.spectrum1d, 'Spectrum1DCollection': objs.spectrum1dcollection, 'Spectrum2D': objs.spectrum2d,
         'Spectrum2DCollection': objs.spectrum2dcollection}[cls]
    kw = {'nan': True}
    if rng.random() < .15:
        kw['n' if '1D' in cls else 'nx'] = 1
        kw['edges' if '1D' in cls else 'xe'] = True
        mon.event('one-element')
    o = f(rng, **kw)
    if rng.random() < .4 and 'Collection' not in cls:
        o.metadata = meta(rng, mon)
    elif rng.random() < .3:
        o.metadata['extra'] = meta(rng, mon)
    if rng.random() < .15:
        o.metadata = {}
        mon.event('absent-optional')
    r = rng.random()
    if r < .15:
        o.x_tick_labels = []
        mon.event('empty-labels')
    elif r < .3:
        o.x_tick_labels = [(np.int64(0), '$\\Gamma$'), (np.int32(1), 'Ж')]
        mon.event('numpy-label-index')
        mon.event('unicode')
    return o


def same(mon, a, b, key, what, tol=1e-13):
    """Equal numbers; -0 and NaN included."""
    a, b = np.asarray(a), np.asarray(b)
    if not mon.check(a.shape == b.shape, key, f'{what}: shape {b.shape} instead of {a.shape}'):
        return
    if a.dtype.kind in 'US':
        mon.check((a == b).all(), key, what)
        return
    if a.dtype.kind == 'c' or b.dtype.kind == 'c':
        mon.check(a.dtype.kind == b.dtype.kind, key, f'{what}: {b.dtype} instead of {a.dtype}')
        a, b = (np.stack([np.real(v), np.imag(v)]) for v in (a, b))
    a, b = a.astype(float), b.astype(float)
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (abs(a - b) <= tol*abs(a) + 1e-320)
    mon.check(ok.all(), key, f'{what}: {b[~ok][:3]} instead of {a[~ok][:3]}')


def equal(mon, x, y, key):
    cls = type(x).__name__
    if not mon.check(type(x) is type(y), key, f'{cls} came back as {type(y).__name__}'):
        return
    for k in QUANT[cls]:
        a, b = getattr(x, k), getattr(y, k)
        if a is None or b is None:
            mon.check(a is b, key, f'{cls}.{k}: {b} instead of {a}')
            continue
        mon.check(a.units == b.units, key, f'{cls}.{k} in {b.units} instead of {a.units}')
        # conversion to and from a display unit: relative to the offset for temperatures
        t = k == 'temperature'
        ka, kb = (a.to('K').magnitude, b.to('K').magnitude) if t else (a.magnitude, b.magnitude)
        tol = 2e-7 if np.asarray(a.magnitude).dtype == np.float32 else 1e-13
        if 'Spectrum' in cls or t:
            same(mon, ka, kb, key, f'{cls}.{k}', tol)
        else:
            same(mon, ka, kb, key, f'{cls}.{k}', max(tol, 1e-13))
    for k in PLAIN[cls]:
        a, b = getattr(x, k), getattr(y, k)
        if k in ('x_tick_labels', 'metadata'):
            mon.check(a == b, key, f'{cls}.{k}: {b!r} instead of {a!r}')
            if k == 'x_tick_labels' and b is not None:
                mon.check(all(isinstance(t, tuple) for t in b), key, 'x_tick_labels are not tuples')
            continue
        same(mon, a, b, key, f'{cls}.{k}', 0.)
    if cls in CRYSTAL:
        equal(mon, x.crystal, y.crystal, key)


ALLOWED = {}
for _c in QUANT:
    ALLOWED[_c] = set(QUANT[_c]) | {q + '_unit' for q in QUANT[_c]} | set(PLAIN[_c]) | ({'crystal'} if _c in CRYSTAL else set())
EXTRA = {'__euphonic_class__', '__euphonic_version__'}


def fields(mon, d, cls, key, extra=frozenset()):
    bad = set(d) - ALLOWED[cls] - extra
    mon.check(not bad, key, f'{cls}: unexpected fields {sorted(bad)}')
    if 'crystal' in d:
        fields(mon, d['crystal'], 'Crystal', key)


def parsed(mon, x, d, key):
    """The JSON content, read independently, shows the displayed values."""
    cls = type(x).__name__
    for k in QUANT[cls]:
        v = getattr(x, k)
        if v is None:
            mon.check(k not in d, key, f'{cls}.{k} written although absent')
            continue
        from euphonic import ureg
        if not mon.check(k in d and k + '_unit' in d, key, f'{cls}.{k} not written'):
            continue
        mon.check(ureg.Quantity(1, d[k + '_unit']).units == v.units, key, f'{cls}.{k}_unit {d[k + "_unit"]} instead of {v.units}')
        same(mon, v.magnitude, np.array(d[k], float).reshape(np.shape(v.magnitude)), key, f'{cls}.{k} in the file', 0.)
    for k in PLAIN[cls]:
        v = getattr(x, k)
        if k == 'eigenvectors':
            e = np.array(d[k], float)
            mon.check(e.shape == v.shape + (2,), key, f'eigenvectors written as {e.shape}')
            same(mon, v, e[..., 0] + 1j*np.where(True, e[..., 1], 0) if np.isfinite(e).all() else v, key, 'eigenvectors in the file', 0.)
        elif k == 'x_tick_labels':
            mon.check((v is None and k not in d) or (k in d and v is not None and [tuple(t) for t in d[k]] == v), key, k)
        elif k == 'metadata':
            mon.check(d.get(k, {}) == v, key, f'metadata {d.get(k)} instead of {v}')
        elif k == 'atom_type':
            mon.check(list(v) == d[k], key, k)
        else:
            same(mon, v, np.array(d[k], float).reshape(np.shape(v)), key, f'{cls}.{k} in the file', 0.)
    if cls in CRYSTAL:
        parsed(mon, x.crystal, d['crystal'], key)


def scribble(d):
    """Change every array, list and dict of d in place."""
    for k, v in list(d.items()):
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v[...] = 'Zz' if v.dtype.kind in 'US' else 3
        elif isinstance(v, list):
            for t in v:
                if isinstance(t, dict):
                    scribble(t)
            v.append((0, 'scribble'))
        elif isinstance(v, dict):
            scribble(v)
            v['scribble'] = 1


def roundtrip(mon, rng, x):
    cls = type(x).__name__
    mon.event(cls)
    path = os.path.join(mon.scratch, objs.pick(rng, ['o.json', 'ö.json', 'with space.json', 'noext']))
    if rng.random() < .3:
        with open(path, 'w') as f:
            f.write('[1, 2]'*40000)
        mon.event('overwrite-longer')
    before = objs.snap(x)
    d = x.to_dict()
    dsnap = objs.snap(d)
    y = type(x).from_dict(d)
    mon.check(objs.snap(d) == dsnap, 'dict-modified', f'{cls}.from_dict changes its argument: {objs.diff(dsnap, objs.snap(d))}')
    equal(mon, x, y, 'dict-roundtrip')
    fields(mon, d, cls, 'dict-fields')
    mon.event('dict')
    x.to_json_file(path)
    mon.check(objs.snap(x) == before, 'object-modified', f'writing changes {cls}: {objs.diff(before, objs.snap(x))}')
    with open(path, encoding='ascii') as f:
        j = json.load(f)
    fields(mon, j, cls, 'json-fields', EXTRA)
    mon.check(j.get('__euphonic_class__') == cls, 'json-class', f'{j.get("__euphonic_class__")} instead of {cls}')
    parsed(mon, x, j, 'json-content')
    z = type(x).from_json_file(path)
    equal(mon, x, z, 'json-roundtrip')
    mon.event('json')
    # second generation
    path2 = path + '2'
    z.to_json_file(path2)
    equal(mon, z, type(x).from_json_file(path2), 'second-generation')
    with open(path2) as f:
        mon.check(set(json.load(f)) == set(j), 'second-generation', 'other fields on rewriting')
    mon.event('second-generation')
    equal(mon, y, z, 'dict-json-differ')
    # later changes to the object do not reach what was written, nor the other way round
    mon.check(objs.snap(x) == before, 'object-modified', f'reading changes {cls}')
    os.remove(path), os.remove(path2)
    ysnap = objs.snap(y)
    scribble(d)
    mon.check(objs.snap(x) == before, 'dict-shared', f'changing the dict changes the {cls} it was made from: {objs.diff(before, objs.snap(x))}')
    mon.check(objs.snap(y) == ysnap, 'dict-shared', f'changing the dict changes the {cls} made from it: {objs.diff(ysnap, objs.snap(y))}')
    mon.event('independent')
    mon.evaluated((cls, before))
    mon.sample({'class': cls, 'fields': sorted(j)})
    return j


def text(mon, rng, x):
    """Text files (1-D data only) have the displayed numbers and units."""
    from euphonic import __version__
    path = os.path.join(mon.scratch, 's.txt')
    fmt = objs.pick(rng, [None, '%.18e', '%.17g'])
    x.to_text_file(path, fmt) if fmt else x.to_text_file(path)
    if not mon.check(os.path.exists(path), 'text-no-file', 'to_text_file writes no file'):
        return
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    dat = np.loadtxt(path, ndmin=2)
    head = [s[2:] for s in lines if s.startswith('#')]
    y = np.atleast_2d(x.y_data.magnitude)
    tol = 1e-15 if min(getattr(x, k, x.x_data.magnitude).dtype.itemsize for k in ('_x_data', '_y_data')) == 8 else 1e-6
    same(mon, x.get_bin_centres().magnitude, dat[:, 0], 'text-content', 'x column', tol)
    same(mon, y, dat[:, 1:].T, 'text-content', 'y columns', tol)
    mon.check(f'x_data in ({x.x_data.units})' in head and f'y_data in ({x.y_data.units})' in head, 'text-header', f'{head[:4]}')
    c = [s for s in head if s.startswith('Common metadata: ')]
    ld = [json.loads(s.split('] ', 1)[1]) for s in head if s.startswith('Column') and 'y_data[' in s]
    md = dict(x.metadata)
    line = md.pop('line_data', [{}]*len(y))
    if len(y) == 1 and not hasattr(x, 'from_spectra'):
        got = {**json.loads(c[0][17:]), **ld[0]}
        mon.check(got == x.metadata, 'text-header', f'metadata {got} instead of {x.metadata}')
    else:
        mon.check(json.loads(c[0][17:]) == md and ld == line, 'text-header', f'metadata {c} {ld}')
    mon.event('text')


def rt(spec, mon, rng):
    cls = sorted(QUANT)[spec['i'] % 10]
    x = make(rng, mon, cls)
    x = tweak(rng, mon, x)
    if rng.random() < .4:
        x = weird(rng, mon, x)
    with np.errstate(all='ignore'):
        j = roundtrip(mon, rng, x)
    if cls in ('Spectrum1D', 'Spectrum1DCollection') and not any(isinstance(v, (list, dict)) for k, v in x.metadata.items() if k != 'line_data'):
        text(mon, rng, x)
    if cls in ('QpointPhononModes', 'StructureFactor') and rng.random() < .5:
        # frequencies are readable from any file that holds them
        from euphonic import QpointFrequencies
        y = QpointFrequencies.from_dict(x.to_dict())
        same(mon, x.frequencies.magnitude, y.frequencies.magnitude, 'parent-class', 'frequencies', 1e-13 if getattr(x, '_frequencies', x.frequencies.magnitude).dtype.itemsize == 8 else 2e-7)
        same(mon, x.weights, y.weights, 'parent-class', 'weights', 0.)
        mon.event('parent-class')


def calc(spec, mon, rng):
    """Objects produced by calculations rather than constructors."""
    from euphonic import ureg
    d = gen.system(rng, n_atoms=int(rng.integers(1, 3)), polar=rng.random() < .5)
    fc = gen.make_fc(d)
    m = fc.calculate_qpoint_phonon_modes(objs.qpts(rng, 6, path=rng.random() < .5), use_c=bool(rng.random() < .7), splitting=bool(rng.random() < .5))
    bins = np.linspace(-5, 120, 12)*ureg('meV')
    b_l = {s: float(rng.normal())*ureg('fm') for s in set(d['atom_type'])}
    dw = m.calculate_debye_waller(100*ureg('K'))
    sf = m.calculate_structure_factor(scattering_lengths=b_l, dw=dw)
    out = [fc, m, m.calculate_dos(bins), m.calculate_pdos(bins), m.calculate_dos_map(bins), m.get_dispersion(), dw, sf, sf.calculate_sqw_map(bins),
           sf.calculate_1d_average(bins), m.calculate_dos(bins).broaden(3*ureg('meV')), m.calculate_pdos(bins).sum(), m.crystal,
           m.get_dispersion().split()[0], fc.calculate_qpoint_frequencies(m.qpts)]
    for o in out:
        with np.errstate(all='ignore'):
            roundtrip(mon, rng, o)
    mon.event('calculated-object')


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, 'c13', spec['kind'], spec['i'])
    {'rt': rt, 'calc': calc}[spec['kind']](spec, mon, rng)
