"""C32: reference data tables."""
import json
import os
import numpy as np
from .. import core, objs
from .c17 import table

RULE = ('every entry of the built-in tables against frozen copies; random user files (integer, real, complex, null and text entries, '
        'unicode keys, any unit, several properties) against an independent JSON parse; structure factors, PDOS and powder averages that '
        'take the table by name or path against the same calculation with an explicit dictionary; malformed files refused; distinct by (case, file)')
ASSUMPTIONS = ['entries that are lists or booleans are not judged', 'files are UTF-8 text in a locale that reads them as such']
REQUIRED_EVENTS = ['built-in', 'user-file', 'integer-entry', 'complex-entry', 'null-entry', 'text-entry', 'refused', 'structure-factor', 'pdos',
                   'powder', 'species-missing', 'path-argument', 'integer-in-built-in', 'complex-in-built-in']
BUILTIN = [('Sears1992', 'coherent_scattering_length', 'fm'), ('BlueBook', 'coherent_cross_section', 'barn'),
           ('BlueBook', 'incoherent_cross_section', 'barn')]
LEN = {'fm': 1e-15, 'angstrom': 1e-10, 'nm': 1e-9, 'pm': 1e-12, 'm': 1., 'bohr': 5.29177210903e-11}
AREA = {'barn': 1e-28, 'mbarn': 1e-31, 'fm**2': 1e-30, 'angstrom**2': 1e-20, 'nm**2': 1e-18}


def cases(tier, seed):
    n = {'quick': 260, 'thorough': 6000}[tier]
    return [{'i': i, 'w': w} for i in range(n//4) for w in ('user', 'calc', 'bad', 'built')[:4 if i < 6 else 3]]


def num(v):
    if isinstance(v, dict):
        return complex(v['real'], v['imag']) if '__complex__' in v else None
    if v is None or isinstance(v, (str, bool)):
        return None
    return v


def want(d):
    return {k: num(v) for k, v in d.items() if num(v) is not None}


def compare(mon, got, d, key, what):
    w = want(d)
    if not mon.check(isinstance(got, dict) and set(got) == set(w), key + ':entries',
                     f'{what}: missing {sorted(set(w) - set(got))[:6]}, extra {sorted(set(got) - set(w))[:6]}'):
        return
    from euphonic import ureg
    u = ureg(d['__units__']).units
    for k, v in w.items():
        q = got[k]
        mon.check(q.units == u, key + ':unit', f'{what} {k}: {q.units} instead of {u}')
        mon.check(complex(q.magnitude) == complex(v), key + ':value', f'{what} {k}: {q.magnitude} instead of {v}')
        if isinstance(v, complex):
            mon.event('complex-entry')
        elif isinstance(v, int):
            mon.event('integer-entry')


def entry(rng, real=False):
    k = rng.random()
    if k < .45:
        return float(rng.normal()*10**rng.uniform(-3, 3))
    if k < .65:
        return int(rng.integers(-20, 40))
    if k < .8 and not real:
        return {'__complex__': True, 'real': float(rng.normal()*5), 'imag': float(rng.normal()*5)}
    if k < .85:
        return float(rng.integers(0, 5))
    if k < .95:
        return None
    return 'unknown'


def userfile(rng, mon, name='t', props=None):
    keys = list(rng.choice(['H', 'D', '2H', 'He', 'Li', 'Yb', 'Sm', 'X1', 'Fe:2', 'α', '元素', 'a b', 'LA', 'oxygen', 'Zr', 'O'],
                           int(rng.integers(1, 14)), replace=False))
    P = {}
    for p, real, units in props or [(objs.pick(rng, ['coherent_scattering_length', 'size', 'my property', 'weight_2', 'b', 'σ']), False,
                                     objs.pick(rng, ['fm', 'barn', 'angstrom', 'kg', 'meV', '1/cm', 'amu', 'fm**2', 'kelvin', 'meter/second']))
                                    for _ in range(int(rng.integers(1, 4)))]:
        d = {str(k): entry(rng, real) for k in keys}
        items = list(d.items())
        items.insert(int(rng.integers(0, len(items) + 1)), ('__units__', units))
        P[p] = dict(items)
    doc = {'description': 'numbers', 'physical_property': P, 'reference': ['somewhere', 1999], 'n': None}
    if rng.random() < .5:
        doc = dict(reversed(doc.items()))
    path = os.path.join(mon.scratch, f'{name}{int(rng.integers(1e9))}' + objs.pick(rng, ['.json', '', '.dat']))
    with open(path, 'w') as f:
        json.dump(doc, f, ensure_ascii=bool(rng.random() < .5), indent=objs.pick(rng, [None, 1]))
    for d in P.values():
        for v in d.values():
            if v is None:
                mon.event('null-entry')
            elif v == 'unknown':
                mon.event('text-entry')
    return path, doc


def run_case(spec, mon):
    from euphonic.util import get_reference_data
    rng = core.rng_for(mon.seed, 'C32', spec['w'], spec['i'])
    if spec['w'] == 'built':
        for c, p, u in BUILTIN:
            d = table(c, p)
            for rep in range(2):
                got = get_reference_data(collection=c, physical_property=p) if rep else get_reference_data(c, p)
                compare(mon, got, d, 'built-in', f'{c} {p}')
                mon.event('integer-in-built-in', sum(type(v) is int for v in d.values()))
                mon.event('complex-in-built-in', sum(isinstance(v, dict) for v in d.values()))
                # a caller may do as it likes with the dictionary
                for k in list(got)[::2]:
                    del got[k]
        compare(mon, get_reference_data(), table(*BUILTIN[0][:2]), 'built-in', 'defaults')
        mon.evaluated((spec['i'], 'built'))
        mon.event('built-in')
    elif spec['w'] == 'user':
        path, doc = userfile(rng, mon)
        for p, d in doc['physical_property'].items():
            compare(mon, get_reference_data(collection=path, physical_property=p), d, 'user-file', p)
        cwd = os.getcwd()
        try:
            os.chdir(mon.scratch)
            compare(mon, get_reference_data(os.path.basename(path), p), d, 'user-file', 'relative path')
        finally:
            os.chdir(cwd)
        # the file is read again when it changes
        d2 = {k: (v if k == '__units__' else 2.5) for k, v in d.items()}
        with open(path, 'w') as f:
            json.dump({'physical_property': {p: d2}}, f)
        compare(mon, get_reference_data(path, p), d2, 'user-file', 'changed file')
        mon.evaluated((spec['i'], json.dumps(doc)), len(want(d)) > 0)
        mon.sample(doc['physical_property'])
        mon.event('user-file')
        os.remove(path)
    elif spec['w'] == 'bad':
        bad(spec, mon, rng, get_reference_data)
    else:
        calc(spec, mon, rng)


def bad(spec, mon, rng, get):
    path, doc = userfile(rng, mon)
    P = doc['physical_property']
    p = next(iter(P))
    kind = ['no-units', 'bad-unit', 'no-property-key', 'unknown-property', 'not-json', 'missing-file', 'unknown-collection', 'empty',
            'unknown-property-built-in', 'directory'][spec['i'] % 10]
    args = (path, p)
    if kind == 'no-units':
        del P[p]['__units__']
    elif kind == 'bad-unit':
        P[p]['__units__'] = objs.pick(rng, ['nonsense', 'fm**', 'barns per elephant', 'fn'])
    elif kind == 'no-property-key':
        doc['physical_properties'] = doc.pop('physical_property')
    elif kind == 'unknown-property':
        args = (path, p + 's')
    elif kind == 'missing-file':
        args = (path + '.not', p)
    elif kind == 'unknown-collection':
        args = (objs.pick(rng, ['sears1992', 'Sears', 'bluebook', '', 'Sears1992.json', 'sears-1992.json']), 'coherent_scattering_length')
    elif kind == 'unknown-property-built-in':
        args = objs.pick(rng, [('Sears1992', 'coherent_cross_section'), ('BlueBook', 'coherent_scattering_length'), ('BlueBook', 'absorption'),
                               ('Sears1992', ''), ('Sears1992', 'coherent_scattering_lengths')])
    elif kind == 'directory':
        args = (mon.scratch, p)
    text = json.dumps(doc)
    if kind == 'not-json':
        text = text[:int(rng.integers(1, len(text) - 1))]
    elif kind == 'empty':
        text = objs.pick(rng, ['', '{}', '[]', '{"physical_property": {}}'])
    with open(path, 'w') as f:
        f.write(text)
    mon.raises(lambda: get(*args), Exception, 'accepted:' + kind, f'{args[1]!r} {text[:100]}')
    os.remove(path)
    mon.evaluated((spec['i'], kind))
    mon.event('refused')


def si(v, unit, T):
    return num(v)*T[unit]


def calc(spec, mon, rng):
    from euphonic import ureg, Crystal, QpointPhononModes
    from euphonic.powder import sample_sphere_structure_factor, sample_sphere_pdos
    builtin = rng.random() < .5
    what = ['structure-factor', 'pdos', 'powder'][spec['i'] % 3]
    lengths = what == 'structure-factor' or what == 'powder' and rng.random() < .5
    weighting = objs.pick(rng, ['coherent', 'incoherent', 'coherent-plus-incoherent'])
    props = ['coherent_scattering_length'] if lengths else [w + '_cross_section' for w in (['coherent', 'incoherent'] if 'plus' in weighting else [weighting])]
    path = None
    if builtin:
        coll = 'Sears1992' if lengths else 'BlueBook'
        tabs = [table(coll, p) for p in props]
    else:
        unit = objs.pick(rng, sorted(LEN if lengths else AREA))
        path, doc = userfile(rng, mon, props=[(p, not lengths, unit) for p in props])
        tabs = [doc['physical_property'][p] for p in props]
        coll = path
        mon.event('path-argument')
    pool = sorted(set.intersection(*[set(want(t)) for t in tabs]))
    missing = spec['i'] % 7 == 3
    if missing:
        pool = sorted(set.union(*[set(t) for t in tabs]) - set(pool) - {'__units__'}) + ['Nh', 'xx']
        mon.event('species-missing')
    if not pool:
        raise core.SkipCase
    odd = [k for k in pool if any(type(t.get(k)) is not float for t in tabs)]
    n = int(rng.integers(1, 4))
    species = [objs.pick(rng, odd if odd and rng.random() < .5 else pool) for _ in range(n)]
    if missing:
        species[0] = objs.pick(rng, pool)
    base = objs.crystal(rng, n_atoms=n)
    cr = Crystal(base.cell_vectors, base.atom_r, np.array(species), rng.uniform(5, 200, n)*ureg('amu'))
    arg = coll

    def lens():
        return {s: si(tabs[0][s], tabs[0]['__units__'], LEN)*ureg('m') for s in species}

    def cs():
        return {s: sum(si(t[s], t['__units__'], AREA) for t in tabs)*ureg('m**2') for s in species}

    if what == 'powder':
        fc = simple_fc(rng, cr)
        q = float(rng.uniform(.2, 2))*ureg('1/angstrom')
        kw = {'npts': int(rng.integers(5, 20)), 'sampling': 'golden', 'use_c': False}
        if lengths:
            def run(a):
                return sample_sphere_structure_factor(fc, q, scattering_lengths=a, temperature=None, **kw).y_data.to('m**2/J').magnitude
            args = arg, None if missing else lens()
        else:
            kw['energy_bins'] = np.linspace(0, 200, 40)*ureg('meV')

            def run(a, w=weighting):
                return sample_sphere_pdos(fc, q, weighting=w, cross_sections=a, **kw).y_data.to('m**2/J/kg*kg').magnitude
            args = arg, None if missing else cs()
    else:
        m = objs.modes(rng, cr=cr, unit='meV')
        if lengths:
            def run(a):
                return m.calculate_structure_factor(scattering_lengths=a).structure_factors.to('m**2').magnitude
            args = arg, None if missing else lens()
        else:
            B = np.linspace(-1, 150, 30)*ureg('meV')

            def run(a):
                return m.calculate_pdos(B, weighting=weighting, cross_sections=a).y_data.to('m**2/J').magnitude
            args = arg, None if missing else cs()
    if missing:
        mon.raises(lambda: run(args[0]), Exception, 'species-without-entry', f'{what} {species}')
    else:
        # (an explicit dictionary is the total; the weighting then only sets the label)
        got, exp = run(args[0]), run(args[1])
        mon.close(got, exp, f'table-differs:{what}', f'{what} with {"file" if path else coll} {species}', rtol=1e-9)
        mon.check(np.isfinite(got).all(), 'finite')
        mon.event(what)
    if path:
        os.remove(path)
    mon.evaluated((spec['i'], what, tuple(species), str(builtin)))


def simple_fc(rng, cr):
    """Springs to the images in a 1x1x1 supercell: enough to have phonons."""
    from euphonic import ForceConstants, ureg
    n = cr.n_atoms
    a = rng.normal(size=(3*n, 3*n))
    f = (a@a.T + 3*n*np.eye(3*n))[None]
    return ForceConstants(cr, f*ureg('hartree/bohr**2')*.05, np.eye(3, dtype=int), np.zeros((1, 3), dtype=int))
