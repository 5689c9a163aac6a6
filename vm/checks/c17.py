"""C17: partial DOS decompose the total DOS and carry the cross sections."""
import json
import os
import numpy as np
from .. import core, objs
from .c16 import hist

RULE = ('random modes, species arrangements, bins, widths and weightings (reference tables read from frozen copies, '
        'user dictionaries in random area units) through calculate_pdos; every atom line against a per-mode count weighted by '
        '|e|^2, and species sums against the total DOS; distinct by (case, weighting, species)')
ASSUMPTIONS = ['modes at bin edges are avoided (C16 judges those)',
               'adaptive partial DOS are compared with a per-mode sum for the reference method and through additivity for the fast one']
REQUIRED_EVENTS = ['default-minimum', 'unweighted', 'coherent', 'incoherent', 'coherent-plus-incoherent', 'user-cross-sections', 'sum-is-dos',
                   'group-by-species', 'adaptive-reference', 'adaptive-fast', 'repeated-species', 'bad-cross-section-units', 'table-file']
WEIGHTINGS = [None, None, 'coherent', 'incoherent', 'coherent-plus-incoherent']
_tab = {}


def cases(tier, seed):
    return [{'i': i} for i in range({'quick': 500, 'thorough': 15000}[tier])]


def table(coll, prop):
    if (coll, prop) not in _tab:
        fn = {'Sears1992': 'sears-1992.json', 'BlueBook': 'bluebook.json'}[coll]
        with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data', fn)) as f:
            d = json.load(f)['physical_property'][prop]
        assert d['__units__'] in ('barn', 'mbarn', 'fm', 'fm**2', 'amu'), d['__units__']
        _tab[coll, prop] = d
    return _tab[coll, prop]


def mbarn(d, s):
    v = d[s]
    if isinstance(v, dict):
        v = complex(v['real'], v['imag']) if 'real' in v else v['value']
    return v*{'barn': 1e3, 'mbarn': 1.}[d['__units__']]


def run_case(spec, mon):
    from euphonic import ureg, QpointPhononModes, Spectrum1DCollection
    rng = core.rng_for(mon.seed, spec['i'])
    sp = list(rng.choice(['H', 'Li', 'C', 'O', 'Si', 'Ti', 'Fe', 'La', 'Pb'], int(rng.integers(1, 4)), replace=False))
    c = objs.crystal(rng, species=sp)
    n = c.n_atoms
    _, q, f, w = objs.qpf_args(rng, nq=int(rng.integers(1, 6)), cr=c)
    e = objs.evecs(rng, len(q), n)
    if rng.random() < .1:
        e *= rng.uniform(.5, 1.5)      # weights must come from |e|^2 itself
    o = QpointPhononModes(c, q, f, e, weights=w)
    w = np.full(len(q), 1/len(q)) if w is None else w
    fm = f.to('meV').magnitude
    unit = objs.pick(rng, objs.ENERGY)
    lo, hi = fm.min() - 3, fm.max() + 3
    if rng.random() < .3:
        lo, hi = sorted(rng.uniform(lo, hi, 2) + [0, 2])
    nb = int(rng.integers(2, 60))
    bins = np.linspace(lo, hi, nb + 1)
    if np.min(np.abs(fm[..., None] - bins)) < 1e-7:
        raise core.SkipCase
    B = (bins*ureg('meV')).to(unit)
    wt = objs.pick(rng, WEIGHTINGS)
    kw = {} if wt is None else {'weighting': wt}
    types = [str(t) for t in c.atom_type]
    mass = c.atom_mass.to('amu').magnitude
    mon.event('repeated-species', len(set(types)) < len(types))
    fac = np.ones(n)
    if rng.random() < .4:
        v = {s: float(rng.uniform(.01, 40)) for s in set(types) | {'Xe'}}
        au = objs.pick(rng, objs.AREA)
        kw['cross_sections'] = {s: (x*ureg('barn')).to(au if rng.random() < .7 else objs.pick(rng, objs.AREA)) for s, x in v.items()}
        fac = np.array([v[s]*1e3 for s in types])*mass.mean()/mass
        mon.event('user-cross-sections')
        area = True
    elif wt is not None:
        coll = 'BlueBook'
        if rng.random() < .3:
            kw['cross_sections'] = coll
        elif rng.random() < .4:
            fn = os.path.join(mon.scratch, 'xs.json')
            cu = objs.pick(rng, ['barn', 'fm**2', 'angstrom**2'])
            d = {k: {s: float(rng.uniform(.01, 80)) for s in types} for k in ('coherent_cross_section', 'incoherent_cross_section')}
            with open(fn, 'w') as fd:
                json.dump({'physical_property': {k: dict(v, __units__=cu, Zz=None) for k, v in d.items()}}, fd)
            kw['cross_sections'] = coll = fn
            for k, v in d.items():
                _tab[fn, k] = dict({s: x*{'barn': 1., 'fm**2': .01, 'angstrom**2': 1e8}[cu] for s, x in v.items()}, __units__='barn')
            mon.event('table-file')
        xs = np.zeros(n)
        for k in wt.split('-plus-'):
            t = table(coll, k + '_cross_section')
            xs += np.array([mbarn(t, s) for s in types])
        fac = xs*mass.mean()/mass
        area = True
    else:
        area = False
    mon.event(wt or 'unweighted')
    wid = None
    r = rng.random()
    akw = {}
    if r < .3:
        wid = rng.uniform(.3, 6., fm.shape)
        akw['mode_widths'] = (wid*ureg('meV')).to(objs.pick(rng, objs.ENERGY))
        if rng.random() < .5:
            akw['mode_widths_min'] = ureg.Quantity(float(rng.uniform(.05, 3)), 'meV').to(objs.pick(rng, objs.ENERGY))
            wid = np.maximum(wid, akw['mode_widths_min'].to('meV').magnitude)
        if rng.random() < .4:
            akw.update(adaptive_method='fast')
            if rng.random() < .5:
                akw.update(adaptive_error=float(rng.uniform(.005, .05)),
                           adaptive_error_fit=objs.pick(rng, ['cubic', 'cheby-log']))
    before = objs.snap([o, B, kw.get('cross_sections') if isinstance(kw.get('cross_sections'), dict) else None, akw])
    p = o.calculate_pdos(B, **kw, **akw)
    mon.check(isinstance(p, Spectrum1DCollection), 'type', str(type(p)))
    yu = 1/ureg(unit).units
    if area:
        mon.check(p.y_data.check('[length]**2/[energy]') or p.y_data.units.dimensionality == (ureg('mbarn')/ureg(unit)).dimensionality,
                  'dimension', str(p.y_data.units))
        y = p.y_data.to(ureg('mbarn').units*yu).magnitude
    else:
        y = p.y_data.to(yu).magnitude
    conv = (1*ureg('meV')).to(unit).magnitude
    y = y*conv
    if not mon.check(y.shape == (n, nb), 'shape', str(y.shape)):
        return
    lines = p.metadata.get('line_data', [])
    mon.check([(d.get('species'), d.get('index')) for d in lines] == list(zip(types, range(n))), 'line-metadata', str(lines)[:200])
    mon.check(p.metadata.get('weighting') == wt, 'weighting-metadata', str(p.metadata.get('weighting')))
    mon.close(p.x_data.to('meV').magnitude, bins, 'bins', rtol=1e-11)
    a2 = np.abs(e)**2
    wm = w/w.sum()
    if wid is None or akw.get('adaptive_method') != 'fast':
        want = np.zeros((n, nb))
        if wid is not None:
            mon.event('adaptive-reference')
        cen = .5*(bins[1:] + bins[:-1])
        for i in range(n):
            mw = (a2[:, :, i].sum(axis=-1)/n)*wm[:, None]
            if wid is None:
                want[i] = sum(hist(fm[k:k+1, m:m+1], [mw[k, m]], bins.tolist())[0] for k in range(len(q)) for m in range(3*n))
            else:
                x = (cen - fm[..., None])/wid[..., None]
                want[i] = np.einsum('qm,qmb->b', mw/wid/np.sqrt(2*np.pi), np.exp(-.5*x*x))
        mon.close(y, want*fac[:, None], 'pdos', f'weighting {wt}, {list(kw)}', rtol=1e-10, atol=1e-300)
    else:
        mon.event('adaptive-fast')
    if abs(np.mean(a2.sum(axis=(2, 3))) - 1) < 1e-9:
        d = o.calculate_dos(B, **akw).y_data.to(yu).magnitude*conv
        mon.close((y/fac[:, None]).sum(axis=0), d, 'sum-is-dos', 'unweighted partial DOS summed over atoms', rtol=1e-9, atol=1e-12)
        mon.event('sum-is-dos')
    if rng.random() < .2 and abs(np.mean(a2.sum(axis=(2, 3))) - 1) < 1e-9:
        # the documented default smallest width, 0.01 meV
        fb = (float(rng.choice(fm.ravel())) + np.linspace(-.05, .05, 41))*ureg('meV')
        tiny = (10**rng.uniform(-4, -2, fm.shape))*ureg('meV')
        a = o.calculate_pdos(fb, mode_widths=tiny).y_data.to('1/meV').magnitude
        b = o.calculate_dos(fb, mode_widths=tiny, mode_widths_min=.01*ureg('meV')).y_data.to('1/meV').magnitude
        mon.close(a.sum(axis=0), b, 'default-minimum', rtol=1e-8, atol=1e-12)
        mon.event('default-minimum')
    g = p.group_by('species')
    sp_seen = []
    for s in g:
        k = s.metadata.get('species')
        sp_seen.append(k)
        want = sum(y[i] for i in range(n) if types[i] == k)
        mon.close(s.y_data.to(p.y_data.units).magnitude, np.sum([p.y_data.magnitude[i] for i in range(n) if types[i] == k], axis=0),
                  'species-group', f'group {k}', rtol=1e-12)
    mon.check(sorted(sp_seen) == sorted(set(types)), 'species-groups', str(sp_seen))
    mon.event('group-by-species')
    after = objs.snap([o, B, kw.get('cross_sections') if isinstance(kw.get('cross_sections'), dict) else None, akw])
    mon.check(after == before, 'inputs-modified', str(objs.diff(before, after)))
    if rng.random() < .2:
        bad = {s: 1.*ureg('fm') for s in types}
        mon.raises(lambda: o.calculate_pdos(B, cross_sections=bad), ValueError, 'bad-cross-section-units')
        mon.raises(lambda: o.calculate_pdos(B, weighting='total'), ValueError, 'bad-weighting')
        mon.raises(lambda: o.calculate_pdos(B, cross_sections={}), KeyError, 'missing-species')
        mon.event('bad-cross-section-units')
    mon.evaluated((spec, wt, types))
    mon.sample({'types': types, 'weighting': wt, 'options': list(kw) + list(akw), 'unit': unit})
