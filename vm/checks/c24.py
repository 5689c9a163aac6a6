"""C24: spectra and collections keep data, metadata and bins together."""
import json
import os
import numpy as np
from .. import core, objs

RULE = ('random operation histories (index, slice, fancy index, iterate, add, from_spectra, copy, scale, select, group_by, sum, split, '
        'unit change, data assignment, bin queries, text file) on all four spectrum classes, every object tracked by an independent '
        'list-of-rows model; after every operation the whole pool is compared with its models, and results are mutated in place to '
        'expose shared state; distinct by (case, operation sequence)')
ASSUMPTIONS = ['metadata values are strings and integers', 'slices stop before the last spectrum (existing tests require an IndexError otherwise)']
REQUIRED_EVENTS = ['op-index', 'op-slice', 'op-fancy', 'op-iterate', 'op-add', 'op-from_spectra', 'op-copy', 'op-mul', 'op-imul', 'op-select',
                   'op-group_by', 'op-sum', 'op-split', 'op-split-tol', 'op-unit', 'op-set-data', 'op-bins', 'op-text', 'probe-mutation',
                   'pool-verified', 'class-Spectrum1D', 'class-Spectrum1DCollection', 'class-Spectrum2D', 'class-Spectrum2DCollection',
                   'op-refusal', 'select-empty', 'labels-cut']


def cases(tier, seed):
    n = {'quick': 420, 'thorough': 12000}[tier]
    return [{'i': i} for i in range(n)]


class Model:
    """rows: list of (array, metadata); axes: list of (magnitudes, unit)."""

    def __init__(self, axes, rows, unit, labels, coll):
        self.axes = [(np.array(a, float), str(u)) for a, u in axes]
        self.rows = [(np.array(r, float), dict(m)) for r, m in rows]
        self.unit, self.labels, self.coll = str(unit), None if labels is None else [tuple(x) for x in labels], coll

    def clone(self, rows=None, coll=None):
        return Model(self.axes, self.rows if rows is None else rows, self.unit, self.labels, self.coll if coll is None else coll)

    def common(self):
        out = dict(self.rows[0][1])
        for _, m in self.rows[1:]:
            out = {k: v for k, v in out.items() if k in m and m[k] == v}
        return out


def data_of(o):
    return o.z_data if hasattr(o, 'z_data') else o.y_data


def data_name(o):
    return 'z_data' if hasattr(o, 'z_data') else 'y_data'


def axes_of(o):
    return [o.x_data, o.y_data] if hasattr(o, 'z_data') else [o.x_data]


def model_of(o):
    coll = type(o).__name__.endswith('Collection')
    d = data_of(o)
    if coll:
        common = {k: v for k, v in o.metadata.items() if k != 'line_data'}
        lines = o.metadata.get('line_data', [{}]*len(d.magnitude))
        rows = [(r, {**common, **l}) for r, l in zip(d.magnitude, lines)]
    else:
        rows = [(d.magnitude, o.metadata)]
    return Model([(a.magnitude, a.units) for a in axes_of(o)], rows, d.units, o.x_tick_labels, coll)


def compare(mon, o, m, key, order=True):
    ok = mon.check(type(o).__name__.endswith('Collection') == m.coll, key + ':type', type(o).__name__)
    g = model_of(o)
    for (a, u), (b, v) in zip(g.axes, m.axes):
        ok &= mon.check(u == v, key + ':axis-unit', f'{u} != {v}')
        ok &= mon.close(a, b, key + ':axis', rtol=1e-12)
    ok &= mon.check(g.unit == m.unit, key + ':unit', f'{g.unit} != {m.unit}')
    ok &= mon.check(g.labels == m.labels, key + ':labels', f'{g.labels} != {m.labels}')
    if not mon.check(len(g.rows) == len(m.rows), key + ':number', f'{len(g.rows)} spectra, expected {len(m.rows)}'):
        return False
    gr, mr = g.rows, m.rows
    if not order:
        def k(x):
            return (repr(sorted(x[1].items())), [f'{v:.9g}' for v in x[0].ravel()[:3]])
        gr, mr = sorted(gr, key=k), sorted(mr, key=k)
    for (a, x), (b, y) in zip(gr, mr):
        ok &= mon.check(x == y, key + ':metadata', f'{x} != {y}')
        ok &= mon.close(a, b, key + ':data', rtol=1e-11, atol=1e-300)
    if m.coll:
        it = list(o.iter_metadata())
        ok &= mon.check(len(it) == len(g.rows) and all(x == r[1] for x, r in zip(it, g.rows)), key + ':iter_metadata', f'{it}')
        ok &= mon.check(len(o) == len(m.rows), key + ':len')
    return ok


def poke(rng, o):
    """Mutate everything reachable from an object that callers may touch."""
    o.metadata['poked'] = 1
    for l in o.metadata.get('line_data', []):
        l['poked_line'] = 2
    if o.x_tick_labels is not None:
        o.x_tick_labels.append((0, 'poked'))
    n = data_name(o)
    for k in dict.fromkeys(['x_data', 'y_data', n]):
        for a in (vars(o).get('_' + k), vars(o).get(k)):        # the arrays the object holds
            a = getattr(a, 'magnitude', a)
            if isinstance(a, np.ndarray):
                a[...] = -1.25 if k == n else a + 3.


def make(rng, which=None):
    which = which or objs.pick(rng, ['spectrum1d', 'spectrum1dcollection', 'spectrum2d', 'spectrum2dcollection',
                                     'spectrum1dcollection', 'spectrum2dcollection'])
    return getattr(objs, which)(rng)


def run_case(spec, mon):
    from euphonic import ureg, Spectrum1D, Spectrum1DCollection, Spectrum2D
    from euphonic.spectra import Spectrum2DCollection
    rng = core.rng_for(mon.seed, spec['i'])
    o = make(rng)
    pool = [(o, model_of(o))]
    ops = []

    def verify(key):
        for x, m in pool:
            compare(mon, x, m, key)
        mon.event('pool-verified', len(pool))

    def result(new, m, key, order=True, keep=True):
        """Check a result, that its sources are untouched, and that it shares nothing."""
        if not compare(mon, new, m, key, order):
            return False
        verify(key + ':sources')
        if rng.random() < .5 and not any(new is x for x, _ in pool):
            poke(rng, new)
            mon.event('probe-mutation')
            verify(key + ':shared-state')
        elif keep and len(pool) < 6 and not any(new is x for x, _ in pool):
            pool.append((new, model_of(new)))
        return True

    for step in range(int(rng.integers(3, 9))):
        k = int(rng.integers(len(pool)))
        o, m = pool[k]
        n = len(m.rows)
        mon.event('class-' + type(o).__name__)
        choices = ['copy', 'mul', 'imul', 'split', 'split-tol', 'unit', 'set-data', 'bins']
        if m.coll:
            choices += ['index', 'slice', 'fancy', 'iterate', 'add', 'from_spectra', 'select', 'group_by', 'sum', 'select', 'group_by', 'refusal']
        if type(o) is Spectrum1D:
            choices += ['add', 'add']
        if 'Spectrum1D' in type(o).__name__:
            choices.append('text')
        op = objs.pick(rng, choices)
        ops.append(op)
        mon.event('op-' + op)
        if op == 'index':
            j = int(rng.integers(-n, n))
            jj = np.int64(j) if rng.random() < .3 else j
            if not result(o[jj], m.clone([m.rows[j]], coll=False), 'index'):
                return
        elif op == 'slice':
            a, b = int(rng.integers(0, n)), int(rng.integers(0, n))
            s = [slice(a, None), slice(None), slice(min(a, b), max(a, b)), slice(None, None, 2), slice(None, None, -1), slice(-1, None)][int(rng.integers(6))]
            if not m.rows[s]:
                continue
            if not result(o[s], m.clone(m.rows[s]), 'slice'):
                return
        elif op == 'fancy':
            idx = [int(x) for x in rng.integers(-n, n, int(rng.integers(1, 5)))]
            arg = np.array(idx) if rng.random() < .5 else idx
            if not result(o[arg], m.clone([m.rows[j] for j in idx]), 'fancy'):
                return
        elif op == 'iterate':
            items = list(o)
            mon.check(len(items) == n, 'iterate:number')
            for it, r in zip(items, m.rows):
                compare(mon, it, m.clone([r], coll=False), 'iterate')
            j = int(rng.integers(n))
            poke(rng, items[j])
            verify('iterate:shared-state')
            for jj in range(n):
                if jj != j:
                    compare(mon, items[jj], m.clone([m.rows[jj]], coll=False), 'iterate:siblings')
        elif op == 'add':
            other = o.copy() if rng.random() < .5 else o
            mo = m
            if other is not o:
                other.metadata = {'extra': 'yes'} if rng.random() < .5 else dict(other.metadata)
                other *= 3.
                mo = model_of(other)
                pool_other = (other, mo)
                pool.append(pool_other)
            if m.coll:
                ok = result(o + other, m.clone(m.rows + mo.rows), 'add')
            else:
                both = m.clone(m.rows + mo.rows)
                ok = result(o + other, m.clone([(m.rows[0][0] + mo.rows[0][0], both.common())]), 'add')
            if not ok:
                return
        elif op == 'from_spectra':
            idx = [int(x) for x in rng.integers(0, n, int(rng.integers(1, 6)))]
            src = [o[j] for j in idx]
            for s in src:
                if rng.random() < .3:
                    s.metadata['tag'] = str(rng.choice(['u', 'v']))
            exp = m.clone([(m.rows[j][0], dict(s.metadata)) for j, s in zip(idx, src)])
            pool += [(s, model_of(s)) for s in src]
            ok = result(type(o).from_spectra(src), exp, 'from_spectra', keep=False)
            del pool[-len(src):]
            if not ok:
                return
        elif op == 'copy':
            if not result(o.copy(), m.clone(), 'copy'):
                return
        elif op == 'mul':
            f = [2., -1.5, 0, 3, np.float64(.1), np.int64(4)][int(rng.integers(6))]
            if not result(o*f, m.clone([(r*float(f), x) for r, x in m.rows]), 'mul'):
                return
        elif op == 'imul':
            f = [2., -1.5, 3, np.float64(.7)][int(rng.integers(4))]
            p = o
            p *= f
            mon.check(p is o, 'imul:identity', '*= returned another object')
            pool[k] = (p, m.clone([(r*float(f), x) for r, x in m.rows]))
            verify('imul')
        elif op == 'select':
            keys = sorted({x for _, md in m.rows for x in md})
            if not keys:
                continue
            ks = [str(x) for x in rng.choice(keys, int(rng.integers(1, min(3, len(keys)) + 1)), replace=False)]
            q = {}
            for key in ks:
                vals = list({md[key] for _, md in m.rows if key in md})
                vals = [v for v in sorted(vals, key=repr) if rng.random() < .7] or vals[:1]
                if rng.random() < .2:
                    vals.append('absent')
                q[key] = vals[0] if len(vals) == 1 and rng.random() < .6 else (tuple(vals) if rng.random() < .5 else vals)
            rows = [r for r in m.rows if all(key in r[1] and r[1][key] in ([v] if isinstance(v, (str, int)) else v) for key, v in q.items())]
            if not rows:
                mon.event('select-empty')
                mon.raises(lambda: o.select(**q), ValueError, 'select:empty')
                verify('select:empty')
                continue
            if not result(o.select(**q), m.clone(rows), 'select', order=False):
                return
        elif op == 'group_by':
            keys = sorted({x for _, md in m.rows for x in md} | {'nothing'})
            ks = [str(x) for x in rng.choice(keys, int(rng.integers(1, min(3, len(keys)) + 1)), replace=False)]
            groups = {}
            for r in m.rows:
                groups.setdefault(tuple(r[1].get(x) for x in ks), []).append(r)
            rows = [(sum(r for r, _ in g), m.clone(g).common()) for g in groups.values()]
            if not result(o.group_by(*ks), m.clone(rows), 'group_by', order=False):
                return
        elif op == 'sum':
            if not result(o.sum(), m.clone([(sum(r for r, _ in m.rows), m.common())], coll=False), 'sum'):
                return
        elif op in ('split', 'split-tol'):
            nx = m.rows[0][0].shape[0]
            edges = len(m.axes[0][0]) == nx + 1
            x = m.axes[0][0]
            if op == 'split':
                idx = sorted(int(v) for v in rng.choice(np.arange(1, nx), int(rng.integers(0, min(4, nx))), replace=False)) if nx > 1 else []
                kw = {'indices': np.array(idx, int) if rng.random() < .5 else idx}
            else:
                if edges:
                    continue
                tol = float(rng.uniform(1.05, 4)) if rng.random() < .7 else None
                kw = {} if tol is None else {'btol': tol}
                d = np.diff(x)
                ratio = d/np.median(d)
                if np.min(np.abs(ratio - (tol or 10.)), initial=1) < 1e-6:
                    continue
                idx = [int(v) + 1 for v in np.nonzero(ratio > (tol or 10.))[0]]
            parts = o.split(**kw)
            cut = [0, *idx, nx]
            if not mon.check(len(parts) == len(cut) - 1, 'split:number', f'{len(parts)} pieces for {idx}'):
                return
            for i, p in enumerate(parts):
                a, b = cut[i], cut[i + 1]
                e = m.clone([(r[a:b], md) for r, md in m.rows])
                if m.labels is not None:
                    e.labels = [(t - a, l) for t, l in m.labels if a <= t < b]
                    mon.event('labels-cut', len(e.labels))
                want = x[a:b + 1] if edges else x[a:b]
                if edges and b < nx and len(p.x_data) == b - a and np.allclose(p.x_data.magnitude, x[a:b], rtol=1e-12):
                    mon.fail('split-drops-right-edge', 'a piece of a split bin-edge spectrum loses its last edge and its left edges become centres')
                    want = x[a:b]
                e.axes[0] = (want, m.axes[0][1])
                compare(mon, p, e, 'split')
            verify('split:sources')
            if rng.random() < .5:
                j = int(rng.integers(len(parts)))
                others = [(p, model_of(p)) for i, p in enumerate(parts) if i != j]
                poke(rng, parts[j])
                verify('split:shared-state')
                for p, pm in others:
                    compare(mon, p, pm, 'split:shared-pieces')
        elif op == 'unit':
            name = data_name(o)
            new = {'1/meV': '1/eV', 'mbarn/meV': 'bohr**2/hartree', '1/hartree': '1/eV', 'dimensionless': 'dimensionless',
                   'angstrom**2': 'mbarn', 'cm': 'nm'}
            cur = [u for u in new if str(ureg(u).units) == m.unit]
            if cur:
                setattr(o, name + '_unit', new[cur[0]])
                fac = ureg.Quantity(1, cur[0]).to(new[cur[0]]).magnitude
                mm = m.clone([(r*fac, md) for r, md in m.rows])
                mm.unit = str(data_of(o).units)
                mon.check(ureg(new[cur[0]]).units == data_of(o).units, 'unit:name')
                pool[k] = (o, mm)
            xu = {'meV': 'THz', '1 / centimeter': 'meV', '1 / angstrom': '1/bohr', 'hartree': 'eV'}
            nice = {'millielectron_volt': 'THz', '1 / angstrom': '1/bohr', 'hartree': 'eV', '1 / centimeter': 'meV', **xu}
            if m.axes[0][1] in nice and rng.random() < .5:
                u = nice[m.axes[0][1]]
                o.x_data_unit = u
                mm = pool[k][1].clone()
                mm.axes[0] = (ureg.Quantity(m.axes[0][0], m.axes[0][1]).to(u, 'reciprocal_spectroscopy').magnitude, str(o.x_data.units))
                pool[k] = (o, mm)
            verify('unit')
        elif op == 'set-data':
            name = data_name(o)
            d = data_of(o)
            v = rng.normal(size=d.shape)
            setattr(o, name, ureg.Quantity(v.copy(), d.units))
            rows = [(r, md) for r, (_, md) in zip(v if m.coll else [v], m.rows)]
            pool[k] = (o, m.clone(rows))
            verify('set-data')
        elif op == 'bins':
            two = len(m.axes) == 2
            for ax in range(len(m.axes)):
                a, u = m.axes[ax]
                nn = m.rows[0][0].shape[ax]
                if type(o) is Spectrum2DCollection:
                    continue
                kw = {'bin_ax': 'xy'[ax]} if two else {}
                ed, ce, wi = o.get_bin_edges(**kw), o.get_bin_centres(**kw), o.get_bin_widths(**kw)
                mon.check(str(ed.units) == u and str(ce.units) == u and str(wi.units) == u, 'bins:unit')
                if len(a) == nn + 1:
                    ee, ec = a, .5*(a[1:] + a[:-1])
                else:
                    ec = a
                    ee = np.concatenate([a[:1], .5*(a[1:] + a[:-1]), a[-1:]])
                mon.close(ed.magnitude, ee, 'bins:edges', rtol=1e-12)
                mon.close(ce.magnitude, ec, 'bins:centres', rtol=1e-12)
                mon.close(wi.magnitude, np.diff(ee), 'bins:widths', rtol=1e-9)
            verify('bins')
        elif op == 'text':
            f = os.path.join(mon.scratch, f'{spec["i"]}.txt')
            o.to_text_file(f, *(['%.15e'] if rng.random() < .5 else []))
            if not mon.check(os.path.exists(f), 'text:no-file', 'to_text_file writes no file'):
                continue
            t = np.loadtxt(f, ndmin=2)
            a = m.axes[0][0]
            c = .5*(a[1:] + a[:-1]) if len(a) == len(m.rows[0][0]) + 1 else a
            mon.close(t, np.column_stack([c] + [r for r, _ in m.rows]), 'text:data', rtol=1e-12)
            head = [l[2:].rstrip('\n') for l in open(f) if l.startswith('#')]
            txt = '\n'.join(head)
            mon.check(f'x_data in ({m.axes[0][1]})' in txt and f'y_data in ({m.unit})' in txt, 'text:units', txt[:200])
            cm = [l for l in head if l.startswith('Common metadata: ')]
            cols = [l for l in head if l.startswith('Column ') and 'y_data[' in l]
            if mon.check(len(cm) == 1 and len(cols) == n, 'text:header', txt[:300]):
                common = json.loads(cm[0][len('Common metadata: '):])
                for i, l in enumerate(cols):
                    h, js = l.split('] ', 1)
                    mon.check(h == f'Column {i + 2}: y_data[{i}', 'text:columns', l)
                    mon.check({**common, **json.loads(js)} == m.rows[i][1], 'text:metadata', f'{l} {m.rows[i][1]}')
            os.remove(f)
            verify('text')
        elif op == 'refusal':
            bad = [(lambda: o[n], IndexError), (lambda: o[-n - 1], IndexError), (lambda: o[[0, n]], IndexError), (lambda: o[[.5]], TypeError),
                   (lambda: o[[True]*n], TypeError), (lambda: o[np.array([True] + [False]*(n - 1))], TypeError), (lambda: o['a'], TypeError),
                   (lambda: o.split(indices=[1], btol=3.), ValueError), (lambda: type(o).from_spectra([]), IndexError),
                   (lambda: type(o).from_spectra([o]), TypeError), (lambda: o.select(species='nope'), ValueError)]
            fn, ex = bad[int(rng.integers(len(bad)))]
            mon.raises(fn, ex, 'refusal')
            verify('refusal')
    mon.evaluated((spec['i'], tuple(ops)))
    mon.sample({'class': type(pool[0][0]).__name__, 'ops': ops})
