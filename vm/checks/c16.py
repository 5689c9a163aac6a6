"""C16: the DOS puts every mode, with its weight, in the bin that contains it."""
import bisect
import numpy as np
from .. import core, objs

RULE = ('random frequencies/weights/bins (regular and irregular, any energy unit, frequencies exactly on bin edges, zero weights, '
        'imaginary modes, modes outside) through calculate_dos and calculate_dos_map, against a bisection count of every mode; '
        'distinct by (case, sizes, unit)')
ASSUMPTIONS = ['frequencies within 1e-12 of a bin edge but not exactly on it in the same unit are not judged (unit conversion rounding)']
REQUIRED_EVENTS = ['dos', 'dos-map', 'edge-frequencies', 'modes-counted', 'modes-outside', 'all-covered', 'irregular-bins', 'derived-class']


def cases(tier, seed):
    return [{'i': i} for i in range({'quick': 700, 'thorough': 20000}[tier])]


def hist(f, w, b):
    """f (nq, nm), w (nq): bisection into half-open bins, per unit bin width."""
    n = len(b) - 1
    out, outside = [0.]*n, 0
    for fq, wq in zip(f.tolist(), w):
        for x in fq:
            k = bisect.bisect_right(b, x) - 1
            if 0 <= k < n:
                out[k] += wq
            else:
                outside += 1
    return np.array(out)/np.diff(b), outside


def run_case(spec, mon):
    from euphonic import ureg, QpointFrequencies, Spectrum1D, Spectrum2D
    rng = core.rng_for(mon.seed, spec['i'])
    nq = int(rng.integers(1, 9))
    derived = rng.random() < .3
    c, q, f, w = objs.qpf_args(rng, nq=nq, path=rng.random() < .3, n=int(rng.integers(1, 4)))
    nq = len(q)
    f_ha = f.to('hartree').magnitude
    same = rng.random() < .45
    unit = 'hartree' if same else objs.pick(rng, objs.ENERGY)
    lo, hi = f_ha.min(), f_ha.max()
    span = hi - lo + 1e-5
    nb = int(rng.integers(1, 60))
    cover = rng.random() < .5
    a, b = (lo - .05*span, hi + .05*span) if cover else np.sort(rng.uniform(lo - .5*span, hi + .5*span, 2) + [0, 1e-3*span])
    reg = rng.random() < .5
    bins = np.linspace(a, b, nb + 1) if reg else np.sort(np.concatenate(([a, b], rng.uniform(a, b, nb - 1))))
    mon.event('irregular-bins', not reg)
    if same and nb > 1 and rng.random() < .8:
        # frequencies exactly on edges (all in hartree: no rounding by conversion)
        k = rng.integers(0, f_ha.size, max(1, f_ha.size//3))
        f_ha.flat[k] = rng.choice(bins, len(k))
        f_ha = np.sort(f_ha, axis=1)
        mon.event('edge-frequencies', len(k))
        edge = True
        f = f_ha*ureg('hartree')
    else:
        edge = False
        if np.min(np.abs(f_ha[..., None] - bins)) < 1e-9*span:
            raise core.SkipCase
        f = (f_ha*ureg('hartree')).to(objs.pick(rng, objs.ENERGY))
    if np.any(np.diff(bins) <= 1e-9*span):
        raise core.SkipCase
    if w is not None and nq > 1 and rng.random() < .2:
        w[int(rng.integers(nq))] = 0.
    B = (bins*ureg('hartree')).to(unit)
    if derived:
        from euphonic import QpointPhononModes
        o = QpointPhononModes(c, q, f, objs.evecs(rng, nq, c.n_atoms), weights=w)
        mon.event('derived-class')
    else:
        o = QpointFrequencies(c, q, f, weights=w)
    before = objs.snap([o, B])
    if w is None:
        w = np.full(nq, 1/nq)
    r = o.calculate_dos(B)
    mon.check(isinstance(r, Spectrum1D), 'type', str(type(r)))
    conv = (1*ureg('hartree')).to(unit).magnitude
    want, outside = hist(f_ha, w/w.sum()*3/f_ha.shape[1], bins.tolist())
    mon.event('modes-counted', f_ha.size - outside)
    mon.event('modes-outside', outside)
    got = r.y_data.to(1/ureg(unit).units).magnitude
    mon.close(got, want/conv, 'dos', f'unit {unit}, edge={edge}', rtol=1e-11)
    mon.close(r.x_data.to(unit).magnitude, B.magnitude, 'bins', rtol=1e-12)
    mon.check(r.y_data.units == (1/ureg(unit)).units, 'unit', f'{r.y_data.units} for bins in {unit}')
    if outside == 0:
        mon.event('all-covered')
        tot = np.sum(got*np.diff(B.magnitude))
        mon.close(tot, 3., 'integral', 'integral of a DOS whose bins cover every mode', rtol=1e-11)
    mon.event('dos')
    if np.all(w > 0):
        m = o.calculate_dos_map(B)
        mon.check(isinstance(m, Spectrum2D), 'map-type')
        z = m.z_data.to(1/ureg(unit).units).magnitude
        rows = np.array([hist(f_ha[i:i+1], np.array([3/f_ha.shape[1]]), bins.tolist())[0] for i in range(nq)])
        mon.close(z, rows/conv, 'map', 'each row is the DOS of that q-point', rtol=1e-11)
        mon.close(m.y_data.to(unit).magnitude, B.magnitude, 'map-bins', rtol=1e-12)
        mon.check(len(m.x_data) in (nq, nq + 1), 'map-x')
        mon.close(np.einsum('q,qb->b', w/w.sum(), z), got, 'map-average', 'weighted mean of rows is the DOS', rtol=1e-10, atol=1e-300)
        mon.event('dos-map')
    after = objs.snap([o, B])
    mon.check(after == before, 'inputs-modified', str(objs.diff(before, after)))
    mon.evaluated((spec, nq, nb, unit))
    mon.sample({'nq': nq, 'bins': nb, 'unit': unit, 'outside': outside, 'edge': edge})
