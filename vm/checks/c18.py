"""C18: adaptive broadening is the sum of each mode broadened by its own width."""
import numpy as np
from .. import core, objs

RULE = ('random modes, widths, bins, units, minimum widths and error settings through calculate_dos/calculate_dos_map/'
        'calculate_pdos (reference: explicit Gaussian sum; fast: L1 distance per unit weight against the stated error) and '
        'through variable_width_broadening / Spectrum.broaden(callable) for Gaussian and Lorentzian shapes with both width '
        'conventions; distinct by (case, shape, options)')
ASSUMPTIONS = ['fast methods: modes inside the bins, widths at least one bin; a mode counts at the centre of its bin, and kernel '
               'tails beyond half the window may or may not be present',
               'the stated error bounds the area between true and approximate line shape per unit weight; 1.1x is allowed for the '
               'fitted spacing polynomial']
REQUIRED_EVENTS = ['default-minimum', 'reference', 'fast-cubic', 'fast-cheby', 'function-gauss', 'function-lorentz', 'std', 'fwhm', 'spectrum-callable',
                   'collection-callable', 'spectrum2d-callable-x', 'spectrum2d-callable-y', 'map', 'min-width-active', 'integral', 'refusals',
                   'default-lower-limit']
FW = np.sqrt(8*np.log(2))


def cases(tier, seed):
    n = {'quick': 130, 'thorough': 3500}[tier]
    return [{'kind': k, 'i': i} for k in ('reference', 'fast', 'function', 'spectrum', 'spectrum2d') for i in range(n)]


def gauss(d, s):
    return np.exp(-.5*(d/s)**2)/s/np.sqrt(2*np.pi)


def lorentz(d, g):
    return g/(2*np.pi*(d*d + g*g/4))


SH = {'gauss': gauss, 'lorentz': lorentz}


def bounds(edges, x, wid, wts, shape):
    """Lower/upper envelope of the exact sum at bin centres, with each mode at
    the centre of its bin and tails beyond half a window optional."""
    n = len(edges) - 1
    dx = (edges[-1] - edges[0])/n
    k = np.floor((x - edges[0])/dx).astype(int)
    ok = (k >= 0) & (k < n)
    d = (np.arange(n)[None, :] - k[ok, None])
    y = SH[shape](d*dx, wid[ok, None])*wts[ok, None]
    near = np.where(np.abs(d) <= n//2 - 1, y, 0)
    far = y - near
    return near.sum(axis=0) + np.minimum(far, 0).sum(axis=0), near.sum(axis=0) + np.maximum(far, 0).sum(axis=0), dx, np.abs(wts[ok]).sum()


def l1(got, lo, hi):
    return np.sum(np.maximum(0, np.maximum(lo - got, got - hi)))


def judge(mon, got, edges, x, wid, wts, shape, err, key, msg=''):
    lo, hi, dx, W = bounds(edges, x, wid, wts, shape)
    d = l1(got, lo, hi)*dx
    r = d/max(err*W, 1e-300)
    mon.event('error-below-half-of-stated' if r < .5 else 'error-above-half-of-stated')
    mon.check(d <= 1.1*err*W, key, f'{msg}: area between exact and approximate broadening is {d:.3g}, stated error {err:.3g} '
              f'x weight {W:.3g}')


def spread(rng, n, m, dx, wmax):
    kind = rng.integers(3)
    if kind == 0:
        w = np.full(m, rng.uniform(1.2, wmax))
    elif kind == 1:
        w = np.exp(rng.uniform(np.log(1.2), np.log(wmax), m))
    else:
        w = np.where(rng.random(m) < .5, 1.5, wmax)*rng.uniform(.99, 1.01, m)
    return w*dx


def off_edges(x, e, dx):
    k = (x - e[0])/dx
    return np.where(np.abs(k - np.rint(k)) < 1e-6, x + .3*dx, x)


def pick_fit(rng, shape):
    fit = 'cubic' if shape == 'gauss' and rng.random() < .5 else 'cheby-log'
    err = float(rng.uniform(.004, .09)) if fit == 'cubic' else float(10**rng.uniform(-2.8, -1.36 if shape == 'lorentz' else -1.05))
    return fit, err


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    globals()['run_' + spec['kind']](spec, mon, rng)


def run_reference(spec, mon, rng):
    from euphonic import ureg
    o = objs.qpoint_frequencies(rng, n=int(rng.integers(1, 4)))
    f = o.frequencies.to('meV').magnitude
    nq = len(f)
    unit = objs.pick(rng, objs.ENERGY)
    nb = int(rng.integers(2, 80))
    bins = np.sort(rng.uniform(f.min() - 10, f.max() + 10, nb + 1)) if rng.random() < .5 else np.linspace(f.min() - 10, f.max() + 20, nb + 1)
    wid = 10**rng.uniform(-1.5, .8, f.shape)
    kw, mn = {}, .01
    if rng.random() < .25:
        # the default minimum, seen with bins as fine
        wid[rng.random(f.shape) < .5] *= .03
        bins = float(rng.choice(f.ravel())) + np.linspace(-.06, .06, nb + 1)
        mon.event('default-minimum', int((wid < mn).sum()))
    elif rng.random() < .6:
        mn = float(10**rng.uniform(-1.5, .5))
        kw['mode_widths_min'] = ureg.Quantity(mn, 'meV').to(objs.pick(rng, objs.ENERGY))
    mon.event('min-width-active', np.any(wid < mn))
    if rng.random() < .5:
        kw['adaptive_method'] = 'reference'
    B = (bins*ureg('meV')).to(unit)
    W = (wid*ureg('meV')).to(objs.pick(rng, objs.ENERGY))
    before = objs.snap([o, B, W])
    got = o.calculate_dos(B, mode_widths=W, **kw)
    w = o.weights/o.weights.sum()
    eff = np.maximum(wid, mn)
    cen = .5*(bins[1:] + bins[:-1])
    y = gauss(cen - f[..., None], eff[..., None])*(3/f.shape[1])
    conv = (1*ureg('meV')).to(unit).magnitude
    mon.close(got.y_data.to(1/ureg(unit).units).magnitude*conv, np.einsum('q,qmb->b', w, y), 'reference',
              f'min {mn}, unit {unit}', rtol=1e-10, atol=1e-300)
    mon.event('reference')
    if rng.random() < .5:
        kw.pop('adaptive_method', None)
        m = o.calculate_dos_map(B, mode_widths=W, **kw)
        mon.close(m.z_data.to(1/ureg(unit).units).magnitude*conv, y.sum(axis=1), 'map', rtol=1e-10, atol=1e-300)
        mon.event('map')
    if rng.random() < .3:
        fine = np.linspace(f.min() - 8*eff.max(), f.max() + 8*eff.max(), int(min(20000, 10*(np.ptp(f) + 16*eff.max())/eff.min())) + 2)
        if (fine[1] - fine[0]) < .5*eff.min():
            g = o.calculate_dos(fine*ureg('meV'), mode_widths=W, **kw).y_data.to('1/meV').magnitude
            mon.close(g.sum()*(fine[1] - fine[0]), 3., 'integral', 'integral of an adaptively broadened DOS', rtol=1e-6)
            mon.event('integral')
    mon.check(objs.snap([o, B, W]) == before, 'inputs-modified')
    if rng.random() < .1:
        mon.raises(lambda: o.calculate_dos(B, mode_widths=W, adaptive_method='slow'), ValueError, 'bad-method')
        mon.raises(lambda: o.calculate_dos(B, mode_widths=W, adaptive_method='fast', adaptive_error_fit='linear'), ValueError, 'bad-fit')
        mon.raises(lambda: o.calculate_dos(B, mode_widths=W, adaptive_method='fast', adaptive_error=.9, adaptive_error_fit='cheby-log'),
                   ValueError, 'bad-error')
        mon.event('refusals')
    mon.evaluated((spec, nb, unit))


def run_fast(spec, mon, rng):
    from euphonic import ureg, QpointFrequencies
    c, q, f, w = objs.qpf_args(rng, n=int(rng.integers(1, 4)), imaginary=False)
    n = int(rng.integers(60, 260))
    fm = f.to('meV').magnitude
    span = np.ptp(fm) + 1
    edges = np.linspace(fm.min() - rng.uniform(.05, .4)*span, fm.max() + rng.uniform(.05, .4)*span, n + 1)
    dx = edges[1] - edges[0]
    fm = np.sort(off_edges(fm, edges, dx), axis=1)
    o = QpointFrequencies(c, q, (fm*ureg('meV')).to(objs.pick(rng, objs.ENERGY)), weights=w)
    wid = spread(rng, n, fm.size, dx, n/10).reshape(fm.shape)
    fit, err = pick_fit(rng, 'gauss')
    unit = objs.pick(rng, objs.ENERGY)
    kw = {'adaptive_error': err, 'adaptive_error_fit': fit}
    if fit == 'cubic' and rng.random() < .4:
        kw, err = {}, .01
    mn = .01
    if rng.random() < .4:
        mn = float(dx*rng.uniform(1.2, 4))
        kw['mode_widths_min'] = ureg.Quantity(mn, 'meV').to(objs.pick(rng, objs.ENERGY))
        mon.event('min-width-active', np.any(wid < mn))
    B = (edges*ureg('meV')).to(unit)
    W = (wid*ureg('meV')).to(objs.pick(rng, objs.ENERGY))
    got = o.calculate_dos(B, mode_widths=W, adaptive_method='fast', **kw)
    wn = o.weights/o.weights.sum()
    conv = (1*ureg('meV')).to(unit).magnitude
    y = got.y_data.to(1/ureg(unit).units).magnitude*conv
    judge(mon, y, edges, fm.ravel(), np.maximum(wid, mn).ravel(), np.repeat(wn, fm.shape[1])*3/fm.shape[1], 'gauss', err, 'fast',
          f'{fit} n={n}')
    if (fm.min() - edges[0] > 5*wid.max() and edges[-1] - fm.max() > 5*wid.max() and fit == 'cheby-log'):
        mon.close(y.sum()*dx, 3., 'fast-integral', rtol=2*err)
        mon.event('integral')
    mon.event('fast-cubic' if fit == 'cubic' else 'fast-cheby')
    mon.evaluated((spec, n, fit, round(err, 6)))


def make_fn(rng, unit, lo, hi, dx, n):
    """A width function (takes and returns Quantity), and its numpy twin."""
    from euphonic import ureg
    a, b = rng.uniform(1.5, 4)*dx, rng.uniform(0, .04)*rng.choice([0, 1])
    fu = objs.pick(rng, objs.ENERGY)

    def np_fn(x):
        return a + b*np.abs(x - lo)*n/100

    def q_fn(x):
        return ureg.Quantity(np_fn(x.to(unit).magnitude), unit).to(fu)
    return np_fn, q_fn


def fkw(rng, mon, dx, unit):
    from euphonic import ureg
    shape = objs.pick(rng, ['gauss', 'lorentz'])
    conv = 'std' if shape == 'gauss' and rng.random() < .4 else 'fwhm'
    fit, err = pick_fit(rng, shape)
    kw = {'shape': shape, 'width_convention': conv}
    low = None
    if rng.random() < .6:
        low = float(dx*rng.uniform(1.2, 4))
    else:
        mon.event('default-lower-limit')
    mon.event(conv)
    mon.event('function-' + shape)
    return shape, conv, fit, err, kw, low


def eff_width(wf, shape, conv, low, dx):
    s = wf/FW if (shape == 'gauss' and conv == 'fwhm') else wf
    return np.maximum(s, dx if low is None else low)


def run_function(spec, mon, rng):
    from euphonic import ureg
    from euphonic.broadening import variable_width_broadening, width_interpolated_broadening
    n, m = int(rng.integers(60, 220)), int(rng.integers(1, 60))
    e0, dx = rng.uniform(-20, 20), rng.uniform(.05, 2)
    edges = e0 + dx*np.arange(n + 1)
    x = off_edges(rng.uniform(edges[0], edges[-1], m), edges, dx)
    wts = rng.uniform(.1, 3, m)
    unit = objs.pick(rng, ['meV', '1/cm', 'THz'])
    shape, conv, fit, err, kw, low = fkw(rng, mon, dx, unit)
    X = ureg.Quantity(x, unit).to(objs.pick(rng, ['meV', '1/cm', 'eV']))
    B = ureg.Quantity(edges, unit)
    if rng.random() < .3:
        wid = spread(rng, n, m, dx, n/12)
        got = width_interpolated_broadening(B, X, ureg.Quantity(wid, unit).to(objs.pick(rng, objs.ENERGY)), wts, err, shape=shape, fit=fit)
        eff = wid
        y = got.to(1/ureg(unit).units).magnitude
    else:
        npf, qf = make_fn(rng, unit, edges[0], edges[-1], dx, n)
        if low is not None:
            kw['width_lower_limit'] = ureg.Quantity(low, unit).to(objs.pick(rng, objs.ENERGY))
        wq = rng.random() < .5
        got = variable_width_broadening(B, X, qf, wts*ureg('mbarn') if wq else wts, adaptive_error=err, fit=fit, **kw)
        y = got.to((ureg('mbarn') if wq else ureg('dimensionless')).units/ureg(unit).units).magnitude
        eff = eff_width(npf(x), shape, conv, low, dx)
    judge(mon, y, edges, x, eff, wts, shape, err, 'function', f'{shape} {conv} {fit} n={n}')
    if shape == 'lorentz' and rng.random() < .3:
        npf, qf = make_fn(rng, unit, edges[0], edges[-1], dx, n)
        mon.raises(lambda: variable_width_broadening(B, X, qf, wts, shape='lorentz', width_convention='std'), ValueError, 'lorentz-std')
        mon.raises(lambda: variable_width_broadening(B, X, qf, wts, width_convention='hwhm'), ValueError, 'bad-convention')
        mon.raises(lambda: width_interpolated_broadening(B, X, X, wts, .01, shape='lorentz', fit='cubic'), ValueError, 'bad-fit')
        mon.event('refusals')
    mon.evaluated((spec, n, shape, conv, fit))
    mon.sample({'n': n, 'modes': m, 'shape': shape, 'convention': conv, 'fit': fit, 'error': err})


def run_spectrum(spec, mon, rng):
    from euphonic import ureg
    n = int(rng.integers(60, 200))
    unit = objs.pick(rng, ['meV', '1/cm', 'THz'])
    coll = rng.random() < .4
    s = (objs.spectrum1dcollection(rng, n=n, m=int(rng.integers(1, 4)), edges=True, regular=True, xu=unit) if coll
         else objs.spectrum1d(rng, n=n, edges=True, regular=True, xu=unit))
    if rng.random() < .5:
        s.x_data_unit = objs.pick(rng, ['meV', '1/cm', 'THz'])
    u = s.x_data_unit
    edges = s.x_data.magnitude
    dx = edges[1] - edges[0]
    shape, conv, fit, err, kw, low = fkw(rng, mon, dx, u)
    npf, qf = make_fn(rng, u, edges[0], edges[-1], dx, n)
    if low is not None:
        kw['width_lower_limit'] = ureg.Quantity(low, u).to(objs.pick(rng, objs.ENERGY))
    before = objs.snap(s)
    r = s.broaden(qf, width_interpolation_error=err, width_fit=fit, **kw)
    mon.check(objs.snap(s) == before, 'inputs-modified')
    mon.check(type(r) is type(s), 'type', str(type(r)))
    cen = .5*(edges[1:] + edges[:-1])
    eff = eff_width(npf(cen), shape, conv, low, dx)
    yu = s.y_data.units
    for a, b in zip(np.atleast_2d(r.y_data.to(yu).magnitude), np.atleast_2d(s.y_data.magnitude)):
        judge(mon, a, edges, cen, eff, b*dx, shape, err, 'spectrum', f'{shape} {conv} {fit} n={n} low={low} {u}')
    mon.close(r.x_data.to(u).magnitude, edges, 'x-data', rtol=1e-12)
    mon.check(r.x_tick_labels == s.x_tick_labels, 'tick-labels')
    mon.event('collection-callable' if coll else 'spectrum-callable')
    mon.evaluated((spec, n, shape, conv, fit, coll))


def run_spectrum2d(spec, mon, rng):
    from euphonic import ureg
    ax = objs.pick(rng, ['x', 'y'])
    unit = objs.pick(rng, ['meV', '1/cm', 'THz'])
    n, m = int(rng.integers(60, 160)), int(rng.integers(2, 5))
    s = objs.spectrum2d(rng, nx=n if ax == 'x' else m, ny=m if ax == 'x' else n, xe=True if ax == 'x' else None,
                        ye=True if ax == 'y' else None, xreg=True, yreg=True, xu=unit if ax == 'x' else None, yu=unit if ax == 'y' else None)
    edges = getattr(s, ax + '_data').magnitude
    dx = edges[1] - edges[0]
    shape, conv, fit, err, kw, low = fkw(rng, mon, dx, unit)
    npf, qf = make_fn(rng, unit, edges[0], edges[-1], dx, n)
    if low is not None:
        kw[ax + '_width_lower_limit'] = ureg.Quantity(low, unit).to(objs.pick(rng, objs.ENERGY))
    before = objs.snap(s)
    r = s.broaden(**{ax + '_width': qf}, width_interpolation_error=err, width_fit=fit, **kw)
    mon.check(objs.snap(s) == before, 'inputs-modified')
    cen = .5*(edges[1:] + edges[:-1])
    eff = eff_width(npf(cen), shape, conv, low, dx)
    a, b = r.z_data.to(s.z_data.units).magnitude, s.z_data.magnitude
    if ax == 'x':
        a, b = a.T, b.T
    for u, v in zip(a, b):
        judge(mon, u, edges, cen, eff, v*dx, shape, err, 'spectrum2d', f'axis {ax} {shape} {conv} {fit} n={n} low={low}')
    mon.event('spectrum2d-callable-' + ax)
    for k in 'xy':
        mon.close(getattr(r, k + '_data').magnitude, getattr(s, k + '_data').magnitude, 'axis', rtol=1e-12)
    mon.check(r.x_tick_labels == s.x_tick_labels and r.metadata == s.metadata, 'labels-metadata')
    mon.evaluated((spec, n, shape, conv, fit, ax))
