"""C19: fixed-width broadening is convolution with a normalised line shape."""
import warnings
import numpy as np
from .. import core, objs

RULE = ('random 1-D/2-D spectra and collections (edges/centres, any unit, any number of bins), widths in any unit, both shapes and '
        'axes: broadened data against an explicit matrix of unit-sum kernels of the requested FWHM; linearity, separability, '
        'integral conservation, refusal of unequal bins; distinct by (kind, case, shape, axes)')
ASSUMPTIONS = ['Gaussian kernels may be cut off at four standard deviations or beyond (2e-4 of the data scale)',
               'bins count as equal if their centres are equally spaced to 1e-5',
               'Lorentzian kernels are normalised over the window reachable from any bin to any other']
REQUIRED_EVENTS = ['spectrum1d-gauss', 'spectrum1d-lorentz', 'collection-gauss', 'collection-lorentz', 'spectrum2d-gauss',
                   'spectrum2d-lorentz', 'both-axes', 'unequal-refused', 'unequal-forced', 'linearity', 'integral', 'no-width',
                   'small-unit', 'mixed-callable']


def cases(tier, seed):
    n = {'quick': 260, 'thorough': 8000}[tier]
    return [{'kind': k, 'i': i} for k in ('spectrum1d', 'collection', 'spectrum2d') for i in range(n)]


def gmat(n, sig):
    d = np.arange(n)[:, None] - np.arange(n)[None]
    r = int(9*sig) + 2
    k = np.exp(-.5*(np.arange(-r, r + 1)/sig)**2)
    return np.exp(-.5*(d/sig)**2)/k.sum()


def lmat(n, fwhm, spacing=1., half=None):
    """Matrix of Lorentzian kernels sampled every ``spacing`` bins."""
    half = n - 1 if half is None else half
    k = np.arange(-half, half + 1)*spacing
    ker = 1/(k*k + fwhm*fwhm/4)
    ker = ker/ker.sum()
    d = np.arange(n)[:, None] - np.arange(n)[None]
    return ker[d + half]


def mats(n, fwhm, shape):
    """Acceptable matrices, and the one of the known finding."""
    if shape == 'gauss':
        return [gmat(n, fwhm/np.sqrt(8*np.log(2)))], None
    return [lmat(n, fwhm), lmat(n, fwhm, half=n)], lmat(n, fwhm, spacing=(n - 1)/n, half=n)


def centres(b, n):
    return .5*(b[1:] + b[:-1]) if len(b) == n + 1 else b


def judge(mon, got, y, per_axis, shape, key, msg):
    """per_axis: {axis of y: (n, fwhm in bins)}"""
    tol = 2e-4 if shape == 'gauss' else 1e-9

    def app(choice):
        out = y
        for ax, (n, fw) in per_axis.items():
            ok, known = mats(n, fw, shape)
            M = known if choice == 'known' else ok[min(choice, len(ok) - 1)]
            out = np.moveaxis(np.tensordot(M, out, (1, ax)), 0, ax)
        return out
    scale = np.max(np.abs(y))
    if got.shape != y.shape:
        return mon.check(False, key + ':shape', msg)
    errs = [np.max(np.abs(got - app(c))) for c in range(2)]
    mon.evals += 1
    if min(errs) <= tol*scale:
        return True
    if shape == 'lorentz' and np.max(np.abs(got - app('known'))) <= tol*scale:
        mon.fail('lorentzian-kernel-spacing', f'{msg}: kernel spaced (n-1)/n of a bin')
        return True
    mon.fail(key, f'{msg}: differs from convolution by {min(errs):.3g} (data scale {scale:.3g})')
    return False


def width(rng, n):
    """FWHM in bins"""
    return float(np.exp(rng.uniform(np.log(.3), np.log(max(1., n/3)))))


def run_case(spec, mon):
    from euphonic import ureg
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    if spec['kind'] == 'spectrum2d':
        return run_2d(spec, mon, rng)
    coll = spec['kind'] == 'collection'
    n = int(rng.integers(2, 70))
    xu = objs.pick(rng, ['meV', '1/cm', 'THz', 'hartree', 'J', 'cm', '1/angstrom'])
    mon.event('small-unit', xu == 'J')
    forced = rng.random() < .25
    edges = rng.random() < .5
    x = rng.uniform(-20, 20) + rng.uniform(.1, 3)*np.arange(n + edges)
    if forced and n > 3:
        x = np.cumsum(rng.uniform(.2, 2, n + edges))
    sc = {'J': 1e-22, 'hartree': 1e-3}.get(xu, 1.)
    y = rng.normal(size=(int(rng.integers(1, 5)), n) if coll else n)
    from euphonic import Spectrum1D, Spectrum1DCollection
    cls = Spectrum1DCollection if coll else Spectrum1D
    yu = objs.pick(rng, objs.YUNITS)
    meta = objs.coll_meta(rng, len(y)) if coll else {**objs.common_meta(rng), **objs.line_meta(rng)}
    mk = lambda d: cls(ureg.Quantity(x*sc, xu), ureg.Quantity(d, yu), x_tick_labels=objs.labels(core.rng_for(7, spec['i']), n), metadata=meta)  # noqa: E731,E501
    s = mk(y)
    if rng.random() < .4 and xu in ('meV', '1/cm', 'THz'):
        s.x_data_unit = objs.pick(rng, ['meV', '1/cm', 'THz', 'eV'])
    shape = objs.pick(rng, ['gauss', 'lorentz'])
    c = centres(x, n)
    dx = np.diff(c).mean() if n > 1 else 1.
    fw = width(rng, n)
    alt = {'meV': ['1/cm', 'eV', 'meV'], '1/cm': ['meV', '1/mm', '1/cm'], 'THz': ['meV', 'THz'], 'J': ['J', 'meV'], 'hartree': ['eV', 'hartree'],
           'cm': ['mm', 'angstrom'], '1/angstrom': ['1/nm', '1/bohr']}[xu]
    W = ureg.Quantity(fw*dx*sc, xu).to(objs.pick(rng, alt))
    kw = {'shape': shape}
    unequal = n > 2 and not np.all(np.isclose(np.diff(c), np.diff(c)[0], rtol=1e-5, atol=0))
    before = objs.snap([s, W])
    if unequal:
        mon.raises(lambda: s.broaden(W, **kw), ValueError, 'unequal-accepted', f'unequal bins in {s.x_data_unit}')
        mon.event('unequal-refused')
        kw['method'] = 'convolve'
        mon.event('unequal-forced')
    elif rng.random() < .3:
        kw['method'] = 'convolve'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = s.broaden(W, **kw)
    after = objs.snap([s, W])
    mon.check(after == before, 'inputs-modified', str(objs.diff(before, after)))
    mon.check(type(r) is cls, 'type', str(type(r)))
    mon.check(r.x_data.units == s.x_data.units and r.y_data.units == s.y_data.units, 'units')
    mon.close(r.x_data.magnitude, s.x_data.magnitude, 'axis', rtol=1e-13)
    mon.check(r.x_tick_labels == s.x_tick_labels, 'tick-labels')
    mon.check(r.metadata == s.metadata, 'metadata', f'{r.metadata} {s.metadata}')
    got = r.y_data.to(yu).magnitude
    if shape == 'lorentz' and unequal:
        # the kernel of unequally spaced bins is only approximate: finite and bounded
        mon.check(np.all(np.abs(got) <= 1.0001*np.max(np.abs(y))), 'unequal-bounded')
    elif n > 1:
        judge(mon, got, y, {y.ndim - 1: (n, fw)}, shape, spec['kind'] + ':' + shape, f'{shape} fwhm={fw:.3g} bins of {n}, {xu}')
    mon.event(f'{spec["kind"]}-{shape}')
    if rng.random() < .3 and not unequal:
        y2 = rng.normal(size=y.shape)
        a, b = rng.normal(size=2)
        r2, r3 = mk(y2).broaden(W, **kw), mk(a*y + b*y2).broaden(W, **kw)
        mon.close(r3.y_data.to(yu).magnitude, a*got + b*r2.y_data.to(yu).magnitude, 'linearity', rtol=0, atol=1e-9*(abs(a) + abs(b))*5)
        mon.event('linearity')
    if not unequal and n > 20 and shape == 'gauss' and fw < n/16:
        d = np.zeros(y.shape)
        d[..., n//2] = 1.
        t = mk(d).broaden(W, **kw).y_data.to(yu).magnitude
        mon.close(t.sum(axis=-1), d.sum(axis=-1), 'integral', 'integral of a feature away from the edges', rtol=1e-9)
        mon.event('integral')
    mon.evaluated((spec, n, shape, round(fw, 4)))
    mon.sample({'n': n, 'unit': xu, 'shape': shape, 'fwhm_bins': fw, 'edges': bool(edges)})
    if rng.random() < .1:
        mon.raises(lambda: s.broaden(W, shape='triangle'), ValueError, 'bad-shape')
        mon.raises(lambda: s.broaden(W, method='fft'), ValueError, 'bad-method')
        mon.raises(lambda: s.broaden(1.0), TypeError, 'bad-width')


def run_2d(spec, mon, rng):
    from euphonic import ureg, Spectrum2D
    nx, ny = int(rng.integers(2, 30)), int(rng.integers(2, 30))
    ax_irr = rng.random() < .2
    ay_irr = rng.random() < .2
    xe, ye = rng.random() < .5, rng.random() < .5
    x = np.cumsum(rng.uniform(.2, 2, nx + xe)) if ax_irr else rng.uniform(-5, 5) + rng.uniform(.1, 2)*np.arange(nx + xe)
    y = np.cumsum(rng.uniform(.2, 2, ny + ye)) if ay_irr else rng.uniform(-5, 5) + rng.uniform(.1, 2)*np.arange(ny + ye)
    z = rng.normal(size=(nx, ny))
    zu = objs.pick(rng, objs.YUNITS)
    yu = objs.pick(rng, ['meV', '1/cm'])
    meta = {**objs.common_meta(rng), **objs.line_meta(rng)}
    s = Spectrum2D(ureg.Quantity(x, '1/angstrom'), ureg.Quantity(y, yu), ureg.Quantity(z, zu), x_tick_labels=objs.labels(rng, nx), metadata=meta)
    shape = objs.pick(rng, ['gauss', 'lorentz'])
    kw, per = {'shape': shape}, {}
    ax = objs.pick(rng, ['x', 'y', 'xy', 'xy', ''])
    bad = False
    for i, (k, b, n, u) in enumerate([('x', x, nx, '1/angstrom'), ('y', y, ny, yu)]):
        if k not in ax:
            continue
        c = centres(b, n)
        dx = np.diff(c).mean()
        fw = width(rng, n)
        per[i] = (n, fw)
        kw[k + '_width'] = ureg.Quantity(fw*dx, u).to({'1/angstrom': objs.pick(rng, ['1/angstrom', '1/nm'])}.get(u, objs.pick(rng, ['meV', 'eV', '1/cm'])))
        bad |= n > 2 and not np.all(np.isclose(np.diff(c), np.diff(c)[0], rtol=1e-5, atol=0))
    before = objs.snap([s, kw])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if bad:
            mon.raises(lambda: s.broaden(**kw), ValueError, 'unequal-accepted')
            mon.event('unequal-refused')
            kw['method'] = 'convolve'
            before = objs.snap([s, kw])
        r = s.broaden(**kw)
    mon.check(objs.snap([s, kw]) == before, 'inputs-modified')
    mon.check(type(r) is Spectrum2D, 'type')
    got = r.z_data.to(zu).magnitude
    for k in 'xy':
        mon.close(getattr(r, k + '_data').magnitude, getattr(s, k + '_data').magnitude, 'axis', rtol=1e-13)
    mon.check(r.x_tick_labels == s.x_tick_labels and r.metadata == s.metadata, 'labels-metadata')
    if not per:
        mon.close(got, z, 'no-width', rtol=0)
        mon.event('no-width')
    elif not (bad and shape == 'lorentz'):
        judge(mon, got, z, per, shape, 'spectrum2d:' + shape, f'{shape} axes {ax} {per}')
    mon.event('spectrum2d-' + shape)
    mon.event('both-axes', len(per) == 2)
    if 'x' in ax and ye and not bad and not ay_irr and rng.random() < .5:
        def fn(q):
            return ureg.Quantity(2*(y[1] - y[0]) + 0*q.to(yu).magnitude, yu)
        k1 = {k: v for k, v in kw.items() if k != 'y_width'}
        a = s.broaden(y_width=fn, **k1)
        b = s.broaden(**k1).broaden(y_width=fn, shape=shape)
        mon.close(a.z_data.to(zu).magnitude, b.z_data.to(zu).magnitude, 'mixed-callable', rtol=1e-9)
        mon.event('mixed-callable')
    mon.evaluated((spec, nx, ny, ax, shape))
