"""C26: kinematic constraints."""
import numpy as np
from .. import core, objs

RULE = ('random spectra in (|Q|, energy or wavenumber) on even and uneven grids given as edges or centres, both geometries, random incident '
        'and final energies, angle ranges of any order, sign and winding; a scan over scattering angles and the quadratic energy balance '
        'is the oracle; distinct by (case, spectrum)')
ASSUMPTIONS = ['a bin is represented by its |Q| interval at its energy-bin centre',
               'bins within relative 1e-9 of the boundary of the reachable region are not judged']
REQUIRED_EVENTS = ['masked', 'kept', 'direct', 'indirect', 'wavenumber-axis', 'turning-point-pi', 'turning-point-2pi', 'turning-point-3pi',
                   'negative-angle', 'reversed-range', 'equivalent-range', 'units-invariance', 'energy-above-incident', 'zero-width-range',
                   'centres', 'refused', 'all-masked', 'full-range', 'already-nan', 'exact-incident-energy']

HBAR2_2M = 2.0721248  # meV angstrom^2, independent of the package's constants (CODATA, 8 digits)


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 40}[tier]
    return [{'kind': 'mask', 'i': i} for i in range(700*k)] + [{'kind': 'bad', 'i': i} for i in range(40*k)]


def cos_limits(a, b):
    """Extremes of cos over degrees [a, b] by exact reasoning on multiples of 180."""
    lo, hi = min(a, b), max(a, b)
    c = [np.cos(np.radians(lo)), np.cos(np.radians(hi))]
    k = np.ceil(lo/180)
    while k*180 <= hi:
        c.append(1. if k % 2 == 0 else -1.)
        k += 1
    return max(c), min(c)


def edges_of(ax, n):
    if len(ax) == n + 1:
        return ax
    mid = (ax[1:] + ax[:-1])/2
    return np.concatenate([[ax[0]], mid, [ax[-1]]])


def centres_of(ax, n):
    return (ax[1:] + ax[:-1])/2 if len(ax) == n + 1 else ax


def oracle(xe, yc, e, geom, ang):
    """(reachable, near boundary) per (x bin, y bin); angstrom^-1, meV."""
    out = np.zeros((len(xe) - 1, len(yc)), bool)
    near = np.zeros_like(out)
    cmax, cmin = cos_limits(*ang)
    for j, w in enumerate(yc):
        ei, ef = (e, e - w) if geom == 'direct' else (e + w, e)
        scale = abs(e) + abs(w)
        if abs(min(ei, ef)) < 1e-9*scale:
            near[:, j] = True
        if ei < 0 or ef < 0:
            continue
        ki, kf = np.sqrt(ei/HBAR2_2M), np.sqrt(ef/HBAR2_2M)
        q2 = ki*ki + kf*kf - 2*ki*kf*np.array([cmax, cmin])
        q = np.sqrt(np.maximum(q2, 0))
        tol = 1e-7*(ki + kf) if q2[0] > 1e-6*(ki*ki) else 2e-3*(ki + kf)
        out[:, j] = (xe[1:] >= q[0]) & (xe[:-1] <= q[1])
        near[:, j] |= (abs(xe[1:] - q[0]) < tol) | (abs(xe[:-1] - q[1]) < 1e-7*(ki + kf))
    return out, near


def angle_range(rng, mon):
    k = int(rng.integers(8))
    if k == 0:
        mon.event('full-range')
        return (0., 180.)
    if k <= 2:
        a = tuple(sorted(rng.uniform(0, 180, 2)))
    elif k == 3:
        a = tuple(sorted(rng.uniform(-180, 180, 2)))
    elif k == 4:
        a = tuple(np.sort(rng.uniform(-720, 900, 2)))
    elif k == 5:
        a = (float(rng.uniform(300, 359)),)
        a = (a[0], a[0] + float(rng.uniform(60, 300)))
    elif k == 6:
        x = float(rng.uniform(1, 179))
        a = (x, x)
        mon.event('zero-width-range')
    else:
        a = tuple(float(x) for x in rng.choice([-90, 0, 90, 180, 270, 360, 3, 135, 30], 2))
    if rng.random() < .2:
        a = a[::-1]
        mon.event('reversed-range')
    return tuple(float(x) for x in a)


def note_angles(mon, a):
    lo, hi = min(a), max(a)
    base = np.floor(lo/360)*360
    for k, n in ((1, 'pi'), (2, '2pi'), (3, '3pi')):
        if lo < base + 180*k < hi:
            mon.event('turning-point-' + n)
    if lo < 0:
        mon.event('negative-angle')


def mask(spec, mon, rng):
    from euphonic import Spectrum2D, ureg
    from euphonic.spectra import apply_kinematic_constraints
    nx, ny = int(rng.integers(2, 40)), int(rng.integers(2, 30))
    e = float(np.exp(rng.uniform(np.log(2), np.log(400))))
    kk = np.sqrt(e/HBAR2_2M)
    geom = 'direct' if rng.random() < .5 else 'indirect'
    mon.event(geom)
    xe = rng.random() < .5
    ye = rng.random() < .5
    m = nx + 1 if xe else nx
    x = np.linspace(0., rng.uniform(.3, 2.5)*kk, m) if rng.random() < .5 else rng.uniform(0, .3)*kk + np.cumsum(rng.uniform(.01, 3*kk/m, m))
    lo = rng.uniform(-1.3, .2)*e
    y = np.linspace(lo, rng.uniform(.3, 1.5)*e, ny + 1 if ye else ny)
    if rng.random() < .4:
        y = np.sort(np.concatenate([y[:1], rng.uniform(y[0], y[-1], len(y) - 2), y[-1:]])) if len(y) > 2 else y
        if np.min(np.diff(y)) <= 0:
            raise core.SkipCase('coincident bins')
    exact = False
    if not ye and rng.random() < .15:
        # a bin centre exactly at the energy where the neutron stops
        y = np.linspace(e*(-1 if geom == 'indirect' else 0), e*(0 if geom == 'indirect' else 1), max(ny, 2))
        ny = len(y)
        exact = True
    z = rng.normal(size=(nx, ny))
    if rng.random() < .3:
        z[rng.random(z.shape) < .1] = np.nan
        mon.event('already-nan')
    xu = objs.pick(rng, ['1/angstrom', '1/bohr', '1/nm', '1/angstrom'])
    yu = objs.pick(rng, ['meV', 'meV', '1/cm', 'THz*planck_constant', 'hartree', 'eV', 'kelvin*boltzmann_constant'])
    if yu == '1/cm':
        mon.event('wavenumber-axis')
        yq = ureg.Quantity(y, 'meV').to('1/cm', 'spectroscopy')
    else:
        yq = ureg.Quantity(y, 'meV').to(yu)
    if not xe or not ye:
        mon.event('centres')
    s = Spectrum2D(ureg.Quantity(x, '1/angstrom').to(xu), yq, ureg.Quantity(z, objs.pick(rng, objs.YUNITS)),
                   x_tick_labels=objs.labels(rng, nx), metadata=objs.common_meta(rng))
    ang = angle_range(rng, mon)
    note_angles(mon, ang)
    eq = ureg.Quantity(e, 'meV').to(objs.pick(rng, ['meV', 'eV', 'hartree', 'J']))
    kw = {'e_i' if geom == 'direct' else 'e_f': eq}
    before = objs.snap(s)
    args = objs.snap(eq)
    default = ang == (0., 180.) and rng.random() < .5
    got = apply_kinematic_constraints(s, **kw) if default else apply_kinematic_constraints(s, angle_range=ang, **kw)
    mon.check(objs.snap(s) == before, 'input-modified', objs.diff(before, objs.snap(s)))
    mon.check(objs.snap(eq) == args, 'argument-modified')
    xed, yc = edges_of(x, nx), centres_of(y, ny)
    keep, near = oracle(xed, yc, e, geom, ang)
    zg = got.z_data.to(s.z_data.units).magnitude
    if not mon.check(zg.shape == z.shape, 'shape'):
        return
    isnan = np.isnan(zg)
    bad = (isnan != (~keep | np.isnan(z))) & ~near
    mon.check(not bad.any(), 'wrong-mask', f'{int(bad.sum())} of {bad.size} bins wrong, first {np.argwhere(bad)[:1].tolist()}', e=e, geom=geom, ang=ang)
    mon.check(np.array_equal(zg[~isnan], z[~isnan]) or np.allclose(zg[~isnan], z[~isnan], rtol=1e-13, atol=0), 'kept-value-changed')
    for k in ('x_data', 'y_data'):
        a, b = getattr(got, k), getattr(s, k)
        mon.check(a.units == b.units and np.array_equal(a.magnitude, b.magnitude), 'axis-changed', k)
    mon.check(got.z_data.units == s.z_data.units, 'unit-changed')
    mon.check(got.x_tick_labels == s.x_tick_labels and got.metadata == s.metadata, 'annotations-changed')
    if exact:
        # the stopped neutron: Q = k, a single value
        j = -1 if geom == 'direct' else 0
        tol = 2e-4*kk
        inside = (xed[1:] > kk + tol) & (xed[:-1] < kk - tol) & ~np.isnan(z[:, j])
        # 0 within rounding may be negative: either all are masked or exactly the bin holding k is kept
        outside = (xed[1:] < kk - tol) | (xed[:-1] > kk + tol)
        mon.check(isnan[outside, j].all(), 'stopped-neutron', 'bins without Q = k kept at the stopping energy')
        if (y[j] == e if geom == 'direct' else y[j] == -e) and yu == 'meV' and eq.units == ureg('meV').units:
            mon.check(not isnan[inside, j].any(), 'stopped-neutron', 'the bin with Q = k is reachable at the stopping energy')
            mon.event('exact-incident-energy')
    j = ~near
    mon.event('masked', int((isnan & j).sum()))
    mon.event('kept', int((~isnan & j).sum()))
    if isnan.all():
        mon.event('all-masked')
    if (yc > e).any() and geom == 'direct' or (yc < -e).any() and geom == 'indirect':
        mon.event('energy-above-incident')
    mon.evaluated((spec['i'], objs.snap(s)), keep.any() and not keep.all())
    # equivalent ranges
    turns = 360*int(rng.integers(-2, 3))
    eqv = objs.pick(rng, [(ang[1], ang[0]), (ang[0] + turns, ang[1] + turns), (-ang[0], -ang[1])])
    g2 = np.isnan(apply_kinematic_constraints(s, angle_range=eqv, **kw).z_data.magnitude)
    mon.check((g2 == isnan)[j].all(), 'equivalent-range', f'{ang} and {eqv} mask different bins')
    mon.event('equivalent-range')
    # units
    t = s.copy()
    t.x_data_unit = objs.pick(rng, ['1/angstrom', '1/bohr', '1/nm'])
    if yu != '1/cm':
        t.y_data_unit = objs.pick(rng, ['meV', 'eV', 'hartree'])
    g3 = np.isnan(apply_kinematic_constraints(t, angle_range=ang, **{k: v.to('eV') for k, v in kw.items()}).z_data.magnitude)
    mon.check((g3 == isnan)[j].all(), 'units-invariance', 'other units mask other bins')
    mon.event('units-invariance')
    # nested ranges: a wider one keeps at least as much
    wide = (min(ang) - 5, max(ang) + 5)
    g4 = np.isnan(apply_kinematic_constraints(s, angle_range=wide, **kw).z_data.magnitude)
    mon.check(not (g4 & ~isnan)[j].any(), 'wider-range-masks-more', f'{wide} masks bins that {ang} keeps')
    mon.sample({'e': e, 'geom': geom, 'angles': ang, 'kept': int((~isnan).sum()), 'of': isnan.size})


def bad(spec, mon, rng):
    from pint import DimensionalityError
    from euphonic import ureg
    from euphonic.spectra import apply_kinematic_constraints
    s = objs.spectrum2d(rng, xu='1/angstrom', yu='meV')
    e = 30*ureg('meV')
    k = objs.snap(s)
    mon.raises(lambda: apply_kinematic_constraints(s), ValueError, 'accepted-no-energy')
    mon.raises(lambda: apply_kinematic_constraints(s, e_i=e, e_f=e), ValueError, 'accepted-both-energies')
    for xu, yu in (('meV', 'meV'), ('angstrom', 'meV'), ('dimensionless', 'meV'), ('1/angstrom', 'K'), ('1/angstrom', 'dimensionless'),
                   ('1/angstrom', 'amu')):
        b = objs.spectrum2d(rng, xu=xu, yu=yu)
        mon.raises(lambda: apply_kinematic_constraints(b, e_i=e), (ValueError, DimensionalityError), 'accepted-units', f'x in {xu}, y in {yu}')
    mon.check(objs.snap(s) == k, 'input-modified')
    mon.event('refused')
    mon.evaluated(('bad', spec['i']))


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, 'c26', spec['kind'], spec['i'])
    {'mask': mask, 'bad': bad}[spec['kind']](spec, mon, rng)
