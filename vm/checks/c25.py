"""C25: sampling functions and powder averages."""
import numpy as np
from .. import core, gen, objs
from .c22 import oracle as sqw_oracle, in_atomic

RULE = ('every sampler over sweeps of sizes (all sizes up to 1500 for the variable-row scheme), with and without jitter, polar and '
        'Cartesian, plus Monkhorst-Pack grids; powder DOS, PDOS and structure factors of random force constants for every sampling '
        'scheme against averages the monitor computes q-point by q-point; distinct by (sampler, size, options)')
ASSUMPTIONS = ['the plain polar grid is uniform in angle, not in solid angle, so its moments are those of that density',
               'jitter and random sampling draw from the global numpy generator']
REQUIRED_EVENTS = ['golden', 'square-grid', 'polar-grid', 'improved', 'random', 'recurrence', 'golden-square', 'regular-square', 'jitter',
                   'mp-grid', 'powder-dos', 'powder-pdos', 'powder-sf', 'default-bins', 'dw-given', 'dw-calculated', 'no-temperature',
                   'dw-refused', 'unknown-refused', 'calc-kwargs', 'default-arguments', 'single-row']
SCHEMES = ['golden', 'sphere-projected-grid', 'spherical-polar-grid', 'spherical-polar-improved', 'random-sphere']


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 20}[tier]
    c = [{'kind': 'sphere', 'i': i} for i in range(90*k)]
    c += [{'kind': 'square', 'i': i} for i in range(60*k)]
    c += [{'kind': 'count', 'lo': lo, 'hi': lo + 100} for lo in range(1, 1500 if tier == 'quick' else 8000, 100)]
    c += [{'kind': 'mp', 'i': i} for i in range(60*k)]
    c += [{'kind': 'powder', 'i': i} for i in range(150*k)]
    return c


def moments(p):
    x, y, z = p.T
    return np.array([x, y, z, x*y, y*z, x*z, x*x - y*y, z*z - 1/3, x*x - 1/3, x**3, y**3, z**3]).mean(axis=1)


def grid(n):
    m = int(np.ceil(np.sqrt(n/2)))
    while 2*(m - 1)**2 >= n and m > 1:
        m -= 1
    return m


def sphere(spec, mon, rng):
    from euphonic import sampling as S
    jit = bool(rng.random() < .5)
    which = int(rng.integers(5))
    n = int(rng.integers(1, 12)) if rng.random() < .25 else int(10**rng.uniform(1, 3.3))
    a, b = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    if rng.random() < .25:
        a, b = (1, b) if rng.random() < .5 else (a, 1)
    kw = {'jitter': jit}
    if which == 0:
        f, args, cnt, ev = S.golden_sphere, (n,), n, 'golden'
    elif which == 1:
        f, args, cnt, ev = S.sphere_from_square_grid, (a, b), a*b, 'square-grid'
    elif which == 2:
        f, args, cnt, ev = S.spherical_polar_grid, (a, b), a*b, 'polar-grid'
        mon.event('single-row', a == 1 or b == 1)
    elif which == 3:
        n = max(n, 6)
        f, args, cnt, ev = S.spherical_polar_improved, (n,), n, 'improved'
    else:
        f, args, cnt, ev = S.random_sphere, (n,), n, 'random'
        kw = {}
        jit = True
    st = np.random.get_state()
    p = np.array(list(f(*args, **kw)))
    np.random.set_state(st)
    pol = np.array(list(f(*args, cartesian=False, **kw)))
    mon.event(ev)
    mon.event('jitter', jit)
    mon.evaluated((ev, args, jit))
    if not mon.check(p.shape == (cnt, 3), f'{ev}:count', f'{ev}{args} gave {p.shape}, expected {cnt} points'):
        return
    mon.close(np.linalg.norm(p, axis=1), np.ones(cnt), f'{ev}:unit', 'not unit vectors', rtol=0, atol=1e-12)
    ph, th = pol[:, 1], pol[:, 2]
    mon.close(pol[:, 0], np.ones(cnt), f'{ev}:polar', rtol=1e-14)
    mon.close(np.stack([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)], 1), p, f'{ev}:polar-cartesian', rtol=0, atol=1e-12)
    mon.check(((th >= -1e-9) & (th <= np.pi + 1e-9)).all(), f'{ev}:theta-range', f'{th.min()} {th.max()}')
    m = moments(p)
    if which == 0:
        lim = 1.2/n if not jit else 2./np.sqrt(n)
    elif which == 1:
        lim = (4. if not jit else 6.)/min(a, b)**(2 if not jit else 1) if min(a, b) >= 4 else 2.
    elif which == 2:
        m = m - np.array([0, 0, 0, 0, 0, 0, 0, .5 - 1/3, .25 - 1/3, 0, 0, 0])
        lim = (1e-10 if not jit else 5./min(a, b)) if min(a, b) >= 4 else 2.
    elif which == 3:
        lim = 5./n if not jit else 2./np.sqrt(n)
    else:
        lim = 3.2/np.sqrt(n)
    mon.check(np.abs(m).max() <= lim, f'{ev}:moments', f'{ev}{args} jitter={jit}: moments {np.abs(m).max():.3g} > {lim:.3g}')
    if cnt > 1 and not (which == 4):
        # no large holes and, without jitter, no coincident points
        t = np.array([[np.sqrt(max(0, 1 - z*z))*np.cos(k*2.399963), np.sqrt(max(0, 1 - z*z))*np.sin(k*2.399963), z]
                      for k, z in enumerate(np.linspace(-.999, .999, 400))])
        gap = np.max(np.min(np.linalg.norm(t[:, None] - p[None], axis=2), axis=1))
        lim = {0: 3.2 if not jit else 8., 3: 3.2 if not jit else 8., 1: 9., 2: 9.}[which]
        s = np.sqrt(n) if which in (0, 3) else min(a, b)
        mon.check(gap <= max(lim/s, 0) or gap <= 2 and lim/s > 1.6, f'{ev}:gap', f'{ev}{args} jitter={jit}: hole of radius {gap:.3g}')
    if jit:
        q = np.array(list(f(*args, **kw)))
        mon.check(cnt < 2 or q.shape == p.shape, f'{ev}:jitter-count')
        base = None if which == 4 else np.array(list(f(*args)))
        if base is not None and cnt > 1:
            mon.check(np.abs(base - p).max() > 0, f'{ev}:jitter-nothing', 'jitter did not move any point')
    else:
        q = np.array(list(f(*args, **kw)))
        mon.check(np.array_equal(p, q), f'{ev}:deterministic')


def square(spec, mon, rng):
    from euphonic import sampling as S
    if rng.random() < .35:
        n, order = int(rng.integers(1, 400)), int(rng.integers(1, 6))
        p = np.array(list(S.recurrence_sequence(n, order=order)))
        mon.event('recurrence')
        mon.evaluated(('recurrence', n, order))
        if not mon.check(p.shape == (n, order), 'recurrence:count', f'{p.shape} for {n},{order}'):
            return
        mon.check(((p >= 0) & (p < 1)).all(), 'recurrence:range')
        r = np.roots([1] + [0]*(order - 1) + [-1, -1])
        g = max(x.real for x in r if abs(x.imag) < 1e-9)
        e = np.arange(n)[:, None]*g**-np.arange(1, order + 1.)
        d = p - e
        mon.close(d - np.rint(d), np.zeros(d.shape), 'recurrence:formula', rtol=0, atol=1e-6*n)
        if n >= 50:
            mon.close(p.mean(axis=0), np.full(order, .5), 'recurrence:mean', rtol=0, atol=6./np.sqrt(n) if order > 2 else 3/np.sqrt(n))
        return
    off, jit = bool(rng.random() < .6), bool(rng.random() < .5)
    if rng.random() < .5:
        n = int(rng.integers(1, 900))
        st = np.random.get_state()
        p = np.array(list(S.golden_square(n, offset=off, jitter=jit)))
        np.random.set_state(st)
        ev = 'golden-square'
        base = np.stack([np.arange(n)/n + (1/(2*n) if off else 0), np.arange(n)/((1 + 5**.5)/2) % 1], 1)
        reach = np.full(2, .5/np.sqrt(n))
    else:
        a, b = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        n = a*b
        p = np.array(list(S.regular_square(a, b, offset=off, jitter=jit)))
        ev = 'regular-square'
        base = np.array([((j + .5*off)/b, (i + .5*off)/a) for j in range(b) for i in range(a)])
        reach = np.array([.5/b, .5/a])
    mon.event(ev)
    mon.event('jitter', jit)
    mon.evaluated((ev, n, off, jit))
    if not mon.check(p.shape == (n, 2), f'{ev}:count', f'{p.shape} for {n}'):
        return
    mon.check(((p >= 0) & (p < 1 + 1e-12)).all(), f'{ev}:range', f'points outside the unit square, min {p.min()} max {p.max()} offset={off} jitter={jit}')
    # same cells, whatever the order in which they are visited
    if ev == 'regular-square':
        o1, o2 = np.lexsort(np.round(base, 9).T), None
        if jit:
            d = p - base
        else:
            o2 = np.lexsort(np.round(p, 9).T)
            d = p[o2] - base[o1]
    else:
        d = p - base
    d -= np.rint(d)
    mon.check((np.abs(d) <= (reach if jit else 0) + 1e-10).all(), f'{ev}:position', f'off by {np.abs(d).max():.3g}')


def count(spec, mon):
    from euphonic import sampling as S
    for n in range(spec['lo'], spec['hi']):
        if n >= 6:
            k = sum(1 for _ in S.spherical_polar_improved(n))
            mon.check(k == n, 'improved:count', f'spherical_polar_improved({n}) gave {k} points')
        else:
            mon.raises(lambda: list(S.spherical_polar_improved(n)), ValueError, 'improved:too-few')
        if n % 3 == 0:
            mon.check(sum(1 for _ in S.golden_sphere(n)) == n, 'golden:count')
    mon.evaluated(('count', spec['lo']))


def mp(spec, mon, rng):
    from euphonic.util import mp_grid
    g = tuple(int(x) for x in rng.integers(1, 9, 3))
    if rng.random() < .3:
        g = tuple(np.int64(x) for x in g)
    q = mp_grid(g if rng.random() < .7 else np.array(g))
    mon.event('mp-grid')
    mon.evaluated(('mp', g))
    exp = {(round((2*i - g[0] - 1)/(2*g[0]), 10), round((2*j - g[1] - 1)/(2*g[1]), 10), round((2*k - g[2] - 1)/(2*g[2]), 10))
           for i in range(1, g[0] + 1) for j in range(1, g[1] + 1) for k in range(1, g[2] + 1)}
    got = [tuple(float(round(v, 10)) + 0. for v in x) for x in q]
    mon.check(len(got) == len(exp) and set(got) == exp, 'mp-grid', f'grid {g}: {len(got)} points, {len(set(got) - exp)} unexpected, {len(exp - set(got))} missing')
    mon.check({tuple(-v + 0. for v in x) for x in got} == set(got), 'mp-symmetric')


def sample_points(scheme, n, jit):
    from euphonic import sampling as S
    if scheme == 'golden':
        return np.array(list(S.golden_sphere(n, jitter=jit)))
    if scheme == 'spherical-polar-improved':
        return np.array(list(S.spherical_polar_improved(n, jitter=jit)))
    if scheme == 'random-sphere':
        return np.array(list(S.random_sphere(n)))
    m = grid(n)
    f = S.sphere_from_square_grid if scheme == 'sphere-projected-grid' else S.spherical_polar_grid
    return np.array(list(f(2*m, m, jitter=jit)))


def powder(spec, mon, rng):
    from euphonic import ureg
    from euphonic.util import mp_grid
    from euphonic import powder as P
    d = gen.system(rng, nmax=4, polar=rng.random() < .2)
    if len(d['atom_r']) > 3:
        raise core.SkipCase
    fc = gen.make_fc(d)
    T = {'H': 1, 'Li': 1}
    scheme = objs.pick(rng, SCHEMES)
    default = rng.random() < .1
    n = int(rng.integers(6, 60)) if not default else 1000
    if scheme == 'spherical-polar-grid' and rng.random() < .1:
        n = int(rng.integers(1, 3))
    jit = bool(rng.random() < .4) and not default
    qm = float(rng.uniform(.1, 6))
    modq = (qm*ureg('1/angstrom')).to(objs.pick(rng, ['1/angstrom', '1/bohr', '1/nm']))
    kw = {}
    if rng.random() < .6:
        kw = {'asr': objs.pick(rng, ['reciprocal', 'realspace', None]), 'use_c': bool(rng.random() < .5)}
        if rng.random() < .3 and d['born'] is not None:
            kw['dipole'] = False
        mon.event('calc-kwargs')
    skw = {} if default else {'sampling': scheme, 'npts': n, 'jitter': jit}
    if default:
        scheme = 'golden'
        mon.event('default-arguments')
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    u = sample_points(scheme, n, jit)
    np.random.seed(seed)
    cell = d['cell']
    q = (u*qm*gen.BOHR)@cell.T/(2*np.pi)
    kind = objs.pick(rng, ['dos', 'pdos', 'sf', 'sf'])
    # independent average, one q-point at a time
    if kind == 'dos':
        ph = [fc.calculate_qpoint_frequencies(x[None], **kw) for x in (q if not default else q[:0])]
        if default:
            ph = [fc.calculate_qpoint_frequencies(q, **kw)]
    else:
        ph = [fc.calculate_qpoint_phonon_modes(x[None], **kw) for x in (q if not default else q[:0])]
        if default:
            ph = [fc.calculate_qpoint_phonon_modes(q, **kw)]
    f = np.concatenate([p.frequencies.to('meV').magnitude for p in ph])
    fmax = f.max()
    bins_given = rng.random() < .75
    if bins_given:
        e = np.linspace(max(.05, fmax*.02)*(1 if rng.random() < .5 else -1), fmax*rng.uniform(.6, 1.2), int(rng.integers(2, 40)))
        bins = (e*ureg('meV')).to(objs.pick(rng, ['meV', 'THz', '1/cm']))
        bkw = {'energy_bins': bins}
    else:
        e = np.linspace(0, fmax*1.05, 1001)
        bkw = {}
        mon.event('default-bins')
        if fmax <= 0:
            raise core.SkipCase
    near = np.min(np.abs(np.abs(f)[..., None] - np.abs(e)), axis=-1)
    if near.min() < 1e-8*max(fmax, 1) or np.abs(f).min() < .01:
        raise core.SkipCase
    H = ureg('meV').to('hartree').magnitude
    before = objs.snap(fc)
    np.random.seed(seed)
    if kind == 'dos':
        r = P.sample_sphere_dos(fc, modq, **skw, **bkw, **kw)
        h = np.array([np.histogram(x, e)[0] for x in f]).mean(axis=0)/np.diff(e)/len(d['atom_r'])
        got = per_mev(r.y_data, r.x_data)
        mon.close(got, h, 'powder-dos', f'{scheme} {n}', rtol=1e-9)
        mon.event('powder-dos')
    elif kind == 'pdos':
        w = objs.pick(rng, [None, 'coherent', 'incoherent', 'coherent-plus-incoherent'])
        wkw = {} if w is None and rng.random() < .5 else {'weighting': w}
        if w in ('coherent', 'incoherent') and rng.random() < .7:
            wkw['cross_sections'] = {t: float(rng.uniform(.1, 9))*ureg('barn') for t in set(d['atom_type'])}
        r = P.sample_sphere_pdos(fc, modq, **skw, **bkw, **wkw, **kw)
        B = bins if bins_given else e*ureg('meV')
        each = [p.calculate_pdos(B, **wkw) for p in ph]
        if not mon.check(list(r.iter_metadata()) == list(each[0].iter_metadata()), 'pdos-metadata', f'{list(r.iter_metadata())}'):
            return
        for j in range(len(each[0])):
            h = np.mean([x.y_data.to(each[0].y_data.units).magnitude[j] for x in each], axis=0)
            fac = 1 if bins_given else ureg.Quantity(1., 'meV').to(r.x_data.units).magnitude
            got = r.y_data[j].magnitude*fac
            if bins_given:
                mon.check(r.y_data.units == each[0].y_data.units, 'pdos-unit')
            mon.close(got, h, 'powder-pdos', f'{scheme} {n} {w}', rtol=1e-8)
        mon.event('powder-pdos')
    else:
        t = [None, 0., float(rng.uniform(5, 500)), 273.][int(rng.integers(4))]
        tab = {x: float(rng.uniform(-9, 9)) for x in set(d['atom_type'])}
        dw = None
        akw = {}
        if t != 273. or rng.random() < .5:
            akw['temperature'] = None if t is None else t*ureg('K')
        sp = float(rng.uniform(.3, .6))*ureg('1/angstrom')
        if rng.random() < .35 and t is not None:
            dw = fc.calculate_qpoint_phonon_modes(rng.uniform(.1, .4, (4, 3)), **kw).calculate_debye_waller(t*ureg('K'))
            akw['dw'] = dw
            mon.event('dw-given')
        else:
            akw['dw_spacing'] = sp
            if t is not None:
                spec_ = [int(np.ceil(np.linalg.norm(2*np.pi*np.linalg.inv(cell).T[i])/gen.BOHR/sp.magnitude)) for i in range(3)]
                dw = fc.calculate_qpoint_phonon_modes(mp_grid(tuple(spec_)), **kw).calculate_debye_waller(t*ureg('K'))
                mon.event('dw-calculated')
        mon.event('no-temperature', t is None)
        sl = {x: v*ureg('fm') for x, v in tab.items()}
        named = rng.random() < .2
        if named:
            from euphonic.util import get_reference_data
            sl = get_reference_data('Sears1992', 'coherent_scattering_length')
            if rng.random() < .5:
                akw['scattering_lengths'] = 'Sears1992'
        else:
            akw['scattering_lengths'] = sl
        r = P.sample_sphere_structure_factor(fc, modq, **skw, **bkw, **akw, **kw)
        s = np.concatenate([p.calculate_structure_factor(sl, dw=dw).structure_factors.to('mbarn').magnitude for p in ph])
        exp = sqw_oracle(f*H, s, e*H, t, True).mean(axis=0)
        eu = str(r.x_data.units)
        su = ph[0].calculate_structure_factor(sl).structure_factors_unit
        got = in_atomic(mon, r.y_data, su, eu)
        mon.close(got, exp, 'powder-sf', f'{scheme} {n} T={t}', rtol=1e-5)
        mon.event('powder-sf')
        if dw is not None and rng.random() < .3:
            t2 = t*1.2 + 3 if t == 0 or rng.random() < .5 else 0.
            mon.raises(lambda: P.sample_sphere_structure_factor(fc, modq, npts=6, dw=dw, temperature=t2*ureg('K'), scattering_lengths=sl),
                       ValueError, 'dw-refused')
            mon.event('dw-refused')
    mon.close(r.x_data.to('meV', 'spectroscopy').magnitude, e, 'powder-bins', rtol=1e-9)
    if rng.random() < .2:
        mon.raises(lambda: P.sample_sphere_dos(fc, modq, sampling='gold', npts=8), ValueError, 'unknown-refused')
        mon.event('unknown-refused')
    mon.check(objs.diff(before, objs.snap(fc)) is None, 'mutated', 'powder average changed the force constants')
    mon.evaluated((spec['i'], scheme, n, kind))
    mon.sample({'scheme': scheme, 'npts': n, 'jitter': jit, 'kind': kind, 'mod_q': qm})


def per_mev(y, x):
    """DOS value per meV whatever units it is displayed in."""
    from euphonic import ureg
    u = ureg.Quantity(1., x.units)
    return (y*u).to('dimensionless').magnitude/u.to('meV', 'spectroscopy').magnitude


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, *spec.values())
    k = spec['kind']
    if k == 'count':
        return count(spec, mon)
    {'sphere': sphere, 'square': square, 'mp': mp, 'powder': powder}[k](spec, mon, rng)
