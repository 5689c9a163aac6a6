"""C22: S(q,w) maps bin every mode once and obey detailed balance."""
import numpy as np
from .. import core, objs

RULE = ('random structure factors (imaginary modes, weights, temperatures absent/0/low/high, display units), random symmetric and '
        'asymmetric, regular and irregular bins in several units: every map cell against a per-mode sum, plus detailed-balance, '
        'no-gain-at-T=0, integral and 1-D average monitors; distinct by (case, options)')
ASSUMPTIONS = ['no mode lies within rounding error of a bin edge unless it is exactly on it in the same unit (such modes are nudged); no frequency is exactly zero']
REQUIRED_EVENTS = ['map', 'detailed-balance', 'zero-temperature', 'no-bose', 'outside-bins', 'imaginary-modes', 'temperature-refused',
                   'average', 'stored-temperature', 'argument-temperature', 'no-temperature', 'average-weights-argument',
                   'intensity-integral', 'irregular-bins', 'labels', 'modes-on-edges']
KB = 1.380649e-23/4.3597447222071e-18


def cases(tier, seed):
    return [{'i': i} for i in range({'quick': 700, 'thorough': 20000}[tier])]


def oracle(f, s, edges, T, bose):
    """f, edges hartree; T in K or None.  Returns (nq, nbin) in s-unit/hartree."""
    out = np.zeros((len(f), len(edges) - 1))
    for q in range(len(f)):
        for m in range(f.shape[1]):
            w = f[q, m]
            if T is None or not bose:
                a = b = 1.
            elif T == 0:
                a, b = 1., 0.
            else:
                n = 1/np.expm1(abs(w)/(KB*T))
                a, b = 1 + n, n
            for x, y in ((w, a), (-w, b)):
                k = np.nonzero((edges[:-1] <= x) & (x < edges[1:]))[0]
                if len(k):
                    out[q, k[0]] += y*s[q, m]/(edges[k[0] + 1] - edges[k[0]])
    return out


def in_atomic(mon, z, su, eu):
    from euphonic import ureg
    mon.check(z.units == (1*ureg(su)/ureg(eu)).units or z.units == ureg.Quantity(1, f'({su})/({eu})').units, 'unit', f'{z.units} for {su} and {eu}')
    return z.magnitude*ureg.Quantity(1, su).to('mbarn').magnitude/ureg.Quantity(1, eu).to('hartree').magnitude


def run_case(spec, mon):
    from euphonic import ureg, StructureFactor, Spectrum2D
    rng = core.rng_for(mon.seed, spec['i'])
    path = rng.random() < .3
    c, q, f, w = objs.qpf_args(rng, path=path, unit='meV', nq=12 if path else None)
    f = np.array(f.to('meV').magnitude)
    if rng.random() < .2:
        f[rng.random(f.shape) < .3] *= 1e-3
    f = np.sort(f, axis=1)
    mon.event('imaginary-modes', int((f < 0).sum()))
    s = rng.exponential(2., f.shape)
    tk = [None, 0., float(rng.uniform(1, 30)), float(rng.uniform(30, 900))][int(rng.integers(4))]
    su, fu = objs.pick(rng, objs.AREA), objs.pick(rng, objs.ENERGY)
    sym = rng.random() < .5
    hi = float(rng.uniform(20., 140.))
    nb = int(rng.integers(1, 60))
    if sym:
        e = np.linspace(0, hi, nb + 1)
        if rng.random() < .4:
            mon.event('irregular-bins')
            e = np.concatenate([[0], np.cumsum(rng.uniform(.05, 1, nb))])*hi/nb
        e = np.concatenate([-e[::-1][:-1], e])
    else:
        e = np.sort(rng.uniform(-hi if rng.random() < .6 else 0, hi, nb + 1)) if rng.random() < .5 else \
            np.linspace(-hi*rng.random(), hi, nb + 1)
    eu = objs.pick(rng, objs.ENERGY)
    U, H = 'meV', ureg('meV').to('hartree').magnitude
    exact = rng.random() < .25
    if exact:
        # everything in hartree, so that no conversion rounds: some modes exactly on (plus or minus) an edge
        f, e, U, H = f*H, e*H, 'hartree', 1.
        fu = eu = 'hartree'
        k = rng.random(f.shape) < .3
        f[k] = rng.choice(e[e != 0], int(k.sum()))*rng.choice([-1, 1, 1], int(k.sum()))
        mon.event('modes-on-edges', int(k.sum()))
    # keep modes off bin edges
    for _ in range(0 if exact else 20):
        near = np.min(np.abs(np.abs(f)[..., None] - np.abs(e)), axis=-1) < 1e-9*(1 + np.abs(f))
        if not near.any():
            break
        f = np.where(near, f*1.0001 + 1e-7, f)
    f = np.sort(f, axis=1)
    stored = tk is not None and rng.random() < .5
    sf = StructureFactor(c, q, (f*ureg(U)).to(fu), (s*ureg('mbarn')).to(su), weights=w,
                         temperature=(tk*ureg('K')).to(objs.pick(rng, objs.TEMP)) if stored else None)
    if rng.random() < .3:
        sf.frequencies_unit = objs.pick(rng, objs.ENERGY)
        sf.structure_factors_unit = objs.pick(rng, objs.AREA)
    bose = bool(rng.random() < .75)
    arg = None
    if tk is not None and not stored or (stored and rng.random() < .3):
        arg = (tk*ureg('K')).to(objs.pick(rng, objs.TEMP))
        mon.event('argument-temperature')
    mon.event('stored-temperature', stored)
    mon.event('no-temperature', tk is None)
    mon.event('no-bose', not bose)
    bins = (e*ureg(U)).to(eu)
    before = objs.snap(sf), objs.snap(bins)
    kw = {} if bose and rng.random() < .5 else {'calc_bose': bose}
    m = sf.calculate_sqw_map(bins, temperature=arg, **kw) if arg is not None else sf.calculate_sqw_map(bins, **kw)
    mon.check(objs.diff(before, (objs.snap(sf), objs.snap(bins))) is None, 'mutated', 'calculate_sqw_map changed its inputs')
    mon.check(isinstance(m, Spectrum2D), 'type')
    exp = oracle(f*H, s, e*H, tk, bose)
    mag = in_atomic(mon, m.z_data, sf.structure_factors_unit, eu)
    info = f'T={tk} bose={bose}'
    mon.close(mag, exp, 'map', info, rtol=1e-8)
    # tiny cells too: compare cell by cell
    big = exp > 0
    mon.check((np.abs(mag - exp) <= 1e-6*exp + 1e-300)[big].all() and (np.abs(mag[~big]) == 0).all(), 'map-cells', info + ': a cell differs',
              stray=int((mag[~big] != 0).sum()))
    mon.event('map')
    mon.event('outside-bins', int(((f < e[0]) | (f >= e[-1])).sum()))
    mon.evaluated((spec['i'], tk, bose))
    mon.close(m.y_data.to(U).magnitude, e, 'bins', 'energy axis is not the requested bins', rtol=1e-12)
    mon.check(str(m.y_data.units) == str(bins.units), 'bins-unit', f'{m.y_data.units} {bins.units}')
    mon.check(m.z_data.shape == (len(q), len(e) - 1), 'shape')
    nx = len(m.x_data)
    mon.check(nx in (len(q), len(q) + 1), 'x-shape', f'{nx} for {len(q)}')
    x = m.x_data.magnitude
    mon.check((np.diff(x) >= 0).all(), 'x-order')
    if m.x_tick_labels:
        mon.event('labels')
        mon.check(all(0 <= i < len(q) for i, _ in m.x_tick_labels), 'label-range', str(m.x_tick_labels))
    # x axis is the same as that of the dispersion
    disp = sf.get_dispersion()
    mon.check([tuple(t) for t in disp.x_tick_labels] == [tuple(t) for t in m.x_tick_labels], 'labels', f'{m.x_tick_labels} {disp.x_tick_labels}')
    # -- derived guarantees -------------------------------------------------------
    width = np.diff(e)*H
    if sym and bose and tk is not None:
        n = len(e)//2
        loss, gain = mag[:, n:], mag[:, :n][:, ::-1]
        pure = (f > 0).all()
        if tk == 0:
            mon.event('zero-temperature')
            if pure:
                mon.check((gain == 0).all(), 'gain-at-zero-temperature')
        elif pure and not exact:
            # one mode per cell: the exact Boltzmann factor
            for a in range(len(q)):
                k = np.digitize(f[a], e[n:]) - 1
                for b in np.unique(k):
                    if 0 <= b < n:
                        lo, hi_ = np.exp(-e[n + b + 1]*H/(KB*tk)), np.exp(-e[n + b]*H/(KB*tk))
                        g, l = gain[a, b], loss[a, b]
                        mon.check(lo*l*(1 - 1e-7) - 1e-290 <= g <= hi_*l*(1 + 1e-7) + 1e-290, 'detailed-balance',
                                  f'S(-w)/S(w)={g/max(l, 1e-300):.6g} outside [{lo:.6g},{hi_:.6g}] T={tk}')
                        if (k == b).sum() == 1:
                            w1 = f[a][k == b][0]*H
                            mon.close(g, l*np.exp(-w1/(KB*tk)), 'detailed-balance-exact', rtol=1e-7, atol=1e-290)
                        mon.event('detailed-balance')
    if not bose or tk is None:
        tot = (mag*width).sum()
        ins = ((f >= e[0]) & (f < e[-1])).astype(float) + ((-f >= e[0]) & (-f < e[-1]))
        mon.close(tot, (s*ins).sum(), 'intensity-integral', rtol=1e-9)
        mon.event('intensity-integral')
    if stored and tk > 5:
        mon.raises(lambda: sf.calculate_sqw_map(bins, temperature=(tk*1.1 + 1)*ureg('K')), ValueError, 'temperature-refused',
                   'a temperature inconsistent with the stored one')
        mon.event('temperature-refused')
    # -- 1-D average -------------------------------------------------------------
    bose1 = bool(rng.random() < .6)
    wa = rng.uniform(.05, 3, len(q)) if rng.random() < .4 else None
    mon.event('average-weights-argument', wa is not None)
    kw = {'calc_bose': bose1}
    if wa is not None:
        kw['weights'] = wa
    if arg is not None:
        kw['temperature'] = arg
    before = objs.snap(sf)
    av = sf.calculate_1d_average(bins, **kw)
    mon.check(objs.diff(before, objs.snap(sf)) is None, 'mutated', 'calculate_1d_average changed its inputs')
    ww = wa if wa is not None else (w if w is not None else np.ones(len(q)))
    exp1 = (oracle(f*H, s, e*H, tk, bose1)*ww[:, None]).sum(axis=0)/ww.sum()
    mon.close(in_atomic(mon, av.y_data, sf.structure_factors_unit, eu), exp1, 'average', info, rtol=1e-8)
    mon.close(av.x_data.to(U).magnitude, e, 'average-bins', rtol=1e-12)
    mon.event('average')
    mon.sample({'modes': list(f.shape), 'T': tk, 'bose': bose, 'bins': len(e) - 1, 'unit': eu})
