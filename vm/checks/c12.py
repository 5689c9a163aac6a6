"""C12: units are presentation only."""
import warnings
import numpy as np
from .. import core, objs, gen

RULE = ('random objects of every class with quantities supplied in random units and taken through random histories of unit changes, refused '
        'unit changes, reassignments, copies and dict round trips, against a model holding SI values with an independent unit table; and every '
        'calculation repeated with all inputs and displays in other units; distinct by (case, object or calculation, units)')
ASSUMPTIONS = ['CODATA 2018 values to 1e-7', 'lengths displayed as energies through the spectroscopy context of the registry are not judged',
               'values are not within rounding of a bin edge']
REQUIRED_EVENTS = ['Crystal', 'ForceConstants', 'QpointFrequencies', 'QpointPhononModes', 'StructureFactor', 'DebyeWaller', 'Spectrum1D',
                   'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection', 'unit-set', 'refused-unit', 'refused-value', 'value-set', 'copied',
                   'dict', 'offset-temperature', 'wavelength', 'reciprocal-energy', 'calc', 'calc-modes', 'calc-gradients', 'calc-dos', 'calc-pdos',
                   'calc-dos-map', 'calc-debye-waller', 'calc-structure-factor', 'calc-sqw', 'calc-1d-average', 'calc-dispersion', 'calc-broaden1d',
                   'calc-broaden2d', 'calc-variable', 'calc-crystal', 'calc-sphere', 'calc-kinematic', 'calc-widths', 'calc-total-fc',
                   'calc-arithmetic', 'calc-adaptive', 'calc-edges', 'calc-bluebook', 'labels-compared']

h, c, kB, e, a0 = 6.62607015e-34, 299792458., 1.380649e-23, 1.602176634e-19, 5.29177210903e-11
Eh, me, u, mn = 4.3597447222071e-18, 9.1093837015e-31, 1.66053906660e-27, 1.67492749804e-27
# name -> (factor to SI); energies as joule, reciprocal energies as 1/joule
ENERGY = {'meV': 1e-3*e, 'eV': e, 'hartree': Eh, '1/cm': h*c*100, 'THz': h*1e12, 'joule': 1., 'kelvin*boltzmann_constant': kB, 'THz*planck_constant': h*1e12, '1/angstrom': h*c*1e10}
RECIP_E = {'1/meV': 1/(1e-3*e), '1/eV': 1/e, '1/hartree': 1/Eh, 'cm': 1/(h*c*100), '1/THz': 1/(h*1e12), 'nm': 1e-9/(h*c)}
LENGTH = {'bohr': a0, 'angstrom': 1e-10, 'nm': 1e-9, 'pm': 1e-12, 'm': 1., 'micron': 1e-6}
RECIP_L = {'1/bohr': 1/a0, '1/angstrom': 1e10, '1/nm': 1e9, '1/m': 1.}
MASS = {'amu': u, 'm_e': me, 'kg': 1., 'gram': 1e-3, 'neutron_mass': mn}
AREA = {'bohr**2': a0**2, 'angstrom**2': 1e-20, 'mbarn': 1e-31, 'barn': 1e-28, 'fm**2': 1e-30, 'm**2': 1.}
SPRING = {'hartree/bohr**2': Eh/a0**2, 'meV/angstrom**2': 1e-3*e/1e-20, 'eV/angstrom**2': e/1e-20, 'N/m': 1., 'amu*THz**2': u*1e24, 'mN/m': 1e-3}
CHARGE = {'e': e, 'coulomb': 1., 'millicoulomb': 1e-3}
EPS = {'e**2/(bohr*hartree)': e*e/(a0*Eh), 'e**2/(angstrom*eV)': e*e/(1e-10*e), 'coulomb**2/(joule*meter)': 1.}
TEMP = {'K': (1., 0.), 'mK': (1e-3, 0.), 'degC': (1., 273.15), 'degF': (5/9, 459.67*5/9)}
PLAIN = {'dimensionless': 1., 'percent': .01}
PER_AREA_E = {'mbarn/meV': 1e-31/(1e-3*e), 'bohr**2/hartree': a0**2/Eh, 'angstrom**2/eV': 1e-20/e}
KINDS = {'energy': ENERGY, 'recip_energy': RECIP_E, 'length': LENGTH, 'recip_length': RECIP_L, 'mass': MASS, 'area': AREA, 'spring': SPRING,
         'charge': CHARGE, 'eps': EPS, 'temp': TEMP, 'plain': PLAIN, 'xs': PER_AREA_E}
# units no registered conversion leads to
BAD = {'energy': ['K', 'kg', 'e', 'mbarn', 'dimensionless', 'notaunit'], 'recip_energy': ['K', 'mbarn', 'dimensionless'],
       'length': ['kg', 'K', 'bohr**2', 'e', 'dimensionless', 'notaunit'], 'recip_length': ['kg', 'K', 'angstrom**2', 'dimensionless'],
       'mass': ['K', 'm', 'e', 'dimensionless'], 'area': ['m', 'kg', 'meV', 'dimensionless'],
       'spring': ['meV/angstrom', 'meV', 'kg', 'dimensionless'], 'charge': ['meV', 'm', 'dimensionless'], 'eps': ['e', 'dimensionless', 'meV'],
       'temp': ['meV', 'm', 'dimensionless', 'K**2'], 'plain': ['m', 'K', 'meV'], 'xs': ['mbarn', 'meV', '1/meV']}


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 30}[tier]
    return [{'kind': 'hist', 'i': i} for i in range(330*k)] + [{'kind': 'calc', 'i': i} for i in range(400*k)]


def to_unit(x, kind, unit):
    f = KINDS[kind][unit]
    if kind == 'temp':
        return (x - f[1])/f[0]
    if unit == 'nm' and kind == 'energy':
        return h*c/x/1e-9
    return x/f


def quantity(x, kind, unit):
    from euphonic import Quantity
    return Quantity(to_unit(x, kind, unit), unit)


def pick(rng, kind):
    return objs.pick(rng, sorted(KINDS[kind]))


# -- histories -----------------------------------------------------------------
def build(rng, cls):
    """(object, model) with model attr -> [SI value, kind, unit]."""
    import euphonic as eu
    from euphonic.spectra import Spectrum1DCollection, Spectrum2DCollection
    from euphonic import Spectrum1D, Spectrum2D
    M = {}

    def q(name, x, kind):
        unit = pick(rng, kind)
        M[name] = [np.asarray(x, float), kind, unit]
        return quantity(np.array(x, float) if np.ndim(x) else float(x), kind, unit)
    if cls.startswith('Spectrum'):
        xk = objs.pick(rng, ['energy', 'recip_length', 'plain', 'length'])
        yk = objs.pick(rng, ['recip_energy', 'xs', 'plain', 'area'])
        n = int(rng.integers(2, 9))
        x = np.cumsum(rng.uniform(.1, 2, n + int(rng.integers(2))))
        if xk == 'energy':
            x = x*1e-21
        elif xk == 'recip_length':
            x = x*1e10
        elif xk == 'length':
            x = x*1e-10
        s = {'recip_energy': 1e21, 'xs': 1e-10, 'plain': 1, 'area': 1e-31}[yk]
        lab = objs.labels(rng, n)
        if cls == 'Spectrum1D':
            return Spectrum1D(q('x_data', x, xk), q('y_data', rng.normal(size=n)*s, yk), x_tick_labels=lab), M
        if cls == 'Spectrum1DCollection':
            return Spectrum1DCollection(q('x_data', x, xk), q('y_data', rng.normal(size=(3, n))*s, yk), x_tick_labels=lab), M
        y = np.cumsum(rng.uniform(.1, 2, 5))*1e-21
        shape = (n, 5) if cls == 'Spectrum2D' else (2, n, 5)
        o = {'Spectrum2D': Spectrum2D, 'Spectrum2DCollection': Spectrum2DCollection}[cls]
        return o(q('x_data', x, xk), q('y_data', y, 'energy'), q('z_data', rng.normal(size=shape)*s, yk), x_tick_labels=lab), M
    d = objs.system(rng)
    n = len(d['atom_r'])
    cr = eu.Crystal(q('cell_vectors', d['cell']*a0, 'length'), d['atom_r'], d['atom_type'], q('atom_mass', d['atom_mass']*u, 'mass'))
    if cls == 'Crystal':
        return cr, M
    M = {'crystal.' + k: v for k, v in M.items()}
    if cls == 'ForceConstants':
        scm = np.diag([2, 1, 1]).astype(np.int32)
        fc = rng.normal(size=(2, 3*n, 3*n))*50
        kw = {}
        if rng.random() < .7:
            kw = {'born': q('born', rng.normal(size=(n, 3, 3))*e, 'charge'),
                  'dielectric': q('dielectric', (np.eye(3)*4 + rng.normal(size=(3, 3))*.1)*e*e/(a0*Eh), 'eps')}
        return eu.ForceConstants(cr, q('force_constants', fc, 'spring'), scm, np.array([[0, 0, 0], [1, 0, 0]]), **kw), M
    if cls == 'DebyeWaller':
        return eu.DebyeWaller(cr, q('debye_waller', rng.uniform(.1, 1, (n, 3, 3))*1e-21, 'area'),
                              q('temperature', rng.uniform(1, 500), 'temp')), M
    qp = objs.qpts(rng, int(rng.integers(1, 6)))
    f = np.sort(objs.freqs(rng, len(qp), n, rng.random() < .3), axis=1)*1e-3*e
    fq = q('frequencies', f, 'energy')
    w = rng.uniform(.1, 1, len(qp))
    if cls == 'QpointFrequencies':
        return eu.QpointFrequencies(cr, qp, fq, weights=w), M
    if cls == 'QpointPhononModes':
        return eu.QpointPhononModes(cr, qp, fq, objs.evecs(rng, len(qp), n), weights=w), M
    kw = {'temperature': q('temperature', rng.uniform(1, 500), 'temp')} if rng.random() < .7 else {}
    return eu.StructureFactor(cr, qp, fq, q('structure_factors', rng.exponential(1, f.shape)*1e-31, 'area'), weights=w, **kw), M


def owner(o, name):
    return (o.crystal, name[8:]) if name.startswith('crystal.') else (o, name)


def compare(mon, o, M, when):
    for name, (x, kind, unit) in M.items():
        ob, at = owner(o, name)
        v = getattr(ob, at)
        from euphonic import ureg
        ok = mon.check(v.units == ureg.Quantity(1, unit).units, 'wrong-unit', f'{type(o).__name__}.{name} in {v.units}, not {unit} ({when})')
        ok &= mon.check(ureg.Quantity(1, getattr(ob, at + '_unit')).units == ureg.Quantity(1, unit).units, 'wrong-unit-attribute',
                        f'{type(o).__name__}.{name}_unit is {getattr(ob, at + "_unit")}, not {unit} ({when})')
        if ok:
            w = to_unit(x, kind, unit)
            sc = np.max(np.abs(w)) if kind != 'temp' else 500/KINDS[kind][unit][0]
            mon.close(v.magnitude, w, 'wrong-value', f'{type(o).__name__}.{name} in {unit} ({when})', rtol=1e-7, atol=1e-7*sc)


CLASSES = ['Crystal', 'ForceConstants', 'QpointFrequencies', 'QpointPhononModes', 'StructureFactor', 'DebyeWaller', 'Spectrum1D',
           'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection']


def hist(spec, mon, rng):
    cls = CLASSES[spec['i'] % len(CLASSES)]
    o, M = build(rng, cls)
    mon.event(cls)
    compare(mon, o, M, 'constructed')
    first = objs.snap(o)
    log = []
    for step in range(int(rng.integers(4, 14))):
        name = objs.pick(rng, sorted(M))
        x, kind, unit = M[name]
        ob, at = owner(o, name)
        op = int(rng.choice(8, p=[.35, .15, .08, .16, .06, .08, .06, .06]))
        if op == 0:
            new = pick(rng, kind)
            setattr(ob, at + '_unit', new)
            M[name][2] = new
            log.append(f'{name}_unit={new}')
            mon.event('unit-set')
            if new in ('degC', 'degF'):
                mon.event('offset-temperature')
            if kind == 'recip_energy' and new in ('cm', 'nm'):
                mon.event('reciprocal-energy')
        elif op == 1:
            badu = objs.pick(rng, BAD[kind])
            before = objs.snap(o)
            mon.raises(lambda: setattr(ob, at + '_unit', badu), Exception, 'accepted-bad-unit', f'{name}_unit = {badu}')
            mon.check(objs.snap(o) == before, 'refusal-changed-object', f'{name}_unit = {badu}: {objs.diff(before, objs.snap(o))}')
            log.append(f'{name}_unit={badu} refused')
            mon.event('refused-unit')
        elif op == 2:
            if hasattr(ob, at):
                from euphonic import Quantity
                badu = objs.pick(rng, [b for b in BAD[kind] if b != 'notaunit'])
                before = objs.snap(o)
                val = Quantity(np.ones(np.shape(x)) if np.ndim(x) else 1., badu)
                mon.raises(lambda: setattr(ob, at, val), Exception, 'accepted-bad-value', f'{name} = 1 {badu}')
                mon.check(objs.snap(o) == before, 'refusal-changed-object', f'{name} = 1 {badu}: {objs.diff(before, objs.snap(o))}')
                mon.event('refused-value')
        elif op == 3:
            new = pick(rng, kind)
            f = rng.uniform(.5, 1.5, np.shape(x)) if not name.endswith('x_data') else rng.uniform(.8, 1.2)
            y = np.asarray(x*f, float)
            setattr(ob, at, quantity(y if y.ndim else float(y), kind, new))
            M[name] = [y, kind, new]
            log.append(f'{name} set in {new}')
            mon.event('value-set')
        elif op == 4 and hasattr(o, 'copy'):
            o2 = o.copy()
            compare(mon, o2, M, 'copy')
            o = o2
            mon.event('copied')
        elif op == 5:
            o2 = type(o).from_dict(o.to_dict())
            compare(mon, o2, M, 'dict')
            o = o2
            mon.event('dict')
        elif op == 6 and kind == 'energy' and name == 'frequencies':
            # wavelengths are accepted as a display of energies
            setattr(ob, at + '_unit', 'nm')
            with np.errstate(all='ignore'):
                mon.close(ob.frequencies.magnitude, h*c/x/1e-9, 'wrong-value', 'frequencies as wavelengths', rtol=1e-7)
            setattr(ob, at + '_unit', unit)
            mon.event('wavelength')
        elif op == 7:
            a, b = getattr(ob, at), getattr(ob, at)
            mon.check(np.array_equal(a.magnitude, b.magnitude), 'read-not-repeatable', name)
            # the returned array is a presentation: no read may change the object
            setattr(ob, at, getattr(ob, at))
        compare(mon, o, M, ', '.join(log[-3:]))
    # all the way back to where it was: annotations and non-quantity data untouched
    mon.evaluated((spec['i'], cls, tuple(log)), len(log) > 1)
    mon.sample({'class': cls, 'history': log})
    a = dict(first[1]) if isinstance(first, tuple) else {}
    b = dict(objs.snap(o)[1])
    for k in a:
        if k.lstrip('_') not in M and not k.endswith('_unit') and k.lstrip('_') + '_data' not in M and k != 'crystal' and 'internal' not in k \
                and k not in ('_metadata', 'metadata'):
            mon.check(a[k] == b.get(k), 'unrelated-attribute-changed', f'{cls}.{k}')


# -- calculations --------------------------------------------------------------
def other(rng):
    """U(q) -> q in another unit of its kind, and a display changer for objects."""
    from euphonic import ureg
    groups = {}
    for k, t in KINDS.items():
        if k == 'energy':
            names = ['meV', 'eV', 'hartree', 'joule', 'kelvin*boltzmann_constant', 'THz*planck_constant']
        elif k == 'recip_energy':
            names = ['1/meV', '1/eV', '1/hartree']
        elif k == 'temp':
            names = ['K', 'mK', 'degC']
        else:
            names = sorted(t)
        groups[ureg.Quantity(1, names[0]).dimensionality] = names

    def U(q):
        if q is None:
            return None
        names = groups.get(q.dimensionality)
        return q.to(objs.pick(rng, names)) if names else q.to_base_units()
    return U


def display(rng, o, wavenumber=True):
    """Change every display unit of o at random."""
    from euphonic import ureg
    for k in list(vars(o)):
        if k.endswith('_unit') and not k.startswith('_'):
            cur = ureg.Quantity(1, getattr(o, k)).dimensionality
            for kind, t in KINDS.items():
                if any(ureg.Quantity(1, n).dimensionality == cur for n in list(t)[:3]):
                    if kind == 'length' and k not in ('cell_vectors_unit', 'x_data_unit'):
                        continue
                    if kind == 'energy' and not wavenumber:
                        t = {n: 1 for n in t if n not in ('1/cm', '1/angstrom', 'THz')}
                    if kind == 'recip_length' and k == 'frequencies_unit':
                        t = ENERGY
                    setattr(o, k, objs.pick(rng, sorted(t)))
                    break
    if hasattr(o, 'crystal') and hasattr(o.crystal, 'cell_vectors_unit'):
        display(rng, o.crystal)
    return o


def mags(q, unit):
    return np.asarray(q.to(unit, 'reciprocal_spectroscopy').magnitude)


def spectrum_out(s, xu, yu, zu=None):
    out = [mags(s.x_data, xu), mags(s.y_data, yu)]
    if zu:
        out.append(mags(s.z_data, zu))
    return out


def same(mon, a, b, key, tol=1e-9, atol=0.):
    a, b = list(a), list(b)
    mon.check(len(a) == len(b), key)
    for i, (x, y) in enumerate(zip(a, b)):
        sc = np.nanmax(np.abs(x)) if np.size(x) and np.isfinite(x).any() else 1
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            mon.fail(key, f'output {i} has shape {y.shape} instead of {x.shape} in other units')
            continue
        mon.close(np.nan_to_num(y, nan=-7*sc), np.nan_to_num(x, nan=-7*sc), key, f'output {i} differs in other units', rtol=tol, atol=atol)


CALCS = ['modes', 'gradients', 'dos', 'pdos', 'dos-map', 'debye-waller', 'structure-factor', 'sqw', '1d-average', 'dispersion', 'broaden1d', 'broaden2d',
         'variable', 'crystal', 'sphere', 'kinematic', 'widths', 'total-fc', 'arithmetic', 'adaptive', 'edges', 'bluebook']


def calc(spec, mon, rng):
    from euphonic import ureg, Spectrum1D, Spectrum2D, QpointPhononModes, QpointFrequencies
    what = CALCS[spec['i'] % len(CALCS)]
    U = other(rng)
    Q = ureg.Quantity

    def same_(a, b, tol=1e-9, atol=0.):
        same(mon, a, b, f'units-change-{what}', tol, atol)

    def modes_pair(imag=False, nq=None):
        cr = objs.crystal(rng, units=('angstrom', 'amu'))
        qp = objs.qpts(rng, nq or int(rng.integers(1, 7)))
        f = Q(objs.freqs(rng, len(qp), cr.n_atoms, imag), 'meV')
        ev = objs.evecs(rng, len(qp), cr.n_atoms)
        w = rng.uniform(.1, 1, len(qp))
        a = QpointPhononModes(cr, qp, f, ev, weights=w)
        from euphonic import Crystal
        cr2 = Crystal(U(cr.cell_vectors), cr.atom_r, cr.atom_type, U(cr.atom_mass))
        b = display(rng, QpointPhononModes(cr2, qp, U(f) if rng.random() < .6 else f.to(objs.pick(rng, ['1/cm', 'THz'])), ev, weights=w))
        return a, b

    def fc_pair(polar=None, asr=True):
        d = gen.system(rng, n_atoms=int(rng.integers(1, 4)), polar=rng.random() < .4 if polar is None else polar, asr=asr)
        if not asr:                      # a clear gap above zero frequency
            k0 = gen.home(d)
            d['fc'][k0] += np.eye(d['fc'].shape[1])*(.05 + max(0, -np.linalg.eigvalsh(d['fc'][k0]).min()) + np.abs(np.delete(d['fc'], k0, axis=0)).sum())
        a = gen.make_fc(d)
        b = gen.make_fc(d, fc_unit=objs.pick(rng, sorted(SPRING)), born_unit=objs.pick(rng, sorted(CHARGE)), eps_unit=objs.pick(rng, sorted(EPS)),
                        units=(objs.pick(rng, sorted(LENGTH)), objs.pick(rng, sorted(MASS))))
        return a, display(rng, b), d
    bins = Q(np.linspace(rng.uniform(-40, 0), rng.uniform(60, 130), int(rng.integers(5, 60))), 'meV')
    if rng.random() < .3:
        bins = Q(np.sort(rng.uniform(-20, 130, 30)), 'meV')
    T = Q(float(rng.uniform(1, 500)), 'K')

    def ubins():
        return U(bins) if rng.random() < .7 else bins.to('1/cm')
    if what == 'modes':
        a, b, d = fc_pair()
        kw = dict(asr=objs.pick(rng, [None, 'realspace', 'reciprocal']), use_c=bool(rng.random() < .5), dipole_parameter=float(rng.uniform(.6, 1.5)))
        if kw['asr'] == 'realspace' and a.born is not None:
            kw['asr'] = None
        q = gen.qpoints(rng, 5)
        x, y = a.calculate_qpoint_phonon_modes(q, **kw), b.calculate_qpoint_phonon_modes(q, **kw)
        f = mags(x.frequencies, 'meV')
        same_([f*abs(f)], [mags(y.frequencies, 'meV')*abs(mags(y.frequencies, 'meV'))], 1e-8)
        z = display(rng, gen.make_fc(d)).calculate_qpoint_phonon_modes(q, **kw)
        # the matrix the modes diagonalise does not depend on how degenerate modes are chosen
        same_([dyn(x)], [dyn(y)], 1e-8)
        same_([dyn(x)], [dyn(z)], 1e-8)
    elif what == 'gradients':
        a, b, d = fc_pair(polar=False)
        q = rng.uniform(-.5, .5, (3, 3))
        (x, g), (y, k) = (o.calculate_qpoint_phonon_modes(q, return_mode_gradients=True) for o in (a, b))
        f = mags(x.frequencies, 'meV')
        gap = np.min(np.abs(np.diff(f, axis=1)))
        if gap < 1e-3 or np.min(np.abs(f)) < .05:
            raise core.SkipCase('degenerate or soft')
        same_([mags(g, 'meV*angstrom')], [mags(k, 'meV*angstrom')], 1e-5, 1e-6)
    elif what in ('dos', 'pdos', 'dos-map', 'adaptive'):
        a, b = modes_pair(imag=True)
        kw, kw2 = {}, {}
        if what == 'adaptive' or rng.random() < .3:
            kw['mode_widths'] = Q(rng.uniform(.2, 6, a.frequencies.shape), 'meV')
            kw['mode_widths_min'] = Q(float(rng.uniform(.05, 1)), 'meV')
            kw2 = {k: U(v) for k, v in kw.items()}
            if what == 'adaptive':
                kw['adaptive_method'] = kw2['adaptive_method'] = 'fast' if rng.random() < .6 else 'reference'
                kw['adaptive_error'] = kw2['adaptive_error'] = .01
        if kw and rng.random() < .7 or what == 'adaptive':
            bins = Q(np.linspace(-40, 150, 80), 'meV')
        if kw and (np.ptp(np.diff(bins.magnitude)) > 1e-9):
            kw.pop('adaptive_method', None), kw2.pop('adaptive_method', None)
        if what == 'pdos':
            wt = objs.pick(rng, [None, 'coherent', 'incoherent', 'coherent-plus-incoherent'])
            if wt and any(t not in ('Si', 'O', 'La', 'Na', 'Cl', 'Fe', 'Ti', 'Al', 'C', 'N') for t in a.crystal.atom_type):
                wt = None
            x, y = a.calculate_pdos(bins, weighting=wt, **kw), b.calculate_pdos(ubins(), weighting=wt, **kw2)
            yu = '1/meV' if wt is None else 'mbarn/meV'
            if wt and str(y.y_data.dimensionality) != str(x.y_data.dimensionality):
                # cross section per wavenumber: same physics in other dimensions
                fac = 1/(h*c*100)*(1e-3*e)   # cm -> 1/meV
                same_([mags(x.y_data, 'mbarn/meV')], [y.y_data.to('mbarn*cm').magnitude*fac], 1e-7)
                same_([mags(x.x_data, 'meV')], [mags(y.x_data, 'meV')])
            else:
                same_(spectrum_out(x, 'meV', yu), spectrum_out(y, 'meV', yu))
        elif what == 'dos-map':
            kw.pop('adaptive_method', 0), kw2.pop('adaptive_method', 0), kw.pop('adaptive_error', 0), kw2.pop('adaptive_error', 0)
            x, y = a.calculate_dos_map(bins, **kw), b.calculate_dos_map(ubins(), **kw2)
            same_(spectrum_out(x, '1/angstrom', 'meV', '1/meV'), [mags(y.x_data, '1/angstrom'), mags(y.y_data, 'meV'), mags(y.z_data, '1/meV')])
        else:
            x, y = a.calculate_dos(bins, **kw), b.calculate_dos(ubins(), **kw2)
            # the approximate method fits widths in the given unit; both are within the stated error
            tol = 1e-9 if kw.get('adaptive_method') != 'fast' else 1e-6
            same_(spectrum_out(x, 'meV', '1/meV'), spectrum_out(y, 'meV', '1/meV'), tol)
    elif what == 'debye-waller':
        a, b = modes_pair(imag=rng.random() < .3)
        fm = Q(float(rng.uniform(.01, 5)), 'meV')
        sym = bool(rng.random() < .2)
        x = a.calculate_debye_waller(T, frequency_min=fm, symmetrise=sym)
        y = b.calculate_debye_waller(U(T), frequency_min=U(fm), symmetrise=sym)
        same_([mags(x.debye_waller, 'bohr**2'), x.temperature.to('K').magnitude], [mags(y.debye_waller, 'bohr**2'), y.temperature.to('K').magnitude])
    elif what in ('structure-factor', 'sqw', '1d-average'):
        a, b = modes_pair()
        b_l = {s: Q(complex(rng.normal(), rng.normal()), 'fm') for s in set(a.crystal.atom_type)}
        from euphonic import DebyeWaller
        m = rng.normal(size=(a.crystal.n_atoms, 3, 3))*.05
        dwq = Q(np.einsum('iab,icb->iac', m, m), 'angstrom**2')
        dw = DebyeWaller(a.crystal, dwq, T)
        dw2 = display(rng, DebyeWaller(b.crystal, U(dwq), U(T)))
        if rng.random() < .3:
            dw = dw2 = None
        x = a.calculate_structure_factor(scattering_lengths=b_l, dw=dw)
        y = b.calculate_structure_factor(scattering_lengths={k: U(v) for k, v in b_l.items()}, dw=dw2)
        if what == 'structure-factor':
            same_([mags(x.structure_factors, 'mbarn'), mags(x.frequencies, 'meV')], [mags(y.structure_factors, 'mbarn'), mags(y.frequencies, 'meV')])
        else:
            y = display(rng, y)
            kw, kw2 = {}, {}
            if dw is None and rng.random() < .6:
                kw, kw2 = {'temperature': T}, {'temperature': U(T)}
            if what == 'sqw':
                s, t = x.calculate_sqw_map(bins, **kw), y.calculate_sqw_map(ubins(), **kw2)
                dims = s.z_data, t.z_data
                same_(spectrum_out(s, '1/angstrom', 'meV'), spectrum_out(t, '1/angstrom', 'meV'))
            else:
                s, t = x.calculate_1d_average(bins, **kw), y.calculate_1d_average(ubins(), **kw2)
                dims = s.y_data, t.y_data
                same_([mags(s.x_data, 'meV')], [mags(t.x_data, 'meV')])
            o1, o2 = (per_energy(v) for v in dims)
            same_([o1], [o2], 1e-7)
    elif what == 'dispersion':
        a, b = modes_pair(nq=8)
        with warnings.catch_warnings(record=True) as edge:
            warnings.simplefilter('always')
            s, t = a.get_dispersion(), b.get_dispersion()
        same_(spectrum_out(s, '1/angstrom', 'meV'), spectrum_out(t, '1/angstrom', 'meV'))
        if not any('EdgeCase' in w_.category.__name__ for w_ in edge):    # seekpath's convention is decided by rounding there
            mon.check(s.x_tick_labels == t.x_tick_labels, 'units-change-labels', f'{s.x_tick_labels} / {t.x_tick_labels}')
            mon.event('labels-compared')
    elif what == 'broaden1d':
        a = objs.spectrum1d(rng, n=40, regular=True, edges=True, xu='meV', yu='1/meV')
        b = display(rng, Spectrum1D(U(a.x_data), U(a.y_data)))
        w = Q(float(rng.uniform(.5, 5)), 'meV')
        sh = objs.pick(rng, ['gauss', 'lorentz'])
        s, t = a.broaden(w, shape=sh), b.broaden(U(w), shape=sh)
        same_(spectrum_out(s, 'meV', '1/meV'), spectrum_out(t, 'meV', '1/meV'), 1e-7)
        fn = lambda x: x*0.02 + Q(3., 'meV')
        s, t = a.broaden(fn), display(rng, Spectrum1D(U(a.x_data), U(a.y_data)), wavenumber=False).broaden(fn)
        same_(spectrum_out(s, 'meV', '1/meV'), spectrum_out(t, 'meV', '1/meV'), 1e-6)
    elif what == 'broaden2d':
        a = objs.spectrum2d(rng, nx=20, ny=30, xreg=True, yreg=True, xu='1/angstrom', yu='meV', zu='mbarn/meV')
        b = display(rng, Spectrum2D(U(a.x_data), U(a.y_data), U(a.z_data)))
        kw = {}
        if rng.random() < .7:
            kw['x_width'] = Q(float(rng.uniform(.5, 3)), '1/angstrom')
        if not kw or rng.random() < .7:
            kw['y_width'] = Q(float(rng.uniform(.5, 5)), 'meV')
        s, t = a.broaden(**kw), b.broaden(**{k: U(v) for k, v in kw.items()})
        same_(spectrum_out(s, '1/angstrom', 'meV', 'mbarn/meV'), spectrum_out(t, '1/angstrom', 'meV', 'mbarn/meV'), 1e-7)
    elif what == 'variable':
        from euphonic.broadening import variable_width_broadening
        b0 = Q(np.linspace(0, 100, 101), 'meV')
        x0 = Q(rng.uniform(5, 95, 20), 'meV')
        wt = rng.uniform(.1, 1, 20)
        fn = lambda x: x.to('meV')*.03 + Q(.5, 'meV')
        kw = dict(adaptive_error=.01, shape=objs.pick(rng, ['gauss', 'lorentz']))
        lim = Q(.6, 'meV') if rng.random() < .5 else None
        r = variable_width_broadening(b0, x0, fn, Q(wt, 'dimensionless'), width_lower_limit=lim, **kw)
        t = variable_width_broadening(U(b0), U(x0), lambda x: U(fn(x)), Q(wt, 'dimensionless'), width_lower_limit=U(lim), **kw)
        same_([mags(r, '1/meV')], [mags(t, '1/meV')], 1e-6)
    elif what == 'crystal':
        from euphonic import Crystal
        a = gen.make_crystal(gen.prototype(rng), ('angstrom', 'amu'))
        b = display(rng, Crystal(U(a.cell_vectors), a.atom_r, a.atom_type, U(a.atom_mass)))
        same_([mags(a.reciprocal_cell(), '1/angstrom'), mags(a.cell_volume(), 'angstrom**3')],
              [mags(b.reciprocal_cell(), '1/angstrom'), mags(b.cell_volume(), 'angstrom**3')], 1e-12)
        sp = Q(float(rng.uniform(.05, .5)), '1/angstrom')
        same_([a.get_mp_grid_spec(sp)], [b.get_mp_grid_spec(U(sp))], 0)
        tol = Q(1e-4, 'angstrom')
        x, y = a.get_symmetry_equivalent_atoms(tol), b.get_symmetry_equivalent_atoms(U(tol))
        same_([x[0], x[2], np.exp(2j*np.pi*x[1])], [y[0], y[2], np.exp(2j*np.pi*y[1])], 1e-9)
    elif what == 'sphere':
        import euphonic.powder as P
        a, b, d = fc_pair(polar=False, asr=False)
        mq = Q(float(rng.uniform(.2, 4)), '1/angstrom')
        eb = Q(np.linspace(-60, 200, 40), 'meV')
        kw = dict(npts=12, sampling='golden')
        k = int(rng.integers(3))
        if k == 0:
            r, t = P.sample_sphere_dos(a, mq, energy_bins=eb, **kw), P.sample_sphere_dos(b, U(mq), energy_bins=U(eb), **kw)
            same_(spectrum_out(r, 'meV', '1/meV'), spectrum_out(t, 'meV', '1/meV'), 1e-8)
        elif k == 1:
            r, t = P.sample_sphere_pdos(a, mq, energy_bins=eb, **kw), P.sample_sphere_pdos(b, U(mq), energy_bins=U(eb), **kw)
            same_(spectrum_out(r, 'meV', '1/meV'), spectrum_out(t, 'meV', '1/meV'), 1e-6)
        else:
            b_l = {s: Q(float(rng.normal()), 'fm') for s in set(d['atom_type'])}
            r = P.sample_sphere_structure_factor(a, mq, energy_bins=eb, temperature=None, scattering_lengths=b_l, **kw)
            t = P.sample_sphere_structure_factor(b, U(mq), energy_bins=U(eb), temperature=None, scattering_lengths={s: U(v) for s, v in b_l.items()}, **kw)
            same_([per_energy(r.y_data)], [per_energy(t.y_data)], 1e-6)
    elif what == 'kinematic':
        from euphonic.spectra import apply_kinematic_constraints as K
        a = Spectrum2D(Q(np.linspace(0, 8, 20), '1/angstrom'), Q(np.linspace(-10, 60, 31), 'meV'), Q(rng.normal(size=(20, 30)), 'mbarn/meV'))
        b = display(rng, Spectrum2D(U(a.x_data), U(a.y_data), U(a.z_data)))
        kw = {objs.pick(rng, ['e_i', 'e_f']): Q(float(rng.uniform(10, 90)), 'meV')}
        r, t = K(a, angle_range=(5, 120), **kw), K(b, angle_range=(5, 120), **{k: U(v) for k, v in kw.items()})
        same_(spectrum_out(r, '1/angstrom', 'meV', 'mbarn/meV'), spectrum_out(t, '1/angstrom', 'meV', 'mbarn/meV'))
    elif what == 'widths':
        from euphonic.util import mode_gradients_to_widths
        g = Q(rng.normal(size=(5, 6)) if rng.random() < .5 else rng.normal(size=(5, 6, 3)), 'meV*angstrom')
        cv = Q(objs.system(rng)['cell'], 'bohr')
        r, t = mode_gradients_to_widths(g, cv), mode_gradients_to_widths(g.to('hartree*bohr'), U(cv))
        same_([mags(r, 'meV')], [mags(t, 'meV')])
    elif what == 'total-fc':
        from euphonic import ForceConstants
        a, b, d = fc_pair(polar=True)
        mk = lambda o: ForceConstants.from_total_fc_with_dipole(o.crystal, o.force_constants, o.sc_matrix, o.cell_origins, o.born, o.dielectric)
        x, y = mk(a), mk(b)
        same_([mags(x.force_constants, 'hartree/bohr**2')], [mags(y.force_constants, 'hartree/bohr**2')], 1e-8)
    elif what == 'arithmetic':
        a = objs.spectrum1dcollection(rng, n=12, m=3, xu='meV', yu='1/meV', edges=True)
        a.metadata = {}
        b = display(rng, type(a)(U(a.x_data), U(a.y_data)))
        f = float(rng.uniform(.1, 3))
        x, y = a.sum(), b.sum()
        same_(spectrum_out(x, 'meV', '1/meV'), spectrum_out(y, 'meV', '1/meV'))
        same_(spectrum_out(a*f, 'meV', '1/meV'), spectrum_out(b*f, 'meV', '1/meV'))
        same_(spectrum_out(a[1], 'meV', '1/meV'), spectrum_out(b[1], 'meV', '1/meV'))
        same_(spectrum_out(x + a[0], 'meV', '1/meV'), spectrum_out(y + b[0], 'meV', '1/meV'))
        t = type(a).from_spectra([b[0], b[1]])
        same_([mags(t.y_data, '1/meV')], [mags(a.y_data, '1/meV')[:2]])
    elif what == 'edges':
        a = objs.spectrum2d(rng, xu='1/angstrom', yu='meV')
        b = display(rng, Spectrum2D(U(a.x_data), U(a.y_data), U(a.z_data)))
        for ax, un in (('x', '1/angstrom'), ('y', 'meV')):
            for fn in ('get_bin_edges', 'get_bin_centres', 'get_bin_widths'):
                same_([mags(getattr(a, fn)(ax), un)], [mags(getattr(b, fn)(ax), un)])
    elif what == 'bluebook':
        from euphonic.util import get_reference_data
        # cross sections are 4 pi b^2 whatever units each is tabulated in
        cs = t = get_reference_data(collection='BlueBook', physical_property='coherent_cross_section')
        bl = get_reference_data(collection='Sears1992', physical_property='coherent_scattering_length')
        for s in ('Si', 'O', 'C', 'La', 'Ti', 'Al', 'Na'):
            v = abs(bl[s].to('m').magnitude)**2*4*np.pi
            mon.close(cs[s].to('m**2').magnitude, v, 'reference-data-units', s, rtol=.02)
        mon.check(all(v.units == t['Si'].units for v in t.values()), 'reference-data-units', 'mixed units in one table')
    mon.event('calc')
    mon.event('calc-' + what)
    mon.evaluated((spec['i'], what))


def dyn(m):
    f = mags(m.frequencies, 'meV')
    v = m.eigenvectors.reshape(len(f), f.shape[1], -1)
    return np.einsum('qm,qma,qmb->qab', f*abs(f), v, v.conj())


def per_energy(q):
    """area/energy as mbarn/meV whether given per energy or per wavenumber."""
    from euphonic import ureg
    for un, f in (('mbarn/meV', 1.), ('mbarn*cm', 1e-3*e/(h*c*100)), ('mbarn/THz', 1e-3*e/(h*1e12))):
        if q.dimensionality == ureg.Quantity(1, un).dimensionality:
            return np.asarray(q.to(un).magnitude)*f
    raise AssertionError(f'unexpected dimension {q.units}')


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, 'c12', spec['kind'], spec['i'])
    {'hist': hist, 'calc': calc}[spec['kind']](spec, mon, rng)
