"""Random instances of every data class, and deep snapshots of them."""
import numpy as np
from . import gen

ENERGY = ['meV', 'hartree', '1/cm', 'THz', 'eV', 'kelvin*boltzmann_constant', 'J']
LENGTH = ['bohr', 'angstrom', 'nm', 'pm', 'm']
MASS = ['amu', 'm_e', 'kg', 'g']
AREA = ['mbarn', 'bohr**2', 'angstrom**2', 'fm**2']
TEMP = ['K', 'mK']


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def system(rng, n_atoms=None, species=None, kind=None):
    for _ in range(100):
        lk, cell = gen.lattice(rng, kind)
        n = n_atoms or int(rng.integers(1, 6))
        try:
            r = gen.atoms(rng, n, cell, min_dist=1.6)
        except RuntimeError:
            continue
        break
    if rng.random() < .4:
        cell = cell@gen.rand_rotation(rng).T
    pool = species or list(rng.choice(gen.SPECIES, min(len(gen.SPECIES), int(rng.integers(1, 4))), replace=False))
    t = np.array([str(x) for x in rng.choice(pool, n)])
    m = np.array([gen.MASS[x] for x in t])
    return {'lattice': lk, 'cell': cell, 'atom_r': r, 'atom_type': t, 'atom_mass': m}


def crystal(rng, units=None, **kw):
    d = system(rng, **kw)
    if units is None:
        units = (pick(rng, LENGTH[:4]), pick(rng, MASS))
    return gen.make_crystal(d, units)


def evecs(rng, nq, n):
    out = np.empty((nq, 3*n, n, 3), complex)
    for i in range(nq):
        a = rng.normal(size=(3*n, 3*n)) + 1j*rng.normal(size=(3*n, 3*n))
        out[i] = np.linalg.qr(a)[0].reshape(3*n, n, 3)
    return out


def freqs(rng, nq, n, imaginary=False):
    """meV"""
    f = rng.uniform(1., 120., (nq, 3*n))
    if imaginary:
        f = np.where(rng.random(f.shape) < .2, -f*.3, f)
    return np.sort(f, axis=1)


def qpts(rng, nq, path=False):
    if not path:
        return gen.qpoints(rng, nq)
    # piecewise straight path through special points, possibly with jumps
    pool = np.array([[0, 0, 0], [.5, 0, 0], [.5, .5, 0], [.5, .5, .5], [0, 0, .5], [1/3, 1/3, 0], [.25, .5, .75],
                     [0, .5, 0], [.375, .375, .75]])
    k = [int(x) for x in rng.integers(0, len(pool), 8)]
    seg, last = [], None
    for a, b in zip(k[:-1], k[1:]):
        if a == b:
            continue
        n = int(rng.integers(3, 9))
        s = np.linspace(pool[a], pool[b], n)
        if last is not None:
            if rng.random() < .25:
                s = s + np.array([.3, .1, 0]) if rng.random() < .5 else np.linspace(pool[(b+2) % len(pool)], pool[b], n)
            else:
                s = s[1:]
        seg.append(s)
        last = b
    q = np.concatenate(seg)[:nq] if seg else np.zeros((0, 3))
    if len(q) < 3:
        q = np.linspace([0, 0, 0], [.5, .5, 0], max(nq, 3))
    return q


def qpf_args(rng, nq=None, n=None, imaginary=None, path=False, unit=None, cr=None, weights=None):
    from euphonic import ureg
    c = cr or crystal(rng, n_atoms=n)
    q = qpts(rng, nq or int(rng.integers(1, 8)), path)
    f = freqs(rng, len(q), c.n_atoms, rng.random() < .2 if imaginary is None else imaginary)
    w = None
    if weights if weights is not None else rng.random() < .6:
        w = rng.uniform(.05, 2., len(q))
    return c, q, (f*ureg('meV')).to(unit or pick(rng, ENERGY)), w


def qpoint_frequencies(rng, **kw):
    from euphonic import QpointFrequencies
    c, q, f, w = qpf_args(rng, **kw)
    return QpointFrequencies(c, q, f, weights=w)


def modes(rng, **kw):
    from euphonic import QpointPhononModes
    c, q, f, w = qpf_args(rng, **kw)
    return QpointPhononModes(c, q, f, evecs(rng, len(q), c.n_atoms), weights=w)


def structure_factor(rng, temperature=None, **kw):
    from euphonic import StructureFactor, ureg
    c, q, f, w = qpf_args(rng, **kw)
    s = (rng.exponential(2., f.shape)*ureg('mbarn')).to(pick(rng, AREA))
    t = None
    if temperature is not None:
        t = temperature*ureg('K')
    elif rng.random() < .5:
        t = (float(rng.uniform(0, 400))*ureg('K')).to(pick(rng, TEMP))
    return StructureFactor(c, q, f, s, weights=w, temperature=t)


def debye_waller(rng, cr=None, temperature=None):
    from euphonic import DebyeWaller, ureg
    c = cr or crystal(rng)
    a = rng.normal(size=(c.n_atoms, 3, 3))*.1
    d = np.einsum('iab,icb->iac', a, a)
    t = float(rng.uniform(0, 400)) if temperature is None else temperature
    return DebyeWaller(c, (d*ureg('bohr**2')).to(pick(rng, AREA)), (t*ureg('K')).to(pick(rng, TEMP)))


XUNITS = ['meV', '1/cm', '1/angstrom', 'THz', 'hartree', 'dimensionless']
YUNITS = ['1/meV', 'mbarn/meV', '1/hartree', 'dimensionless', 'angstrom**2', 'cm']


def axis(rng, n, edges, regular=None):
    m = n + 1 if edges else n
    if regular if regular is not None else rng.random() < .6:
        return rng.uniform(-20, 20) + rng.uniform(.1, 3)*np.arange(m)
    return rng.uniform(-20, 20) + np.cumsum(rng.uniform(.1, 3, m))


def labels(rng, n):
    if rng.random() < .4:
        return None
    k = sorted(int(x) for x in rng.choice(n, int(rng.integers(0, min(n, 4) + 1)), replace=False))
    return [(i, str(rng.choice(['X', '$\\Gamma$', 'K', '', 'L|U', 'M \u0394']))) for i in k]


def line_meta(rng):
    m = {}
    if rng.random() < .8:
        m['species'] = str(rng.choice(['Si', 'O', 'La']))
    if rng.random() < .5:
        m['index'] = int(rng.integers(0, 3))
    if rng.random() < .4:
        m['label'] = str(rng.choice(['a', 'b b', '']))
    return m


def common_meta(rng):
    m = {}
    if rng.random() < .5:
        m['weighting'] = str(rng.choice(['coherent', 'incoherent']))
    if rng.random() < .3:
        m['temperature'] = int(rng.integers(0, 300))
    return m


def nan_some(rng, a):
    if rng.random() < .25:
        a[tuple(int(rng.integers(s)) for s in a.shape)] = np.nan
    return a


def spectrum1d(rng, n=None, edges=None, regular=None, xu=None, yu=None, nan=False):
    from euphonic import Spectrum1D, ureg
    n = n or int(rng.integers(2, 30))
    edges = bool(rng.random() < .5) if edges is None else edges
    y = rng.normal(size=n)
    if nan:
        y = nan_some(rng, y)
    return Spectrum1D(ureg.Quantity(axis(rng, n, edges, regular), xu or pick(rng, XUNITS)),
                      ureg.Quantity(y, yu or pick(rng, YUNITS)), x_tick_labels=labels(rng, n),
                      metadata={**common_meta(rng), **line_meta(rng)})


def coll_meta(rng, m):
    meta = common_meta(rng)
    if rng.random() < .8:
        meta['line_data'] = [line_meta(rng) for _ in range(m)]
    return meta


def spectrum1dcollection(rng, n=None, m=None, edges=None, regular=None, xu=None, yu=None, nan=False):
    from euphonic import Spectrum1DCollection, ureg
    n = n or int(rng.integers(2, 30))
    m = m or int(rng.integers(1, 7))
    edges = bool(rng.random() < .5) if edges is None else edges
    y = rng.normal(size=(m, n))
    if nan:
        y = nan_some(rng, y)
    return Spectrum1DCollection(ureg.Quantity(axis(rng, n, edges, regular), xu or pick(rng, XUNITS)),
                                ureg.Quantity(y, yu or pick(rng, YUNITS)), x_tick_labels=labels(rng, n),
                                metadata=coll_meta(rng, m))


def spectrum2d(rng, nx=None, ny=None, xe=None, ye=None, xreg=None, yreg=None, xu=None, yu=None, zu=None, nan=False):
    from euphonic import Spectrum2D, ureg
    nx, ny = nx or int(rng.integers(2, 15)), ny or int(rng.integers(2, 20))
    xe = bool(rng.random() < .5) if xe is None else xe
    ye = bool(rng.random() < .5) if ye is None else ye
    z = rng.normal(size=(nx, ny))
    if nan:
        z = nan_some(rng, z)
    return Spectrum2D(ureg.Quantity(axis(rng, nx, xe, xreg), xu or pick(rng, XUNITS)),
                      ureg.Quantity(axis(rng, ny, ye, yreg), yu or pick(rng, XUNITS)),
                      ureg.Quantity(z, zu or pick(rng, YUNITS)), x_tick_labels=labels(rng, nx),
                      metadata={**common_meta(rng), **line_meta(rng)})


def spectrum2dcollection(rng, nx=None, ny=None, m=None, xe=None, ye=None, xu=None, yu=None, zu=None, nan=False):
    from euphonic.spectra import Spectrum2DCollection
    from euphonic import ureg
    nx, ny = nx or int(rng.integers(2, 10)), ny or int(rng.integers(2, 10))
    m = m or int(rng.integers(1, 6))
    xe = bool(rng.random() < .5) if xe is None else xe
    ye = bool(rng.random() < .5) if ye is None else ye
    z = rng.normal(size=(m, nx, ny))
    if nan:
        z = nan_some(rng, z)
    return Spectrum2DCollection(ureg.Quantity(axis(rng, nx, xe), xu or pick(rng, XUNITS)),
                                ureg.Quantity(axis(rng, ny, ye), yu or pick(rng, XUNITS)),
                                ureg.Quantity(z, zu or pick(rng, YUNITS)), x_tick_labels=labels(rng, nx),
                                metadata=coll_meta(rng, m))


# -- snapshots -----------------------------------------------------------------
def public(o):
    """{name: value} of an object's public attributes and properties (private ones may hold caches)."""
    out = {k: v for k, v in vars(o).items() if not k.startswith('_')}
    for cls in type(o).__mro__:
        for k, v in vars(cls).items():
            if isinstance(v, property) and not k.startswith('_') and k not in out:
                try:
                    out[k] = getattr(o, k)
                except Exception as e:  # noqa
                    out[k] = type(e).__name__
    return out


def snap(o):
    """Deep, comparable picture of an object through its public attributes."""
    if isinstance(o, np.ndarray):
        return ('arr', str(o.dtype), o.shape, o.tobytes() if o.dtype != object else repr(o))
    if isinstance(o, np.generic):
        return ('np', o.dtype.str, o.tobytes())
    if isinstance(o, (str, int, float, complex, bool, type(None))):
        return (type(o).__name__, repr(o))
    if isinstance(o, dict):
        return ('dict', tuple((repr(k), snap(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v) for v in o))
    if hasattr(o, 'magnitude') and hasattr(o, 'units'):
        return ('Q', snap(o.magnitude), str(o.units))
    if hasattr(o, '__dict__'):
        return (type(o).__name__, tuple((k, snap(v)) for k, v in sorted(public(o).items())))
    return repr(o)


def diff(a, b, path=''):
    """Where two snapshots differ (first place)."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}/{x if isinstance(x, str) and len(x) < 20 else i}')
            if d:
                return d
    return f'{path}: {str(a)[:80]} -> {str(b)[:80]}'
