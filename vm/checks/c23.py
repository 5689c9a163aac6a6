"""C23: dispersion data: reordering, abscissa, labels."""
import numpy as np
import seekpath
from .. import core, objs, gen

RULE = ('random and seekpath q-point paths (turns, jumps by reciprocal-lattice vectors, repeated points, reversals, rounding noise on '
        'special points) on symmetric and low-symmetry crystals; reordering on smooth branch models, random and degenerate eigenvectors '
        'and interpolated force constants against an independent greedy matcher; distinct by (case, kind)')
ASSUMPTIONS = ['turns are sharper than the documented direction_changed tolerance (steps of at least 0.01 turning by at least 15 degrees)',
               'q-points are either within 1e-9 of a labelled special point or at least 1e-4 away']
REQUIRED_EVENTS = ['reorder', 'reordered-modes', 'turn-not-reordered', 'gamma-not-reordered', 'branches-recovered', 'orthogonal-leftover',
                   'abscissa', 'lattice-jump', 'labels', 'named', 'turn-label', 'gamma-label', 'repeat-label', 'noisy-special-point',
                   'generic-labels', 'coordinate-labels', 'few-points', 'seekpath-path', 'interpolated', 'empty-crystal']


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 25}[tier]
    return ([{'kind': 'reorder', 'i': i} for i in range(260*k)] + [{'kind': 'path', 'i': i} for i in range(240*k)]
            + [{'kind': 'seek', 'i': i} for i in range(60*k)] + [{'kind': 'fc', 'i': i} for i in range(24*k)])


def gamma(q):
    return np.abs(q - np.rint(q)).sum(axis=-1) < 1e-15


def turned(q):
    """Interior points where the path turns; None where the tolerance decides."""
    d = np.diff(q, axis=0)
    out = []
    for a, b in zip(d[:-1], d[1:]):
        x = np.linalg.norm(a)*np.linalg.norm(b) - abs(a@b)
        out.append(None if 4e-6 < x < 6e-6 else bool(x > 5e-6))
    return out


def match(prev, cur):
    """Greedy pairing on |overlap|; None when a decision is close."""
    n = len(prev)
    o = np.abs(cur.conj().reshape(n, -1)@prev.reshape(n, -1).T)   # cur, prev
    left = {(i, j) for i in range(n) for j in range(n)}
    pairs = {}
    while left:
        s = sorted(left, key=lambda ij: -o[ij])
        best = s[0]
        for k in s[1:]:
            if o[k] < o[best] - 1e-9:
                break
            if k[0] == best[0] or k[1] == best[1]:
                return None
        pairs[best[1]] = best[0]
        left = {k for k in left if k[0] != best[0] and k[1] != best[1]}
    return pairs


def reorder(spec, mon, rng):
    from euphonic import QpointPhononModes, ureg
    kind = ['smooth', 'random', 'leftover', 'degenerate'][int(rng.choice(4, p=[.5, .2, .15, .15]))]
    n = int(rng.integers(1, 4)) if kind != 'leftover' else int(rng.integers(2, 4))
    nb = 3*n
    nq = int(rng.integers(2, 14))
    c = objs.crystal(rng, n_atoms=n)
    q = objs.qpts(rng, nq, path=rng.random() < .8)
    if rng.random() < .2:
        q = np.linspace([-.2, 0, 0], [.2, 0, 0], max(3, nq | 1))
        q[len(q)//2] = 0
    q = q[:14]
    nq = len(q)
    f = rng.uniform(-5, 80, (nq, nb))
    if kind == 'smooth':
        base = np.linalg.qr(rng.normal(size=(nb, nb)) + 1j*rng.normal(size=(nb, nb)))[0]
        gen_ = rng.normal(size=(nb, nb)) + 1j*rng.normal(size=(nb, nb))
        gen_ = gen_ - gen_.conj().T
        gen_ *= .25/np.linalg.norm(gen_, 2)
        w, v = np.linalg.eigh(1j*gen_)
        e = np.array([base@((v*np.exp(-1j*w*t))@v.conj().T) for t in range(nq)])
        e = e.transpose(0, 2, 1)
        f = rng.uniform(5, 80, nb) + np.linspace(0, 1, nq)[:, None]*rng.uniform(-40, 40, nb)
    elif kind == 'leftover':
        e = np.tile(np.eye(nb, dtype=complex), (nq, 1, 1))
        m = int(rng.integers(4, nb + 1))
        r = np.ones(m - 1)/np.sqrt(m - 1)
        U = np.eye(nb)
        U[:m - 1, :m - 1] -= np.outer(r, r)
        U[:m - 1, m - 1] = U[m - 1, :m - 1] = r
        U[m - 1, m - 1] = 0
        p = rng.permutation(nb)
        U = U[p][:, p]
        for i in range(1, nq):
            e[i] = U@e[i - 1] if rng.random() < .5 else e[i - 1]
        e[1] = U@e[0]
        e[np.abs(e) < 1e-12] = 0
        mon.event('orthogonal-leftover')
    else:
        e = objs.evecs(rng, nq, n).reshape(nq, nb, nb)
    true_f, true_e = f.copy(), e.copy()
    # eigenvector phases are arbitrary; modes come sorted by frequency
    e = e*np.exp(2j*np.pi*rng.random((nq, nb, 1))) if kind != 'leftover' else e
    if kind == 'degenerate':
        f[:, 1] = f[:, 0]
    o = np.argsort(f, axis=1, kind='stable')
    f = np.take_along_axis(f, o, 1)
    e = np.take_along_axis(e, o[..., None], 1)
    ids = o
    w = rng.uniform(.1, 2, nq)
    m = QpointPhononModes(c, q.copy(), f.copy()*ureg('meV'), e.reshape(nq, nb, n, 3).copy(), weights=w.copy())
    fu = objs.pick(rng, objs.ENERGY)
    m.frequencies_unit = fu
    rg = bool(rng.random() < .6)
    before = objs.snap((m.qpts, m.weights, m.crystal))
    m.reorder_frequencies(reorder_gamma=rg) if not rg or rng.random() < .5 else m.reorder_frequencies()
    mon.check(objs.diff(before, objs.snap((m.qpts, m.weights, m.crystal))) is None, 'mutated', 'reorder changed q-points, weights or crystal')
    mon.event('reorder')
    mon.evaluated((spec['kind'], spec['i'], kind))
    fg = m.frequencies.to('meV').magnitude
    eg = m.eigenvectors.reshape(nq, nb, nb)
    perm = np.zeros((nq, nb), int)
    for i in range(nq):
        # which input mode is each output mode: exact, by eigenvector bytes
        for j in range(nb):
            k = [k for k in range(nb) if np.array_equal(eg[i, j], e[i, k])]
            if not mon.check(len(k) == 1, 'not-a-mode', f'q-point {i} mode {j} is not a mode of the input'):
                return
            perm[i, j] = k[0]
        mon.check(sorted(perm[i]) == list(range(nb)), 'not-a-permutation', f'q-point {i}: modes {perm[i]} ({kind})')
        mon.close(fg[i], f[i][perm[i]], 'frequencies-detached', 'frequency does not follow its eigenvector', rtol=1e-12)
    if not (np.sort(perm, axis=1) == np.arange(nb)).all():
        return
    mon.check((perm[0] == np.arange(nb)).all(), 'first-reordered')
    t = [False] + turned(q)
    g = gamma(q)
    smooth_ok = True
    for i in range(1, nq):
        if t[i - 1] is None:
            break
        stop = bool(t[i - 1])
        if not rg and (g[i] or (g[i - 1])):
            stop = True
            mon.event('gamma-not-reordered')
        if stop:
            mon.event('turn-not-reordered')
            smooth_ok = False
            mon.check((perm[i] == perm[i - 1]).all(), 'turn-reordered', f'modes exchanged at q-point {i} after a turn')
            continue
        pr = match(e[i - 1], e[i])
        if pr is None:
            if kind in ('smooth', 'random'):
                continue
            continue
        exp = np.array([pr[int(k)] for k in perm[i - 1]])
        mon.check((perm[i] == exp).all(), 'wrong-branch', f'q-point {i} ({kind}): order {perm[i]} expected {exp}')
        mon.event('reordered-modes', int((perm[i] != np.arange(nb)).sum()))
    if kind == 'smooth' and smooth_ok:
        br = np.take_along_axis(ids, perm, 1)
        mon.check((br == br[0]).all(), 'branches', 'smooth branches are not followed')
        mon.event('branches-recovered')


def named(q, pts):
    """Acceptable names of a point."""
    def at(r, x):
        return np.abs((r - x) - np.rint(r - x)).max() < 1e-6
    exact = {l for l, x in pts.items() if at(q, x)}
    if not any(pts[l].min() > -1e-9 for l in exact):
        # conventions that differ by a cyclic permutation of the axes
        for k in (1, 2):
            r = {l for l, x in pts.items() if at(np.roll(q, k), x)}
            if r:
                exact |= r
                break
    return {'$\\Gamma$' if l == 'GAMMA' else l for l in exact} or {''}


GENERIC = {'0': 0., '1/4': .25, '3/4': .75, '1/2': .5, '1/3': 1/3, '2/3': 2/3, '3/8': .375, '5/8': .625}


def generic_name(q):
    s = []
    for x in q:
        m = [l for l, v in GENERIC.items() if abs((x - v) - np.rint(x - v)) < 1e-6]
        if not m:
            return ''
        s.append(m[0])
    return ' '.join(s)


def check_labels(mon, labels, q, pts):
    nq = len(q)
    must, may = set(), set()
    if nq <= 2:
        must = set(range(nq))
        mon.event('few-points')
    else:
        must = {0, nq - 1}
        t = turned(q)
        for i in range(1, nq - 1):
            a = bool(gamma(q[i]))
            b = bool((q[i + 1] == q[i]).all())
            if t[i - 1] or a or b:
                must.add(i)
                mon.event('turn-label', bool(t[i - 1]))
                mon.event('gamma-label', a)
                mon.event('repeat-label', b)
            elif t[i - 1] is None:
                may.add(i)
    got = [i for i, _ in labels]
    mon.check(got == sorted(set(got)), 'label-order', str(labels))
    mon.check(must <= set(got) <= must | may, 'label-positions', f'labels at {got}, expected {sorted(must)}', q=q)
    names = [named(q[i], pts) if pts is not None else {generic_name(q[i])} for i in got]
    mon.event('labels')
    if all(x == {''} for x in names):
        mon.event('coordinate-labels')
        for (i, l) in labels:
            nums = [float(x) for x in l.strip('[]').split()]
            mon.close(nums, np.around(q[i], 2), 'coordinate-label', rtol=0, atol=1e-9)
        return
    for (i, l), e in zip(labels, names):
        mon.check(l in e, 'label-name', f'{q[i]} labelled {l!r}, expected one of {sorted(e)}')
        mon.event('named', l != '')


def check_axis(mon, x, q, recip):
    """x, recip in the same units."""
    exp = [0.]
    for a, b in zip(q[:-1], q[1:]):
        d = b - a
        jump = np.abs(d).sum() > 1e-3 and np.abs(d - np.rint(d)).sum() < 1e-3
        mon.event('lattice-jump', jump)
        exp.append(exp[-1] + (0. if jump else np.linalg.norm(d@recip)))
    mon.close(x, np.array(exp), 'abscissa', 'distance along the path', rtol=1e-10, atol=1e-13)
    mon.event('abscissa')


def points(c):
    try:
        return {k: np.array(v) for k, v in seekpath.get_path(c.to_spglib_cell())['point_coords'].items()}
    except Exception:
        return None


def dispersion(mon, rng, o, pts):
    before = objs.snap(o)
    d = o.get_dispersion()
    mon.check(objs.diff(before, objs.snap(o)) is None, 'mutated', 'get_dispersion changed the object')
    c = o.crystal
    # independent reciprocal cell
    cell = c.cell_vectors.to('angstrom').magnitude
    recip = 2*np.pi*np.linalg.inv(cell).T
    check_axis(mon, d.x_data.to('1/angstrom').magnitude, o.qpts, recip)
    mon.check(str(d.y_data.units) == str(o.frequencies.units), 'unit')
    mon.close(d.y_data.magnitude, o.frequencies.magnitude.T, 'bands', 'bands are not the frequencies', rtol=1e-14)
    check_labels(mon, d.x_tick_labels, o.qpts, pts)
    mon.check(all(type(i) is int and type(l) in (str, np.str_) for i, l in d.x_tick_labels), 'label-types')


def path(spec, mon, rng):
    from euphonic import QpointFrequencies, QpointPhononModes, Crystal, ureg
    from euphonic.util import get_qpoint_labels
    d = gen.prototype(rng) if rng.random() < .6 else objs.system(rng)
    c = gen.make_crystal(d, (objs.pick(rng, ['angstrom', 'bohr', 'nm']), 'amu'))
    generic = rng.random() < .15
    if generic and rng.random() < .5:
        c = Crystal(np.diag(rng.uniform(3, 6, 3))*ureg('angstrom'), np.zeros((0, 3)), np.array([]), np.array([])*ureg('amu'))
        mon.event('empty-crystal')
        pts = None
    else:
        pts = points(c)
    pool = list(pts.values()) if pts else [np.zeros(3), np.array([.5, 0, 0]), np.array([1/3, 1/3, 0])]
    if generic or rng.random() < .4:
        pool += [np.array(x) for x in ([.25, .5, .75], [.5, .5, 0], [.375, .375, .75], [.125, .25, .6], [0, 0, 0])]
    if rng.random() < .15:
        pool = [rng.uniform(-1, 1, 3).round(3) for _ in range(5)]
    q, last = [], None
    for _ in range(int(rng.integers(1, 6))):
        a = pool[int(rng.integers(len(pool)))] + (rng.integers(-1, 2, 3) if rng.random() < .3 else 0) if last is None or rng.random() < .25 else last
        b = pool[int(rng.integers(len(pool)))] + (rng.integers(-1, 2, 3) if rng.random() < .3 else 0)
        if np.abs(a - b).max() < 1e-6:
            continue
        n = int(rng.integers(2, 8))
        s = np.linspace(a, b, n)
        if q and np.array_equal(q[-1], s[0]) and rng.random() < .85:
            s = s[1:]
        q += list(s)
        last = b
    if rng.random() < .1:
        q = q[:int(rng.integers(1, 3))]
    if not q:
        raise core.SkipCase
    q = np.array(q)
    if rng.random() < .25:
        # arithmetic noise, as from accumulated steps
        q = q + rng.choice([0, 0, 1, -1], q.shape)*2e-17*10**rng.integers(0, 4, q.shape)
        mon.event('noisy-special-point')
    f = rng.uniform(1, 50, (len(q), 3*max(c.n_atoms, 1)))
    o = QpointFrequencies(c, q, f*ureg('meV')) if c.n_atoms else None
    if o is not None:
        if rng.random() < .3:
            o = QpointPhononModes(c, q, f*ureg('meV'), objs.evecs(rng, len(q), c.n_atoms))
        o.frequencies_unit = objs.pick(rng, objs.ENERGY)
        dispersion(mon, rng, o, pts)
    else:
        check_labels(mon, get_qpoint_labels(q, cell=c.to_spglib_cell()), q, None)
    if generic:
        check_labels(mon, get_qpoint_labels(q), q, None)
        mon.event('generic-labels')
    mon.evaluated((spec['kind'], spec['i']))
    mon.sample({'q': q[:6], 'n': len(q)})


def seek(spec, mon, rng):
    """Standard path of the crystal itself, labels known from seekpath."""
    from euphonic import QpointFrequencies, ureg
    d = gen.prototype(rng)
    c = gen.make_crystal(d)
    try:
        p = seekpath.get_explicit_k_path_orig_cell(c.to_spglib_cell(), reference_distance=float(rng.uniform(.03, .2)))
    except Exception:
        raise core.SkipCase
    q = np.array(p['explicit_kpoints_rel'])
    if len(q) < 3:
        raise core.SkipCase
    mon.event('seekpath-path')
    f = rng.uniform(1, 50, (len(q), 3*c.n_atoms))
    o = QpointFrequencies(c, q, f*ureg('meV'))
    dispersion(mon, rng, o, points(c))
    mon.evaluated((spec['kind'], spec['i']))


def fc(spec, mon, rng):
    d = gen.system(rng, nmax=6)
    o = gen.make_fc(d)
    a = rng.uniform(-.5, .5, 3)
    b = a + rng.normal(size=3)*.3
    q = np.linspace(a, b, 25)
    m = o.calculate_qpoint_phonon_modes(q, asr='reciprocal')
    f0, e0 = m.frequencies.magnitude.copy(), m.eigenvectors.copy()
    m.reorder_frequencies()
    n = len(d['atom_r'])
    perm0 = np.arange(3*n)
    e = e0.reshape(25, 3*n, -1)
    for i in range(25):
        mon.close(np.sort(m.frequencies.magnitude[i]), np.sort(f0[i]), 'not-a-permutation', rtol=1e-12)
        if i:
            pr = match(e[i - 1], e[i])
            if pr is None:
                return
            perm0 = np.array([pr[int(k)] for k in perm0])
            mon.check(np.array_equal(m.eigenvectors[i].reshape(3*n, -1), e[i][perm0]), 'wrong-branch', f'q-point {i}')
    mon.event('interpolated')
    mon.evaluated((spec['kind'], spec['i']))


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    {'reorder': reorder, 'path': path, 'seek': seek, 'fc': fc}[spec['kind']](spec, mon, rng)
