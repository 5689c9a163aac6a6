"""C29: crystal geometry and symmetry helpers."""
import itertools
from collections import OrderedDict
import numpy as np
from .. import core, objs, gen

RULE = ('random cells (both handednesses, skewed, every unit), Monkhorst-Pack spacings and grids, and crystals generated from every space-group '
        'setting of the spglib database (orbits of random and special positions, supercells, unimodular basis changes, atoms outside the home cell, '
        'species interleaved, displacements below and above the tolerance); returned operations are applied to the atoms in Cartesian space and '
        'the set is compared with a brute-force search; distinct by (case)')
ASSUMPTIONS = ['grid specifications judged away from exact multiples of the spacing', 'symmetry judged on right-handed cells',
               'with atoms displaced by noise the number of operations is compared with that of the ideal crystal']
REQUIRED_EVENTS = ['reciprocal', 'volume', 'left-handed', 'mp-spec', 'mp-spec-one', 'mp-grid', 'mp-even', 'species', 'spglib-cell', 'empty-crystal', 'symmetry',
                   'many-operations', 'nontrivial-permutation', 'translations', 'supercell', 'outside-cell', 'brute-force', 'noise-below-tol',
                   'noise-above-tol', 'tol-unit', 'ambiguous-refused', 'setter', 'default-spacing', 'default-tol', 'tolerance-kept', 'tolerance-lost', 'plural-orbits']


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 16}[tier]
    r = [{'kind': 'geometry', 'i': i} for i in range(250*k)] + [{'kind': 'grid', 'i': i} for i in range(150*k)]
    halls = np.random.default_rng(seed).permutation(530) + 1
    n = {'quick': 300, 'thorough': 530*8}[tier]
    r += [{'kind': 'symmetry', 'i': i, 'hall': int(halls[i % 530])} for i in range(n)]
    r += [{'kind': kd, 'i': i} for i in range(20*k) for kd in ('ambiguous', 'tolerance', 'tolerance')]
    return [r[j] for j in np.random.default_rng(seed + 1).permutation(len(r))]


def geometry(rng, mon):
    from euphonic import ureg, Crystal
    d = objs.system(rng)
    cell = d['cell']
    if rng.random() < .3:
        cell = cell[rng.permutation(3)]*rng.choice([-1, 1], 3)[:, None]
    if rng.random() < .3:
        cell = np.array([[1, 0, 0], [int(rng.integers(-2, 3)), 1, 0], [0, int(rng.integers(-2, 3)), 1]])@cell
    if np.linalg.det(cell) < 0:
        mon.event('left-handed')
    u = objs.pick(rng, objs.LENGTH[:4])
    d['cell'] = cell
    empty = rng.random() < .1
    if empty:
        c = Crystal.from_cell_vectors((cell*ureg('bohr')).to(u))
        mon.event('empty-crystal')
        mon.check(c.n_atoms == 0 and c.atom_r.shape == (0, 3) and c.atom_mass.shape == (0,) and len(c.atom_type) == 0, 'empty:atoms')
    else:
        c = gen.make_crystal(d, (u, 'amu'))
    if rng.random() < .4:
        mon.event('setter')
        if rng.random() < .5:
            u = objs.pick(rng, objs.LENGTH[:4])
            c.cell_vectors_unit = u
        else:
            cell = cell*float(rng.uniform(.8, 1.2))
            c.cell_vectors = (cell*ureg('bohr')).to(u)
    a = (cell*ureg('bohr')).to(u).magnitude
    snap = objs.snap(c)
    b = c.reciprocal_cell()
    mon.event('reciprocal')
    mon.check(b.units == (1/ureg(u)).units, 'reciprocal-unit', f'{b.units}')
    mon.close(a@b.magnitude.T/(2*np.pi), np.eye(3), 'reciprocal', rtol=1e-10)
    v = c.cell_volume()
    mon.event('volume')
    mon.check(v.units == (ureg(u)**3).units, 'volume-unit', f'{v.units}')
    mon.close(v.magnitude, abs(np.linalg.det(a)), 'volume', rtol=1e-10)
    # species
    mon.event('species')
    s = c.get_species_idx()
    types = [] if empty else [str(x) for x in d['atom_type']]
    first = list(OrderedDict.fromkeys(types))
    mon.check(list(s) == first, 'species:keys', f'{list(s)} != {first}')
    mon.check(all(isinstance(k, str) for k in s), 'species:key-type')
    allidx = np.concatenate([np.asarray(x) for x in s.values()]) if s else np.array([], int)
    mon.check(sorted(allidx.tolist()) == list(range(len(types))), 'species:partition', f'{allidx}')
    mon.check(all(types[i] == k for k, idx in s.items() for i in idx), 'species:type')
    mon.check(all(list(i) == sorted(i) for i in map(list, s.values())), 'species:order')
    if not empty:
        mon.event('spglib-cell')
        L, r, t = c.to_spglib_cell()
        mon.close(np.array(L), (cell*ureg('bohr')).to('angstrom').magnitude, 'spglib:lattice', rtol=1e-10)
        mon.close(np.array(r), d['atom_r'], 'spglib:positions', rtol=1e-14)
        mon.check(all(isinstance(x, int) for x in t), 'spglib:types-not-integers')
        same = [[types[i] == types[j] for i in range(len(t))] for j in range(len(t))]
        mon.check([[t[i] == t[j] for i in range(len(t))] for j in range(len(t))] == same, 'spglib:types', f'{t} for {types}')
    # grid spec
    lb = np.linalg.norm(2*np.pi*np.linalg.inv(a), axis=0)
    ru = objs.pick(rng, ['angstrom', 'bohr', 'nm', 'pm'])
    if rng.random() < .15:
        mon.event('default-spacing')
        h = (.1*ureg('1/angstrom')).to(1/ureg(u)).magnitude
        if np.min(np.abs(lb/h - np.rint(lb/h))) < 1e-7:
            raise core.SkipCase
        spec = c.get_mp_grid_spec()
    else:
        h = float(np.max(lb)/rng.uniform(.3, 12))
        if np.min(np.abs(lb/h - np.rint(lb/h))) < 1e-7:
            raise core.SkipCase
        spec = c.get_mp_grid_spec(h*(1/ureg(u)).to(1/ureg(ru)))
    mon.event('mp-spec')
    if mon.check(isinstance(spec, tuple) and len(spec) == 3 and all(isinstance(x, (int, np.integer)) for x in spec), 'mp:type', f'{spec!r}'):
        sp = np.array(spec)
        mon.event('mp-spec-one', (sp == 1).any())
        mon.check((sp >= 1).all(), 'mp:less-than-one', f'{spec}')
        mon.check((lb/sp <= h*(1 + 1e-9)).all(), 'mp:too-coarse', f'{spec} gives {lb/sp}, requested {h}')
        mon.check(((sp == 1) | (lb/np.maximum(sp - 1, 1) > h)).all(), 'mp:finer-than-needed', f'{spec} for {lb/h}')
    mon.check(not objs.diff(snap, objs.snap(c)), 'geometry:modified', f'{objs.diff(snap, objs.snap(c))}')


def grid(rng, mon):
    from euphonic.util import mp_grid, get_all_origins
    g = [int(x) for x in rng.integers(1, 8, 3)]
    if rng.random() < .1:
        g[int(rng.integers(3))] = int(rng.integers(8, 30))
    arg = tuple(g) if rng.random() < .5 else objs.pick(rng, [g, np.array(g)])
    q = mp_grid(arg)
    mon.event('mp-grid')
    n = int(np.prod(g))
    if not mon.check(np.shape(q) == (n, 3), 'mpgrid:shape', f'{np.shape(q)} for {g}'):
        return
    mon.event('mp-even', any(x % 2 == 0 for x in g))
    for i in range(3):
        want = (2*np.arange(1, g[i] + 1) - g[i] - 1)/(2*g[i])
        u = np.unique(np.round(q[:, i], 12))
        mon.close(u, np.unique(np.round(want, 12)), 'mpgrid:axis', rtol=1e-11)
    k = np.rint(q*2*np.array(g)).astype(int)
    mon.check(len({tuple(x) for x in k}) == n, 'mpgrid:repeated-points', f'{g}')
    mon.close(q.mean(axis=0), np.zeros(3), 'mpgrid:not-centred', atol=1e-12)
    # Fourier sums vanish for every lattice vector except multiples of the grid
    for _ in range(4):
        R = rng.integers(-9, 10, 3)
        s = np.mean(np.exp(2j*np.pi*(q@R)))
        if np.all(R % np.array(g) == 0):
            mon.close(abs(s), 1., 'mpgrid:fourier', rtol=1e-9)
        else:
            mon.close(abs(s), 0., 'mpgrid:fourier', atol=1e-9)
    lo = rng.integers(-4, 3, 3)
    hi = lo + rng.integers(1, 6, 3)
    o = get_all_origins(tuple(int(x) for x in hi), min_xyz=tuple(int(x) for x in lo))
    want = list(itertools.product(*[range(a, b) for a, b in zip(lo, hi)]))
    mon.check([tuple(int(v) for v in x) for x in o] == [tuple(int(v) for v in x) for x in want], 'all-origins', f'{lo} {hi}')


def crystal_of(rng, hall):
    """Crystal of a space-group setting: (cell in angstrom, positions, types)."""
    import spglib
    s = spglib.get_symmetry_from_database(hall)
    W, w = s['rotations'], s['translations']
    for _ in range(60):
        a, b, c = rng.uniform(3.2, 8., 3)
        ang = np.cos(np.radians(rng.uniform(75, 105, 3)))
        G = np.array([[a*a, a*b*ang[0], a*c*ang[1]], [a*b*ang[0], b*b, b*c*ang[2]], [a*c*ang[1], b*c*ang[2], c*c]])
        G = np.mean([R.T@G@R for R in W], axis=0)
        if np.linalg.eigvalsh(G)[0] < 4.:
            continue
        cell = np.linalg.cholesky(G)
        pos, typ = [], []
        for k in range(int(rng.integers(1, 4))):
            x = rng.uniform(0, 1, 3)
            special = rng.random() < .75
            if special:
                x = rng.choice([0, .25, .5, .75, 1/3, 2/3, .125, x[0]], 3)
                if rng.random() < .5:
                    j = int(rng.integers(len(W)))
                    # project on the fixed set of an operation
                    y = (x + W[j]@x + w[j])/2
                    if np.allclose((W[j]@y + w[j] - y) % 1, 0, atol=1e-9):
                        x = y
            orb = []
            for R, t in zip(W, w):
                y = R@x + t
                if not any(np.linalg.norm(((y - z) - np.rint(y - z))@cell) < 1e-4 for z in orb):
                    orb.append(y)
            if len(pos) + len(orb) > 30:
                continue
            pos += orb
            typ += [k % 2]*len(orb)
        if not pos or closest(cell, np.array(pos)) < .6:
            continue
        return cell, np.array(pos) % 1, np.array(typ), len(W)
    raise core.SkipCase


SH = np.array(list(itertools.product((-1, 0, 1), repeat=3)))


def closest(cell, r):
    d = r[:, None] - r[None]
    d -= np.rint(d)
    x = np.linalg.norm((d[:, :, None] + SH)@cell, axis=-1)
    x[np.arange(len(r)), np.arange(len(r)), np.argmin(x[np.arange(len(r)), np.arange(len(r))], axis=1)] = np.inf
    return x.min()


def brute(cell, r, t, tol):
    """Every isometry of the crystal as {(W, permutation)}."""
    G = cell@cell.T
    n = 4
    v = np.array(list(itertools.product(range(-n, n + 1), repeat=3)))
    L = np.einsum('ij,jk,ik->i', v, G, v)
    scale = np.max(np.diag(G))
    cols = [v[np.abs(L - G[i, i]) < 1e-4*scale] for i in range(3)]
    ops = set()
    types, counts = np.unique(t, return_counts=True)
    rare = np.where(t == types[np.argmin(counts)])[0]
    for a in cols[0]:
        for b in cols[1]:
            if abs(a@G@b - G[0, 1]) > 1e-4*scale:
                continue
            for c in cols[2]:
                if abs(a@G@c - G[0, 2]) > 1e-4*scale or abs(b@G@c - G[1, 2]) > 1e-4*scale:
                    continue
                W = np.array([a, b, c]).T
                x = r@W.T
                for j in rare:
                    y = x - x[rare[0]] + r[j]
                    d = y[:, None] - r[None]
                    d -= np.rint(d)
                    hit = (np.linalg.norm(d@cell, axis=-1) < tol) & (t[:, None] == t[None])
                    if hit.any(axis=1).all():
                        p = tuple(int(k) for k in np.argmax(hit, axis=1))
                        if len(set(p)) == len(t):
                            ops.add((tuple(int(k) for k in W.ravel()), p))
    return ops


def symmetry(rng, mon):
    from euphonic import ureg, Crystal
    cell, r, t, nW = crystal_of(rng, mon.case['hall'])
    n = len(r)
    if rng.random() < .25 and n <= 10:
        k = np.eye(3, dtype=int)
        k[int(rng.integers(3))] *= 2
        mon.event('supercell')
        o = gen.cell_origins(k)
        inv = np.linalg.inv(k)
        r = np.concatenate([(r + x)@inv for x in o])
        t = np.tile(t, len(o))
        cell = k@cell
        n = len(r)
    if rng.random() < .25:
        U = np.eye(3, dtype=int)
        i, j = rng.permutation(3)[:2]
        U[i, j] = int(rng.choice([-1, 1]))
        cell, r = U@cell, r@np.linalg.inv(U)
    p = rng.permutation(n)
    r, t = r[p], t[p]
    if rng.random() < .5:
        r = r + rng.integers(-2, 3, r.shape)
        mon.event('outside-cell')
    else:
        r = r % 1
    if rng.random() < .5:
        cell = cell@gen.rand_rotation(rng).T
    if np.linalg.det(cell) < 0:
        cell = -cell
    names = np.array(['Na', 'Cl'] if rng.random() < .5 else ['Zn', 'Al'])[t]
    tol, kw = 1e-5, {}
    noise = rng.random()
    if rng.random() < .5:
        tol = float(10**rng.uniform(-5, -1.5))
        tu = objs.pick(rng, ['angstrom', 'bohr', 'nm', 'pm'])
        kw = {'tol': tol*ureg('angstrom').to(tu)}
        mon.event('tol-unit')
    else:
        mon.event('default-tol')
    base = r.copy()
    if noise < .2:
        r = r + rng.uniform(-1, 1, r.shape)*tol*.02@np.linalg.inv(cell)
        mon.event('noise-below-tol')
    elif noise < .3 and n > 1 and tol < 1e-3:
        r = r + rng.uniform(-1, 1, r.shape)*.2@np.linalg.inv(cell)
        base = r.copy()
        mon.event('noise-above-tol')
    u = objs.pick(rng, ['angstrom', 'bohr', 'nm'])
    c = Crystal((cell*ureg('angstrom')).to(u), r, names, np.full(n, 20.)*ureg('amu'))
    snap = objs.snap(c)
    W, w, eq = c.get_symmetry_equivalent_atoms(**kw)
    mon.event('symmetry')
    mon.check(not objs.diff(snap, objs.snap(c)), 'symmetry:modified', f'{objs.diff(snap, objs.snap(c))}')
    W, w, eq = np.asarray(W), np.asarray(w), np.asarray(eq)
    k = len(W)
    if not mon.check(k > 0 and W.shape == (k, 3, 3) and w.shape == (k, 3) and eq.shape == (k, n), 'symmetry:shapes', f'{W.shape} {w.shape} {eq.shape}'):
        return
    mon.event('many-operations', k > 8)
    mon.event('translations', (np.abs(w - np.rint(w)) > 1e-3).any())
    mon.event('plural-orbits', len({tuple(sorted(set(eq[:, i].tolist()))) for i in range(n)}) > 1)
    mon.check(np.array_equal(W, np.rint(W)) and np.all(np.abs(np.abs(np.linalg.det(W)) - 1) < 1e-9), 'symmetry:not-integer')
    inv = np.linalg.inv(cell)
    C = np.array([cell.T@x@inv.T for x in W])
    mon.close(np.einsum('kij,kil->kjl', C, C), np.tile(np.eye(3), (k, 1, 1)), 'symmetry:not-isometry', atol=1e-2 if tol > 1e-4 else 1e-4)
    mon.check(((eq >= 0) & (eq < n)).all(), 'symmetry:index')
    mon.check(all(sorted(e.tolist()) == list(range(n)) for e in eq), 'symmetry:not-a-permutation')
    mon.event('nontrivial-permutation', (eq != np.arange(n)).any())
    img = np.einsum('kij,lj->kli', W, r) + w[:, None, :]
    d = img - r[eq]
    d -= np.rint(d)
    dist = np.linalg.norm(d@cell, axis=-1)
    mon.check(dist.max() < tol*1.001, 'symmetry:wrong-image', f'{dist.max():.3g} from the listed image, tol {tol:.3g}')
    mon.check((names[eq] == names[None]).all(), 'symmetry:species')
    ident = [(np.array_equal(a, np.eye(3)) and np.linalg.norm((b - np.rint(b))@cell) < tol and np.array_equal(e, np.arange(n))) for a, b, e in zip(W, w, eq)]
    mon.check(sum(ident) == 1, 'symmetry:identity', f'{sum(ident)} identities')
    got = [(tuple(int(x) for x in a.ravel()), tuple(int(x) for x in e)) for a, e in zip(W, eq)]
    mon.check(len(set(got)) == k, 'symmetry:repeated')
    if n <= 16 or rng.random() < .3:
        mon.event('brute-force')
        want = brute(cell, base, t, 5e-6 if noise >= .2 else min(tol*.5, 1e-4))
        if closest(cell, base) > .3:
            mon.check(set(got) == want, 'symmetry:operations', f'{k} operations, brute force finds {len(want)}; '
                      f'missing {len(want - set(got))}, extra {len(set(got) - want)} (hall {mon.case["hall"]}, tol {tol:.2g})')


def ambiguous(rng, mon):
    """Atoms closer together than the tolerance cannot be told apart."""
    from euphonic import ureg, Crystal
    cell = np.diag(rng.uniform(3, 6, 3))
    r = np.array([[0, 0, 0], [.5, .5, .5]])
    tol = float(rng.uniform(.01, .3))
    e = rng.normal(size=3)
    e *= tol*rng.uniform(.05, .6)/np.linalg.norm(e)
    r = np.concatenate([r, r[1:] + e@np.linalg.inv(cell)])
    c = Crystal(cell*ureg('angstrom'), r, np.array(['Si']*3), np.full(3, 28.)*ureg('amu'))
    mon.raises(lambda: c.get_symmetry_equivalent_atoms(tol=tol*ureg('angstrom')), RuntimeError, 'ambiguous-accepted')
    mon.event('ambiguous-refused')


def tolerance(rng, mon):
    """Inversion kept or lost as one atom of a pair moves by part of, or more than, the tolerance."""
    from euphonic import ureg, Crystal
    cell = gen.lattice(rng, 'tric')[1]*gen.BOHR
    n = int(rng.integers(1, 4))
    for _ in range(100):
        x = rng.uniform(0, 1, (n, 3))
        r = np.concatenate([[[0, 0, 0]], x, -x])
        if closest(cell, r) > 1.:
            break
    else:
        raise core.SkipCase
    tol = float(10**rng.uniform(-5, -2))
    f = float(rng.choice([rng.uniform(0, .85), rng.uniform(1.4, 6)]))
    e = rng.normal(size=3)
    r[-1] += e/np.linalg.norm(e)*tol*f@np.linalg.inv(cell)
    names = np.array(['O'] + ['H']*2*n)
    tu = objs.pick(rng, ['angstrom', 'bohr', 'nm', 'pm'])
    c = Crystal((cell*ureg('angstrom')).to(tu), r, names, np.ones(len(r))*ureg('amu'))
    W, w, eq = c.get_symmetry_equivalent_atoms(tol=(tol*ureg('angstrom')).to(tu))
    mon.event('tolerance-kept' if f < 1 else 'tolerance-lost')
    mon.check(len(W) == (2 if f < 1 else 1), 'tolerance', f'{len(W)} operations with one atom displaced by {f:.3g} of the tolerance {tol:.3g} angstrom')


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    globals()[spec['kind']](rng, mon)
    mon.evaluated(tuple(sorted(spec.items())))
    if spec['i'] == 0:
        mon.sample(spec)
