"""Workload generators: random crystals, supercells and force constants."""
import numpy as np

SPECIES = ['H', 'Li', 'C', 'N', 'O', 'Na', 'Al', 'Si', 'Cl', 'Ti', 'Fe', 'La', 'Zr', 'Pb']
MASS = {'H': 1.008, 'D': 2.014, 'Li': 6.94, 'C': 12.011, 'N': 14.007, 'O': 15.999,
        'Na': 22.99, 'Al': 26.98, 'Si': 28.085, 'Cl': 35.45, 'Ti': 47.867, 'Fe': 55.845,
        'La': 138.905, 'Zr': 91.224, 'Pb': 207.2}
BOHR = 0.529177210903


def lattice(rng, kind=None):
    """Right-handed cell vectors in bohr."""
    kind = kind or rng.choice(['cubic', 'tetragonal', 'ortho', 'hex', 'mono', 'tric', 'fcc', 'bcc'])
    a, b, c = rng.uniform(5., 11., 3)
    if kind == 'cubic':
        v = np.eye(3)*a
    elif kind == 'tetragonal':
        v = np.diag([a, a, c])
    elif kind == 'ortho':
        v = np.diag([a, b, c])
    elif kind == 'hex':
        v = np.array([[a, 0, 0], [-a/2, a*np.sqrt(3)/2, 0], [0, 0, c]])
    elif kind == 'mono':
        be = np.radians(rng.uniform(92, 112))
        v = np.array([[a, 0, 0], [0, b, 0], [c*np.cos(be), 0, c*np.sin(be)]])
    elif kind == 'fcc':
        v = a/2*np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]])
    elif kind == 'bcc':
        v = a/2*np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1.]])
    else:
        al, be, ga = np.radians(rng.uniform(76, 106, 3))
        cx = c*np.cos(be)
        cy = c*(np.cos(al) - np.cos(be)*np.cos(ga))/np.sin(ga)
        v = np.array([[a, 0, 0], [b*np.cos(ga), b*np.sin(ga), 0],
                      [cx, cy, np.sqrt(c*c - cx*cx - cy*cy)]])
    if np.linalg.det(v) < 0:
        v = v[[1, 0, 2]]
    return str(kind), v


def atoms(rng, n, cell, min_dist=2.2):
    for _ in range(400):
        r = rng.uniform(0, 1, (n, 3))
        if rng.random() < .5:
            r[0] = 0.
        ok = True
        for i in range(n):
            for j in range(i):
                d = r[i] - r[j]
                d -= np.rint(d)
                sh = np.array(np.meshgrid(*[[-1, 0, 1]]*3)).reshape(3, -1).T
                if np.min(np.linalg.norm((d + sh)@cell, axis=1)) < min_dist:
                    ok = False
        if ok:
            return r
    raise RuntimeError('atoms')


def rand_rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q@np.diag(np.sign(np.diag(r)))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def sc_matrix(rng, kind=None, nmax=8):
    for _ in range(1000):
        k = kind or rng.choice(['diag', 'diag', 'special', 'nondiag', 'unit'])
        if k == 'unit':
            m = np.eye(3, dtype=int)
        elif k == 'diag':
            m = np.diag(rng.integers(1, 4, 3))
        elif k == 'special':
            m = [np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
                 np.array([[1, 1, 0], [-1, 2, 0], [0, 0, 2]]),
                 np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]),
                 np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
                 np.array([[2, 0, 0], [0, 1, 1], [0, -1, 1]])][rng.integers(5)]
        else:
            m = rng.integers(-1, 3, (3, 3)) + np.eye(3, dtype=int)
        d = int(round(np.linalg.det(m)))
        if 1 <= d <= nmax:
            return m.astype(np.int32)
    raise RuntimeError('sc_matrix')


def cell_origins(m):
    """All lattice points in the supercell with rows m, origin first."""
    inv = np.linalg.inv(m)
    n = int(round(abs(np.linalg.det(m))))
    lim = np.abs(m).sum(axis=0)
    pts = np.array(np.meshgrid(*[np.arange(-x, x+1) for x in lim], indexing='ij')).reshape(3, -1).T
    f = pts@inv
    sel = np.all((f > -1e-9) & (f < 1 - 1e-9), axis=1)
    out = pts[sel]
    assert len(out) == n, (len(out), n)
    i0 = np.where(~out.any(axis=1))[0][0]
    return np.concatenate([out[i0:i0+1], np.delete(out, i0, axis=0)]).astype(np.int32)


def ws_images(cell, atom_r, scm, origins, nsh=2, halo=1, tol=1e-3, amb=None):
    """Minimum-image (Wigner-Seitz) supercell translations.

    Returns list over (nc,i,j) of arrays of supercell translation triples such
    that atom j of cell nc + T lies in the WS cell (of the supercell lattice)
    centred on atom i of cell 0. Raises ValueError('ambiguous') for points
    neither clearly on nor clearly off a face.
    """
    sv = scm@cell
    sh = np.array(np.meshgrid(*[np.arange(-nsh, nsh+1)]*3, indexing='ij')).reshape(3, -1).T
    w = np.array(np.meshgrid(*[np.arange(-halo, halo+1)]*3, indexing='ij')).reshape(3, -1).T
    w = w[w.any(axis=1)]@sv
    wn = w/np.sum(w*w, axis=1)[:, None]
    n_at = len(atom_r)
    base = (origins[:, None, None, :] + atom_r[None, None, :, :] - atom_r[None, :, None, :])@cell
    d = base[:, :, :, None, :] + (sh@sv)
    x = np.max(d@wn.T, axis=-1)
    inside = x <= .5 + tol
    if amb is not None:
        if np.any((np.abs(x - .5) > amb[0]) & (np.abs(x - .5) < amb[1])):
            raise ValueError('ambiguous')
    return inside, sh


def negate_map(origins, scm):
    inv = np.linalg.inv(scm)
    n = len(origins)
    out = np.zeros((n, n), int)
    f = origins@inv
    for i in range(n):
        d = f - f[i]   # origin j relative to origin i
        for j in range(n):
            e = f - d[j]
            e -= np.rint(e)
            k = np.where(np.all(np.abs(e) < 1e-6, axis=1))[0]
            assert len(k) == 1
            out[i, j] = k[0]
    return out


def home(d):
    """Index of the cell at the origin."""
    return int(np.where(~np.asarray(d['origins']).any(axis=1))[0][0])


def spring_fc(rng, cell, atom_r, scm, origins, asr=True, noise=0., decay=None, stable=True, chg=None):
    """Force constants (hartree/bohr**2), shape (nc, 3n, 3n), obeying
    Phi(R)[i,j] = Phi(-R)[j,i]^T; satisfies the ASR if asr."""
    n_at, nc = len(atom_r), len(origins)
    inside, sh = ws_images(cell, atom_r, scm, origins)
    sv = scm@cell
    decay = decay or rng.uniform(2., 4.)
    kl, kt = rng.uniform(.05, .4), rng.uniform(-.005, .08)
    if not stable:
        kt = -rng.uniform(.02, .08)
    drawn = rng.uniform(.5, 1.5, n_at)
    chg = drawn if chg is None else chg
    ph = np.zeros((nc, n_at, 3, n_at, 3))
    for c in range(nc):
        for i in range(n_at):
            for j in range(n_at):
                im = np.where(inside[c, i, j])[0]
                acc, cnt = np.zeros((3, 3)), 0
                for t in im:
                    d = (origins[c] + atom_r[j] - atom_r[i])@cell + sh[t]@sv
                    r = np.linalg.norm(d)
                    cnt += 1
                    if r < 1e-6:
                        continue
                    u = d/r
                    s = chg[i]*chg[j]*np.exp(-r/decay)*8
                    acc -= s*(kl*np.outer(u, u) + kt*(np.eye(3) - np.outer(u, u)))
                if cnt:
                    ph[c, i, :, j, :] = acc/cnt
    neg = negate_map(origins, scm)[:, 0]
    if noise:
        nz = rng.normal(size=ph.shape)*noise
        nz = .5*(nz + nz[neg].transpose(0, 3, 4, 1, 2))
        ph = ph + nz
    ph = .5*(ph + ph[neg].transpose(0, 3, 4, 1, 2))
    if asr:
        for i in range(n_at):
            ph[0, i, :, i, :] -= ph[:, i].sum(axis=(0, 2))
        ph[0] = .5*(ph[0] + ph[0].transpose(2, 3, 0, 1))
    return ph.reshape(nc, 3*n_at, 3*n_at)


def system(rng, n_atoms=None, kind=None, sc_kind=None, polar=False, asr=True, noise=None,
           shuffle=True, nmax=8, rotate=True, compact=True, stable=True, check_ws=True, scmat=None):
    """A random model material as a dict of plain arrays in atomic units."""
    for _ in range(200):
        lk, cell = lattice(rng, kind)
        # charge neutrality leaves a one-atom cell without Born charges
        n = n_atoms or int(rng.integers(2 if polar else 1, 5))
        try:
            r = atoms(rng, n, cell)
        except RuntimeError:
            continue
        scm = sc_matrix(rng, sc_kind, nmax) if scmat is None else scmat
        if check_ws:
            # The interpolation's cell search assumes a reasonably compact supercell:
            # its Wigner-Seitz cell must be determined by neighbours {-1,0,1}^3 and
            # reachable within +-2 supercells.
            org = cell_origins(scm)
            try:
                a, sh = ws_images(cell, r, scm, org, 2, 1, amb=(1e-6, 4e-3))
                if not np.all(a.any(axis=-1)):
                    continue
                b, sh3 = ws_images(cell, r, scm, org, 3, 3)
            except ValueError:
                continue
            near = np.all(np.abs(sh3) <= 2, axis=1)
            if not np.array_equal(a, b[..., near]) or b[..., ~near].any():
                continue
        break
    else:
        raise RuntimeError('no system')
    if rotate and rng.random() < .5:
        cell = cell@rand_rotation(rng).T
    org = cell_origins(scm)
    if shuffle and len(org) > 2:
        org = np.concatenate([org[:1], org[1:][rng.permutation(len(org)-1)]])
    if noise is None:
        noise = 0. if rng.random() < .5 else 10**rng.uniform(-5, -3)
    fc = spring_fc(rng, cell, r, scm, org, asr=asr, noise=noise, stable=stable)
    types = rng.choice(SPECIES, n, replace=True)
    mass = np.array([MASS[t] for t in types])*(1 + .01*rng.normal(size=n))
    d = {'lattice': lk, 'cell': cell, 'atom_r': r, 'atom_type': np.array([str(t) for t in types]),
         'atom_mass': mass, 'scm': scm, 'origins': org, 'fc': fc, 'born': None, 'eps': None}
    if shuffle and len(org) > 1 and rng.random() < .2:
        k = rng.permutation(len(org))             # the cell at the origin need not come first
        d['origins'], d['fc'] = org[k], fc[k]
    if polar:
        z = rng.normal(size=(n, 3, 3))*.3
        s = rng.uniform(.5, 2.5, n)*np.where(np.arange(n) % 2, -1, 1)
        z += s[:, None, None]*np.eye(3)
        z -= z.mean(axis=0)
        e = rng.normal(size=(3, 3))*.3
        d['born'] = z
        d['eps'] = np.eye(3)*rng.uniform(1.5, 6.) + .5*(e + e.T)
    return d


def make_crystal(d, units=('bohr', 'amu')):
    from euphonic import Crystal, ureg
    return Crystal((d['cell']*ureg('bohr')).to(units[0]), np.array(d['atom_r']),
                   np.array(d['atom_type']), (d['atom_mass']*ureg('amu')).to(units[1]))


EPSU = 'e**2/(bohr*hartree)'


def make_fc(d, crystal=None, fc_unit='hartree/bohr**2', born_unit='e', eps_unit=EPSU, units=('bohr', 'amu')):
    from euphonic import ForceConstants, ureg
    c = crystal if crystal is not None else make_crystal(d, units)
    kw = {}
    if d['born'] is not None:
        kw = {'born': (np.array(d['born'])*ureg('e')).to(born_unit),
              'dielectric': (np.array(d['eps'])*ureg(EPSU)).to(eps_unit)}
    return ForceConstants(c, (np.array(d['fc'])*ureg('hartree/bohr**2')).to(fc_unit),
                          np.array(d['scm']), np.array(d['origins']), **kw)


def describe(d):
    return {'lattice': d['lattice'], 'n_atoms': len(d['atom_r']), 'scm': d['scm'].tolist(),
            'n_cells': len(d['origins']), 'polar': d['born'] is not None,
            'species': list(d['atom_type'])}


def from_object(fc):
    """Plain-array description of an existing ForceConstants object (public API)."""
    c = fc.crystal
    return {'lattice': 'material', 'cell': c.cell_vectors.to('bohr').magnitude,
            'atom_r': np.array(c.atom_r), 'atom_type': c.atom_type,
            'atom_mass': c.atom_mass.to('amu').magnitude, 'scm': np.array(fc.sc_matrix),
            'origins': np.array(fc.cell_origins),
            'fc': fc.force_constants.to('hartree/bohr**2').magnitude,
            'born': None if fc.born is None else fc.born.to('e').magnitude,
            'eps': None if fc.dielectric is None else fc.dielectric.to(EPSU).magnitude}


def qpoints(rng, n, special=True):
    q = rng.uniform(-1.2, 1.2, (n, 3))
    if special:
        pool = np.array([[0, 0, 0], [.5, 0, 0], [0, .5, .5], [.5, .5, .5], [1/3, 1/3, 0],
                         [1, 0, 0], [-1, 2, 0], [.25, .25, .25], [-.5, 0, .5], [1.5, -.5, 0],
                         [1e-4, 0, 0], [0, -1e-5, 1e-5]])
        k = rng.integers(0, n + 1)
        if k:
            q[:k] = pool[rng.integers(0, len(pool), k)]
        q = q[rng.permutation(n)]
    return q


def prototype(rng, name=None):
    """Crystals with symmetry, in random descriptions (rotation, origin, atom order)."""
    a, c = rng.uniform(6, 10), rng.uniform(7, 12)
    u = rng.uniform(.2, .3)
    fcc = a/2*np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]])
    hexa = np.array([[a, 0, 0], [-a/2, a*np.sqrt(3)/2, 0], [0, 0, c]])
    P = {'rocksalt': (fcc, [(0, 0, 0), (.5, .5, .5)], ['Na', 'Cl']),
         'zincblende': (fcc, [(0, 0, 0), (.25, .25, .25)], ['Ti', 'C']),
         'diamond': (fcc, [(0, 0, 0), (.25, .25, .25)], ['Si', 'Si']),
         'cscl': (np.eye(3)*a, [(0, 0, 0), (.5, .5, .5)], ['Li', 'Cl']),
         'perovskite': (np.eye(3)*a, [(0, 0, 0), (.5, .5, .5), (.5, .5, 0), (.5, 0, .5), (0, .5, .5)], ['La', 'Fe', 'O', 'O', 'O']),
         'rutile': (np.diag([a, a, c]), [(0, 0, 0), (.5, .5, .5), (u, u, 0), (1-u, 1-u, 0), (.5+u, .5-u, .5), (.5-u, .5+u, .5)],
                    ['Ti', 'Ti', 'O', 'O', 'O', 'O']),
         'graphite': (hexa, [(0, 0, 0), (0, 0, .5), (1/3, 2/3, 0), (2/3, 1/3, .5)], ['C']*4),
         'wurtzite': (hexa, [(1/3, 2/3, 0), (2/3, 1/3, .5), (1/3, 2/3, .375), (2/3, 1/3, .875)], ['Zr', 'Zr', 'O', 'O']),
         'quartzlike': (hexa, [(u, 0, 0), (0, u, 1/3), (-u, -u, 2/3)], ['Si']*3),
         'bcc': (a/2*np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1.]]), [(0, 0, 0)], ['Fe']),
         'mono': (np.array([[a, 0, 0], [0, c, 0], [-.3*a, 0, 1.1*a]]), [(u, .1, .3), (-u, -.1, -.3), (0, .5, .5)], ['Al', 'Al', 'N'])}
    name = name or str(rng.choice(sorted(P)))
    cell, r, t = P[name]
    r, t = np.array(r, float), np.array(t)
    p = rng.permutation(len(r))
    r, t = r[p], t[p]
    if rng.random() < .5:
        r = r + rng.uniform(-.5, .5, 3)
    if rng.random() < .5:
        r = r + rng.integers(-1, 2, r.shape)
    if rng.random() < .5:
        cell = cell@rand_rotation(rng).T
    if rng.random() < .3:
        q = rng.permutation(3)
        cell, r = cell[q], r[:, q]
    return {'lattice': name, 'cell': cell, 'atom_r': r, 'atom_type': t, 'atom_mass': np.array([MASS[x] for x in t])}
