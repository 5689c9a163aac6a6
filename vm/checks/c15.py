"""C15: Phonopy readers."""
import os
import shutil
import numpy as np
from .. import core, objs, gen, ref, load, phon
from .. import phonopyfmt as pf

RULE = ('randomly generated sets of Phonopy files (1-4 atoms, symmetric and non-symmetric supercell and primitive matrices, any supercell atom order, '
        'full and compact force constants, every place the force constants and Born charges can be, six unit systems) with known content, and the real '
        'files in the repository against an independent parser; distinct by file content')
ASSUMPTIONS = ['Phonopy conventions: (a_s b_s c_s) = (a_u b_u c_u) S with lattice vectors as columns; eigenvectors are columns of the HDF5 arrays, in the '
               'gauge exp(i q.(r_j(l) - r_i)); primitive atoms ordered by supercell representative', 'eigenvectors compared up to a phase per mode',
               'a BORN file lists every primitive atom', 'supercell positions lie in [0, 1), as Phonopy writes them']
REQUIRED_EVENTS = ['read', 'fc-in-yaml', 'fc-text', 'fc-hdf5', 'fc-compact', 'fc-full', 'single-number-header', 'nonsymmetric-supercell', 'primitive-matrix',
                   'nonsymmetric-primitive', 'born-top', 'born-block', 'born-file', 'born-no-factor-refused', 'no-units', 'bohr', 'random-order', 'polar',
                   'interpolated', 'commensurate-qpoints', 'outside-cell-positions', 'fc-in-yaml-preferred', 'wrong-shape-refused', 'one-atom', 'no-born-file',
                   'mesh-yaml', 'mesh-hdf5', 'band-yaml', 'band-hdf5', 'qpoints-yaml', 'qpoints-hdf5', 'no-eigenvectors-refused', 'frequencies-only',
                   'crystal-from-summary', 'mismatched-summary-refused', 'explicit-format', 'unknown-format-refused', 'formats-agree', 'real-fc', 'real-phonon', 'several-cells', 'over-100-cells']

THZ = 4.135667696           # meV
CM = ['bohr', 'angstrom']


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 25}[tier]
    r = []
    base = os.path.join(load.TESTDATA, 'phonopy_files')
    if os.path.isdir(base):
        for root, _, fs in sorted(os.walk(base)):
            rel = os.path.relpath(root, base)
            for f in sorted(fs):
                if f in ('mesh.yaml', 'band.yaml', 'qpoints.yaml', 'mesh.hdf5', 'band.hdf5', 'qpoints.hdf5'):
                    r.append({'kind': 'real-phonon', 'dir': rel, 'file': f})
    return [{'kind': 'fc', 'i': i} for i in range(170*k)] + [{'kind': 'phonon', 'i': i} for i in range(120*k)] + r + [{'kind': 'real-fc', 'i': 0}]


def unimodular(rng, sym):
    if sym:
        return np.eye(3, dtype=int)
    while True:
        u = rng.integers(-1, 2, (3, 3))
        if round(np.linalg.det(u)) == 1:
            return u


def build(rng, mon, d):
    """Write-out plan of the model d (fractional, bohr, hartree) as Phonopy sees it."""
    n, scm = len(d['atom_r']), d['scm']
    un = objs.pick(rng, ['vasp', 'vasp', 'qe', 'elk', 'wien2k', 'abinit', 'cp2k'])
    lu, fu, lf, ff = pf.UNITS[un]
    # conventional cell u = U p (rows); supercell s = St u with scm = St U
    U = unimodular(rng, rng.random() < .4)
    St = np.rint(scm@np.linalg.inv(U)).astype(int)
    if rng.random() < .3 and not (scm - np.diag(np.diag(scm))).any():
        k = [int(rng.choice([x for x in (1, 2, 3) if s % x == 0])) for s in np.diag(scm)]
        U = np.diag(k)
        St = scm//np.maximum(U, 1)*np.eye(3, dtype=int)
    S, P = St.T, np.linalg.inv(U).T
    assert np.array_equal(St@U, scm)
    ident = np.array_equal(U, np.eye(3))
    if not np.array_equal(S, S.T):
        mon.event('nonsymmetric-supercell')
    if not ident:
        mon.event('primitive-matrix')
        if not np.allclose(P, P.T):
            mon.event('nonsymmetric-primitive')
    order = objs.pick(rng, ['phonopy', 'cells', 'any', 'any'])
    org, j, reps, p = pf.supercell(rng, d, order, True, objs.pick(rng, ['first', 'random']))
    if order == 'any':
        mon.event('random-order')
    pos = d['atom_r']
    # which lattice translation of each primitive atom the primitive cell lists
    if rng.random() < .4:
        t = rng.integers(-1, 2, (n, 3))
        mon.event('outside-cell-positions')
    else:
        t = np.zeros((n, 3), int)
    ppos = (pos + t)[p]
    cell = d['cell']
    rank = np.argsort(p)                     # atom of the model -> atom of the file
    sc_r = (org + pos[j])@np.linalg.inv(scm)
    # unit cell atoms (only for completeness)
    uo = gen.cell_origins(U) if abs(np.linalg.det(U)) > 1.5 else np.zeros((1, 3), int)
    upos = np.concatenate([(pos + o)@np.linalg.inv(U) for o in uo])
    s = {'S': S, 'P': P if not ident or rng.random() < .5 else None, 'units': (lu, fu),
         'primitive_cell': {'cell': cell*lf, 'types': d['atom_type'][p], 'pos': ppos, 'mass': d['atom_mass'][p]},
         'unit_cell': {'cell': U@cell*lf, 'types': np.tile(d['atom_type'], len(uo)), 'pos': upos, 'mass': np.tile(d['atom_mass'], len(uo))},
         'supercell': {'cell': scm@cell*lf, 'types': d['atom_type'][j], 'pos': sc_r, 'mass': d['atom_mass'][j], 'red': reps[j] + 1}}
    if un == 'vasp' and rng.random() < .4:
        s['units'] = None
        mon.event('no-units')
    if lu == 'au':
        mon.event('bohr')
    return s, un, org, j, reps, p, rank, t


def full_fc(d, org, j):
    """(N, N, 3, 3) force constants between all supercell atoms, hartree/bohr**2."""
    n, nc, scm = len(d['atom_r']), len(d['origins']), d['scm']
    inv = np.linalg.inv(scm)
    f = d['total'].reshape(nc, n, 3, n, 3)
    key = lambda R: tuple(np.rint(((R@inv) % 1. % 1.)*nc*12).astype(int) % (12*nc))
    idx = {key(o): c for c, o in enumerate(d['origins'])}
    assert len(idx) == nc
    N = len(org)
    out = np.zeros((N, N, 3, 3))
    for a in range(N):
        for b in range(N):
            out[a, b] = f[idx[key(org[b] - org[a])], j[a], :, j[b], :]
    return out, (lambda R: idx[key(R)])


def fc_case(spec, mon, rng):
    from euphonic import ForceConstants
    polar = rng.random() < .4
    n = int(rng.choice([1, 2, 2, 3, 4])) if not polar else int(rng.choice([2, 3]))
    if spec['i'] % 85 == 7:
        # more cells than the reader searches at a time
        n, polar = 1, False
        d = gen.system(rng, n_atoms=1, kind='cubic', check_ws=False, scmat=np.diag(rng.permutation([5, 5, int(rng.integers(5, 7))])))
        mon.event('over-100-cells')
    else:
        d = gen.system(rng, n_atoms=n, polar=polar, nmax=6)
    if polar:
        sv = d['scm']@d['cell']
        if np.max(np.linalg.norm(sv, axis=1)) > 2.4*abs(np.linalg.det(sv))**(1/3):
            raise core.SkipCase
        mon.event('polar')
    if n == 1:
        mon.event('one-atom')
    d['total'] = d['fc']                 # for a polar crystal the files hold the total force constants
    s, un, org, j, reps, p, rank, t = build(rng, mon, d)
    lu, fu, lf, ff = pf.UNITS[un]
    fc, cell_of = full_fc(d, org, j)
    fc = fc*ff
    if len(d['origins']) > 1:
        mon.event('several-cells')
    compact = rng.random() < .5
    full = fc
    if compact:
        fc = fc[reps[p]]
    mon.event('fc-compact' if compact and fc.shape[0] != fc.shape[1] else 'fc-full')
    path = os.path.join(mon.scratch, 'ph')
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    kw = {'path': path}
    junk = rng.normal(size=fc.shape)
    where = objs.pick(rng, ['yaml', 'text', 'hdf5'])

    def put(text=None, h5=None, default=True):
        if text is not None:
            name = 'FORCE_CONSTANTS' if default and rng.random() < .5 else objs.pick(rng, ['FORCE_CONSTANTS', 'FULL_FC', 'fc.dat'])
            single = rng.random() < .5
            if single and text.shape[0] == text.shape[1]:
                mon.event('single-number-header')
            with open(os.path.join(path, name), 'w') as fh:
                fh.write(pf.force_constants(text, reps[p] if compact else np.arange(len(text)), single, rng.random() < .2))
            kw['fc_name'] = name
            if name == 'FORCE_CONSTANTS' and rng.random() < .5:
                del kw['fc_name']
        else:
            import h5py
            name = objs.pick(rng, ['force_constants.hdf5', 'fc.h5', 'fc.hd5', 'fc.test'])
            with h5py.File(os.path.join(path, name), 'w') as fh:
                fh['force_constants'] = h5
                fh['p2s_map'] = reps[p]
            kw['fc_name'] = name
            if name == 'fc.test' or rng.random() < .3:
                kw['fc_format'] = 'hdf5'
                mon.event('explicit-format')
    if where == 'yaml':
        s['fc'] = fc
        mon.event('fc-in-yaml')
        if rng.random() < .3:
            put(text=junk)
            mon.event('fc-in-yaml-preferred')
    elif where == 'text':
        put(text=fc)
        mon.event('fc-text')
    else:
        put(h5=fc)
        mon.event('fc-hdf5')
    factor, expect_born = None, None
    if polar:
        b, e = d['born'][p], d['eps']
        factor = pf.nac_factor(un)
        if rng.random() < .3:
            factor *= 1 + rng.uniform(-.01, .01)
        expect_born = (b, e*pf.nac_factor(un)/factor)
        bw = objs.pick(rng, ['top', 'block', 'file', 'file-nofactor', 'missing', 'not-asked'])
        bn = objs.pick(rng, ['BORN', 'born.txt'])
        if bw in ('top', 'block'):
            s['nac'], s['nac_block'] = (b, e, factor), bw == 'block'
            if bw == 'top':
                s['top_factor'] = factor
            mon.event('born-' + bw)
            if rng.random() < .3:
                kw['born_name'] = bn        # must not be needed: it does not exist, or holds other values
                with open(os.path.join(path, bn), 'w') as fh:
                    fh.write(pf.born(b + 1, e*2, factor*3))
        else:
            with open(os.path.join(path, bn), 'w') as fh:
                fh.write(pf.born(b, e, factor if bw == 'file' else None, rng.random() < .3))
            if bw == 'file':
                kw['born_name'] = bn
                if rng.random() < .3:
                    s['top_factor'] = factor*1.3        # the BORN file has its own
                mon.event('born-file')
            elif bw == 'file-nofactor':
                kw['born_name'] = bn
                s['top_factor'] = factor
                mon.event('born-file')
            elif bw == 'missing':
                kw['born_name'] = bn
            else:
                expect_born = None
                mon.event('no-born-file')
    name = objs.pick(rng, ['phonopy.yaml', 'phonopy_disp.yaml'])
    if name != 'phonopy.yaml':
        kw['summary_name'] = name
    with open(os.path.join(path, name), 'w') as fh:
        fh.write(pf.summary(s))
    if polar and bw == 'missing':
        mon.raises(lambda: ForceConstants.from_phonopy(**kw), KeyError, 'accepted-no-factor')
        mon.event('born-no-factor-refused')
        mon.evaluated((spec['i'],))
        return
    o = ForceConstants.from_phonopy(**kw)
    mon.event('read')
    info = f'{un} {where} {"compact" if compact else "full"} scm {d["scm"].tolist()} S {s["S"].tolist()} kw {sorted(kw)}'
    cr = o.crystal
    if not mon.check(cr.n_atoms == n, 'n-atoms', info):
        return
    mon.close(cr.cell_vectors.to('bohr').magnitude, d['cell'], 'cell-vectors', info, rtol=1e-9)
    mon.check([str(x) for x in cr.atom_type] == [str(x) for x in d['atom_type'][p]], 'atom-types', info)
    mon.close(cr.atom_mass.to('amu').magnitude, d['atom_mass'][p], 'atom-mass', info, rtol=1e-9)
    dr = cr.atom_r - d['atom_r'][p]
    sh = np.rint(dr).astype(int)
    mon.check(np.max(np.abs(dr - sh)) < 1e-12, 'atom-positions', info)
    mon.check(o.n_cells_in_sc == len(d['origins']) and np.array_equal(o.sc_matrix, d['scm']), 'supercell-matrix', f'{info} {o.sc_matrix.tolist()}')
    mon.check(o.force_constants.shape == (len(d['origins']), 3*n, 3*n), 'fc-shape', info)
    co = o.cell_origins
    inv = np.linalg.inv(d['scm'])
    red = {tuple(np.rint(((c@inv) % 1. % 1.)*len(co)*12).astype(int) % (12*len(co))) for c in co}
    mon.check(len(red) == len(co), 'cell-origins', f'{info}: the cell origins are not all cells of the supercell')
    if expect_born is None:
        mon.check(o.born is None and o.dielectric is None, 'born-presence', info)
        got = o.force_constants.to('hartree/bohr**2').magnitude.reshape(-1, n, 3, n, 3)
        tot = d['total'].reshape(-1, n, 3, n, 3)
        want = np.zeros_like(got)
        for c in range(len(co)):
            for a in range(n):
                for b in range(n):
                    want[c, a, :, b, :] = tot[cell_of(co[c] + sh[b] - sh[a]), p[a], :, p[b], :]
        mon.close(got, want, 'force-constants', info, rtol=1e-9, atol=1e-13)
        mon.event('fc-elements', got.size)
        # phonons of the original model
        m = ref.Model({**d, 'born': None, 'eps': None})
        q = gen.qpoints(rng, 2)
        res = o.calculate_qpoint_phonon_modes(q, use_c=bool(rng.random() < .5))
        g = gauge(q, sh)
        e = phon.evecs(res)*g
        w = ref.w2(res.frequencies.to('meV').magnitude)
        for i in range(len(q)):
            D = perm(m.dynmat(q[i]), p, n)
            D = .5*(D + D.conj().T)
            mon.close((e[i].T*w[i])@e[i].conj(), D, 'phonons', f'{info} q={q[i].tolist()}', rtol=0, atol=1e-7*phon.scale(m))
        mon.event('interpolated')
    else:
        b, eps = expect_born
        if not mon.check(o.born is not None and o.dielectric is not None, 'born-presence', info):
            return
        mon.close(o.born.to('e').magnitude, b, 'born', info, rtol=1e-9, atol=1e-12)
        mon.close(o.dielectric.to(gen.EPSU).magnitude, eps, 'dielectric', info, rtol=1e-8)
        m = ref.Model({**d, 'born': None, 'eps': None, 'fc': d['total']})
        q = gen.cell_origins(np.array(d['scm']).T)@np.linalg.inv(d['scm']).T
        res = o.calculate_qpoint_phonon_modes(q, splitting=False)
        e = phon.evecs(res)*gauge(q, sh)
        w = ref.w2(res.frequencies.to('meV').magnitude)
        sc = phon.scale(ref.Model(d))
        for i in range(len(q)):
            D = perm(m.dynmat(q[i]), p, n)
            D = .5*(D + D.conj().T)
            mon.close((e[i].T*w[i])@e[i].conj(), D, 'commensurate-phonons', f'{info} q={q[i].tolist()}', rtol=0, atol=3e-7*sc)
            mon.event('commensurate-qpoints')
    # a wrong shape must be refused
    if where != 'yaml' and rng.random() < .4:
        bad = fc[:, :-1] if rng.random() < .5 or len(fc) + 1 == len(org) else np.concatenate([fc, fc[:1]])
        os.remove(os.path.join(path, kw.get('fc_name', 'FORCE_CONSTANTS')))
        compact = False
        kw.pop('fc_name', None), kw.pop('fc_format', None)
        put(**({'text': bad} if where == 'text' else {'h5': bad}))
        mon.raises(lambda: ForceConstants.from_phonopy(**kw), ValueError, 'accepted-wrong-shape', info)
        mon.event('wrong-shape-refused')
    mon.evaluated((spec['i'], un))
    mon.sample({**gen.describe(d), 'units': un, 'fc': where, 'S': s['S'].tolist(), 'born': bw if polar else None})


def gauge(q, sh):
    """e(read) -> e(model): atom i moved by the lattice vector sh[i]."""
    return np.repeat(np.exp(2j*np.pi*(q@sh.T)), 3, axis=1)[:, None, :]


def perm(D, p, n):
    i = (3*np.asarray(p)[:, None] + np.arange(3)).ravel()
    return D[np.ix_(i, i)]


# -- mesh / band / qpoints ---------------------------------------------------
def modes_ok(mon, o, want, key, info, freq_only=False):
    mon.close(o.qpts, want['q'], key + '-qpts', info, atol=1e-12)
    mon.close(o.frequencies.to('meV').magnitude, want['f']*THZ, key + '-frequencies', info, rtol=1e-8, atol=1e-9)
    mon.close(o.weights, want['w'], key + '-weights', info, rtol=1e-12)
    cr = o.crystal
    mon.close(cr.cell_vectors.to('angstrom').magnitude, want['cell'], key + '-cell', info, rtol=1e-8)
    mon.close(cr.atom_r, want['pos'], key + '-positions', info, atol=1e-12)
    mon.check([str(x) for x in cr.atom_type] == [str(x) for x in want['types']], key + '-types', info)
    mon.close(cr.atom_mass.to('amu').magnitude, want['mass'], key + '-mass', info, rtol=1e-8)
    if freq_only:
        return
    n = len(want['pos'])
    ex = want['ev']*np.exp(2j*np.pi*(want['q']@want['pos'].T))[:, None, :, None]
    if mon.check(o.eigenvectors.shape == ex.shape, key + '-eigenvectors', f'shape {o.eigenvectors.shape}'):
        ov = np.abs(np.einsum('qmaj,qmaj->qm', ex.conj(), o.eigenvectors))
        mon.close(ov, np.ones_like(ov), key + '-eigenvectors', f'{info}: overlap with the stored mode', rtol=0, atol=1e-7)
        nr = np.sum(np.abs(o.eigenvectors)**2, axis=(2, 3))
        mon.close(nr, np.ones_like(nr), key + '-eigenvectors', f'{info}: norm', rtol=0, atol=1e-7)


def phonon_case(spec, mon, rng):
    from euphonic import QpointPhononModes, QpointFrequencies
    n, nq = int(rng.choice([1, 2, 3, 5])), int(rng.integers(1, 8))
    if n == 1:
        mon.event('one-atom')
    kind = objs.pick(rng, ['mesh', 'band', 'qpoints'])
    cell = gen.lattice(rng)[1]*gen.BOHR
    pos = rng.uniform(0, 1, (n, 3))
    types = np.array([str(x) for x in rng.choice(gen.SPECIES, n)])
    mass = np.round(rng.uniform(1, 200, n), 6)
    if kind == 'band':
        npath = int(rng.integers(1, 4))
        q = rng.uniform(-.5, .5, (npath*nq, 3))
    else:
        q = rng.uniform(-.5, .5, (nq, 3))
    q = np.round(q, 12)
    N = len(q)
    ev = np.zeros((N, 3*n, n, 3), complex)
    for i in range(N):
        ev[i] = np.linalg.qr(rng.normal(size=(3*n, 3*n)) + 1j*rng.normal(size=(3*n, 3*n)))[0].reshape(3*n, n, 3)
    f = np.round(np.sort(rng.uniform(-1, 20, (N, 3*n)), axis=1), 10)
    w = rng.integers(1, 25, N) if kind == 'mesh' else None
    want = {'q': q, 'f': f, 'ev': ev, 'w': w/w.sum() if w is not None else np.full(N, 1/N), 'cell': cell, 'pos': pos, 'types': types, 'mass': mass}
    path = os.path.join(mon.scratch, 'pp')
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    un = objs.pick(rng, ['vasp', 'qe', 'abinit'])
    lu, fu, lf, _ = pf.UNITS[un]
    sc = {'cell': cell/gen.BOHR*lf, 'types': types, 'pos': pos, 'mass': mass}
    sname = objs.pick(rng, ['phonopy.yaml', 'summary.yaml'])
    with open(os.path.join(path, sname), 'w') as fh:
        fh.write(pf.summary({'S': np.eye(3, dtype=int), 'P': None, 'units': (lu, fu), 'primitive_cell': sc, 'unit_cell': sc,
                             'supercell': {**sc, 'red': np.arange(1, n + 1)}}))
    skw = {} if sname == 'phonopy.yaml' else {'summary_name': sname}
    got = {}
    for fmt in ('yaml', 'hdf5'):
        for withev in (True, False):
            if not withev and rng.random() < .6:
                continue
            kw = {'path': path, **skw}
            incrys = fmt == 'yaml' and kind != 'qpoints' and rng.random() < .6
            name = f'{kind}.' + fmt
            r = rng.random()
            if r < .2:
                name, kw['phonon_format'] = 'data.out', fmt
                mon.event('explicit-format')
            elif r < .4:
                name = kind + '.' + objs.pick(rng, ['yml', 'yl'] if fmt == 'yaml' else ['h5', 'hd5'])
            if name != 'band.yaml' or rng.random() < .5:
                kw['phonon_name'] = name
            full = os.path.join(path, name)
            if fmt == 'yaml':
                with open(full, 'w') as fh:
                    fh.write(pf.phonon_yaml(kind, q, f, ev if withev else None, w,
                                            {'cell': cell, 'types': types, 'pos': pos, 'mass': mass} if incrys else None))
                if incrys:
                    kw['summary_name'] = 'does-not-exist.yaml'
            else:
                import h5py
                with h5py.File(full, 'w') as fh:
                    E = ev.reshape(N, 3*n, 3*n).transpose(0, 2, 1)
                    if kind == 'band':
                        fh['path'], fh['frequency'] = q.reshape(npath, nq, 3), f.reshape(npath, nq, -1)
                        fh['distance'] = np.zeros((npath, nq))
                        if withev:
                            fh['eigenvector'] = E.reshape(npath, nq, 3*n, 3*n)
                    else:
                        fh['qpoint'], fh['frequency'] = q, f
                        if withev:
                            fh['eigenvector'] = E
                        if w is not None:
                            fh['weight'] = w
                            fh['mesh'] = [4, 4, 4]
            if not incrys:
                mon.event('crystal-from-summary')
            info = f'{kind} {fmt} {kw}'
            o = QpointFrequencies.from_phonopy(**kw)
            modes_ok(mon, o, want, 'frequencies', info, True)
            mon.event('frequencies-only')
            if not withev:
                mon.raises(lambda: QpointPhononModes.from_phonopy(**kw), RuntimeError, 'accepted-no-eigenvectors', info)
                mon.event('no-eigenvectors-refused')
            else:
                o = QpointPhononModes.from_phonopy(**kw)
                modes_ok(mon, o, want, 'modes', info)
                got[fmt] = o
            mon.event(f'{kind}-{fmt}')
            if not incrys and rng.random() < .2:
                bad = {k: (v if k == 'cell' else np.concatenate([v, v[:1]])) for k, v in sc.items()}
                with open(os.path.join(path, 'bad.yaml'), 'w') as fh:
                    fh.write(pf.summary({'S': np.eye(3, dtype=int), 'P': None, 'units': (lu, fu), 'primitive_cell': bad, 'unit_cell': bad,
                                         'supercell': {**bad, 'red': np.arange(1, n + 2)}}))
                mon.raises(lambda: QpointFrequencies.from_phonopy(**{**kw, 'summary_name': 'bad.yaml'}), ValueError, 'accepted-mismatched-summary', info)
                mon.event('mismatched-summary-refused')
            if rng.random() < .15:
                mon.raises(lambda: QpointFrequencies.from_phonopy(**{**kw, 'phonon_name': name, 'phonon_format': 'json'}), ValueError, 'accepted-unknown-format')
                mon.event('unknown-format-refused')
    if len(got) == 2:
        a, b = got['yaml'], got['hdf5']
        mon.close(a.eigenvectors, b.eigenvectors, 'formats-differ', 'eigenvectors', rtol=0, atol=1e-7)
        mon.close(a.frequencies.magnitude, b.frequencies.magnitude, 'formats-differ', 'frequencies', rtol=1e-8, atol=1e-9)
        mon.event('formats-agree')
    mon.evaluated((spec['i'], kind))
    mon.sample({'kind': kind, 'atoms': n, 'qpts': N, 'units': un})


# -- the real files ----------------------------------------------------------
def _yaml(p):
    import yaml
    with open(p) as fh:
        return yaml.load(fh, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))


def real_phonon(spec, mon):
    from euphonic import QpointPhononModes
    path = os.path.join(load.TESTDATA, 'phonopy_files', spec['dir'])
    name = spec['file']
    s = None
    if not os.path.exists(os.path.join(path, 'phonopy.yaml')) and 'qpoints' in name:
        raise core.SkipCase
    if os.path.exists(os.path.join(path, 'phonopy.yaml')):
        s = _yaml(os.path.join(path, 'phonopy.yaml'))['primitive_cell']
    if name.endswith('yaml'):
        y = _yaml(os.path.join(path, name))
        src = y if 'lattice' in y else s
        ph = y['phonon']
        q = np.array([x['q-position'] for x in ph], float)
        f = np.array([[b['frequency'] for b in x['band']] for x in ph])
        if 'eigenvector' not in ph[0]['band'][0]:
            raise core.SkipCase
        ev = np.array([[b['eigenvector'] for b in x['band']] for x in ph])
        ev = ev[..., 0] + 1j*ev[..., 1]
        w = np.array([x.get('weight', 1) for x in ph], float)
    else:
        import h5py
        src = s
        with h5py.File(os.path.join(path, name)) as h:
            q = np.array(h['qpoint' if 'qpoint' in h else 'path']).reshape(-1, 3)
            f = np.array(h['frequency']).reshape(len(q), -1)
            ev = np.array(h['eigenvector']).reshape(len(q), f.shape[1], f.shape[1])
            ev = ev.transpose(0, 2, 1).reshape(len(q), f.shape[1], -1, 3)
            w = np.array(h['weight'], float) if 'weight' in h else np.ones(len(q))
    pts = src['points']
    want = {'q': q, 'f': f, 'ev': ev, 'w': w/w.sum(), 'cell': np.array(src['lattice']), 'pos': np.array([x['coordinates'] for x in pts]),
            'types': [x['symbol'] for x in pts], 'mass': np.array([x['mass'] for x in pts])}
    kw = {} if s is not None else {'summary_name': 'none'}
    modes_ok(mon, QpointPhononModes.from_phonopy(path=path, phonon_name=name, **kw), want, 'real-modes', spec['dir'] + '/' + name)
    mon.event('real-phonon')
    mon.evaluated(('real', spec['dir'], name))


def real_fc(mon):
    """The stored calculations: rebuild what each summary file says, by brute force."""
    from euphonic import ForceConstants
    base = os.path.join(load.TESTDATA, 'phonopy_files')
    todo = [('NaCl_prim', 'phonopy_nacl.yaml', {}), ('NaCl', 'phonopy_nacl.yaml', {}), ('CaHgO2', 'mp-7041-20180417.yaml', {}),
            ('CaHgO2', 'phonopy_fullfc.yaml', {}), ('NaCl_QE', 'phonopy.yaml', {}), ('NaCl', 'phonopy_full_fc.yaml', {})]
    for dr, name, kw in todo:
        p = os.path.join(base, dr, name)
        if not os.path.exists(p):
            continue
        y = _yaml(p)
        if 'force_constants' not in y:
            continue
        nac = 'nac' in y or 'born_effective_charge' in y
        o = ForceConstants.from_phonopy(path=os.path.join(base, dr), summary_name=name, **kw)
        L, pl = np.array(y['supercell']['lattice']), np.array(y['primitive_cell']['lattice'])
        sr = np.array([x['coordinates'] for x in y['supercell']['points']])@L@np.linalg.inv(pl)
        red = np.array([x['reduced_to'] for x in y['supercell']['points']]) - 1
        pr = o.crystal.atom_r
        u = list(np.unique(red))
        n = len(u)
        fc = np.array(y['force_constants']['elements']).reshape(*y['force_constants']['shape'], 3, 3)
        if fc.shape[0] == fc.shape[1]:
            fc = fc[u]
        scm = np.rint(L@np.linalg.inv(pl)).astype(int)
        mon.check(np.array_equal(o.sc_matrix, scm), 'real-supercell', f'{dr}/{name}')
        if nac:
            mon.event('real-polar-summary')
            continue
        f = o.force_constants.to('eV/angstrom**2').magnitude.reshape(-1, n, 3, n, 3)
        inv = np.linalg.inv(scm)
        co = o.cell_origins
        for a in range(n):
            oa = sr[u[a]] - pr[a]
            for b in range(len(sr)):
                k = u.index(red[b])
                R = sr[b] - pr[k] - oa
                mon.check(np.max(np.abs(R - np.rint(R))) < 1e-4, 'harness-real-origins')
                x = (co - np.rint(R))@inv
                c = np.where(np.max(np.abs(x - np.rint(x)), axis=1) < 1e-6)[0]
                if mon.check(len(c) == 1, 'real-origins', f'{dr}/{name}'):
                    if y.get('physical_unit', {}).get('force_constants', 'eV/Angstrom^2') == 'eV/Angstrom^2':
                        mon.close(f[c[0], a, :, k, :], fc[a, b], 'real-force-constants', f'{dr}/{name}', rtol=1e-9, atol=1e-12)
    mon.event('real-fc')
    mon.evaluated(('real-fc',))


def run_case(spec, mon):
    if spec['kind'] == 'real-phonon':
        return real_phonon(spec, mon)
    if spec['kind'] == 'real-fc':
        return real_fc(mon)
    rng = core.rng_for(mon.seed, 'c15', spec['kind'], spec['i'])
    {'fc': fc_case, 'phonon': phonon_case}[spec['kind']](spec, mon, rng)
