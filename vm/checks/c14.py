"""C14: CASTEP readers."""
import glob
import os
import struct
import numpy as np
from .. import core, objs, gen, ref, load, phon
from .. import castepfmt as cf

RULE = ('randomly generated .phonon, .phonon_dos and binary .castep_bin/.check files (1-12 atoms, 1-40 q-points, repeated and split gamma blocks in '
        'any order, with/without IR and Raman columns, CRLF, junk binary records, second unit cells, any species layout) with known content, and the '
        'real files in the repository against an independent parser; distinct by file content')
ASSUMPTIONS = ['file layouts follow the CASTEP 17-20 examples in the repository', 'repeated blocks of a q-point are adjacent, as CASTEP writes them',
               'fractional positions in binary files are compared modulo lattice vectors and lie in [0, 1)']
REQUIRED_EVENTS = ['phonon-file', 'repeat-block', 'split-block', 'averaged', 'prefer-non-loto', 'ambiguous-refused', 'more-blocks-than-header', 'ir-columns',
                   'crlf', 'no-final-newline', 'dos-file', 'dos-element', 'dos-split-columns', 'binary-file', 'one-species', 'one-atom', 'many-atoms',
                   'junk-records', 'second-cell', 'polar', 'no-force-constants-refused', 'interpolated', 'outside-cell-positions', 'imaginary',
                   'same-species-not-adjacent', 'old-version-refused', 'eigenvectors']

h, c, e, a0 = 6.62607015e-34, 299792458., 1.602176634e-19, 0.529177210903
CM = h*c*100/e*1e3          # 1/cm in meV
ME = 1.66053906660e-27/9.1093837015e-31


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 25}[tier]
    r = []
    if os.path.isdir(os.path.join(load.TESTDATA, 'castep_files')):
        for f in sorted(glob.glob(os.path.join(load.TESTDATA, 'castep_files', '**', '*'), recursive=True)):
            if f.endswith(('.phonon', '.phonon_dos', '.castep_bin', '.check')):
                r.append({'kind': 'real', 'file': os.path.relpath(f, load.TESTDATA)})
    return ([{'kind': 'phonon', 'i': i} for i in range(160*k)] + [{'kind': 'dos', 'i': i} for i in range(70*k)]
            + [{'kind': 'bin', 'i': i} for i in range(160*k)] + r)


def structure(rng, mon):
    n = int(rng.choice([1, 1, 2, 3, 4, 5, 9, 12]))
    if n == 1:
        mon.event('one-atom')
    if n > 9:
        mon.event('many-atoms')
    cell = gen.lattice(rng)[1]*a0
    if rng.random() < .3:
        cell = cell@gen.rand_rotation(rng).T
    types = [str(x) for x in rng.choice(['H', 'Si', 'O', 'La', 'Zr', 'U'], n)]
    seen = [t for i, t in enumerate(types) if i == 0 or types[i - 1] != t]
    if len(seen) != len(set(seen)):
        mon.event('same-species-not-adjacent')
    m = {t: round(float(rng.uniform(1, 240)), 6) for t in set(types)}
    if rng.random() < .2:
        masses = [round(float(rng.uniform(1, 240)), 6) for _ in types]
    else:
        masses = [m[t] for t in types]
    return {'cell': np.round(cell, 6), 'pos': np.round(rng.uniform(-.2, 1.2, (n, 3)) if rng.random() < .3 else rng.uniform(0, 1, (n, 3)), 6),
            'types': types, 'masses': masses}


def make_blocks(rng, mon, n):
    out = []
    nq = int(rng.integers(1, 14))
    for iq in range(1, nq + 1):
        q = np.round(rng.uniform(-.5, .5, 3), 6)
        w = round(float(rng.uniform(0, 1)), 10)
        rep = 1
        dirs = [None]
        if rng.random() < .3:
            q = np.zeros(3)
            rep = int(rng.integers(1, 5))
            dirs = [None if rng.random() < .4 else np.round(rng.uniform(-1, 1, 3), 6) for _ in range(rep)]
            if rep > 1:
                mon.event('repeat-block')
            if any(x is not None for x in dirs):
                mon.event('split-block')
        for d in dirs:
            f = np.sort(np.round(rng.uniform(-80, 900, 3*n), 6))
            if (f < 0).any():
                mon.event('imaginary')
            out.append({'id': iq, 'q': q, 'w': w, 'dir': d, 'freqs': f,
                        'evec': np.round(rng.uniform(-1, 1, (3*n, n, 3)), 12) + 1j*np.round(rng.uniform(-1, 1, (3*n, n, 3)), 12),
                        'ir': np.round(rng.uniform(0, 20, (3*n, 3)), 7), 'grad': np.round(rng.uniform(0, 300, 3*n), 7)})
    return nq, out


def expected_weights(blocks, average, prefer):
    """None where the choice is ambiguous and must be refused."""
    w = np.array([b['w'] for b in blocks], float)
    i = 0
    while i < len(blocks):
        j = i
        while j < len(blocks) and blocks[j]['id'] == blocks[i]['id']:
            j += 1
        g = list(range(i, j))
        if len(g) > 1:
            split = [k for k in g if blocks[k]['dir'] is not None]
            plain = [k for k in g if blocks[k]['dir'] is None]
            if prefer and split and plain:
                if len(plain) > 1:
                    return None
                for k in split:
                    w[k] = 0.
            elif average:
                w[g] = w[g]/len(g)
        i = j
    return w


def crystal_ok(mon, cr, d, key):
    mon.check(cr.n_atoms == len(d['types']), key, 'n_atoms')
    mon.close(cr.cell_vectors.to('angstrom').magnitude, d['cell'], key, 'cell vectors', rtol=1e-9)
    mon.close(cr.atom_r, d['pos'], key, 'positions', atol=1e-12)
    mon.check([str(t) for t in cr.atom_type] == list(d['types']), key, f'types {cr.atom_type}')
    mon.close(cr.atom_mass.to('amu').magnitude, np.array(d['masses']), key, 'masses', rtol=1e-9)


def modes_ok(mon, d, blocks, get, key):
    """Every option combination of both classes."""
    from euphonic import QpointFrequencies, QpointPhononModes
    for cls in (QpointPhononModes, QpointFrequencies):
        for avg in (None, True, False):
            for pref in (None, True, False):
                kw = {k: v for k, v in (('average_repeat_points', avg), ('prefer_non_loto', pref)) if v is not None}
                w = expected_weights(blocks, True if avg is None else avg, bool(pref))
                if w is None:
                    mon.raises(lambda: get(cls, **kw), ValueError, key + '-ambiguous', f'{kw}')
                    mon.event('ambiguous-refused')
                    continue
                o = get(cls, **kw)
                crystal_ok(mon, o.crystal, d, key + '-crystal')
                mon.check(o.n_qpts == len(blocks) and len(o.qpts) == len(blocks), key + '-blocks', f'{o.n_qpts} q-points instead of {len(blocks)}')
                mon.close(o.qpts, np.array([b['q'] for b in blocks]), key + '-qpts', atol=1e-12)
                mon.close(o.weights, w, key + '-weights', f'{kw}', rtol=1e-12)
                mon.close(o.frequencies.to('meV').magnitude, np.array([b['freqs'] for b in blocks])*CM, key + '-frequencies', rtol=1e-9)
                if avg is not False and not pref and (w != np.array([b['w'] for b in blocks])).any():
                    mon.event('averaged')
                if pref and (w == 0).any():
                    mon.event('prefer-non-loto')
                if cls is QpointPhononModes:
                    mon.close(o.eigenvectors, np.array([b['evec'] for b in blocks]), key + '-eigenvectors', atol=1e-13)
                    mon.event('eigenvectors')


def phonon(spec, mon, rng):
    d = structure(rng, mon)
    nq, blocks = make_blocks(rng, mon, len(d['types']))
    ir = int(rng.integers(0, 4))
    if ir:
        mon.event('ir-columns')
    nl = '\r\n' if rng.random() < .2 else '\n'
    if nl != '\n':
        mon.event('crlf')
    fin = rng.random() < .9
    if not fin:
        mon.event('no-final-newline')
    if len(blocks) > nq:
        mon.event('more-blocks-than-header')
    path = os.path.join(mon.scratch, objs.pick(rng, ['a.phonon', 'b c.phonon', 'noext']))
    with open(path, 'w', newline='') as f:
        f.write(cf.phonon(d, blocks, nq, ir, nl, fin))
    modes_ok(mon, d, blocks, lambda cls, **kw: cls.from_castep(path, **kw), 'phonon')
    mon.event('phonon-file')
    mon.evaluated(('phonon', spec['i']))
    mon.sample({'atoms': len(d['types']), 'blocks': [(b['id'], b['dir'] is not None) for b in blocks]})
    os.remove(path)


def dos_ok(mon, path, d, blocks, bins, dos, key):
    from euphonic import Spectrum1D, Spectrum1DCollection
    try:
        from euphonic.readers.castep import read_phonon_dos_data
    except ImportError:
        read_phonon_dos_data = None
    for el in [None] + list(dos)[1:]:
        s = Spectrum1D.from_castep_phonon_dos(path) if el is None else Spectrum1D.from_castep_phonon_dos(path, element=el)
        lab = el or 'Total'
        mon.close(s.x_data.to('meV').magnitude, bins*CM, key + '-bins', rtol=1e-9)
        mon.close(s.y_data.to('1/meV').magnitude, dos[lab]/CM, key + '-data', lab, rtol=1e-9)
        mon.check(s.metadata.get('species') == el and s.metadata.get('label') == lab, key + '-labels', f'{s.metadata}')
        mon.event('dos-element')
    cc = Spectrum1DCollection.from_castep_phonon_dos(path)
    if mon.check(len(cc) == len(dos), key + '-collection', f'{len(cc)} spectra'):
        mon.close(cc.x_data.to('meV').magnitude, bins*CM, key + '-bins', rtol=1e-9)
        ld = cc.metadata['line_data']
        for k, v in dos.items():
            i = [j for j, m in enumerate(ld) if m.get('label') == k]
            if mon.check(len(i) == 1, key + '-labels', f'{ld}'):
                mon.close(cc[i[0]].y_data.to('1/meV').magnitude, v/CM, key + '-data', f'collection {k}', rtol=1e-9)
                mon.check(ld[i[0]].get('species') == (None if k == 'Total' else k), key + '-labels', f'{ld}')
    if read_phonon_dos_data is not None:
        r = read_phonon_dos_data(path)
        mon.close(r['qpts'], np.array([b['q'] for b in blocks]), key + '-qpts', atol=1e-12)
        mon.close(r['weights'], np.array([b['w'] for b in blocks]), key + '-weights', rtol=1e-12)
        mon.close(r['frequencies'], np.array([b['freqs'] for b in blocks])*CM, key + '-frequencies', rtol=1e-9)
        mon.close(r['mode_gradients'], np.array([b['grad'] for b in blocks])*CM, key + '-gradients', rtol=1e-9)
        mon.close(r['crystal']['cell_vectors'], d['cell'], key + '-crystal', rtol=1e-9)
        mon.check([str(t) for t in r['crystal']['atom_type']] == list(d['types']), key + '-crystal', 'types')
    mon.event('dos-file')


def dos(spec, mon, rng):
    d = structure(rng, mon)
    nq, blocks = make_blocks(rng, mon, len(d['types']))
    if any(b['dir'] is not None for b in blocks):
        mon.event('dos-split-columns')
    nb = int(rng.integers(2, 60))
    bins = np.round(rng.uniform(-500, 0) + np.arange(nb)*float(rng.choice([.5, 1., 10.])), 1)
    sp = list(dict.fromkeys(d['types']))
    dd = {k: np.round(rng.uniform(0, 1, nb), 6) for k in ['Total'] + sp}
    path = os.path.join(mon.scratch, 'a.phonon_dos')
    nl = '\r\n' if rng.random() < .2 else '\n'
    with open(path, 'w', newline='') as f:
        f.write(cf.phonon_dos(d, blocks, bins, dd, nl))
    dos_ok(mon, path, d, blocks, bins, dd, 'dos')
    mon.evaluated(('dos', spec['i']))
    os.remove(path)


def fc_ok(mon, o, d, key):
    cr = o.crystal
    types = [s[0] for s in d['species'] for _ in s[2]]
    pos = np.concatenate([s[2] for s in d['species']])
    mass = np.array([s[1] for s in d['species'] for _ in s[2]])
    mon.check([str(t) for t in cr.atom_type] == types, key + '-crystal', f'types {cr.atom_type}')
    mon.close(cr.cell_vectors.to('bohr').magnitude, np.asarray(d['cell']), key + '-crystal', 'cell', rtol=1e-9)
    if mon.check(cr.atom_r.shape == pos.shape, key + '-crystal', 'atom count'):
        df = cr.atom_r - pos
        mon.check(np.max(np.abs(df - np.rint(df))) < 1e-12, key + '-crystal', 'positions')
        mon.check((cr.atom_r >= 0).all() and (cr.atom_r < 1 + 1e-12).all(), key + '-crystal', 'positions outside the cell')
    mon.close(cr.atom_mass.to('m_e').magnitude, mass, key + '-crystal', 'masses', rtol=1e-9)
    mon.close(o.force_constants.to('hartree/bohr**2').magnitude, d['fc'], key + '-fc', rtol=1e-12)
    mon.check(np.array_equal(o.sc_matrix, d['scm']), key + '-supercell', 'matrix')
    mon.check(np.array_equal(o.cell_origins, d['origins']), key + '-supercell', 'origins')
    mon.check(o.n_cells_in_sc == len(d['origins']), key + '-supercell', 'size')
    mon.check((o.born is None) == (d['born'] is None) and (o.dielectric is None) == (d['born'] is None), key + '-born', 'presence')
    if d['born'] is not None and o.born is not None:
        mon.close(o.born.to('e').magnitude, d['born'], key + '-born', rtol=1e-12)
        mon.close(o.dielectric.to('e**2/(bohr*hartree)').magnitude, d['eps'], key + '-dielectric', rtol=1e-9)


def binary(spec, mon, rng):
    from euphonic import ForceConstants
    n = int(rng.choice([1, 1, 2, 3, 4]))
    model = n <= 3 and rng.random() < .5
    polar = rng.random() < .5
    d = gen.system(rng, n_atoms=n, polar=polar)
    order = np.argsort(d['atom_type'], kind='stable')
    if not np.array_equal(order, np.arange(n)):
        # CASTEP keeps the atoms of a species together
        d['atom_r'], d['atom_type'], d['atom_mass'] = d['atom_r'][order], d['atom_type'][order], d['atom_mass'][order]
        f = d['fc'].reshape(-1, n, 3, n, 3)[:, order][:, :, :, order]
        d['fc'] = f.reshape(-1, 3*n, 3*n)
        if d['born'] is not None:
            d['born'] = d['born'][order]
    if not model:
        d['fc'] = rng.normal(size=d['fc'].shape)          # also asymmetric: a transposition shows
        if d['born'] is not None:
            d['born'] = rng.normal(size=d['born'].shape)
            d['eps'] = rng.normal(size=(3, 3))
    sp, at = [], list(d['atom_type'])
    d['atom_mass'] = np.array([d['atom_mass'][at.index(t)] for t in at])      # a mass per species
    for t in dict.fromkeys(at):
        i = [k for k, x in enumerate(at) if x == t]
        sp.append((str(t), float(d['atom_mass'][i[0]])*ME, d['atom_r'][i]))
    if len(sp) == 1:
        mon.event('one-species')
    if n == 1:
        mon.event('one-atom')
    f = {'cell': d['cell'], 'species': sp, 'scm': d['scm'], 'origins': d['origins'], 'fc': d['fc'], 'born': d['born'], 'eps': d['eps'],
         'second': rng.random() < .4}
    if not model and rng.random() < .3:
        f['species'] = [(s[0], s[1], s[2] + rng.integers(-1, 2, s[2].shape)) for s in sp]
        mon.event('outside-cell-positions')
    extra = rng.random() < .7
    path = os.path.join(mon.scratch, objs.pick(rng, ['a.castep_bin', 'a.check', 'x y.castep_bin']))

    def write(g, **kw):
        with open(path, 'wb') as fh:
            fh.write(cf.castep_bin(rng, g, extra=extra, **kw))
    write(f, version=objs.pick(rng, ['20.11', '17.2', '18.1', '19.11', '22.1.1', '24.1']))
    o = ForceConstants.from_castep(path)
    fc_ok(mon, o, f, 'binary')
    mon.event('binary-file')
    if extra:
        mon.event('junk-records')
    if f['second']:
        mon.event('second-cell')
    if f['born'] is not None:
        mon.event('polar')
    mon.evaluated(('bin', spec['i']))
    if model:
        m = ref.Model(d)
        q = rng.uniform(-.5, .5, (2, 3))
        w = o.calculate_qpoint_phonon_modes(q).frequencies.to('meV').magnitude
        for k in range(2):
            ev = np.linalg.eigvalsh(m.dynmat(q[k]))
            mon.close(np.sort(ref.w2(w[k])), np.sort(ev), 'binary-phonons', rtol=0, atol=1e-6*phon.scale(m))
        mon.event('interpolated')
    if rng.random() < .2:
        write({**f, 'fc': None})
        mon.raises(lambda: ForceConstants.from_castep(path), RuntimeError, 'accepted-no-force-constants')
        mon.event('no-force-constants-refused')
        write(f, version=objs.pick(rng, ['16.11', '8.0', '17.0']))
        mon.raises(lambda: ForceConstants.from_castep(path), ValueError, 'accepted-old-version')
        mon.event('old-version-refused')
    os.remove(path)


# -- the real files, parsed a second way ---------------------------------------
def parse_text(path):
    L = open(path).read().splitlines()
    n = int(L[1].split()[-1])
    k = next(i for i, s in enumerate(L) if 'Unit cell vectors' in s)
    d = {'cell': np.array([[float(x) for x in L[k + 1 + i].split()] for i in range(3)])}
    at = [L[k + 5 + i].split() for i in range(n)]
    d['pos'] = np.array([[float(x) for x in a[1:4]] for a in at])
    d['types'], d['masses'] = [a[4] for a in at], [float(a[5]) for a in at]
    blocks = []
    for i, s in enumerate(L):
        if 'q-pt=' not in s:
            continue
        v = s.split('q-pt=')[1].split()
        b = {'id': int(v[0]), 'q': np.array([float(x) for x in v[1:4]]), 'w': float(v[4]), 'dir': np.array([float(x) for x in v[5:8]]) if len(v) > 5 else None}
        fl = [t.split() for t in L[i + 1:i + 1 + 3*n]]
        b['freqs'] = np.array([float(t[1]) for t in fl])
        b['grad'] = np.array([float(t[-1]) for t in fl])
        if 'Eigenvectors' in L[i + 1 + 3*n] if i + 1 + 3*n < len(L) else False:
            x = np.array([[float(y) for y in t.split()[2:8]] for t in L[i + 3 + 3*n:i + 3 + 3*n + 3*n*n]])
            b['evec'] = (x[:, 0::2] + 1j*x[:, 1::2]).reshape(3*n, n, 3)
        blocks.append(b)
    dosd = None
    k = [i for i, s in enumerate(L) if 'BEGIN DOS' in s]
    if k:
        names = ['Total'] + L[k[0]].split('g(f)')[1].split()
        x = np.array([[float(y) for y in t.split()] for t in L[k[0] + 1:] if 'END' not in t and t.strip()])
        dosd = (x[:, 0], {m: x[:, j + 1] for j, m in enumerate(names)})
    return d, blocks, dosd


def parse_binary(path):
    raw = open(path, 'rb').read()
    recs, p = [], 0
    while p < len(raw):
        k = struct.unpack('>i', raw[p:p + 4])[0]
        recs.append(raw[p + 4:p + 4 + k])
        p += k + 8
    names = [r.strip() for r in recs]
    F = lambda name: np.frombuffer(recs[names.index(name) + 1], '>f8').astype(float)
    I = lambda name, o=1: np.frombuffer(recs[names.index(name) + o], '>i4').astype(int)
    ns, nis = I(b'CELL%NUM_SPECIES')[0], I(b'CELL%NUM_IONS_IN_SPECIES')
    sym = recs[names.index(b'CELL%SPECIES_SYMBOL') + 1].decode()
    sym = [sym[8*i:8*i + 8].strip() for i in range(ns)]
    pos = F(b'CELL%IONIC_POSITIONS').reshape(ns, -1, 3)
    mass = F(b'CELL%SPECIES_MASS')
    d = {'cell': F(b'CELL%REAL_LATTICE').reshape(3, 3).T, 'species': [(sym[i], mass[i], pos[i, :nis[i]]) for i in range(ns)], 'born': None, 'eps': None, 'fc': None}
    n = nis.sum()
    if b'FORCE_CON' in names:
        k = names.index(b'FORCE_CON')
        d['scm'] = I(b'FORCE_CON').reshape(3, 3).T
        d['fc'] = np.frombuffer(recs[k + 2], '>f8').reshape(-1, 3*n, 3*n).transpose(0, 2, 1).astype(float)
        d['origins'] = I(b'FORCE_CON', 3).reshape(-1, 3)
    if b'BORN_CHGS' in names:
        d['born'] = F(b'BORN_CHGS').reshape(n, 3, 3)
        d['eps'] = F(b'DIELECTRIC').reshape(3, 3).T
    return d


def real(spec, mon):
    from euphonic import ForceConstants
    path = os.path.join(load.TESTDATA, spec['file'])
    if path.endswith('.phonon'):
        d, blocks, _ = parse_text(path)
        modes_ok(mon, d, blocks, lambda cls, **kw: cls.from_castep(path, **kw), 'real-phonon')
    elif path.endswith('.phonon_dos'):
        d, blocks, (bins, dd) = parse_text(path)
        dos_ok(mon, path, d, blocks, bins, dd, 'real-dos')
    else:
        d = parse_binary(path)
        if d['fc'] is None:
            mon.raises(lambda: ForceConstants.from_castep(path), RuntimeError, 'accepted-no-force-constants')
        else:
            fc_ok(mon, ForceConstants.from_castep(path), d, 'real-binary')
    mon.event('real-file')
    mon.evaluated(('real', spec['file']))


def run_case(spec, mon):
    if spec['kind'] == 'real':
        return real(spec, mon)
    rng = core.rng_for(mon.seed, 'c14', spec['kind'], spec['i'])
    {'phonon': phonon, 'dos': dos, 'bin': binary}[spec['kind']](spec, mon, rng)
