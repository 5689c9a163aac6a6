"""Writers of Phonopy output files with known content (text by hand, HDF5 by h5py)."""
import numpy as np
from . import gen

HA_EV, BOHR = 27.211386245988, 0.529177210903
# name: (length string, force-constant string, bohr in that length, hartree/bohr**2 in that unit)
UNITS = {'vasp': ('Angstrom', 'eV/Angstrom^2', BOHR, HA_EV/BOHR**2),
         'qe': ('au', 'Ry/au^2', 1., 2.),
         'elk': ('au', 'hartree/au^2', 1., 1.),
         'wien2k': ('au', 'mRy/au^2', 1., 2000.),
         'abinit': ('au', 'eV/Angstrom.au', 1., HA_EV/BOHR),
         'cp2k': ('Angstrom', 'hartree/Angstrom^2', BOHR, 1./BOHR**2)}


def nac_factor(u):
    """e**2/(4 pi eps0) = 1 hartree*bohr in (force-constant unit)*(length unit)**3."""
    return UNITS[u][3]*UNITS[u][2]**3


def supercell(rng, d, order='any', wrap=True, rep='random'):
    """Supercell atoms in some order. Returns (origins, atom index, first atoms)."""
    n, scm = len(d['atom_r']), d['scm']
    O = np.asarray(d['origins'])
    if order == 'phonopy':
        ij = [(c, j) for j in range(n) for c in np.lexsort(O.T)]
    elif order == 'cells':
        ij = [(c, j) for c in range(len(O)) for j in range(n)]
    else:
        ij = [(c, j) for c in range(len(O)) for j in range(n)]
        ij = [ij[k] for k in rng.permutation(len(ij))]
    c, j = np.array([x[0] for x in ij]), np.array([x[1] for x in ij])
    org = O[c].copy()
    inv = np.linalg.inv(scm)
    if wrap:
        f = np.floor((org + d['atom_r'][j])@inv + 1e-12).astype(int)
        org = org - f@scm
    else:
        org = org + rng.integers(-1, 2, (len(org), 3))@scm
    reps = []
    for a in range(n):
        k = np.where(j == a)[0]
        reps.append(int(k[0] if rep == 'first' else rng.choice(k)))
    # the primitive atoms come in the order of their supercell representatives
    p = np.argsort(reps)
    return org, j, np.array(reps), p


def points(atom_type, pos, mass, red=None, fmt='%20.15f'):
    o = '  points:\n'
    for i in range(len(pos)):
        o += f'  - symbol: {atom_type[i]} # {i + 1}\n    coordinates: [' + ','.join(fmt % x for x in pos[i]) + f' ]\n    mass: {mass[i]:.10f}\n'
        if red is not None:
            o += f'    reduced_to: {red[i]}\n'
    return o


def lattice(v, ind='  '):
    return ind + 'lattice:\n' + ''.join(ind + '- [' + ','.join('%22.15f' % x for x in r) + f' ] # {"abc"[i]}\n' for i, r in enumerate(v))


def matrix(name, m, fmt='%4d'):
    return name + ':\n' + ''.join('- [' + ','.join(fmt % x for x in r) + ' ]\n' for r in m) + '\n'


def summary(s):
    """s: everything in file units. phonopy.yaml text."""
    o = 'phonopy:\n  version: "%s"\n  frequency_unit_conversion_factor: 15.633302\n' % s.get('version', '2.4.2')
    if s.get('top_factor') is not None:
        o += f'  nac_unit_conversion_factor: {s["top_factor"]:.12f}\n'
    o += '  configuration:\n    dim: "2 2 2"\n\n'
    if s.get('units'):
        o += 'physical_unit:\n  atomic_mass: "AMU"\n  length: "%s"\n  force_constants: "%s"\n\n' % s['units']
    o += matrix('supercell_matrix', s['S'])
    if s['P'] is not None:
        o += matrix('primitive_matrix', s['P'], '%19.15f')
    for k in ('primitive_cell', 'unit_cell', 'supercell'):
        c = s[k]
        o += k + ':\n' + lattice(c['cell']) + points(c['types'], c['pos'], c['mass'], c.get('red')) + '\n'
    if s.get('nac') is not None:
        b, e, f = s['nac']
        body = '  born_effective_charge:\n' if s['nac_block'] else 'born_effective_charge:\n'
        ind = '  ' if s['nac_block'] else ''
        if s['nac_block']:
            o += 'nac:\n'
            if f is not None:
                o += f'  unit_conversion_factor: {f:.12f}\n'
        o += body
        for i, z in enumerate(b):
            o += ''.join(ind + ('- - [' if k == 0 else '  - [') + ','.join('%19.15f' % x for x in r) + ' ]' + (f' # {i + 1}' if k == 0 else '') + '\n' for k, r in enumerate(z))
        o += ind + 'dielectric_constant:\n' + ''.join(ind + '  - [' + ','.join('%19.15f' % x for x in r) + ' ]\n' for r in e) + '\n'
    if s.get('fc') is not None:
        fc = s['fc']
        o += f'force_constants:\n  format: "{"full" if fc.shape[0] == fc.shape[1] else "compact"}"\n  shape: [ {fc.shape[0]}, {fc.shape[1]} ]\n  elements:\n'
        for i in range(fc.shape[0]):
            for j in range(fc.shape[1]):
                o += f'  - # ({i + 1}, {j + 1})\n' + ''.join('    - [' + ','.join('%22.15f' % x for x in r) + ' ]\n' for r in fc[i, j])
    return o


def force_constants(fc, reps, single=False, blank=False):
    """FORCE_CONSTANTS text; reps: supercell indices of the first dimension."""
    o = (f'{fc.shape[0]}\n' if single and fc.shape[0] == fc.shape[1] else f'{fc.shape[0]:4d} {fc.shape[1]:4d}\n')
    for i in range(fc.shape[0]):
        for j in range(fc.shape[1]):
            o += f'{reps[i] + 1} {j + 1}\n' + ''.join(''.join('%22.15f' % x for x in r) + '\n' for r in fc[i, j])
    return o + ('\n' if blank else '')


def born(b, e, factor=None, comment=False):
    o = '# epsilon and Z* of atoms\n' if comment else ''
    if factor is not None:
        o += f'{factor:.12f}\n'
    for m in [e] + list(b):
        o += ' '.join('%19.15f' % x for x in np.ravel(m)) + '\n'
    return o


def phonon_yaml(kind, qpts, freqs, ev, weights=None, crystal=None):
    """ev: (nq, mode, atom, 3) complex or None."""
    n = freqs.shape[1]//3
    o = {'mesh': 'mesh: [ 4, 4, 4 ]\n', 'band': f'nqpoint: {len(qpts)}\nnpath: 1\nsegment_nqpoint:\n- {len(qpts)}\n', 'qpoints': ''}[kind]
    o += f'nqpoint: {len(qpts)}\n' if kind != 'band' else ''
    o += f'natom: {n}\n'
    if crystal is not None:
        o += lattice(crystal['cell'], '') + points(crystal['types'], crystal['pos'], crystal['mass'])[2:].replace('\n  ', '\n')
    o += '\nphonon:\n'
    for i, q in enumerate(qpts):
        o += '- q-position: [' + ','.join('%20.15f' % x for x in q) + ' ]\n'
        if weights is not None:
            o += f'  weight: {weights[i]}\n'
        if kind == 'band':
            o += f'  distance: {i*.1:.7f}\n'
        o += '  band:\n'
        for m in range(3*n):
            o += f'  - # {m + 1}\n    frequency: {freqs[i, m]:20.12f}\n'
            if ev is not None:
                o += '    eigenvector:\n'
                for a in range(n):
                    o += f'    - # atom {a + 1}\n' + ''.join(f'      - [ {z.real:18.14f}, {z.imag:18.14f} ]\n' for z in ev[i, m, a])
    return o
