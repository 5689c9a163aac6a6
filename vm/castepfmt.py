"""Writers of CASTEP output files (and what they contain), independent of the reader."""
import struct
import numpy as np


def header(d, kind, nq=None, nbins=None, nspec=None):
    n = len(d['types'])
    L = [' BEGIN header']
    if kind == 'phonon':
        L += [f' Number of ions         {n}', f' Number of branches     {3*n}', f' Number of wavevectors  {nq}', ' Frequencies in         cm-1',
              ' IR intensities in      (D/A)**2/amu', ' Raman activities in    A**4 amu**(-1)']
    else:
        L += [f'  Number of ions            {n:5d}', f'  Number of species         {nspec:5d}', f'  Number of branches        {3*n:5d}',
              f'  Number of bins in DOS     {nbins:5d}']
    L += [' Unit cell vectors (A)']
    L += [''.join(f'{x:12.6f}' for x in v) for v in d['cell']]
    L += [' Fractional Co-ordinates']
    L += [f'{i + 1:6d} ' + ''.join(f'{x:13.6f}' for x in r).lstrip(' ').rjust(37) + f'   {t:<8s}{m:13.6f}'
          for i, (r, t, m) in enumerate(zip(d['pos'], d['types'], d['masses']))]
    L += [' END header']
    return L


def qline(idx, q, w, direction=None):
    s = f'     q-pt={idx:5d}   ' + ' '.join(f'{x:9.6f}' for x in q) + f'      {w:.10f}'
    if direction is not None:
        s += '   ' + ' '.join(f'{x:9.6f}' for x in direction)
    return s


def phonon(d, blocks, nq, ir=0, newline='\n', final_newline=True):
    """blocks: dicts with id, q, w, dir, freqs (cm-1), evec (modes, atoms, 3)."""
    L = header(d, 'phonon', nq=nq)
    for b in blocks:
        L.append(qline(b['id'], b['q'], b['w'], b['dir']))
        for j, f in enumerate(b['freqs']):
            L.append(f'{j + 1:8d}{f:16.6f}' + ''.join(f'{x:19.7f}' for x in b['ir'][j][:ir]) + ' '*20)
        L += ['                        Phonon Eigenvectors',
              'Mode Ion                X                                   Y                                   Z']
        for j, e in enumerate(b['evec']):
            for i, v in enumerate(e):
                L.append(f'{j + 1:4d}{i + 1:4d} ' + '    '.join(f'{c.real:15.12f} {c.imag:15.12f}' for c in v))
    s = newline.join(L) + (newline if final_newline else '')
    return s


def phonon_dos(d, blocks, bins, dos, newline='\n'):
    """dos: ordered dict, Total first, then species in order of appearance."""
    L = header(d, 'dos', nbins=len(bins), nspec=len(dos) - 1)
    L.append(' BEGIN GRADIENTS   n   f   |Grad_q f|')
    for b in blocks:
        L.append(qline(b['id'], b['q'], b['w'], b['dir']))
        for j, f in enumerate(b['freqs']):
            L.append(f'{j + 1:8d}{f:16.6f}' + (f'{b["ir"][j][0]:22.7f}' if b['dir'] is not None else '') + f'{b["grad"][j]:22.7f}' + ' '*20)
    L.append(' END GRADIENTS')
    L.append(' BEGIN DOS   Freq (cm-1)  g(f)   ' + ''.join(f'{s:<10s}' for s in list(dos)[1:]))
    for i, x in enumerate(bins):
        L.append(f'{x:8.1f}' + ''.join(f'{v[i]:11.6f}' for v in dos.values()))
    L.append('  END DOS')
    return newline.join(L) + newline


def rec(b):
    m = struct.pack('>i', len(b))
    return m + b + m


def key(s, n=256):
    return rec(s.encode().ljust(n))


def ints(a):
    return rec(np.asarray(a, '>i4').tobytes())


def floats(a):
    return rec(np.asarray(a, '>f8').tobytes())


def junk(rng, n=None):
    """Records that the reader must skip: keys, numbers, text."""
    out = b''
    for _ in range(int(rng.integers(0, 6)) if n is None else n):
        k = int(rng.integers(5))
        if k == 0:
            out += key(str(rng.choice(['CELL%VOLUME', 'DENSITY', 'FORCE_CONSTANTS', 'BORN', 'DIELECTRIC_TENSOR', 'END_CELL', 'NULL'])))
        elif k == 1:
            out += ints(rng.integers(-2**31, 2**31 - 1, int(rng.integers(1, 40))))
        elif k == 2:
            out += floats(rng.normal(size=int(rng.integers(1, 60))))
        elif k == 3:
            out += rec(bytes(rng.integers(0, 256, int(rng.integers(0, 50)), dtype=np.uint8)))
        else:
            out += rec(rng.choice([b'EV/ANG', b'', b' ', b'FORCE_CON X', b'.END', b'ENDING']).tobytes())
    return out


def unit_cell(rng, d, extra=True):
    """d: cell (bohr), species [(symbol, mass in m_e, positions)]."""
    j = (lambda: junk(rng, int(rng.integers(0, 3)))) if extra else (lambda: b'')
    sp = d['species']
    mx = max(len(s[2]) for s in sp)
    pos = np.full((len(sp), mx, 3), 9.75)
    for i, s in enumerate(sp):
        pos[i, :len(s[2])] = s[2]
    o = key('BEGIN_UNIT_CELL')
    o += key('CELL%REAL_LATTICE') + floats(np.asarray(d['cell']).T.ravel())
    o += key('CELL%RECIP_LATTICE') + floats(rng.normal(size=9)) + key('CELL%VOLUME') + floats([1.])
    o += j()
    o += key('CELL%NUM_SPECIES') + ints([len(sp)])
    o += key('CELL%NUM_IONS') + ints([sum(len(s[2]) for s in sp)])
    o += key('CELL%MAX_IONS_IN_SPECIES') + ints([mx])
    o += j()
    o += key('CELL%NUM_IONS_IN_SPECIES') + ints([len(s[2]) for s in sp])
    o += key('CELL%IONIC_POSITIONS') + floats(pos.ravel())
    o += key('CELL%IONIC_VELOCITIES') + floats(rng.normal(size=pos.size))
    o += j()
    o += key('CELL%SPECIES_MASS') + floats([s[1] for s in sp])
    o += key('CELL%SPECIES_SYMBOL') + rec(b''.join(s[0].encode().ljust(8) for s in sp))
    o += j() + key('END_UNIT_CELL')
    return o


def castep_bin(rng, d, version='20.11', extra=True):
    """d: unit_cell fields plus scm, fc (nc, 3n, 3n), origins, born, eps (or None), fc None if absent."""
    j = (lambda: junk(rng)) if extra else (lambda: b'')
    o = key('CASTEP_BIN', 10) + key('BEGIN_PARAMETERS_DUMP') + rec(version.encode().rjust(10)) + j() + key('END_PARAMETERS_DUMP', 30)
    o += unit_cell(rng, d, extra) + j() + key('BEGIN_CELL_GLOBAL') + j() + key('END_CELL_GLOBAL')
    other = {'cell': np.asarray(d['cell'])*1.01, 'species': [(s[0], s[1]*1.1, np.asarray(s[2]) + .01) for s in d['species']]}
    if d.get('second', False):
        o += unit_cell(rng, other, extra)
    parts = []
    if d['fc'] is not None:
        parts.append(key('FORCE_CON', 9) + ints(np.asarray(d['scm']).T.ravel()) + floats(np.asarray(d['fc']).transpose(0, 2, 1).ravel())
                     + ints(np.asarray(d['origins']).ravel()) + ints([0]))
    if d['born'] is not None:
        parts.append(key('BORN_CHGS', 9) + floats(np.asarray(d['born']).ravel()))
        parts.append(key('DIELECTRIC', 10) + floats(np.asarray(d['eps']).T.ravel()))
    for i in rng.permutation(len(parts)):
        o += j() + parts[i]
    return o + j() + key('END', 3)
