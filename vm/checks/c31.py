"""C31: malformed input is refused, never misread."""
import json
import os
import re
import shutil
import signal
import numpy as np
from .. import core, objs, gen
from .. import castepfmt as cf
from .. import phonopyfmt as pf
from . import c14, c15

RULE = ('single corruptions of random valid inputs: every constructor argument of every class (units removed or of another dimension, one entry more or '
        'less, an axis more, wrong type), every field of dicts and JSON files, generated CASTEP and Phonopy files cut after any token/line/byte, with an '
        'unreadable number, wrong counts, or a missing line or dataset, and about 90 calls with an unusable option or argument; distinct by corruption')
ASSUMPTIONS = ['a reading of a damaged file must raise or give exactly what the intact file gives (a damaged token the reader does not use)',
               'a cut in the middle of the digits of the last number is not judged', 'the type of exception is not judged',
               'fields documented as optional may be missing']
REQUIRED_EVENTS = ['ctor-refused', 'dict-refused', 'json-refused', 'phonon-refused', 'dos-refused', 'bin-refused', 'yaml-refused', 'hdf5-refused', 'fc-text-refused',
                   'summary-refused', 'born-refused', 'fc-hdf5-refused', 'call-refused', 'cut', 'stars', 'count', 'dropped', 'same-as-intact', 'unchanged-after-refusal', 'usable-after-refusal']
LIMIT = 20


class Hang(BaseException):
    pass


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 20}[tier]
    return ([{'kind': 'ctor', 'i': i} for i in range(40*k)] + [{'kind': 'dict', 'i': i} for i in range(40*k)]
            + [{'kind': 'phonon', 'i': i} for i in range(30*k)] + [{'kind': 'dos', 'i': i} for i in range(16*k)]
            + [{'kind': 'bin', 'i': i} for i in range(24*k)] + [{'kind': 'yaml', 'i': i} for i in range(24*k)]
            + [{'kind': 'hdf5', 'i': i} for i in range(16*k)] + [{'kind': 'fc', 'i': i} for i in range(30*k)]
            + [{'kind': 'call', 'i': i} for i in range(16*k)])


def guard(mon, fn, key, info):
    """('raised', exc) | ('ok', object) | None after a hang (a violation)."""
    def h(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        r = fn()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'ok', r
    except Hang:
        mon.fail(key + '-hang', f'no answer within {LIMIT} s: {info}')
        return None
    except Exception as e:  # noqa
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        if isinstance(e, NameError) and tb.tb_frame.f_code.co_filename == __file__:
            raise           # a slip of this file, not a refusal
        return 'raised', e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def refused(mon, fn, key, info):
    mon.evals += 1
    r = guard(mon, fn, key, info)
    if r is None:
        return
    if r[0] == 'ok':
        mon.fail(key + '-accepted', f'accepted: {info}')
        return
    mon.event(key + '-refused')


def same_or_refused(mon, fn, want, key, info):
    """want: snapshots of what the intact input gives (several acceptable ones allowed)."""
    mon.evals += 1
    r = guard(mon, fn, key, info)
    if r is None:
        return
    if r[0] == 'raised':
        mon.event(key + '-refused')
        return
    got = objs.snap(r[1])
    if any(objs.diff(w, got) is None for w in want):
        mon.event('same-as-intact')
    else:
        mon.fail(key + '-misread', f'{info}: read as something else: {objs.diff(want[0], got)}')


# -- constructors ----------------------------------------------------------------
def other_crystal(rng, n):
    return objs.crystal(rng, n_atoms=n + 1)


def args_of(rng, name):
    from euphonic import Crystal, ForceConstants, QpointFrequencies, QpointPhononModes, StructureFactor, DebyeWaller, ureg
    from euphonic.spectra import Spectrum1D, Spectrum2D, Spectrum1DCollection, Spectrum2DCollection
    if name == 'Crystal':
        c = objs.crystal(rng)
        return Crystal, dict(cell_vectors=c.cell_vectors, atom_r=c.atom_r, atom_type=c.atom_type, atom_mass=c.atom_mass)
    if name == 'ForceConstants':
        f = gen.make_fc(gen.system(rng, n_atoms=int(rng.integers(1, 4)), polar=True, nmax=6))
        return ForceConstants, dict(crystal=f.crystal, force_constants=f.force_constants, sc_matrix=f.sc_matrix, cell_origins=f.cell_origins, born=f.born,
                                    dielectric=f.dielectric)
    if name == 'DebyeWaller':
        d = objs.debye_waller(rng, temperature=5.)
        return DebyeWaller, dict(crystal=d.crystal, debye_waller=d.debye_waller, temperature=d.temperature)
    if name in ('QpointFrequencies', 'QpointPhononModes', 'StructureFactor'):
        c, q, f, w = objs.qpf_args(rng, nq=int(rng.integers(2, 7)), weights=True)
        a = dict(crystal=c, qpts=q, frequencies=f)
        cls = QpointFrequencies
        if name == 'QpointPhononModes':
            cls, a['eigenvectors'] = QpointPhononModes, objs.evecs(rng, len(q), c.n_atoms)
        if name == 'StructureFactor':
            cls, a['structure_factors'], a['temperature'] = StructureFactor, f.magnitude*ureg('mbarn'), 5*ureg('K')
        return cls, {**a, 'weights': w}
    s = {'Spectrum1D': objs.spectrum1d, 'Spectrum2D': objs.spectrum2d, 'Spectrum1DCollection': objs.spectrum1dcollection,
         'Spectrum2DCollection': objs.spectrum2dcollection}[name](rng)
    a = dict(x_data=s.x_data, y_data=s.y_data)
    if hasattr(s, 'z_data'):
        a['z_data'] = s.z_data
    a['x_tick_labels'], a['metadata'] = s.x_tick_labels or [(0, 'a')], s.metadata or {'a': 1}
    return type(s), a


NAMES = ['Crystal', 'ForceConstants', 'DebyeWaller', 'QpointFrequencies', 'QpointPhononModes', 'StructureFactor', 'Spectrum1D', 'Spectrum2D',
         'Spectrum1DCollection', 'Spectrum2DCollection']
OPTIONAL = {'x_tick_labels', 'metadata', 'weights', 'temperature', 'born', 'dielectric'}


def corruptions(rng, name, k, a, full):
    """(what, bad value) that no reading of the documentation allows."""
    from euphonic import ureg
    spec = name.startswith('Spectrum')
    q = hasattr(a, 'units')
    m = a.magnitude if q else a
    unit = (lambda x: ureg.Quantity(x, a.units)) if q else (lambda x: x)
    out = []
    if q:
        out.append(('bare', m))
        if not spec:
            out.append(('dimension', ureg.Quantity(m, 'candela')))
    if isinstance(m, np.ndarray):
        out.append(('list', m.tolist()))
        if m.ndim:
            # a spectrum axis may be one longer than the data, and an 1D collection's rows are any number
            rows = spec and (k in ('x_data',) or name == 'Spectrum1D' or k == 'y_data' and name in ('Spectrum2D', 'Spectrum2DCollection')
                             or k == 'z_data')
            coll = name.endswith('Collection') and k == ('y_data' if '1D' in name else 'z_data')
            step = 2 if rows else 1
            if not coll:
                if m.shape[0] > step:
                    out.append(('short', unit(m[:-step])))
                out.append(('long', unit(np.concatenate([m]+[m[-1:]]*step))))
            if m.ndim > 1 and not (name == 'QpointFrequencies' and k == 'frequencies'):
                st = 2 if spec else 1
                if m.shape[-1] > st:
                    out.append(('narrow', unit(m[..., :-st])))
                out.append(('wide', unit(np.concatenate([m] + [m[..., -1:]]*st, axis=-1))))
        out.append(('extra-axis', unit(m[None])))
        if m.ndim > 1:
            out.append(('flat', unit(m.ravel())))
    out.append(('text', 'abc'))
    if not (spec and k == 'metadata'):
        out.append(('dict', {'a': a}))
    if k == 'crystal' and name != 'QpointFrequencies':        # which may have any number of branches
        out.append(('other-crystal', other_crystal(rng, a.n_atoms)))
    if k not in OPTIONAL or k == 'dielectric':
        out.append(('none', None))
    if k == 'metadata':
        out = [('text', 'abc'), ('list', [1, 2])]
    if k == 'x_tick_labels':
        out = [('text', 'abc'), ('pairs', [('a', 0)]), ('float', [(0.5, 'a')]), ('triple', [(0, 'a', 'b')]), ('number', 5), ('numbers', [(0, 1)])]
    return out


def ambiguous(name, k, what, v, full):
    """Corruptions that happen to make another valid input."""
    if name.startswith('Spectrum') and what in ('short', 'long', 'narrow', 'wide'):
        try:
            x = np.asarray(full['x_data'].magnitude if k != 'x_data' else v.magnitude)
            y = np.asarray(full['y_data'].magnitude if k != 'y_data' else v.magnitude)
            z = None if 'z_data' not in full else np.asarray(full['z_data'].magnitude if k != 'z_data' else v.magnitude)
            if z is None:
                return len(x) - y.shape[-1] in (0, 1)
            return len(x) - z.shape[-2] in (0, 1) and len(y) - z.shape[-1] in (0, 1)
        except Exception:  # noqa
            return False
    return False


def ctor(spec, mon, rng):
    name = NAMES[spec['i'] % len(NAMES)]
    cls, a = args_of(rng, name)
    good = cls(**a)
    ref = objs.snap(good)
    for k, v in a.items():
        if v is None:
            continue
        before = objs.snap(v)
        for what, bad in corruptions(rng, name, k, v, a):
            if ambiguous(name, k, what, bad, a):
                continue
            refused(mon, lambda: cls(**{**a, k: bad}), 'ctor', f'{name}({k}={what})')
        mon.check(objs.diff(before, objs.snap(v)) is None, 'ctor-argument-changed', f'{name} {k}')
    mon.check(objs.diff(ref, objs.snap(good)) is None, 'ctor-object-changed', name)
    mon.check(objs.diff(ref, objs.snap(cls(**a))) is None, 'ctor-rebuild', f'{name}: same arguments give another object after refusals')
    mon.event('unchanged-after-refusal')
    mon.evaluated(('ctor', name, spec['i']))
    # setters
    if name == 'ForceConstants':
        for k in ('force_constants', 'born', 'dielectric'):
            v = a[k]
            for what, bad in [('bare', v.magnitude), ('short', v[:-1]), ('extra-axis', v[None]), ('flat', v.magnitude.ravel()*v.units)]:
                if k == 'force_constants' and what == 'short' and len(v) == 1:
                    continue
                refused(mon, lambda: setattr(good, k, bad), 'ctor', f'{name}.{k} = {what}')
        mon.check(objs.diff(ref, objs.snap(good)) is None, 'ctor-object-changed', f'{name} after refused assignments')


def jsonlike(d):
    return json.loads(json.dumps(core_json(d)))


def core_json(o):
    if isinstance(o, dict):
        return {k: core_json(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [core_json(v) for v in o]
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'c':
            return {'__complex__': 1}
        return core_json(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    return o


def dicts(spec, mon, rng):
    """Missing fields and damaged JSON files."""
    name = NAMES[spec['i'] % len(NAMES)]
    cls, a = args_of(rng, name)
    o = cls(**a)
    d = o.to_dict()
    want = objs.snap(cls.from_dict(o.to_dict()))
    for k in d:
        if k in OPTIONAL | {'born_unit', 'dielectric_unit', 'temperature_unit'} and k not in ('born_unit', 'dielectric_unit'):
            continue
        e = o.to_dict()
        del e[k]
        same_or_refused(mon, lambda: cls.from_dict(e), [want], 'dict', f'{name} without {k}')
        mon.event('dropped')
    for k, v in d.items():
        if isinstance(v, np.ndarray) and v.ndim and not name.startswith('Spectrum') and not (name == 'QpointFrequencies' and k == 'frequencies'):
            for what, bad in (('short', v[:-1]), ('extra-axis', v[None]), ('flat', v.ravel())):
                if v.ndim == 1 and what == 'flat' or v.size < 2:
                    continue
                e = o.to_dict()
                e[k] = bad
                refused(mon, lambda: cls.from_dict(e), 'dict', f'{name} {k} {what}')
    path = os.path.join(mon.scratch, 'o.json')
    o.to_json_file(path)
    text = open(path).read()
    want = objs.snap(cls.from_json_file(path))
    bad = os.path.join(mon.scratch, 'bad.json')
    cuts = sorted(set(int(x) for x in rng.integers(0, len(text.rstrip()) - 1, 6)) | {0, 1, len(text.rstrip()) - 1})
    for c in cuts:
        with open(bad, 'w') as f:
            f.write(text[:c])
        refused(mon, lambda: cls.from_json_file(bad), 'json', f'{name} cut at {c} of {len(text)}')
        mon.event('cut')
    t = json.loads(text)
    for k in list(t):
        if k in OPTIONAL | {'temperature_unit', '__euphonic_class__', '__euphonic_version__'}:
            continue
        e = dict(t)
        del e[k]
        with open(bad, 'w') as f:
            json.dump(e, f)
        same_or_refused(mon, lambda: cls.from_json_file(bad), [want], 'json', f'{name} without {k}')
    for junk in ('[]', '{}', 'null', '3', '"abc"', ''):
        with open(bad, 'w') as f:
            f.write(junk)
        refused(mon, lambda: cls.from_json_file(bad), 'json', f'{name} from {junk!r}')
    refused(mon, lambda: cls.from_json_file(os.path.join(mon.scratch, 'absent.json')), 'json', 'no file')
    mon.evaluated(('dict', name, spec['i']))


# -- files -------------------------------------------------------------------------
NUM = re.compile(r'(?<![\w.%#"\'])[-+]?\d+(?:\.\d+)?(?![\w.])')


def token_cuts(rng, text, n):
    """Offsets after complete tokens or lines."""
    e = [m.end() for m in re.finditer(r'\S+', text)]
    e = [x for x in e if x < len(text.rstrip())]
    lines = [m.end() for m in re.finditer(r'\n', text)]
    pick = [e[int(i)] for i in rng.integers(0, len(e), n)]
    pick += [lines[int(i)] for i in rng.integers(0, len(lines), n)]
    pick += lines[-3:] + e[-2:] + [0] + lines[:2]
    return sorted(set(x for x in pick if x < len(text)))


def stars(rng, text, n, fill='***'):
    m = list(NUM.finditer(text))
    out = []
    for i in sorted(set(int(x) for x in rng.integers(0, len(m), n))):
        a, b = m[i].span()
        # Fortran overflow: the field is filled
        out.append((text[max(text.rfind('\n', 0, a) + 1, 0):].split('\n', 1)[0].strip()[:60], text[a:b], text[:a] + '*'*max(3, b - a) + text[b:]))
    return out


def write(path, text):
    with open(path, 'w', newline='') as f:
        f.write(text)


def text_file(mon, rng, path, text, readers, key, ncut=8, nstar=8, stars_ok=True, extra_want=None):
    """readers: {name: function}; all damaged variants of one text file."""
    write(path, text)
    want = {k: [objs.snap(f())] + ((extra_want or {}).get(k, [])) for k, f in readers.items()}
    for c in token_cuts(rng, text, ncut):
        write(path, text[:c])
        for k, f in readers.items():
            same_or_refused(mon, f, want[k], key, f'{k} file cut after {c} of {len(text)} bytes, at {text[max(0, c - 30):c]!r}')
            mon.event('cut')
    if stars_ok:
        for line, tok, t in stars(rng, text, nstar):
            write(path, t)
            for k, f in readers.items():
                same_or_refused(mon, f, want[k], key, f'{k} with {tok} unreadable in line {line!r}')
                mon.event('stars')
    write(path, text)
    for k, f in readers.items():
        mon.check(any(objs.diff(w, objs.snap(f())) is None for w in want[k][:1]), key + '-intact', 'the intact file is read differently after refusals')
        mon.event('usable-after-refusal')
    return want


def phonon(spec, mon, rng):
    from euphonic import QpointPhononModes, QpointFrequencies
    d = c14.structure(rng, Quiet())
    n = len(d['types'])
    nq, blocks = c14.make_blocks(rng, Quiet(), n)
    for i, b in enumerate(blocks):
        b['id'] = i + 1
    nq = len(blocks)
    ir = int(rng.integers(0, 4))
    text = cf.phonon(d, blocks, nq, ir)
    path = os.path.join(mon.scratch, 'a.phonon')
    R = {'modes': lambda: QpointPhononModes.from_castep(path), 'frequencies': lambda: QpointFrequencies.from_castep(path)}
    want = text_file(mon, rng, path, text, R, 'phonon')
    # wrong counts
    for what, new in ((f' Number of ions         {n}', f' Number of ions         {n + 1}'), (f' Number of branches     {3*n}', f' Number of branches     {3*n + 1}'),
                      (f' Number of branches     {3*n}', f' Number of branches     {3*n - 1}'), (f' Number of wavevectors  {nq}', f' Number of wavevectors  {nq + 1}')):
        assert what in text
        write(path, text.replace(what, new, 1))
        for k, f in R.items():
            same_or_refused(mon, f, want[k], 'phonon', f'{k}: {new.strip()} instead of {what.strip()}')
            mon.event('count')
    # a missing data line
    L = text.splitlines(True)
    q0 = next(i for i, s in enumerate(L) if 'q-pt=' in s)
    for i in sorted(set(int(x) for x in rng.integers(q0, len(L), 6))):
        write(path, ''.join(L[:i] + L[i+1:]))
        for k, f in R.items():
            same_or_refused(mon, f, want[k], 'phonon', f'{k} without line {i}: {L[i][:50]!r}')
            mon.event('dropped')
    refused(mon, lambda: QpointPhononModes.from_castep(path + 'x'), 'phonon', 'no file')
    mon.evaluated(('phonon', spec['i']))
    mon.sample({'atoms': n, 'qpts': nq})


class Quiet:
    def event(self, *a):
        pass


def dos(spec, mon, rng):
    from euphonic import Spectrum1D, Spectrum1DCollection
    d = c14.structure(rng, Quiet())
    nq, blocks = c14.make_blocks(rng, Quiet(), len(d['types']))
    nb = int(rng.integers(2, 30))
    bins = np.round(rng.uniform(-500, 0) + np.arange(nb)*1., 1)
    sp = list(dict.fromkeys(d['types']))
    dd = {k: np.round(rng.uniform(0, 1, nb), 6) for k in ['Total'] + sp}
    text = cf.phonon_dos(d, blocks, bins, dd)
    path = os.path.join(mon.scratch, 'a.phonon_dos')
    R = {'collection': lambda: Spectrum1DCollection.from_castep_phonon_dos(path), 'element': lambda: Spectrum1D.from_castep_phonon_dos(path, element=sp[-1]),
         'total': lambda: Spectrum1D.from_castep_phonon_dos(path)}
    want = text_file(mon, rng, path, text, R, 'dos')
    for a, b in ((f'in DOS     {nb:5d}', f'in DOS     {nb + 1:5d}'), (f'of ions            {len(d["types"]):5d}', f'of ions            {len(d["types"]) + 1:5d}')):
        write(path, text.replace(a, b, 1))
        for k, f in R.items():
            same_or_refused(mon, f, want[k], 'dos', f'{k}: {b}')
            mon.event('count')
    write(path, text)
    refused(mon, lambda: Spectrum1D.from_castep_phonon_dos(path, element='Xx'), 'dos', 'unknown element')
    mon.evaluated(('dos', spec['i']))


def binary(spec, mon, rng):
    from euphonic import ForceConstants
    d = gen.system(rng, n_atoms=int(rng.choice([1, 2, 3])), polar=bool(rng.random() < .5), nmax=6)
    at = list(d['atom_type'])
    sp = [(str(t), float(d['atom_mass'][at.index(t)])*c14.ME, d['atom_r'][[k for k, x in enumerate(at) if x == t]]) for t in dict.fromkeys(at)]
    f = {'cell': d['cell'], 'species': sp, 'scm': d['scm'], 'origins': d['origins'], 'fc': rng.normal(size=d['fc'].shape), 'born': d['born'], 'eps': d['eps'],
         'second': rng.random() < .3}
    path = os.path.join(mon.scratch, 'a.castep_bin')
    raw = cf.castep_bin(rng, f, extra=bool(rng.random() < .5))

    def put(b):
        with open(path, 'wb') as fh:
            fh.write(b)
    put(raw)
    read = lambda: ForceConstants.from_castep(path)
    want = [objs.snap(read())]
    for c in sorted(set(int(x) for x in rng.integers(0, len(raw), 14)) | set(range(len(raw) - 11, len(raw)))):
        put(raw[:c])
        refused(mon, read, 'bin', f'cut after {c} of {len(raw)} bytes')
        mon.event('cut')
    # records: (start, data start, end)
    rec, p = [], 0
    while p < len(raw):
        n = int.from_bytes(raw[p:p+4], 'big')
        rec.append((p, p + 4, p + 8 + n))
        p += n + 8
    for i in sorted(set(int(x) for x in rng.integers(0, len(rec), 14))):
        a, s, e = rec[i]
        # a record mark that does not match the other
        for off in (a, e - 4):
            b = bytearray(raw)
            b[off + 3] ^= int(rng.choice([1, 8, 64]))
            put(bytes(b))
            same_or_refused(mon, read, want, 'bin', f'record mark of record {i} {raw[s:s+20]!r}')
            mon.event('count')
    # records of the wrong length
    for keyname in (b'FORCE_CON', b'BORN_CHGS', b'DIELECTRIC', b'CELL%REAL_LATTICE', b'CELL%IONIC_POSITIONS', b'CELL%SPECIES_MASS'):
        ks = [i for i, (a, s, e) in enumerate(rec) if raw[s:e-4].strip() == keyname]
        if not ks or ks[0] + 1 >= len(rec):
            continue
        i = ks[0] + 1
        a, s, e = rec[i]
        width = 4 if keyname == b'FORCE_CON' else 8
        data = raw[s:e-4]
        for what, new in (('short', data[:-width]), ('long', data + data[-width:]), ('empty', b'')):
            if keyname == b'CELL%SPECIES_MASS' and what == 'long':
                continue              # the extra entry belongs to no species
            put(raw[:a] + cf.rec(new) + raw[e:])
            same_or_refused(mon, read, want, 'bin', f'{what} record after {keyname.decode()}')
        if keyname not in (b'BORN_CHGS',):
            put(raw[:rec[ks[0]][0]] + raw[e:])          # field missing altogether
            same_or_refused(mon, read, want, 'bin', f'no {keyname.decode()}')
            mon.event('dropped')
    put(raw)
    mon.check(objs.diff(want[0], objs.snap(read())) is None, 'bin-intact', 'intact file read differently')
    for junk in (b'', b'\0'*7, bytes(rng.integers(0, 256, 300, dtype=np.uint8)), b'This is a text file\n'*9):
        put(junk)
        refused(mon, read, 'bin', f'junk {junk[:12]!r}')
    mon.evaluated(('bin', spec['i']))


def pp_content(rng):
    n, nq = int(rng.choice([1, 2, 3])), int(rng.integers(2, 6))
    N = nq
    ev = np.array([np.linalg.qr(rng.normal(size=(3*n, 3*n)) + 1j*rng.normal(size=(3*n, 3*n)))[0].reshape(3*n, n, 3) for _ in range(N)])
    return {'n': n, 'nq': nq, 'q': np.round(rng.uniform(-.5, .5, (N, 3)), 12), 'ev': ev, 'f': np.round(np.sort(rng.uniform(-1, 20, (N, 3*n)), axis=1), 10),
            'w': rng.integers(1, 25, N), 'cr': {'cell': gen.lattice(rng)[1]*gen.BOHR, 'types': np.array([str(x) for x in rng.choice(gen.SPECIES, n)]),
                                               'pos': rng.uniform(0, 1, (n, 3)), 'mass': np.round(rng.uniform(1, 200, n), 6)}}


def fresh(mon, name):
    path = os.path.join(mon.scratch, name)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def put_summary(path, c):
    sc = {k: c['cr'][k] for k in ('cell', 'types', 'pos', 'mass')}
    with open(os.path.join(path, 'phonopy.yaml'), 'w') as fh:
        fh.write(pf.summary({'S': np.eye(3, dtype=int), 'P': None, 'units': ('Angstrom', 'eV/Angstrom^2'), 'primitive_cell': sc, 'unit_cell': sc,
                             'supercell': {**sc, 'red': np.arange(1, c['n'] + 1)}}))


def yaml(spec, mon, rng):
    from euphonic import QpointPhononModes, QpointFrequencies
    c = pp_content(rng)
    kind = ['mesh', 'band', 'qpoints'][spec['i'] % 3]
    path = fresh(mon, 'py')
    incrys = kind != 'qpoints'
    if not incrys:
        put_summary(path, c)
    name = kind + '.yaml'
    text = pf.phonon_yaml(kind, c['q'], c['f'], c['ev'], c['w'] if kind == 'mesh' else None, c['cr'] if incrys else None)
    kw = {'path': path, 'phonon_name': name}
    R = {'modes': lambda: QpointPhononModes.from_phonopy(**kw), 'frequencies': lambda: QpointFrequencies.from_phonopy(**kw)}
    full = os.path.join(path, name)
    want = text_file(mon, rng, full, text, R, 'yaml', 6, 6)
    L = text.splitlines(True)
    for i in sorted(set(int(x) for x in rng.integers(0, len(L), 8))):
        if 'nqpoint' in L[i]:
            continue
        write(full, ''.join(L[:i] + L[i+1:]))
        for k, f in R.items():
            if k == 'frequencies' and re.match(r' *- (#|symbol)', L[i]):
                continue              # two list entries become one; any number of branches is allowed
            same_or_refused(mon, f, want[k], 'yaml', f'{k} {kind} without line {i}: {L[i]!r} after {L[i-1]!r}')
            mon.event('dropped')
    if not incrys:
        write(full, text)
        os.remove(os.path.join(path, 'phonopy.yaml'))
        for k, f in R.items():
            refused(mon, f, 'yaml', 'no summary')
    for junk in ('', 'abc', '[1, 2]', 'phonon:\n', 'phonon: []\n'):
        write(full, junk)
        for k, f in R.items():
            refused(mon, f, 'yaml', f'junk {junk!r}')
    mon.evaluated(('yaml', kind, spec['i']))


def hdf5(spec, mon, rng):
    import h5py
    from euphonic import QpointPhononModes, QpointFrequencies
    c = pp_content(rng)
    n = c['n']
    kind = ['mesh', 'band', 'qpoints'][spec['i'] % 3]
    path = fresh(mon, 'ph5')
    put_summary(path, c)
    E = c['ev'].reshape(-1, 3*n, 3*n).transpose(0, 2, 1)
    if kind == 'band':
        data = {'path': c['q'][None], 'frequency': c['f'][None], 'eigenvector': E[None], 'distance': np.zeros((1, c['nq']))}
    else:
        data = {'qpoint': c['q'], 'frequency': c['f'], 'eigenvector': E}
        if kind == 'mesh':
            data.update(weight=c['w'], mesh=np.array([4, 4, 4]))
    full = os.path.join(path, kind + '.hdf5')

    def put(x):
        with h5py.File(full, 'w') as fh:
            for k, v in x.items():
                fh[k] = v
    kw = {'path': path, 'phonon_name': kind + '.hdf5'}
    R = {'modes': lambda: QpointPhononModes.from_phonopy(**kw), 'frequencies': lambda: QpointFrequencies.from_phonopy(**kw)}
    put(data)
    raw = open(full, 'rb').read()
    want = {k: [objs.snap(f())] for k, f in R.items()}
    for cut in sorted(int(x) for x in rng.integers(0, len(raw), 4)):
        with open(full, 'wb') as fh:
            fh.write(raw[:cut])
        for k, f in R.items():
            refused(mon, f, 'hdf5', f'{k} {kind} cut after {cut} of {len(raw)} bytes')
            mon.event('cut')
    for k in data:
        if k in ('weight',):
            continue
        put({a: b for a, b in data.items() if a != k})
        for r, f in R.items():
            same_or_refused(mon, f, want[r], 'hdf5', f'{r} {kind} without {k}')
            mon.event('dropped')
    ax = 1 if kind == 'band' else 0
    for k in data:
        if k in ('mesh', 'distance'):
            continue
        for what, v in (('short', np.delete(data[k], -1, ax)), ('narrow', data[k][..., :-1]), ('extra-axis', data[k][None])):
            if k == 'frequency' and what == 'extra-axis' or data[k].ndim == 1 and what == 'narrow' or data[k].ndim > 2 and what == 'extra-axis' or kind == 'band' and what == 'extra-axis':
                continue
            put({**data, k: v})
            for r, f in R.items():
                same_or_refused(mon, f, want[r], 'hdf5', f'{r} {kind} {k} {what}')
                mon.event('count')
    mon.evaluated(('hdf5', kind, spec['i']))


def fc(spec, mon, rng):
    import h5py
    from euphonic import ForceConstants
    polar = rng.random() < .5
    d = gen.system(rng, n_atoms=int(rng.choice([1, 2] if not polar else [2])), polar=polar, nmax=4)
    d['total'] = d['fc']
    s, un, org, j, reps, p, rank, t = c15.build(rng, Quiet(), d)
    if s['units'] is None:
        s['units'] = pf.UNITS[un][:2]
    full, _ = c15.full_fc(d, org, j)
    full = full*pf.UNITS[un][3]
    compact = rng.random() < .5
    x = full[reps[p]] if compact else full
    path = fresh(mon, 'pfc')
    where = ['text', 'hdf5', 'yaml'][spec['i'] % 3]
    kw = {'path': path}
    rows = reps[p] if compact else np.arange(len(x))
    if where == 'text':
        kw['fc_name'] = 'FORCE_CONSTANTS'
        fct = pf.force_constants(x, rows, False, False)
        write(os.path.join(path, 'FORCE_CONSTANTS'), fct)
    elif where == 'hdf5':
        kw['fc_name'] = 'fc.hdf5'
        with h5py.File(os.path.join(path, 'fc.hdf5'), 'w') as fh:
            fh['force_constants'] = x
    else:
        s['fc'] = x
    if polar:
        b, e, fac = d['born'][p], d['eps'], pf.nac_factor(un)
        if where != 'text' and rng.random() < .5:
            s['nac'], s['nac_block'] = (b, e, fac), rng.random() < .5
            if not s['nac_block']:
                s['top_factor'] = fac
        else:
            kw['born_name'] = 'BORN'
            born = pf.born(b, e, fac, rng.random() < .3)
            write(os.path.join(path, 'BORN'), born)
    summ = pf.summary(s)
    sp = os.path.join(path, 'phonopy.yaml')
    write(sp, summ)
    read = lambda: ForceConstants.from_phonopy(**kw)
    R = {'fc': read}
    want = [objs.snap(read())]
    if where == 'text':
        fp = os.path.join(path, 'FORCE_CONSTANTS')
        text_file(mon, rng, fp, fct, R, 'fc-text', 6, 8)
        L = fct.splitlines(True)
        for i in sorted(set(int(k) for k in rng.integers(0, len(L), 6))):
            write(fp, ''.join(L[:i] + L[i+1:]))
            same_or_refused(mon, read, want, 'fc-text', f'without line {i}: {L[i]!r}')
            mon.event('dropped')
        write(fp, fct)
    elif where == 'hdf5':
        fp = os.path.join(path, 'fc.hdf5')
        raw = open(fp, 'rb').read()
        for cut in sorted(int(k) for k in rng.integers(0, len(raw), 4)):
            with open(fp, 'wb') as fh:
                fh.write(raw[:cut])
            refused(mon, read, 'fc-hdf5', f'cut after {cut}')
        bads = [('short', x[:, :-1]), ('long', np.concatenate([x, x[:1]])), ('flat', x.reshape(x.shape[:2] + (9,))), ('narrow', x[..., :2])]
        if len(x) + 1 == x.shape[1]:
            bads.pop(1)
        for what, v in bads:
            with h5py.File(fp, 'w') as fh:
                fh['force_constants'] = v
            refused(mon, read, 'fc-hdf5', f'{what} {v.shape}')
        with h5py.File(fp, 'w') as fh:
            fh['fc'] = x
        refused(mon, read, 'fc-hdf5', 'no dataset')
        with open(fp, 'wb') as fh:
            fh.write(raw)
    if 'born_name' in kw:
        bp = os.path.join(path, 'BORN')
        text_file(mon, rng, bp, born, R, 'born', 5, 5)
        write(bp, born)
    # the summary: the Born charges at its end may be absent altogether
    alt = []
    if s.get('nac') is not None:
        cut0 = summ.index('nac:\n' if s['nac_block'] else 'born_effective_charge:\n')
        if s.get('fc') is None:
            write(sp, summ[:cut0])
            alt = [objs.snap(read())]
            write(sp, summ)
    text_file(mon, rng, sp, summ, R, 'summary', 6, 6, extra_want={'fc': alt})
    if where != 'yaml':
        for f in ('FORCE_CONSTANTS', 'fc.hdf5'):
            if os.path.exists(os.path.join(path, f)):
                os.remove(os.path.join(path, f))
        refused(mon, read, 'fc-text' if where == 'text' else 'fc-hdf5', 'no file')
    mon.evaluated(('fc', where, spec['i']))
    mon.sample({'where': where, 'polar': polar, 'units': un, 'atoms': len(d['atom_r'])})


# -- calls -----------------------------------------------------------------------------
def calls(rng, mon):
    """[(name, object or None, function)]"""
    from euphonic import (ForceConstants, QpointPhononModes, QpointFrequencies, StructureFactor, DebyeWaller, Crystal, Spectrum1D, Spectrum2D, Spectrum1DCollection, ureg)
    from euphonic.spectra import Spectrum2DCollection
    from euphonic.powder import sample_sphere_dos, sample_sphere_pdos, sample_sphere_structure_factor
    from euphonic.spectra import apply_kinematic_constraints
    from euphonic.util import get_reference_data, mode_gradients_to_widths
    K, meV, A, kg = ureg('K'), ureg('meV'), ureg('1/angstrom'), ureg('kg')
    n = int(rng.integers(1, 4))
    f = gen.make_fc(gen.system(rng, n_atoms=max(n, 2), polar=True, nmax=4))
    nq = int(rng.integers(2, 6))
    m = objs.modes(rng, nq=nq, n=n, weights=True)
    c = m.crystal
    qf = QpointFrequencies(c, m.qpts, m.frequencies, m.weights)
    T = float(rng.uniform(1, 90))
    sf = StructureFactor(c, m.qpts, m.frequencies, m.frequencies.magnitude*ureg('mbarn'), weights=m.weights, temperature=T*K)
    dw = objs.debye_waller(rng, cr=c, temperature=T)
    dw3 = objs.debye_waller(rng, cr=other_crystal(rng, n), temperature=T)
    e = np.linspace(0, 200, 40)*meV
    s1 = Spectrum1D(e, rng.random(39)*ureg('1/meV'))
    s2 = Spectrum2D(np.arange(6.)*A, e, rng.random((5, 39))*ureg('1/meV'))
    sc = Spectrum1DCollection(e, rng.random((3, 39))*ureg('1/meV'), metadata={'line_data': [{'i': '0'}, {'i': '1'}, {'i': '2'}]})
    Q = rng.uniform(-.5, .5, (nq, 3))
    types = list(dict.fromkeys(str(t) for t in c.atom_type))
    W = np.ones(m.frequencies.shape)
    R = []

    def add(o, name, fn):
        R.append((name, o, fn))
    for cn, fn in (('modes', f.calculate_qpoint_phonon_modes), ('frequencies', f.calculate_qpoint_frequencies)):
        for use_c in (True, False):
            k = {'use_c': use_c}
            for nm, q in (('2 columns', Q[:, :2]), ('4 columns', rng.random((nq, 4))), ('1 axis', Q[0]), ('3 axes', Q[None]), ('text', Q.astype(str)), ('list', Q.tolist()),
                          ('complex', Q*1j)):
                add(f, f'{cn} use_c={use_c} q-points {nm}', lambda fn=fn, q=q, k=k: fn(q, **k))
            for a in ('real', 'Reciprocal', 'none', '', True, 1):
                add(f, f'{cn} use_c={use_c} asr={a!r}', lambda fn=fn, a=a, k=k: fn(Q, asr=a, **k))
            for w in (np.ones(nq + 1), np.ones((nq, 1)), 'abc', 3.):
                add(f, f'{cn} weights {np.shape(w)} {w if np.ndim(w) == 0 else ""}', lambda fn=fn, w=w, k=k: fn(Q, weights=w, **k))
            for dp in (0., -1., float('nan')):
                add(f, f'{cn} dipole_parameter={dp}', lambda fn=fn, dp=dp, k=k: fn(Q, dipole_parameter=dp, **k))
        add(f, f'{cn} n_threads', lambda fn=fn: fn(Q, n_threads='a', use_c=True))
    fcs = f.force_constants
    for nm, x in (('one cell', fcs[:1]), ('bare', fcs.magnitude), ('narrow', fcs[:, :-1]), ('kg', fcs.magnitude*kg)):
        if nm == 'one cell' and len(fcs) == 1:
            continue
        add(f, f'from_total_fc_with_dipole {nm}', lambda x=x: ForceConstants.from_total_fc_with_dipole(f.crystal, x, f.sc_matrix, f.cell_origins, f.born, f.dielectric))
    for nm, t in (('no unit', 5.), ('meV', 5*meV), ('kg', 5*kg)):
        add(m, f'debye-waller temperature {nm}', lambda t=t: m.calculate_debye_waller(t))
        add(sf, f'sqw temperature {nm}', lambda t=t: sf.calculate_sqw_map(e, temperature=t))
    add(m, 'debye-waller frequency_min kg', lambda: m.calculate_debye_waller(5*K, frequency_min=1*kg))
    add(m, 'structure factor: Debye-Waller of another crystal', lambda: m.calculate_structure_factor(dw=dw3))
    add(m, 'structure factor: dw=5', lambda: m.calculate_structure_factor(dw=5))
    add(m, 'structure factor: no lengths', lambda: m.calculate_structure_factor(scattering_lengths={}))
    if len(types) > 1:
        add(m, 'structure factor: a species without length', lambda: m.calculate_structure_factor(scattering_lengths={types[0]: 5*ureg('fm')}))
    add(m, 'structure factor: bare lengths', lambda: m.calculate_structure_factor(scattering_lengths={t: 1. for t in types}))
    add(m, 'structure factor: lengths in kg', lambda: m.calculate_structure_factor(scattering_lengths={t: 1*kg for t in types}))
    add(m, 'structure factor: unknown table', lambda: m.calculate_structure_factor(scattering_lengths='Nobody1900'))
    add(sf, 'sqw bins in kg', lambda: sf.calculate_sqw_map(e.magnitude*kg))
    add(sf, 'sqw bare bins', lambda: sf.calculate_sqw_map(e.magnitude))
    for t in (T + 3, 0., T*.5):
        add(sf, f'sqw another temperature {t}', lambda t=t: sf.calculate_sqw_map(e, temperature=t*K))
        add(sf, f'sqw average another temperature {t}', lambda t=t: sf.calculate_1d_average(e, temperature=t*K))
        fdw = objs.debye_waller(rng, cr=f.crystal, temperature=T)
        add(f, f'powder another temperature {t}', lambda t=t, w=fdw: sample_sphere_structure_factor(f, 1*A, npts=4, energy_bins=e, dw=w, temperature=t*K))
    sf0 = StructureFactor(c, m.qpts, m.frequencies, m.frequencies.magnitude*ureg('mbarn'), weights=m.weights, temperature=0.*K)
    add(sf0, 'sqw temperature of a zero-temperature structure factor', lambda: sf0.calculate_sqw_map(e, temperature=T*K))
    fdw0 = objs.debye_waller(rng, cr=f.crystal, temperature=0.)
    add(f, 'powder temperature and a zero-temperature Debye-Waller', lambda: sample_sphere_structure_factor(f, 1*A, npts=4, energy_bins=e, dw=fdw0, temperature=T*K))
    add(sf, '1d average bins in kg', lambda: sf.calculate_1d_average(e.magnitude*kg))
    for nm, o in (('modes', m), ('frequencies', qf)):
        for b, bad in (('kg', e.magnitude*kg), ('bare', e.magnitude), ('2 axes', np.ones((2, 5))*meV)):
            add(o, f'{nm} dos bins {b}', lambda o=o, bad=bad: o.calculate_dos(bad))
            if b != '2 axes':
                add(o, f'{nm} dos map bins {b}', lambda o=o, bad=bad: o.calculate_dos_map(bad))
        for b, bad in (('shape', np.ones((nq + 1, 2))*meV), ('kg', W*kg), ('bare', W)):
            add(o, f'{nm} dos widths {b}', lambda o=o, bad=bad: o.calculate_dos(e, mode_widths=bad))
        add(o, f'{nm} adaptive_method', lambda o=o: o.calculate_dos(e, mode_widths=W*meV, adaptive_method='x'))
        add(o, f'{nm} adaptive_error_fit', lambda o=o: o.calculate_dos(e, mode_widths=W*meV, adaptive_method='fast', adaptive_error_fit='x'))
    add(m, 'pdos weighting', lambda: m.calculate_pdos(e, weighting='x'))
    add(m, 'pdos unknown table', lambda: m.calculate_pdos(e, weighting='coherent', cross_sections='Nobody1900'))
    add(m, 'pdos no cross section', lambda: m.calculate_pdos(e, weighting='coherent', cross_sections={'Zz': 1*ureg('barn')}))
    add(m, 'pdos cross section meV', lambda: m.calculate_pdos(e, weighting='coherent', cross_sections={t: 1*meV for t in types}))
    for nm, o in (('1d', s1), ('collection', sc)):
        add(o, f'{nm} broaden shape', lambda o=o: o.broaden(1*meV, shape='x'))
        add(o, f'{nm} broaden kg', lambda o=o: o.broaden(1*kg))
        add(o, f'{nm} broaden bare', lambda o=o: o.broaden(1.))
    add(s1, 'broaden method', lambda: s1.broaden(1*meV, method='x'))
    add(s1, 'broaden callable bare', lambda: s1.broaden(lambda x: np.ones(len(x))))
    add(s1, 'broaden callable shape', lambda: s1.broaden(lambda x: 1*meV))
    add(s1, 'broaden callable kg', lambda: s1.broaden(lambda x: np.ones(len(x))*kg))
    add(s2, '2d broaden kg', lambda: s2.broaden(x_width=1*kg))
    add(s2, '2d broaden y kg', lambda: s2.broaden(y_width=1*kg))
    add(s2, '2d broaden shape', lambda: s2.broaden(y_width=1*meV, shape='x'))
    add(sc, 'index', lambda: sc[10])
    add(sc, 'negative index', lambda: sc[-10])
    add(sc, 'float index', lambda: sc[1.5])
    add(sc, 'add number', lambda: sc + 5)
    add(sc, 'select no match', lambda: sc.select(i='q'))
    add(sc, 'from no spectra', lambda: Spectrum1DCollection.from_spectra([]))
    add(s1, 'from other class', lambda: Spectrum1DCollection.from_spectra([s1, s2]))
    add(s1, 'from other axis', lambda: Spectrum1DCollection.from_spectra([s1, Spectrum1D(e*2, s1.y_data)]))
    add(s1, 'from other unit', lambda: Spectrum1DCollection.from_spectra([s1, Spectrum1D(e, s1.y_data.magnitude*kg)]))
    z, y5 = s2.z_data, np.arange(6.)*A
    for nm, other in (('class', s1), ('x axis', Spectrum2D(y5*2, e, z)), ('y axis', Spectrum2D(y5, e*2, z)), ('x unit', Spectrum2D(y5.magnitude*ureg('1/bohr'), e, z)),
                      ('unit', Spectrum2D(y5, e, z.magnitude*kg)), ('shape', Spectrum2D(y5, e[:-1], z[:, :-1])), ('ticks', Spectrum2D(y5, e, z, x_tick_labels=[(0, 'X')]))):
        add(s2, f'2d from other {nm}', lambda other=other: Spectrum2DCollection.from_spectra([s2, other]))
        if nm == 'class':
            add(s2, '2d from other class first', lambda: Spectrum2DCollection.from_spectra([s1, s2]))
            add(s2, '2d from one of other class', lambda: Spectrum2DCollection.from_spectra([s1]))
    add(s2, '2d from no spectra', lambda: Spectrum2DCollection.from_spectra([]))
    add(s1, 'from one of other class', lambda: Spectrum1DCollection.from_spectra([s2]))
    add(s1, 'from other ticks', lambda: Spectrum1DCollection.from_spectra([s1, Spectrum1D(e, s1.y_data, x_tick_labels=[(1, 'X')])]))
    add(s1, 'from other shape', lambda: Spectrum1DCollection.from_spectra([s1, Spectrum1D(e[:-1], s1.y_data[:-1])]))
    add(s1, 'add other axis', lambda: s1 + Spectrum1D(e*2, s1.y_data))
    add(s1, 'add other unit', lambda: s1 + Spectrum1D(e, s1.y_data.magnitude*kg))
    add(s1, 'times text', lambda: s1*'a')
    add(s1, 'times short array', lambda: s1*np.ones(3))
    add(s1, 'split both', lambda: s1.split(indices=[3], btol=2.))
    add(s1, 'text file in no directory', lambda: s1.to_text_file(os.path.join(mon.scratch, 'absent', 'x')))
    add(s2, 'constraints both', lambda: apply_kinematic_constraints(s2, e_i=9*meV, e_f=9*meV))
    add(s2, 'constraints none', lambda: apply_kinematic_constraints(s2))
    add(s2, 'constraints kg', lambda: apply_kinematic_constraints(s2, e_i=9*kg))
    add(s2, 'constraints bare', lambda: apply_kinematic_constraints(s2, e_i=9.))
    add(s2, 'constraints x in kg', lambda: apply_kinematic_constraints(Spectrum2D(np.arange(6.)*kg, e, s2.z_data), e_i=9*meV))
    add(s2, 'constraints y in kg', lambda: apply_kinematic_constraints(Spectrum2D(np.arange(6.)*A, e.magnitude*kg, s2.z_data), e_i=9*meV))
    add(f, 'powder |Q| in kg', lambda: sample_sphere_dos(f, 1*kg, npts=4, energy_bins=e))
    add(f, 'powder bare |Q|', lambda: sample_sphere_dos(f, 1., npts=4, energy_bins=e))
    add(f, 'powder sampling', lambda: sample_sphere_dos(f, 1*A, npts=4, energy_bins=e, sampling='x'))
    add(f, 'powder bins', lambda: sample_sphere_dos(f, 1*A, npts=4, energy_bins=e.magnitude*kg))
    add(f, 'powder npts', lambda: sample_sphere_dos(f, 1*A, npts=0, energy_bins=e))
    add(f, 'powder Debye-Waller', lambda: sample_sphere_structure_factor(f, 1*A, npts=4, energy_bins=e, dw=objs.debye_waller(rng, cr=other_crystal(rng, max(n, 2)), temperature=5.)))
    add(f, 'powder no lengths', lambda: sample_sphere_structure_factor(f, 1*A, npts=4, energy_bins=e, dw_spacing=.5*A, scattering_lengths={}))
    add(f, 'powder dw_spacing', lambda: sample_sphere_structure_factor(f, 1*A, npts=4, energy_bins=e, dw_spacing=1*kg))
    for nm, t in (('no unit', 5.), ('meV', 5*meV)):
        add(f, f'powder temperature {nm}', lambda t=t: sample_sphere_structure_factor(f, 1*A, npts=4, energy_bins=e, dw_spacing=.5*A, temperature=t))
    add(f, 'powder pdos weighting', lambda: sample_sphere_pdos(f, 1*A, npts=4, energy_bins=e, weighting='x'))
    add(None, 'reference table', lambda: get_reference_data('coherent_cross_section', 'Nobody1900'))
    add(None, 'reference property', lambda: get_reference_data('smell', 'Sears1992'))
    add(c, 'widths unit', lambda: mode_gradients_to_widths(np.ones((4, 3, 3))*meV, c.cell_vectors))
    add(c, 'grid spacing kg', lambda: c.get_mp_grid_spec(1*kg))
    add(c, 'grid spacing zero', lambda: c.get_mp_grid_spec(0*A))
    add(c, 'symmetry tolerance', lambda: c.get_symmetry_equivalent_atoms(tol=1*kg))
    valid = [('modes', lambda: f.calculate_qpoint_phonon_modes(Q, use_c=False).frequencies), ('dos', lambda: m.calculate_dos(e)), ('sqw', lambda: sf.calculate_sqw_map(e)),
             ('structure factor', lambda: m.calculate_structure_factor(scattering_lengths={t: 5*ureg('fm') for t in types}, dw=dw)), ('broaden', lambda: s1.broaden(5*meV)),
             ('fc', lambda: f.calculate_qpoint_frequencies(Q, asr='realspace'))]
    return R, valid, [f, m, qf, sf, dw, s1, s2, sc, c]


def call(spec, mon, rng):
    R, valid, live = calls(rng, mon)
    before = [objs.snap(o) for o in live]
    first = {k: objs.snap(fn()) for k, fn in valid}
    for name, o, fn in R:
        s = objs.snap(o) if o is not None else None
        refused(mon, fn, 'call', name)
        if o is not None:
            mon.check(objs.diff(s, objs.snap(o)) is None, 'changed-by-refusal', f'{name}: {objs.diff(s, objs.snap(o))}')
    for a, o in zip(before, live):
        mon.check(objs.diff(a, objs.snap(o)) is None, 'changed-by-refusal', type(o).__name__)
        mon.event('unchanged-after-refusal')
    for k, fn in valid:
        mon.check(objs.diff(first[k], objs.snap(fn())) is None, 'unusable-after-refusal', k)
        mon.event('usable-after-refusal')
    mon.evaluated(('call', spec['i']))
    mon.sample({'calls': len(R)})


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, 'C31', spec['kind'], spec['i'])
    {'ctor': ctor, 'dict': dicts, 'phonon': phonon, 'dos': dos, 'bin': binary, 'yaml': yaml, 'hdf5': hdf5, 'fc': fc, 'call': call}[spec['kind']](spec, mon, rng)
