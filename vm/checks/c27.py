"""C27: the command-line tools against the Python API."""
import json
import os
import shutil
import traceback
import numpy as np
from numpy.polynomial import Polynomial
from .. import core, objs, gen, load, brillesafe, childcase
from . import c28

RULE = ('random option combinations of every tool, on random force constants (polar or not), modes and frequencies written as JSON and on stored CASTEP and '
        'Phonopy files, run in-process; the artists left in the figure and the --save-json file are compared with the corresponding API calls '
        'made on independently loaded data, following the documented meaning of each option; distinct by (case, options)')
ASSUMPTIONS = ['default energy range only required to cover the frequencies', 'sampling schemes with random jitter compared under the same random seed',
               'the seekpath path is taken as is, in the coordinates of the given cell']
REQUIRED_EVENTS = ['style', 'dos-values', 'dos-adaptive-values', 'fontsize', 'q-polynomial', 'fc-phonopy-born', 'fc-phonopy-hdf5', 'fc-phonopy-summary', 'widgets',
                   'convergence-slices', 'convergence-broadening', 'convergence-polynomial', 'convergence-density', 'dos', 'dispersion', 'intensity', 'powder', 'sampling', 'optimise', 'convergence', 'refusal', 'fc-json', 'fc-castep', 'fc-phonopy', 'modes-json',
                   'qpf-json', 'phonon-file', 'yaml-modes', 'adaptive', 'adaptive-instrument', 'polynomial', 'lorentz', 'pdos', 'pdos-species',
                   'weighting', 'scale', 'e-range', 'ebins', 'unit', 'asr', 'dipole-parameter', 'use-c', 'disable-c', 'threads', 'grid', 'grid-spacing', 'length-unit',
                   'reorder', 'breaks', 'btol', 'temperature', 'coherent', 'q-broadening', 'npts-density', 'kinematic', 'brille', 'json-loaded', 'figsize', 'linewidth',
                   'clim', 'cmap', 'titles', 'saved-figure', 'jitter', 'polar', 'short-segment', 'doubled-gamma',
                   'e-min-zero-imaginary', 'e-max-zero', 'zero-temperature']
BUDGET = {'quick': 300., 'thorough': 3000.}
F = 2*np.sqrt(2*np.log(2))


def R(x):
    return repr(float(x))


def cases(tier, seed):
    k = {'quick': 1, 'thorough': 14}[tier]
    r = [{'kind': kind, 'i': i} for kind, n in (('dos', 200), ('dispersion', 55), ('intensity', 65), ('powder', 60), ('refuse', 20),
                                                ('sampling', 36), ('optimise', 6)) for i in range(n*k)]
    r += [{'kind': 'convergence', 'i': i} for i in range(10*k)]
    return [r[j] for j in np.random.default_rng(seed).permutation(len(r))]


def run(tool, argv, mon):
    import importlib
    import matplotlib.pyplot as plt
    plt.close('all')
    np.random.seed(7)
    mod = importlib.import_module('euphonic.cli.' + tool)
    rc = dict(plt.rcParams)
    mod.main([R(a) if isinstance(a, float) else str(a) for a in argv])
    fig = plt.gcf()
    mon.check(all(plt.rcParams[k] == v for k, v in rc.items()), tool + ':style-leaks', 'rcParams changed')
    return fig


def source(rng, mon, kinds):
    """(file name, kind, loader)"""
    from euphonic import ForceConstants, QpointPhononModes, QpointFrequencies
    kind = objs.pick(rng, kinds)
    mon.event(kind)
    p = os.path.join(mon.scratch, 'in.json')
    if kind == 'fc-json':
        polar = rng.random() < .35
        if polar:
            mon.event('polar')
        d = gen.system(rng, n_atoms=int(rng.integers(2 if polar else 1, 4)), polar=polar, nmax=4, noise=None)
        if polar:
            sv = d['scm']@d['cell']
            if np.max(np.linalg.norm(sv, axis=1)) > 2.4*abs(np.linalg.det(sv))**(1/3):
                raise core.SkipCase
        gen.make_fc(d).to_json_file(p)
        return p, 'fc', lambda: ForceConstants.from_json_file(p)
    if kind == 'fc-castep':
        f = os.path.join(load.TESTDATA, 'castep_files', 'graphite', 'graphite.castep_bin')
        return f, 'fc', lambda: ForceConstants.from_castep(f)
    if kind == 'fc-phonopy':
        src = os.path.join(load.TESTDATA, 'phonopy_files', 'NaCl')
        how = int(rng.integers(4))
        if how:
            # as phonopy leaves them: separate files in one directory, found by their names
            d, nac = os.path.join(mon.scratch, 'ph'), {}
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copy(os.path.join(src, 'phonopy_nofc_noborn.yaml'), os.path.join(d, 'phonopy.yaml'))
            fcn = 'FORCE_CONSTANTS' if how == 1 else 'force_constants.hdf5'
            shutil.copy(os.path.join(src, 'FORCE_CONSTANTS_nacl' if how == 1 else fcn), os.path.join(d, fcn))
            if rng.random() < .6:
                shutil.copy(os.path.join(src, 'BORN_nacl'), os.path.join(d, 'BORN'))
                nac = {'born_name': 'BORN'}
                mon.event('fc-phonopy-born')
            mon.event('fc-phonopy-hdf5' if how == 3 else 'fc-phonopy-summary')
            return (os.path.join(d, fcn if how == 3 else 'phonopy.yaml'), 'fc',
                    lambda: ForceConstants.from_phonopy(path=d, summary_name='phonopy.yaml', fc_name=fcn, **nac))
        f = os.path.join(src, 'phonopy_nacl.yaml')
        return f, 'fc', lambda: ForceConstants.from_phonopy(path=os.path.dirname(f), summary_name='phonopy_nacl.yaml', fc_name='force_constants.hdf5')
    if kind == 'phonon-file':
        f = os.path.join(load.TESTDATA, 'castep_files', 'NaH', 'NaH.phonon')
        return f, 'modes', lambda: QpointPhononModes.from_castep(f)
    if kind == 'yaml-modes':
        f = os.path.join(load.TESTDATA, 'phonopy_files', 'NaCl', 'band', 'band.yaml')
        return f, 'modes', lambda: QpointPhononModes.from_phonopy(path=os.path.dirname(f), phonon_name='band.yaml')
    if kind == 'modes-json':
        m = objs.modes(rng, nq=int(rng.integers(4, 25)), path=True, unit='meV', n=int(rng.integers(1, 4)), imaginary=rng.random() < .4)
        m.to_json_file(p)
        return p, 'modes', lambda: QpointPhononModes.from_json_file(p)
    m = objs.qpoint_frequencies(rng, nq=int(rng.integers(4, 25)), path=True, unit='meV', n=int(rng.integers(1, 4)), imaginary=rng.random() < .4)
    m.to_json_file(p)
    return p, 'qpf', lambda: QpointFrequencies.from_json_file(p)


def interp_options(rng, mon, argv):
    """Interpolation options -> keyword arguments."""
    kw = {'asr': None, 'dipole_parameter': 1.0, 'use_c': None, 'n_threads': None}
    if rng.random() < .4:
        mon.event('asr')
        a = objs.pick(rng, [None, 'reciprocal', 'realspace'])
        kw['asr'] = a or 'reciprocal'
        argv += ['--asr'] + ([a] if a else [])
        if a is None:
            argv += ['--title', 'x']        # something after the bare option
    if rng.random() < .3:
        mon.event('dipole-parameter')
        kw['dipole_parameter'] = float(rng.choice([.5, .8, 1.4]))
        argv += ['--dipole-parameter', kw['dipole_parameter']]
    r = rng.random()
    if r < .2:
        mon.event('use-c')
        kw['use_c'] = True
        argv += ['--use-c']
    elif r < .5:
        mon.event('disable-c')
        kw['use_c'] = False
        argv += ['--disable-c']
    if kw['use_c'] is not False and rng.random() < .4:
        mon.event('threads')
        kw['n_threads'] = int(rng.integers(1, 4))
        argv += ['--n-threads', kw['n_threads']]
    return kw


def plot_options(rng, mon, argv, map_):
    o = {}
    for k, opts in (('title', ['--title']), ('xlabel', ['--x-label', '--xlabel']), ('ylabel', ['--y-label', '--ylabel'])):
        if rng.random() < .25 and '--' + k not in argv:
            o[k] = str(rng.choice(['Some text', 'b $x^2$']))
            argv += [objs.pick(rng, opts), o[k]]
            mon.event('titles')
    if rng.random() < .2:
        o['figsize'] = [float(rng.uniform(8, 25)), float(rng.uniform(8, 25))]
        o['unit'] = objs.pick(rng, ['cm', 'cm', 'mm', 'inch'])
        f = {'cm': 1., 'mm': 10., 'inch': 1/2.54}[o['unit']]
        argv += [objs.pick(rng, ['--fig-size', '--figsize'])] + [x*f for x in o['figsize']]
        if o['unit'] != 'cm':
            argv += ['--figsize-unit', o['unit']]
        mon.event('figsize')
    if not map_ and rng.random() < .25:
        o['linewidth'] = float(rng.uniform(.5, 5))
        argv += [objs.pick(rng, ['--line-width', '--linewidth']), o['linewidth']]
        mon.event('linewidth')
    if rng.random() < .2:
        o['dark'] = True
        argv += ['--style', 'dark_background']
        mon.event('style')
    if rng.random() < .2:
        argv += ['--no-base-style']
    if rng.random() < .2:
        o['fontsize'] = float(rng.choice([7., 13.5]))
        argv += [objs.pick(rng, ['--font-size', '--fontsize']), R(o['fontsize'])]
        mon.event('fontsize')
    if rng.random() < .15:
        argv += ['--font', 'DejaVu Serif']
    if map_:
        if rng.random() < .3:
            o['cmap'] = objs.pick(rng, ['bone', 'Reds'])
            argv += [objs.pick(rng, ['--c-map', '--cmap']), o['cmap']]
            mon.event('cmap')
    if rng.random() < .25:
        o['save'] = 'out.png'
    return o


def check_plot(mon, fig, o, key, naxes, energy_axis, unit):
    big = fig.axes[naxes]
    t = fig._suptitle.get_text() if fig._suptitle is not None else ''
    if 'title' in o:
        mon.check(t == o['title'], key + ':title', t)
    for k in ('xlabel', 'ylabel'):
        got = getattr(big, 'get_' + k)()
        if k in o:
            mon.check(got == o[k], key + ':' + k, got)
        elif k == energy_axis:
            mon.check(f'{unit:~P}' in got, key + ':unit-label', f'{got} does not name {unit:~P}')
    if 'figsize' in o:
        mon.close(fig.get_size_inches()*2.54, np.array(o['figsize']), key + ':figsize', rtol=1e-6)
    if o.get('dark'):
        mon.check(tuple(fig.axes[0].get_facecolor()) == (0., 0., 0., 1.), key + ':style', f'{fig.axes[0].get_facecolor()}')
    if 'fontsize' in o:
        t = [x for x in (fig.axes[0].xaxis.label, fig.axes[0].yaxis.label) if x.get_text()]
        mon.close(np.array([x.get_fontsize() for x in t]), np.full(len(t), o['fontsize']), key + ':fontsize', rtol=1e-6)
    if 'linewidth' in o:
        lw = {round(l.get_linewidth(), 9) for a in fig.axes for l in a.get_lines()}
        mon.check(lw == {round(o['linewidth'], 9)}, key + ':linewidth', f'{lw} != {o["linewidth"]}')


def ebin_options(rng, mon, argv, unit, fmin, fmax, lo=.3):
    o = {}
    if rng.random() < .7:
        o['ebins'] = int(rng.integers(15, 120))
        argv += ['--ebins', o['ebins']]
        mon.event('ebins')
    if rng.random() < .35:
        o['emin'] = float(rng.uniform(-.3, lo)*fmax) if rng.random() < .6 else 0.
        argv += [f'--e-min={o["emin"]!r}' if rng.random() < .8 or o['emin'] else '--e-min=0']
        mon.event('e-range')
        mon.event('e-min-zero-imaginary', o['emin'] == 0 and fmin < -1e-2*fmax)
    if fmin < -.1*fmax and o.get('emin', fmin) < 0 and rng.random() < .25:
        o['emax'] = 0.
        argv += ['--e-max=0']
        mon.event('e-max-zero')
    elif rng.random() < .35:
        o['emax'] = float(rng.uniform(.6, 1.6)*fmax)
        argv += ['--e-max', o['emax']]
        mon.event('e-range')
    return o


def check_bins(mon, e, o, fmin, fmax, key):
    mon.check(len(e) == o.get('ebins', 200) + 1, key + ':number-of-bins', f'{len(e) - 1} bins, expected {o.get("ebins", 200)}')
    w = np.diff(e)
    mon.close(w, np.full(len(w), w.mean()), key + ':bin-spacing', rtol=1e-8, atol=1e-12*np.abs(e).max())
    if 'emin' in o:
        mon.close(e[0], o['emin'], key + ':e-min', rtol=1e-9, atol=1e-12*fmax)
    else:
        mon.check(e[0] <= min(fmin, 0) and e[0] > min(fmin, 0) - .2*abs(fmax), key + ':default-e-min', f'{e[0]} for frequencies from {fmin}')
    if 'emax' in o:
        mon.close(e[-1], o['emax'], key + ':e-max', rtol=1e-9, atol=1e-12*abs(fmax or 0))
    elif fmax is not None:
        mon.check(fmax <= e[-1] < 1.5*fmax, key + ':default-e-max', f'{e[-1]} for frequencies up to {fmax}')


def substantial(f, unit):
    """Skip crystals whose frequencies are all rounding noise (one atom per primitive cell and supercell)."""
    from euphonic import ureg
    if not f.max() > (1e-2*ureg('meV')).to(unit, 'spectroscopy').magnitude:
        raise core.SkipCase


def energy_unit(rng, mon, argv):
    u = 'meV'
    if rng.random() < .5:
        u = objs.pick(rng, ['THz', '1/cm', 'eV', 'hartree', 'cm^-1', 'meV'])
        argv += [objs.pick(rng, ['--energy-unit', '-u']), u]
        mon.event('unit')
    return u


def length_unit(rng, mon, argv):
    if rng.random() < .3:
        u = objs.pick(rng, ['bohr', 'nm', 'angstrom'])
        argv += ['--length-unit', u]
        mon.event('length-unit')
    else:
        u = 'angstrom'
    return u, {'bohr': gen.BOHR, 'nm': 10., 'angstrom': 1.}[u]


def grid_option(rng, mon, argv, crystal, lu, small=3):
    """Monkhorst-Pack grid spec."""
    if rng.random() < .6:
        g = [int(x) for x in rng.integers(1, small + 1, 3)]
        argv += ['--grid', *g]
        mon.event('grid')
        return tuple(g)
    a = crystal.cell_vectors.to('angstrom').magnitude
    b = 2*np.pi*np.linalg.inv(a).T
    lb = np.linalg.norm(b, axis=1)
    h = float(np.max(lb)/rng.uniform(1.2, small - .3))
    spec = np.ceil(lb/h).astype(int)
    if np.min(np.abs(lb/h - np.rint(lb/h))) < 1e-6:
        raise core.SkipCase
    argv += ['--grid-spacing', R(h*lu[1])]
    mon.event('grid-spacing')
    return tuple(int(x) for x in spec)


def loaded(mon, path, want, key, exact=False):
    """--save-json output as the right kind of spectrum, equal to the expected one."""
    got = type(want).from_json_file(path)
    with open(path) as f:
        mon.check(json.load(f)['__euphonic_class__'] == type(want).__name__, key + ':json-class')
    mon.event('json-loaded')
    same(mon, got, want, key + ':json')
    os.remove(path)
    return got


def same(mon, got, want, key):
    names = ['x_data', 'y_data'] + (['z_data'] if hasattr(want, 'z_data') else [])
    for n in names:
        a, b = getattr(got, n), getattr(want, n)
        if not mon.check(a.units == b.units, f'{key}:{n}-unit', f'{a.units} != {b.units}'):
            continue
        mon.close(a.magnitude, b.magnitude, f'{key}:{n}', rtol=1e-9)
    gl, wl = ([(int(i), str(t)) for i, t in (s.x_tick_labels or [])] for s in (got, want))
    mon.check(gl == wl, key + ':tick-labels', f'{gl} != {wl}')
    mon.check(meta(got) == meta(want), key + ':metadata', f'{meta(got)} != {meta(want)}')


def meta(s):
    return {k: v for k, v in s.metadata.items() if v != [] and k != 'line_data' or v and k == 'line_data'} if hasattr(s, 'metadata') else {}


# ---------------------------------------------------------------- tools

def dos(rng, mon):
    from euphonic import ureg, ForceConstants, Spectrum1DCollection
    from euphonic.util import mp_grid, mode_gradients_to_widths
    fn, kind, get = source(rng, mon, ['fc-json']*6 + ['fc-castep', 'fc-phonopy', 'fc-phonopy', 'modes-json', 'modes-json', 'qpf-json', 'phonon-file', 'yaml-modes'])
    data = get()
    argv = [fn]
    unit = energy_unit(rng, mon, argv)
    widths = None
    adaptive = kind == 'fc' and rng.random() < .5
    ad = {}
    if kind == 'fc':
        ckw = interp_options(rng, mon, argv)
        lu = length_unit(rng, mon, argv)
        g = grid_option(rng, mon, argv, data.crystal, lu)
        if adaptive:
            argv += ['--adaptive']
            mon.event('adaptive')
            modes, grads = data.calculate_qpoint_phonon_modes(mp_grid(g), return_mode_gradients=True, **ckw)
            widths = mode_gradients_to_widths(grads, modes.crystal.cell_vectors)
            if rng.random() < .5:
                ad['adaptive_method'] = 'fast'
                argv += ['--adaptive-method', 'fast']
                if rng.random() < .5:
                    ad['adaptive_error'] = float(rng.choice([.005, .03]))
                    argv += ['--adaptive-error', ad['adaptive_error']]
                if rng.random() < .5:
                    ad['adaptive_error_fit'] = 'cheby-log'
                    argv += ['--adaptive-fit', 'cheby-log']
        else:
            modes = data.calculate_qpoint_phonon_modes(mp_grid(g), **ckw)
    else:
        modes = data
    modes.frequencies_unit = unit
    f = modes.frequencies.magnitude
    fmin, fmax = f.min(), f.max()
    if not np.isfinite(f).all():
        raise core.SkipCase
    substantial(f, unit)
    eo = ebin_options(rng, mon, argv, unit, fmin, fmax)
    U = ureg(unit)
    # broadening
    inst, shape = None, 'gauss'
    if rng.random() < .65:
        if rng.random() < .4:
            shape = 'lorentz'
        argv += ['--shape', shape] if shape == 'lorentz' or rng.random() < .2 else []
        w = fmax*float(rng.uniform(.03, .1))
        poly = [w] if rng.random() < .6 else [w, float(rng.uniform(.005, .03)), float(rng.uniform(0, .01))/fmax]
        r = rng.random()
        if adaptive and r < .5 and len(poly) == 1:
            sc = float(rng.uniform(.5, 3))
            argv += [objs.pick(rng, ['--energy-broadening', '--eb']), sc]
            widths = widths*sc
        else:
            if adaptive and r < .8:
                sc = float(rng.uniform(.5, 3))
                argv += ['--adaptive-scale', sc]
                widths = widths*sc
            inst = poly
            opt = '--instrument-broadening' if adaptive and len(poly) == 1 or rng.random() < .5 else objs.pick(rng, ['--eb', '--energy-broadening'])
            argv += [opt, *[R(x) for x in poly]]
            if len(poly) > 1:
                mon.event('polynomial')
            if shape == 'lorentz':
                mon.event('lorentz')
    if inst and adaptive and shape == 'gauss':
        mon.event('adaptive-instrument')
        sig = Polynomial(inst)(f)*U.units/F
        widths = np.sqrt(widths.to(U.units)**2 + sig**2)
    weighting, pdos = None, None
    if kind != 'qpf':
        if rng.random() < .5:
            weighting = objs.pick(rng, ['coherent', 'incoherent', 'coherent-plus-incoherent', None])
            argv += [objs.pick(rng, ['--weighting', '-w']), f'{weighting}-dos' if weighting else 'dos']
            mon.event('weighting')
        if rng.random() < .5:
            sp = sorted(set(modes.crystal.atom_type))
            pdos = [str(x) for x in rng.permutation(sp)[:int(rng.integers(0, len(sp) + 1))]]
            argv += ['--pdos', *pdos]
            argv += ['--scale', '1.'] if rng.random() < .5 else []
            mon.event('pdos-species' if pdos else 'pdos')
    scale = None
    if rng.random() < .3:
        scale = float(rng.uniform(-2, 3))
        argv += [f'--scale={scale}']
        mon.event('scale')
    po = plot_options(rng, mon, argv, False)
    out = os.path.join(mon.scratch, 'o.json')
    argv += ['--save-json', out]
    if 'save' in po:
        argv += ['--save-to', os.path.join(mon.scratch, po['save'])]
    fig = run('dos', argv, mon)
    mon.event('dos')
    got = _load(out)
    e = got.x_data
    mon.check(e.units == U.units, 'dos:unit', f'{e.units}')
    check_bins(mon, e.magnitude, eo, fmin, fmax, 'dos')
    kw = {'mode_widths': widths, **ad}
    if weighting is None and pdos is None and '-dos' not in ''.join(map(str, argv[1:])).replace('--pdos', ''):
        want = modes.calculate_dos(e, **kw)
    else:
        p = modes.calculate_pdos(e, weighting=weighting, **kw)
        if pdos is None:
            want = p.sum()
        else:
            sp = p.group_by('species')
            rows = {s.metadata['species']: s.y_data for s in sp}
            if pdos:
                items = [(k, v) for k, v in rows.items() if k in pdos]
            else:
                items = [('Total', p.sum().y_data)] + list(rows.items())
            want = Spectrum1DCollection(e, np.array([v.magnitude for _, v in items])*items[0][1].units,
                                        metadata={'line_data': [{'label': k} for k, _ in items]})
    if inst and not (adaptive and shape == 'gauss'):
        if len(inst) > 1:
            pl = Polynomial(inst)
            want = want.broaden(x_width=lambda x: pl(x.to(U.units).magnitude)*U.units, shape=shape, method='convolve',
                                width_interpolation_error=ad.get('adaptive_error', .01), width_fit='cheby-log')
        else:
            want = want.broaden(inst[0]*U.units, shape=shape)
    if scale is not None:
        want = want*scale
    if not mon.check(type(got) is type(want), 'dos:json-class', type(got).__name__):
        return
    mon.check(got.y_data.units == want.y_data.units, 'dos:y-unit', f'{got.y_data.units} != {want.y_data.units}')
    mon.event('dos-adaptive-values' if adaptive else 'dos-values')
    if type(want) is Spectrum1DCollection:
        gl = [m.get('label') for m in got.iter_metadata()]
        wl = [m.get('label') for m in want.iter_metadata()]
        if not mon.check(sorted(gl) == sorted(wl), 'dos:lines', f'{gl} != {wl}'):
            return
        mon.close(got.y_data.magnitude[np.argsort(gl)], want.y_data.magnitude[np.argsort(wl)], 'dos:pdos-values', rtol=1e-9)
    else:
        mon.close(got.y_data.magnitude, want.y_data.magnitude, 'dos:values', rtol=1e-9)
    # the figure shows what was saved
    if mon.check(len(fig.axes) == 2, 'dos:axes'):
        c28.check_lines(mon, fig.axes[0], got, None, 'dos:plot', {})
        mon.close(fig.axes[0].get_ylim()[0], 0., 'dos:y-origin', atol=1e-12)
        check_plot(mon, fig, po, 'dos', 1, 'xlabel', e.units)
    saved(mon, po)


def _load(path):
    import euphonic
    import euphonic.spectra
    with open(path) as f:
        c = json.load(f)['__euphonic_class__']
    r = getattr(euphonic.spectra, c).from_json_file(path)
    os.remove(path)
    return r


def saved(mon, po):
    if 'save' in po:
        p = os.path.join(mon.scratch, po['save'])
        mon.check(os.path.exists(p) and os.path.getsize(p) > 1000, 'figure-not-saved')
        if os.path.exists(p):
            os.remove(p)
        mon.event('saved-figure')


def band_path(rng, mon, argv, fc, lu, gamma):
    """(qpts, tick labels, break indices) of the documented seekpath path."""
    import seekpath
    a = fc.crystal.cell_vectors.to('angstrom').magnitude
    b = np.linalg.norm(2*np.pi*np.linalg.inv(a), axis=0)
    h = float(np.min(b)*rng.uniform(.08, .6))
    argv += ['--q-spacing', R(h*lu[1])]
    cell = (a, fc.crystal.atom_r, [sorted(set(fc.crystal.atom_type)).index(t) for t in fc.crystal.atom_type])
    # seekpath numbers species arbitrarily
    p = seekpath.get_explicit_k_path(cell, reference_distance=h*lu[1]/lu[1])
    q, lab = p['explicit_kpoints_rel'], p['explicit_kpoints_labels']
    br = [s[0] for t, s in zip(p['explicit_segments'][:-1], p['explicit_segments'][1:]) if s[0] == t[1]]
    if any(y - x == 2 for x, y in p['explicit_segments']):
        mon.event('short-segment')
    Q, L, B = [], [], []
    for i, (x, l) in enumerate(zip(q, lab)):
        if i in br:
            B.append(len(Q))
        Q.append(x)
        L.append(l)
        if gamma and l == 'GAMMA' and 0 < i < len(q) - 1:
            Q.append(np.zeros(3))
            L.append(l)
            mon.event('doubled-gamma')
    if B:
        mon.event('breaks')
    ticks = [(i, '$\\Gamma$' if l == 'GAMMA' else l) for i, l in enumerate(L) if l]
    if len(Q) > 400:
        raise core.SkipCase
    return np.array(Q), ticks, B


def dispersion(rng, mon):
    from euphonic import ureg
    fn, kind, get = source(rng, mon, ['fc-json']*6 + ['fc-castep', 'modes-json', 'modes-json', 'qpf-json', 'qpf-json', 'phonon-file', 'yaml-modes'])
    data = get()
    argv = [fn]
    unit = energy_unit(rng, mon, argv)
    reorder = kind != 'qpf' and rng.random() < .35
    if reorder:
        argv += ['--reorder']
        mon.event('reorder')
    if kind == 'fc':
        ckw = interp_options(rng, mon, argv)
        lu = length_unit(rng, mon, argv)
        q, ticks, br = band_path(rng, mon, argv, data, lu, True)
        f = data.calculate_qpoint_phonon_modes if reorder else data.calculate_qpoint_frequencies
        bands = f(q, reduce_qpts=False, **ckw)
        split = {'indices': br}
    else:
        bands, ticks = data, None
        split = {'btol': 10.}
        if rng.random() < .4:
            split['btol'] = float(rng.choice([3., 1000.]))
            argv += ['--btol', split['btol']]
            mon.event('btol')
    bands.frequencies_unit = unit
    substantial(bands.frequencies.magnitude, unit)
    if reorder:
        bands.reorder_frequencies()
    want = bands.get_dispersion()
    if ticks is not None:
        want.x_tick_labels = ticks
    parts = want.split(**split)
    if any(np.ptp(s.x_data.magnitude) == 0 for s in parts):
        raise core.SkipCase
    o = {}
    fm = np.abs(bands.frequencies.magnitude).max()
    for k in ('emin', 'emax'):
        if rng.random() < .3:
            o[k] = float((rng.uniform(-.2, .3)*fm if rng.random() < .6 else 0.) if k == 'emin' else rng.uniform(.5, 1.5)*fm)
            argv += [f'--e-{k[1:]}={o[k]}']
            mon.event('e-range')
    po = plot_options(rng, mon, argv, False)
    out = os.path.join(mon.scratch, 'o.json')
    argv += ['--save-json', out]
    if 'save' in po:
        argv += ['-s', os.path.join(mon.scratch, po['save'])]
    fig = run('dispersion', argv, mon)
    mon.event('dispersion')
    loaded(mon, out, want, 'dispersion')
    if mon.check(len(fig.axes) == len(parts) + 1, 'dispersion:segments', f'{len(fig.axes) - 1} subplots for {len(parts)} segments'):
        for ax, s in zip(fig.axes, parts):
            c28.check_lines(mon, ax, s, None, 'dispersion:plot', {})
            for j, k in enumerate(('emin', 'emax')):
                if k in o:
                    mon.close(ax.get_ylim()[j], o[k], 'dispersion:' + k)
        check_plot(mon, fig, po, 'dispersion', len(parts), 'ylabel', ureg(unit).units)
    saved(mon, po)


def clim(rng, mon, argv, lo, hi):
    o = {}
    if rng.random() < .3:
        o['vmin'] = float(lo + rng.uniform(-.2, .3)*(hi - lo)) if hi <= 0 or rng.random() < .6 else 0.
        argv += [f'{objs.pick(rng, ["--vmin", "--v-min"])}={o["vmin"]}']
    if rng.random() < .3:
        o['vmax'] = float(lo + rng.uniform(.6, 1.2)*(hi - lo))
        argv += [f'{objs.pick(rng, ["--vmax", "--v-max"])}={o["vmax"]}']
    if o:
        mon.event('clim')
    return o


def check_maps(mon, fig, specs, z, cl, po, key, unit):
    if not mon.check(len(fig.axes) >= len(specs) + 1, key + ':axes'):
        return
    for ax, s in zip(fig.axes, specs):
        if not mon.check(len(ax.images) == 1, key + ':image'):
            return
        im = ax.images[0]
        if np.isinf(s.z_data.magnitude).any():      # no finite colour: masked by matplotlib
            continue
        c28.check_image(mon, ax, im, s, key + ':plot')
        mon.close(np.array(im.get_clim(), float), [cl.get('vmin', np.nanmin(z)), cl.get('vmax', np.nanmax(z))], key + ':clim', rtol=1e-9)
        if 'cmap' in po:
            mon.check(im.get_cmap().name == po['cmap'], key + ':cmap', im.get_cmap().name)
    check_plot(mon, fig, po, key, len(specs), 'ylabel', unit)


def intensity(rng, mon):
    from euphonic import ureg
    from euphonic.util import mp_grid, get_qpoint_labels
    fn, kind, get = source(rng, mon, ['fc-json']*7 + ['fc-castep', 'modes-json', 'modes-json', 'qpf-json', 'qpf-json', 'phonon-file', 'yaml-modes'])
    data = get()
    argv = [fn]
    unit = energy_unit(rng, mon, argv)
    U = ureg(unit).units
    lu = length_unit(rng, mon, argv)
    recip = (1/ureg(lu[0])).units
    coherent = kind != 'qpf' and rng.random() < .55
    if coherent or rng.random() < .3:
        argv += ['--weighting', 'coherent' if coherent else 'dos']
    if coherent:
        mon.event('coherent')
    dw = None
    if kind == 'fc':
        ckw = interp_options(rng, mon, argv)
        q, ticks, br = band_path(rng, mon, argv, data, lu, False)
        f = data.calculate_qpoint_phonon_modes if coherent else data.calculate_qpoint_frequencies
        modes = f(q, reduce_qpts=False, **ckw)
        split = {'indices': br}
        if coherent and rng.random() < .5:
            T = float(rng.choice([0., 0., 5., 100., 300.]))
            argv += ['--temperature', T]
            mon.event('zero-temperature', T == 0)
            g = grid_option(rng, mon, argv, data.crystal, lu)
            dw = data.calculate_qpoint_phonon_modes(mp_grid(g), **ckw).calculate_debye_waller(T*ureg('K'))
            mon.event('temperature')
    else:
        modes = data
        split = {'btol': 10.}
        if rng.random() < .4:
            split['btol'] = float(rng.choice([4., 1000.]))
            argv += ['--btol', split['btol']]
            mon.event('btol')
        ticks = get_qpoint_labels(modes.qpts, cell=modes.crystal.to_spglib_cell())
    modes.frequencies_unit = unit
    f = modes.frequencies.magnitude
    fmin, fmax = f.min(), f.max()
    substantial(f, unit)
    eo = ebin_options(rng, mon, argv, unit, fmin, fmax)
    qb = yb = None
    shape = 'gauss'
    if rng.random() < .5:
        if rng.random() < .4:
            shape = 'lorentz'
            argv += ['--shape', shape]
        if rng.random() < .5:
            qb = float(rng.uniform(.02, .3)*lu[1])
            argv += [objs.pick(rng, ['--q-broadening', '--qb']), R(qb)]
            mon.event('q-broadening')
        if rng.random() < .7:
            yb = [fmax*float(rng.uniform(.03, .1))]
            if rng.random() < .4 and kind == 'fc' and shape == 'gauss':
                yb += [float(rng.uniform(.005, .03))]
                mon.event('polynomial')
            argv += [objs.pick(rng, ['--eb', '--energy-broadening']), *map(R, yb)]
    scale = None
    if rng.random() < .3:
        scale = float(rng.choice([-1., 1.]))*float(rng.uniform(.2, 5))
        argv += [f'--scale={scale}']
        mon.event('scale')
    po = plot_options(rng, mon, argv, True)
    out = os.path.join(mon.scratch, 'o.json')
    argv += ['--save-json', out]
    if 'save' in po:
        argv += ['--save-to', os.path.join(mon.scratch, po['save'])]

    def expected(e):
        if coherent:
            s = modes.calculate_structure_factor(dw=dw).calculate_sqw_map(e)
        else:
            s = modes.calculate_dos_map(e)
        if qb or yb:
            if yb is not None and len(yb) > 1:
                pl = Polynomial(yb)
                yw = lambda x: pl(x.to(U).magnitude)*U
            else:
                yw = yb[0]*U if yb else None
            s = s.broaden(x_width=qb*recip if qb else None, y_width=yw, shape=shape, method='convolve')
        if ticks:
            s.x_tick_labels = ticks
        return s*scale if scale is not None else s
    lo = eo.get('emin', min(fmin, 0))
    trial = expected(np.linspace(lo, eo.get('emax', fmax*1.05), eo.get('ebins', 200) + 1)*U).z_data.magnitude
    if not np.nanmin(trial) < np.nanmax(trial):
        raise core.SkipCase
    cl = clim(rng, mon, argv, np.nanmin(trial), np.nanmax(trial))
    parts0 = expected(np.linspace(lo, eo.get('emax', fmax*1.05), eo.get('ebins', 200) + 1)*U).split(**split)
    if any(len(p.x_data) < 3 for p in parts0):
        # degenerate subplots, see known finding of C24
        raise core.SkipCase
    fig = run('intensity_map', argv, mon)
    mon.event('intensity')
    got = _load(out)
    e = got.y_data
    mon.check(e.units == U, 'intensity:unit', f'{e.units}')
    check_bins(mon, e.magnitude, eo, fmin, fmax, 'intensity')
    want = expected(e)
    same(mon, got, want, 'intensity:json')
    parts = want.split(**split)
    z = np.concatenate([p.z_data.magnitude.ravel() for p in parts])
    if mon.check(len(fig.axes) == len(parts) + 1, 'intensity:segments', f'{len(fig.axes) - 1} subplots for {len(parts)} segments'):
        check_maps(mon, fig, parts, z, cl, po, 'intensity', U)
    saved(mon, po)


SAMPLE = {'golden': 'golden', 'sphere-projected-grid': 'sphere-projected-grid', 'spherical-polar-grid': 'spherical-polar-grid',
          'spherical-polar-improved': 'spherical-polar-improved', 'random-sphere': 'random-sphere'}


def powder(rng, mon):
    from euphonic import ureg, Spectrum2D
    from euphonic.util import mp_grid
    from euphonic.powder import sample_sphere_dos, sample_sphere_pdos, sample_sphere_structure_factor
    from euphonic.spectra import apply_kinematic_constraints
    fn, kind, get = source(rng, mon, ['fc-json']*9 + ['fc-castep'])
    fc = get()
    argv = [fn]
    unit = energy_unit(rng, mon, argv)
    U = ureg(unit).units
    lu = length_unit(rng, mon, argv)
    recip = (1/ureg(lu[0])).units
    ckw = interp_options(rng, mon, argv)
    brille = mon.case['i'] % 14 == 3 and fc.crystal.n_atoms > 1
    if brille:
        from euphonic.brille import BrilleInterpolator
        mon.event('brille')
        n = int(rng.choice([50, 120]))
        argv += ['--use-brille', '--brille-npts', n]
        bkw = {'grid_npts': n, 'grid_type': 'trellis', 'grid_density': None}
        if rng.random() < .5:
            bkw['grid_type'] = 'nest'
            argv += ['--brille-grid-type', 'nest']
        calc = BrilleInterpolator.from_force_constants(fc, interpolation_kwargs=dict(ckw), **bkw)
        kw = {} if ckw['n_threads'] is None else {'useparallel': ckw['n_threads'] > 1, 'threads': ckw['n_threads']}
    else:
        calc, kw = fc, ckw
    q0 = float(rng.uniform(.1, 1)) if rng.random() < .6 else 0.
    nq = int(rng.integers(2, 6))
    dq = float(rng.uniform(.2, .8))
    q1 = q0 + dq*(nq - float(rng.uniform(.1, .9)))
    argv += ['--q-min', R(q0*lu[1]), '--q-max', R(q1*lu[1]), '--q-spacing', R(dq*lu[1])]
    sampling = objs.pick(rng, list(SAMPLE) + ['golden', None])
    if sampling:
        argv += ['--sampling', sampling]
    jitter = rng.random() < .3
    if jitter:
        argv += ['--jitter']
        mon.event('jitter')
    npts = None
    if rng.random() < .5:
        npts = int(rng.integers(20, 60))
        argv += [objs.pick(rng, ['--npts', '-n']), npts]
    else:
        dens, mn, mx = int(rng.integers(5, 40)), int(rng.integers(10, 25)), int(rng.integers(40, 70))
        argv += ['--npts-density', int(dens), '--npts-min', mn, '--npts-max', mx]
        mon.event('npts-density')
    weighting, pdos, dw, T = 'dos', None, None, None
    r = rng.random()
    if r < .45:
        weighting = 'coherent'
        mon.event('coherent')
        if rng.random() < .5:
            T = float(rng.choice([0., 0., 5., 100., 300.]))
            argv += ['--temperature', T]
            mon.event('zero-temperature', T == 0)
            g = grid_option(rng, mon, argv, fc.crystal, lu)
            dw = calc.calculate_qpoint_phonon_modes(mp_grid(g), **kw).calculate_debye_waller(T*ureg('K'))
            mon.event('temperature')
    elif r < .7:
        weighting = objs.pick(rng, ['coherent-dos', 'incoherent-dos', 'coherent-plus-incoherent-dos'])
        mon.event('weighting')
    if weighting != 'coherent' and rng.random() < .35:
        pdos = str(rng.choice(sorted(set(fc.crystal.atom_type))))
        argv += ['--pdos', pdos]
        mon.event('pdos-species')
    argv += ['--weighting', weighting]
    f = calc.calculate_qpoint_frequencies(np.array([[0., 0., .5]]), **kw)
    f.frequencies_unit = unit
    fmax = float(f.frequencies.magnitude.max())
    substantial(f.frequencies.magnitude, unit)
    fmin = float(f.frequencies.magnitude.min())
    eo = ebin_options(rng, mon, argv, unit, fmin, fmax)
    kin = None
    if rng.random() < .3:
        which = objs.pick(rng, ['e_i', 'e_f'])
        kin = {which: float(fmax*rng.uniform(.8, 2))}
        argv += [{'e_i': objs.pick(rng, ['--e-incident', '--e-i']), 'e_f': objs.pick(rng, ['--e-final', '--e-f'])}[which], R(kin[which])]
        if rng.random() < .6:
            kin['angle_range'] = [float(rng.uniform(0, 40)), float(rng.uniform(90, 170))]
            argv += ['--angle-range', *kin['angle_range']]
        mon.event('kinematic')
    qb = yb = None
    shape = 'gauss'
    if rng.random() < .5:
        if rng.random() < .4:
            shape = 'lorentz'
            argv += ['--shape', shape]
        if rng.random() < .5:
            qb = [float(rng.uniform(.2, .6)*lu[1])]
            if rng.random() < .4 and shape == 'gauss':
                qb += [float(rng.uniform(.02, .1))]
                mon.event('q-polynomial')
            argv += [objs.pick(rng, ['--q-broadening', '--qb']), *map(R, qb)]
            mon.event('q-broadening')
        if rng.random() < .7 and not (qb and len(qb) > 1):
            yb = [fmax*float(rng.uniform(.03, .1))]
            if rng.random() < .4 and shape == 'gauss' and qb is None:
                yb += [float(rng.uniform(.005, .03))]
                mon.event('polynomial')
            argv += [objs.pick(rng, ['--eb', '--energy-broadening']), *map(R, yb)]
    scale = None
    if rng.random() < .3:
        scale = float(rng.uniform(.2, 5))
        argv += [f'--scale={scale}']
        mon.event('scale')
    po = plot_options(rng, mon, argv, True)
    cl = {}
    if rng.random() < .3:
        cl = {'vmin': float(-rng.uniform(0, 3)) if rng.random() < .6 else 0., 'vmax': float(10**rng.uniform(-6, 3))}
        argv += [f'--vmin={cl["vmin"]!r}', '--vmax', cl['vmax']]
        mon.event('clim')
    widgets = rng.random() < .3
    if not widgets:
        argv += ['--no-widgets']
    out = os.path.join(mon.scratch, 'o.json')
    argv += ['--save-json', out]
    if 'save' in po:
        argv += ['--save-to', os.path.join(mon.scratch, po['save'])]

    def expected(x, e):
        np.random.seed(7)
        xc = (x[1:] + x[:-1])/2
        z = []
        for q in xc:
            if npts is None:
                n = max(mn, min(mx, int(np.ceil(dens*q**2))))
            else:
                n = npts
            k = dict(npts=n, sampling=SAMPLE[sampling or 'golden'], jitter=jitter, energy_bins=e, **kw)
            if weighting == 'coherent':
                s = sample_sphere_structure_factor(calc, q*recip, dw=dw, temperature=None if T is None else T*ureg('K'), **k)
            elif weighting == 'dos' and pdos is None:
                s = sample_sphere_dos(calc, q*recip, **k)
            else:
                s = sample_sphere_pdos(calc, q*recip, weighting=None if weighting == 'dos' else weighting[:-4], **k)
                s = s.select(species=pdos).sum() if pdos else s.sum()
            z.append(s.y_data.magnitude)
        s = Spectrum2D(x*recip, e, np.array(z)*s.y_data.units)
        if qb or yb:
            if yb is not None and len(yb) > 1:
                pl = Polynomial(yb)
                yw = lambda v: pl(v.to(U).magnitude)*U
            else:
                yw = yb[0]*U if yb else None
            if qb and len(qb) > 1:
                pq = Polynomial(qb)
                qw = lambda v: pq(v.to(recip).magnitude)*recip
            else:
                qw = qb[0]*recip if qb else None
            s = s.broaden(x_width=qw, y_width=yw, shape=shape)
        if kin:
            s = apply_kinematic_constraints(s, **{k: (v*U if k != 'angle_range' else v) for k, v in kin.items()})
        return s*scale if scale is not None else s
    boxes, limits = [], []
    import matplotlib.pyplot as plt
    import matplotlib.widgets as mw
    Real, show = mw.TextBox, plt.show

    class Box(Real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            boxes.append(self)

    def use(*a, **k):
        # what a user does while the window is open: type new limits
        if len(boxes) == 2:
            im = plt.gcf().axes[0].images[0]
            old = im.get_clim()
            boxes[0].set_val('-0.25')
            boxes[1].set_val('7.5')
            limits.append(im.get_clim())
            im.set_clim(*old)
    mw.TextBox, plt.show = Box, use
    try:
        fig = run('powder_map', argv, mon)
    finally:
        mw.TextBox, plt.show = Real, show
    if widgets and 'save' not in po:
        mon.event('widgets')
        if mon.check(len(limits) == 1, 'powder:widgets', f'{len(boxes)} boxes'):
            mon.close(np.array(limits[0]), np.array([-.25, 7.5]), 'powder:widget-limits', rtol=1e-12)
    elif not widgets:
        mon.check(not boxes, 'powder:no-widgets', f'{len(boxes)} boxes')
    mon.event('powder')
    got = _load(out)
    x, e = got.x_data, got.y_data
    mon.check(e.units == U and x.units == recip, 'powder:unit', f'{x.units} {e.units}')
    o2 = dict(eo)
    if kin and 'e_i' in kin and 'emax' not in eo:
        o2['emax'] = kin['e_i']
    check_bins(mon, e.magnitude, o2, fmin, fmax, 'powder')
    if mon.check(len(x) == nq + 1, 'powder:number-of-shells', f'{len(x) - 1}, expected {nq}'):
        mon.close(x.magnitude, np.linspace(q0, q1, nq + 1)*lu[1], 'powder:q-bins', rtol=1e-9)
    want = expected(x.magnitude, e)
    same(mon, got, want, 'powder:json')
    z = want.z_data.magnitude
    if np.isfinite(z).any():
        check_maps(mon, fig, [want], z, cl, po, 'powder', U)
    saved(mon, po)


def sampling(rng, mon):
    import euphonic.sampling as es
    import matplotlib.pyplot as plt
    name = ['golden-square', 'regular-square', 'recurrence-square', 'golden-sphere', 'sphere-from-square-grid', 'spherical-polar-grid',
            'spherical-polar-improved', 'random-sphere', 'recurrence-cube'][mon.case['i'] % 9]
    n = int(rng.integers(5, 120))
    jitter = rng.random() < .4
    fig = run('show_sampling', [n, name] + (['--jitter'] if jitter else []), mon)
    mon.event('sampling')
    np.random.seed(7)
    k = int(np.ceil(np.sqrt(n)))
    h = int(np.ceil(np.sqrt(n/2)))
    want = np.array(list({
        'golden-square': lambda: es.golden_square(n, jitter=jitter),
        'regular-square': lambda: es.regular_square(k, k, jitter=jitter),
        'recurrence-square': lambda: es.recurrence_sequence(n, order=2),
        'golden-sphere': lambda: es.golden_sphere(n, jitter=jitter),
        'sphere-from-square-grid': lambda: es.sphere_from_square_grid(2*h, h, jitter=jitter),
        'spherical-polar-grid': lambda: es.spherical_polar_grid(2*h, h, jitter=jitter),
        'spherical-polar-improved': lambda: es.spherical_polar_improved(n, jitter=jitter),
        'random-sphere': lambda: es.random_sphere(n),
        'recurrence-cube': lambda: es.recurrence_sequence(n, order=3)}[name]()))
    c = fig.axes[0].collections
    if not mon.check(len(c) == 1, 'sampling:collections', f'{len(c)}'):
        return
    got = np.array(c[0].get_offsets()) if want.shape[1] == 2 else np.array(c[0]._offsets3d).T
    mon.close(np.asarray(got, float), want, 'sampling:points', rtol=1e-9, atol=1e-12)
    mon.check(len(got) >= n, 'sampling:too-few')


def optimise(rng, mon):
    from euphonic import ForceConstants
    from euphonic.cli.optimise_dipole_parameter import calculate_optimum_dipole_parameter, main
    fn, kind, get = source(rng, mon, ['fc-json', 'fc-castep'])
    calls = []
    orig = ForceConstants.calculate_qpoint_phonon_modes

    def spy(self, q, **kw):
        calls.append((np.array(q), kw))
        return orig(self, q, **kw)
    lo, step, k = float(rng.uniform(.2, .6)), float(rng.uniform(.1, .4)), int(rng.integers(1, 5))
    hi = lo + step*(k - 1) + float(rng.choice([0., .5]))*step
    n = int(rng.integers(2, 9))
    kw = {'asr': objs.pick(rng, [None, 'reciprocal', 'realspace']), 'use_c': objs.pick(rng, [None, False]), 'n_threads': objs.pick(rng, [None, 2])}
    ForceConstants.calculate_qpoint_phonon_modes = spy
    try:
        r = calculate_optimum_dipole_parameter(fn, dipole_parameter_min=lo, dipole_parameter_max=hi, dipole_parameter_step=step, n=n, **kw)
        first = list(calls)
        calls.clear()
        argv = [fn, '-n', n, '--min', lo, '--max', hi, '--step', step] + (['--asr', kw['asr']] if kw['asr'] else [])
        main([R(a) if isinstance(a, float) else str(a) for a in argv])
        second = list(calls)
    finally:
        ForceConstants.calculate_qpoint_phonon_modes = orig
    mon.event('optimise')
    opt, ti, tq, dp, tis, tqs = r
    mon.close(np.array(dp), lo + step*np.arange(k), 'optimise:parameters', rtol=1e-9)
    j = int(np.argmin(tqs))
    mon.check(opt == dp[j] and tq == tqs[j] and ti == tis[j], 'optimise:not-the-fastest')
    mon.check(len(tis) == k and len(tqs) == k and (np.array(tqs) > 0).all(), 'optimise:times')
    for what, cs in (('api', first), ('main', second)):
        for x in lo + step*np.arange(k):
            own = [c for c in cs if abs(c[1].get('dipole_parameter', 1.) - x) < 1e-9]
            mon.check(own and sum(len(c[0]) for c in own) >= n, f'optimise:{what}:not-tried', f'{x}')
            mon.check(all(c[1].get('asr') == kw['asr'] for c in own), f'optimise:{what}:asr')


def convergence(rng, mon):
    from euphonic import ureg, Spectrum1D
    import matplotlib.pyplot as plt
    from euphonic.brille import BrilleInterpolator
    import euphonic.sampling as es
    fn, kind, get = source(rng, mon, ['fc-json'])
    fc = get()
    if fc.crystal.n_atoms < 2:
        raise core.SkipCase
    mon.event('convergence')
    n, ns = 20, int(rng.integers(0, 3))
    by = mon.case['i'] % 2
    bzv = np.linalg.det(fc.crystal.reciprocal_cell().to('1/angstrom').magnitude)
    opt, grids, key = ('--brille-npts', (50, 100), 'grid_npts') if by else (
        '--brille-npts-density', tuple(int(x/bzv) + 1 for x in (50, 100)), 'grid_density')
    mon.event('convergence-density', not by)
    argv = [fn, '--npts', n, opt, *grids]
    if ns:
        argv += ['-n', ns]
        mon.event('convergence-slices')
    unit = energy_unit(rng, mon, argv)
    ckw = interp_options(rng, mon, argv)
    argv = [a for j, a in enumerate(argv) if a != '--title' and (j == 0 or argv[j-1] != '--title')]
    q = np.array(list(es.recurrence_sequence(n, order=3)))
    modes = fc.calculate_qpoint_phonon_modes(q, **ckw)
    modes.frequencies_unit = unit
    f = modes.frequencies.magnitude
    substantial(f, unit)
    eo = ebin_options(rng, mon, argv, unit, f.min(), f.max())
    U, w, shape = ureg(unit).units, None, 'gauss'
    if rng.random() < .8:
        w = [f.max()*float(rng.uniform(.03, .1))]
        mon.event('convergence-broadening')
        if mon.case['i'] % 4 < 2:
            w += [float(rng.uniform(.005, .03))]
            mon.event('convergence-polynomial')
        elif rng.random() < .5:
            shape = 'lorentz'
            argv += ['--shape', shape]
        argv += [objs.pick(rng, ['--eb', '--energy-broadening']), *map(R, w)]
    run('brille_convergence', argv, mon)
    figs = [plt.figure(i) for i in plt.get_fignums()]
    if not mon.check(len(figs) == 3 + ns, 'convergence:figures', f'{len(figs)}'):
        return
    ax = figs[0].axes[0]
    bkw = {} if ckw['n_threads'] is None else {'useparallel': ckw['n_threads'] > 1, 'threads': ckw['n_threads']}
    if not mon.check(len(ax.get_lines()) == 2, 'convergence:lines', f'{len(ax.get_lines())}'):
        return
    bro = {} if w is None else {'x_width': (lambda p: lambda v: p(v.to(U).magnitude)*U)(Polynomial(w)) if len(w) > 1 else w[0]*U, 'shape': shape}
    xy = lambda l: (np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))

    def curves(m):
        s = m.calculate_structure_factor()
        m2 = s.calculate_sqw_map(ebins)
        r = [s.calculate_1d_average(ebins)] + [Spectrum1D(m2.y_data, m2.z_data[k + 1]) for k in range(ns)]
        return [(c.broaden(**bro) if bro else c).y_data.magnitude for c in r]
    # the bins are not drawn, only their centres
    c = xy(figs[2].axes[0].get_lines()[0])[0]
    h = (c[-1] - c[0])/(len(c) - 1)
    edges = np.linspace(c[0] - h/2, c[-1] + h/2, len(c) + 1)
    check_bins(mon, edges, eo, f.min(), f.max(), 'convergence')
    ebins = edges*U
    # modes within rounding of an edge of the reconstructed bins cannot be judged
    def clear(m):
        g = m.frequencies.to(unit).magnitude.ravel()
        return np.min(np.abs(np.abs(g)[:, None] - np.abs(edges)[None])) > 1e-7*h
    ok = clear(modes)
    ref_ = curves(modes)
    for l, g, k in zip(ax.get_lines(), grids, range(2)):
        b = BrilleInterpolator.from_force_constants(fc, interpolation_kwargs=dict(ckw), **{key: g})
        m = b.calculate_qpoint_phonon_modes(q, **bkw)
        m.frequencies_unit = unit
        mon.close(xy(l)[0], f.ravel(), 'convergence:frequencies', rtol=1e-9, atol=1e-9*np.abs(f).max())
        mon.close(xy(l)[1], (m.frequencies - modes.frequencies).magnitude.ravel(), 'convergence:residual', rtol=1e-6,
                  atol=1e-6*np.abs(f).max())
        if not (ok and clear(m)):
            continue
        for fig, r, y in zip(figs[2:], ref_, curves(m)):
            top, low = (a.get_lines() for a in fig.axes[:2])
            tol = 1e-5*np.abs(r).max()
            if mon.check(len(top) == 3 and len(low) == 2, 'convergence:intensity-lines', f'{len(top)} {len(low)}'):
                mon.close(xy(top[0])[1], r, 'convergence:intensity', rtol=1e-6, atol=tol)
                mon.close(xy(top[k + 1])[1], y, 'convergence:interpolated-intensity', rtol=1e-6, atol=tol)
                mon.close(xy(low[k])[1], y - r, 'convergence:intensity-residual', rtol=1e-6, atol=2*tol)


def refuse(rng, mon):
    """Option combinations documented as errors."""
    mon.event('refusal')
    def bad(tool, argv, exc, key):
        mon.raises(lambda: run(tool, argv, mon), exc, 'refuse:' + key)
    qf, _, _ = source(rng, mon, ['qpf-json'])
    qf2 = os.path.join(mon.scratch, 'qpf.json')
    os.replace(qf, qf2)
    bad('dos', [qf2, '--pdos'], TypeError, 'pdos-without-eigenvectors')
    bad('dos', [qf2, '-w', 'coherent-dos'], TypeError, 'weighting-without-eigenvectors')
    bad('dispersion', [qf2, '--reorder'], TypeError, 'reorder-without-eigenvectors')
    bad('intensity_map', [qf2, '--weighting', 'coherent'], TypeError, 'coherent-without-eigenvectors')
    bad('dos', [qf2, '--adaptive'], TypeError, 'adaptive-without-force-constants')
    bad('powder_map', [qf2], TypeError, 'powder-without-force-constants')
    bad('optimise_dipole_parameter', [qf2], TypeError, 'optimise-without-force-constants')
    bad('dos', [qf2, '--e-min', '100', '--e-max', '50'], ValueError, 'empty-energy-range')
    bad('dos', [qf2, '--eb', '1', '--instrument-broadening', '2'], ValueError, 'two-widths')
    mf, _, _ = source(rng, mon, ['modes-json'])
    bad('intensity_map', [mf, '--weighting', 'coherent', '--temperature', '10'], TypeError, 'temperature-without-force-constants')
    bad('dos', [mf, '--adaptive'], TypeError, 'adaptive-with-modes')
    ff, _, _ = source(rng, mon, ['fc-json'])
    bad('dos', [ff, '--grid', 1, 1, 1, '--adaptive', '--eb', '1', '--adaptive-scale', '2'], ValueError, 'two-scales')
    bad('powder_map', [ff, '--pdos', 'Si', '--weighting', 'coherent'], ValueError, 'pdos-of-coherent')
    lone = os.path.join(mon.scratch, 'lone')
    os.makedirs(lone, exist_ok=True)
    shutil.copy(os.path.join(load.TESTDATA, 'phonopy_files', 'NaCl', 'force_constants.hdf5'), os.path.join(lone, 'force_constants.hdf5'))
    bad('dos', [os.path.join(lone, 'force_constants.hdf5'), '--grid', 1, 1, 1], ValueError, 'phonopy-force-constants-without-summary')
    bad('brille_convergence', [qf2], TypeError, 'convergence-without-force-constants')
    bad('dispersion', [ff, '--length-unit', 'nonsense'], Exception, 'unknown-length-unit')
    for tool in ('dos', 'dispersion', 'intensity_map', 'powder_map'):
        bad(tool, [ff, '--energy-unit', 'kg'] + (['--grid', 1, 1, 1] if tool == 'dos' else []), Exception, 'wrong-unit:' + tool)
        t = os.path.join(mon.scratch, 'x.txt')
        open(t, 'w').write('{}')
        bad(tool, [t], ValueError, 'unknown-extension:' + tool)
        t2 = os.path.join(mon.scratch, 'x.json')
        open(t2, 'w').write('{"a": 1}')
        bad(tool, [t2], ValueError, 'unknown-json:' + tool)
        bad(tool, [ff, '--use-c', '--disable-c'], SystemExit, 'both-c-options:' + tool)
        bad(tool, [ff, '--weighting' if tool != 'dispersion' else '--asr', 'nonsense'], SystemExit, 'unknown-choice:' + tool)


APART = {'runs': 0, 'died': 0}


def run_case(spec, mon):
    if spec['kind'] == 'convergence' or spec['kind'] == 'powder' and spec['i'] % 14 == 3:
        # brille, a dependency, may die in its own threads
        APART['runs'] += 1
        if not childcase.run_apart(__name__, spec, mon):
            APART['died'] += 1
            mon.event('brille-died')
            raise core.SkipCase
    else:
        run_here(spec, mon)
    if spec['i'] == 0:
        mon.sample(spec)


def teardown(mon):
    if APART['runs'] >= 6:
        mon.check(APART['died'] <= .7*APART['runs'], 'crashes', f'{APART["died"]} of {APART["runs"]} processes died')


def run_here(spec, mon):
    import io
    import contextlib
    import matplotlib.pyplot as plt
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    plt.rcParams['figure.max_open_warning'] = 0
    if spec['kind'] in ('powder', 'convergence'):
        brillesafe.install()
    err = io.StringIO()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            globals()[spec['kind']](rng, mon)
    except RuntimeError as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        if not (type(e) is RuntimeError and (os.path.basename(last.filename) == 'brille.py' or '/brille/' in last.filename)):
            raise
        mon.event('brille-gave-up')         # raised by the extension module of brille, a dependency
    except SystemExit as e:
        mon.fail(spec['kind'] + ':options-rejected', f'{e}: {err.getvalue()[-300:]}')
    finally:
        plt.close('all')
    mon.evaluated((spec['kind'], spec['i']))
