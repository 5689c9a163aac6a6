"""C28: plots show the data they are given."""
import numpy as np
from .. import core, objs

RULE = ('random spectra, collections and split sequences (point and bin-edge data, equal and unequal spacing, repeated abscissae, NaNs, '
        'negative data, every unit, tick labels, metadata labels, explicit labels, limits, titles, styles) drawn with plot_1d, plot_2d and the '
        'axis variants on the Agg canvas; every artist (line coordinates, order, colours, segment breaks, legend, limits, ticks, widths of '
        'subplots, image centres, values, extent, colour limits) is read back, and rendered pixels of images are compared with the colour '
        'of the nearest data point; distinct by (case)')
ASSUMPTIONS = ['of several labels at one abscissa only one is shown', 'more than ten lines may repeat colours', 'tick labels refer to indices of x_data', 'images judged with nearest interpolation']
REQUIRED_EVENTS = ['mixed-units', 'plot_1d', 'plot_1d_to_axis', 'plot_2d', 'plot_2d_to_axis', 'subplots', 'breaks', 'bin-edges', 'points', 'ticks', 'legend',
                   'explicit-labels', 'collection', 'pixels', 'clim-given', 'clim-auto', 'refusal', 'nan', 'limits', 'from-split', 'rotated-ticks', 'fine-axis']


def cases(tier, seed):
    n = {'quick': 56, 'thorough': 1200}[tier]
    return [{'kind': k, 'i': i} for i in range(n) for k in ('lines', 'lines', 'axis', 'image', 'refuse')]


def centres(s, ax='x'):
    x = getattr(s, f'{ax}_data').magnitude
    n = data(s).shape[-1 if ax == 'y' or not hasattr(s, 'z_data') else -2]
    return (x[1:] + x[:-1])/2 if len(x) == n + 1 else x


def edges(x, n):
    if len(x) == n + 1:
        return x
    m = (x[1:] + x[:-1])/2
    return np.concatenate([[x[0]], m, [x[-1]]])


def data(s):
    return (s.z_data if hasattr(s, 'z_data') else s.y_data).magnitude


def labels_of(rng, n):
    if rng.random() < .35:
        return None
    k = sorted(int(x) for x in rng.choice(n, int(rng.integers(0, min(n, 4) + 1)), replace=False))
    return [(i, str(rng.choice(['X', '$\\Gamma$', 'K', '', 'L|U', 'M \u0394', 'long label 123', 'eleven char']))) for i in k]


def decorate(rng, s):
    n = len(s.x_data)
    s.x_tick_labels = labels_of(rng, n)
    return s


def spec1d(rng, mon, n=None, xu=None, yu=None, coll=None, edges_=None, m=None):
    coll = rng.random() < .5 if coll is None else coll
    f = objs.spectrum1dcollection if coll else objs.spectrum1d
    kw = {'m': m or int(rng.integers(1, 9))} if coll else {}
    s = f(rng, n=n or int(rng.integers(3, 30)), xu=xu, yu=yu, nan=True, edges=edges_, **kw)
    if np.isnan(data(s)).any():
        mon.event('nan')
    pts = len(s.x_data) == data(s).shape[-1]
    if rng.random() < .25:
        # points much closer together than their distance from zero, or all of them close to zero
        x = s.x_data.magnitude
        x = x/np.ptp(x)*1e-8 if rng.random() < .5 else 7 + x/np.ptp(x)*1e-5*len(x)
        s.x_data = x*s.x_data.units
        mon.event('fine-axis')
    if pts and rng.random() < .4:
        # repeated abscissae mark discontinuities of a band path
        x = s.x_data.copy()
        for j in sorted(set(int(v) for v in rng.integers(1, len(x) - 1, int(rng.integers(1, 4)))))[::-1]:
            x[j] = x[j-1]
        s.x_data = x
        mon.event('breaks')
    mon.event('points' if pts else 'bin-edges')
    return decorate(rng, s)


def rows(s):
    """[(values, label)] drawn for a spectrum"""
    d = data(s)
    if d.ndim == 1:
        return [(d, s.metadata.get('label'))]
    common = {k: v for k, v in s.metadata.items() if k != 'line_data'}
    lines = s.metadata.get('line_data', [{}]*len(d))
    return [(r, {**common, **l}.get('label')) for r, l in zip(d, lines)]


def check_ticks(mon, ax, s, key):
    if s.x_tick_labels is None:
        return
    mon.event('ticks')
    loc = [i for i, _ in s.x_tick_labels]
    txt = [l for _, l in s.x_tick_labels]
    mon.close(np.array(ax.get_xticks(), float), s.x_data.magnitude[loc] if loc else np.zeros(0), key + ':tick-positions', rtol=1e-12)
    got = [t.get_text() for t in ax.get_xticklabels()]
    # labels of coincident points cannot all be shown by matplotlib
    pos = s.x_data.magnitude[loc] if loc else []
    ok = len(got) == len(txt) and all(g in {t for t, x in zip(txt, pos) if x == p} for g, p in zip(got, pos))
    mon.check(ok, key + ':tick-labels', f'{got} != {txt}')
    rot = max(map(len, txt), default=0) >= 11
    if rot:
        mon.event('rotated-ticks')


def check_lines(mon, ax, s, labels, key, kwargs, first=0, before=0):
    """The lines of one axis, starting at line index before."""
    import matplotlib.colors as mc
    x, r = centres(s), rows(s)
    if labels is not None:
        r = [(v, l) for (v, _), l in zip(r, labels)]
    xd = s.x_data.magnitude
    br = [int(j) + 1 for j in np.where(xd[:-1] == xd[1:])[0]]
    segs = list(zip([0] + br, br + [None]))
    lines = ax.get_lines()[before:]
    if not mon.check(len(lines) == len(r)*len(segs), key + ':number-of-lines', f'{len(lines)} lines for {len(r)} spectra of {len(segs)} segments'):
        return
    k, colours = 0, []
    for v, lab in r:
        for a, b in segs:
            l = lines[k]
            mon.close(np.asarray(l.get_xdata(orig=True), float), x[a:b], key + ':x', rtol=1e-12)
            mon.close(np.asarray(l.get_ydata(orig=True), float), v[a:b], key + ':y', rtol=1e-12)
            shown = l.get_label()
            if a == 0 and lab and not str(lab).startswith('_'):
                mon.check(shown == str(lab), key + ':label', f'{shown!r} != {lab!r}')
            else:
                mon.check(shown.startswith('_'), key + ':extra-label', f'{shown!r}')
            c = mc.to_hex(l.get_color())
            if a == 0:
                colours.append(c)
            else:
                mon.check(c == colours[-1], key + ':segment-colour', 'segments of one spectrum differ in colour')
            for p, val in kwargs.items():
                got = getattr(l, 'get_' + p)()
                mon.check(got == val, key + ':style', f'{p}: {got} != {val}')
            k += 1
    if 'color' not in kwargs and len(r) <= 10:
        mon.check(len(set(colours)) == len(colours), key + ':colours', f'{colours}')
    mon.close(np.array(ax.get_xlim()), [np.min(xd), np.max(xd)], key + ':xlim', rtol=1e-12, atol=1e-14)
    check_ticks(mon, ax, s, key)


def style(rng):
    kw = {}
    if rng.random() < .3:
        kw['linestyle'] = objs.pick(rng, ['--', ':', '-.'])
    if rng.random() < .3:
        kw['linewidth'] = float(rng.uniform(.5, 4))
    if rng.random() < .2:
        kw['color'] = objs.pick(rng, ['red', 'k', '#12ab3f'])
    return kw


def words(rng):
    return {k: objs.pick(rng, ['Energy / meV', 'q', 'A $\\nu$', '']) for k in ('title', 'xlabel', 'ylabel') if rng.random() < .5}


def check_words(mon, fig, w, key):
    ax = fig.axes[-1]
    mon.check(ax.get_xlabel() == w.get('xlabel', ''), key + ':xlabel', ax.get_xlabel())
    mon.check(ax.get_ylabel() == w.get('ylabel', ''), key + ':ylabel', ax.get_ylabel())
    t = fig._suptitle.get_text() if fig._suptitle is not None else ''
    mon.check(t == w.get('title', ''), key + ':title', t)


def check_widths(mon, fig, n, widths, key):
    pos = [a.get_position() for a in fig.axes[:n]]
    got = np.array([p.x1 - p.x0 for p in pos])
    mon.close(got/got.sum(), np.array(widths)/np.sum(widths), key + ':subplot-widths', rtol=1e-6)
    mon.check(all(a.x1 <= b.x0 + 1e-9 for a, b in zip(pos[:-1], pos[1:])), key + ':subplot-order')


def lines(rng, mon):
    from euphonic.plot import plot_1d
    import matplotlib.pyplot as plt
    many = rng.random() < .55
    xu, yu = objs.pick(rng, objs.XUNITS), objs.pick(rng, objs.YUNITS)
    if many and rng.random() < .4:
        s = spec1d(rng, mon, n=int(rng.integers(8, 30)), edges_=False)
        cut = sorted(set(int(v) for v in rng.integers(2, len(s.x_data) - 2, int(rng.integers(1, 3)))))
        cut = [c for i, c in enumerate(cut) if i == 0 or c - cut[i-1] > 1]
        specs = s.split(indices=cut)
        if any(np.ptp(p.x_data.magnitude) == 0 for p in specs):
            raise core.SkipCase
        mon.event('from-split')
    elif many:
        n, coll = int(rng.integers(2, 5)), rng.random() < .5
        m = int(rng.integers(1, 5))
        specs = [spec1d(rng, mon, xu=xu, yu=yu, coll=coll, m=m) for _ in range(n)]
    else:
        specs = [spec1d(rng, mon)]
    if any(np.ptp(s.x_data.magnitude) == 0 for s in specs):
        raise core.SkipCase
    arg = specs if many or rng.random() < .3 else specs[0]
    if rng.random() < .3 and isinstance(arg, list):
        arg = tuple(arg)
    kw = words(rng)
    w = dict(kw)
    if rng.random() < .4:
        kw['ymin'] = float(rng.uniform(-3, -1))
    if rng.random() < .4:
        kw['ymax'] = float(rng.uniform(1, 3))
    labels = None
    nrow = len(rows(specs[0]))
    if rng.random() < .4:
        labels = [f'line {j}' for j in range(nrow)]
        mon.event('explicit-labels')
        kw['labels'] = labels[0] if nrow == 1 and rng.random() < .5 else labels
    st = style(rng)
    snap = objs.snap(specs)
    fig = plot_1d(arg, **kw, **st)
    mon.event('plot_1d')
    mon.check(not objs.diff(snap, objs.snap(specs)), 'lines:modified', str(objs.diff(snap, objs.snap(specs))))
    if not mon.check(len(fig.axes) == len(specs) + 1, 'lines:subplots', f'{len(fig.axes)} axes for {len(specs)} spectra'):
        return
    if len(specs) > 1:
        mon.event('subplots')
    fig.canvas.draw()
    for i, s in enumerate(specs):
        if hasattr(s, 'metadata') and data(s).ndim == 2:
            mon.event('collection')
        check_lines(mon, fig.axes[i], s, labels, 'lines', st)
        lo, hi = fig.axes[i].get_ylim()
        for name, got in (('ymin', lo), ('ymax', hi)):
            if name in kw:
                mon.event('limits')
                mon.close(got, kw[name], 'lines:' + name)
    if 'ymin' not in kw and 'ymax' not in kw:
        allv = np.concatenate([data(s).ravel() for s in specs])
        allv = allv[np.isfinite(allv)]
        # points of a one-point segment or beside a NaN may not count for autoscaling in a line, so test containment loosely
        lo, hi = fig.axes[0].get_ylim()
        for a in fig.axes[:len(specs)]:
            mon.close(np.array(a.get_ylim()), [lo, hi], 'lines:shared-y')
        mon.check(allv.min() >= lo - 1e-9 and allv.max() <= hi + 1e-9, 'lines:data-out-of-view', f'{allv.min()}..{allv.max()} in {lo}..{hi}')
    check_words(mon, fig, w, 'lines')
    check_widths(mon, fig, len(specs), [np.ptp(s.x_data.magnitude) for s in specs], 'lines')
    want = [str(l) for l in (labels or [l for _, l in rows(specs[0])]) if l]
    leg = fig.axes[0].get_legend()
    if want:
        got = [t.get_text() for t in leg.get_texts()] if leg else []
        mon.event('legend')
        mon.check(got == want, 'lines:legend', f'{got} != {want}')
    else:
        mon.check(leg is None, 'lines:spurious-legend')
    for a in fig.axes[1:]:
        mon.check(a.get_legend() is None, 'lines:repeated-legend')
    plt.close(fig)


def axis(rng, mon):
    """Successive plot_1d_to_axis / plot_2d_to_axis calls on caller's axes."""
    from euphonic.plot import plot_1d_to_axis, plot_2d_to_axis
    import matplotlib.pyplot as plt
    fig, axes = plt.subplots(1, 2)
    n0 = 0
    ax = axes[0]
    for rep in range(int(rng.integers(1, 4))):
        s = spec1d(rng, mon)
        if np.ptp(s.x_data.magnitude) == 0:
            continue
        labels = None
        nrow = len(rows(s))
        if rng.random() < .4:
            labels = [f'r{rep}-{j}' for j in range(nrow)]
            mon.event('explicit-labels')
        st = style(rng)
        snap = objs.snap([s])
        plot_1d_to_axis(s, ax, **({'labels': labels} if labels else {}), **st)
        mon.event('plot_1d_to_axis')
        mon.check(not objs.diff(snap, objs.snap([s])), 'axis:modified')
        if len(ax.get_lines()) - n0 > 0:
            check_lines(mon, ax, s, labels, 'axis', st, before=n0)
        n0 = len(ax.get_lines())
    s = decorate(rng, objs.spectrum2d(rng))
    snap = objs.snap([s])
    im = plot_2d_to_axis(s, axes[1])
    mon.event('plot_2d_to_axis')
    mon.check(not objs.diff(snap, objs.snap([s])), 'axis:modified')
    check_image(mon, axes[1], im, s, 'axis-image')
    mon.check(im in axes[1].images, 'axis-image:not-added')
    fig.canvas.draw()
    plt.close(fig)


def check_image(mon, ax, im, s, key):
    z = s.z_data.magnitude
    got = im.get_array()
    got = np.ma.filled(np.ma.asarray(got, dtype=float), np.nan)
    mon.close(got, z.T, key + ':values', rtol=1e-9)
    mon.close(np.asarray(im._Ax, float), centres2(s, 'x'), key + ':x-centres', rtol=3e-7)
    mon.close(np.asarray(im._Ay, float), centres2(s, 'y'), key + ':y-centres', rtol=3e-7)
    xe, ye = edges(s.x_data.magnitude, z.shape[0]), edges(s.y_data.magnitude, z.shape[1])
    mon.close(np.array(ax.get_xlim()), [xe[0], xe[-1]], key + ':xlim', rtol=3e-7)
    mon.close(np.array(ax.get_ylim()), [ye[0], ye[-1]], key + ':ylim', rtol=3e-7)
    check_ticks(mon, ax, s, key)


def other_units(rng, s):
    from euphonic import Spectrum2D
    def conv(v):
        m = 10.**rng.integers(-3, 4)
        pre = {-3: 'milli', -2: 'centi', -1: 'deci', 0: '', 1: 'deca', 2: 'hecto', 3: 'kilo'}
        k = int(round(np.log10(m)))
        u = str(v.units)
        if u in ('', 'dimensionless') or ' ' in u or '/' in u or '*' in u:
            # compound units: express in base units
            return v.to_base_units()
        return v.to(pre[k] + u) if rng.random() < .7 and not any(u.startswith(x) for x in pre.values() if x) else v
    return Spectrum2D(conv(s.x_data), conv(s.y_data), conv(s.z_data), x_tick_labels=s.x_tick_labels)


def centres2(s, ax):
    n = s.z_data.shape['xy'.index(ax)]
    x = getattr(s, ax + '_data').magnitude
    return (x[1:] + x[:-1])/2 if len(x) == n + 1 else x


def image(rng, mon):
    from euphonic import ureg
    from euphonic.plot import plot_2d
    import matplotlib.pyplot as plt
    from matplotlib.colors import Normalize
    n = int(rng.integers(1, 4))
    specs = [decorate(rng, objs.spectrum2d(rng, nan=True))]
    while len(specs) < n:
        t = decorate(rng, objs.spectrum2d(rng, nan=True))
        # same units as the first, and a common energy axis as split gives
        from euphonic import Spectrum2D
        a = specs[0]
        ny = a.z_data.shape[1]
        specs.append(Spectrum2D(t.x_data.magnitude*a.x_data.units, a.y_data,
                                rng.normal(size=(t.z_data.shape[0], ny))*a.z_data.units, x_tick_labels=t.x_tick_labels))
    if n > 1:
        mon.event('subplots')
    mixed = n > 1 and rng.random() < .4
    if any(np.isnan(data(s)).any() for s in specs):
        mon.event('nan')
    if any(np.ptp(s.x_data.magnitude) == 0 for s in specs):
        raise core.SkipCase
    if rng.random() < .4:
        # data of one sign
        off = float(rng.choice([-8., 8.]))
        for s in specs:
            s.z_data = (s.z_data.magnitude + off)*s.z_data.units
    kw = words(rng)
    w = dict(kw)
    z = np.concatenate([data(s).ravel() for s in specs])
    vmin, vmax = np.nanmin(z), np.nanmax(z)
    if not vmin < vmax:
        raise core.SkipCase
    if rng.random() < .4:
        kw['vmin'] = vmin = float(vmin - rng.uniform(-.2, .5)*(vmax - vmin))
        mon.event('clim-given')
    if rng.random() < .4:
        kw['vmax'] = vmax = float(vmax + rng.uniform(-.2, .5)*(vmax - vmin))
    if 'vmin' not in kw and 'vmax' not in kw:
        mon.event('clim-auto')
    cmap = objs.pick(rng, ['viridis', 'bone', 'Reds', None])
    if cmap:
        kw['cmap'] = plt.get_cmap(cmap) if rng.random() < .3 else cmap
    snap = objs.snap(specs)
    given = specs
    if mixed:
        # the same data in other units: the subplots share one scale, in the units of the first
        given = [specs[0]] + [other_units(rng, s) for s in specs[1:]]
        mon.event('mixed-units')
        snap = objs.snap(given)
    arg = given if n > 1 or rng.random() < .4 else specs[0]
    fig = plot_2d(arg, **kw)
    mon.event('plot_2d')
    mon.check(not objs.diff(snap, objs.snap(given)), 'image:modified', str(objs.diff(snap, objs.snap(given))))
    if not mon.check(len(fig.axes) == n + 1, 'image:subplots', f'{len(fig.axes)}'):
        return
    fig.canvas.draw()
    buf = np.asarray(fig.canvas.buffer_rgba())
    h = buf.shape[0]
    cm = plt.get_cmap(cmap or plt.rcParams['image.cmap'])
    for s, ax in zip(specs, fig.axes):
        if not mon.check(len(ax.images) == 1, 'image:number', f'{len(ax.images)}'):
            continue
        im = ax.images[0]
        check_image(mon, ax, im, s, 'image')
        mon.close(np.array(im.get_clim()), [vmin, vmax], 'image:clim', rtol=1e-9)
        mon.check(im.get_cmap().name == cm.name, 'image:cmap', im.get_cmap().name)
        # rendered pixels
        bb = ax.get_window_extent()
        if bb.width < 20:
            continue
        px = rng.uniform(bb.x0 + 5, bb.x1 - 5, 25).astype(int)
        py = rng.uniform(bb.y0 + 5, bb.y1 - 5, 25).astype(int)
        inv = ax.transData.inverted()
        xc, yc = centres2(s, 'x'), centres2(s, 'y')
        zz = data(s)
        xm, ym = (xc[1:] + xc[:-1])/2, (yc[1:] + yc[:-1])/2
        for i, j in zip(px, py):
            (x0, y0), (x1, y1) = inv.transform([(i - .8, j - .8), (i + 1.8, j + 1.8)])
            a0, a1 = np.searchsorted(xm, [x0, x1])
            b0, b1 = np.searchsorted(ym, [y0, y1])
            if a0 != a1 or b0 != b1 or np.isnan(zz[a0, b0]):
                continue
            want = np.array(cm(Normalize(vmin, vmax)(zz[a0, b0])))*255
            got = buf[h - 1 - j, i].astype(float)
            mon.event('pixels')
            mon.check(np.abs(got - want).max() <= 2.5, 'image:pixel', f'rendered {got} expected {want}')
    check_words(mon, fig, w, 'image')
    check_widths(mon, fig, n, [np.ptp(s.x_data.magnitude) for s in specs], 'image')
    plt.close(fig)


def refuse(rng, mon):
    from euphonic.plot import plot_1d, plot_1d_to_axis
    import matplotlib.pyplot as plt
    mon.event('refusal')
    s = spec1d(rng, mon)
    n = len(rows(s))
    snap = objs.snap([s])
    fig, ax = plt.subplots()
    mon.raises(lambda: plot_1d_to_axis(s, ax, labels=['x']*(n + 1)), ValueError, 'refuse:label-count')
    if n > 1:
        mon.raises(lambda: plot_1d_to_axis(s, ax, labels='x'), ValueError, 'refuse:one-label')
    mon.raises(lambda: plot_1d_to_axis(objs.spectrum2d(rng), ax), TypeError, 'refuse:type')
    o = s.copy()
    which = objs.pick(rng, ['x', 'y'])
    t = spec1d(rng, mon, xu=str(s.x_data.units), yu=str(s.y_data.units), coll=False)
    if which == 'x':
        t._x_data = t._x_data.copy()
        t2 = type(t)(t.x_data.magnitude*_unit('mK'), t.y_data)
    else:
        t2 = type(t)(t.x_data, t.y_data.magnitude*_unit('mK'))
    mon.raises(lambda: plot_1d([o, t2]), ValueError, 'refuse:mixed-units:' + which)
    mon.check(not objs.diff(snap, objs.snap([s])), 'refuse:modified')
    plt.close('all')


def _unit(u):
    from euphonic import ureg
    return ureg(u).units


def run_case(spec, mon):
    import matplotlib.pyplot as plt
    rng = core.rng_for(mon.seed, spec['kind'], spec['i'])
    try:
        globals()[spec['kind']](rng, mon)
    finally:
        plt.close('all')
    mon.evaluated((spec['kind'], spec['i']))
    if spec['i'] == 0:
        mon.sample(spec)
