"""C09: mode gradients are derivatives of the frequencies; widths follow from them."""
import numpy as np
from .. import gen, ref, phon, core, objs

RULE = ('random polar/non-polar crystals and stored materials at random q-points: returned gradients against fourth-order '
        'finite differences (a) mode by mode of <e|D(q)|e> with D rebuilt from separate calculations at displaced q-points '
        'and (b) of the frequencies themselves for well separated modes; random gradients through mode_gradients_to_widths; '
        'distinct by (system, q, options)')
ASSUMPTIONS = ['modes with |w^2| below 1e-6 of the largest are skipped (the derivative of the square root diverges)',
               'imaginary modes are compared by magnitude only (sign convention of dw/dq is not documented for them)',
               'gamma of polar crystals is not used (frequencies are discontinuous there)']
REQUIRED_EVENTS = ['gradients-hellmann-feynman', 'gradients-frequency-differences', 'path-c', 'path-python', 'frequencies-only',
                   'widths', 'polar-without-dipole', 'asr', 'insert_gamma-or-duplicates', 'left-handed-widths', 'polar-dipole']
MATS = ['LZO_force_constants', 'NaCl_QE_force_constants', 'NaCl_prim_force_constants', 'CaHgO2_force_constants',
        'quartz_force_constants', 'graphite_force_constants', 'Si2-sc-skew_force_constants']
FD = ((-2, 1/12), (-1, -8/12), (1, 8/12), (2, -1/12))


def cases(tier, seed):
    n = {'quick': 260, 'thorough': 5000}[tier]
    reps = {'quick': 1, 'thorough': 6}[tier]
    return ([{'kind': 'material', 'name': k, 'i': r} for k in MATS if k in phon.find_materials() for r in range(reps)]
            + [{'kind': 'random', 'i': i} for i in range(n)] + [{'kind': 'widths', 'i': i} for i in range(n//3)])


def run_widths(spec, mon, rng):
    from euphonic import ureg
    from euphonic.util import mode_gradients_to_widths
    nq, nm = int(rng.integers(1, 30)), int(rng.integers(1, 9))
    _, cell = gen.lattice(rng)
    if rng.random() < .4:
        cell = cell[[1, 0, 2]]
        mon.event('left-handed-widths')
    vec = rng.random() < .7
    g = rng.normal(size=(nq, nm, 3) if vec else (nq, nm))
    g = g if vec else np.abs(g)
    gu, cu = objs.pick(rng, ['meV*angstrom', 'hartree*bohr', 'eV*nm', 'THz*bohr*planck_constant']), objs.pick(rng, objs.LENGTH)
    G, C = (g*ureg('hartree*bohr')).to(gu), (cell*ureg('bohr')).to(cu)
    w = mode_gradients_to_widths(G, C)
    want = 2/np.cbrt(nq*abs(np.linalg.det(cell)))*(np.linalg.norm(g, axis=2) if vec else g)
    got = w.to('hartree').magnitude
    mon.close(got, want, 'widths', 'width = 2/cbrt(n_qpts*volume)*|gradient|', rtol=1e-12)
    mon.check(np.all(got >= 0), 'widths-negative')
    mon.raises(lambda: mode_gradients_to_widths(G[0, 0] if vec else G[0], C), Exception, 'widths-bad-shape')
    mon.event('widths', nq*nm)
    mon.evaluated((spec, nq, nm))


def run_case(spec, mon):
    rng = core.rng_for(mon.seed, spec['kind'], spec.get('name'), spec['i'])
    if spec['kind'] == 'widths':
        return run_widths(spec, mon, rng)
    if spec['kind'] == 'material':
        fc, d, images = phon.material(spec['name'])
        m = ref.Model(d, images)
        nq = 1
    else:
        d = gen.system(rng, polar=rng.random() < .5, nmax=8, stable=rng.random() > .2, asr=rng.random() > .3)
        lu = objs.pick(rng, ['bohr', 'angstrom', 'nm'])
        fc = gen.make_fc(d, units=(lu, 'amu'))
        m = ref.Model(d)
        nq = int(rng.integers(1, 4))
    polar = d['born'] is not None
    q = rng.uniform(-.6, .6, (nq, 3))
    if not polar and rng.random() < .3:
        q[0] = gen.qpoints(rng, 1)[0]
    kw = {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))], 'use_c': bool(rng.random() < .6),
          'n_threads': int(rng.integers(1, 5)), 'reduce_qpts': bool(rng.random() < .6)}
    if polar:
        kw['dipole'] = bool(rng.random() < .6)
    dip = polar and kw['dipole']
    mon.event('polar-without-dipole', polar and not dip)
    mon.event('polar-dipole', dip)
    mon.event('asr', kw['asr'] is not None)
    mon.event('path-c' if kw['use_c'] else 'path-python')
    perm = np.arange(nq)
    if rng.random() < .4:
        perm = rng.integers(0, nq, nq + 2)
        mon.event('insert_gamma-or-duplicates')
    res, grads = fc.calculate_qpoint_phonon_modes(q[perm], return_mode_gradients=True, **kw)
    n3 = 3*m.n
    if not mon.check(grads.shape == (len(perm), n3, 3), 'gradient-shape', str(grads.shape)):
        return
    mon.check(str(grads.units) == str((1*res.crystal.cell_vectors.units*res.frequencies.units).units)
              or grads.check('[energy]*[length]'), 'gradient-units', str(grads.units))
    mon.check(not np.iscomplexobj(grads.magnitude), 'gradient-complex')
    g = grads.to('hartree*bohr').magnitude
    e, w2 = phon.evecs(res), ref.w2(res.frequencies.to('meV').magnitude)
    W = max(np.max(np.abs(w2)), 1e-3*phon.scale(m))
    L = np.max(np.linalg.norm(d['scm']@d['cell'], axis=1)) + 5
    # 2*w*gradient (w signed as returned)
    f = np.sign(w2)*np.sqrt(np.abs(w2))
    x = 2*f[..., None]*g
    h = 1e-2/L
    pkw = dict(kw, reduce_qpts=False)
    for k in range(min(len(perm), 2)):
        qk = q[perm[k]]

        def disp(a, s, hh=h):
            v = np.zeros(3)
            v[a] = s*hh
            return qk + v@d['cell'].T/(2*np.pi)
        pts = np.array([disp(a, s) for a in range(3) for s, _ in FD])

        def hf(okw):
            r = fc.calculate_qpoint_phonon_modes(pts, **okw)
            E, w = phon.evecs(r), ref.w2(r.frequencies.to('meV').magnitude)
            out = np.zeros((n3, 3))
            for a in range(3):
                for s, (_, c) in enumerate(FD):
                    i = 4*a + s
                    D = (E[i].T*w[i])@E[i].conj()
                    out[:, a] += c/h*np.einsum('mi,ij,mj->m', e[k].conj(), D, e[k]).real
            return out
        sel = np.abs(w2[k]) > 1e-6*W
        want = hf(pkw)
        tol = 2e-6*phon.scale(m)*L
        err = np.max(np.abs(x[k] - want)[sel], initial=0)
        if dip and err > tol and np.max(np.abs(x[k] - hf(dict(pkw, dipole=False)))[sel], initial=0) <= tol:
            mon.fail('polar-gradient-omits-dipole-term', 'gradients of a polar crystal contain the derivative of the '
                     f'short-range part only (difference {err:.3g}, tolerance {tol:.3g})')
            mon.evals += 1
        else:
            mon.check(err <= tol, 'gradient', f'2w*dw/dq against <e|dD/dq|e> at q={qk.tolist()}: differs by {err:.3g} > {tol:.3g}')
            # frequencies themselves
            h2 = 1e-3/L
            p2 = np.array([disp(a, s, h2) for a in range(3) for s, _ in FD])
            fr = fc.calculate_qpoint_frequencies(p2, **pkw).frequencies.to('meV').magnitude
            v = ref.w2(fr).reshape(3, 4, n3)
            fd = np.einsum('asm,s->ma', v, [c/h2 for _, c in FD])
            gap = np.diff(w2[k])
            iso = np.concatenate(([True], gap > .03*W)) & np.concatenate((gap > .03*W, [True])) & sel
            pos = iso & (w2[k] > 0)
            mon.close(x[k][pos], fd[pos], 'gradient-vs-frequencies', f'dw^2/dq by finite differences at q={qk.tolist()}',
                      rtol=0, atol=1e-4*W*L)
            neg = iso & (w2[k] < 0)
            mon.close(np.abs(x[k][neg]), np.abs(fd[neg]), 'gradient-vs-frequencies-imaginary', rtol=0, atol=1e-4*W*L)
            mon.event('gradients-frequency-differences', int(iso.sum()))
        mon.event('gradients-hellmann-feynman', int(sel.sum()))
    if rng.random() < .4:
        fr, g2 = fc.calculate_qpoint_frequencies(q[perm], return_mode_gradients=True, **kw)
        mon.event('frequencies-only')
        y = 2*f[..., None]*g2.to('hartree*bohr').magnitude
        for k in range(len(perm)):
            gap = np.diff(w2[k]) > 1e-5*W
            cuts = [0] + [i + 1 for i in np.where(gap)[0]] + [n3]
            for a, b in zip(cuts[:-1], cuts[1:]):
                if np.min(np.abs(w2[k, a:b])) > 1e-6*W:
                    mon.close(y[k, a:b].sum(axis=0), x[k, a:b].sum(axis=0), 'gradient-frequencies-vs-modes', rtol=0, atol=1e-7*W*L)
    for i in range(len(perm)):
        j = int(np.where(perm == perm[i])[0][0])
        if i != j and kw['reduce_qpts']:
            mon.close(g[i], g[j], 'gradient-of-duplicate', 'duplicate q-points have different gradients', rtol=1e-12, atol=1e-300)
    mon.evaluated((spec, sorted(map(str, kw.items()))))
    mon.sample({**gen.describe(d), 'q': q, 'options': kw})
