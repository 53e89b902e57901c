"""C02: the three backends agree."""
import os

import numpy as np

from mc import conv
from mc import explore
from mc import geom
from mc import lattice as L
from mc import meentio as io

ID = 'C02'
BOUNDS = ('configuration lattice (1D/conical/2D/vector stacks x truncation x Fourier series x media x angles x polarisation x precision/pinv): '
          'results, TE/TM-incidence results and near fields of numpy vs torch on all, vs jax on a sub-lattice; vector drawings; all materials')
ASSUMPTIONS = ['conventions between the backends (mc/conv.py) are part of the specification', 'tolerance 1e-7 (double), 1e-3 (single)']
AMPS = ('R_s', 'R_p', 'T_s', 'T_p')


def same_result(S, cfg, a, b, be, tol, tag):
    """a: numpy result, b: result of backend be."""
    one = io.is_1d(0, cfg)
    none, flip = conv.masks(cfg)
    for w in ('res', 'te', 'tm'):
        if a[w] is None or b[w] is None:
            # torch also takes the scalar formulation for phi = 0
            S.true(f'{w}-present', (a[w] is None) == (b[w] is None) or (be == 2 and b[w] is None and io.is_1d(2, cfg)),
                   f'{tag} {w} result present in one backend only')
            continue
        x = a[w] if be == 1 else conv.numpy_to_torch(cfg, a[w], one)
        for k in io.FIELDS:
            g, e = b[w][k], x[k]
            if k in AMPS and be == 2 and io.is_1d(2, cfg) and not one:
                continue
            if g.shape == e.shape and not one:
                if k in AMPS:
                    e = np.where(flip & (np.abs(g + e) < np.abs(g - e)), -e, e)
                    e = np.where(none, g, e)
                elif k[-2:] in ('_s', '_p'):
                    e = np.where(none, g, e)
            S.close(f'{io.BACKENDS[be]}-{w}-{k}', g, e, tol, f'{tag} {w}.{k}')
    for k in ('de_ri', 'de_ti'):
        S.close(f'{io.BACKENDS[be]}-{k}', b[k], a[k], tol, f'{tag} {k}')


def run_solve(case, S):
    cfg = case['cfg']
    prec = cfg.get('prec', 0)
    tol = {0: 1e-7, 1: 1e-3}[prec]
    for p in case['pols']:
        c = dict(cfg, **p)
        tag = f'theta={c["theta"]:.3g} phi={c["phi"]} {p} fto={c["fto"]}'
        res, fld = {}, {}
        fieldargs = case.get('field')
        for be in [0] + case['bes']:
            nm = io.BACKENDS[be]
            m = S.call(f'{nm} build', io.build, be, c)
            S.state([be, c, fieldargs])
            with np.errstate(all='ignore'):
                res[be] = io.unpack(S.call(f'{nm} {p}', m.conv_solve))
                if fieldargs:
                    fld[be] = io.to_np(S.call(f'{nm} field', m.calculate_field, **{k: (tuple(v) if isinstance(v, list) else v)
                                                                                  for k, v in fieldargs.items()}))
            S.traces += 1
        for be in case['bes']:
            same_result(S, c, res[0], res[be], be, tol, f'{tag} numpy/{io.BACKENDS[be]}')
            if fieldargs and not (be == 2 and io.is_1d(2, c) and not io.is_1d(0, c)):
                one = io.is_1d(0, c)
                want = fld[0] if be == 1 else conv.field_numpy_to_torch(c, fld[0], one)
                sc = max(1.0, float(np.nanmax(np.abs(want))) if want.size else 1.0)
                S.close(f'{io.BACKENDS[be]}-field', fld[be], want, tol * sc, f'{tag} field {fieldargs}')


def run_draw(case, S):
    per = case['period']
    grids = {}
    m = io.mods()
    for be in (0, 1, 2):
        c = dict(L.config(dict(v=case['v'], d=[1.0] * len(case['v'])), 'air-glass', dict(period=per, wavelength=610.0), [1, 1], 0.1, 0.2, psi=0.3,
                          prec=case.get('prec', 0)))
        mee = S.call('build', io.build, be, c)
        S.state([be, case])
        out = S.call('draw', mee.modeling_vector_instruction, io.vector(c))
        grids[be] = [geom.drawn(l, per) for l in out]
        S.traces += 1
    tol = 1e-7 if not case.get('prec') else 1e-4
    tie = any(geom.has_tie(sh) for l in io.vector(c) for sh in l[1])
    for be in (1, 2):
        if not S.true('layers', len(grids[be]) == len(grids[0]), f'{io.BACKENDS[be]} number of layers'):
            continue
        for i, (a, b) in enumerate(zip(grids[0], grids[be])):
            d, area = geom.difference(a, b, per)
            S.true(f'{io.BACKENDS[be]}-draw', tie or area < tol, f'{io.BACKENDS[be]} layer {i} of {case["v"]} differs from numpy by {d} on {area:.2e} of the cell')


def modelers():
    import meent.on_numpy.modeler.modeling as a
    import meent.on_jax.modeler.modeling as b
    import meent.on_torch.modeler.modeling as c
    return a, b, c


def run_material(case, S):
    ms = modelers()
    tabs = [m.read_material_table() for m in ms]
    names = sorted(tabs[0])
    for be in (1, 2):
        S.true('names', sorted(tabs[be]) == names, f'{io.BACKENDS[be]} lists other materials')
    for nm in names[case['i']::case['of']]:
        t = tabs[0][nm]
        if isinstance(t, dict):
            wl = np.linspace(*t['wavelength_range'], 9)
        else:
            wl = np.real(np.asarray(io.to_np(t))[:, 0])
        for w in list(wl[::max(1, len(wl) // 4)]) + list((wl[:-1] + wl[1:])[::max(1, len(wl) // 4)] / 2):
            S.state([nm, float(w)])
            v = [complex(np.asarray(io.to_np(S.call('find', m.find_nk_index, nm, tb, float(w)))).ravel()[0]) for m, tb in zip(ms, tabs)]
            S.traces += 3
            for be in (1, 2):
                S.close(f'{io.BACKENDS[be]}-material', v[be], v[0], 1e-6 * max(1, abs(v[0])), f'{nm} at {w}')


def run(case, S):
    {'solve': run_solve, 'draw': run_draw, 'material': run_material}[case['kind']](case, S)


SHAPES = {
    'r0': ['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1],
    'e1': ['ellipse', 420, 330, 410, 230, {'c': [1.8, -0.1]}, 0.35, 10, 10],
    'r1': ['rectangle', 565, 310, 100, 190, 1.5, 0.0, 1, 1],   # shares edges with r0
}


def groups(tier):
    T = tier == 'thorough'
    g = []
    PX = [dict(psi=0.7), dict(pol=1)] + ([dict(psi=2.4), dict(pol=0)] if T else [])
    P1 = [dict(pol=0), dict(pol=1)]
    F = dict(res_x=3, res_y=2, res_z=2, set_field_input=[True, True, True])
    media = list(L.MEDIA) if T else ['glass-air', 'air-metal', 'glass-lossy']

    def add(fams, pols, bes, w=1.0, w0=0.0, field=F):
        for f in fams:
            g.append((len(f) * len(pols) * w + w0, [dict(kind='solve', cfg=c, pols=pols, bes=bes, field=field) for c in f]))
    # numpy vs torch
    N2 = [2]
    add(L.fam(L.STACKS_1D, list(L.STACKS_1D), [[0, 0], [1, 0], [5, 0]], list(L.FT), list(L.MEDIA), ['A', 'B'] if T else ['A'], [0.0, 0.37, -0.61, 1.3], [None]), P1, N2)
    add(L.fam(L.STACKS_1D, list(L.STACKS_1D), [[2, 0], [1, 2]] + ([[0, 1]] if T else []), list(L.FT), media, ['A'], [0.0, 0.37, -0.61], [0.0, 0.6, 2.3, -1.1]), PX, N2, 3)
    add(L.fam(L.STACKS_2D, list(L.STACKS_2D), [[0, 0], [1, 1], [2, 0]] + ([[0, 2], [3, 1]] if T else []), list(L.FT), media, ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3]), PX[:1], N2, 4)
    add(L.fam(L.STACKS_V, list(L.STACKS_V), [[1, 1], [2, 0]], ['dfs'], media, ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3]), PX[:1], N2, 8)
    for prec, pinv in ((1, False), (0, True), (1, True)):
        add(L.fam(L.STACKS_1D, ['bin', 'two'], [[2, 0]], list(L.FT), media, ['A'], [0.0, 0.37], [None], prec=prec, pinv=pinv), P1, N2)
        add(L.fam(L.STACKS_1D, ['bin', 'two'], [[2, 0], [1, 1]], list(L.FT), media, ['A'], [0.0, 0.37], [0.6], prec=prec, pinv=pinv), PX[:1], N2)
        add(L.fam(L.STACKS_2D, ['bin', 'two'], [[1, 1]], list(L.FT), media, ['A'], [0.0, 0.37], [2.3], prec=prec, pinv=pinv), PX[:1], N2)
    # every continuous input next to its special values
    for form in L.NEAR_FORMS:
        for ft in (['dfs', 'cfs'] if form != 'vec' else ['dfs']) + (['plain'] if T and form != 'vec' else []):
            cs = [dict(kind='solve', cfg=c, pols=P1 if form == '1d' else PX, bes=N2, field=F) for _, c in L.near(form, tuple(range(1, 12)) if T else (2, 3, 5, 7, 9), ft)]
            g += L.chunk(cs, 30, 5.0)
        cs = [dict(kind='solve', cfg=c, pols=P1 if form == '1d' else PX[:1], bes=[1], field=F if form != '1d' else None) for _, c in L.near(form, (1, 2, 3, 4, 5, 7, 9) if T else (3, 6) if form == '1d' else (3, 4, 6, 9))]
        g += L.chunk(cs, 40, 150.0 if form == '1d' else 40)
    # numpy vs jax
    J = [1]
    jm = list(L.MEDIA) if T else ['glass-air', 'glass-lossy', 'air-metal']
    for nm, fto, ft in ((['lossy'], [1, 0], ['dfs', 'cfs']), (['bin'], [2, 0], ['plain'])):
        add(L.fam(L.STACKS_1D, nm, [fto], ft, ['glass-air', 'glass-lossy'], ['A'], [0.0, -0.61], [None]), P1, J, 60, 200)
    for nm, fto, ft in ((['lossy'], [2, 0], ['plain', 'cfs']), (['two'], [1, 1], ['dfs'])):
        add(L.fam(L.STACKS_1D, nm, [fto], ft, jm, ['A'], [0.0, 0.37, -0.61], [0.6, 2.3]), PX[:1], J, 12, 300)
    for nm, fto, ft in ((['lossy'], [1, 1], ['dfs', 'cfs']), (['bin'], [2, 0], ['plain']), (['two'], [0, 1], ['cfs'])):
        add(L.fam(L.STACKS_2D, nm, [fto], ft, jm, ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3] if T else [0.6, 2.3]), PX[:1], J, 12, 300)
    add(L.fam(L.STACKS_V, ['mix'], [[1, 1]], ['dfs'], jm, ['A'], [0.37, -0.61], [0.6, 2.3]), PX[:1], J, 20, 300)
    add(L.fam(L.STACKS_2D, ['bin'], [[1, 0]], ['dfs'], jm, ['A'], [0.37], [0.6], prec=1, pinv=True), PX[:1], J, 12, 300)
    # drawings
    draws = []
    for a in [0.0, 0.3, 1.2, 1.5707963267948966, 2.0, 2.9, 3.5, 4.4, 5.1, 6.0, -0.7]:
        for nt, npar in ((1, 1), (2, 3), (4, 2)):
            draws.append(dict(kind='draw', period=[900.0, 700.0], v=[[1.1, [['rectangle', 430, 330, 300, 170, 2.0, a, nt, npar]]]]))
        for n in (6, 9, 14):
            draws.append(dict(kind='draw', period=[900.0, 700.0], v=[[1.1, [['ellipse', 430, 330, 300, 170, 2.0, a, n, n]]]]))
    import itertools
    for k in (1, 2, 3):
        for perm in itertools.permutations(SHAPES, k):
            draws.append(dict(kind='draw', period=[900.0, 700.0], v=[[1.0, [SHAPES[s] for s in perm]], [1.3, []]]))
    g += L.chunk(draws, 10, 20)
    g += [(100, [dict(kind='material', i=i, of=8)]) for i in range(8)]
    return g
