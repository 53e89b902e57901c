"""C01: power balance."""
import numpy as np

from mc import lattice as L
from mc import meentio as io

ID = 'C01'
BOUNDS = ('product of stacks (1-7 layers, lossless/absorbing/metal, raster/vector/anisotropic) x truncation x Fourier series x media '
          '(incl. total internal reflection, absorbing substrates, orders exactly at grazing) x polar angle (0..near grazing, negative) x azimuth x polarisation '
          'x precision/pinv, on each backend')
ASSUMPTIONS = ['tolerance 1e-7 (double), 3e-4 (single)', 'incidence medium is lossless']


def lossless(cfg):
    return L.is_lossless(cfg['ucell'])


def kpar2(cfg):
    fx, fy = cfg['fto']
    n, th, ph = cfg['n_top'], cfg['theta'], io.phi_of(cfg)
    kx = n * np.sin(th) * np.cos(ph) + np.arange(-fx, fx + 1) * cfg['wavelength'] / cfg['period'][0]
    ky = n * np.sin(th) * np.sin(ph) + np.arange(-fy, fy + 1) * cfg['wavelength'] / cfg['period'][1]
    return kx[None, :] ** 2 + ky[:, None] ** 2


def check(S, be, cfg, got, weak=False):
    tol = {0: 1e-7, 1: 3e-4}[cfg.get('prec', 0)]
    nm = io.BACKENDS[be]
    k2 = kpar2(cfg)
    nt, nb = cfg['n_top'], io.cnum(cfg['n_bot'])
    ev_t = k2 > nt ** 2 * (1 + 1e-6)
    ev_b = (k2 > nb.real ** 2 * (1 + 1e-6)) if not isinstance(nb, complex) else np.zeros_like(ev_t)
    tag = (f'{nm} theta={cfg["theta"]:.3g} phi={cfg["phi"]} n={cfg["n_top"]}/{cfg["n_bot"]} fto={cfg["fto"]} '
           f'prec={cfg.get("prec", 0)} pinv={cfg.get("use_pinv")}')
    parts = [w for w in ('res', 'te', 'tm') if got[w] is not None]
    for w in parts:
        r = got[w]
        if not S.true(f'{nm}-shape', r['de_ri'].shape == k2.shape and r['de_ti'].shape == k2.shape,
                      f'{tag} {w}: result shapes {r["de_ri"].shape} {r["de_ti"].shape}, orders {k2.shape}'):
            continue
        tot = float(r['de_ri'].sum() + r['de_ti'].sum())
        if lossless(cfg):
            S.close(f'{nm}-{w}-balance', tot, 1.0, tol, f'{tag} {w} R+T')
        else:
            S.true(f'{nm}-{w}-passive', 0 < tot < (1 - 1e-6 if not weak else 1 + tol), f'{tag} {w} R+T={tot!r} with absorbing layers')
        for k in ('de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p'):
            S.true(f'{nm}-{w}-negative', np.all(np.isfinite(r[k])) and np.isrealobj(r[k]) and r[k].min() >= -tol / 10,
                   f'{tag} {w}.{k} negative, complex or not finite')
        S.close(f'{nm}-{w}-split-r', r['de_ri_s'] + r['de_ri_p'], r['de_ri'], tol, f'{tag} {w} s+p reflected')
        S.close(f'{nm}-{w}-split-t', r['de_ti_s'] + r['de_ti_p'], r['de_ti'], tol, f'{tag} {w} s+p transmitted')
        S.close(f'{nm}-{w}-evan-r', np.where(ev_t, r['de_ri'], 0), np.zeros_like(k2), tol, f'{tag} {w} evanescent reflected')
        S.close(f'{nm}-{w}-evan-t', np.where(ev_b, r['de_ti'], 0), np.zeros_like(k2), tol, f'{tag} {w} evanescent transmitted')
    S.close(f'{nm}-top-r', got['de_ri'], got['res']['de_ri'], tol, f'{tag} de_ri of the result')
    S.close(f'{nm}-top-t', got['de_ti'], got['res']['de_ti'], tol, f'{tag} de_ti of the result')


# a mode exactly at its cut-off in a uniform layer (wavelength = n * period): known finding, see DESIGN
CUT = {'1d': dict(r=[[[1.0, 1.0, 2.2, 1.4, 1.0]], [[1.5] * 5]], d=[310.0, 200.0]),
       '2d': dict(r=[[[1.0, 1.0, 2.2], [1.0, 1.7, 1.0]], [[1.5] * 3] * 2], d=[310.0, 200.0])}


def run_cut(case, S):
    """Balance; failures here are the known finding 'layer-cutoff'."""
    be, cfg = case['be'], case['cfg']
    S.state([be, cfg])
    S.traces += 1
    key = 'layer-cutoff'
    try:
        r = io.solve(be, cfg)
        tot = float(r['de_ri'].sum() + r['de_ti'].sum())
        S.true(key, abs(tot - 1) <= 1e-7, f'R+T={tot!r} with a mode of the uniform layer at cut-off ({io.BACKENDS[be]}, {case["cut"]})')
    except Exception as e:
        S.true(key, False, f'{type(e).__name__} {str(e)[:60]} with a mode of the uniform layer at cut-off ({io.BACKENDS[be]}, {case["cut"]})')


def run(case, S):
    if 'cut' in case:
        return run_cut(case, S)
    for be in case['bes']:
        for p in case['pols']:
            c = dict(case['cfg'], **p)
            S.state([be, c])
            got = S.call(f'{io.BACKENDS[be]} {p}', io.solve, be, c)
            check(S, be, c, got, case.get('weak', False))
            S.traces += 1


def groups(tier):
    T = tier == 'thorough'
    g = []
    NT = [0, 2]
    PX = [dict(psi=0.7), dict(psi=2.4)] + ([dict(pol=0), dict(pol=1), dict(psi=-1.2)] if T else [])
    P1 = [dict(pol=0), dict(pol=1)]

    def add(fams, pols, bes, w=1.0, w0=0.0):
        for f in fams:
            g.append((len(f) * len(pols) * w + w0, [dict(cfg=c, pols=pols, bes=bes) for c in f]))

    media = list(L.MEDIA)
    th = [0.0, 0.05, 0.37, -0.61, 1.05, 1.5]
    s1 = list(L.STACKS_1D)
    add(L.fam(L.STACKS_1D, s1, [[0, 0], [1, 0], [5, 0]] + ([[12, 0]] if T else []), list(L.FT), media, ['A', 'B', 'C'] if T else ['A', 'B'], th, [None]), P1, NT)
    ph = [0.0, 0.6, 2.3, -1.1] + ([1.5707963267948966, 3.3, 7.0] if T else [])
    add(L.fam(L.STACKS_1D, s1, [[2, 0], [1, 1]] + ([[0, 3], [5, 0]] if T else []), ['dfs', 'cfs'] + (['plain'] if T else []), media, ['A', 'C'] if T else ['A'],
              [0.0, 0.37, -0.61, 1.4], ph), PX[:1] if not T else PX, NT, 2)
    s2 = list(L.STACKS_2D)
    add(L.fam(L.STACKS_2D, s2, [[0, 0], [1, 1], [2, 1]] + ([[0, 3], [3, 3], [4, 1]] if T else []), ['dfs', 'cfs'] + (['plain'] if T else []),
              media, ['A', 'C'] if T else ['A'], [0.0, 0.37, -0.61, 1.4] if T else [0.0, 0.37, -0.61], [None, 0.6, 2.3] if not T else [None] + ph), PX[:1] if not T else PX, NT, 4)
    add(L.fam(L.STACKS_2D, ['bin', 'fine'], [[3, 2]], ['dfs', 'plain', 'cfs'], ['glass-air', 'air-metal'], ['C', 'B'], [0.37, -1.1], [-0.8]), PX, NT, 15)
    add(L.fam(L.STACKS_V, list(L.STACKS_V), [[1, 1], [2, 1], [0, 1]] + ([[3, 3]] if T else []), ['dfs'], media, ['A'],
              [0.0, 0.37, -0.61], [None, 0.6, 2.3]), PX[:1] if not T else PX, NT, 6)
    add(L.fam(L.ANISO, list(L.ANISO), [[1, 1], [2, 0], [0, 1]], list(L.FT), media, ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3]), PX[:1], [2], 3)
    # precision and pseudo-inverse (single precision on gratings without uniform layers, see DESIGN)
    for prec, pinv in ((1, False), (0, True), (1, True)):
        add(L.fam(L.STACKS_1D, ['bin', 'two'], [[2, 0]], list(L.FT), media, ['A'], [0.0, 0.37, -0.61], [None], prec=prec, pinv=pinv), P1, NT)
        add(L.fam(L.STACKS_1D, ['bin', 'two'], [[2, 0], [1, 1]], ['dfs', 'cfs'], media, ['A'], [0.0, 0.37], [0.6], prec=prec, pinv=pinv), PX[:1], NT)
        add(L.fam(L.STACKS_2D, ['bin', 'two'], [[2, 0], [1, 1]], list(L.FT), media, ['A'], [0.0, 0.37], [2.3], prec=prec, pinv=pinv), PX[:1], NT)
        add(L.fam(L.STACKS_V, ['rect'], [[1, 1]], ['dfs'], media, ['A'], [0.0, 0.37], [2.3], prec=prec, pinv=pinv), PX[:1], NT)
    # exact Rayleigh anomalies (an order exactly at grazing in one of the media), critical angle, Littrow
    A6 = 0.5235987755982989      # sin = 1/2
    AN = [dict(period=[900.0, 700.0], wavelength=900.0), dict(period=[900.0, 900.0], wavelength=900.0), dict(period=[900.0, 700.0], wavelength=1350.0),
          dict(period=[900.0, 900.0], wavelength=450.0), dict(period=[900.0, 900.0], wavelength=1800.0)]
    am = [(1.0, 1.5), (1.5, 1.0), (1.5, 1.5), (2.0, 1.0), (1.0, [1.5, -0.2])]
    for st, names in ((L.STACKS_1D, ['bin', 'lossy', 'two']), (L.STACKS_2D, ['bin', 'two'])):
        add(L.fam(st, names, [[2, 0]] + ([[1, 1]] if st is L.STACKS_2D else []), ['dfs', 'cfs'] if T else ['dfs'], am, AN, [0.0, A6, -A6], [None]), P1 if st is L.STACKS_1D else PX[:1], NT)
        add(L.fam(st, names, [[2, 0], [1, 1]], ['dfs', 'cfs'] if T else ['dfs'], am, AN, [0.0, A6, -A6], [0.0, 1.5707963267948966]), PX[:1], NT, 3)
    # every continuous input next to its special values
    for form in L.NEAR_FORMS:
        for ft in (['dfs', 'cfs'] if form != 'vec' else ['dfs']) + (['plain'] if T and form != 'vec' else []):
            cs = [dict(cfg=c, pols=P1 if form == '1d' else PX, bes=NT, weak=True) for _, c in L.near(form, tuple(range(1, 12)) if T else (2, 3, 5, 7, 9), ft)]
            g += L.chunk(cs, 30, 3.0)
        cs = [dict(cfg=c, pols=P1 if form == '1d' else PX[:1], bes=[1], weak=True) for _, c in L.near(form, (1, 2, 3, 4, 5, 7, 9) if T else (3, 6) if form == '1d' else (3, 4, 6, 9))]
        g += L.chunk(cs, 40, 150.0 if form == '1d' else 30)
    cut = []
    for nm, st, q, fto, th_, phi in (('1d-te', '1d', dict(pol=0), [2, 0], 0.0, None), ('1d-tm', '1d', dict(pol=1), [2, 0], 0.0, None),
                                    ('conical', '1d', dict(psi=0.7), [2, 0], A6, 1.5707963267948966), ('2d', '2d', dict(psi=0.7), [1, 1], 0.0, None)):
        cut += [dict(cut=nm, be=be, cfg=L.config(CUT[st], (1.0, 1.0), dict(period=[900.0, 900.0], wavelength=1350.0), fto, th_, phi, 'dfs', **q)) for be in (0, 1, 2)]
    g.append((200.0, cut))
    # small length units
    um = dict(period=[0.9, 0.7], wavelength=0.61)
    for st in (L.STACKS_1D['bin'], L.STACKS_2D['bin']):
        st2 = dict(st, d=[x / 1000 for x in st['d']])
        add(L.fam({'x': st2}, ['x'], [[2, 0], [1, 1]], ['dfs', 'cfs'], media, [um], [0.0, 0.37], [0.6, None]), PX[:1], NT)
    # jax
    J = [1]
    jm = media
    for names, ftos, fts in ((['two', 'many'], [[2, 0]], ['dfs']), (['lossy'], [[1, 0]], ['cfs']), (['bin'], [[3, 0]], ['plain'])):
        add(L.fam(L.STACKS_1D, names, ftos, fts, ['glass-air', 'glass-lossy'], ['A'], [0.37, -0.61], [None]), P1, J, 50, 150)
    for names, ftos, fts in ((['two'], [[2, 1]], ['cfs']), (['many'], [[1, 0]], ['dfs']), (['lossy'], [[2, 0]], ['plain'])):
        add(L.fam(L.STACKS_1D, names, ftos, fts, jm, ['A'], [0.0, 0.37, -0.61], [0.6, 2.3]), PX, J, 8, 300)
    for names, ftos, fts in ((['two'], [[2, 1]], ['cfs']), (['bin'], [[0, 1]], ['dfs']), (['lossy'], [[1, 0]], ['dfs'])):
        add(L.fam(L.STACKS_2D, names, ftos, fts, jm, ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3] if T else [0.6, 2.3]), PX, J, 8, 300)
    add(L.fam(L.STACKS_V, ['mix', 'lossless'], [[1, 1]], ['dfs'], jm, ['A'], [0.0, 0.37, -0.61], [0.6, 2.3]), PX[:1] if not T else PX, J, 20, 300)
    add(L.fam(L.STACKS_2D, ['bin'], [[1, 1]], ['dfs', 'cfs'], jm, ['A'], [0.37], [0.6], prec=1), PX[:1], J, 8, 300)
    add(L.fam(L.STACKS_1D, ['bin'], [[1, 0]], ['dfs'], ['glass-air'], ['A'], [0.37], [None], prec=1, pinv=True), P1, J, 50, 150)
    add(L.fam(L.STACKS_2D, ['two'], [[1, 0]], ['dfs'], jm, ['A'], [0.37], [0.6], pinv=True), PX[:1], J, 8, 300)
    return g
