"""C03: every order's amplitude and efficiency is the solution of the truncated Maxwell problem."""
from mc import lattice as L
from mc import meentio as io
from mc import oracle as o

ID = 'C03'
BOUNDS = ('full product of stacks (1-4 layers, 1D/2D raster, vector; lossless, lossy, metallic, homogeneous, zero and '
          'several-wavelength thickness; up to 61 x 9 pixels, 14 layers, opaque metal, periods from 0.1 to 34 wavelengths) x Fourier orders x Fourier series type x media x polar x azimuth x polarisation')
ASSUMPTIONS = ['reference model mc/ref.py (Cartesian matrix-exponential Riccati solver) is the specification',
               'tolerance 1e-7 (double) / 1e-3 (single)', 'no configuration sits on a Rayleigh anomaly (kz = 0)']


def run(case, S):
    cfg, pols = case['cfg'], case['pols']
    prec = cfg.get('prec', 0)
    psis = [io.psi_of(dict(cfg, **p)) for p in pols]
    c0 = dict(cfg, **pols[0])
    R = o.Reference(c0, psis)
    for be in case['bes']:
        for i, p in enumerate(pols):
            c = dict(cfg, **p)
            S.state([be, c])
            got = S.call(f'{io.BACKENDS[be]} solve {p}', io.solve, be, c)
            S.traces += 1
            o.compare(S, be, c, got, R, ipsi=i, tol={0: 1e-7, 1: 1e-3}[prec],
                      tag=f'theta={c["theta"]:.3g} phi={c["phi"]} {p} fto={c["fto"]} L={len(c["thickness"])}')


def fam(stacks, names, ftos, fts, media, geos, thetas, phis, pols, bes, **kw):
    out = []
    for d in L.product(s=names, fto=ftos, ft=fts, geo=geos):
        cases = []
        for e in L.product(m=media, th=thetas, phi=phis):
            cases.append(dict(cfg=L.config(stacks[d['s']], e['m'], d['geo'], d['fto'], e['th'], e['phi'], d['ft'], **kw),
                              pols=pols, bes=bes))
        out.append(cases)
    return out


def groups(tier):
    T = tier == 'thorough'
    g = []
    P2 = [dict(psi=0.7), dict(psi=2.4)] + ([dict(pol=0), dict(pol=1), dict(pol=0.3), dict(psi=-0.5)] if T else [dict(pol=1)])
    NT = [0, 2]
    media = list(L.MEDIA) if T else ['glass-air', 'air-metal', 'glass-lossy']
    # scalar 1D
    for c in fam(L.STACKS_1D, list(L.STACKS_1D), [[0, 0], [1, 0], [4, 0]] + ([[2, 0], [9, 0]] if T else []), list(L.FT),
                 list(L.MEDIA), list(L.GEO) if T else ['A', 'B'], [0.0, 0.37, -0.61, 1.05], [None],
                 [dict(pol=0), dict(pol=1)], NT):
        g.append((len(c) * (1 + c[0]['cfg']['fto'][0] ** 2 / 8), c))
    # conical
    for c in fam(L.STACKS_1D, list(L.STACKS_1D), [[1, 0], [2, 1], [0, 2]] + ([[0, 0], [4, 0], [1, 3]] if T else []), list(L.FT),
                 media, ['A', 'C'] if T else ['A'], [0.0, 0.37, -0.61], [0.0, 0.6, 2.3, -1.1], P2, NT):
        g.append((len(c) * 4, c))
    # 2D raster
    for c in fam(L.STACKS_2D, list(L.STACKS_2D), [[0, 0], [1, 1], [2, 1]] + ([[3, 0], [0, 2], [1, 3], [3, 2]] if T else [[0, 2]]), list(L.FT),
                 media, ['A', 'C'] if T else ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3, -1.1], P2, NT):
        g.append((len(c) * (1 + c[0]['cfg']['fto'][0] * c[0]['cfg']['fto'][1]) * 5, c))
    # vector
    for c in fam(L.STACKS_V, list(L.STACKS_V), [[1, 1], [2, 1]] + ([[0, 2], [3, 2]] if T else []), ['dfs'], list(L.MEDIA) if T else media,
                 ['A'], [0.0, 0.37, -0.61], [None, 0.6, 2.3], P2, NT):
        g.append((len(c) * 10, c))
    # large and extreme structures, scales and angles
    XM = ['glass-air', 'air-metal'] + (['glass-lossy', 'air-high'] if T else [])
    P1 = [dict(pol=0), dict(pol=1)]
    for names, fto, ft in ((['wide'], [18, 0], ['dfs', 'cfs', 'plain']), (['tall', 'opaque', 'extreme'], [6, 0], ['dfs', 'cfs'])) + (((['wide', 'opaque'], [30, 0], ['dfs', 'cfs']),) if T else ()):
        for c in fam(L.X1, names, [fto], ft, XM, ['A', 'C'], [0.0, 0.37, 1.53], [None], P1, NT):
            g.append((len(c) * 40, c))
        for c in fam(L.X1, names, [[fto[0] // 2, 0]], ft, XM, ['A'], [0.37, -1.53], [1.5707963267948966, 3.3, 4.9, 7.1, -3.0], P2[:2], NT):
            g.append((len(c) * 60, c))
    for names, fto, ft in ((['wide'], [4, 3], ['dfs', 'cfs', 'plain']), (['tall', 'opaque', 'extreme'], [2, 2], ['dfs', 'cfs'])) + (((['wide', 'opaque'], [5, 6], ['dfs', 'cfs']),) if T else ()):
        for c in fam(L.X2, names, [fto], ft, XM, ['A'], [0.0, 0.37, -1.53] if T else [0.37], [1.5707963267948966, 3.3, 4.9, 7.1] if T else [4.9], P2[:1], NT):
            g.append((len(c) * 400, c))
    for k, geo in L.XGEO.items():
        f = {'um': 1e-3, 'si': 1e-9}.get(k, 1.0)
        for st, names, fto, ph, po in ((L.STACKS_1D, ['bin', 'lossy', 'film'], [3, 0], [None], P1), (L.STACKS_1D, ['bin', 'lossy'], [3, 0], [0.6, 4.1], P2[:2]),
                                       (L.STACKS_2D, ['bin', 'lossy'], [1, 2], [None, 0.6, 4.1], P2[:2])):
            for c in fam({n: L.scaled(st[n], f) for n in names}, names, [fto], ['dfs', 'cfs'], XM, [geo], [0.0, 0.37, -1.1], ph, po, NT):
                g.append((len(c) * 10, c))
    # every continuous input next to its special values
    for form in L.NEAR_FORMS:
        for ft in (['dfs', 'cfs'] if form != 'vec' else ['dfs']) + (['plain'] if T and form != 'vec' else []):
            cs = [dict(cfg=c, pols=P1 if form == '1d' else P2 if T else P2[:1] + P2[2:], bes=NT) for _, c in L.near(form, tuple(range(1, 12)) if T else (2, 3, 5, 7, 9), ft)]
            g += L.chunk(cs, 30, 5.0)
        cs = [dict(cfg=c, pols=P1 if form == '1d' else P2[:1], bes=[1]) for _, c in L.near(form, (1, 2, 3, 4, 5, 7, 9) if T else (3, 6) if form == '1d' else (3, 4, 6, 9))]
        g += L.chunk(cs, 40, 150.0 if form == '1d' else 30)
    # jax: fewer shapes (each costs a compilation), every value of the dynamic dimensions
    J = [1]
    jt = [0.0, 0.37, -0.61] if T else [0.0, 0.37]
    for names, ftos, fts in ((['bin', 'lossy'], [[2, 0]], ['dfs', 'cfs', 'plain']), (['thick', 'film'], [[1, 0]], ['dfs', 'cfs'])):
        for c in fam(L.STACKS_1D, names, ftos, fts, ['glass-air', 'glass-lossy'] + (['air-metal'] if T else []), ['A'], jt, [None],
                     [dict(pol=0), dict(pol=1)], J):
            g.append((len(c) * 150 + 1000, c))
    jm = list(L.MEDIA) if T else ['glass-air', 'glass-lossy', 'air-metal']
    jp = [0.0, 0.6, 2.3, -1.1] if T else [0.6, 2.3]
    for names, ftos, fts in ((['lossy'], [[2, 1]], ['dfs', 'cfs']), (['bin'], [[2, 0]], ['dfs', 'plain']), (['thick'], [[0, 1]], ['cfs'])):
        for c in fam(L.STACKS_1D, names, ftos, fts, jm, ['A'], jt + [-0.61], jp, P2[:2], J):
            g.append((len(c) * 30 + 1500, c))
    for names, ftos, fts in ((['lossy'], [[2, 1]], ['dfs', 'cfs']), (['bin'], [[1, 1]], ['plain', 'dfs']), (['thick'], [[1, 0]], ['cfs']),
                             (['two'], [[0, 1]], ['dfs'])):
        for c in fam(L.STACKS_2D, names, ftos, fts, jm, ['A'], jt + [-0.61], jp, P2[:2], J):
            g.append((len(c) * 30 + 2000, c))
    for c in fam(L.STACKS_V, list(L.STACKS_V), [[2, 1]], ['dfs'], jm, ['A'], jt, jp, P2[:2], J):
        g.append((len(c) * 60 + 2000, c))
    # single precision and pseudo-inverse
    for prec, pinv in ((1, False), (0, True), (1, True)):
        for st, ph, pol in ((L.STACKS_1D, None, [dict(pol=0), dict(pol=1)]), (L.STACKS_1D, 0.6, P2), (L.STACKS_2D, 2.3, P2)):
            for c in fam(st, ['bin', 'two'], [[2, 0], [1, 1]] if ph else [[2, 0]], list(L.FT), ['glass-air', 'air-metal'], ['A'],
                         [0.0, 0.37], [ph], pol, NT, prec=prec, pinv=pinv):
                g.append((len(c) * 4, c))
    return g
