"""C04: equivalent descriptions of one structure give the same answer."""
import itertools

import numpy as np

from mc import lattice as L
from mc import meentio as io

ID = 'C04'
BOUNDS = ('every two-index pixel pattern of a line cell (N <= 5, 6 thorough) and of a 2x2 / 2x3 cell, one or two patterned layers, graded cells, x equivalent descriptions '
          '(scalar 1D, conical, 2D, lines along y, refined pixels, vector rectangles, merged rectangles, split layers at 3 ratios, zero layers at every position) '
          'x illumination x media x Fourier series x backend')
ASSUMPTIONS = ['tolerance 1e-8', 'pixel refinement and vector shapes are compared under the analytic series only']

DE = ('de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')
AM = ('R_s', 'R_p', 'T_s', 'T_p')


def raster_of(a):
    a = np.asarray(a)
    u = {'r': a.real.tolist()}
    if np.iscomplexobj(a):
        u['i'] = a.imag.tolist()
    return u


def boxes_of(a, period, merge):
    """raster (L, rows, cols) -> vector instructions of axis-aligned rectangles."""
    out = []
    for lay in a:
        rows, cols = lay.shape
        base = lay[0, 0]
        enc = lambda v: {'c': [v.real, v.imag]} if np.iscomplexobj(lay) else float(v)
        shapes = []
        dx, dy = period[0] / cols, period[1] / rows
        for r in range(rows):
            y = period[1] - (r + 0.5) * dy                 # the first row is the top of the cell
            c = 0
            while c < cols:
                e = c + 1
                if merge:
                    while e < cols and lay[r, e] == lay[r, c]:
                        e += 1
                if not merge or lay[r, c] != base:
                    shapes.append(['rectangle', (c + e) / 2 * dx, y, (e - c) * dx, dy, enc(lay[r, c]), 0.0, 1, 1])
                c = e
        out.append([enc(base), shapes])
    return out


def variants(case, be):
    """-> list of (name, cfg, transform of an order map, compare amplitudes)."""
    base = case['cfg']
    a = io.raster(base)
    Lr, rows, cols = a.shape
    one = case['form'] == 'line'
    cfs = base['fourier_type'] == 1
    d = base['thickness']
    keep, tr = (lambda m: m), (lambda m: m.T)
    out = []
    fx, fy = base['fto']

    def emb(k):
        def f(m):
            return m[k:m.shape[0] - k]
        return f
    if one and base['phi'] is None and fy == 0:
        out.append(('conical', dict(base, phi=0.0 if be != 2 else 2 * np.pi), keep, False))
    if one:
        two = raster_of(np.repeat(a, 2, axis=1))
        out.append(('2D', dict(base, ucell=two), keep, False))
        out.append(('2D-yorders', dict(base, ucell=two, fto=[fx, fy + 1]), emb(1), False))
        out.append(('conical-yorders', dict(base, fto=[fx, fy + 1]), emb(1), False))
        if fy == 0:
            out.append(('y-period', dict(base, period=[base['period'][0], base['period'][1] * 1.7]), keep, True))
        p = base['period']
        alongy = np.transpose(a, (0, 2, 1))[:, ::-1]
        out.append(('along-y', dict(base, ucell=raster_of(alongy), period=[p[1], p[0]], fto=[fy, fx],
                                    phi=(base['phi'] or 0.0) + np.pi / 2), 'along-y', False))
    if cfs:
        for ky, kx in case['refine']:
            out.append((f'refined {ky}x{kx}', dict(base, ucell=raster_of(np.repeat(np.repeat(a, ky, axis=1), kx, axis=2))), keep, True))
        if fy or not one or base['phi'] is not None:
            for mg in (False, True):
                out.append((f'vector merge={mg}', dict(base, ucell={'v': boxes_of(a, base['period'], mg)}), keep, True))
    for i in range(Lr):
        for f in case['split']:
            b = np.insert(a, i, a[i], axis=0)
            dd = d[:i] + [d[i] * f, d[i] * (1 - f)] + d[i + 1:]
            out.append((f'split layer {i} at {f}', dict(base, ucell=raster_of(b), thickness=dd), keep, True))
    for i in range(Lr + 1):
        for fill in ('copy', 'film', 'other'):
            z = {'copy': a[min(i, Lr - 1)], 'film': np.full((rows, cols), 1.33), 'other': a[0][::-1, ::-1] + 0.4}[fill]
            b = np.insert(a, i, z, axis=0)
            out.append((f'zero layer {fill} at {i}', dict(base, ucell=raster_of(b), thickness=d[:i] + [0.0] + d[i:]), keep, True))
    return out


def run(case, S):
    for be in case['bes']:
        nm = io.BACKENDS[be]
        for p in case['pols']:
            cfg = dict(case['cfg'], **p)
            S.state([be, cfg])
            g0 = S.call(f'{nm} base', io.solve, be, cfg)
            for name, vc, tr, amps in variants(case, be):
                if case.get('only') and not any(name.startswith(o) for o in case['only']):
                    continue
                vc = dict(vc, **p)
                S.state([be, vc])
                g1 = S.call(f'{nm} {name}', io.solve, be, vc)
                S.traces += 1
                if amps and io.is_1d(be, cfg) != io.is_1d(be, vc):
                    amps = False
                for w in ('res', 'te', 'tm'):
                    if g0[w] is None or g1[w] is None:
                        continue
                    for k in DE + (AM if amps else ()):
                        x = g1[w][k]
                        y = g0[w][k]
                        if tr == 'along-y':      # the whole set-up turned by 90 degrees: (m, n) -> (-n, m)
                            x, y = x.T, y[::-1]
                        else:
                            x = tr(x)
                        S.close(f'{nm}-{name.split()[0]}', x, y, 1e-8, f'{name}: {w}.{k}, {p} theta={cfg["theta"]} phi={cfg["phi"]} fto={cfg["fto"]} cell={cfg["ucell"]["r"]}')


def patterns(n, rows=1):
    for bits in itertools.product((0, 1), repeat=n * rows):
        yield np.array(bits).reshape(rows, n)


def groups(tier):
    T = tier == 'thorough'
    g = []

    def cell(kind, pat, second):
        if kind in 'gh':         # nearly equal neighbours: steps of 5e-5 .. 1e-2, or 5e-8 .. 1e-5
            r, c = np.indices(pat.shape)
            e = {'g': 2, 'h': 5}[kind]
            a = (1.5 + (np.cumsum(pat, axis=1) * 10.0 ** -(e + (c % 3)) + 0.5 * 10.0 ** -(e + (r % 3))))[None]
        else:
            lo, hi = {'d': (1.0, 2.1), 'm': (1.5 + 0j, 0.4 - 2.9j)}[kind]
            a = np.where(pat, hi, lo)[None]
        if second:
            b = np.full_like(a, 1.7)
            b[0, 0, 0] = 1.2
            a = np.concatenate([a, b])
        return a

    def add(form, pats, kinds, seconds, medias, geos, illum, ftos, fts, pols, bes, w, w0=0.0, only=None, split=(0.35,), refine=((1, 2), (3, 1))):
        for d in L.product(fto=ftos, ft=fts, second=seconds, kind=kinds, m=medias, geo=geos):
            cases = []
            for pat in pats:
                for th, phi in illum:
                    a = cell(d['kind'], pat, d['second'])
                    c = L.config(dict(r=None, d=[210.0, 160.0][:len(a)]), d['m'], d['geo'], d['fto'], th, phi, d['ft'])
                    c['ucell'] = raster_of(a)
                    cases.append(dict(form=form, cfg=c, pols=pols, bes=bes, split=list(split), refine=[list(r) for r in refine], only=only))
            for q in L.chunk(cases, 24 if w0 == 0 else 10 ** 6, len(pols) * w):
                g.append((q[0] + w0, q[1]))
    P1 = [dict(pol=0), dict(pol=1)]
    PX = [dict(psi=0.7)] + ([dict(psi=2.2)] if T else [])
    NT = [0, 2]
    IL1 = [(0.0, None), (0.37, None), (-0.9, None)]
    ILC = [(0.0, 0.4), (0.37, 0.6), (-0.61, 2.3)]
    pats = [p for n in (2, 3, 4, 5) + ((6,) if T else ()) for p in patterns(n)]
    med = ['air-glass', 'glass-lossy'] if not T else list(L.MEDIA)
    small = pats if T else [p for p in pats if p.shape[1] < 5]
    add('line', pats, ['m'], [False], med[1:] if not T else med, ['A'], IL1[1:], [[2, 0]], ['dfs', 'cfs'], P1, NT, 1)
    add('line', small, ['d'], [False], med, ['A'], IL1, [[0, 0], [1, 0]], ['dfs', 'cfs'], P1, NT, 1)
    add('line', small, ['d', 'm'], [True], ['glass-lossy'] if not T else med, ['B'], IL1[1:2] if not T else IL1, [[1, 0]], ['plain', 'cfs'], P1, NT, 1)
    add('line', [p for p in pats if p.shape[1] in (3, 4)], ['d', 'm'], [True], ['glass-lossy'] if not T else med, ['A'], ILC, [[1, 0]] + ([[1, 1], [2, 0]] if T else []), ['dfs', 'cfs'], PX, NT, 3)
    c22, c23 = list(patterns(2, 2)), list(patterns(3, 2))
    add('cell', c22 + (c23 if T else c23[1:32:2]), ['d', 'm'], [False], ['glass-lossy'] if not T else med, ['A'], ILC[1:2] + [(-0.61, None)], [[1, 1]] + ([[2, 0], [0, 2]] if T else []), ['dfs', 'cfs'], PX[:1], NT, 6, split=(0.35,) if not T else (0.35, 0.5, 0.8))
    add('cell', c22[1:14:3], ['d', 'm'], [True], ['glass-air'], ['C'], ILC, [[1, 1], [2, 0], [0, 1]], ['cfs'], PX[:1], NT, 8)
    # graded cells
    add('line', pats[-31::2], ['g', 'h'], [False], ['glass-air'], ['A'], ILC[1:2], [[2, 0]], ['cfs'], PX[:1], NT, 3)
    add('cell', c23[1::6], ['g', 'h'], [False], ['glass-air'], ['A'], ILC[1:2], [[1, 1]], ['cfs'], PX[:1], NT, 6)
    # every continuous input next to each of its special values
    for form, pp in (('1d', P1), ('con', PX[:1]), ('2d', PX[:1])):
        for ft in ('dfs', 'cfs'):
            cs = [dict(form='cell' if form == '2d' else 'line', cfg=c, pols=pp, bes=NT, split=[0.35], refine=[[1, 2], [3, 1]], only=None)
                  for name, c in L.near(form, (2, 3, 5, 7, 9) if T else (3, 5, 8), ft)]
            g.extend(L.chunk(cs, 12, len(pp) * (2 if form == '1d' else 6)))
    J = [1]
    p4 = list(patterns(4)) if T else [p for p in patterns(4)][1:8:2]
    add('line', p4, ['d'], [False], ['glass-lossy'], ['A'], IL1[1:2], [[1, 0]], ['dfs', 'cfs'], P1, J, 60, 500, only=['conical', '2D', 'along', 'split', 'zero layer other at 0', 'refined 1x2'])
    add('line', p4, ['m'], [True], ['glass-lossy'], ['A'], ILC[1:], [[1, 0]], ['cfs', 'dfs'], PX[:1], J, 20, 500, only=['2D', 'vector merge=True', 'along', 'split layer 1', 'zero layer film', 'refined 1x2'])
    add('cell', c22 if T else c22[1:12:3], ['m'], [False], ['glass-lossy'], ['A'], ILC[1:], [[1, 1]], ['cfs', 'dfs'], PX[:1], J, 20, 500, only=['vector merge=False', 'split layer', 'zero layer film', 'zero layer copy', 'refined 3x1'])
    return g
