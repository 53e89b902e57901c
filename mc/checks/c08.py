"""C08: vector shapes are drawn as described."""
import itertools

import numpy as np

from mc import geom
from mc import lattice as L
from mc import meentio as io

ID = 'C08'
BOUNDS = ('rectangles: 60 rotation angles over (-1, 2) turns incl. all quadrant neighbourhoods x splits 1..4 x 1..4 x 3 aspect ratios; ellipses: the same angles x 4..15 contour '
          'splits x 3 aspect ratios; all ordered lists of up to 3 out of 9 shapes (overlapping, nested, identical, touching, edge-sharing, cell-filling); tilings and piles of up to 30 shapes; several layers; backend')
ASSUMPTIONS = ['drawn grids are compared as functions on the cell: they may differ on at most 2e-6 of its area (the angle margin of the drawing routines) (1e-4 in single precision)',
               'ellipses whose highest contour points are level may be drawn with either of the two mirror-image staircases']

PER = [900.0, 700.0]


def build(be, v, per, prec):
    c = L.config(dict(v=v, d=[1.0] * len(v)), 'air-glass', dict(period=per, wavelength=610.0), [1, 1], 0.1, 0.2, psi=0.3, prec=prec)
    return io.build(be, c), io.vector(c)


def reference(layer, per):
    """All acceptable drawings of a layer (ties of ellipses can go either way)."""
    opts = []
    for sh in layer[1]:
        if sh[0] == 'ellipse' and geom.has_tie(sh):
            opts.append([geom.ellipse(*sh[1:], prefer_left=x) for x in (True, False)] + upside(sh))
        else:
            opts.append([geom.boxes([sh])])
    for pick in itertools.product(*opts):
        yield geom.paint(layer[0], [b for p in pick for b in p], per)


def upside(sh):
    """Alternative starting points of the zig-zag when several contour points are highest."""
    out = []
    for d in (-1e-9, 1e-9):
        s = list(sh[1:])
        while len(s) < 8:
            s.append([0.0, 2, 2][len(s) - 5])
        s[5] += d
        out += [geom.ellipse(*s, prefer_left=x) for x in (True, False)]
    return out


def run(case, S):
    per = case.get('period', PER)
    prec = case.get('prec', 0)
    tol = 2e-6 if not prec else 1e-4
    for v in case['vs']:
        for be in case['bes']:
            nm = io.BACKENDS[be]
            mee, vec = build(be, v, per, prec)
            S.state([be, v, per, prec])
            out = S.call(f'{nm} modeling_vector_instruction({v})', mee.modeling_vector_instruction, vec)
            S.traces += 1
            if not S.true(f'{nm}-layers', len(out) == len(v), f'{nm}: {len(out)} layers drawn for {len(v)}'):
                continue
            for i, (lay, spec) in enumerate(zip(out, io.vector(dict(ucell=dict(v=v))))):
                got = geom.drawn(lay, per)
                S.comparisons += 1
                for e, p in ((got[1], per[0]), (got[2], per[1])):
                    S.true(f'{nm}-edges', np.all(np.diff(e) >= -tol * p) and abs(e[-1] - p) <= tol * p, f'{nm} {spec}: edges {e[:8]}.. do not run up to the period')
                best = None
                for want in reference(spec, per):
                    d, area = geom.difference(got, want, per)
                    if best is None or area < best[1]:
                        best = (d, area)
                    if area < tol:
                        break
                if best[1] >= tol:
                    S.fail(f'{nm}-draw', f'{nm}-draw: {spec} is drawn wrongly on {best[1]:.3e} of the cell (index off by {best[0]:.3g})')
            if case.get('area') and not S.violations:
                sh = v[0][1][0]
                g, xe, ye = geom.drawn(out[0], per)
                w = np.outer(np.diff(ye), np.diff(xe))
                a = float(w[np.abs(g - io.vector(dict(ucell=dict(v=v)))[0][0]) > 1e-9].sum())
                if sh[0] == 'rectangle':
                    S.close(f'{nm}-area', a, sh[3] * sh[4], 1e-6 * sh[3] * sh[4], f'{nm} area of {sh}')
                else:
                    full = np.pi / 4 * sh[3] * sh[4]
                    k = sh[7] - 1
                    if k >= 60:
                        S.true(f'{nm}-converges', abs(a / full - 1) < 6.0 / k, f'{nm} {sh}: area {a} of {full} with {k} points')


def groups(tier):
    T = tier == 'thorough'
    q = np.pi / 2
    eps = [0.0, 1e-6, -1e-6, 3e-5, -3e-5, 1e-3, -1e-3]
    angles = sorted({round(k * q + e, 12) for k in (-1, 0, 1, 2, 3, 4) for e in eps} | {round(k * np.pi / 12 + 0.013, 9) for k in range(-6, 30)} |
                    {np.pi / 4, 3 * np.pi / 4, 5 * np.pi / 4, 7 * np.pi / 4, 9.0, -4.0})
    if T:
        angles = sorted(set(angles) | {round(k * np.pi / 60 + 0.007, 9) for k in range(-30, 150)})
    NT = [0, 2]
    g = []
    vs = []
    for a in angles:
        for (cx, cy, lx, ly) in ((430.0, 330.0, 300.0, 170.0), (510.0, 300.0, 120.0, 260.0), (400.0, 350.0, 210.0, 210.0)):
            for nt in (1, 2, 3, 4):
                for npar in (1, 2, 3, 4):
                    if T or (nt + npar) % 2 or (cx == 430 and nt == npar):
                        vs.append([[1.1, [['rectangle', cx, cy, lx, ly, 2.0, a, nt, npar]]]])
    ev = []
    for a in angles:
        for (cx, cy, lx, ly) in ((430.0, 330.0, 300.0, 170.0), (510.0, 300.0, 120.0, 260.0), (400.0, 350.0, 210.0, 210.0)):
            for n in (4, 5, 6, 8, 9, 12, 15) + ((7, 10, 11, 13, 20, 33) if T else ()):
                ev.append([[1.1, [['ellipse', cx, cy, lx, ly, 2.0, a, n, n]]]])
    for big in (61, 102):
        for a in angles[::7]:
            ev.append([[1.1, [['ellipse', 430.0, 330.0, 500.0, 310.0, 2.0, a, big, big]]]])
    SH = {
        'A': ['rectangle', 400, 310, 330, 190, 2.1], 'B': ['rectangle', 500, 400, 120, 330, {'c': [1.5, -0.2]}, 0.0],
        'C': ['rectangle', 565, 310, 100, 190, 1.5, 0, 1, 1],            # overlaps and shares edges with A
        'D': ['rectangle', 615, 310, 100, 190, 1.7, 0, 1, 1],            # touches A, shares y edges
        'E': ['rectangle', 400, 310, 330, 190, 1.3, np.pi, 3, 1],        # identical to A
        'F': ['rectangle', 420, 330, 260, 140, 1.9, 0.7],
        'G': ['ellipse', 420, 330, 410, 230, 1.8, 0.35, 8, 8],
        'H': ['rectangle', 450, 350, 900, 700, 1.2, 0, 2, 2],            # fills the cell
        'I': ['rectangle', 450, 350, 900, 100, 2.6, 0, 2, 2],            # a full-width line
    }
    lists = []
    for k in (0, 1, 2, 3):
        for perm in itertools.permutations(SH, k):
            lists.append([[1.0, [SH[s] for s in perm]]])
    lists += [[[1.0, [SH[a], SH[a], SH[b]]]] for a in SH for b in SH]
    multi = [[[1.0, [SH[a]]], [1.3, []], [{'c': [1.5, -0.1]}, [SH[b], SH[c]]]] for a in SH for b in SH for c in 'ADG' if b != c]
    same = [[[1.0, [['rectangle', cx, cy, 200.0, 100.0, 2.0, 0.0, 1, 1], ['rectangle', cx + dx, cy + dy, 200.0, 100.0, 1.5, 0.0, 1, 1]]]]
            for cx in (200.0, 310.0) for cy in (150.0, 333.3) for dx in (-100.0, -50.0, 0.0, 50.0, 200.0, 300.0) for dy in (0.0, 50.0, 100.0, 250.0, 1e-9)
            if cx + dx >= 100]
    # arrays of equal shapes: touching tiles that share all edges, gaps, repeated and nested shapes, reversed order
    tiles = []
    for nx, ny in itertools.product((1, 2, 3, 4, 6), (1, 2, 3, 5)):
        w_, h_ = PER[0] / nx, PER[1] / ny
        for fx, fy in ((1.0, 1.0), (0.5, 1.0), (0.6, 0.7)):
            cell = [['rectangle', (i + 0.5) * w_, (j + 0.5) * h_, fx * w_, fy * h_, 1.0 + 0.1 * ((3 * i + 5 * j) % 7), 0.0, 1, 1] for i in range(nx) for j in range(ny)]
            tiles += [[[1.05, cell]], [[1.05, cell[::-1]]]]
    for n in (2, 4, 7, 12):
        tiles.append([[1.0, [['rectangle', 450.0, 350.0, 400.0, 300.0, 1.1 + 0.1 * i, 0.0, 1, 1] for i in range(n)]]])
        tiles.append([[1.0, [['rectangle', 450.0, 350.0, 800.0 - 60.0 * i, 600.0 - 45.0 * i, 1.1 + 0.1 * i, 0.0, 1, 1] for i in range(n)]]])
        tiles.append([[1.0, [['rectangle', 450.0, 350.0, 90.0 + 60.0 * i, 600.0, 1.1 + 0.1 * i, 0.0, 1, 1] for i in range(n)]]])
    for block, w, area in ((tiles, 5.0, False), (vs, 1.0, True), (ev, 1.2, True), (lists, 1.2, False), (multi, 2.0, False), (same, 1.0, False)):
        for i in range(0, len(block), 60):
            g.append((60 * w, [dict(vs=[v], bes=NT, area=area) for v in block[i:i + 60]]))
    for i, per in enumerate(([1.0, 1.3], [7.5e-7, 6.0e-7])):
        sc = per[0] / 900.0
        block = []
        for v in vs[::97] + ev[::41]:
            s = v[0][1][0]
            block.append([[1.1, [[s[0]] + [x * sc for x in s[1:5]] + s[5:]]]])
        g.append((60, [dict(vs=[v], bes=NT, period=per) for v in block]))
    g.append((60, [dict(vs=[v], bes=NT, prec=1) for v in vs[::31] + lists[::9] if not any(s[0] == 'ellipse' for l in v for s in l[1])]))
    j = vs[::(61 if not T else 13)] + ev[::(43 if not T else 11)] + lists[1:10] + lists[10:82:3] + lists[83::(37 if not T else 7)] + same[::5] + multi[::40] + tiles[::9]
    for i in range(0, len(j), 20):
        g.append((500, [dict(vs=[v], bes=[1], area=len(v) == 1 and len(v[0][1]) == 1 and len(v[0][1][0]) > 7) for v in j[i:i + 20]]))
    return g
