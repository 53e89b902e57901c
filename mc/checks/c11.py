"""C11: symmetry operations and reciprocity relate pairs of solves."""
import copy
import itertools

import numpy as np

from mc import lattice as L
from mc import meentio as io

ID = 'C11'
BOUNDS = ('every structure x illumination of the lattice x every operation (mirrors, half and quarter turns, axis exchange, every pixel translation, '
          'vector translations across the border, whole and half turns of the azimuth, scalings from 1e-9 to 1e6, super-cells of 2 and 3, polarisation '
          'at normal incidence, reciprocity of reflection and transmission) x backend')
ASSUMPTIONS = ['reciprocity is exact for order 0 at any truncation; for other orders it is checked where the truncated series has converged']
PI = np.pi
SUBS = ('res', 'te', 'tm')
DE = ('de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')


# ---------------------------------------------------------------- operations: cfg -> cfg, array mapping
def ras(cfg, fn):
    """Apply fn to the pixel array of every layer: axes (rows, cols)."""
    c = copy.deepcopy(cfg)
    for k in ('r', 'i'):
        if k in c['ucell']:
            c['ucell'][k] = [fn(np.array(l)).tolist() for l in c['ucell'][k]]
    return c


def vec(cfg, fn):
    c = copy.deepcopy(cfg)
    c['ucell']['v'] = [[b, [fn(list(s)) for s in shapes]] for b, shapes in c['ucell']['v']]
    return c


def pol(c, f):
    """Map psi by f. Integer pol stays (TE and TM map to themselves up to sign)."""
    if 'psi' in c:
        c['psi'] = f(c['psi'])
    return c


def mirror_x(cfg):
    px = cfg['period'][0]
    c = vec(cfg, lambda s: [s[0], px - s[1], *s[2:6], -s[6], *s[7:]]) if 'v' in cfg['ucell'] else ras(cfg, lambda a: a[:, ::-1])
    if c['phi'] is None:
        c['theta'] = -c['theta']
    else:
        c['phi'] = PI - c['phi']
    return pol(c, lambda p: -p), lambda a: a[:, ::-1]


def mirror_y(cfg):
    py = cfg['period'][1]
    c = vec(cfg, lambda s: [s[0], s[1], py - s[2], *s[3:6], -s[6], *s[7:]]) if 'v' in cfg['ucell'] else ras(cfg, lambda a: a[::-1])
    c['phi'] = -c['phi']
    return pol(c, lambda p: -p), lambda a: a[::-1]


def half_turn(cfg):
    px, py = cfg['period']
    c = vec(cfg, lambda s: [s[0], px - s[1], py - s[2], *s[3:]]) if 'v' in cfg['ucell'] else ras(cfg, lambda a: a[::-1, ::-1])
    c['phi'] = c['phi'] + PI
    return c, lambda a: a[::-1, ::-1]


def swap(cfg):
    if 'v' in cfg['ucell']:
        c = vec(cfg, lambda s: [s[0], s[2], s[1], s[4], s[3], s[5], -s[6], *s[7:]])
    else:
        c = ras(cfg, lambda a: a[::-1].T[::-1])
    c['phi'] = PI / 2 - c['phi']
    c['period'] = c['period'][::-1]
    c['fto'] = c['fto'][::-1]
    return pol(c, lambda p: -p), lambda a: a.T


def quarter(cfg):
    """Turn the structure and the illumination by +90 degrees: (x, y) -> (-y, x)."""
    px, py = cfg['period']
    if 'v' in cfg['ucell']:
        c = vec(cfg, lambda s: [s[0], py - s[2], s[1], s[4], s[3], s[5], s[6], *s[7:]])
    else:
        c = ras(cfg, lambda a: a[::-1].T[:, ::-1][::-1])
    c['phi'] = c['phi'] + PI / 2
    c['period'] = c['period'][::-1]
    c['fto'] = c['fto'][::-1]
    # order (m, n) of the original -> (-n, m)
    return c, lambda a: a.T[:, ::-1]


def shift(kx, ky):
    def f(cfg):
        if 'v' in cfg['ucell']:
            px, py = cfg['period']
            return vec(cfg, lambda s: [s[0], s[1] + kx * px / 7, s[2] + ky * py / 5, *s[3:]]), lambda a: a
        return ras(cfg, lambda a: np.roll(np.roll(a, kx, axis=1), ky, axis=0)), lambda a: a
    return f


def turns(k):
    def f(cfg):
        c = copy.deepcopy(cfg)
        c['phi'] += 2 * PI * k
        return c, lambda a: a
    return f


def opposite(k):
    def f(cfg):
        c = copy.deepcopy(cfg)
        c['theta'] = -c['theta']
        c['phi'] += PI * k
        return c, lambda a: a
    return f


def scale(s):
    def f(cfg):
        c = copy.deepcopy(cfg)
        if 'v' in c['ucell']:
            c = vec(c, lambda v: [v[0], *[q * s for q in v[1:5]], *v[5:]])
        c['period'] = [p * s for p in c['period']]
        c['thickness'] = [d * s for d in c['thickness']]
        c['wavelength'] *= s
        return c, lambda a: a
    return f


def run_pair(case, S):
    be, cfg = case['be'], case['cfg']
    bn = io.BACKENDS[be]
    a = S.call(f'{bn} solve', io.solve, be, cfg)
    S.state([be, cfg])
    for nm in case['ops']:
        fn = OPS[nm]
        c, mp = fn(cfg)
        S.state([be, cfg, nm])
        S.traces += 1
        b = S.call(f'{bn} solve after {nm}', io.solve, be, c)
        tol = case.get('tol') or (1e-7 if nm not in ('scale-1e-9', 'scale-1e6') else 1e-6)
        for sub in SUBS:
            if (a[sub] is None) != (b[sub] is None):
                S.fail(f'{bn}-{nm}', f'{bn}-{nm}: {sub} present in one result only')
            if a[sub] is None or b[sub] is None:
                continue
            for k in DE:
                S.close(f'{bn}-{nm}', b[sub][k], mp(a[sub][k]), tol,
                        f'{describe(cfg)} {sub}.{k}')


def describe(c):
    return f"theta={c['theta']} phi={c['phi']} fto={c['fto']} ft={c['fourier_type']} " + (f"psi={c['psi']}" if 'psi' in c else f"pol={c['pol']}")


OPS = {'mirror-x': mirror_x, 'mirror-y': mirror_y, 'half-turn': half_turn, 'swap': swap, 'quarter': quarter,
       'turn+1': turns(1), 'turn-2': turns(-2), 'opposite+': opposite(1), 'opposite-': opposite(-1),
       'scale-1e-9': scale(1e-9), 'scale-0.37': scale(0.37), 'scale-2': scale(2.0), 'scale-1e6': scale(1e6)}
for _x, _y in itertools.product(range(-1, 7), range(-1, 5)):
    OPS[f'shift{_x},{_y}'] = shift(_x, _y)


# ---------------------------------------------------------------- super-cells
def run_super(case, S):
    be, cfg, kx, ky = case['be'], case['cfg'], case['kx'], case['ky']
    bn = io.BACKENDS[be]
    a = S.call(f'{bn} solve', io.solve, be, cfg)
    px, py = cfg['period']
    if 'v' in cfg['ucell']:
        c = copy.deepcopy(cfg)
        c['ucell']['v'] = [[b, [[s[0], s[1] + i * px, s[2] + j * py, *s[3:]] for i in range(kx) for j in range(ky) for s in shapes]]
                           for b, shapes in cfg['ucell']['v']]
    else:
        c = ras(cfg, lambda u: np.tile(u, (ky, kx)))
    c['period'] = [px * kx, py * ky]
    nx, ny = cfg['fto']
    c['fto'] = [nx * kx + case['extra'] * (kx > 1), ny * ky]
    S.state([be, cfg, kx, ky])
    S.traces += 1
    b = S.call(f'{bn} super-cell', io.solve, be, c)
    Nx, Ny = c['fto']
    for sub in SUBS:
        if a[sub] is None or b[sub] is None:
            continue
        for k in DE:
            want = np.zeros((2 * Ny + 1, 2 * Nx + 1))
            for i in range(-ny, ny + 1):
                for j in range(-nx, nx + 1):
                    want[Ny + i * ky, Nx + j * kx] = a[sub][k][ny + i, nx + j]
            S.close(f'{bn}-super', b[sub][k], want, 1e-7, f'{describe(cfg)} x{kx},{ky} {sub}.{k}')


# ---------------------------------------------------------------- normal incidence: only the field direction counts
def run_normal(case, S):
    be, cfg = case['be'], case['cfg']
    bn = io.BACKENDS[be]
    ref = None
    for phi, tot in itertools.product(case['phis'], case['tots']):
        c = copy.deepcopy(cfg)
        c['theta'], c['phi'], c['psi'] = 0.0, phi, tot - phi
        S.state([be, c])
        S.traces += 1
        a = S.call(f'{bn} solve', io.solve, be, c)['res']
        if phi == case['phis'][0]:
            ref = ref or {}
            ref[tot] = a
            continue
        for k in ('de_ri', 'de_ti'):
            S.close(f'{bn}-normal', a[k], ref[tot][k], 1e-6, f'phi={phi} psi={tot - phi} {k}')
        for k in ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
            x, y = a[k].copy(), ref[tot][k].copy()
            x[x.shape[0] // 2, x.shape[1] // 2] = y[y.shape[0] // 2, y.shape[1] // 2] = 0    # its plane of incidence is phi itself
            S.close(f'{bn}-normal', x, y, 1e-6, f'phi={phi} psi={tot - phi} {k}')


# ---------------------------------------------------------------- reciprocity
def flip(cfg):
    c = copy.deepcopy(cfg)
    c['n_top'], c['n_bot'] = cfg['n_bot'], cfg['n_top']
    c['thickness'] = cfg['thickness'][::-1]
    for k in ('r', 'i', 'v'):
        if k in c['ucell']:
            c['ucell'][k] = c['ucell'][k][::-1]
    return c


def reverse(cfg, m, n, side):
    """The configuration whose source stands where order (m, n) of cfg left, on the given side. None if evanescent."""
    nt = cfg['n_top']
    phi = 0.0 if cfg['phi'] is None else cfg['phi']
    kx = nt * np.sin(cfg['theta']) * np.cos(phi) + m * cfg['wavelength'] / cfg['period'][0]
    ky = nt * np.sin(cfg['theta']) * np.sin(phi) + n * cfg['wavelength'] / cfg['period'][1]
    med = nt if side == 'r' else cfg['n_bot']
    s = np.hypot(kx, ky) / med
    if s > 0.995:
        return None
    c = copy.deepcopy(cfg) if side == 'r' else flip(cfg)
    if cfg['phi'] is None:
        c['theta'] = float(np.arcsin(-kx / med))
    else:
        c['theta'] = float(np.arcsin(s))
        c['phi'] = float(np.arctan2(-ky, -kx))
    return c


def run_recip(case, S):
    be, cfg, tol = case['be'], case['cfg'], case['tol']
    bn = io.BACKENDS[be]
    a = S.call(f'{bn} solve', io.solve, be, cfg)
    nx, ny = cfg['fto']
    for m, n in itertools.product(range(-case['mx'], case['mx'] + 1), range(-case['my'], case['my'] + 1)):
        for side in 'rt':
            c = reverse(cfg, m, n, side)
            if c is None:
                continue
            S.state([be, cfg, m, n, side])
            S.traces += 1
            b = S.call(f'{bn} reversed', io.solve, be, c)
            # the reversed wave comes back in order (m, n) of the reversed problem
            at = (ny + n, nx + m)
            d = 'de_ri' if side == 'r' else 'de_ti'
            if a['te'] is None:
                S.close(f'{bn}-reciprocity', b['res'][d][at], a['res'][d][at], tol, f'{describe(cfg)} order {m},{n} {side}')
                continue
            for (p, x), (q, y) in itertools.product((('te', 's'), ('tm', 'p')), repeat=2):
                S.close(f'{bn}-reciprocity', b[q][f'{d}_{x}'][at], a[p][f'{d}_{y}'][at], tol, f'{describe(cfg)} order {m},{n} {side} {p}->{y}')


KIND = dict(pair=run_pair, super=run_super, normal=run_normal, recip=run_recip)


def run(case, S):
    KIND[case['kind']](case, S)
    if case.get('be') == 1:
        io.mods()['jax'].clear_caches() if case.get('clear') else None


def groups(tier):
    th = tier == 'thorough'
    out = []
    V = {'rect': L.STACKS_V['rect'],
         'two': dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1], ['rectangle', 500, 400, 120, 330, {'c': [1.5, -0.2]}, 0.0, 1, 1]]],
                        [1.0, [['rectangle', 420, 330, 410, 230, 1.8, 0.5, 3, 4]]]], d=[150.0, 280.0])}
    allsh = lambda rows, cols: [f'shift{x},{y}' for x in range(cols) for y in range(rows) if (x, y) != (0, 0)]
    common = ['scale-1e-9', 'scale-0.37', 'scale-2', 'scale-1e6']
    conic = ['mirror-x', 'half-turn', 'turn+1', 'turn-2', 'opposite+', 'opposite-'] + common
    full = ['mirror-x', 'mirror-y', 'half-turn', 'turn+1', 'turn-2', 'opposite+', 'opposite-'] + common
    for be in (0, 1, 2):
        j = be == 1
        media = ['air-glass', 'glass-lossy'] + ([] if j and not th else ['glass-air']) + (['air-metal', 'air-high'] if th else [])
        # 1D
        cs = []
        for d in L.product(s=['bin', 'lossy'] + ([] if j else ['two']) + (['fine', 'thick'] if th and not j else []), ft=['dfs', 'cfs'] + (['plain'] if th and not j else []), m=media[:1] if j else media,
                           g=['A'] if j else ['A', 'B'], t=[0.35, -0.8] if not j else [0.35], p=[0, 1], f=[[3, 0]]):
            if j and (d['s'], d['ft'], d['p']) not in (('bin', 'cfs', 1), ('lossy', 'dfs', 0), ('bin', 'dfs', 1)):
                continue
            st = L.STACKS_1D[d['s']]
            cols = len(st['r'][0][0])
            cs.append(dict(kind='pair', be=be, ops=['mirror-x'] + common + allsh(1, cols),
                           cfg=L.config(st, d['m'], d['g'], d['f'], d['t'], None, d['ft'], pol=d['p'])))
        out += L.chunk(cs, 2 if j else 8, 12.0 if j else 0.2)
        # conical, 2D, vector
        fams = []
        angs = [(0.35, 0.4), (0.8, 2.2), (-0.5, -1.0), (0.3, 4.4)] if not j else [(0.35, 0.4), (-0.5, -1.0)]
        if th:
            angs += [(1.3, 5.9), (0.02, 3.2), (-1.1, 1.7)]
        for s in (['bin', 'lossy'] if not j else ['bin']):
            st = L.STACKS_1D[s]
            fams += [(st, [2, 0], ft, conic + allsh(1, len(st['r'][0][0]))) for ft in (['dfs', 'cfs'] if not j else ['dfs'])]
        for s in (['bin', 'lossy', 'two'] if not j else ['bin']) + (['fine'] if th and not j else []):
            st = L.STACKS_2D[s]
            fams += [(st, [2, 1], ft, full + allsh(len(st['r'][0]), len(st['r'][0][0]))) for ft in (['dfs', 'cfs'] if not j else ['cfs'])]
        for s in (['rect', 'two'] if not j else ['rect']):
            sh = [f'shift{x},{y}' for x, y in ((1, 0), (0, 1), (3, 2), (5, 4), (-1, -1), (6, 0))]
            fams.append((V[s], [1, 1] if j else [2, 1], 'cfs', ['mirror-x', 'mirror-y', 'half-turn', 'turn+1', 'opposite+'] + common[1:3] + (sh if not j else sh[2:4])))
        for st, fto, ft, ops in fams:
            cs = []
            for m, (t, p) in itertools.product(media[:1] if j else media, angs):
                for q in ([dict(psi=0.6)] if j else [dict(psi=0.6), dict(psi=-1.1)] if not th else [dict(psi=0.6), dict(psi=-1.1), dict(pol=0), dict(pol=1)]):
                    cs.append(dict(kind='pair', be=be, ops=ops, cfg=L.config(st, m, 'A', fto, t, p, ft, **q)))
            out += L.chunk(cs, 6 if j else 2, 10.0 if j else 1.0)
        # 1D patterns solved as 2D: exchange gives line gratings along y
        if not j:
            cs = [dict(kind='pair', be=be, ops=['swap', 'quarter', 'mirror-x', 'mirror-y'], cfg=L.config(dict(r=[[[1.0, 1.0, 2.2, 1.4]] * 2], d=[310.0]), m, 'A', [2, 1], t, p, 'dfs', psi=0.6))
                  for m in media for t, p in angs]
            out += L.chunk(cs, 6, 0.6)
            # 2D patterns: exchange changes which axis is factorised first, equal within the truncation error
            lo2 = dict(r=[[[1.0, 1.12, 1.05], [1.1, 1.0, 1.0]]], d=[200.0])
            lov = dict(v=[[1.0, [['rectangle', 400, 310, 330, 190, 1.12, 0.0, 1, 1]]]], d=[200.0])
            cs = [dict(kind='pair', be=be, ops=['swap', 'quarter'], tol=1e-4, cfg=L.config(st, 'air-glass', 'A', [3, 3], t, p, 'cfs', psi=0.6))
                  for st in (lo2, lov) for t, p in angs]
            out += L.chunk(cs, 2, 2.0)
        # super-cells
        cs = []
        if not j:
            for s, p in itertools.product(['bin', 'two', 'lossy'], [0, 1]):
                for kx in (2, 3):
                    cs += [dict(kind='super', be=be, kx=kx, ky=1, extra=e, cfg=L.config(L.STACKS_1D[s], m, 'A', [2, 0], 0.35, None, 'cfs', pol=p)) for m in media for e in range(kx)]
            for s in ['bin', 'two', 'lossy']:
                for kx, ky in ((2, 1), (1, 2), (2, 2)):
                    cs += [dict(kind='super', be=be, kx=kx, ky=ky, extra=0, cfg=L.config(L.STACKS_2D[s], 'air-glass', 'A', [1, 1], 0.35, 0.4, 'cfs', psi=0.6))]
            cs += [dict(kind='super', be=be, kx=kx, ky=ky, extra=0, cfg=L.config(V[s], 'air-glass', 'A', [1, 1], 0.35, 0.4, 'cfs', psi=0.6)) for s in V for kx, ky in ((2, 1), (1, 2))]
            out += L.chunk(cs, 6, 0.5)
        else:
            out.append((10.0, [dict(kind='super', be=be, kx=2, ky=1, extra=1, cfg=L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [2, 0], 0.35, None, 'cfs', pol=1))]))
        # normal incidence
        for st, fto in ((L.STACKS_1D['bin'], [2, 0]), (L.STACKS_2D['bin'], [1, 1])):
            cs = [dict(kind='normal', be=be, phis=[0.0, 0.7, -1.2] + ([2.9, 5.0] if th else []), tots=[0.3, 1.4, -0.6], cfg=L.config(st, m, 'A', fto, 0.0, 0.0, 'dfs', psi=0.0)) for m in (media[:1] if j else media)]
            out.append((10.0 if j else 1.0, cs))
        # reciprocity of order 0
        md = ['air-glass', 'glass-air', 'air-high'] if th else ['air-glass', 'glass-air']
        cs = []
        if not j:
            for s, ft, m, t, p in itertools.product(['bin', 'two', 'lossy'], ['dfs', 'cfs', 'plain'], md, [0.35, -0.6], [0, 1]):
                cs.append(dict(kind='recip', be=be, mx=0, my=0, tol=1e-7, cfg=L.config(L.STACKS_1D[s], m, 'A', [3, 0], t, None, ft, pol=p)))
        for s, ft, m, (t, p) in itertools.product(['bin', 'two', 'lossy'] if not j else ['bin'], ['dfs', 'cfs'] if not j else ['dfs'], md, angs[:2]):
            cs.append(dict(kind='recip', be=be, mx=0, my=0, tol=1e-7, cfg=L.config(L.STACKS_2D[s], m, 'A', [1, 1], t, p, ft, psi=0.6)))
            if not j:
                cs.append(dict(kind='recip', be=be, mx=0, my=0, tol=1e-7, cfg=L.config(L.STACKS_1D[s], m, 'A', [2, 0], t, p, ft, psi=0.6)))
        out += L.chunk(cs, 12, 8.0 if j else 0.6)
        # reciprocity of the other orders, converged
        if not j:
            cs = [dict(kind='recip', be=be, mx=2, my=0, tol=1e-4, cfg=L.config(L.STACKS_1D['two'], m, 'A', [40, 0], t, None, 'cfs', pol=0)) for m in md for t in (0.35, -0.2)]
            lo = dict(r=[[[1.0, 1.15, 1.05]], [[1.2, 1.2, 1.1]]], d=[200.0, 260.0])
            cs += [dict(kind='recip', be=be, mx=1, my=0, tol=3e-4, cfg=L.config(lo, m, 'A', [20, 0], 0.35, p, 'cfs', **q)) for m in md for p, q in ((None, dict(pol=1)), (0.4, dict(psi=0.6)))]
            l2 = dict(r=[[[1.0, 1.15, 1.05], [1.1, 1.0, 1.0]]], d=[200.0])
            cs += [dict(kind='recip', be=be, mx=1, my=1, tol=2e-3, cfg=L.config(l2, 'air-glass', 'A', [5, 5], 0.2, 0.4, 'cfs', psi=0.6))]
            out += L.chunk(cs, 2, 2.0)
    return out
