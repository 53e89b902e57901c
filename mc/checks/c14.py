"""C14: diagonal anisotropy in the PyTorch backend."""
import copy
import itertools

import numpy as np

from mc import lattice as L
from mc import meentio as io
from mc import oracle as o
from mc.checks import c07

ID = 'C14'
BOUNDS = ('every anisotropic structure of the lattice (pixel rows, 2D pixels, vector shapes, several layers, absorbing, and all assignments of two values to the nine components of a '
          'three-pixel row) x truncation x Fourier series x media x angles x polarisation: per-order results and near fields against the reference model, equal components, axis exchange, power balance')
ASSUMPTIONS = ['reference model of C03 with one permittivity per component', 'tolerance 1e-6']
TOL = 1e-6


def tag(c):
    return f'theta={c["theta"]:.3g} phi={c["phi"]} fto={c["fto"]} ft={c["fourier_type"]}'


def run_solve(case, S):
    cfg, pols = case['cfg'], case['pols']
    psis = [io.psi_of(dict(cfg, **p)) for p in pols]
    R = o.Reference(dict(cfg, **pols[0]), psis)
    for i, p in enumerate(pols):
        c = dict(cfg, **p)
        S.state(c)
        S.traces += 1
        got = S.call(f'torch solve {p}', io.solve, 2, c)
        o.compare(S, 2, c, got, R, ipsi=i, tol=TOL, tag=f'{tag(c)} {p}')
        for w in ('res', 'te', 'tm'):
            if got[w] is not None:
                tot = float(got[w]['de_ri'].sum() + got[w]['de_ti'].sum())
                if L.is_lossless(c['ucell']):
                    S.close('torch-balance', tot, 1.0, TOL, f'{tag(c)} {p} {w} R+T')
                else:
                    S.true('torch-passive', 0 < tot < 1, f'{tag(c)} {p} {w} R+T={tot}')


def run_field(case, S):
    c07.run_field(dict(case, bes=[2]), S)


# ---------------------------------------------------------------- equal components = isotropic
def triple(u):
    """Isotropic cell description -> the same with three equal components, everywhere possible."""
    v = copy.deepcopy(u)
    if 'v' in v:
        v['v'] = [[b, [s[:5] + [[s[5]] * 3] + s[6:] for s in shapes]] for b, shapes in v['v']]
        return v
    for k in ('r', 'i'):
        if k in v:
            v[k] = [[[[x, x, x] for x in row] for row in lay] for lay in v[k]]
    return v


def spread(u, add=(0.0, 0.17, -0.09), where=None):
    """Isotropic pixels -> components x + add (in every pixel, or in one pixel of the first layer and the others isotropic)."""
    v = copy.deepcopy(u)
    a = np.array(v['r'])
    b = np.repeat(a[..., None], 3, axis=-1)
    if where is None:
        b = b + np.array(add)
    else:
        b[0].reshape(-1, 3)[where] += np.array(add)
    v['r'] = b.tolist()
    if 'i' in v:
        v['i'] = np.repeat(np.array(v['i'])[..., None], 3, axis=-1).tolist()
    return v


def triple_base(u):
    v = copy.deepcopy(u)
    v['v'] = [[[b] * 3, shapes] for b, shapes in v['v']]
    return v


def run_equal(case, S):
    cfg = case['cfg']
    a = S.call('torch isotropic', io.solve, 2, cfg)
    for name, fn in (('components', triple),) + ((('base', triple_base),) if 'v' in cfg['ucell'] else ()):
        c = dict(cfg, ucell=fn(cfg['ucell']))
        S.state(c)
        S.traces += 1
        b = S.call('torch equal components', io.solve, 2, c)
        for w in ('res', 'te', 'tm'):
            if not S.true('torch-equal', (a[w] is None) == (b[w] is None), f'{tag(c)} {w} in one result only'):
                continue
            for k in io.FIELDS:
                if a[w] is not None:
                    S.close('torch-equal', b[w][k], a[w][k], TOL, f'{tag(c)} three equal {name}: {w}.{k}')


# ---------------------------------------------------------------- axis exchange (line gratings: exact)
def run_swap(case, S):
    cfg = case['cfg']
    a = S.call('torch solve', io.solve, 2, cfg)
    c = copy.deepcopy(cfg)
    for k in ('r', 'i'):
        if k in c['ucell']:
            u = np.array(c['ucell'][k])             # L, rows, cols, 3
            u = np.transpose(u[:, ::-1], (0, 2, 1, 3))[:, ::-1]
            c['ucell'][k] = u[..., [1, 0, 2]].tolist()
    c['phi'] = np.pi / 2 - c['phi']
    c['period'] = c['period'][::-1]
    c['fto'] = c['fto'][::-1]
    c['psi'] = -c['psi']
    S.state(c)
    S.traces += 1
    b = S.call('torch exchanged axes', io.solve, 2, c)
    for w in ('res', 'te', 'tm'):
        for k in ('de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p'):
            S.close('torch-swap', b[w][k], a[w][k].T, case['tol'], f'{tag(cfg)} {w}.{k}')


# ---------------------------------------------------------------- pixels = vector shapes, ways to write an index
def run_forms(case, S):
    """The same anisotropic rectangle in a line grating: as pixels, as shapes, and with every way of writing its index."""
    cfg, n = case['cfg'], case['n']
    px, py = cfg['period']
    torch = io.mods()['torch']
    base = case['base']
    cell = np.array([[[base if isinstance(base, list) else [base] * 3] * 5]], dtype=complex).reshape(1, 1, 5, 3)
    cell[0, 0, 1:3] = n
    kw = io.kwargs(2, dict(cfg, ucell=dict(r=[[[1.0]]])))
    kw['fourier_type'] = 1

    def go(u):
        kw['ucell'] = u
        with np.errstate(all='ignore'):
            return io.unpack(io.mods()['meent'].call_mee(backend=2, **kw).conv_solve())
    rep = np.repeat(cell, 2, axis=1)
    want = S.call('torch pixels', go, torch.tensor(rep))
    dt = torch.complex128
    ways = dict(list=list(n), tuple=tuple(n), tensor=torch.tensor(n, dtype=dt), tensors=[torch.tensor(x, dtype=dt) for x in n], mixed=(n[0], torch.tensor(n[1], dtype=dt), n[2]),
                column=torch.tensor(n, dtype=dt).reshape(3, 1))
    for nm, idx in ways.items():
        for bn, b in (('list', base), ('tensor', torch.tensor(base, dtype=dt))):
            S.state([cfg, n, base, nm, bn])
            S.traces += 1
            got = S.call(f'torch vector index as {nm}, base as {bn}', go, [[b, [['rectangle', 0.4 * px, 0.5 * py, 0.4 * px, py, idx, 0.0, 1, 1]]]])
            for w in ('res', 'te', 'tm'):
                for k in io.FIELDS:
                    S.close('torch-forms', got[w][k], want[w][k], TOL, f'{tag(cfg)} n={n} as {nm}, base {base} as {bn}: {w}.{k}')


KIND = dict(solve=run_solve, field=run_field, equal=run_equal, swap=run_swap, forms=run_forms)


def run(case, S):
    KIND[case['kind']](case, S)


C = lambda r, i: {'c': [r, i]}
VA = {
    'rect': dict(v=[[1.0, [['rectangle', 400, 310, 330, 190, [2.1, 1.6, 1.3], 0.0, 1, 1]]]], d=[300.0]),
    'base': dict(v=[[[1.2, 1.5, 1.9], [['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1]]], [1.4, []]], d=[200.0, 90.0]),
    'mix': dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1], ['rectangle', 500, 400, 120, 330, [1.5, C(1.7, -0.2), 1.2], 0.0, 1, 1]]],
                   [[1.6, 1.3, 1.8], [['rectangle', 450, 350, 200, 200, [1.1, 1.2, 2.0], 0.5, 2, 2]]],
                   [1.0, [['ellipse', 420, 330, 410, 230, [1.8, 1.4, 2.2], 0.35, 6, 6]]]], d=[150.0, 60.0, 210.0]),
}
AX = {
    'film': dict(r=[[[[1.5, 1.8, 2.1]]]], d=[220.0]),
    'film2': dict(r=[[[[1.5, 1.8, 2.1]] * 2] * 2, [[[1.9, 1.3, 1.6]] * 2] * 2], d=[220.0, 110.0]),
    'small': dict(r=[[[[1.5, 1.5001, 1.5], [1.0, 1.0, 1.0]]]], d=[240.0]),
    'zdiff': dict(r=[[[[1.5, 1.5, 1.9], [1.0, 1.0, 1.2], [2.0, 2.0, 1.4]]]], d=[240.0]),
    'metal': dict(r=[[[[0.3, 1.5, 1.2], [1.0, 1.0, 1.0]], [[1.0, 1.2, 1.0], [1.6, 1.0, 1.4]]]],
                  i=[[[[-3.1, 0, -0.2], [0, 0, 0]], [[0, 0, 0], [0, -0.3, 0]]]], d=[90.0]),
    'deep': dict(r=[[[[1.3, 2.0, 1.0], [1.8, 1.0, 1.4]], [[1.0, 1.1, 1.2], [1.3, 1.0, 2.2]]], [[[1.2, 1.2, 1.2], [1.2, 1.2, 1.2]]] * 2, [[[1.0, 1.5, 2.0], [2.0, 1.5, 1.0]]] * 2],
                 d=[600.0, 0.0, 150.0]),
}


def groups(tier):
    th = tier == 'thorough'
    out = []
    P2 = [dict(psi=0.6), dict(psi=-1.1), dict(pol=0), dict(pol=1)] + ([dict(pol=0.3), dict(psi=2.4)] if th else [])
    media = ['air-glass', 'glass-lossy'] + (['glass-air', 'air-metal', 'air-high', 'oil-oil'] if th else ['glass-air'])
    angs = [(0.0, None), (0.37, 0.6), (-0.61, 2.3), (0.8, -1.1), (0.37, None), (0.37, 0.0)] + ([(1.1, 3.9), (0.0, 0.7), (0.5, np.pi / 2)] if th else [])
    fts = list(L.FT)
    every = dict(L.ANISO, **AX)
    for s, fto, ft in itertools.product(every, [[1, 1], [2, 0], [0, 2], [2, 1]] + ([[3, 0], [1, 2]] if th else []), fts):
        cs = [dict(kind='solve', pols=P2, cfg=L.config(every[s], m, 'A', fto, t, p, ft)) for m in media for t, p in angs]
        out += L.chunk(cs, 6, 1.0)
    for s, fto in itertools.product(VA, [[1, 1], [2, 1]] + ([[0, 2], [3, 0]] if th else [])):
        cs = [dict(kind='solve', pols=P2, cfg=L.config(VA[s], m, 'A', fto, t, p, 'dfs')) for m in media for t, p in angs]
        out += L.chunk(cs, 4, 2.0)
    # every continuous input next to each of its special values; components nearly equal to each other
    for form in ('con', '2d'):
        for ft in ('dfs', 'cfs'):
            cs = [dict(kind='solve', pols=P2[:1], cfg=dict(c, ucell=spread(c['ucell']))) for name, c in L.near(form, (2, 3, 5, 7, 9) if th else (3, 5, 8), ft)]
            for k in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8):
                for which in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1)):
                    for where in (None, 0, -1):
                        c = L.near(form, (), ft)[0][1]
                        cs.append(dict(kind='solve', pols=P2[:1], cfg=dict(c, thickness=[120.0, 260.0], ucell=spread(c['ucell'], [k * w for w in which], where))))
            out += L.chunk(cs, 12, 0.6)
    # every assignment of two values to the nine components of a three-pixel row
    for bits in range(1, 511):
        if not th and bits % 2:
            continue
        n = [[1.0 + 0.8 * (bits >> (3 * x + c) & 1) for c in range(3)] for x in range(3)]
        cs = [dict(kind='solve', pols=P2[:1], cfg=L.config(dict(r=[[n]], d=[240.0]), 'air-glass', 'A', [2, 0], 0.37, 0.6, ft)) for ft in ('dfs', 'cfs')]
        out.append((0.6, cs))
    # fields
    F = [dict(res_x=4, res_y=3, res_z=3, set_field_input=[True, True, True]), dict(res_x=1, res_y=5, res_z=2, set_field_input=[False, True, False])]
    for s, (st, fto, ft) in {**{('a', s, f): (every[s], [1, 1] if f == 0 else [2, 0], ft) for s in ('uni', 'row', 'lossy', 'film2', 'zdiff', 'deep') for f, ft in ((0, 'dfs'), (1, 'cfs'))},
                             **{('v', s): (VA[s], [1, 1], 'dfs') for s in VA}}.items():
        cs = [dict(kind='field', pols=P2[:1] if not th else P2, fields=F, cfg=L.config(st, m, 'A', fto, t, p, ft)) for m in media[:2] for t, p in angs[1:4]]
        cs += [dict(kind='field', pols=P2[2:4], fields=F[:1], cfg=L.config(st, media[0], 'A', fto, 0.37, None, ft))]
        out += L.chunk(cs, 4, 1.0)
    # equal components
    cs = []
    for s, fto, ph, q in [(L.STACKS_1D[s], [2, 0], ph, q) for s in ('bin', 'lossy', 'two') for ph, q in ((None, dict(pol=0)), (None, dict(pol=1)), (0.6, dict(psi=0.6)))] + \
                         [(L.STACKS_2D[s], [1, 1], ph, dict(psi=0.6)) for s in ('bin', 'lossy', 'two') for ph in (0.6, -1.1)] + [(L.STACKS_V[s], [1, 1], 0.6, dict(psi=0.6)) for s in ('rect', 'mix')]:
        cs += [dict(kind='equal', cfg=L.config(s, m, 'A', fto, t, ph, ft, **q)) for m in media for t in (0.0, 0.37, -0.61) for ft in fts]
    out += L.chunk(cs, 30, 0.1)
    # axis exchange
    cs = [dict(kind='swap', tol=TOL, cfg=L.config(dict(st, r=[lay * 2 for lay in st['r']]), m, 'A', fto, t, p, ft, psi=0.6))
          for st in (L.ANISO['row'], AX['zdiff'], AX['film'], AX['small']) for m in media for t, p in ((0.37, 0.6), (-0.61, 2.3), (0.8, -1.1)) for ft in fts for fto in ([1, 1], [2, 1])]
    lo = dict(r=[[[[1.0, 1.1, 1.05], [1.12, 1.0, 1.1], [1.0, 1.0, 1.0]], [[1.1, 1.05, 1.0], [1.0, 1.0, 1.0], [1.05, 1.0, 1.1]]]], d=[200.0])
    cs += [dict(kind='swap', tol=2e-4, cfg=L.config(lo, m, 'A', [3, 3], t, p, 'cfs', psi=0.6)) for m in media[:1] for t, p in ((0.37, 0.6), (-0.61, 2.3))]
    out += L.chunk(cs, 12, 0.2)
    # ways of writing it
    cs = [dict(kind='forms', n=n, base=b, cfg=dict(L.config(dict(r=[[[1.0]]], d=[260.0]), m, 'A', [2, 1], 0.37, 0.6, 'cfs', psi=0.6)))
          for n in ([1.5, 1.8, 2.1], [2.1, 1.5, 1.5], [1.3, 1.3, 1.9]) for b in (1.0, [1.2, 1.0, 1.1]) for m in media]
    out += L.chunk(cs, 3, 0.5)
    return out
