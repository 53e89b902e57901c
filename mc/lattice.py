"""The bounded configuration spaces shared by the checks.  Pure enumeration, no randomness, no meent."""
import itertools
import math

PI = 3.141592653589793

# ---- raster stacks. Every pattern is asymmetric so that mirrored / transposed / shifted handling shows.
STACKS_1D = {
    'bin': dict(r=[[[1.0, 1.0, 2.2, 1.4, 1.0]]], d=[310.0]),
    'two': dict(r=[[[1.0, 2.1, 1.6]], [[1.9, 1.9, 1.2]]], i=[[[0, 0, 0]], [[0, 0, 0]]], d=[120.0, 260.0]),
    'lossy': dict(r=[[[1.0, 2.0, 1.5, 1.0]], [[1.7, 1.7, 1.7, 1.7]], [[0.3, 1.0, 1.4, 1.4]]],
                  i=[[[0, -0.4, 0, 0]], [[0, 0, 0, 0]], [[-3.1, 0, -0.05, 0]]], d=[150.0, 90.0, 60.0]),
    'film': dict(r=[[[1.75]]], d=[230.0]),
    'thick': dict(r=[[[1.3, 2.4, 1.3, 1.0, 1.8, 1.8]], [[1.2, 1.5, 1.5, 1.5, 1.2, 1.2]], [[2.0, 1.0, 1.0, 1.0, 1.0, 1.0]],
                     [[1.1, 1.1, 3.0, 1.1, 1.1, 1.1]]], d=[1900.0, 35.0, 0.0, 410.0]),
}
STACKS_2D = {
    'bin': dict(r=[[[1.0, 1.0, 2.2], [1.0, 1.7, 1.0]]], d=[310.0]),
    'two': dict(r=[[[1.0, 2.1], [1.6, 1.0], [1.0, 1.0]], [[1.9, 1.9], [1.9, 1.9], [1.9, 1.2]]], d=[120.0, 260.0]),
    'lossy': dict(r=[[[1.0, 2.0, 1.0], [1.5, 1.0, 1.0]], [[1.7, 1.7, 1.7], [1.7, 1.7, 1.7]],
                     [[0.3, 1.0, 1.4], [1.0, 1.4, 1.4]]],
                  i=[[[0, -0.4, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 0]], [[-3.1, 0, -0.05], [0, 0, 0]]],
                  d=[150.0, 90.0, 60.0]),
    'thick': dict(r=[[[1.3, 2.4, 1.0, 1.8], [1.3, 1.3, 1.3, 1.0], [2.0, 1.0, 1.3, 1.3], [1.0, 1.0, 1.0, 1.6]],
                     [[1.2, 1.2, 1.5, 1.5], [1.2, 1.2, 1.5, 1.5], [1.2, 1.2, 1.2, 1.2], [1.2, 1.2, 1.2, 1.2]],
                     [[2.0, 1.0, 1.0, 1.0], [1.0, 1.0, 1.0, 1.0], [1.0, 1.0, 1.0, 1.0], [1.0, 1.0, 1.0, 1.0]],
                     [[1.1, 1.1, 1.1, 1.1], [1.1, 3.0, 1.1, 1.1], [1.1, 1.1, 1.1, 1.1], [1.1, 1.1, 1.1, 1.1]]],
                  d=[1900.0, 35.0, 0.0, 410.0]),
}
# ---- vector stacks (lengths for period 900 x 700)
STACKS_V = {
    'rect': dict(v=[[1.0, [['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1]]]], d=[300.0]),
    'mix': dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.6, 2, 3],
                          ['rectangle', 500, 400, 120, 330, {'c': [1.5, -0.2]}, 0.0, 1, 1]]],
                   [1.6, []],
                   [1.0, [['ellipse', 420, 330, 410, 230, 1.8, 0.35, 8, 8]]]], d=[150.0, 60.0, 280.0]),
}

MEDIA = {
    'air-glass': (1.0, 1.45), 'glass-air': (1.5, 1.0), 'oil-oil': (1.3, 1.3),
    'air-metal': (1.0, [0.4, -3.2]), 'glass-lossy': (1.4, [1.9, -0.15]), 'air-high': (1.0, 3.5),
}
FT = {'dfs': dict(fourier_type=0, enhanced_dfs=True), 'plain': dict(fourier_type=0, enhanced_dfs=False),
      'cfs': dict(fourier_type=1)}
GEO = {'A': dict(period=[900.0, 700.0], wavelength=610.0),      # several propagating orders
       'B': dict(period=[430.0, 1150.0], wavelength=640.0),     # sub-wavelength in x
       'C': dict(period=[1310.0, 380.0], wavelength=870.0)}


def ucell(stack):
    return {k: stack[k] for k in ('r', 'i', 'v') if k in stack}


def config(stack, media, geo, fto, theta, phi, ft='dfs', pol=None, psi=None, prec=0, pinv=False):
    c = dict(n_top=MEDIA[media][0] if isinstance(media, str) else media[0],
             n_bot=MEDIA[media][1] if isinstance(media, str) else media[1],
             theta=theta, phi=phi, fto=list(fto), thickness=list(stack['d']), ucell=ucell(stack),
             prec=prec, use_pinv=pinv, **FT[ft], **(GEO[geo] if isinstance(geo, str) else geo))
    if psi is not None:
        c['psi'] = psi
    elif pol is not None:
        c['pol'] = pol
    return c


def product(**dims):
    keys = list(dims)
    for vals in itertools.product(*dims.values()):
        yield dict(zip(keys, vals))


def chunk(cases, n, weight=1.0):
    """Deal a list of cases into consecutive groups of n."""
    return [(weight * len(cases[i:i + n]), cases[i:i + n]) for i in range(0, len(cases), n)]


# ---- further stacks used where no reference solve is needed
STACKS_1D['many'] = dict(r=[[[1.0 + 0.3 * ((i * 7 + j * 3) % 5) for j in range(3)]] for i in range(7)],
                         d=[40.0, 75.0, 0.0, 130.0, 20.0, 260.0, 55.0])
STACKS_1D['fine'] = dict(r=[[[1.0 + 0.15 * ((j * j) % 7) for j in range(17)]]], d=[280.0])
STACKS_2D['many'] = dict(r=[[[1.0 + 0.3 * ((i * 7 + j * 3 + k * 2) % 5) for j in range(2)] for k in range(2)] for i in range(6)],
                         d=[40.0, 75.0, 0.0, 130.0, 20.0, 260.0])
STACKS_2D['fine'] = dict(r=[[[1.0 + 0.15 * ((j * j + 3 * k + j * k) % 7) for j in range(6)] for k in range(5)]], d=[280.0])
STACKS_2D['film'] = dict(r=[[[1.75, 1.75], [1.75, 1.75]]], d=[230.0])
STACKS_V['lossless'] = dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 2.6, 3, 2],
                                      ['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1]]],
                               [1.6, []],
                               [1.0, [['ellipse', 420, 330, 410, 230, 1.8, -0.9, 9, 9], ['rectangle', 700, 600, 200, 100, 1.4, 0, 1, 1]]]],
                            d=[150.0, 60.0, 280.0])
ANISO = {
    'uni': dict(r=[[[[1.5, 1.5, 1.8], [1.0, 1.0, 1.0], [2.0, 1.6, 1.2]], [[1.0, 1.0, 1.0], [1.3, 1.7, 1.4], [1.0, 1.0, 1.0]]]], d=[300.0]),
    'row': dict(r=[[[[1.5, 1.9, 1.8], [1.0, 1.0, 1.0], [2.0, 1.6, 1.2]]], [[[1.4, 1.4, 1.4], [1.4, 1.4, 1.4], [1.1, 2.2, 1.3]]]], d=[200.0, 140.0]),
    'lossy': dict(r=[[[[1.5, 1.5, 1.8], [1.0, 1.0, 1.0]], [[1.0, 1.0, 1.0], [1.3, 1.7, 1.4]]]],
                  i=[[[[0, -0.3, 0], [0, 0, 0]], [[0, 0, 0], [-0.1, 0, -0.6]]]], d=[170.0]),
}
# ---- large and extreme structures (many pixels, many layers, opaque metal, very thick and very thin)
X1 = {
    'wide': dict(r=[[[1.0 + 0.2 * ((j * j + 3 * j) % 6) for j in range(61)]], [[1.3 + 0.4 * (j % 13 < 5) for j in range(61)]]], d=[210.0, 95.0]),
    'tall': dict(r=[[[1.0 + 0.25 * ((i * 5 + j * j + j) % 7 % 5) for j in range(5)]] for i in range(14)], d=[25.0 + 9.0 * (i * i % 7) for i in range(14)]),
    'opaque': dict(r=[[[0.12, 1.0, 1.6]], [[0.9, 0.9, 1.4]]], i=[[[-7.5, 0, 0]], [[-5.2, -5.2, -0.01]]], d=[40.0, 6000.0]),
    'extreme': dict(r=[[[1.0, 2.5, 1.7]], [[1.4, 1.1, 1.0]], [[1.2, 1.9, 3.6]]], d=[0.004, 24000.0, 1.5]),
}
X2 = {
    'wide': dict(r=[[[1.0 + 0.2 * ((j * j + 3 * k + j * k) % 6) for j in range(13)] for k in range(9)]], d=[240.0]),
    'tall': dict(r=[[[1.0 + 0.25 * ((i * 5 + j + 2 * k) % 4) for j in range(2)] for k in range(3)] for i in range(11)], d=[25.0 + 9.0 * (i * i % 7) for i in range(11)]),
    'opaque': dict(r=[[[0.12, 1.0, 1.6], [1.0, 1.0, 1.3]], [[0.9, 0.9, 1.4], [0.9, 1.3, 1.4]]], i=[[[-7.5, 0, 0], [0, 0, 0]], [[-5.2, -5.2, -0.01], [-5.2, 0, 0]]], d=[40.0, 6000.0]),
    'extreme': dict(r=[[[1.0, 2.5], [1.7, 1.0]], [[1.4, 1.1], [1.0, 1.0]], [[1.2, 1.9], [3.6, 1.0]]], d=[0.004, 24000.0, 1.5]),
}
STACKS_1D['graded'] = dict(r=[[[1.5 + 0.004 * j + 0.0003 * (j * j % 5) for j in range(9)]]], d=[900.0])
STACKS_2D['graded'] = dict(r=[[[1.5 + 0.006 * j + 0.002 * k + 0.0003 * (j * k % 3) for j in range(4)] for k in range(3)]], d=[900.0])
XGEO = {'sub': dict(period=[61.0, 47.0], wavelength=610.0), 'wide': dict(period=[21000.0, 9000.0], wavelength=610.0),
        'um': dict(period=[0.9, 0.7], wavelength=0.61), 'si': dict(period=[9.0e-7, 7.0e-7], wavelength=6.1e-7), 'far': dict(period=[310.0, 290.0], wavelength=10600.0)}


def scaled(stack, f):
    return dict(stack, d=[x * f for x in stack['d']])


def is_lossless(stack):
    if 'v' in stack:
        def bad(x):
            if isinstance(x, dict):
                return x['c'][1] != 0
            return isinstance(x, list) and any(bad(u) for u in x)
        return not bad(stack['v'])

    def nz(x):
        return any(nz(u) for u in x) if isinstance(x, list) else x != 0
    return not nz(stack.get('i', []))


def fam(stacks, names, ftos, fts, media, geos, thetas, phis, **kw):
    """List of lists of configurations (without polarisation): one list per shape-defining choice."""
    out = []
    for d in product(s=names, fto=ftos, ft=fts, geo=geos):
        out.append([config(stacks[d['s']], e['m'], d['geo'], d['fto'], e['th'], e['phi'], d['ft'], **kw)
                    for e in product(m=media, th=thetas, phi=phis)])
    return out


# ---- log-neighbourhoods: every continuous input approaches each of its special values, decade by decade
NEAR_FORMS = {'1d': (STACKS_1D['two'], [1, 0], None), 'con': (STACKS_1D['two'], [1, 0], 0.6), '2d': (STACKS_2D['two'], [1, 1], 0.6),
              'vec': (dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1]]], [1.7, []]], d=[120.0, 260.0]), [1, 1], 0.6)}


def near(form, decades=(2, 3, 5, 7, 9), ft='dfs', grazing=True):
    """[(name, config without polarisation)] one parameter at a time, the others generic."""
    st, fto, phi = NEAR_FORMS[form]
    base = config(st, (1.5, 1.2), 'A', fto, 0.37, phi, ft)
    out = []

    def put(name, **kw):
        out.append((name, dict(base, **kw)))
    ds = [s * 10.0 ** -k for k in decades for s in (1, -1)]
    for d in ds:
        put(f'theta={d}', theta=d)
        if form != '1d':
            for k, c in enumerate((0.0, PI / 2, PI, -PI / 2, 2 * PI)):
                put(f'phi={k}+{d}', phi=c + d)
        put(f'n_bot~n_top{d:+}', n_bot=1.5 + d)
        put(f'n_bot={[1.2, -abs(d)]}', n_bot=[1.2, -abs(d)])
        if grazing:
            for nm, n in (('top', 1.5), ('bot', 1.2)):   # the first order next to grazing in a medium
                kx, ky = 1.5 * math.sin(0.2) * math.cos(phi or 0.0), 1.5 * math.sin(0.2) * math.sin(phi or 0.0)
                put(f'cut {nm}{d:+}', theta=0.2, wavelength=900.0 * (math.sqrt(n * n - ky * ky) - kx) * (1 + d))
                put(f'cut- {nm}{d:+}', theta=0.2, wavelength=900.0 * (math.sqrt(n * n - ky * ky) + kx) * (1 + d))
        put(f'square{d:+}', period=[900.0, 900.0 * (1 + d)])
    for k in range(-8, 6):
        put(f'd=1e{k}', thickness=[10.0 ** k, 260.0])
        put(f'd2=1e{k}', thickness=[120.0, 10.0 ** k])
    for a in (1.2, 1.5, 1.55, 1.57):
        put(f'theta={a}', theta=a)
        put(f'theta={-a}', theta=-a)
    for nb in (1.0, 1.01, 2.7, 6.0, 15.0, [0.02, -1.1], [0.1, -9.0], [3.0, -3.0], [5.0, -0.3], [1.2, -2e-4], [0.3, -30.0]):
        put(f'n_bot={nb}', n_bot=nb)
    for nt in (1.0, 1.0 + 1e-6, 1.0003, 3.4, 6.0):
        put(f'n_top={nt}', n_top=nt)
    for w in (0.31, 1.0, 2.0, 7.0, 33.0):
        put(f'wavelength*{w}', wavelength=610.0 * w)
    for p in (0.05, 0.4, 2.0, 9.0) if 'r' in st else (2.0, 9.0):
        put(f'period*{p}', period=[900.0 * p, 700.0])
        if form != '1d':
            put(f'period_y*{p}', period=[900.0, 700.0 * p])
    if 'r' in st:
        import copy as _c
        for d in [10.0 ** -k for k in decades]:
            for nm, r0, i0 in (('contrast', d, 0.0), ('loss', 0.0, -d)):
                r, im = _c.deepcopy(st['r']), _c.deepcopy([[[0.0 for _ in row] for row in lay] for lay in st['r']])
                r[1] = [[1.9 for _ in row] for row in r[1]]         # an (almost) uniform layer
                r[1][-1][-1] += r0
                im[1][-1][-1] += i0
                put(f'{nm} {d}', ucell=dict(r=r, i=im) if i0 else dict(r=r))
                r, im = _c.deepcopy(st['r']), _c.deepcopy([[[0.0 for _ in row] for row in lay] for lay in st['r']])
                r[0][0] = [x + r0 * j for j, x in enumerate([2.1] * 2 + r[0][0][2:])]    # two (almost) equal pixels next to each other
                im[0][0][0] = i0
                put(f'neighbours {nm} {d}', ucell=dict(r=r, i=im) if i0 else dict(r=r))
                r[0] = _c.deepcopy(r[1])                            # two (almost) equal layers
                r[0][0][0] += r0
                put(f'layers {nm} {d}', ucell=dict(r=r, i=im) if i0 else dict(r=r))
        for v in ([0.05, -2.0], [0.1, -20.0], [1.0, -1e-6], [4.0, -0.01], [4.0, -4.0], [9.0, 0.0], [0.3, 0.0], [0.02, -0.02]):
            r, im = _c.deepcopy(st['r']), _c.deepcopy([[[0.0 for _ in row] for row in lay] for lay in st['r']])
            r[0][0][-1], im[0][0][-1] = v
            put(f'pixel {v}', ucell=dict(r=r, i=im) if v[1] else dict(r=r))
    else:
        def shape(*a, base=1.2):
            return dict(v=[[base, [list(a)]], [1.7, []]])
        for d in ds:
            if d > 0:
                put(f'left edge {d}', ucell=shape('rectangle', 165 + 900 * d, 310, 330, 190, 2.1, 0.0, 1, 1))
                put(f'top edge {d}', ucell=shape('rectangle', 400, 605 - 700 * d, 330, 190, 2.1, 0.0, 1, 1))
                put(f'narrow {d}', ucell=shape('rectangle', 400, 310, 900 * d, 190, 2.1, 0.0, 1, 1))
                put(f'index loss {d}', ucell=shape('rectangle', 400, 310, 330, 190, {'c': [2.1, -d]}, 0.0, 1, 1))
                put(f'two edges {d}', ucell=dict(v=[[1.2, [['rectangle', 400, 310, 330, 190, 2.1, 0.0, 1, 1], ['rectangle', 640 + 900 * d, 310, 150, 190, 1.5, 0.0, 1, 1]]], [1.7, []]]))
            put(f'contrast {d}', ucell=shape('rectangle', 400, 310, 330, 190, 1.2 + d, 0.0, 1, 1))
            for k, c in enumerate((0.0, PI / 2, PI, -PI / 2)):
                if abs(d) > 1e-4:
                    put(f'angle {k}+{d}', ucell=shape('rectangle', 400, 310, 330, 190, 2.1, c + d, 2, 2))
    return out
