"""C05: uniform stacks obey the thin-film formulas."""
import numpy as np

from mc import films
from mc import lattice as L
from mc import meentio as io

ID = 'C05'
BOUNDS = ('film stacks (bare interface .. 5 layers, absorbing, metal, zero and thick) x media x 11 angles (0 to grazing, negative, Brewster, TIR) '
          'x azimuths x polarisations x length units x formulation (1D/conical/2D/vector) x cell resolution x truncation x Fourier series')
ASSUMPTIONS = ['tolerance 1e-8', 'grazing inside a film closer than 1e-5 is left out (the modal basis is numerically singular there)']

FILMS = {
    'none': ([1.0], [0.0]),
    'one': ([1.75], [230.0]),
    'absorb': ([[1.9, -0.4]], [140.0]),
    'stack': ([1.46, 2.3, 1.38], [180.0, 65.0, 410.0]),
    'metal': ([1.5, [0.2, -3.4], 1.5, [2.6, -0.02], 1.0], [90.0, 22.0, 300.0, 75.0, 0.0]),
    'tunnel': ([1.0, 1.52], [170.0, 3000.0]),
    'opaque': ([[0.05, -4.0], 1.0, 1.6], [120.0, 900.0, 40.0]),
}
SHAPES = {'1x1': (1, 1), '1x3': (1, 3), '2x1': (2, 1), '3x2': (3, 2)}


def make(film, shape, media, theta, phi, fto, ft, geo='A', scale=1.0):
    ns, d = FILMS[film] if isinstance(film, str) else film
    if scale != 1.0:
        d = [x * scale for x in d]
        geo = {k: [x * scale for x in v] if isinstance(v, list) else v * scale for k, v in L.GEO[geo].items()}
    if shape == 'vec':
        u = {'v': [[{'c': list(n)} if isinstance(n, list) else n, []] for n in ns]}
    elif shape == 'vecsame':
        u = {'v': []}
        for n in ns:
            v = {'c': list(n)} if isinstance(n, list) else n
            u['v'].append([v, [['rectangle', 400 * scale, 300 * scale, 200 * scale, 150 * scale, v, 0.3, 2, 2]]])
    else:
        r, c = SHAPES[shape]
        cn = [complex(*n) if isinstance(n, list) else complex(n) for n in ns]
        u = {'r': [[[z.real] * c] * r for z in cn]}
        if any(z.imag for z in cn):
            u['i'] = [[[z.imag] * c] * r for z in cn]
    c = L.config(dict(r=None, d=d), media, geo, fto, theta, phi, ft)
    c['ucell'] = u
    return c


def brewster(media):
    a, b = L.MEDIA[media]
    return float(np.arctan2(b, a)) if not isinstance(b, list) else 0.9


def near(shape, phi, fto, ft, decades):
    """Films with one continuous input next to a special value, the others generic."""
    def put(ns=(1.75, 1.4), d=(230.0, 180.0), theta=0.37, phi_=phi, n_top=1.5, n_bot=1.2, **kw):
        film = [list(ns), list(d)]
        c = make(film, shape, (n_top, n_bot), theta, phi_, fto, ft)
        c.update(kw)
        return film, c
    out = []
    for x in [s * 10.0 ** -k for k in decades for s in (1, -1)]:
        out.append(put(theta=x))
        if phi is not None:
            out += [put(phi_=c + x) for c in (0.0, L.PI / 2, L.PI, -L.PI / 2, 2 * L.PI)]
        out += [put(n_bot=1.5 + x), put(n_bot=[1.2, -abs(x)]), put(n_bot=[1.5, -abs(x)])]
        for n in ((1.5, 1.2, 1.4) if x > 0 else (1.5, 1.2)):
            out.append(put(ns=[n + x, 1.4]))
        out += [put(ns=[1.5 * np.sin(0.37) + x, 1.4])] if abs(x) > 1e-5 else []      # grazing inside the film (closer, the modal basis is numerically singular)
        out += [put(ns=[[1.75, -abs(x)], 1.4]), put(ns=[[1.5, -abs(x)], [1.4, -abs(x) / 2]])]
        out += [put(theta=float(np.arcsin(1.2 / 1.5)) + x), put(theta=-float(np.arcsin(1.2 / 1.5)) + x), put(theta=float(np.arctan2(1.2, 1.5)) + x)]
        out += [put(d=(230.0, 610.0 / 4 / 1.4 * (1 + x)), theta=1e-4), put(d=(610.0 / 2 / 1.75 * (1 + x), 180.0), theta=1e-4)]
        if abs(x) > 1e-4:
            out += [put(theta=L.PI / 2 - abs(x)), put(theta=-L.PI / 2 + abs(x))]
    for k in range(-8, 6):
        out += [put(d=(10.0 ** k, 180.0)), put(d=(230.0, 10.0 ** k)), put(ns=[[1.75, -0.02], 1.4], d=(10.0 ** k, 10.0 ** k))]
    for n in (1.0, 1.0 + 1e-6, 1.0003, 3.4, 6.0):
        out += [put(n_top=n), put(n_bot=n), put(ns=[n, 1.4]), put(ns=[1.4, n])]
    for n in ([0.02, -1.1], [0.1, -9.0], [3.0, -3.0], [5.0, -0.3], [1.2, -2e-4], [0.3, -30.0], 15.0, 0.3, [0.02, -0.02], [1e-3, -2.0]):
        out += [put(n_bot=n), put(ns=[n, 1.4], d=(30.0, 180.0)), put(ns=[1.4, n], d=(180.0, 30.0))]
    for w in (0.03, 0.31, 1.0, 2.0, 7.0, 33.0):
        out.append(put(wavelength=610.0 * w))
    for m in (6, 12, 25, 60):         # many layers
        out += [put(ns=[(1.45, 2.1)[i % 2] for i in range(m)], d=[(105.0, 72.0)[i % 2] for i in range(m)]),
                put(ns=[1.45 + 0.07 * (i * i % 11) for i in range(m)], d=[30.0 + 17 * (i * i % 7) for i in range(m)]),
                put(ns=[1.6] * m, d=[37.0] * m)]
    return out


def run(case, S):
    cfg = case['cfg']
    ns = [io.cnum(n) for n in (FILMS[case['film']] if isinstance(case['film'], str) else case['film'])[0]]
    th = cfg['theta']
    nt, nb = io.cnum(cfg['n_top']), io.cnum(cfg['n_bot'])
    fm = films.stack(nt, nb, ns, cfg['thickness'], cfg['wavelength'], th)
    fx, fy = cfg['fto']
    phi = io.phi_of(cfg)
    g = 1.0 if np.cos(phi) >= 0 else -1.0
    sgt = -1.0 if th < 0 else 1.0
    kx0 = nt * np.sin(th or 1e-20) * np.cos(phi)
    sg2 = (-1.0 if kx0 < 0 else 1.0) * sgt
    flip = abs(np.cos(phi)) < 1e-9
    tol = 1e-8
    for be in case['bes']:
        for p in case['pols']:
            c = dict(cfg, **p)
            S.state([be, case['film'], c])
            got = S.call(f'{io.BACKENDS[be]} {p}', io.solve, be, c)
            S.traces += 1
            one = io.is_1d(be, c)
            nm = io.BACKENDS[be]
            tag = f'{nm} film={case["film"]} theta={th:.3g} phi={cfg["phi"]} {p} fto={cfg["fto"]}'
            psi = io.psi_of(c)
            for w, (a, b) in (('res', (np.sin(psi), np.cos(psi))), ('te', (1, 0)), ('tm', (0, 1))):
                if got[w] is None:
                    S.true(f'{nm}-missing', one, f'{tag} {w} result missing')
                    continue
                q = got[w]
                want = {'de_ri_s': a * a * fm['s'][2], 'de_ri_p': b * b * fm['p'][2],
                        'de_ti_s': a * a * fm['s'][3], 'de_ti_p': b * b * fm['p'][3]}
                want['de_ri'] = want['de_ri_s'] + want['de_ri_p']
                want['de_ti'] = want['de_ti_s'] + want['de_ti_p']
                # transverse E (s) and transverse H (p) of the zeroth order relative to the incident unit E
                es_r, es_t = a * fm['s'][0], a * fm['s'][1]
                hs_r, hs_t = b * nt * fm['p'][0], b * nt * fm['p'][1]
                if one:
                    v = dict(R_s=es_r, T_s=es_t, R_p=hs_r / nt, T_p=hs_t / nt)
                elif be != 2:
                    v = dict(R_s=es_r, T_s=es_t, R_p=-1j * hs_r, T_p=-1j * hs_t)
                else:
                    v = dict(R_s=g * es_r, T_s=g * es_t, R_p=g * hs_r / nt, T_p=g * hs_t / nb)
                if be == 2:
                    v = {k: np.conj(z) * (sg2 if not one else (-1 if kx0 < 0 else 1) * sgt) for k, z in v.items()}
                want.update(v)
                for k, x in want.items():
                    arr = np.zeros((2 * fy + 1, 2 * fx + 1), dtype=complex)
                    gk = q[k]
                    if gk.shape == arr.shape:
                        if flip and k[0] in 'RT' and abs(gk[fy, fx] + x) < abs(gk[fy, fx] - x):
                            x = -x
                    arr[fy, fx] = x
                    S.close(f'{nm}-{w}-{k}', gk, arr, tol, f'{tag} {w}.{k}')
                # tunnelling: faint transmission is right in proportion, not just small
                for k in ('de_ti', 'de_ti_s', 'de_ti_p'):
                    x = want[k]
                    if 1e-25 < x < 1e-3 and q[k].shape == (2 * fy + 1, 2 * fx + 1):
                        S.close(f'{nm}-{w}-faint', q[k][fy, fx] / x, 1.0, 1e-5, f'{tag} {w}.{k} relative to {x:.2e}')
            S.close(f'{nm}-total', got['de_ri'].sum() + got['de_ti'].sum(),
                    np.sin(psi) ** 2 * (fm['s'][2] + fm['s'][3]) + np.cos(psi) ** 2 * (fm['p'][2] + fm['p'][3]), tol, f'{tag} R+T')


def groups(tier):
    T = tier == 'thorough'
    g = []
    NT = [0, 2]
    P1 = [dict(pol=0), dict(pol=1)]
    PX = [dict(psi=0.7), dict(pol=1), dict(psi=2.5)] + ([dict(pol=0), dict(psi=-0.4)] if T else [])

    def add(films_, shapes, medias, thetas, phis, ftos, fts, pols, bes, w=1.0, w0=0.0, **kw):
        for d in L.product(f=films_, s=shapes, fto=ftos, ft=fts):
            cases = []
            for e in L.product(m=medias, th=thetas, phi=phis):
                th = brewster(e['m']) if e['th'] == 'brewster' else e['th']
                cases.append(dict(film=d['f'], cfg=make(d['f'], d['s'], e['m'], th, e['phi'], d['fto'], d['ft'], **kw), pols=pols, bes=bes))
            g.append((len(cases) * len(pols) * w + w0, cases))

    media = list(L.MEDIA)
    th = [0.0, 1e-3, 0.2, 0.37, 0.7, -0.61, 1.05, 1.3, 1.5, 'brewster']
    fl = list(FILMS)
    add(fl, ['1x1', '1x3'], media, th, [None], [[0, 0], [2, 0]] + ([[5, 0]] if T else []), list(L.FT), P1, NT)
    add(fl, ['1x1', '1x3'], media, th[2:6] + ['brewster', 0.0, 1.3], [0.0, 0.6, 2.3, -1.1] + ([L.PI / 2, L.PI, 7.0] if T else [L.PI / 2]),
        [[1, 0], [0, 1]] + ([[2, 1]] if T else []), list(L.FT) if T else ['dfs', 'cfs'], PX[:2] if not T else PX, NT, 3)
    add(fl, ['2x1', '3x2'], media if T else media[:5], [0.0, 0.37, -0.61, 'brewster', 1.3], [None, 0.6, 2.3] + ([-1.1, L.PI / 2] if T else []),
        [[0, 0], [1, 1]] + ([[2, 1]] if T else []), list(L.FT) if T else ['dfs', 'cfs'], PX[:1] + PX[2:], NT, 4)
    add(fl, ['vec', 'vecsame'], media, [0.0, 0.37, -0.61], [None, 0.6, 2.3], [[0, 0], [1, 1]], ['dfs'], PX[:1], NT, 5)
    for sc in (1e-9, 1e-3, 1e6):      # metres, micrometres, ...
        add(fl, ['1x1', '1x3'], ['glass-air', 'glass-lossy'], [0.0, 0.37, -0.61], [None], [[0, 0], [1, 0]], ['dfs', 'cfs'], P1, NT, scale=sc)
        add(fl, ['1x3', '3x2', 'vecsame'], ['glass-air', 'glass-lossy'], [0.0, 0.37], [0.6], [[1, 0]], ['dfs'], PX[:1], NT, 3, scale=sc)
    D = (2, 3, 5, 7, 9) if T else (2, 4, 6, 8)
    for shape, phi, fto, ft, pp, bes, w in [('1x3', None, [1, 0], 'dfs', P1, NT, 2), ('1x1', 0.6, [1, 0], 'cfs', PX[:1], NT, 3), ('3x2', 2.3, [1, 1], 'dfs', PX[:1], NT, 6), ('vec', 0.6, [0, 1], 'dfs', PX[:1], NT, 4),
                                            ('1x1', 0.6, [0, 0], 'cfs', PX[:1], [1], 10), ('2x1', None, [0, 0], 'dfs', PX[:1], [1], 10)]:
        cs = [dict(film=f, cfg=c, pols=pp, bes=bes) for f, c in near(shape, phi, fto, ft, D)]
        g.extend((a + (100 if bes == [1] else 0), b) for a, b in L.chunk(cs, 24 if bes != [1] else 60, w))
    J = [1]
    add(['stack', 'absorb'], ['1x3'], ['glass-air', 'air-metal'], [0.0, 0.37, 1.3], [None], [[1, 0]], ['dfs'], P1, J, 60, 200)
    add(fl, ['1x1'], ['glass-air', 'glass-lossy', 'air-high'], [0.37, -1.05], [None], [[0, 0]], ['dfs'], P1, J, 60, 200)
    add(fl, ['1x1'], media, th, [0.0, 0.6, 2.3, -1.1], [[0, 0]], ['dfs'], PX[:1], J, 10, 200)
    add(['opaque', 'tunnel'], ['2x1'], media, th, [0.0, 0.6, 2.3], [[0, 0]], ['cfs'], PX[:1], J, 10, 200)
    add(['metal', 'none'], ['1x1'], ['glass-air', 'glass-lossy'], [0.37, 1.05], [None], [[0, 0]], ['cfs'], P1, J, 60, 200)
    add(['one', 'metal'], ['1x3'], media, [0.0, 0.37, -0.61, 1.3, 'brewster'], [0.0, 0.6, 2.3], [[1, 0]], ['dfs'], PX[:1], J, 10, 400)
    add(['stack'], ['3x2'], media, [0.0, 0.37, -0.61, 1.3], [None, 0.6, 2.3], [[1, 1]], ['cfs'], PX[:1], J, 10, 400)
    add(['absorb'], ['2x1'], media, [0.0, 0.37, -0.61, 1.3], [None, 0.6, 2.3], [[0, 1]], ['dfs'], PX[:1], J, 10, 400)
    add(['stack'], ['vec', 'vecsame'], media, [0.0, 0.37, -0.61], [0.6, 2.3], [[1, 0]], ['dfs'], PX[:1], J, 20, 400)
    return g
