"""C09: material lookup returns the tabulated or modelled n - ik."""
import copy
import itertools
import os
import tempfile
import warnings

import numpy as np

from mc import materials as M
from mc import meentio as io
from mc.explore import REPO

ID = 'C09'
BOUNDS = ('all shipped materials x every table row, every interval mid-point, both sides outside the range x (complex, real-only) x name case x backend; '
          'all dispersion models on a wavelength grid; every mask of 4 pixels over 3 materials; every lookup sequence of length 3 over 9 lookups')
ASSUMPTIONS = ['at rows with duplicate or descending wavelengths any value between the neighbouring rows is accepted',
               'tables are read by an independent parser']


def modelers():
    import meent.on_jax.modeler.modeling as j
    import meent.on_numpy.modeler.modeling as n
    import meent.on_torch.modeler.modeling as t
    return n, j, t


_lib = {}


def lib():
    if not _lib:
        _lib.update(M.read_library(REPO))
    return _lib


_tabs = {}


def table(be, prec=0):
    if (be, prec) not in _tabs:
        _tabs[be, prec] = modelers()[be].read_material_table(type_complex=io.ctype(be, prec))
    return _tabs[be, prec]


def find(S, be, mat, wl, tab=None):
    """One lookup: value(s) and the warnings it raised."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = S.call(f'{io.BACKENDS[be]} find_nk_index({mat!r:.60}, {wl!r:.40})', modelers()[be].find_nk_index, mat,
                   table(be) if tab is None else tab, wl)
    return np.asarray(io.to_np(v)), [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def envelope(rows, x):
    """(lo, hi) per component accepted at wavelength x; lo == hi wherever the table is strictly ascending."""
    w = np.array([r[0] for r in rows])
    order_ok = np.all(np.diff(w) > 0)
    if order_ok:
        v = M.interp(rows, x)
        return v, v
    i = int(np.searchsorted(np.sort(w), x))
    a, b = max(0, i - 3), min(len(w), i + 3)
    if np.all(np.diff(w[a:b]) > 0):
        v = M.interp([rows[k] for k in range(a, b)] if 0 < i < len(w) else rows, x)
        return v, v
    # around the irregular rows: between the extremes of the rows near x
    near = [rows[k] for k in range(max(0, i - 6), min(len(w), i + 6))]
    return (complex(min(r[1] for r in near), -max(r[2] for r in near)),
            complex(max(r[1] for r in near), -min(r[2] for r in near)))


def agree(S, key, got, lo, hi, tol, what):
    S.comparisons += 1
    g = complex(got)
    if not np.isfinite(g):
        return S.fail(key, f'{key}: {what}: {g}')
    e = max(lo.real - g.real, g.real - hi.real, lo.imag - g.imag, g.imag - hi.imag)
    S.worst = max(S.worst, e / tol)
    if e > tol:
        S.fail(key, f'{key}: {what}: got {g:.8g}, want {lo:.8g}' + ('' if lo == hi else f' .. {hi:.8g}'))


def run_table(case, S):
    nm = case['name']
    e = lib()[nm]
    rows = e['rows']
    lo, hi = e['range']
    w = sorted({r[0] for r in rows})
    wl = sorted(set(w) | {(a + b) / 2 for a, b in zip(w[:-1], w[1:])} | {a + 0.2 * (b - a) for a, b in zip(w[:-1], w[1:])})
    if case['be'] == 1:
        # one vectorised lookup over the whole lattice plus scalar lookups on a coarse part
        for real in (False, True):
            v, ws = find(S, 1, nm + ('__real' if real else ''), np.array(wl))
            S.true('jax-shape', v.shape == (len(wl),), f'{nm}: shape {v.shape}')
            S.true('jax-warn', not ws, f'{nm}: warned inside the range: {ws[:1]}')
            for x, g in zip(wl, v):
                S.state([1, nm, real, x])
                a, b = envelope(rows, x)
                if real:
                    a, b = complex(a.real), complex(b.real)
                agree(S, 'jax-table', g, a, b, 1e-9 * max(1, abs(a), abs(b)), f'{nm}{"__real" * real} at {x}')
        wl = w[::max(1, len(w) // 6)] + [w[-1]]
    for x in wl:
        a, b = envelope(rows, x)
        for real in (False, True):
            for name in ((nm, nm.lower()) if x in w[:2] else (nm,)):
                S.state([case['be'], name, real, x])
                g, ws = find(S, case['be'], name + ('__real' if real else ''), x)
                S.traces += 1
                S.true('scalar', g.size == 1, f'{nm}: {g.shape}')
                aa, bb = (complex(a.real), complex(b.real)) if real else (a, b)
                bn = io.BACKENDS[case['be']]
                agree(S, f'{bn}-table', g.ravel()[0], aa, bb, 1e-9 * max(1, abs(a), abs(b)), f'{nm}{"__real" * real} at {x}')
                S.true(f'{bn}-warn', not ws, f'{nm}: warned inside the range at {x}: {ws[:1]}')
    # outside the range: clamped to the endpoint and announced
    for x, edge in ((lo * 0.5, lo), (lo * (1 - 1e-6), lo), (hi * (1 + 1e-6), hi), (hi * 1e3, hi), (hi * 1e9, hi)):
        a, b = envelope(rows, edge)
        for real in (False, True):
            S.state([case['be'], nm, real, x])
            g, ws = find(S, case['be'], nm + ('__real' if real else ''), x)
            aa, bb = (complex(a.real), complex(b.real)) if real else (a, b)
            bn = io.BACKENDS[case['be']]
            agree(S, f'{bn}-clamp', g.ravel()[0], aa, bb, 1e-9 * max(1, abs(a), abs(b)), f'{nm}{"__real" * real} clamped at {x}')
            S.true(f'{bn}-no-warning', len(ws) == 1 and nm in ws[0].upper(), f'{nm} at {x}: warnings {ws}')
    # arrays: mixed in and out of range
    xs = np.array([w[0] * 0.9, w[0], (w[0] + w[-1]) / 2, w[-1], w[-1] * 1.1])
    g, ws = find(S, case['be'], nm, xs)
    S.true('array-shape', g.shape == xs.shape, f'{nm}: {g.shape}')
    S.true('array-warn', len(ws) == 1, f'{nm}: {ws}')
    for x, v in zip(xs, g):
        a, b = envelope(rows, min(max(x, lo), hi))
        agree(S, f'{io.BACKENDS[case["be"]]}-array', v, a, b, 1e-9 * max(1, abs(a), abs(b)), f'{nm} array at {x}')


def run_model(case, S):
    nm, be = case['name'], case['be']
    if 'coef' in case:
        kind, coef, (lo, hi) = case['fkind'], case['coef'], case['range']
        spec = dict(formula=kind, coefficients=list(coef), wavelength_range=(lo, hi))
        before = copy.deepcopy(spec)
    else:
        e = lib()[nm]
        kind, coef, (lo, hi) = e['kind'], e['coef'], e['range']
        spec, before = nm, None
    bn = io.BACKENDS[be]
    xs = np.geomspace(lo, hi, case['n'])
    xs[0], xs[-1] = lo, hi
    arr, ws = find(S, be, spec, xs)
    S.true(f'{bn}-warn', not ws, f'{nm}: {ws[:1]}')
    S.true('shape', arr.shape == xs.shape, f'{nm}: {arr.shape}')
    for x, v in zip(xs, arr):
        want = M.evaluate(str(kind), coef, float(x))
        tol = 1e-6 * max(1, abs(want))
        S.state([be, nm, float(x), coef])
        S.close(f'{bn}-model', v, want, tol, f'{nm} at {x}')
        S.true(f'{bn}-passive', np.imag(v) <= 1e-12, f'{nm} at {x}: {v} amplifies')
        g, ws = find(S, be, spec, float(x))
        S.traces += 2
        S.close(f'{bn}-model-scalar', g.ravel()[0], want, tol, f'{nm} at {x}')
        if before is None:
            g, ws = find(S, be, nm.lower() + '__real', float(x))
            S.close(f'{bn}-model-real', g.ravel()[0], want.real, tol, f'{nm}__real at {x}')
    if np.isfinite(hi):
        for x in (lo * 0.93, hi * 1.07):
            if kind in (1, 2, '1', '2') or not isinstance(kind, str):
                if min(abs(x - (abs(c) if str(kind) == '1' else abs(c) ** 0.5)) / x for c in coef[2::2]) < 0.05:
                    continue
            g, ws = find(S, be, spec, x)
            S.true(f'{bn}-no-warning', len(ws) == 1, f'{nm} at {x} outside {lo}..{hi}: warnings {ws}')
    if before is not None:
        S.true('spec-mutated', spec == before, f'{nm}: the specification was changed: {spec}')


def run_graphene(case, S):
    import meent
    be = case['be']
    ef, mob, temp, thick = case['p']
    spec = S.call('graphene_falkovsky', meent.graphene_falkovsky, ef, **case['kw']) if 'kw' in case else \
        S.call('graphene_falkovsky', meent.graphene_falkovsky, ef, mob, temp, thick)
    bn = io.BACKENDS[be]
    for x in case['wl']:
        S.state([be, case['p'], x])
        want = M.graphene(ef, mob, temp, thick, x)
        g, ws = find(S, be, spec, x)
        S.traces += 1
        S.close(f'{bn}-graphene', g.ravel()[0], want, 2e-6 * max(1, abs(want)), f'graphene {case["p"]} at {x}')
        S.true(f'{bn}-graphene-passive', np.imag(g.ravel()[0]) <= 0, f'graphene {case["p"]} at {x}: {g} amplifies')
        S.true(f'{bn}-graphene-warn', not ws, f'{ws}')
    g, _ = find(S, be, spec, np.array(case['wl']).reshape(1, -1))
    S.close(f'{bn}-graphene-array', g, [[M.graphene(ef, mob, temp, thick, x) for x in case['wl']]], 1e-4, 'array')


def run_graphene_table(case, S):
    """The dynamic model reproduces the sampled tables shipped with the library."""
    import meent
    e = lib()[case['name']]
    spec = meent.graphene_falkovsky(case['ef'])
    for r in e['rows'][::case['step']]:
        S.state([case['name'], r[0]])
        g, _ = find(S, 0, spec, r[0])
        S.traces += 1
        S.close('graphene-vs-table', g.ravel()[0], complex(r[1], -r[2]), 2e-3 * max(1, abs(complex(r[1], r[2]))), f'{case["name"]} at {r[0]}')


def run_reject(case, S):
    import meent
    S.state(case)
    for be in (0, 1, 2):
        try:
            modelers()[be].find_nk_index(dict(formula='no-such', coefficients=[1.0], wavelength_range=(0.0, 1.0)), {}, 5e-7)
            S.fail('unknown-formula', f'{io.BACKENDS[be]}: an unknown formula was evaluated')
        except NotImplementedError:
            pass
        for bad in (0.0, -1e-6, float('nan'), float('inf')):
            try:
                modelers()[be].find_nk_index(meent.graphene_falkovsky(0.3), {}, bad)
                S.fail('graphene-wavelength', f'{io.BACKENDS[be]}: wavelength {bad} accepted')
            except ValueError:
                pass
        try:
            modelers()[be].find_nk_index('NO_SUCH_MATERIAL', table(be), 5e-7)
            S.fail('unknown-material', f'{io.BACKENDS[be]}: an unknown material was looked up')
        except KeyError:
            pass
        try:
            modelers()[be].read_material_table(type_complex=float)
            S.fail('type', 'float accepted as complex type')
        except ValueError:
            pass
        S.transitions += 7
    for i, k in enumerate(('fermi_level', 'mobility', 'temperature', 'thickness')):
        for bad, ex in ((0.0, ValueError), (-0.2, ValueError), (float('nan'), ValueError), (float('inf'), ValueError),
                        (None, TypeError), ('x', TypeError), ([1, 2], TypeError), (1 + 1j, TypeError)):
            kw = dict(fermi_level=0.4)
            kw[k] = bad
            S.transitions += 1
            S.comparisons += 1
            try:
                meent.graphene_falkovsky(**kw)
                S.fail('graphene-params', f'{k}={bad!r} accepted')
            except ex:
                pass


def run_tables(case, S):
    """The tables every backend serves: names, numbers, types; the summaries; user directories."""
    import meent
    L = lib()
    for be in (0, 1, 2):
        for prec in (0, 1):
            t = modelers()[be].read_material_table(type_complex=io.ctype(be, prec))
            S.transitions += 1
            S.true('names', sorted(t) == sorted(L), f'{io.BACKENDS[be]}: {sorted(set(t) ^ set(L))}')
            for nm, e in L.items():
                S.state([be, prec, nm])
                if nm not in t:
                    continue
                if 'rows' in e:
                    g = io.to_np(t[nm])
                    S.true('dtype', g.dtype == (np.float64, np.float32)[prec], f'{nm} {g.dtype}')
                    S.close('rows', g, np.array([r[:3] for r in e['rows']]), 1e-15 if not prec else 1e-6 * max(1, max(max(r[1:3]) for r in e['rows'])), nm)
                else:
                    S.true('spec', str(t[nm]['formula']) == str(e['kind']) and list(t[nm]['coefficients']) == e['coef']
                           and tuple(t[nm]['wavelength_range']) == e['range'], f'{nm}: {t[nm]}')
    ls = S.call('list_materials', meent.list_materials)
    S.true('list', [m['name'] for m in ls] == sorted(L), 'list_materials names')
    for m in ls:
        e = L.get(m['name'])
        if e is None:
            continue
        S.true('list-range', (m['wl_min'], m['wl_max']) == e['range'], f'{m} {e["range"]}')
        S.true('list-source', m['source'] == e['head'].get('source', '') and m['conditions'] == e['head'].get('conditions', ''), f'{m["name"]}')
    import io as sio
    from contextlib import redirect_stdout
    b = sio.StringIO()
    with redirect_stdout(b):
        S.call('print_materials', meent.print_materials)
    out = b.getvalue().splitlines()[1:]
    S.true('print', [ln.split()[0] for ln in out] == sorted(L), 'print_materials lists other materials')
    # a directory of the user's own
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, 'sub', 'deep'))
        rows = [(4e-7, 1.5, 0.0), (5e-7, 1.75, 0.25), (8e-7, 2.5, 0.125)]
        open(os.path.join(d, 'sub', 'deep', 'mine_A.txt'), 'w').write('wl n k\n' + '\n'.join('%r\t%r\t%r' % r for r in rows) + '\n')
        open(os.path.join(d, 'fit.txt'), 'w').write('wl n k\n# source: me\n# type: formula 2\n# range: 4e-07 - 2e-06 m\n# coefficients: 0 1.2 1e-14\n')
        open(os.path.join(d, 'doc.txt'), 'w').write('wl n k\n# type: model brendel-bormann-ev\n4e-07 1.5 0.5\n6e-07 1.7 0.1\n')
        open(os.path.join(d, 'notes.md'), 'w').write('not a table')
        from scipy.io import savemat
        savemat(os.path.join(d, 'lab.mat'), dict(WL=np.array([[r[0]] for r in rows]), n=np.array([[r[1]] for r in rows]), k=np.array([[r[2]] for r in rows])))
        for be in (0, 1, 2):
            t = S.call('read_material_table', modelers()[be].read_material_table, d)
            S.true('user-names', sorted(t) == ['DOC', 'FIT', 'LAB', 'MINE_A'], str(sorted(t)))
            for nm in ('mine_a', 'LAB'):
                for x in (4e-7, 4.5e-7, 5e-7, 6.5e-7, 8e-7):
                    g, ws = find(S, be, nm, x, t)
                    S.close('user-table', g.ravel()[0], M.interp(rows, x), 1e-12, f'{nm} {x}')
            g, ws = find(S, be, 'Fit', 6e-7, t)
            S.close('user-fit', g.ravel()[0], M.sellmeier([0, 1.2, 1e-14], 6e-7, False), 1e-12)
            g, ws = find(S, be, 'doc', 5e-7, t)
            S.close('user-doc', g.ravel()[0], 1.6 - 0.3j, 1e-12)
        ls = meent.list_materials(d)
        S.true('user-list', [(m['name'], m['wl_min'], m['wl_max'], m['source']) for m in ls] ==
               [('DOC', 4e-7, 6e-7, ''), ('FIT', 4e-7, 2e-6, 'me'), ('LAB', 4e-7, 8e-7, ''), ('MINE_A', 4e-7, 8e-7, '')], str(ls))


OPS = [('SI', 5e-7), ('si__real', 5e-7), ('SI', 9.9e-7), ('SI', 3e-9), ('ag', 6e-7), ('AG__real', 6e-7), ('fit', 7e-7), ('fit__real', 7e-7), ('graphene', 9e-6)]


def hist_ops():
    """Three library materials standing for: fine table, coarse table, fit."""
    L = lib()
    tabs = sorted((n for n in L if 'rows' in L[n]), key=lambda n: len(L[n]['rows']))
    fits = sorted(n for n in L if 'rows' not in L[n])
    a, b, c = tabs[0], tabs[-1], fits[0]

    def mid(n, f):
        lo, hi = L[n]['range']
        return lo + f * (hi - lo)
    return [(a, mid(a, .31)), (a, mid(a, .31) * (1 + 3e-6)), (a + '__real', mid(a, .31)), (a.lower(), mid(a, .77)), (a, mid(a, 1.5)), (b, mid(b, .4)), (b + '__real', mid(b, .4)),
            (c, mid(c, .5)), (c + '__real', mid(c, .25)), ('graphene', 9e-6)]


def run_history(case, S):
    import meent
    be = case['be']
    ops = hist_ops()
    specs = {'graphene': meent.graphene_falkovsky(0.4)}
    t = modelers()[be].read_material_table()
    ref = copy.deepcopy({k: (v if isinstance(v, dict) else io.to_np(v).copy()) for k, v in t.items()})
    alone = []
    for nm, x in ops:
        v, w = find(S, be, specs.get(nm, nm), x, modelers()[be].read_material_table())
        alone.append((v, w))
    for seq in itertools.product(range(len(ops)), repeat=case['depth']):
        S.state([be, seq])
        for i in seq:
            nm, x = ops[i]
            v, w = find(S, be, specs.get(nm, nm), x, t)
            S.comparisons += 1
            if not np.array_equal(v, alone[i][0]) or w != alone[i][1]:
                S.fail('history', f'{io.BACKENDS[be]} lookup {ops[i]} after {[ops[k] for k in seq]}: {v} {w} instead of {alone[i]}')
        S.traces += 1
    for k, v in t.items():
        same = v == ref[k] if isinstance(v, dict) else np.array_equal(io.to_np(v), ref[k])
        S.true('table-mutated', same, f'{k} changed')


def run_fill(case, S):
    """put_refractive_index_in_ucell over every mask."""
    import meent
    be = case['be']
    torch = io.mods()['torch']
    L = lib()
    tabs = sorted(n for n in L if 'rows' in L[n] and L[n]['range'][0] < 5e-7 and L[n]['range'][1] > 9e-7)
    fits = sorted(n for n in L if 'rows' not in L[n] and L[n]['range'][0] < 5e-7 and L[n]['range'][1] > 9e-7)
    a, b, f = tabs[0], tabs[-1], fits[0]
    bn = io.BACKENDS[be]

    def value(m, wl):
        if isinstance(m, dict):
            return M.evaluate(str(m['formula']), m['coefficients'], wl)
        if isinstance(m, str):
            real = m.endswith('__real')
            e = L[(m[:-6] if real else m).upper()]
            v = envelope(e['rows'], wl)[0] if 'rows' in e else M.evaluate(str(e['kind']), e['coef'], wl)
            return complex(v.real) if real else v
        return complex(m)
    gr = meent.graphene_falkovsky(0.5)
    lists = {'mix': [a, 1.25, b.lower() + '__real'], 'num': [2.5, 1.5 - 0.25j, 3], 'fit': [gr, a + '__real', f], 'dup': [1.0, 2.0, 0.0],
             'swap': [2.0, 0.0, 1.0]}
    mats = lists[case['list']]
    mee = S.call('call_mee', meent.call_mee, backend=be, ucell=io.arr(be, np.ones((1, 1, 2))), thickness=[1.0], period=[1.0, 1.0], fto=[0, 0], wavelength=1.0)
    for wl in (5.3e-7, 8.1e-7, 5.3e-7):
        vals = [value(m, wl) for m in mats]
        for shape in ((1, 1, 4), (2, 1, 2), (1, 2, 2)):
            for mask in itertools.product(range(3), repeat=4):
                m = np.array(mask).reshape(shape)
                for form in case['forms']:
                    x = {'int': m, 'float': m.astype(float), 'tensor': torch.tensor(m), 'ftensor': torch.tensor(m.astype(float))}[form]
                    S.state([be, case['list'], shape, mask, form, wl])
                    keep = x.clone() if hasattr(x, 'clone') else x.copy()
                    kw = {} if case['prec'] is None else dict(type_complex=io.ctype(be, case['prec']))
                    g = io.to_np(S.call(f'{bn} fill', mee.put_refractive_index_in_ucell, x, mats, wl, **kw))
                    S.traces += 1
                    want = np.array([vals[i] for i in mask]).reshape(shape)
                    S.close(f'{bn}-fill', g, want, 1e-9 * max(1, np.abs(want).max()) if not case['prec'] else 1e-6 * max(1, np.abs(want).max()),
                            f'mask {mask} {shape} of {case["list"]} at {wl}')
                    S.true(f'{bn}-mask-mutated', bool((keep == x).all()), f'mask {mask}')
    # neighbouring wavelengths, one after the other on the same modeller: every ordered pair, and the whole walk there and back
    if case['prec'] is None:
        steps = (0.0, 1e-9, -1e-7, 1e-6, -1e-5, 3e-4, 1e-3, -1e-2)
        mask = np.array([[[0, 1, 2]]])
        x = mask if be == 0 else torch.tensor(mask)

        def fresh():
            return S.call('call_mee', meent.call_mee, backend=be, ucell=io.arr(be, np.ones((1, 1, 2))), thickness=[1.0], period=[1.0, 1.0], fto=[0, 0], wavelength=1.0)
        for base in (5.3e-7, 7.777e-7):
            wls = [base * (1 + d) for d in steps]
            want = {w: np.array([value(m, w) for m in mats]).reshape(1, 1, 3) for w in wls}
            walks = [(u, v) for u in wls for v in wls] + [tuple(wls + wls[::-1])]
            for walk in walks:
                one = fresh()
                S.state([be, case['list'], 'walk', walk])
                for w in walk:
                    g = io.to_np(S.call(f'{bn} fill', one.put_refractive_index_in_ucell, x, mats, w))
                    S.traces += 1
                    S.close(f'{bn}-fill-near', g, want[w], 1e-9 * np.abs(want[w]).max(), f'{case["list"]} at {w} in {walk}')
    # more materials than pixels, every single-material cell
    many = [1.0 + 0.1 * i - 0.01j * i for i in range(14)]
    for i in range(14):
        m = np.full((2, 1, 3), i)
        x = m if be == 0 else torch.tensor(m)
        g = io.to_np(S.call('fill', mee.put_refractive_index_in_ucell, x, many, 5e-7))
        S.close(f'{bn}-fill-many', g, np.full(m.shape, many[i]), 1e-12, f'{i}')


def run(case, S):
    {'table': run_table, 'model': run_model, 'graphene': run_graphene, 'gtable': run_graphene_table, 'reject': run_reject,
     'tables': run_tables, 'history': run_history, 'fill': run_fill}[case['kind']](case, S)


def groups(tier):
    T = tier == 'thorough'
    g = []
    L = M.read_library(REPO)
    for nm, e in L.items():
        for be in (0, 1, 2):
            if 'rows' in e:
                g.append((len(e['rows']) * (1 if be != 1 else 0.2) + 40, [dict(kind='table', name=nm, be=be)]))
            else:
                g.append((400, [dict(kind='model', name=nm, be=be, n=(97 if T else 33))]))
    FIT = [('1', 1, [0.0, 1.1, 9e-8, 0.4, 1.2e-7, 0.9, 9.9e-6], [3e-7, 3e-6]), ('2', 2, [0.3, 1.4, 1.1e-14, 0.8, 1.0e-10], [3e-7, 3e-6]), ('1b', 1, [1.5, 0.7, 2e-7], [4e-7, 2e-6]),
           ('ev', 'brendel-bormann-ev', [9.03, 0.77, 0.05, 0.054, 0.074, 0.218, 0.742, 0.05, 0.035, 2.885, 0.349], [3e-7, 9e-6]),
           ('ev0', 'brendel-bormann-ev', [5.0, 1.0, 0.2], [3e-7, 9e-6]),
           ('cm', 'brendel-bormann-cm', [2.04, 400000.0, 20.0, 30.0, 1200.0, 90000.0, 60.0, 15.0, 2500.0], [2e-6, 3e-5])]
    for k in range(9 if T else 7):         # every number of terms
        FIT += [(f'1-{k}', 1, [0.2] + [v for i in range(k) for v in (0.9 / (i + 1), (0.05 + 0.03 * i) * 1e-6)], [4e-7, 2e-6]),
                (f'2-{k}', 2, [0.1] + [v for i in range(k) for v in (0.8 / (i + 1), (0.05 + 0.03 * i) ** 2 * 1e-12)], [4e-7, 2e-6]),
                (f'ev-{k}', 'brendel-bormann-ev', [7.5, 0.6, 0.06] + [v for i in range(k) for v in (0.1 + 0.07 * i, 0.3 + 0.1 * i, 0.6 + 0.7 * i, 0.25 + 0.1 * (i % 3))], [3e-7, 9e-6]),
                (f'cm-{k}', 'brendel-bormann-cm', [2.1] + [v for i in range(k) for v in (2e5 / (i + 1), 40.0 + 5 * i, 25.0 + 9 * (i % 3), 700.0 + 450.0 * i)], [2e-6, 3e-5])]
    FIT = [f for f in FIT if len(f[2]) > 1]      # a formula without terms is no dispersion formula
    for nm, kind, coef, r in FIT:
        for be in (0, 1, 2):
            g.append((300, [dict(kind='model', name='spec-' + nm, fkind=kind, coef=coef, range=r, be=be, n=(61 if T else 21))]))
    wl = [4e-7, 1e-6, 2.5e-6, 6e-6, 1.1e-5, 5e-5] + ([7e-7, 4e-6, 2e-5, 2e-4] if T else [])
    for ef in (0.1, 0.4, 0.9):
        for mob in (500.0, 1e4):
            for temp in (40.0, 300.0) + ((600.0,) if T else ()):
                g.append((100, [dict(kind='graphene', be=be, p=[ef, mob, temp, th], wl=wl) for be in (0, 1, 2) for th in (0.34e-9, 1e-9)]))
    g.append((50, [dict(kind='graphene', be=be, p=[0.3, mob, temp, th], kw=kw, wl=wl) for be in (0, 1, 2) for mob, temp, th, kw in
                   ((1e4, 300.0, 0.34e-9, {}), (2e3, 300.0, 0.34e-9, dict(mobility=2000)), (1e4, 77.0, 0.34e-9, dict(temperature=77)),
                    (1e4, 300.0, 1e-9, dict(thickness=1e-9)))]))
    for nm, e in L.items():
        import re
        m = re.search(r'EF_?(\d+)', nm)
        if m and 'GR' in nm and 'rows' in e:
            g.append((100, [dict(kind='gtable', name=nm, ef=int(m.group(1)) / 1000, step=max(1, len(e['rows']) // (200 if T else 40)))]))
    g.append((60, [dict(kind='reject')]))
    g.append((300, [dict(kind='tables')]))
    for be in (0, 1, 2):
        g.append((800, [dict(kind='history', be=be, depth=(2 if be == 1 else 3) + (1 if T else 0))]))
    for be, forms in ((0, ['int', 'float']), (2, ['int', 'tensor', 'ftensor'])):
        for ls in ('mix', 'num', 'fit', 'dup', 'swap'):
            for prec in (None, 0, 1):
                g.append((500, [dict(kind='fill', be=be, list=ls, forms=forms if prec is None or T else forms[:1], prec=prec)]))
    return g
