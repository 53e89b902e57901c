"""C13: numerical options and input forms do not change the physics; unsupported values are rejected."""
import copy
import itertools

import numpy as np

from mc import lattice as L
from mc import meentio as io

ID = 'C13'
BOUNDS = ('every structure x illumination of the lattice x {double, single} x {inverse, pseudo-inverse} (results, near fields and their types); every setting x every accepted '
          'form of its value (numbers, NumPy scalars, 0-d and 1-element arrays, lists, tuples, arrays, tensors, cell types and memory layouts) x constructor / attribute / keyword, '
          'all settings together in each form; every parameter of a vector shape in each form, singly and together; every single and pair of omitted defaults; every listed unsupported value x constructor / attribute; on each backend')
ASSUMPTIONS = ['form values are exactly representable in single precision', 'single-precision stacks have no uniform layer (LAPACK limits, see DESIGN)',
               'a rejection may come from the assignment or from the solve, with any exception']
ROUGH = 1e-6        # single-precision numbers may drag intermediate products along
SUBS = ('res', 'te', 'tm')


def same(S, key, a, b, tol, what):
    for sub in SUBS:
        if not S.true(key, (a[sub] is None) == (b[sub] is None), f'{what}: {sub} present in one result only'):
            continue
        if a[sub] is None:
            continue
        for k in io.FIELDS:
            S.close(key, a[sub][k], b[sub][k], tol, f'{what} {sub}.{k}')


# ---------------------------------------------------------------- precision and inverse
def solve_all(be, c):
    with np.errstate(all='ignore'):
        mee = io.build(be, c)
        raw = mee.conv_solve()
        f = io.to_np(mee.calculate_field(3, 2, 2, (True, True, True)))
        return io.unpack(raw), f


def run_numeric(case, S):
    be, cfg = case['be'], case['cfg']
    bn = io.BACKENDS[be]
    ref = None
    for prec, pinv in ((0, False), (0, True), (1, False), (1, True)):
        if (prec, pinv) not in case.get('opts', [(prec, pinv)]) and [prec, pinv] not in case.get('opts', [[prec, pinv]]):
            continue
        c = dict(cfg, prec=prec, use_pinv=pinv)
        S.state([be, c])
        S.traces += 1
        r, f = S.call(f'{bn} solve prec={prec} pinv={pinv}', solve_all, be, c)
        w = f"theta={cfg['theta']} phi={cfg['phi']} n={cfg['n_top']}/{cfg['n_bot']} fto={cfg['fto']} ft={cfg['fourier_type']} prec={prec} pinv={pinv}"
        cx, fl = (('complex128', 'float64'), ('complex64', 'float32'))[prec]
        for sub in SUBS:
            if r[sub] is not None:
                for k in io.FIELDS:
                    want = cx if k[0] in 'RT' else fl
                    S.true(f'{bn}-type', str(r[sub][k].dtype) == want, f'{w}: {sub}.{k} has type {r[sub][k].dtype}, not {want}')
        S.true(f'{bn}-type', str(f.dtype) == cx, f'{w}: field has type {f.dtype}, not {cx}')
        if ref is None:
            ref = (r, f)
            continue
        tol = 1e-3 if prec else 1e-7
        same(S, f'{bn}-' + ('single' if prec else 'pinv'), r, ref[0], tol, w)
        S.close(f'{bn}-' + ('single' if prec else 'pinv'), f, ref[1], tol * max(1, float(np.abs(ref[1]).max())), f'{w} field')


# ---------------------------------------------------------------- forms
B2 = dict(n_top=1.5, n_bot=2.0, theta=0.5, phi=0.25, psi=0.75, period=[1000.0, 1000.0], wavelength=600.0, fto=[1, 1], thickness=[300.0],
          fourier_type=0, enhanced_dfs=True, ucell=dict(r=[[[1.0, 1.0, 2.0], [1.0, 3.0, 1.0]]]))
B1 = dict(B2, phi=None, fto=[2, 0], thickness=[300.0, 200.0], ucell=dict(r=[[[1.0, 2.0, 2.0, 1.0, 3.0]], [[1.0, 1.0, 2.0, 1.0, 1.0]]]))
B1.pop('psi')
B1['pol'] = 1
BC = dict(B2, fto=[2, 0], ucell=dict(r=[[[1.0, 2.0, 2.0, 1.0, 3.0]]]), period=[1000.0, 700.0], fourier_type=1)
BV = dict(B2, fto=[1, 1], fourier_type=1, ucell=dict(v=[[1.0, [['rectangle', 400.0, 300.0, 350.0, 200.0, 2.0, 0.0, 1, 1]]]]))
BASES = dict(d1=B1, con=BC, d2=B2, vec=BV)
NUMS = ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'pol', 'wavelength')


def num_forms(k, v, be):
    m = io.mods()
    f = dict(float=float(v), np64=np.float64(v), np32=np.float32(v))
    if float(v).is_integer():
        f.update(int=int(v), npint=np.int64(v), npi32=np.int32(v))
    if k != 'pol':
        f.update(cplx=complex(v), npc=np.complex128(v), npc64=np.complex64(v))
        if be != 2:
            f.update(np0d=np.array(v), np1=np.array([v]))
        elif k not in ('n_top', 'n_bot', 'wavelength'):
            f.update(np0d=np.array(v))
        if be == 1:
            f.update(own=m['jnp'].array(v), own1=m['jnp'].array([v]))
        if be == 2:
            f.update(own=m['torch'].tensor(float(v), dtype=m['torch'].float64))
            f.update(own32=m['torch'].tensor(float(v), dtype=m['torch'].float32))
        if k in ('theta', 'phi'):
            f.update(list1=[v])
    return f


def seq_forms(k, v, be):
    m = io.mods()
    f = dict(list=list(v), tuple=tuple(v), np=np.array(v), np32=np.array(v, dtype=np.float32), ints=[int(x) for x in v], npint=np.array(v, dtype=int),
             nps=[np.float64(x) for x in v], floats=tuple(float(x) for x in v))
    if be == 1:
        f.update(own=m['jnp'].array(v), owns=[m['jnp'].array(x) for x in v])
    if be == 2:
        f.update(own=m['torch'].tensor(v), owns=[m['torch'].tensor(x) for x in v])
    short = {'period': len(v) == 2 and v[0] == v[-1], 'thickness': len(v) == 1, 'fto': v[-1] == 0}[k]
    if short:
        f.update(scalar=v[0], one=[v[0]], onet=(v[0],), int=int(v[0]), fl=float(v[0]), np1=np.array([v[0]]))
        if be:
            f.update(own1=(m['jnp'].array if be == 1 else m['torch'].tensor)([v[0]]))
        if k == 'fto':
            f.update(np0d=np.array(v[0]))
    return f


def cell_forms(u, be):
    m = io.mods()
    f = {n: u.astype(n) for n in ('int32', 'int64', 'float32', 'float64', 'complex64', 'complex128')}
    f['fortran'] = np.asfortranarray(u)
    f['strided'] = np.repeat(np.repeat(u, 2, axis=1), 3, axis=2)[:, ::2, ::3]
    f['flipped'] = u[::-1, ::-1, ::-1].copy()[::-1, ::-1, ::-1]
    ro = u.copy()
    ro.flags.writeable = False
    f['readonly'] = ro
    if be == 1:
        f.update({'own-' + n: m['jnp'].array(u).astype(n) for n in ('int32', 'int64', 'float32', 'complex64')})
    if be == 2:
        t = m['torch'].tensor(u)
        f.update({'own-' + n: t.to(getattr(m['torch'], n)) for n in ('int32', 'int64', 'float32', 'complex64')})
        f['own-strided'] = t.transpose(1, 2).contiguous().transpose(1, 2)
    return f


def opt_forms(be):
    m = io.mods()
    own = (np.complex128, m['jnp'].complex128, m['torch'].complex128)[be]
    return dict(type_complex={'0': 0, 'np': np.complex128, 'own': own}, fourier_type={'F': False, 'np': np.int64(0)},
                enhanced_dfs={'1': 1, 'T': True}, use_pinv={'0': 0, 'F': False}, perturbation={'def': 1e-20}, device={'0': 0, 'cpu': 'cpu'}, connecting_algo={'def': 'TMM'})


def forms(be, base, k):
    v = base.get(k)
    if k in NUMS:
        return num_forms(k, v, be) if v is not None else {}
    if k in ('period', 'thickness', 'fto'):
        return seq_forms(k, v, be)
    if k == 'ucell':
        return cell_forms(io.raster(base), be) if 'r' in base['ucell'] else {}
    return opt_forms(be)[k]


def make(be, base, over, mode):
    """mode: how the alternative forms are handed over."""
    kw = io.kwargs(be, base)
    call = io.mods()['meent'].call_mee
    with np.errstate(all='ignore'):
        if mode == 'ctor':
            return io.unpack(call(backend=be, **dict(kw, **over)).conv_solve())
        mee = call(backend=be, **kw)
        if mode == 'set':
            for k, v in over.items():
                setattr(mee, k, v)
            return io.unpack(mee.conv_solve())
        return io.unpack(mee.conv_solve(**over))


_base = {}


def baseline(be, name, S):
    if (be, name) not in _base:
        _base[be, name] = S.call('baseline', io.solve, be, BASES[name])
    return _base[be, name]


def run_form(case, S):
    be, base, k = case['be'], BASES[case['base']], case['k']
    bn = io.BACKENDS[be]
    want = baseline(be, case['base'], S)
    ft = dict(base)
    if k == 'fourier_type' and base['fourier_type'] != 0:
        return
    for nm, x in forms(be, ft, k).items():
        for mode in case['modes']:
            S.state([be, case['base'], k, nm, mode])
            S.traces += 1
            got = S.call(f'{bn} {k} as {nm} ({mode})', make, be, base, {k: x}, mode)
            same(S, f'{bn}-form', got, want, ROUGH if nm in ('np32', 'own32', 'npc64') else 1e-9, f'{case["base"]}: {k} as {nm} ({mode})')


def run_together(case, S):
    """All settings handed over in one and the same form."""
    be, base = case['be'], BASES[case['base']]
    bn = io.BACKENDS[be]
    want = baseline(be, case['base'], S)
    for pick in case['picks']:
        over = {}
        for k in NUMS + ('period', 'thickness', 'fto', 'ucell'):
            f = forms(be, base, k)
            for cand in pick:
                if cand in f:
                    over[k] = f[cand]
                    break
        for mode in case['modes']:
            S.state([be, case['base'], pick, mode])
            S.traces += 1
            got = S.call(f'{bn} all as {pick} ({mode})', make, be, base, over, mode)
            same(S, f'{bn}-form', got, want, ROUGH if 'np32' in pick else 1e-9, f'{case["base"]}: {sorted(over)} as {pick} ({mode})')


# ---------------------------------------------------------------- parameters of vector shapes
SHAPE_K = ('cx', 'cy', 'lx', 'ly', 'n', 'angle')
SHAPE_V = dict(cx=400.0, cy=300.0, lx=350.0, ly=200.0, n=2.0)


def shape_forms(be, k, v):
    m = io.mods()
    f = dict(int=int(v)) if float(v).is_integer() else {}
    size = k in ('lx', 'ly', 'angle')
    if be == 0:
        f.update(np0d=np.array(v), **(dict(np1=np.array([v]), np32=np.array([v], dtype='float32')) if size else dict(np64=np.float64(v))))
    elif be == 1:
        f.update(own=m['jnp'].array([v]) if size else m['jnp'].array(v))
    else:
        t = m['torch']
        f.update(own=t.tensor(v), own1=t.tensor([v]), own64=t.tensor(v, dtype=t.float64))
    if k == 'n':
        f.update(cplx=complex(v))
    return f


def shape_solve(be, shape, p, extra, ft):
    obj = [shape] + [p[k] for k in SHAPE_K] + extra
    kw = io.kwargs(be, BV)
    kw.update(ucell=[[1.0, [obj]]], fourier_type=ft)
    with np.errstate(all='ignore'):
        return io.unpack(io.mods()['meent'].call_mee(backend=be, **kw).conv_solve())


def run_shape(case, S):
    be, bn = case['be'], io.BACKENDS[case['be']]
    for shape, extra in (('rectangle', [2, 3]), ('ellipse', [8, 8])):
        for ang in case['angles']:
            b = dict(SHAPE_V, angle=ang)
            want = S.call(f'{bn} {shape}', shape_solve, be, shape, b, extra, 1)
            combos = [{k: (nm, v)} for k in SHAPE_K for nm, v in shape_forms(be, k, b[k]).items()]
            allf = {k: shape_forms(be, k, b[k]) for k in SHAPE_K}
            for pick in (('int',), ('np1', 'np0d'), ('own', 'np0d'), ('own1', 'np32'), ('own64', 'cplx')):
                combos.append({k: next((nm, f[nm]) for nm in pick if nm in f) for k, f in allf.items() if any(nm in f for nm in pick)})
            for c in combos:
                nm = {k: x[0] for k, x in c.items()}
                S.state([be, shape, ang, nm])
                S.traces += 1
                got = S.call(f'{bn} {shape} {nm}', shape_solve, be, shape, dict(b, **{k: x[1] for k, x in c.items()}), extra, 1)
                same(S, f'{bn}-shape-form', got, want, ROUGH if be or 'np32' in nm.values() else 1e-9, f'{shape} angle={ang}: {nm}')


# ---------------------------------------------------------------- defaults
DEFAULTS = dict(n_top=1.0, n_bot=1.0, theta=0.0, phi=None, psi=None, pol=0.0, period=(1.0, 1.0), wavelength=1.0, fto=(0, 0), thickness=(0.0,),
                fourier_type=0, enhanced_dfs=True, use_pinv=False, connecting_algo='TMM', ucell_materials=None, device='cpu')


def run_default(case, S):
    be = case['be']
    bn = io.BACKENDS[be]
    call = io.mods()['meent'].call_mee
    cell = io.arr(be, np.array([[[1.0, 2.0, 1.5, 1.0]]]) if case['rows'] == 1 else np.array([[[1.0, 2.0, 1.5], [1.0, 1.0, 1.75]]]))
    kw = dict(n_top=1.25, n_bot=1.5, theta=0.5, phi=0.25, pol=0.5, period=[2.5, 1.5], wavelength=0.75, fto=[1, 1] if case['rows'] > 1 else [2, 0], thickness=[0.5],
              fourier_type=1, enhanced_dfs=False, use_pinv=True)
    for omit in case['omits']:
        a = {k: v for k, v in kw.items() if k not in omit}
        b = dict(a, **{k: DEFAULTS[k] for k in omit})
        S.state([be, case['rows'], omit])
        S.traces += 1
        with np.errstate(all='ignore'):
            ra = S.call(f'{bn} without {omit}', lambda: io.unpack(call(backend=be, ucell=cell, **a).conv_solve()))
            rb = S.call(f'{bn} with default {omit}', lambda: io.unpack(call(backend=be, ucell=cell, **b).conv_solve()))
        same(S, f'{bn}-default', ra, rb, 1e-12, f'{omit} omitted / given as documented')


# ---------------------------------------------------------------- rejections
A = np.array
BAD = [('fourier_type', 2), ('fourier_type', -1), ('fourier_type', None), ('fourier_type', 'cfs'), ('type_complex', 2), ('type_complex', np.float64), ('type_complex', 'complex'),
       ('connecting_algo', 'XYZ'), ('pol', -0.1), ('pol', 1.5), ('pol', 2), ('period', None), ('period', '900'), ('period', []), ('thickness', None), ('thickness', 'a'),
       ('fto', None), ('fto', [1, 1, 1]), ('fto', A([1, 1, 1])), ('fto', '3'), ('fto', []), ('fto', [-1, 0]), ('fto', -1),
       ('ucell', (1, 2)), ('ucell', 'x'), ('ucell', A([[1.0, 2.0]])), ('ucell', A([[['a', 'b']]])), ('ucell', np.ones((1, 2, 3, 2))), ('ucell', A([1.0, 2.0])), ('ucell', 3.0),
       ('ucell', np.ones((0, 2, 3))), ('ucell', np.ones((2, 2, 3))), ('thickness', [300.0, 200.0]), ('thickness', []), ('thickness', [300.0, 200.0, 0.0]),
       ('wavelength', None), ('wavelength', 'a'), ('wavelength', 0), ('theta', 'a'), ('theta', None), ('n_top', None), ('n_bot', 'glass')]
BAD_NJ = [('ucell', A([[[1, 2, 1], [1, 2, 2]]], dtype='int8')), ('ucell', A([[[1, 2, 1], [1, 2, 2]]], dtype='float16')), ('ucell', A([[[1, 2, 1], [1, 2, 2]]], dtype='uint8')),
          ('ucell', np.full((1, 2, 3, 3), 1.5)), ('ucell', A([[[True, True]]]))]


def run_bad(case, S):
    be, base = case['be'], BASES[case['base']]
    bn = io.BACKENDS[be]
    bad = BAD + (BAD_NJ if be != 2 else [])
    for i in case['which']:
        if i >= len(bad):
            continue
        k, v = bad[i]
        if 'v' in base['ucell'] and k in ('fourier_type', 'enhanced_dfs'):
            continue
        if base['thickness'] != [300.0] and k == 'thickness' and v == [300.0, 200.0]:
            v = [300.0]
        if k == 'ucell' and isinstance(v, np.ndarray) and v.shape == (2, 2, 3) and len(base['thickness']) == 2:
            v = np.ones((1, 1, 3))
        for mode in ('ctor', 'set', 'kw'):
            S.state([be, case['base'], k, repr(v), mode])
            S.transitions += 1
            S.traces += 1
            try:
                r = make(be, base, {k: v}, mode)
            except Exception:
                S.comparisons += 1
                continue
            S.fail(f'{bn}-accepted', f'{bn}-accepted: {case["base"]}: unsupported {k}={v!r} ({mode}) answered with R={float(np.nansum(r["de_ri"])):.4g}')
    if case['which'][0] == 0:
        for b in (-1, 3, 'numpy', None):
            S.transitions += 1
            try:
                io.mods()['meent'].call_mee(backend=b, **io.kwargs(be, base))
            except Exception:
                continue
            S.fail(f'{bn}-accepted', f'{bn}-accepted: backend {b!r} accepted')


KIND = dict(numeric=run_numeric, form=run_form, shape=run_shape, together=run_together, default=run_default, bad=run_bad)


def run(case, S):
    KIND[case['kind']](case, S)
    if case['be'] == 1 and case['kind'] == 'numeric':
        io.mods()['jax'].clear_caches()


ALL = NUMS + ('period', 'thickness', 'fto', 'ucell', 'type_complex', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'perturbation', 'connecting_algo', 'device')


def groups(tier):
    th = tier == 'thorough'
    out = []
    for be in (0, 1, 2):
        j = be == 1
        bases = list(BASES) if not j or th else ['d1', 'd2']
        for b in bases:
            base = BASES[b]
            ks = [k for k in ALL if not (k in NUMS and base.get(k) is None)]
            modes = ['ctor', 'set', 'kw'] if not j or th else ['ctor', 'set']
            cs = [dict(kind='form', be=be, base=b, k=k, modes=modes if not (j and b == 'd1' and not th) else ['ctor']) for k in ks]
            out += L.chunk(cs, 2 if j else 5, 8.0 if j else 1.0)
            own = [['own', 'own-float64', 'float'], ['np', 'np64', 'float64'], ['np32', 'float32'], ['ints', 'int', 'int64', 'float'], ['tuple', 'cplx', 'complex128'],
                   ['owns', 'own', 'own-float32', 'float'], ['np1', 'npc', 'complex64', 'float']]
            out.append((6.0 if j else 1.0, [dict(kind='together', be=be, base=b, picks=own, modes=modes)]))
            n = len(BAD) + len(BAD_NJ)
            out += [(2.0 if j else 0.3, [dict(kind='bad', be=be, base=b, which=list(range(i, min(i + 12, n))))]) for i in range(0, n, 12)]
        out += [(8.0 if j else 1.0, [dict(kind='shape', be=be, angles=[a])]) for a in ([0.0, 0.5, -1.25] if not j or th else [0.5])]
        keys = list(DEFAULTS)
        omits = [[k] for k in keys] + [list(p) for p in itertools.combinations(keys, 2)]
        if j and not th:
            omits = omits[:len(keys)]
        for rows in (1, 2):
            cs = [dict(kind='default', be=be, rows=rows, omits=omits[i:i + 8]) for i in range(0, len(omits), 8)]
            out += L.chunk(cs, 2, 6.0 if j else 0.5)
        # precision
        media = ['air-glass', 'glass-air', 'glass-lossy'] + (['air-metal', 'air-high'] if th else [])
        fam = [(L.STACKS_1D[s], [3, 0], ft, p) for s in ('bin', 'two') for ft in ('dfs', 'cfs', 'plain') for p in ((None, dict(pol=0)), (None, dict(pol=1)), (0.4, dict(psi=0.6)))]
        fam += [(L.STACKS_2D[s], [1, 1], ft, (2.2, dict(psi=0.6))) for s in ('bin', 'two') for ft in ('dfs', 'cfs', 'plain')]
        fam += [(L.STACKS_V['rect'], [1, 1], 'cfs', (2.2, dict(psi=0.6)))]
        if be == 2:
            fam += [(L.ANISO[s], [1, 1], ft, (2.2, dict(psi=0.6))) for s in ('uni', 'lossy') for ft in ('dfs', 'cfs')]
        if j:
            fam = [fam[0], fam[4], fam[5], fam[19], fam[24]] if not th else fam
        for st, fto, ft, (phi, q) in fam:
            cs = [dict(kind='numeric', be=be, cfg=L.config(st, m, 'A', fto, t, phi, ft, **q)) for m in (media if not j or th else media[2:])
                  for t in ([0.0, 0.35, -0.8] if not j or th else [0.35])]
            out += L.chunk(cs, 1 if j else 3, 12.0 if j else 0.3)
        # the pseudo-inverse on large and extreme structures (wide ranges of singular values)
        xs = [(L.X1[n], [18, 0], 'dfs', (None, dict(pol=p))) for n in L.X1 for p in (0, 1)] + [(L.X1[n], [9, 0], 'cfs', (4.9, dict(psi=0.6))) for n in L.X1]
        xs += [(L.X2[n], [3, 2], ft, (4.9, dict(psi=0.6))) for n in L.X2 for ft in ('dfs', 'cfs')]
        xs += [(L.STACKS_1D['bin'], [60, 0], 'dfs', (None, dict(pol=p))) for p in (0, 1)]
        if j and not th:
            xs = xs[1:6:2] + xs[9:10]
        for st, fto, ft, (phi, q) in xs:
            cs = [dict(kind='numeric', be=be, opts=[[0, False], [0, True]], cfg=L.config(st, m, 'A', fto, t, phi, ft, **q)) for m in (('glass-air', 'air-metal') if not j or th else ('air-metal',)) for t in ((0.37, 1.53) if not j or th else (0.37,))]
            out += L.chunk(cs, 2, 12.0 if j else 2.0)
    return out
