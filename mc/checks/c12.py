"""C12: polarisation is linear and consistently parameterised."""
import copy
import itertools

import numpy as np

from mc import lattice as L
from mc import meentio as io

ID = 'C12'
BOUNDS = ('every structure x illumination of the lattice x every polarisation angle in it (both signs, several turns, the exact TE and TM angles) x backend: '
          'amplitudes, efficiencies and near fields; every sequence of polarisation settings up to the depth bound, constructor and keyword forms included')
ASSUMPTIONS = ['efficiencies are compared through the quadratic form fixed by psi = 0, pi/2 and pi/4']
PI = np.pi
PSIS = [0.0, PI / 2, PI / 4, 0.6, -0.6, 1.3, 2.0, -2.5, PI, -PI / 2, 1.5 * PI, 0.6 + PI, 0.6 - 2 * PI, 20.0, 0.7 + 3 * PI, -4.0, -7.5, 8.1, 5 * PI / 2]
NEARPSI = [c + g * 10.0 ** -k for c in (0.0, PI / 2, PI / 4, PI, -PI / 2) for k in (2, 3, 4, 5, 6, 7) for g in (1, -1)]
AMP = ('R_s', 'R_p', 'T_s', 'T_p')
DE = ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p', 'de_ri', 'de_ti')
FIELD = dict(res_x=3, res_y=2, res_z=2)


def solved(be, mee):
    with np.errstate(all='ignore'):
        return io.unpack(mee.conv_solve())


def desc(c):
    return f"theta={c['theta']} phi={c['phi']} fto={c['fto']} ft={c['fourier_type']}"


def run_linear(case, S):
    """All psi on one object per configuration: superposition of amplitudes, quadratic form of efficiencies, fields."""
    be, cfg = case['be'], case['cfg']
    bn = io.BACKENDS[be]
    mee = io.build(be, dict(cfg, psi=PI / 4))
    a = {}
    for psi in [PI / 4] + [p for p in case['psis'] if p != PI / 4]:
        if io.is_1d(be, dict(cfg, psi=psi)):
            continue            # answered by the scalar formulation: see run_scalar
        mee.psi = psi
        S.state([be, cfg, psi])
        S.traces += 1
        a[psi] = S.call(f'{bn} solve psi={psi}', solved, be, mee)
        if case.get('field'):
            with np.errstate(all='ignore'):
                a[psi]['field'] = io.to_np(S.call(f'{bn} field psi={psi}', mee.calculate_field, set_field_input=(True, True, True), **FIELD))
    r0 = a[PI / 4]
    for psi, r in a.items():
        s, c = np.sin(psi), np.cos(psi)
        w = f'{desc(cfg)} psi={psi:.4f}'
        if not S.true(f'{bn}-incidences', r['te'] is not None and r['tm'] is not None, f'{w}: TE- or TM-incidence result missing'):
            return
        for inc in ('te', 'tm'):
            for k in AMP + DE:
                S.close(f'{bn}-incidences', r[inc][k], r0[inc][k], 1e-9, f'{w} {inc}.{k} depends on psi')
        for k in AMP:
            S.close(f'{bn}-superposition', r['res'][k], s * r0['te'][k] + c * r0['tm'][k], 1e-8, f'{w} {k}')
        for k in DE:
            x = r0['res'][k] - (r0['te'][k] + r0['tm'][k]) / 2
            S.close(f'{bn}-efficiency', r['res'][k], s * s * r0['te'][k] + c * c * r0['tm'][k] + 2 * s * c * x, 1e-8, f'{w} {k}')
        for k in ('de_ri', 'de_ti'):
            S.close(f'{bn}-total', r[k], r['res'][k], 1e-12, f'{w} {k}')
        if case.get('field'):
            f = r['field']
            S.close(f'{bn}-field', f[0], s * r0['field'][1] + c * r0['field'][2], 1e-7, f'{w} near field')
            S.close(f'{bn}-field', f[1:], r0['field'][1:], 1e-8, f'{w} TE/TM near field depends on psi')
    # amplitude and efficiency belong together: |amplitude|^2 has the same weight for every incidence
    for ka, kd in zip(AMP, DE):
        for k in range(r0['res'][ka].size):
            w = [(abs(x['res'][ka].flat[k]) ** 2, x['res'][kd].flat[k]) for x in a.values()]
            w += [(abs(r0[i][ka].flat[k]) ** 2, r0[i][kd].flat[k]) for i in ('te', 'tm')]
            p, q = max(w)
            for u, v in w:
                S.close(f'{bn}-weight', v * p, u * q, 1e-8 * max(1.0, p), f'{desc(cfg)} {kd} against |{ka}|^2')


def run_scalar(case, S):
    """Line gratings without azimuth: every psi against the two scalar solves; TE is s, TM is p."""
    be, cfg = case['be'], case['cfg']
    bn = io.BACKENDS[be]
    te = S.call(f'{bn} TE', io.solve, be, dict(cfg, pol=0))['res']
    tm = S.call(f'{bn} TM', io.solve, be, dict(cfg, pol=1))['res']
    for k in ('de_ri_p', 'de_ti_p'):
        S.close(f'{bn}-te', te[k], 0 * te[k], 1e-12, f'{desc(cfg)} pol=0 {k}')
    for k in ('de_ri_s', 'de_ti_s'):
        S.close(f'{bn}-te', tm[k], 0 * tm[k], 1e-12, f'{desc(cfg)} pol=1 {k}')
    for psi in case['psis']:
        for ph in (None, 0.0):
            c = dict(copy.deepcopy(cfg), psi=psi, phi=ph)
            S.state([be, c])
            S.traces += 1
            r = S.call(f'{bn} psi={psi} phi={ph}', io.solve, be, c)
            for k in ('de_ri', 'de_ti'):
                S.close(f'{bn}-scalar', r['res'][k], np.sin(psi) ** 2 * te[k] + np.cos(psi) ** 2 * tm[k], 1e-7, f'{desc(c)} psi={psi:.4f} {k}')
                S.close(f'{bn}-scalar', r['res'][k + '_s'], np.sin(psi) ** 2 * te[k], 1e-7, f'{desc(c)} psi={psi:.4f} {k}_s')
                S.close(f'{bn}-scalar', r['res'][k + '_p'], np.cos(psi) ** 2 * tm[k], 1e-7, f'{desc(c)} psi={psi:.4f} {k}_p')


# ---------------------------------------------------------------- settings
def model(st, op):
    """The specification of the setters: st is psi (None psi leaves it)."""
    k, v = op
    if k == 'psi':
        return st if v is None else float(v)
    if k == 'pol':
        return PI / 2 * (1 - v) if 0 <= v <= 1 else st
    return st


def apply(be, mee, op, S):
    bn = io.BACKENDS[be]
    k, v = op
    S.transitions += 1
    if k in ('kpsi', 'kpol'):
        with np.errstate(all='ignore'):
            S.call(f'{bn} conv_solve({k[1:]}={v})', mee.conv_solve, **{k[1:]: v})
        return
    if k == 'solve':
        S.call(f'{bn} conv_solve', solved, be, mee)
        return
    try:
        setattr(mee, k, v)
        raised = False
    except ValueError:
        raised = True
    except Exception as e:
        S.fail(f'{bn}-setter', f'{bn}-setter: {k}={v} raised {type(e).__name__}')
        return
    bad = k == 'pol' and not 0 <= v <= 1
    S.true(f'{bn}-setter', raised == bad, f'{k}={v} ' + ('accepted' if bad else 'rejected'))


def model_k(st, op):
    if op[0] in ('kpsi', 'kpol'):
        return model(st, (op[0][1:], op[1]))
    return model(st, op)


def read(x):
    return complex(np.asarray(io.to_np(x)).reshape(-1)[0])


def run_seq(case, S):
    be, cfg = case['be'], case['cfg']
    bn = io.BACKENDS[be]
    base = solve_cache(be, cfg, S)
    for tail in case['tails']:
        seq = [tuple(o) for o in case['head']] + [tuple(o) for o in tail]
        S.traces += 1
        S.state([be, cfg, seq])
        try:
            mee = io.build(be, dict(cfg, **case['ctor']))
            st = model(PI / 2 * (1 - case['ctor'].get('pol', 0)), ('psi', case['ctor'].get('psi')))
            for op in seq:
                apply(be, mee, op, S)
                st = model_k(st, op)
                w = f"ctor {case['ctor']} then {seq[:seq.index(op) + 1]}"
                S.true(f'{bn}-readback', abs(read(mee.psi) - st) < 1e-12, f'{w}: psi reads {read(mee.psi)} instead of {st}')
                S.true(f'{bn}-readback', abs(read(mee.pol) - (1 - 2 * st / PI)) < 1e-12, f'{w}: pol reads {read(mee.pol)} instead of {1 - 2 * st / PI}')
            r = S.call(f'{bn} solve after {seq}', solved, be, mee)
            for k in ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
                te, tm, x = base[k]
                s, c = np.sin(st), np.cos(st)
                S.close(f'{bn}-history', r['res'][k], s * s * te + c * c * tm + 2 * s * c * x, 1e-7, f"ctor {case['ctor']} then {seq}: {k}")
        finally:
            pass


_cache = {}


def solve_cache(be, cfg, S):
    """Quadratic form of every efficiency, from a fresh object through psi only."""
    key = repr((be, cfg))
    if key not in _cache:
        _cache.clear()
        r = S.call('fresh psi=pi/4', io.solve, be, dict(cfg, psi=PI / 4))
        _cache[key] = {k: (r['te'][k], r['tm'][k], r['res'][k] - (r['te'][k] + r['tm'][k]) / 2) for k in DE}
    return _cache[key]


KIND = dict(linear=run_linear, scalar=run_scalar, seq=run_seq)


def run(case, S):
    KIND[case['kind']](case, S)
    if case['be'] == 1:
        io.mods()['jax'].clear_caches()


OPS = [('pol', 0), ('pol', 1), ('pol', 0.25), ('pol', 1.0), ('pol', -0.01), ('pol', 1.01), ('psi', 0.6), ('psi', -0.6), ('psi', PI / 2), ('psi', 0), ('psi', PI / 4), ('psi', None),
       ('solve', None), ('kpsi', 1.1), ('kpol', 0), ('kpol', 0.5), ('psi', 8.1), ('psi', -7.5), ('psi', 3.5), ('kpsi', -4.0)]
CTORS = [dict(), dict(pol=1), dict(pol=0.3), dict(psi=0.9), dict(pol=1, psi=0.9), dict(pol=0, psi=None), dict(pol=0.3, psi=PI / 2), dict(psi=10.0), dict(psi=-4.3)]


def groups(tier):
    th = tier == 'thorough'
    out = []
    for be in (0, 1, 2):
        j = be == 1
        media = ['air-glass', 'glass-lossy', 'glass-air'] + (['air-metal', 'air-high', 'oil-oil'] if th else [])
        angs = [(0.0, 0.4), (0.35, 0.4), (0.8, 2.2), (-0.5, -1.0), (0.3, 0.0)] + ([(1.3, 5.9), (-1.1, 3.7), (0.2, PI / 2), (0.0, 0.0)] if th else [])
        fam = [(L.STACKS_1D[s], [2, 0], ft) for s in ['bin', 'lossy', 'two'] for ft in ['dfs', 'cfs']]
        fam += [(L.STACKS_2D[s], [1, 1], ft) for s in ['bin', 'lossy'] for ft in ['dfs', 'cfs']]
        fam += [(L.STACKS_V[s], [1, 1], 'cfs') for s in ['rect', 'mix']]
        if j:
            fam = fam[:2] + fam[6:8] + fam[10:11] if not th else fam[:4] + fam[6:]
        if be == 2:
            fam += [(L.ANISO[s], [1, 1], 'dfs') for s in ('uni', 'lossy')]
        for st, fto, ft in fam:
            cs = [dict(kind='linear', be=be, psis=PSIS if not j else PSIS[:6] + PSIS[11:], field=True, cfg=L.config(st, m, 'A', fto, t, p, ft))
                  for m, (t, p) in itertools.product(media if not j or th else media[1:2], angs if not j or th else angs[1:3])]
            out += L.chunk(cs, 1 if j else 2, 10.0 if j else 0.6)
        if not j:
            cs = [dict(kind='scalar', be=be, psis=PSIS, cfg=L.config(L.STACKS_1D[s], m, 'A', [3, 0], t, None, ft))
                  for s in ['bin', 'lossy', 'two'] for ft in ['dfs', 'cfs'] for m in media for t in (0.0, 0.35, -0.8)]
            out += L.chunk(cs, 3, 0.4)
        else:
            out.append((12.0, [dict(kind='scalar', be=be, psis=[0.0, PI / 2, 0.6, PI, -PI / 2], cfg=L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [2, 0], 0.35, None, 'cfs'))]))
        # polarisations next to the special ones; every other input next to its special values
        for st, fto, ft, ph in [(L.STACKS_1D['two'], [1, 0], 'dfs', 0.4), (L.STACKS_1D['lossy'], [1, 0], 'cfs', 0.0), (L.STACKS_2D['two'], [1, 1], 'cfs', 2.2), (L.STACKS_V['rect'], [1, 0], 'cfs', -1.0)][:4 if not j or th else 1]:
            q = NEARPSI if not j or th else NEARPSI[::3]
            n = 12 if j else len(q)
            out += L.chunk([dict(kind='linear', be=be, psis=q[i:i + n], field=True, cfg=L.config(st, 'glass-lossy', 'A', fto, 0.35, ph, ft)) for i in range(0, len(q), n)], 1, 12.0 if j else 1.0)
        if not j:
            out += L.chunk([dict(kind='scalar', be=be, psis=NEARPSI[:24], cfg=L.config(L.STACKS_1D['two'], m, 'A', [1, 0], 0.35, None, ft)) for m in media[:2] for ft in ('dfs', 'cfs')], 1, 1.0)
            for form in ('con', '2d', 'vec'):
                out += L.chunk([dict(kind='linear', be=be, psis=[0.6, -2.5, 1e-3], field=True, cfg=c) for name, c in L.near(form, (2, 3, 5, 7, 9) if th else (3, 6), 'cfs', grazing=False)], 12, 0.3)
        # sequences
        depth = 1 if j else 3 if th else 2
        cfg2 = L.config(L.STACKS_1D['bin'], 'glass-lossy', 'A', [1, 0], 0.35, 0.4, 'dfs')
        cfg1 = L.config(L.STACKS_1D['bin'], 'glass-lossy', 'A', [1, 0], 0.35, None, 'dfs')
        for cfg in (cfg2, cfg1) if not j else (cfg2,):
            for ctor in CTORS if not j else CTORS[3:5] + CTORS[7:]:
                ops = OPS if not j else OPS[:3] + OPS[6:7] + OPS[11:14] + OPS[16:18]
                heads = [[]] if depth == 1 else [list(h) for h in itertools.product(ops, repeat=depth - 1)]
                tails = [[o] for o in ops] + ([[]] if depth == 1 else [])
                cs = [dict(kind='seq', be=be, cfg=cfg, ctor=ctor, head=h, tails=tails) for h in heads]
                out += L.chunk(cs, 1 if j else 16, 10.0 if j else 0.2)
    return out
