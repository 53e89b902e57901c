"""C07: near fields are the Maxwell fields that belong to the far-field result."""
import numpy as np

from mc import conv
from mc import lattice as L
from mc import meentio as io
from mc import oracle
from mc import ref

ID = 'C07'
BOUNDS = ('stacks (1D, conical, 2D, vector; lossless, lossy, zero and thick layers) x media x angles x azimuths x polarisations x truncation x Fourier series x '
          'sampling resolutions (1..6 per axis) x all 8 selections of incidences x backend')
ASSUMPTIONS = ['sampling points: x ascending and y descending over the period inclusive, z from top to bottom of each layer inclusive',
               'tolerance 1e-7 of the largest field component (2e-3 in single precision)']


def to_backend(be, cfg, F, one):
    """Reference field (.., 6) in the convention of the numpy/jax or torch backend."""
    nt = io.cnum(cfg['n_top'])
    g = 1.0 if np.cos(io.phi_of(cfg)) >= 0 else -1.0
    if one:
        te = abs(np.cos(io.psi_of(cfg))) < 0.5
        f = F[..., (1, 3, 5)] * np.array([1, -1, 1]) if te else F[..., (4, 0, 2)] * np.array([1, -1, 1]) / nt
    else:
        f = F * (g * np.array([1, 1, -1, -1, -1, 1]))
    return f if be != 2 else conv.field_numpy_to_torch(cfg, f, one)


def flux(be, cfg, f, one):
    """Downward power through each sampled plane relative to the incident power, from the returned field."""
    f = conv.field6(cfg, f)
    f = f[..., :-1, :] if f.shape[-2] > 1 else f
    if f.shape[-3] > 1:
        f = f[..., 1:, :, :]                # y runs downwards: the first row repeats the last
    s = (f[..., 0] * np.conj(f[..., 4]) - f[..., 1] * np.conj(f[..., 3])).real
    s = s.mean(axis=(-1, -2))
    nt, ct = io.cnum(cfg['n_top']), np.cos(cfg['theta'])
    te = abs(np.cos(io.psi_of(cfg))) < 0.5
    inc = (ct / nt if one and not te else nt * ct)
    return -s / np.real(inc)


def sig(case_field):
    return {k: (tuple(v) if isinstance(v, list) else v) for k, v in case_field.items()}


def run_field(case, S):
    cfg0 = case['cfg']
    prec = cfg0.get('prec', 0)
    tol = {0: 1e-7, 1: 2e-3}[prec]
    R = oracle.Reference(cfg0, psis=[io.psi_of(p) for p in case['pols']])
    cache = {}
    for ip, p in enumerate(case['pols']):
        cfg = dict(cfg0, **p)
        for be in case['bes']:
            nm = io.BACKENDS[be]
            one = io.is_1d(be, cfg)
            mee = S.call(f'{nm} build', io.build, be, cfg)
            with np.errstate(all='ignore'):
                res = io.unpack(S.call(f'{nm} conv_solve', mee.conv_solve))
            for fa in case['fields']:
                if one and 'set_field_input' in fa and fa['set_field_input'] != [True, False, False]:
                    continue
                S.state([be, cfg, fa])
                with np.errstate(all='ignore'):
                    got = io.to_np(S.call(f'{nm} calculate_field({fa})', mee.calculate_field, **sig(fa)))
                S.traces += 1
                rx, ry, rz = fa.get('res_x', 20), fa.get('res_y', 20), fa.get('res_z', 20)
                which = [0] if one else [i for i, v in enumerate(fa.get('set_field_input', [True, False, False])) if v]
                want = []
                for w in which:
                    k = (ip if w == 0 else ('te', 'tm')[w - 1], rx, 1 if one else ry, rz)
                    if k not in cache:
                        cache[k] = ref.field(R.sol, R.index(('res', 'te', 'tm')[w], ip), rx, 1 if one else ry, rz)
                    want.append(to_backend(be, cfg, cache[k], one))
                shape = ((len(which),) if not one else ()) + (len(cfg['thickness']) * rz, 1 if one else ry, rx, 3 if one and be != 2 else 6)
                if not S.true(f'{nm}-shape', got.shape == shape, f'field({fa}) of {"1D" if one else "conical/2D"} has shape {got.shape}, expected {shape}'):
                    continue
                if not which:
                    continue
                want = np.array(want) if not one else want[0]
                sc = max(1.0, float(np.abs(want).max()))
                tag = f'theta={cfg["theta"]:.3g} phi={cfg["phi"]} {p} fto={cfg["fto"]} {fa}'
                S.true(f'{nm}-dtype', got.dtype == (np.complex128, np.complex64)[prec], f'field dtype {got.dtype} for precision {prec}')
                S.close(f'{nm}-field', got, want, tol * sc, f'{tag} field')
                if rz > 1 and got.shape[0 if one else 1] > rz:
                    self_consistent(S, be, cfg, got, one, rz, tol * sc, tag)
            # the flux carried by the field is the efficiency just solved for
            fx, fy = cfg['fto']
            fa = dict(res_x=4 * fx + 2, res_y=4 * fy + 2, res_z=2)
            with np.errstate(all='ignore'):
                f = io.to_np(S.call(f'{nm} calculate_field', mee.calculate_field, **fa, **({} if one else dict(set_field_input=(True, True, True)))))
            if one:
                f = f[None]
            for i, w in enumerate(('res', 'te', 'tm')[:f.shape[0]]):
                s = flux(be, cfg, f[i], one)
                sc = max(1.0, float(np.abs(f[i]).max()) ** 2)
                S.close(f'{nm}-flux-top', s[0], 1 - res[w]['de_ri'].sum(), tol * sc * 10, f'{w} flux into the structure, {cfg["theta"]} {cfg["phi"]} {p}')
                S.close(f'{nm}-flux-bottom', s[-1], res[w]['de_ti'].sum(), tol * sc * 10, f'{w} flux into the substrate, {cfg["theta"]} {cfg["phi"]} {p}')
            if case.get('again'):
                r2 = io.unpack(S.call(f'{nm} conv_solve', mee.conv_solve))
                S.true(f'{nm}-repeat', np.array_equal(r2['de_ri'], res['de_ri']) and np.array_equal(r2['de_ti'], res['de_ti']), 'solving after the field differs')


def self_consistent(S, be, cfg, got, one, rz, tol, tag):
    nm = io.BACKENDS[be]
    f = conv.field6(cfg, got)
    f = f if not one else f[None]
    nl = f.shape[1] // rz
    for i in range(nl - 1):
        a, b = f[:, (i + 1) * rz - 1], f[:, (i + 1) * rz]
        S.close(f'{nm}-continuity', a[..., (0, 1, 3, 4)], b[..., (0, 1, 3, 4)], 2 * tol, f'{tag} tangential field across interface {i}')
    kx, ky = conv.kvec(cfg)
    fx, fy = cfg['fto']
    k0 = 2 * np.pi / cfg['wavelength']
    sgn = 1 if be == 2 else -1
    if f.shape[3] > 1:
        S.close(f'{nm}-bloch-x', f[:, :, :, -1], f[:, :, :, 0] * np.exp(sgn * 1j * k0 * kx[fy, fx] * cfg['period'][0]), 2 * tol, f'{tag} Bloch condition in x')
    if f.shape[2] > 1:
        S.close(f'{nm}-bloch-y', f[:, :, 0], f[:, :, -1] * np.exp(sgn * 1j * k0 * ky[fy, fx] * cfg['period'][1]), 2 * tol, f'{tag} Bloch condition in y')


def run_api(case, S):
    """conv_solve_field and friends return the pair they promise."""
    cfg, be = case['cfg'], case['be']
    nm = io.BACKENDS[be]
    S.state([be, cfg])
    m = S.call(f'{nm} build', io.build, be, cfg)
    with np.errstate(all='ignore'):
        r0 = io.unpack(S.call('conv_solve', m.conv_solve))
        one = io.is_1d(be, cfg)
        args = (3, 2, 2)
        for sel in ([None] if one else [None, (True, False, False), (False, True, True)]):
            extra = () if sel is None else (sel,)
            f0 = io.to_np(S.call('calculate_field', m.calculate_field, *args, *extra))
            m2 = S.call(f'{nm} build', io.build, be, cfg)
            if be != 1:
                r1, f1 = S.call(f'{nm} conv_solve_field', m2.conv_solve_field, *args, *extra)
                r1 = io.unpack(r1)
                for w in ('res', 'te', 'tm'):
                    if r0[w] is not None:
                        for k in io.FIELDS:
                            S.close(f'{nm}-csf-result', r1[w][k], r0[w][k], 1e-12, f'conv_solve_field {w}.{k}')
            else:
                de_ri, de_ti, f1 = S.call(f'{nm} conv_solve_field_no_jit', m2.conv_solve_field_no_jit, *args, *extra)
                S.close(f'{nm}-csf-result', io.to_np(de_ri), r0['de_ri'], 1e-9, 'conv_solve_field_no_jit de_ri')
                S.close(f'{nm}-csf-result', io.to_np(de_ti), r0['de_ti'], 1e-9, 'conv_solve_field_no_jit de_ti')
            S.traces += 1
            S.close(f'{nm}-csf-field', io.to_np(f1), f0, 1e-9, f'conv_solve_field({args}, {sel}) field')
    if be == 1 and cfg['fourier_type'] == 0:
        import jax
        m3 = io.build(1, cfg)
        try:
            de_ri, de_ti, f1 = m3.conv_solve_field(*args)
        except (jax.errors.TracerBoolConversionError, jax.errors.NonConcreteBooleanIndexError) as e:
            return S.fail('jax-conv_solve_field-jit', f'jitted conv_solve_field raises {type(e).__name__}')
        f0 = io.to_np(m.calculate_field(*args))
        S.close('jax-csf-jit', io.to_np(de_ri), r0['de_ri'], 1e-7, 'de_ri')
        S.close('jax-csf-jit', io.to_np(de_ti), r0['de_ti'], 1e-7, 'de_ti')
        S.close('jax-csf-jit', io.to_np(f1), f0, 1e-7, 'field')


def run(case, S):
    (run_api if case['kind'] == 'api' else run_field)(case, S)


def groups(tier):
    T = tier == 'thorough'
    g = []
    P1 = [dict(pol=0), dict(pol=1)]
    PX = [dict(psi=0.7)] + ([dict(pol=1), dict(psi=2.4)] if T else [])
    ALL = [True, True, True]
    F = [dict(res_x=3, res_y=2, res_z=2, set_field_input=ALL)]
    F1 = [dict(res_x=5, res_y=4, res_z=3)]
    sels = [dict(res_x=2, res_y=3, res_z=1, set_field_input=[bool(i & 1), bool(i & 2), bool(i & 4)]) for i in range(8)]
    reso = [dict(res_x=a, res_y=b, res_z=c, set_field_input=[True, False, True]) for a in (1, 2, 5) for b in (1, 2, 4) for c in (1, 2, 3)]

    def add(fams, pols, bes, fields, w=1.0, w0=0.0, **k):
        for f in fams:
            g.append((len(f) * len(pols) * len(fields) * w + w0, [dict(kind='field', cfg=c, pols=pols, bes=bes, fields=fields, **k) for c in f]))
    NT = [0, 2]
    med = list(L.MEDIA) if T else ['air-glass', 'glass-lossy', 'air-metal']
    th = [0.0, 0.37, -0.61]
    s1 = ['bin', 'two', 'lossy', 'film', 'thick']
    add(L.fam(L.STACKS_1D, s1, [[0, 0], [2, 0]] + ([[4, 0]] if T else []), list(L.FT), list(L.MEDIA), ['A'] + (['B'] if T else []), th + [1.2], [None]), P1, NT, F1, again=True)
    add(L.fam(L.STACKS_1D, s1, [[1, 0], [1, 1]] + ([[2, 0], [0, 2]] if T else []), ['dfs', 'cfs'], med, ['A'], th, [0.6, 2.3, -1.1] + ([0.0] if T else []), ), PX, NT, F, 4, again=True)
    add(L.fam(L.STACKS_2D, ['bin', 'two', 'lossy', 'thick'], [[1, 0], [1, 1]] + ([[2, 1], [0, 1]] if T else []), ['dfs', 'cfs'], med, ['A'], th, [None, 2.3, -1.1] + ([0.6] if T else []), ), PX, NT, F, 5)
    add(L.fam(L.STACKS_V, list(L.STACKS_V), [[1, 1], [2, 0]], ['dfs'], med, ['A'], th, [None, 2.3]), PX[:1], NT, F, 6)
    # normal incidence, in-plane phi variants
    add(L.fam(L.STACKS_2D, ['two'], [[1, 1]], ['cfs'], med, ['A', 'C'], [0.0], [None, 0.6, 2.3, L.PI / 2]), PX[:1], NT, F, 6)
    # selections and resolutions
    for st, names, phi in ((L.STACKS_1D, ['two'], 0.6), (L.STACKS_2D, ['two'], 2.3), (L.STACKS_V, ['rect'], None)):
        add(L.fam(st, names, [[1, 0], [1, 1]], ['dfs'], ['glass-lossy'], ['A'], [0.37], [phi]), [dict(psi=0.7), dict(pol=0)], NT, sels + reso + [dict()], 1)
    add(L.fam(L.STACKS_1D, ['two'], [[2, 0]], ['dfs'], ['glass-lossy'], ['A'], [0.37], [None]), P1, NT,
        [dict(res_x=a, res_y=b, res_z=c, set_field_input=[True, False, False]) for a in (1, 2, 5) for b in (1, 3) for c in (1, 2, 3)] + [dict()], 1)
    # large and extreme structures, fine sampling
    FX = [dict(res_x=17, res_y=9, res_z=11, set_field_input=ALL)]
    for nm in ('wide', 'tall', 'opaque', 'extreme'):
        add(L.fam(L.X1, [nm], [[6, 0]], ['dfs', 'cfs'], ['glass-air', 'air-metal'], ['A'], [0.37, -1.3], [None]), P1, NT, [dict(res_x=33, res_z=7)], 4)
        add(L.fam(L.X1, [nm], [[3, 0]], ['dfs'], ['glass-air', 'air-metal'], ['A'], [0.37, -1.3], [4.9, 7.1]), PX[:1], NT, FX, 20)
        add(L.fam(L.X2, [nm], [[2, 1]], ['dfs', 'cfs'] if T else ['dfs'], ['glass-air', 'air-metal'], ['A'], [0.37], [4.9]), PX[:1], NT, FX, 40)
    # single precision
    add(L.fam(L.STACKS_1D, ['bin', 'two'], [[1, 0]], ['dfs', 'cfs'], med, ['A'], [0.0, 0.37], [None], prec=1), P1, NT, F1)
    add(L.fam(L.STACKS_1D, ['bin', 'two'], [[1, 0]], ['dfs'], med, ['A'], [0.0, 0.37], [0.6], prec=1), PX[:1], NT, F)
    add(L.fam(L.STACKS_2D, ['bin', 'two'], [[1, 1]], ['dfs', 'cfs'], med, ['A'], [0.37], [0.6], prec=1, pinv=True), PX[:1], NT, F)
    # every continuous input next to each of its special values
    for form, pp, ff in (('1d', P1, F1), ('con', PX[:1], F), ('2d', PX[:1], F), ('vec', PX[:1], F)):
        for ft in (('dfs', 'cfs') if T else ('dfs',)):
            for w, cs in L.chunk([c for name, c in L.near(form, (2, 3, 5, 7, 9) if T else (3, 6), ft, grazing=False)], 8, 8):
                g.append((w, [dict(kind='field', cfg=c, pols=pp, bes=NT, fields=ff) for c in cs]))
    J = [1]
    add(L.fam(L.STACKS_1D, ['lossy'], [[1, 0]], ['dfs'], ['glass-air', 'glass-lossy'], ['A'], [0.37, -0.61], [None]), P1, J, F1, 60, 400)
    add(L.fam(L.STACKS_1D, ['lossy'], [[1, 0]], ['cfs'], med, ['A'], th, [0.6, 2.3]), PX[:1], J, F, 20, 600)
    add(L.fam(L.STACKS_2D, ['lossy'], [[1, 1]], ['dfs'], med, ['A'], th, [0.6, 2.3]), PX[:1], J, F, 20, 600)
    add(L.fam(L.STACKS_V, ['rect'], [[1, 1]], ['dfs'], med, ['A'], th, [0.6]), PX[:1], J, F, 20, 600)
    add(L.fam(L.STACKS_2D, ['bin'], [[1, 0]], ['dfs'], ['glass-lossy'], ['A'], [0.37], [2.3]), PX[:1], J, [sels[0]] + sels[1:7:2] + sels[6:] + [reso[i] for i in ((0, 5, 13, 20) if not T else range(len(reso)))], 60, 600)
    api = []
    for c in (L.config(L.STACKS_1D['two'], 'glass-lossy', 'A', [1, 0], 0.37, None, 'dfs', pol=1), L.config(L.STACKS_1D['two'], 'glass-lossy', 'A', [1, 0], 0.37, 0.6, 'cfs', psi=0.7),
              L.config(L.STACKS_2D['two'], 'glass-lossy', 'A', [1, 1], 0.37, 0.6, 'dfs', psi=0.7), L.config(L.STACKS_V['mix'], 'air-glass', 'A', [1, 1], 0.37, None, 'cfs', psi=0.7)):
        for be in (0, 1, 2):
            g.append((1500 if be == 1 else 50, [dict(kind='api', cfg=c, be=be)]))
    return g
