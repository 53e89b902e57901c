"""C10: automatic derivatives equal numerical derivatives; the optimisers follow them."""
import copy
import itertools
import os

os.environ['TQDM_DISABLE'] = '1'

import numpy as np

from mc import lattice as L
from mc import meentio as io

ID = 'C10'
BOUNDS = ('every scalar of every parameter (thickness, pixels, angles, periods, wavelength, media, shape parameters) x configuration lattice x '
          '{alone, jointly} x {1D TE, 1D TM, conical, 2D, vector, anisotropic} in PyTorch, one jit or eager gradient per shape in JAX; '
          'every sequence of grad / fit(k) / reassign up to depth 3 for PyTorch, listed histories for JAX')
ASSUMPTIONS = ['numerical derivative: 4th-order central differences of the same solver',
               'the angle of a vector shape is differentiated away from 0, where the model changes its staircase']

SCALARS = ('theta', 'phi', 'psi', 'wavelength', 'n_top', 'n_bot')


# ---------------------------------------------------------------- losses
def weights(n, k):
    return np.cos(1.3 * np.arange(n) + 0.7 * k)


def loss(result, mk):
    """Weighted sum of every efficiency returned; mk turns a numpy array into a backend array."""
    tot, k = 0, 0
    for sub in (result.res, result.res_te_inc, result.res_tm_inc):
        if sub is None:
            continue
        for a in (sub.de_ri, sub.de_ti, sub.de_ri_s, sub.de_ti_p):
            n = int(np.prod(a.shape))
            tot = tot + (mk(weights(n, k).reshape(tuple(a.shape))) * a.real).sum()
            k += 1
    return tot


def tmk(a):
    return io.mods()['torch'].tensor(a)


def jmk(a):
    return io.mods()['jnp'].array(a)


def params(cfg):
    """numpy values of every differentiable parameter of a raster configuration."""
    kw = io.kwargs(0, cfg)
    out = {}
    for k in SCALARS:
        if kw.get(k) is not None:
            out[k] = np.array(kw[k], dtype=complex if isinstance(kw[k], complex) else float)
    out['period'] = np.array(kw['period'], dtype=float)
    out['thickness'] = np.array(kw['thickness'], dtype=float)
    out['ucell'] = io.raster(cfg)
    return out


def step_of(k, v):
    return 1e-4 if k in ('ucell',) else 1e-4 * max(abs(v), 0.1)


def numeric(fn, v, k, order=4):
    """Derivative of fn at v: d/dRe + i d/dIm per entry."""
    out = np.zeros(v.shape, dtype=complex)
    for i in np.ndindex(v.shape):
        for d in ((1, 1j) if np.iscomplexobj(v) else (1,)):
            h = step_of(k, v[i])

            def ev(s):
                y = v.copy()
                y[i] = y[i] + s * h * d
                return float(fn(y))
            if order == 4:
                out[i] += d * (8 * (ev(1) - ev(-1)) - (ev(2) - ev(-2))) / (12 * h)
            else:
                out[i] += d * (ev(1) - ev(-1)) / (2 * h)
    return out


def tol_of(fd, k, v):
    """1e-4 of the largest derivative of this parameter, with a floor for derivatives that vanish."""
    floor = 1e-6 if k not in ('thickness', 'period', 'wavelength') else 1e-9
    return max(1e-4 * float(np.abs(fd).max()), floor)


# ---------------------------------------------------------------- PyTorch
def tkw(cfg):
    kw = io.kwargs(2, cfg)
    return kw


def tsolve(cfg, over, what):
    """Loss of a fresh PyTorch object whose parameters `over` (tensors) replace the configuration's."""
    torch = io.mods()['torch']
    kw = tkw(cfg)
    kw.update(over)
    mee = io.mods()['meent'].call_mee(backend=2, **kw)
    r = mee.conv_solve()
    if what == 'de':
        return loss(r, tmk)
    f = mee.calculate_field(res_x=3, res_y=2, res_z=2, set_field_input=(True, True, True))
    return (tmk(weights(f.numel(), 0).reshape(tuple(f.shape))) * f.abs() ** 2).sum()


def run_torch(case, S):
    torch = io.mods()['torch']
    cfg, what = case['cfg'], case.get('loss', 'de')
    P = params(cfg)
    if what == 'field':
        P.pop('period')      # the sampling points follow the period
    leaf = lambda v: torch.tensor(v, requires_grad=True)
    S.state([cfg, what, 'joint'])
    # jointly
    X = {k: leaf(v) for k, v in P.items()}
    base = S.call('forward', tsolve, cfg, {}, what)
    l = S.call('forward with gradients', tsolve, cfg, X, what)
    S.close('torch-forward', l.item(), base.item(), 1e-8 * max(1, abs(base.item())), 'loss with parameters that require gradients')
    S.call('backward', l.backward)
    for k, v in P.items():
        fd = numeric(lambda y: S.call('forward', tsolve, cfg, {k: torch.tensor(y)}, what).item(), v, k)
        tol = tol_of(fd, k, v) * case.get('slack', 1)
        for how in ('jointly', 'alone'):
            S.state([cfg, what, k, how])
            S.traces += 1
            if how == 'jointly':
                g = X[k].grad
            else:
                x = leaf(v)
                l = S.call('forward', tsolve, cfg, {k: x}, what)
                S.call(f'backward for {k}', l.backward)
                g = x.grad
            if not S.true(f'torch-{k}-missing', g is not None, f'no gradient for {k} ({how})'):
                continue
            g = io.to_np(g)
            if 'degenerate' in case and k == 'ucell':
                # layers whose modes are degenerate are reported under a key of their own
                for i in range(len(g)):
                    key = 'torch-ucell-degenerate' if i in case['degenerate'] else f'torch-{k}'
                    S.close(key, g[i], fd[i], tol, f'd loss / d {k}[{i}] ({how})')
                continue
            S.close(f'torch-{k}', g, fd, tol, f'd loss / d {k} ({how})')


def run_torch_forms(case, S):
    """The gradient reaches a parameter through every documented way of giving it."""
    torch = io.mods()['torch']
    cfg = case['cfg']
    kw = tkw(cfg)
    P = params(cfg)
    meent = io.mods()['meent']

    def ref(k):
        x = torch.tensor(P[k], requires_grad=True)
        tsolve(cfg, {k: x}, 'de').backward()
        return io.to_np(x.grad)

    for k in P:
        want = ref(k)
        forms = ['setter', 'kwargs', 'reset']
        if k in ('thickness', 'period'):
            forms += ['list', 'mixed']
        if k in ('theta', 'phi', 'psi', 'wavelength', 'n_top', 'n_bot'):
            forms += ['tracked']
        for form in forms:
            S.state([cfg, k, form])
            S.traces += 1
            x = torch.tensor(P[k], requires_grad=True)
            if form == 'kwargs':
                mee = meent.call_mee(backend=2, **kw)
                l = S.call('conv_solve(**params)', mee.conv_solve, **{k: x})
            else:
                mee = meent.call_mee(backend=2, **kw)
                if form == 'setter':
                    setattr(mee, k, x)
                elif form == 'reset':
                    mee.conv_solve()
                    setattr(mee, k, torch.tensor(P[k]))
                    mee.conv_solve()
                    setattr(mee, k, x)
                elif form == 'list':
                    xs = [torch.tensor(v, requires_grad=True) for v in P[k]]
                    setattr(mee, k, xs)
                elif form == 'mixed':
                    xs = [torch.tensor(P[k][0], requires_grad=True)] + [float(v) for v in P[k][1:]]
                    setattr(mee, k, xs)
                elif form == 'tracked':
                    x = torch.tensor(P[k] / 2, requires_grad=True)
                    setattr(mee, k, x * 2)
                l = S.call('conv_solve', mee.conv_solve)
            S.call('backward', loss(l, tmk).backward)
            if form == 'list':
                gs = [v.grad for v in xs]
                if S.true(f'torch-{k}-{form}', all(g is not None for g in gs), f'no gradient for {k} given as {form}'):
                    S.close(f'torch-{k}-{form}', np.array([g.item() for g in gs]), want, 1e-8 + 1e-6 * np.abs(want).max(), f'{k} given as {form}')
                continue
            y = xs[0] if form == 'mixed' else x
            w = want[0] if form == 'mixed' else want * (2 if form == 'tracked' else 1)
            if S.true(f'torch-{k}-{form}', y.grad is not None, f'no gradient for {k} given as {form}'):
                S.close(f'torch-{k}-{form}', io.to_np(y.grad), w, 1e-8 + 1e-6 * np.abs(w).max(), f'{k} given as {form}')


def vpaths(v):
    out = []
    for i, (base, shapes) in enumerate(v):
        out.append((i, 0))
        for j, sh in enumerate(shapes):
            for k in range(1, 7):
                if k == 6 and sh[6] == 0:
                    continue
                out.append((i, 1, j, k))
    return out


def vget(v, p):
    for q in p:
        v = v[q]
    return v


def vput(v, p, x):
    v = copy.deepcopy(v)
    o = v
    for q in p[:-1]:
        o = o[q]
    o[p[-1]] = x
    return v


def run_torch_vector(case, S):
    torch = io.mods()['torch']
    cfg = case['cfg']
    v0 = io.vector(cfg)
    for p in vpaths(v0):
        val = vget(v0, p)
        val = np.array(val, dtype=complex if isinstance(val, complex) else float)
        nm = 'base' if len(p) == 2 else ('', 'cx', 'cy', 'lx', 'ly', 'n', 'angle')[p[3]]
        S.state([cfg, p])
        S.traces += 1
        ev = lambda y: S.call('forward', tsolve, cfg, {'ucell': vput(v0, p, torch.tensor(y))}, 'de').item()
        fd = numeric(ev, val, 'angle' if nm == 'angle' else 'v')
        tol = max(1e-4 * abs(fd), 1e-6 if nm in ('n', 'base', 'angle') else 1e-8)
        x = torch.tensor(val, requires_grad=True)
        l = S.call('forward', tsolve, cfg, {'ucell': vput(v0, p, x)}, 'de')
        if not S.true(f'torch-shape-{nm}-missing', l.requires_grad, f'{nm} of shape {p} is cut from the result'):
            continue
        S.call(f'backward for {nm}', l.backward)
        if S.true(f'torch-shape-{nm}-missing', x.grad is not None, f'no gradient for {nm} {p}'):
            S.close(f'torch-shape-{nm}', io.to_np(x.grad), fd, tol, f'{nm} {p}')
    # all lengths at once
    leaves, v = [], v0
    for p in vpaths(v0):
        if len(p) == 4 and p[3] in (1, 2, 3, 4):
            leaves.append((p, torch.tensor(float(vget(v0, p)), dtype=torch.float64, requires_grad=True)))
            v = vput(v, p, 0)
    for p, x in leaves:
        o = v
        for q in p[:-1]:
            o = o[q]
        o[p[-1]] = x
    if leaves:
        l = S.call('forward', tsolve, cfg, {'ucell': v}, 'de')
        S.call('backward', l.backward)
        for p, x in leaves:
            y = torch.tensor(float(vget(v0, p)), dtype=torch.float64, requires_grad=True)
            tsolve(cfg, {'ucell': vput(v0, p, y)}, 'de').backward()
            if S.true('torch-shape-joint', x.grad is not None and y.grad is not None, f'no gradient at {p}'):
                S.close('torch-shape-joint', x.grad.item(), y.grad.item(), 1e-8 + 1e-6 * abs(y.grad.item()), f'{p} jointly')


# ---------------------------------------------------------------- optimisers: exploration of histories
OPTS = {'sgd': dict(lr=0.02), 'momentum': dict(lr=0.02, momentum=0.9), 'adam': dict(lr=0.01)}


def shadow_fit(grad, P, opt, n):
    """The documented update rule in numpy. grad(P) -> {k: d/dRe + i d/dIm}."""
    P = {k: v.copy() for k, v in P.items()}
    o = OPTS[opt]
    st = {k: (np.zeros_like(v), np.zeros(v.shape)) for k, v in P.items()}
    for t in range(1, n + 1):
        g = grad(P)
        for k in P:
            m, s = st[k]
            if opt == 'sgd':
                P[k] = P[k] - o['lr'] * g[k]
            elif opt == 'momentum':
                m = o['momentum'] * m + g[k]
                P[k] = P[k] - o['lr'] * m
            else:
                b1, b2 = 0.9, 0.999
                m = b1 * m + (1 - b1) * g[k]
                if np.iscomplexobj(P[k]) and opt == 'adam' and OPTS.get('split', True):
                    # complex entries are treated as two real ones
                    s = (b2 * s + (1 - b2) * (g[k].real ** 2 + 1j * g[k].imag ** 2))
                    mh, sh = m / (1 - b1 ** t), s / (1 - b2 ** t)
                    P[k] = P[k] - o['lr'] * (mh.real / (np.sqrt(sh.real) + 1e-8) + 1j * mh.imag / (np.sqrt(sh.imag) + 1e-8))
                else:
                    s = b2 * s + (1 - b2) * np.abs(g[k]) ** 2
                    P[k] = P[k] - o['lr'] * (m / (1 - b1 ** t)) / (np.sqrt(s / (1 - b2 ** t)) + 1e-8)
            st[k] = (m, s)
    return P


def run_torch_hist(case, S):
    torch = io.mods()['torch']
    cfg, pois = case['cfg'], case['pois']
    first = params(cfg)
    P0 = {k: first[k] for k in pois}
    tl = lambda r: loss(r, tmk)

    def grad(P):
        X = {k: torch.tensor(v, requires_grad=True) for k, v in P.items()}
        tsolve(cfg, X, 'de').backward()
        return {k: io.to_np(x.grad) for k, x in X.items()}

    memo = {}

    def mgrad(P):
        key = tuple(v.tobytes() for v in P.values())
        if key not in memo:
            memo[key] = grad(P)
        return memo[key]

    for hist in case['hists']:
        mee = io.build(2, cfg)
        P = {k: v.copy() for k, v in P0.items()}
        kept = []
        for n, op in enumerate(hist):
            S.state([cfg, pois, hist[:n + 1]])
            if op[0] == 'grad':
                out = S.call('grad', mee.grad, pois, mee.conv_solve, tl)
                want = mgrad(P)
                for k in pois:
                    g = io.to_np(out[k]) if out[k] is not None else np.array(np.nan)
                    S.close('torch-grad', g, want[k], 1e-7 + 1e-5 * np.abs(want[k]).max(), f'{hist[:n + 1]}: {k}')
                kept.append((n, out, {k: io.to_np(out[k]).copy() for k in pois if out[k] is not None}))
            elif op[0] == 'fit':
                _, opt, it = op
                cls = torch.optim.Adam if opt == 'adam' else torch.optim.SGD
                args = dict(iteration=it) if it != 1 else {}
                out = S.call('fit', mee.fit, pois, mee.conv_solve, tl, cls, dict(OPTS[opt]), **args)
                P = shadow_fit(mgrad, P, opt, it)
                S.true('torch-fit-returns', len(out) == len(pois), f'{len(out)} parameters returned')
                for k, v in zip(pois, out):
                    S.close('torch-fit', io.to_np(v), P[k], 1e-6, f'{hist[:n + 1]}: returned {k}')
            elif op[0] == 'set':
                P = {k: v * (1 + 0.01 * (i + 1)) for i, (k, v) in enumerate(P0.items())}
                for k, v in P.items():
                    setattr(mee, k, torch.tensor(v))
            elif op[0] == 'solve':
                r = io.unpack(S.call('conv_solve', mee.conv_solve))
                w = io.unpack(fresh(cfg, 2, P).conv_solve())
                S.close('torch-after', r['de_ri'], w['de_ri'], 1e-6, f'{hist[:n + 1]}: solve')
                S.close('torch-after', r['de_ti'], w['de_ti'], 1e-6, f'{hist[:n + 1]}: solve')
            S.traces += 1
            for j, out, was in kept:        # gradients handed out earlier stay what they were
                for k, v in was.items():
                    S.close('torch-grad-kept', io.to_np(out[k]), v, 0, f'{k} from operation {j} after {hist[:n + 1]}')
            for k in pois:
                S.close('torch-attr', io.to_np(getattr(mee, k)), P[k], 1e-6, f'{hist[:n + 1]}: attribute {k}')


# every optimiser class x set of parameters x number of steps, against the bare optimiser on independent tensors
TOPT = {'sgd-wd': ('SGD', dict(lr=0.02, weight_decay=0.1)), 'nesterov': ('SGD', dict(lr=0.02, momentum=0.8, nesterov=True)), 'damp': ('SGD', dict(lr=0.02, momentum=0.8, dampening=0.3)),
        'adam': ('Adam', dict(lr=0.01)), 'adam-b': ('Adam', dict(lr=0.01, betas=(0.5, 0.9), eps=1e-3)), 'amsgrad': ('Adam', dict(lr=0.02, amsgrad=True)),
        'adamw': ('AdamW', dict(lr=0.01, weight_decay=0.2)), 'rms': ('RMSprop', dict(lr=0.005, alpha=0.8)), 'adagrad': ('Adagrad', dict(lr=0.02)),
        'adadelta': ('Adadelta', dict()), 'defaults': ('Adam', dict()), 'max': ('SGD', dict(lr=0.01, maximize=True))}
ANGLES = ('theta', 'phi', 'psi')


def run_torch_opt(case, S):
    torch = io.mods()['torch']
    cfg, pois = case['cfg'], case['pois']
    val = params(cfg)
    tl = lambda r: loss(r, tmk)
    cls, opts = TOPT[case['opt']]
    dt = {k: torch.complex128 for k in ANGLES}
    X = {k: torch.tensor(val[k], dtype=dt.get(k), requires_grad=True) for k in pois}
    opt = getattr(torch.optim, cls)(list(X.values()), **opts)
    want = [{k: io.to_np(x).copy() for k, x in X.items()}]
    for _ in range(case['n']):
        opt.zero_grad()
        tsolve(cfg, {k: x for k, x in X.items()}, 'de').backward()
        opt.step()
        want.append({k: io.to_np(x).copy() for k, x in X.items()})
    for n in sorted({1, 2, case['n'] // 2, case['n']}):
        S.state([cfg, pois, case['opt'], n])
        S.traces += 1
        mee = io.build(2, cfg)
        other = io.build(2, cfg)
        for k in pois:
            if k in SCALARS:
                setattr(mee, k, torch.tensor(val[k]))
        before = dict(opts)
        out = S.call(f'fit {case["opt"]} {pois}', mee.fit, pois, mee.conv_solve, tl, getattr(torch.optim, cls), opts, **(dict(iteration=n) if n > 1 else {}))
        S.true('torch-opt-options', opts == before, 'the options passed in were changed')
        S.true('torch-opt-returns', len(out) == len(pois), f'{len(out)} parameters returned for {pois}')
        for k, v in zip(pois, out):
            w = want[n][k]
            S.close('torch-opt', io.to_np(v), w, 1e-8 * max(1, float(np.abs(w).max())), f'{case["opt"]} x {n}: returned {k}')
            S.close('torch-opt', io.to_np(getattr(mee, k)), w, 1e-8 * max(1, float(np.abs(w).max())), f'{case["opt"]} x {n}: attribute {k}')
            if k in ANGLES:
                S.close('torch-fit-angle-imag', io.to_np(v).imag, 0, 1e-9, f'{case["opt"]} x {n}: imaginary part of {k}')
            S.close('torch-opt-other', io.to_np(torch.as_tensor(getattr(other, k))), val[k], 1e-6 * max(1, float(np.abs(val[k]).max())), f'{k} of another object')
        r, w = io.unpack(S.call('conv_solve', mee.conv_solve)), io.unpack(fresh(cfg, 2, want[n]).conv_solve())
        for a in ('de_ri', 'de_ti'):
            S.close('torch-opt-after', r[a], w[a], 1e-7, f'{case["opt"]} x {n}: {a} afterwards')


def run_torch_poi(case, S):
    """grad() on every set of parameters: the same numbers as autograd on independent tensors (which run_torch compares with differences)."""
    torch = io.mods()['torch']
    cfg = case['cfg']
    val = params(cfg)
    tl = lambda r: loss(r, tmk)
    one = io.build(2, cfg)
    for k in SCALARS:
        if k in val:
            setattr(one, k, torch.tensor(val[k]))
    names = list(val)
    X = {k: torch.tensor(v, requires_grad=True) for k, v in val.items()}
    tsolve(cfg, X, 'de').backward()
    want = {k: io.to_np(x.grad) for k, x in X.items()}
    sets = [[k] for k in names] + [list(p) for p in itertools.permutations(names, 2)] + [names, names[::-1]]
    for pois in sets:
        S.state([cfg, 'poi', pois])
        S.traces += 1
        out = S.call(f'grad {pois}', one.grad, pois, one.conv_solve, tl)
        S.true('torch-poi-keys', list(out) == pois, f'{list(out)} for {pois}')
        for k in pois:
            if not S.true('torch-poi', out.get(k) is not None, f'no gradient for {k} of {pois}'):
                continue
            g = io.to_np(out[k])
            g = g.real if k in ANGLES else g
            S.close('torch-poi', g, want[k], 1e-9 + 1e-6 * float(np.abs(want[k]).max()), f'{k} of {pois}')


def fresh(cfg, be, P):
    kw = io.kwargs(be, cfg)
    for k, v in P.items():
        kw[k] = io.arr(be, v)
    return io.mods()['meent'].call_mee(backend=be, **kw)


# ---------------------------------------------------------------- JAX
def jsolve(mee, P):
    return loss(mee.conv_solve(**P), jmk)


def run_jax(case, S):
    """Discrete series: the jitted value and gradient of one shape, at every point of the lattice."""
    m = io.mods()
    jax, jnp = m['jax'], m['jnp']
    gf = vf = None
    for cfg in case['cfgs']:
        if gf is None:
            mee = io.build(1, cfg)
            f = lambda Q: jsolve(mee, Q)
            vf, gf = jax.jit(f), jax.jit(jax.value_and_grad(f))
        P = params(cfg)
        P.pop('psi', None)          # decides the formulation, so it cannot be traced by jit
        c = {k: complex for k in ('n_bot', 'ucell')}
        P = {k: v.astype(c.get(k, v.dtype)) for k, v in P.items()}
        J = {k: jnp.array(v) for k, v in P.items()}
        l, g = S.call('value_and_grad', gf, J)
        S.close('jax-forward', float(l), float(S.call('forward', vf, J)), 1e-9, 'loss with and without gradients')
        for k, v in P.items():
            S.state([cfg, k])
            S.traces += 1
            fd = numeric(lambda y: S.call('forward', vf, {**J, k: jnp.array(y)}), v, k)
            key = 'jax-theta-normal' if k == 'theta' and cfg['theta'] == 0 else f'jax-{k}'
            S.close(key, np.conj(np.asarray(g[k])), fd, tol_of(fd, k, v), f'd loss / d {k}')
    jax.clear_caches()


def run_jax_eager(case, S):
    """Continuous series, vector shapes and psi: gradients of the uncompiled solver."""
    m = io.mods()
    jax, jnp = m['jax'], m['jnp']
    cfg, keys = case['cfg'], case['keys']
    mee = io.build(1, cfg)
    if 'v' in cfg['ucell']:
        v0 = io.vector(cfg)
        paths = [tuple(p) for p in keys]
        # lengths and angles of shape (1,), as in the documented example
        vals = [np.array(vget(v0, p), dtype=complex if isinstance(vget(v0, p), complex) else float).reshape((1,) if len(p) == 4 and p[3] in (3, 4, 6) else ()) for p in paths]

        def f(xs):
            v = v0
            for p in paths:
                v = vput(v, p, 0)
            for p, x in zip(paths, xs):
                o = v
                for q in p[:-1]:
                    o = o[q]
                o[p[-1]] = x
            mee.ucell = v
            return loss(mee.conv_solve(), jmk)
        g = S.call('grad', jax.grad(f), [jnp.array(v) for v in vals])
        for n, (p, v) in enumerate(zip(paths, vals)):
            S.state([cfg, p])
            S.traces += 1
            fd = numeric(lambda y: S.call('forward', f, [jnp.array(y if i == n else u) for i, u in enumerate(vals)]), v, 'v', order=2)
            nm = 'base' if len(p) == 2 else ('', 'cx', 'cy', 'lx', 'ly', 'n', 'angle')[p[3]]
            S.close(f'jax-shape-{nm}', np.conj(np.asarray(g[n])).reshape(fd.shape), fd, max(1e-4 * float(np.abs(fd).max()), 1e-6 if nm in ('n', 'base', 'angle') else 1e-8), f'{p}')
    else:
        P = {k: v for k, v in params(cfg).items() if k in keys}
        J = {k: jnp.array(v) for k, v in P.items()}
        g = S.call('grad', jax.grad(lambda Q: jsolve(mee, Q)), J)
        for k, v in P.items():
            S.state([cfg, k])
            S.traces += 1
            fd = numeric(lambda y: S.call('forward', jsolve, mee, {**J, k: jnp.array(y)}), v, k, order=2)
            S.close(f'jax-{k}', np.conj(np.asarray(g[k])), fd, tol_of(fd, k, v), f'd loss / d {k}')
    jax.clear_caches()


def run_jax_hist(case, S):
    m = io.mods()
    jax, jnp = m['jax'], m['jnp']
    import optax
    cfg, pois = case['cfg'], case['pois']
    P0 = {k: params(cfg)[k] for k in pois}
    jl = lambda r: loss(r, jmk)
    ref = io.build(1, cfg)
    gf = jax.jit(jax.grad(lambda Q: jsolve(ref, Q)))

    def grad(P):
        return {k: np.conj(np.asarray(v)) for k, v in gf({k: jnp.array(v) for k, v in P.items()}).items()}

    for hist in case['hists']:
        mee = io.build(1, cfg)
        P = {k: v.copy() for k, v in P0.items()}
        kept = []
        for n, op in enumerate(hist):
            S.state([cfg, pois, hist[:n + 1]])
            S.traces += 1
            if op[0] == 'grad':
                out = S.call('grad', mee.grad, pois, mee.conv_solve, jl)
                want = grad(P)
                for k in pois:
                    S.close('jax-grad', np.conj(np.asarray(out[k])), want[k], 1e-7 + 1e-5 * np.abs(want[k]).max(), f'{hist[:n + 1]}: {k}')
                kept.append((n, out, {k: np.array(out[k]) for k in pois}))
            elif op[0] == 'fit':
                _, opt, it = op
                o = {'sgd': lambda: optax.sgd(0.02), 'momentum': lambda: optax.sgd(0.02, momentum=0.9), 'adam': lambda: optax.adam(0.01)}[opt]()
                args = dict(iteration=it) if it != 1 else {}
                out = S.call('fit', mee.fit, pois, mee.conv_solve, jl, o, **args)
                P = shadow_fit(grad, P, opt, it)
                for k in pois:
                    S.close('jax-fit', np.asarray(out[k]), P[k], 1e-6, f'{hist[:n + 1]}: returned {k}')
            elif op[0] == 'solve':
                r = io.unpack(S.call('conv_solve', mee.conv_solve))
                w = io.unpack(fresh(cfg, 1, P).conv_solve())
                S.close('jax-after', r['de_ri'], w['de_ri'], 1e-6, f'{hist[:n + 1]}: solve')
                S.close('jax-after', r['de_ti'], w['de_ti'], 1e-6, f'{hist[:n + 1]}: solve')
            for j, out, was in kept:
                for k, v in was.items():
                    S.close('jax-grad-kept', np.asarray(out[k]), v, 0, f'{k} from operation {j} after {hist[:n + 1]}')
            for k in pois:
                S.close('jax-attr', np.asarray(getattr(mee, k)), P[k], 1e-6, f'{hist[:n + 1]}: attribute {k}')
    jax.clear_caches()


def run_jax_angle(case, S):
    m = io.mods()
    jax, jnp = m['jax'], m['jnp']
    import optax
    cfg, k = case['cfg'], case['poi']
    v = params(cfg)[k]
    ref = io.build(1, cfg)
    g = float(jax.grad(lambda x: jsolve(ref, {k: x}))(jnp.array(v)).real)
    S.state([cfg, k, 'angle'])
    S.traces += 1
    mee = io.build(1, cfg)
    out = S.call('fit', mee.fit, [k], mee.conv_solve, lambda r: loss(r, jmk), optax.sgd(0.02))
    S.close('jax-fit-angle', np.asarray(out[k]).real, v - 0.02 * g, 1e-9, f'{k} after one step')
    S.close('jax-fit-angle', np.asarray(getattr(mee, k)), np.asarray(out[k]), 1e-12, f'attribute {k} after one step')
    S.close('jax-fit-angle-imag', np.asarray(out[k]).imag, 0, 1e-9, f'imaginary part of {k} after one step')
    jax.clear_caches()


KIND = dict(jangle=run_jax_angle, opt=run_torch_opt, poi=run_torch_poi, torch=run_torch, forms=run_torch_forms, vector=run_torch_vector, hist=run_torch_hist,
            jax=run_jax, jaxe=run_jax_eager, jhist=run_jax_hist)


def run(case, S):
    KIND[case['kind']](case, S)


# ---------------------------------------------------------------- the lattice
UNIFORM = {'lossy': [1]}


def groups(tier):
    th = tier == 'thorough'
    out = []
    media = ['air-glass', 'glass-lossy'] + (['glass-air', 'air-metal'] if th else [])
    geos = ['A', 'B'] + (['C'] if th else [])
    cs = []
    # 1D TE / TM
    for d in L.product(s=['bin', 'two', 'lossy', 'film'] + (['thick', 'many'] if th else []), ft=['dfs', 'cfs'] + (['plain'] if th else []), m=media, g=geos,
                       th=[0.4, 0.0] + ([-0.5, 1.2] if th else []), p=[0, 1], f=[[2, 0]] + ([[4, 0], [0, 0]] if th else [])):
        if not th and d['g'] == 'B' and (d['m'] != 'air-glass' or d['th'] == 0.0):
            continue
        c = dict(kind='torch', cfg=L.config(L.STACKS_1D[d['s']], d['m'], d['g'], d['f'], d['th'], None, d['ft'], pol=d['p']))
        if d['th'] == 0.0 and d['s'] in UNIFORM:
            c['degenerate'] = UNIFORM[d['s']]
        cs.append(c)
    out += L.chunk(cs, 4, 1.0)
    # conical, 2D
    cs = []
    for d in L.product(s=['bin', 'two'] + (['lossy'] if th else []), ft=['dfs', 'cfs'] + (['plain'] if th else []), m=media, g=geos,
                       a=[(0.4, 0.3), (0.0, 0.5)] + ([(0.7, 2.5), (-0.3, -1.1)] if th else []), dim=[1, 2]):
        if not th and d['g'] == 'B' and (d['m'] != 'air-glass' or d['ft'] == 'dfs' or d['a'][0] == 0.0):
            continue
        st = (L.STACKS_1D if d['dim'] == 1 else L.STACKS_2D)[d['s']]
        fto = [2, 0] if d['dim'] == 1 else [1, 1]
        c = dict(kind='torch', cfg=L.config(st, d['m'], d['g'], fto, d['a'][0], d['a'][1], d['ft'], psi=0.4))
        if d['a'][0] == 0.0 and d['s'] in UNIFORM:
            c['degenerate'] = UNIFORM[d['s']]
        cs.append(c)
    out += L.chunk(cs, 2, 3.0)
    # options: pinv, other polarisations, single rows in 2D, anisotropic cells
    cs = []
    cs.append(dict(kind='torch', cfg=L.config(L.STACKS_2D['bin'], 'air-glass', 'A', [1, 1], 0.3, 0.2, 'dfs', psi=0.9, pinv=True)))
    cs.append(dict(kind='torch', cfg=L.config(L.STACKS_1D['two'], 'air-glass', 'A', [2, 0], 0.3, None, 'dfs', pol=1, pinv=True)))
    cs.append(dict(kind='torch', cfg=L.config(L.STACKS_1D['two'], 'air-glass', 'A', [1, 0], 0.3, 0.8, 'dfs', psi=0.0, pinv=True)))
    for a in ('row', 'lossy', 'uni'):
        for ft in ('dfs', 'cfs'):
            cs.append(dict(kind='torch', cfg=L.config(L.ANISO[a], 'air-glass', 'A', [1, 0] if a == 'row' else [1, 1], 0.3, 0.2, ft, psi=0.9)))
    iso = dict(r=[[[[1.5] * 3, [1.5] * 3, [2.0] * 3]]], d=[220.0])
    for ft in ('dfs', 'cfs'):
        cs.append(dict(kind='torch', cfg=L.config(iso, 'air-glass', 'A', [2, 0], 0.3, 0.2, ft, psi=0.9)))
        for p in (0, 1):
            cs.append(dict(kind='torch', cfg=L.config(L.ANISO['row'], 'air-glass', 'A', [2, 0], 0.3, None, ft, pol=p)))
    out += L.chunk(cs, 1, 6.0)
    # near fields
    cs = [dict(kind='torch', loss='field', slack=3, cfg=c) for c in (
        [L.config(L.STACKS_1D['two'], 'air-glass', 'A', [2, 0], 0.4, None, ft, pol=p) for p in (0, 1) for ft in ('dfs', 'cfs')] +
        [L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [2, 0], 0.4, 0.3, 'dfs', psi=0.4),
         L.config(L.STACKS_2D['bin'], 'glass-lossy', 'A', [1, 1], 0.4, 0.3, 'dfs', psi=0.4)])]
    out += L.chunk(cs, 1, 4.0)
    # forms
    cs = [dict(kind='forms', cfg=c) for c in (
        L.config(L.STACKS_1D['two'], 'air-glass', 'A', [2, 0], 0.4, None, 'dfs', pol=1),
        L.config(L.STACKS_1D['two'], 'air-glass', 'A', [2, 0], 0.4, 0.3, 'dfs', psi=0.4),
        L.config(L.STACKS_2D['two'], 'air-glass', 'A', [1, 1], 0.4, 0.3, 'cfs', psi=0.4))]
    out += L.chunk(cs, 1, 2.0)
    # vector shapes
    for s in ('rect', 'mix', 'lossless'):
        for f in ([1, 1], [2, 1]) if th or s == 'rect' else ([1, 1],):
            out.append((8.0, [dict(kind='vector', cfg=L.config(L.STACKS_V[s], 'air-glass', 'A', f, 0.4, 0.3, 'cfs', psi=0.4))]))
    # optimiser histories
    ops = [['grad'], ['fit', 'sgd', 1], ['fit', 'momentum', 3], ['fit', 'adam', 2], ['set'], ['solve'], ['fit', 'sgd', 0]]
    hists = [list(h) for n in ((1, 2, 3, 4) if th else (1, 2, 3)) for h in itertools.product(ops, repeat=n)]
    hists = [h for h in hists if h[-1][0] != 'set']
    maximal = [h for h in hists if len(h) == (4 if th else 3)]
    for cfg, pois in ((L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [2, 0], 0.3, None, 'dfs', pol=0), ['ucell', 'thickness']),
                      (L.config(L.STACKS_1D['lossy'], 'air-glass', 'A', [1, 0], 0.3, None, 'cfs', pol=1), ['thickness', 'ucell']),
                      (L.config(L.STACKS_2D['bin'], 'air-glass', 'A', [1, 1], 0.3, 0.2, 'dfs', psi=0.5), ['ucell'])):
        n = len(maximal) // (12 if th else 3) + 1
        for i in range(0, len(maximal), n):
            out.append((4.0, [dict(kind='hist', cfg=cfg, pois=pois, hists=maximal[i:i + n])]))
    # optimiser classes, sets of parameters
    oc = [L.config(L.STACKS_1D['two'], 'air-glass', 'A', [1, 0], 0.3, None, 'dfs', pol=1), L.config(L.STACKS_2D['bin'], 'air-glass', 'A', [1, 1], 0.3, 0.2, 'cfs', psi=0.5),
          L.config(L.STACKS_1D['lossy'], 'glass-lossy', 'A', [1, 0], 0.3, 0.4, 'dfs', psi=0.5)]
    sets = [['ucell', 'thickness'], ['thickness'], ['wavelength', 'period'], ['n_bot', 'ucell', 'n_top'], ['theta'], ['period', 'thickness', 'ucell', 'wavelength']]
    for i, o in enumerate(TOPT):
        cs = [dict(kind='opt', cfg=c, pois=p, opt=o, n=(40 if th else 13)) for k, c in enumerate(oc) for j, p in enumerate(sets) if th or (i + j + k) % 3 == 0]
        out += L.chunk(cs, 3, 2.0)
    out += [(6.0, [dict(kind='poi', cfg=c)]) for c in oc]
    # JAX
    def pts(st, fto, phi, **pol):
        return [L.config(st, m_, g, fto, t, p, 'dfs', **pol) for m_ in media for g in (geos if th else ['A']) for t in [0.4, 0.0] for p in ([None] if phi is None else phi)]
    for st, fto, phi, pol in ((L.STACKS_1D['bin'], [2, 0], None, dict(pol=0)), (L.STACKS_1D['two'], [2, 0], None, dict(pol=1)),
                              (L.STACKS_1D['two'], [2, 0], [0.3], dict(psi=0.4)), (L.STACKS_2D['bin'], [1, 1], [0.3, -0.8], dict(psi=0.4))):
        out.append((30.0, [dict(kind='jax', cfgs=pts(st, fto, phi, **pol))]))
    out.append((30.0, [dict(kind='jaxe', keys=['ucell', 'thickness', 'period'], cfg=L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [2, 0], 0.3, None, 'cfs', pol=1))]))
    out.append((30.0, [dict(kind='jaxe', keys=['psi', 'phi'], cfg=L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [1, 0], 0.3, 0.4, 'dfs', psi=0.6))]))
    out.append((30.0, [dict(kind='jaxe', keys=[[0, 0], [0, 1, 0, 1], [0, 1, 0, 3], [0, 1, 0, 4], [0, 1, 0, 5], [0, 1, 0, 6]],
                       cfg=L.config(dict(v=[[1.0, [['rectangle', 400, 310, 330, 190, 2.1, 0.6, 2, 2], ['rectangle', 500, 400, 120, 330, 1.5, 0.0, 1, 1]]]], d=[300.0]),
                                    'air-glass', 'A', [1, 1], 0.3, 0.4, 'cfs', psi=0.6))]))
    if th:
        out.append((60.0, [dict(kind='jaxe', keys=['ucell', 'n_top', 'wavelength'], cfg=L.config(L.STACKS_2D['bin'], 'air-glass', 'A', [1, 1], 0.3, 0.4, 'cfs', psi=0.6))]))
    c1 = L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [1, 0], 0.3, None, 'dfs', pol=0)
    c2 = L.config(L.STACKS_1D['lossy'], 'air-glass', 'A', [1, 0], 0.3, None, 'dfs', pol=1)
    out.append((30.0, [dict(kind='jhist', cfg=c1, pois=['ucell', 'thickness'], hists=[[['fit', 'momentum', 3], ['fit', 'sgd', 1], ['solve']], [['grad'], ['grad'], ['fit', 'sgd', 0], ['solve']]])]))
    out.append((30.0, [dict(kind='jhist', cfg=c2, pois=['thickness', 'ucell'], hists=[[['fit', 'sgd', 2], ['grad']]])]))
    c3 = L.config(L.STACKS_1D['bin'], 'air-glass', 'A', [1, 0], 0.3, 0.4, 'dfs', psi=0.5)
    out.append((30.0, [dict(kind='jhist', cfg=c3, pois=['wavelength', 'period', 'n_bot'], hists=[[['fit', 'sgd', 9], ['grad'], ['solve']]])]))
    out.append((30.0, [dict(kind='jangle', cfg=c3, poi=k) for k in ('theta', 'phi')]))
    if th:
        out.append((60.0, [dict(kind='jhist', cfg=c1, pois=['ucell', 'thickness'], hists=[[['fit', 'adam', 2], ['fit', 'momentum', 2], ['solve']]])]))
    return out
