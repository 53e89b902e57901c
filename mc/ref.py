"""Reference model of the RCWA problem (the executable specification).

Deliberately boring and structurally different from meent:
  * no eigen-decomposition: every layer is marched with the matrix exponential of thin slices,
    carrying the surface admittance Y (h = Y e) from the substrate upwards (a Riccati recursion,
    numerically stable because each slice is optically thin);
  * no transfer of "big" s/p matrices: everything is done on Cartesian (Ex, Ey, Hx, Hy);
  * one single path for 1D, conical and 2D.

Conventions (those of meent's numpy backend): exp(+i w t), absorption is n - ik, a plane wave is
exp(-i (kx x + ky y + kz z)), z grows from the top (incidence) medium into the substrate, H is
scaled by the vacuum impedance.  Harmonics are ordered y-major: index = iy * nx + ix.
"""
import numpy as np
from scipy.linalg import expm


# ----------------------------------------------------------------------------- Fourier factorisation
def coef_cfs(values, edges, period, m):
    """Exact Fourier coefficients of a piecewise-constant function.

    values[..., i] on [edges[i], edges[i+1]]; returns [..., len(m)]."""
    values = np.asarray(values, dtype=complex)
    a = np.asarray(edges[:-1], dtype=float)
    b = np.asarray(edges[1:], dtype=float)
    out = np.zeros(values.shape[:-1] + (len(m),), dtype=complex)
    for j, mm in enumerate(m):
        if mm == 0:
            w = (b - a) / period
        else:
            w = (np.exp(-2j * np.pi * mm * b / period) - np.exp(-2j * np.pi * mm * a / period)) / (-2j * np.pi * mm)
        out[..., j] = values @ w
    return out


def coef_dfs(values, m):
    """Plain DFT sums over equidistant samples (sample i sits at i/N)."""
    values = np.asarray(values, dtype=complex)
    n = values.shape[-1]
    i = np.arange(n)
    w = np.exp(-2j * np.pi * np.outer(i, m) / n) / n
    return values @ w


def toeplitz(c, f):
    """c[..., k] for k=-2f..2f -> Toeplitz matrix T[p, q] = c_{q-p}.

    c are coefficients on exp(+i 2 pi m x), the fields are expanded on exp(-i k x)."""
    p = np.arange(2 * f + 1)
    return c[..., (p[None, :] - p[:, None]) + 2 * f]


def conv_mats(eps_x, eps_y, eps_z, xinfo, yinfo, fx, fy, kind):
    """(epx, epy, epz_inv) with the Li factorisation rules.

    eps_*: arrays [ny, nx] already in the solver's orientation (row index = y ascending).
    xinfo/yinfo: for kind 'cfs' the edges (starting at 0, ending at period); ignored for 'dfs'.
    epx: inverse rule along x, Laurent along y; epy: inverse rule along y, Laurent along x;
    epz: Laurent on both.  In every case y is expanded first."""
    my, mx = np.arange(-2 * fy, 2 * fy + 1), np.arange(-2 * fx, 2 * fx + 1)

    def four(v, info, m):
        return coef_cfs(v, info, info[-1], m) if kind == 'cfs' else coef_dfs(v, m)

    ny_h, nx_h = 2 * fy + 1, 2 * fx + 1

    def expand(cell, inv_after_y):
        # cell [ny, nx] -> for each x column a y-Toeplitz matrix
        ty = toeplitz(four(cell.T, yinfo, my), fy)          # [nx, ny_h, ny_h]
        if inv_after_y:
            ty = np.linalg.inv(ty)
        g = np.moveaxis(ty, 0, -1)                           # [ny_h, ny_h, nx]
        tx = toeplitz(four(g, xinfo, mx), fx)                # [ny_h, ny_h, nx_h, nx_h]
        return np.moveaxis(tx, 2, 1).reshape(ny_h * nx_h, ny_h * nx_h)

    epz = expand(eps_z, False)
    epy = expand(1.0 / np.asarray(eps_y, dtype=complex), True)
    # x: the inverse of the y-Toeplitz of eps, then x-Toeplitz, then the full inverse
    epx = np.linalg.inv(expand(np.asarray(eps_x, dtype=complex), True))
    return epx, epy, np.linalg.inv(epz)


def raster_layers(ucell, fx, fy, fourier_type, enhanced=True):
    """ucell: (L, ny, nx) or (L, ny, nx, 3) refractive indices -> list of conv matrices."""
    out = []
    for layer in np.asarray(ucell):
        layer = np.asarray(layer, dtype=complex)
        comps = [layer] * 3 if layer.ndim == 2 else [layer[..., i] for i in range(3)]
        ny, nx = comps[0].shape
        if fourier_type == 1:
            eps = [np.flipud(c) ** 2 for c in comps]
            out.append(conv_mats(*eps, np.arange(nx + 1) / nx, np.arange(ny + 1) / ny, fx, fy, 'cfs'))
        else:
            min_y, min_x = (4 * fy + 1), (4 * fx + 1)
            if enhanced:
                min_y, min_x = min_y * ny, min_x * nx
            ry = min_y // ny + 1 if ny < min_y else 1
            rx = min_x // nx + 1 if nx < min_x else 1
            eps = [np.kron(np.flipud(c), np.ones((ry, rx))) ** 2 for c in comps]
            out.append(conv_mats(*eps, None, None, fx, fy, 'dfs'))
    return out


def grid_layer(eps, x_edges, y_edges, fx, fy):
    """Vector style layer: eps [ny, nx] (or 3 of them) on explicit ascending edges."""
    eps3 = eps if isinstance(eps, (list, tuple)) else [eps] * 3
    return conv_mats(*eps3, np.asarray(x_edges, float), np.asarray(y_edges, float), fx, fy, 'cfs')


# ----------------------------------------------------------------------------- propagation
class Solution:
    pass


def _kz(n, kx, ky):
    """z wavenumber of the outgoing/decaying wave, exp(-i kz z), Im <= 0."""
    v = np.sqrt(np.asarray(n, dtype=complex) ** 2 - kx ** 2 - ky ** 2 + 0j)
    v = np.where(v.imag > 1e-13 * np.abs(v), -v, v)
    return v


def _admittance(n, kx, ky, kz):
    e = n ** 2
    y = np.block([[np.diag(-kx * ky / kz), np.diag(-(e - kx ** 2) / kz)],
                  [np.diag((e - ky ** 2) / kz), np.diag(kx * ky / kz)]])
    return y


def solve(n_top, n_bot, theta, phi, period, wavelength, fto, layers, thickness, sources, z_samples=None):
    """sources: list of (a_s, a_p): complex amplitudes of the incident s (E along s-hat) and p waves.

    p incidence: |H| along s-hat equals n_top * a_p.  Returns a Solution with, for every source, the
    Cartesian tangential E/H of every reflected / transmitted harmonic and the derived quantities."""
    fx, fy = fto
    nx, ny = 2 * fx + 1, 2 * fy + 1
    mx, my = np.arange(-fx, fx + 1), np.arange(-fy, fy + 1)
    k0 = 2 * np.pi / wavelength
    kxv = n_top * np.sin(theta) * np.cos(phi) + mx * wavelength / period[0]
    kyv = n_top * np.sin(theta) * np.sin(phi) + my * wavelength / period[1]
    kx = np.tile(kxv, ny).astype(complex)
    ky = np.repeat(kyv, nx).astype(complex)
    n = nx * ny
    kzt, kzb = _kz(n_top, kx, ky), _kz(n_bot, kx, ky)
    yt, yb = _admittance(n_top, kx, ky, kzt), _admittance(n_bot, kx, ky, kzb)
    Kx, Ky, I = np.diag(kx), np.diag(ky), np.eye(n)

    # per layer: slice propagator
    props = []
    for (epx, epy, ezi), d in zip(layers, thickness):
        P = np.block([[-1j * Kx @ ezi @ Ky, -1j * (I - Kx @ ezi @ Kx)],
                      [1j * (I - Ky @ ezi @ Ky), 1j * Ky @ ezi @ Kx]])
        Q = np.block([[1j * Kx @ Ky, 1j * (epy - Kx @ Kx)],
                      [1j * (Ky @ Ky - epx), -1j * Ky @ Kx]])
        gen = k0 * np.block([[np.zeros_like(P), P], [Q, np.zeros_like(Q)]])
        scale = max(np.linalg.norm(P @ Q, 2) ** 0.5 * k0 * abs(d), 1e-9)
        ns = max(1, int(np.ceil(scale / 0.75)))
        M = expm(gen * (d / ns)) if d != 0 else np.eye(4 * n, dtype=complex)
        props.append((gen, M, ns, d, ezi))

    # upward Riccati sweep.  For every slice store Y at its top.
    Y = yb
    stack = []      # from bottom to top
    for gen, M, ns, d, ezi in props[::-1]:
        m11, m12, m21, m22 = M[:2*n, :2*n], M[:2*n, 2*n:], M[2*n:, :2*n], M[2*n:, 2*n:]
        ys = [Y]
        for _ in range(ns):
            Y = np.linalg.solve(m22 - Y @ m12, Y @ m11 - m21)
            ys.append(Y)
        stack.append(ys[::-1])   # index 0 = top of layer ... ns = bottom
    stack = stack[::-1]

    # incident fields (harmonic 0)
    c = n // 2
    st, ct, sp, cp = np.sin(theta), np.cos(theta), np.sin(phi), np.cos(phi)
    shat = np.array([-sp, cp])
    khat = np.array([cp, sp])
    rhs_e = np.zeros((2 * n, len(sources)), dtype=complex)
    rhs_h = np.zeros((2 * n, len(sources)), dtype=complex)
    for j, (a_s, a_p) in enumerate(sources):
        # s: E = a_s shat; H_par = k x E: for a wave exp(-ik r), curl E = -i H -> H = k x E
        e = a_s * shat + a_p * ct * khat          # p: E_par along khat
        h = a_s * n_top * ct * (-khat) + a_p * n_top * shat
        rhs_e[[c, n + c], j] = e
        rhs_h[[c, n + c], j] = h
    # e_r + e_i = e_t ; -yt e_r + h_i = Y e_t
    et = np.linalg.solve(Y + yt, rhs_h + yt @ rhs_e)
    er = et - rhs_e
    hr = -yt @ er

    # downward sweep
    s = Solution()
    s.kx, s.ky, s.kxv, s.kyv, s.kzt, s.kzb, s.n = kx, ky, kxv, kyv, kzt, kzb, n
    s.er, s.hr = er, hr
    e = et
    s.slices = []
    for (gen, M, ns, d, ezi), ys in zip(props, stack):
        es = [e]
        for i in range(ns):
            e = M[:2*n, :2*n] @ e + M[:2*n, 2*n:] @ (ys[i] @ e)
            es.append(e)
        s.slices.append((gen, M, ns, d, ezi, ys, es))
    s.et, s.ht = e, yb @ e
    s.inc_flux = None
    s.n_top, s.n_bot, s.theta, s.phi = n_top, n_bot, theta, phi
    s.shape = (ny, nx)
    s.k0, s.period, s.fto = k0, period, fto
    return s


def amplitudes(s, basis):
    """E_s and H_s (component along the local s direction) of each order, per source.

    basis 'arctan' uses the angle arctan(ky/kx) (folded to +-90 deg), 'y' uses the fixed y axis."""
    n = s.n
    if basis == 'y':
        cphi, sphi = np.ones(n), np.zeros(n)
    else:
        with np.errstate(divide='ignore', invalid='ignore'):
            a = np.arctan(np.where(s.kx == 0, np.where(s.ky.real < 0, -np.inf, np.inf) if True else 0, s.ky.real / np.where(s.kx == 0, 1, s.kx.real)))
        a = np.where((s.kx == 0) & (s.ky == 0), s.phi, a)
        cphi, sphi = np.cos(a), np.sin(a)
    out = {}
    for name, e, h in (('r', s.er, s.hr), ('t', s.et, s.ht)):
        out['es_' + name] = (cphi[:, None] * e[n:] - sphi[:, None] * e[:n])
        out['hs_' + name] = (cphi[:, None] * h[n:] - sphi[:, None] * h[:n])
    return out


def efficiencies(s, sources):
    """Returns per source dict of (ny, nx) arrays: de_ri_s, de_ri_p, de_ti_s, de_ti_p, de_ri, de_ti."""
    amp = amplitudes(s, 'arctan')
    res = []
    pin0 = (np.asarray(s.n_top) * np.cos(s.theta)).real
    for j, (a_s, a_p) in enumerate(sources):
        # flux is normalised by a unit-amplitude incident wave (|a_s|^2 + |a_p|^2 == 1 expected)
        d = {}
        for nm, kz, n in (('r', s.kzt, s.n_top), ('t', s.kzb, s.n_bot)):
            es, hs = amp['es_' + nm][:, j], amp['hs_' + nm][:, j]
            fs = (np.abs(es) ** 2 * kz.real / pin0)
            fp = (np.abs(hs) ** 2 * (kz / n ** 2).real / pin0)
            d[f'de_{nm}i_s'] = fs.reshape(s.shape)
            d[f'de_{nm}i_p'] = fp.reshape(s.shape)
            d[f'de_{nm}i'] = (fs + fp).reshape(s.shape)
        res.append(d)
    return res


def field(s, j, res_x, res_y, res_z):
    """Fields on meent's grid: z per layer = linspace(0, d) inclusive, y descending from period to 0,
    x ascending 0..period inclusive. Returns [L*res_z, res_y, res_x, 6] (Ex,Ey,Ez,Hx,Hy,Hz)."""
    n = s.n
    x = np.linspace(0, s.period[0], res_x)
    y = np.linspace(0, s.period[1], res_y)[::-1]
    ph = np.exp(-1j * s.k0 * (x[None, :, None] * s.kx + y[:, None, None] * s.ky))  # [ry, rx, n]
    out = []
    for gen, M, ns, d, ezi, ys, es in s.slices:
        for z in np.linspace(0, d, res_z):
            if d == 0:
                i, rem = 0, 0.0
            else:
                i = min(int(np.floor(z / d * ns)), ns - 1)
                rem = z - i * d / ns
            v = np.concatenate([es[i][:, j], ys[i] @ es[i][:, j]])
            if rem != 0:
                v = expm(gen * rem) @ v
            ex, ey, hx, hy = v[:n], v[n:2*n], v[2*n:3*n], v[3*n:]
            ez = ezi @ (s.ky * hx - s.kx * hy)
            hz = s.kx * ey - s.ky * ex
            out.append(np.stack([ph @ c for c in (ex, ey, ez, hx, hy, hz)], axis=-1))
    return np.array(out)
