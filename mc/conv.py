"""Fixed conventions that relate the backends (no reference model involved)."""
import numpy as np

from . import meentio as io


def kvec(cfg):
    fx, fy = cfg['fto']
    n, th, ph = io.cnum(cfg['n_top']), cfg['theta'] or 1e-20, io.phi_of(cfg)
    p = list(cfg['period'])
    kx = n * np.sin(th) * np.cos(ph) + np.arange(-fx, fx + 1) * cfg['wavelength'] / p[0]
    ky = n * np.sin(th) * np.sin(ph) + np.arange(-fy, fy + 1) * cfg['wavelength'] / p[-1]
    kx, ky = np.broadcast_arrays(kx[None, :], ky[:, None])
    return np.real(kx), np.real(ky)


def masks(cfg):
    """(none, flip): orders with undefined s/p basis, orders whose s direction is defined up to sign."""
    kx, ky = kvec(cfg)
    fx, fy = cfg['fto']
    none = np.abs(kx) + np.abs(ky) < 1e-6
    none[fy, fx] = False
    flip = np.abs(kx) < 1e-6
    flip[fy, fx] = abs(np.cos(io.phi_of(cfg))) < 1e-6
    return none, flip & ~none


def numpy_to_torch(cfg, part, one_d):
    """Amplitudes of the numpy/jax convention expressed in torch's."""
    kx, _ = kvec(cfg)
    nt, nb = complex(io.cnum(cfg['n_top'])), complex(io.cnum(cfg['n_bot']))
    g = 1.0 if np.cos(io.phi_of(cfg)) >= 0 else -1.0
    sg = np.where(kx < 0, -1.0, 1.0) * (-1.0 if cfg['theta'] < 0 else 1.0)
    out = dict(part)
    for k in ('R_s', 'T_s', 'R_p', 'T_p'):
        v = part[k]
        if not one_d:
            v = g * v if k.endswith('s') else 1j * g * v / (nt if k[0] == 'R' else nb)
        out[k] = np.conj(v) * sg
    return out


FIELD_NT = np.array([-1, 1, -1, 1, -1, 1.0])     # torch = conj(numpy) * this, (Ex, Ey, Ez, Hx, Hy, Hz)


def field6(cfg, f):
    """numpy/jax scalar-1D field (3 components) -> six components."""
    if f.shape[-1] == 6:
        return f
    out = np.zeros(f.shape[:-1] + (6,), dtype=complex)
    te = abs(np.cos(io.psi_of(cfg))) < 0.5
    for i, j in enumerate((1, 3, 5) if te else (4, 0, 2)):
        out[..., j] = f[..., i]
    return out


def field_numpy_to_torch(cfg, f, one_d):
    f = field6(cfg, f)
    if not one_d:
        return np.conj(f) * FIELD_NT
    te = abs(np.cos(io.psi_of(cfg))) < 0.5
    # TE: (Ey,Hx,Hz); TM: (Hy,Ex,Ez)
    sgn = np.array([0, 1, 0, 1, 0, 1.0]) if te else np.array([1, 0, 1, 0, 1, 0.0])
    return np.conj(f) * sgn
