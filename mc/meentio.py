"""Driving meent through its public API and normalising what comes back.

A *configuration* is a plain JSON-able dict:
  n_top, n_bot (number or [re, im]), theta, phi (None or number), pol | psi, period, wavelength, fto,
  ucell: {'r': nested list (L, rows, cols[, 3]) of numbers or [re, im] if 'c'} or {'v': vector list},
  thickness, fourier_type, enhanced_dfs, use_pinv, prec (0 double, 1 single)
"""
import os
import warnings

import numpy as np

BACKENDS = ('numpy', 'jax', 'torch')
_mods = {}


def mods():
    if not _mods:
        warnings.filterwarnings('ignore')
        import meent
        import torch
        import jax
        import jax.numpy as jnp
        torch.set_num_threads(1)
        _mods.update(meent=meent, torch=torch, jax=jax, jnp=jnp)
    return _mods


def cnum(v):
    return complex(*v) if isinstance(v, (list, tuple)) else v


def arr(be, a):
    m = mods()
    if be == 0:
        return np.array(a)
    if be == 1:
        return m['jnp'].array(a)
    return m['torch'].tensor(a)


def to_np(x):
    """Any backend's array -> numpy, detached."""
    m = mods()
    if isinstance(x, m['torch'].Tensor):
        return x.detach().resolve_conj().resolve_neg().cpu().numpy()
    return np.asarray(x)


def ctype(be, prec):
    m = mods()
    if be == 0:
        return (np.complex128, np.complex64)[prec]
    if be == 1:
        return (m['jnp'].complex128, m['jnp'].complex64)[prec]
    return (m['torch'].complex128, m['torch'].complex64)[prec]


def raster(cfg):
    """numpy array of the raster cell (L, rows, cols[, 3])."""
    a = np.array(cfg['ucell']['r'], dtype=float)
    if 'i' in cfg['ucell']:
        a = a + 1j * np.array(cfg['ucell']['i'], dtype=float)
    return a


def vector(cfg):
    """Deep copy of the vector cell with numbers decoded (complex given as {'c': [re, im]})."""
    def dec(x):
        if isinstance(x, dict):
            return complex(*x['c'])
        if isinstance(x, list):
            return [dec(v) for v in x]
        return x
    return dec(cfg['ucell']['v'])


def ucell(be, cfg):
    if 'v' in cfg['ucell']:
        return vector(cfg)
    return arr(be, raster(cfg))


KEYS = ('theta', 'phi', 'wavelength', 'fto', 'fourier_type', 'enhanced_dfs', 'use_pinv')


def kwargs(be, cfg):
    kw = {k: cfg[k] for k in KEYS if k in cfg}
    kw['n_top'] = cnum(cfg.get('n_top', 1.))
    kw['n_bot'] = cnum(cfg.get('n_bot', 1.))
    kw['period'] = list(cfg['period'])
    kw['thickness'] = list(cfg['thickness'])
    for k in ('psi', 'pol'):
        if k in cfg:
            kw[k] = cfg[k]
    kw['type_complex'] = ctype(be, cfg.get('prec', 0))
    kw['ucell'] = ucell(be, cfg)
    return kw


def build(be, cfg):
    return mods()['meent'].call_mee(backend=be, **kwargs(be, cfg))


FIELDS = ('R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')


def unpack(result):
    """-> {'res': {...}, 'te': {...}|None, 'tm': {...}|None} of numpy arrays."""
    out = {}
    for nm, attr in (('res', 'res'), ('te', 'res_te_inc'), ('tm', 'res_tm_inc')):
        sub = getattr(result, attr)
        out[nm] = None if sub is None else {k: to_np(getattr(sub, k)) for k in FIELDS}
    out['de_ri'] = to_np(result.de_ri)
    out['de_ti'] = to_np(result.de_ti)
    return out


def solve(be, cfg):
    with np.errstate(all='ignore'):
        return unpack(build(be, cfg).conv_solve())


def psi_of(cfg):
    return float(cfg['psi']) if 'psi' in cfg else np.pi / 2 * (1 - cfg['pol'])


def phi_of(cfg):
    return 0.0 if cfg.get('phi') is None else float(cfg['phi'])


def is_1d(be, cfg):
    """Does meent document this configuration as the scalar 1D TE/TM formulation?"""
    if 'v' in cfg['ucell'] or len(cfg['ucell']['r'][0]) != 1 or cfg['fto'][1] != 0:
        return False
    pol = 1 - 2 * psi_of(cfg) / np.pi
    if pol not in (0.0, 1.0):
        return False
    return cfg.get('phi') is None or (be == 2 and float(cfg['phi']) == 0)
