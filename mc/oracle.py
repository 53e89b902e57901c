"""What meent must return for a configuration, computed from the reference model only.

The reference (mc/ref.py) yields fields in one fixed convention; this module maps them to the published
convention of each backend (sign/conjugation of the amplitudes), which is part of what users rely on.
"""
import numpy as np

from . import meentio as io
from . import ref

TOL = {0: 1e-7, 1: 2e-3}


def source(psi):
    return (np.sin(psi), np.cos(psi))


def theta_of(cfg):
    return cfg['theta'] if cfg['theta'] != 0 else 1e-20


def period2(cfg):
    p = list(cfg['period'])
    return p if len(p) == 2 else p * 2


def layers(cfg):
    fx, fy = cfg['fto']
    if 'v' in cfg['ucell']:
        from . import geom
        return [ref.grid_layer(*geom.layer_grid(l, period2(cfg)), fx, fy) for l in io.vector(cfg)]
    return ref.raster_layers(io.raster(cfg), fx, fy, cfg.get('fourier_type', 0), cfg.get('enhanced_dfs', True))


class Reference:
    """Reference solution of one configuration for several polarisations at once."""

    def __init__(self, cfg, psis=None, conv=None):
        psis = [io.psi_of(cfg)] if psis is None else list(psis)
        self.psis = psis
        self.sources = [source(p) for p in psis] + [(1.0, 0.0), (0.0, 1.0)]
        self.cfg = cfg
        self.sol = ref.solve(io.cnum(cfg['n_top']), io.cnum(cfg['n_bot']), theta_of(cfg), io.phi_of(cfg),
                             period2(cfg), cfg['wavelength'], cfg['fto'],
                             layers(cfg) if conv is None else conv, cfg['thickness'], self.sources)
        self.eff = ref.efficiencies(self.sol, self.sources)
        self.amp = {b: ref.amplitudes(self.sol, b) for b in ('arctan', 'y')}

    def index(self, which, ipsi=0):
        return {'res': ipsi, 'te': len(self.psis), 'tm': len(self.psis) + 1}[which]

    def expected(self, be, which='res', ipsi=0, one_d=False):
        """dict with the ten result fields in backend `be`'s convention."""
        s, j = self.sol, self.index(which, ipsi)
        cfg = self.cfg
        nt, nb = complex(io.cnum(cfg['n_top'])), complex(io.cnum(cfg['n_bot']))
        g = 1.0 if np.cos(io.phi_of(cfg)) >= 0 else -1.0
        a = self.amp['y' if one_d else 'arctan']
        es_r, es_t, hs_r, hs_t = (a[k][:, j] for k in ('es_r', 'es_t', 'hs_r', 'hs_t'))
        out = dict(self.eff[j])
        if be != 2:
            if one_d:
                out.update(R_s=es_r, T_s=es_t, R_p=hs_r / nt, T_p=hs_t / nt)
            else:
                out.update(R_s=g * es_r, T_s=g * es_t, R_p=-1j * g * hs_r, T_p=-1j * g * hs_t)
        else:
            if one_d:
                out.update(R_s=es_r, T_s=es_t, R_p=hs_r / nt, T_p=hs_t / nt)
            else:
                out.update(R_s=es_r, T_s=es_t, R_p=hs_r / nt, T_p=hs_t / nb)
            sg = np.where(s.kx.real < 0, -1.0, 1.0) * (-1.0 if cfg['theta'] < 0 else 1.0)
            for k in ('R_s', 'T_s', 'R_p', 'T_p'):
                out[k] = np.conj(out[k]) * sg
        for k in ('R_s', 'T_s', 'R_p', 'T_p'):
            out[k] = out[k].reshape(s.shape)
        return out

    def undirected(self):
        """Orders whose s/p basis is not defined (k parallel = 0 without being the incident order), and
        orders whose s direction is only defined up to sign (kx = 0)."""
        s = self.sol
        par = np.abs(s.kx) + np.abs(s.ky)
        none = (par < 1e-6)
        none[s.n // 2] = False
        flip = (np.abs(s.kx) < 1e-6)
        flip[s.n // 2] = abs(np.cos(io.phi_of(self.cfg))) < 1e-6
        return none.reshape(s.shape), (flip & ~none.ravel()).reshape(s.shape)


AMPS = ('R_s', 'R_p', 'T_s', 'T_p')
DES = ('de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')


def compare(S, be, cfg, got, R, ipsi=0, tol=None, parts=('res', 'te', 'tm'), amps=True, tag=''):
    """Compare an unpacked result with the reference, in the backend's own convention."""
    tol = TOL[cfg.get('prec', 0)] if tol is None else tol
    one = io.is_1d(be, cfg)
    nm = io.BACKENDS[be]
    none, flip = R.undirected()
    for w in parts:
        if one and w != 'res':
            S.true(f'{nm}-1d-inc', got[w] is None, f'{tag} {w} incidence result present in the scalar 1D formulation')
            continue
        if not S.true(f'{nm}-missing', got[w] is not None, f'{tag} {w} result missing'):
            continue
        e = R.expected(be, w, ipsi, one)
        for k in DES + (AMPS if amps else ()):
            g, x = got[w][k], e[k]
            if g.shape != x.shape:
                S.fail(f'{nm}-shape', f'{nm}-shape: {tag} {w}.{k} has shape {g.shape}, expected {x.shape}')
                continue
            if one:
                pass
            elif k in AMPS:
                x = np.where(flip & (np.abs(g + x) < np.abs(g - x)), -x, x)
                x = np.where(none, g, x)
            elif k.endswith('_s') or k.endswith('_p'):
                x = np.where(none, g, x)
            S.close(f'{nm}-{w}-{k}', g, x, tol, f'{tag} {w}.{k}')
    S.close(f'{nm}-total-r', got['de_ri'], R.expected(be, 'res', ipsi, one)['de_ri'], tol, f'{tag} de_ri')
    S.close(f'{nm}-total-t', got['de_ti'], R.expected(be, 'res', ipsi, one)['de_ti'], tol, f'{tag} de_ti')
