"""Closed-form thin-film optics (characteristic-matrix / Airy), convention exp(+iwt), n - ik."""
import numpy as np


def kz(n, kpar):
    v = np.sqrt(complex(n) ** 2 - kpar ** 2 + 0j)
    return -v if v.imag > 1e-13 * abs(v) else v


def stack(n_top, n_bot, n_layers, d, wavelength, theta):
    """-> dict: s, p: (r, t) with r, t of the transverse E (s) / H (p) field, plus efficiencies."""
    kpar = n_top * np.sin(theta)
    k0 = 2 * np.pi / wavelength
    ns = [n_top] + list(n_layers) + [n_bot]
    out = {}
    for pol in 'sp':
        y = [kz(n, kpar) if pol == 's' else kz(n, kpar) / complex(n) ** 2 for n in ns]
        # recursive reflection from the bottom (Airy summation)
        r = (y[-2] - y[-1]) / (y[-2] + y[-1])
        t = 1 + r
        for i in range(len(n_layers) - 1, -1, -1):
            ph = np.exp(-1j * k0 * kz(n_layers[i], kpar) * d[i])
            r01 = (y[i] - y[i + 1]) / (y[i] + y[i + 1])
            den = 1 + r01 * r * ph ** 2
            t = (1 + r01) * ph * t / den
            r = (r01 + r * ph ** 2) / den
        R = abs(r) ** 2
        Tt = abs(t) ** 2 * y[-1].real / y[0].real
        out[pol] = (r, t, R, Tt)
    return out
