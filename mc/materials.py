"""Independent reading of the nk_data library and independent dispersion models (n - ik)."""
import os

import numpy as np


def nk_dir(repo):
    return os.path.join(repo, 'meent', 'nk_data')


def read_library(repo):
    """name -> dict(rows=[(wl, n, k)...]) or dict(kind, coef, range)."""
    lib = {}
    for d, _, files in os.walk(nk_dir(repo)):
        for f in sorted(files):
            if not f.endswith('.txt'):
                continue
            head, rows = {}, []
            with open(os.path.join(d, f)) as fh:
                lines = fh.read().splitlines()[1:]
            for ln in lines:
                if ln.startswith('#'):
                    k, _, v = ln[1:].partition(':')
                    head.setdefault(k.strip(), v.strip())
                elif ln.strip():
                    rows.append(tuple(float(x) for x in ln.split()))
            e = dict(head=head, file=f)
            if 'coefficients' in head and head.get('type', '').split()[0] in ('formula', 'model'):
                e['kind'] = head['type'].split(None, 1)[1].strip()
                e['coef'] = [float(x) for x in head['coefficients'].split()]
                a, b = head['range'].split(' - ')
                e['range'] = (float(a), float(b.split()[0]))
            else:
                e['rows'] = rows
                w = [r[0] for r in rows]
                e['range'] = (min(w), max(w))
            lib[f[:-4].upper()] = e
    return lib


def interp(rows, wl):
    """Piecewise linear through the rows, clamped; rows ascending in wavelength."""
    if wl <= rows[0][0]:
        return complex(rows[0][1], -rows[0][2])
    if wl >= rows[-1][0]:
        return complex(rows[-1][1], -rows[-1][2])
    lo, hi = 0, len(rows) - 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if rows[m][0] <= wl:
            lo = m
        else:
            hi = m
    (w0, n0, k0), (w1, n1, k1) = rows[lo][:3], rows[hi][:3]
    f = (wl - w0) / (w1 - w0)
    return complex(n0 + f * (n1 - n0), -(k0 + f * (k1 - k0)))


def root(eps):
    """n - ik from a permittivity given as eps' + i eps'' (eps'' >= 0)."""
    v = np.sqrt(complex(eps))
    if v.imag < 0 or (v.imag == 0 and v.real < 0):
        v = -v
    return complex(v.real, -v.imag)


def sellmeier(coef, wl, squared):
    n2 = 1 + coef[0]
    for b, c in zip(coef[1::2], coef[2::2]):
        n2 += b * wl * wl / (wl * wl - (c * c if squared else c))
    return root(n2)


def voigt(omega, strength, centre, gamma, sigma, nodes=4001):
    """Gaussian average of Lorentz oscillators, by quadrature:
    chi = 1/(sqrt(2 pi) sigma) Int exp(-(x-centre)^2 / 2 sigma^2) strength / (x^2 - w^2 - i w gamma) dx."""
    g = np.sqrt(0.5 * np.pi)
    a = np.sqrt(omega ** 2 + 1j * omega * gamma)
    # 1/(x^2-a^2) = (1/(2a)) (1/(x-a) - 1/(x+a)); integrate with the Gauss weight on a shifted contour-free grid
    span = max(12 * sigma, 0.0)
    lo, hi = centre - span, centre + span
    width = max(a.imag, 1e-12)
    n = int(min(4_000_001, max(nodes, 40 * (hi - lo) / width)))
    n += 1 - n % 2
    x = np.linspace(lo, hi, n)
    f = np.exp(-(x - centre) ** 2 / (2 * sigma ** 2)) / (x * x - a * a)
    h = (hi - lo) / (n - 1)
    integral = h / 3 * (f[0] + f[-1] + 4 * f[1:-1:2].sum() + 2 * f[2:-1:2].sum())
    return strength * integral / (np.sqrt(2 * np.pi) * sigma)


EV = 8065.54429


def brendel_ev(coef, wl):
    w = 1e-2 / wl / EV
    wp, f0, g0 = coef[:3]
    eps = 1 - f0 * wp ** 2 / (w * (w + 1j * g0))
    for i in range(3, len(coef), 4):
        f, g, c, s = coef[i:i + 4]
        eps += voigt(w, f * wp ** 2, c, g, s)
    return root(eps)


def brendel_cm(coef, wl):
    w = 1e-2 / wl
    eps = coef[0] + 0j
    for i in range(1, len(coef), 4):
        st, g, s, c = coef[i:i + 4]
        eps += voigt(w, st, c, g, s)
    return root(eps)


def graphene(ef, mobility, temperature, thickness, wl):
    """Falkovsky/Kubo sheet conductivity spread over `thickness`."""
    e, kb, hbar, e0, vf, c = 1.6021773349e-19, 1.38064852e-23, 1.0545718e-34, 8.85418781762039e-12, 1e6, 299792458
    t = temperature * kb / e
    w = 2 * np.pi * c / wl
    en = hbar * w / e
    gam = hbar * vf ** 2 / (mobility * 1e-4 * e * ef)

    def occ(x):
        # sinh(x/t) / (cosh(ef/t) + cosh(x/t))
        u, v = x / t, ef / t
        m = np.maximum(u, v)
        return (np.exp(u - m) - np.exp(-u - m)) / (np.exp(v - m) + np.exp(-v - m) + np.exp(u - m) + np.exp(-u - m))
    h = occ(en / 2)
    gx, gw = np.polynomial.legendre.leggauss(60)

    def integ(f, a, b):
        x = 0.5 * (b - a) * gx + 0.5 * (b + a)
        return 0.5 * (b - a) * np.sum(gw * f(x))

    def fn(z):
        return (occ(z) - h) / (en ** 2 - 4 * z * z)
    cuts = sorted(set([0.0, 1000.0, en / 2, ef] + [v for v in np.concatenate([
        en / 2 + np.array([-8, -4, -2, -1, -.5, .5, 1, 2, 4, 8, 16, 40]) * t, ef + np.array([-16, -8, -4, -2, -1, 1, 2, 4, 8, 16]) * t,
        np.geomspace(0.01, 900, 60)]) if 0 < v < 1000]))
    s = sum(integ(fn, a, b) for a, b in zip(cuts[:-1], cuts[1:]))
    intra = 2j * e ** 2 * t / (np.pi * hbar * (en + 1j * gam)) * (np.logaddexp(ef / (2 * t), -ef / (2 * t)))
    sig = intra + e ** 2 / (4 * hbar) * (h + 4j * en / np.pi * s)
    return root(1 + 1j * sig / (w * thickness * e0))


def evaluate(kind, coef, wl):
    if str(kind) in ('1', 'formula 1'):
        return sellmeier(coef, wl, True)
    if str(kind) in ('2', 'formula 2'):
        return sellmeier(coef, wl, False)
    if kind == 'brendel-bormann-ev':
        return brendel_ev(coef, wl)
    if kind == 'brendel-bormann-cm':
        return brendel_cm(coef, wl)
    if kind == 'graphene-falkovsky':
        return graphene(*coef, wl)
    raise KeyError(kind)
