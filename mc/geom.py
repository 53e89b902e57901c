"""Reference geometry of the vector modelling: what an instruction list means.

Axis-aligned shapes are exact.  A rotated rectangle is cut into horizontal strips (n_split_triangle for
each of the two triangles, n_split_parallelogram for the middle part, equal heights within a part); each
strip is the axis-aligned box whose width is the section of the true rectangle at mid-height.  An ellipse
with n splits is the union of the boxes spanned by consecutive points of the zig-zag that runs from the
highest to the lowest of the n-1 contour points, alternating sides.  Later shapes paint over earlier ones.
"""
import numpy as np

MARGIN = 1e-5


def rectangle(cx, cy, lx, ly, n, angle=0.0, nt=2, npar=2):
    """-> list of (x0, x1, y0, y1, n)."""
    a = float(angle) % (2 * np.pi)
    q = np.round(a / (np.pi / 2))
    if abs(a - q * np.pi / 2) <= MARGIN:
        if int(q) % 2:
            lx, ly = ly, lx
        return [(cx - lx / 2, cx + lx / 2, cy - ly / 2, cy + ly / 2, n)]
    c, s = np.cos(a), np.sin(a)
    cor = [(cx + c * u * lx / 2 - s * v * ly / 2, cy + s * u * lx / 2 + c * v * ly / 2)
           for u, v in ((1, 1), (1, -1), (-1, -1), (-1, 1))]
    lv = sorted((p[1] for p in cor), reverse=True)
    out = []
    for hi, lo, k in ((lv[0], lv[1], nt), (lv[1], lv[2], npar), (lv[2], lv[3], nt)):
        for i in range(k):
            y1, y0 = hi - (hi - lo) * i / k, hi - (hi - lo) * (i + 1) / k
            ym = (y0 + y1) / 2
            xs = []
            for p, r in zip(cor, cor[1:] + cor[:1]):
                if min(p[1], r[1]) <= ym <= max(p[1], r[1]) and p[1] != r[1]:
                    xs.append(p[0] + (r[0] - p[0]) * (ym - p[1]) / (r[1] - p[1]))
            if y1 - y0 > 0:
                out.append((min(xs), max(xs), y0, y1, n))
    return out


def ellipse(cx, cy, lx, ly, n, angle=0.0, nw=2, nh=2, prefer_left=None):
    """prefer_left resolves a tie of the two neighbours of the highest point (None: numerically)."""
    m = nw - 1
    t = -np.pi + 2 * np.pi * np.arange(m) / m
    a = float(angle)
    x = cx + np.cos(a) * lx / 2 * np.cos(t) - np.sin(a) * ly / 2 * np.sin(t)
    y = cy + np.sin(a) * lx / 2 * np.cos(t) + np.cos(a) * ly / 2 * np.sin(t)
    h = int(np.argmax(y))
    # parameter increases counter-clockwise: the next point is to the left of the top
    left = [(h + i) % m for i in range(1, m // 2 + 1)]
    right = [(h - i) % m for i in range(1, m // 2 + 1)]
    lfirst = (y[left[0]] > y[right[0]]) if prefer_left is None else prefer_left
    seq = [h]
    for l, r in zip(left, right):
        seq += [l, r] if lfirst else [r, l]
    out = []
    for i, j in zip(seq[:-1], seq[1:]):
        out.append((min(x[i], x[j]), max(x[i], x[j]), min(y[i], y[j]), max(y[i], y[j]), n))
    return out


def has_tie(shape, tol=1e-9):
    """The staircase of this ellipse depends on rounding (its top is not unique, or both sides level)."""
    if shape[0] != 'ellipse':
        return False
    _, cx, cy, lx, ly, n, a, nw, nh = (list(shape) + [0, 2, 2][len(shape) - 6:])[:9]
    m = nw - 1
    t = -np.pi + 2 * np.pi * np.arange(m) / m
    y = np.sin(a) * lx / 2 * np.cos(t) + np.cos(a) * ly / 2 * np.sin(t)
    s = np.sort(y)[::-1]
    scale = max(abs(lx), abs(ly))
    h = int(np.argmax(y))
    return bool(s[0] - s[1] < tol * scale or abs(y[(h + 1) % m] - y[(h - 1) % m]) < tol * scale)


def boxes(shapes):
    out = []
    for sh in shapes:
        out += {'rectangle': rectangle, 'ellipse': ellipse}[sh[0]](*sh[1:])
    return out


def paint(base, bxs, period, tol=1e-9):
    """-> (n_grid [ny, nx], x_edges, y_edges), edges ascending from 0 to the period."""
    def edges(vals, p):
        v = sorted([0.0, float(p)] + [min(max(float(u), 0.0), float(p)) for u in vals])
        out = [v[0]]
        for u in v[1:]:
            if u - out[-1] > tol * p:
                out.append(u)
        out[-1] = float(p)
        return np.array(out)
    xe = edges([b[i] for b in bxs for i in (0, 1)], period[0])
    ye = edges([b[i] for b in bxs for i in (2, 3)], period[1])
    xm, ym = (xe[1:] + xe[:-1]) / 2, (ye[1:] + ye[:-1]) / 2
    vec = isinstance(base, (list, tuple)) or any(isinstance(b[4], (list, tuple)) for b in bxs)
    shape = (len(ym), len(xm)) + ((3,) if vec else ())
    g = np.zeros(shape, dtype=complex)
    g[...] = base
    for x0, x1, y0, y1, n in bxs:
        g[np.ix_((ym > y0) & (ym < y1), (xm > x0) & (xm < x1))] = n
    return g, xe, ye


def layer_grid(layer, period):
    """instruction layer [base, shapes] -> arguments of ref.grid_layer."""
    g, xe, ye = paint(layer[0], boxes(layer[1]), period)
    eps = g ** 2
    return (eps if eps.ndim == 2 else [eps[..., i] for i in range(3)]), xe, ye


# ----------------------------------------------------------------------------- reading drawn layers
def drawn(layer, period):
    """[ucell_layer, x_list, y_list] as returned by the vector modelling -> (n_grid, x_edges, y_edges)."""
    from . import meentio as io
    g = io.to_np(layer[0])
    out = []
    for lst, p in ((layer[1], period[0]), (layer[2], period[1])):
        v = np.real(io.to_np(lst)).astype(float).ravel()
        out.append(np.concatenate([[0.0], v]))
    return g, out[0], out[1]


def sampler(grid):
    """Function (x, y arrays) -> index values on the outer grid [y, x]; tolerates edges equal up to rounding."""
    g, xe, ye = grid

    def pick(edges, pts):
        idx = np.full(len(pts), -1)
        for i, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
            if b > a:
                idx[(pts > a) & (pts < b)] = i
        return idx

    def f(x, y):
        ix, iy = pick(xe, x), pick(ye, y)
        v = np.array(g[np.ix_(np.maximum(iy, 0), np.maximum(ix, 0))], dtype=complex)
        v[iy < 0] = np.nan
        v[:, ix < 0] = np.nan
        return v
    return f


def union_edges(a, b, p):
    v = np.unique(np.concatenate([a, b, [0.0, p]]))
    v = v[(v >= 0) & (v <= p)]
    return v[np.concatenate([[True], np.diff(v) > 1e-14 * p])]


def difference(g1, g2, period):
    """Largest index difference over the common refinement of two grids, and the area fraction on which they differ."""
    xe, ye = union_edges(g1[1], g2[1], period[0]), union_edges(g1[2], g2[2], period[1])
    xm, ym = (xe[1:] + xe[:-1]) / 2, (ye[1:] + ye[:-1]) / 2
    a, b = sampler(g1)(xm, ym), sampler(g2)(xm, ym)
    if a.ndim != b.ndim:
        a = a if a.ndim == 3 else np.repeat(a[..., None], 3, -1)
        b = b if b.ndim == 3 else np.repeat(b[..., None], 3, -1)
    d = np.abs(a - b)
    d = np.where(np.isnan(d), np.inf, d)
    if d.ndim == 3:
        d = d.max(-1)
    w = np.outer(np.diff(ye), np.diff(xe)) / (period[0] * period[1])
    return float(d.max()), float(w[d > 1e-5].sum())
