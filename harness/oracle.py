"""Reference models, written from the definitions and sharing no code with bet."""
import math
import numpy as np


def norms(d, p):
    d = np.abs(d)
    if np.isinf(p):
        return d.max(axis=-1)
    if p == 1:
        return d.sum(axis=-1)
    s = d.max(axis=-1)
    safe = np.where(s > 0, s, 1.0)
    return s * ((d / safe[..., None]) ** p).sum(axis=-1) ** (1.0 / p)


def dist_matrix(x, pts, p):
    return norms(x[:, None, :] - pts[None, :, :], p)


def tie_gap(D):
    """Relative gap between the nearest and second nearest point, per row."""
    if D.shape[1] < 2:
        return np.full(D.shape[0], np.inf)
    s = np.sort(D, axis=1)
    return (s[:, 1] - s[:, 0])


def nearest(x, pts, p):
    return np.argmin(dist_matrix(x, pts, p), axis=1)


def rect_query(x, mins, maxes):
    """First half-open box (min, max] holding x; len(mins) when there is none."""
    n = len(mins)
    out = np.full(len(x), n)
    for r in range(len(x)):
        for i in range(n):
            if all(mins[i][d] < x[r, d] <= maxes[i][d] for d in range(x.shape[1])):
                out[r] = i
                break
    return out


def ball_volume(dim, p, r):
    if np.isinf(p):
        return (2.0 * r) ** dim
    return (2.0 * r) ** dim * math.gamma(1 + 1.0 / p) ** dim / math.gamma(1 + dim / p)


def share(io_ptr, out_prob, vol):
    """Each output cell's mass, shared over its samples in proportion to volume."""
    P = [0.0] * len(io_ptr)
    for b in range(len(out_prob)):
        rows = [j for j in range(len(io_ptr)) if io_ptr[j] == b]
        tot = math.fsum(vol[j] for j in rows)
        if tot > 0:
            for j in rows:
                P[j] = out_prob[b] * vol[j] / tot
    return np.array(P)


def rebin(ptr, mass, n):
    out = [[] for _ in range(n)]
    for j, m in zip(ptr, mass):
        out[int(j)].append(float(m))
    return np.array([math.fsum(o) for o in out])


# ---- planar geometry ----------------------------------------------------
def clip_halfplane(poly, a, b):
    """Part of a convex polygon with a.x <= b (Sutherland-Hodgman)."""
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        fp, fq = a[0] * p[0] + a[1] * p[1] - b, a[0] * q[0] + a[1] * q[1] - b
        if fp <= 0:
            out.append(p)
        if (fp < 0 < fq) or (fq < 0 < fp):
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def poly_area(poly):
    return 0.5 * abs(math.fsum(poly[i][0] * poly[(i + 1) % len(poly)][1] -
                               poly[(i + 1) % len(poly)][0] * poly[i][1]
                               for i in range(len(poly))))


def voronoi_polys(pts, dom):
    """Euclidean Voronoi cells intersected with a box, as polygons."""
    polys = []
    box = [(dom[0, 0], dom[1, 0]), (dom[0, 1], dom[1, 0]),
           (dom[0, 1], dom[1, 1]), (dom[0, 0], dom[1, 1])]
    for i in range(len(pts)):
        poly = box
        order = np.argsort(((pts - pts[i]) ** 2).sum(axis=1))
        for j in order:
            if j == i:
                continue
            a = pts[j] - pts[i]
            mid = 0.5 * (pts[j] + pts[i])
            poly = clip_halfplane(poly, a, float(a @ mid))
            if not poly:
                break
        polys.append(poly)
    return polys


def cells_1d(pts, lo, hi):
    """Exact 1D Voronoi intervals; coincident points share one cell."""
    u = np.unique(pts)
    edges = np.concatenate([[lo], 0.5 * (u[1:] + u[:-1]), [hi]])
    return u, edges


def volume_fractions(pts, dom, p, rng, m=200000):
    """Volume fractions of p-norm Voronoi cells by the oracle's own sampling."""
    from scipy.spatial import cKDTree
    u = rng.uniform(0, 1, (m, dom.shape[0]))
    x = dom[:, 0] + u * (dom[:, 1] - dom[:, 0])
    _, ptr = cKDTree(pts).query(x, p=p)
    return np.bincount(ptr, minlength=len(pts)) / float(m)


class KDE(object):
    """Gaussian kernel density estimate, from its definition (Scott, Silverman, scalar)."""

    def __init__(self, x, w=None, bw=None):
        x = np.asarray(x, float)
        self.x = x.reshape(len(x), -1)
        n, d = self.x.shape
        w = np.ones(n) if w is None else np.asarray(w, float)
        self.w = w / w.sum()
        neff = 1.0 / np.sum(self.w ** 2)
        if bw is None or bw == 'scott':
            f = neff ** (-1.0 / (d + 4))
        elif bw == 'silverman':
            f = (neff * (d + 2) / 4.0) ** (-1.0 / (d + 4))
        else:
            f = float(bw)
        m = self.w.dot(self.x)
        c = (self.x - m)
        cov = (c * self.w[:, None]).T.dot(c) / (1 - np.sum(self.w ** 2))
        self.cov = cov * f ** 2

    def __call__(self, t):
        t = np.asarray(t, float).reshape(len(t), -1)
        d = self.x.shape[1]
        # whitening by a Cholesky factor keeps scales apart
        L = np.linalg.cholesky(self.cov)
        a = np.linalg.solve(L, self.x.T).T
        b = np.linalg.solve(L, t.T).T
        out = np.empty(len(t))
        logn = -0.5 * d * math.log(2 * math.pi) - np.log(np.diag(L)).sum()
        for i in range(len(t)):
            e = -0.5 * ((a - b[i]) ** 2).sum(axis=1)
            out[i] = np.sum(self.w * np.exp(e + logn))
        return out


def weighted_mean_cov(x, w):
    w = np.asarray(w, float) / np.sum(w)
    m = w.dot(x)
    c = x - m
    return m, (c * w[:, None]).T.dot(c)


def mvn_pdf(t, mean, cov):
    L = np.linalg.cholesky(np.atleast_2d(cov))
    z = np.linalg.solve(L, (t - mean).T)
    d = len(mean)
    return np.exp(-0.5 * (z ** 2).sum(axis=0) - 0.5 * d * math.log(2 * math.pi)
                  - np.log(np.diag(L)).sum())


def norm_pdf(t, m, s):
    return np.exp(-0.5 * ((t - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))
