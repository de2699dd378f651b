"""Workload generators shared by the checks.  Every choice comes from rng."""
import numpy as np


def domain(rng, dim, kind=None):
    """Box domains: unit, shifted, negative, thin, wide, mixed scales."""
    kind = kind or rng.choice(['unit', 'shift', 'neg', 'scales', 'big', 'ints', 'offset', 'micro'])
    if kind == 'ints':          # integer bounds, as a user types them
        lo = rng.randint(-5, 5, dim)
        return np.column_stack([lo, lo + rng.randint(1, 6, dim)])
    if kind == 'unit':
        return np.repeat([[0.0, 1.0]], dim, axis=0)
    if kind == 'shift':
        lo = rng.uniform(-5, 5, dim)
        return np.column_stack([lo, lo + rng.uniform(0.5, 4, dim)])
    if kind == 'neg':
        lo = rng.uniform(-9, -6, dim)
        return np.column_stack([lo, lo + rng.uniform(0.5, 4, dim)])
    if kind == 'scales':
        w = 10.0 ** rng.uniform(-3, 3, dim)
        lo = rng.uniform(-2, 2, dim) * w
        return np.column_stack([lo, lo + w])
    if kind == 'micro':         # small (or large) units: nothing here is close to 1
        w = 10.0 ** rng.choice([-13, -10, -7, 7, 10]) * rng.uniform(1, 9, dim)
        lo = rng.uniform(-2, 2, dim) * w
        return np.column_stack([lo, lo + w])
    if kind == 'offset':        # far from the origin: widths are lost in single precision
        lo = rng.uniform(1e3, 3e4, dim) * rng.choice([-1, 1], dim)
        return np.column_stack([lo, lo + rng.uniform(0.5, 3, dim)])
    lo = rng.uniform(-1e4, 1e4, dim)
    return np.column_stack([lo, lo + rng.uniform(1e2, 1e4, dim)])


def size(rng, lo, hi, big=2500, p=0.02):
    """A number of samples in [lo, hi), now and then far larger."""
    if rng.uniform() < p:
        return int(round(np.exp(rng.uniform(np.log(hi), np.log(big)))))
    return rng.randint(lo, hi)


def few(rng, lo, hi, more=8, p=0.03):
    """A dimension in [lo, hi), now and then a larger one (at most ``more``)."""
    return rng.randint(hi, more + 1) if rng.uniform() < p else rng.randint(lo, hi)


def points(rng, n, dom, kind=None):
    """Samples in a box: uniform, clustered, with exact duplicates, on a lattice."""
    dim = dom.shape[0]
    w = dom[:, 1] - dom[:, 0]
    kind = kind or rng.choice(['uniform', 'uniform', 'cluster', 'dups', 'edge'])
    u = rng.uniform(0, 1, (n, dim))
    if kind == 'cluster':
        c = rng.uniform(0.2, 0.8, (max(1, n // 6), dim))
        u = c[rng.randint(len(c), size=n)] + rng.normal(0, 0.05, (n, dim))
        u = np.clip(u, 0, 1)
    elif kind == 'dups' and n > 2:
        k = rng.randint(1, max(2, n // 3))
        u[rng.choice(n, k, replace=False)] = u[rng.randint(n, size=k)]
    elif kind == 'edge':
        m = rng.uniform(size=(n, dim)) < 0.15
        u[m] = rng.randint(0, 2, size=m.sum())
    elif kind == 'lattice':
        u = rng.randint(0, 6, size=(n, dim)) / 5.0
    x = dom[:, 0] + u * w
    if kind in ('dups', 'lattice') and dom.dtype.kind == 'i':
        x = np.round(x).astype(int)
    lay = rng.randint(6)        # memory layouts that hold the same numbers
    if lay == 0:
        return np.asfortranarray(x)
    if lay == 1:
        return np.repeat(x, 2, axis=0)[::2]
    return x


def probs(rng, n, zeros=True):
    """Probability vectors, with empty cells, tiny and dominating masses."""
    kind = rng.choice(['flat', 'dirichlet', 'spiky', 'tiny', 'single'])
    if kind == 'flat':
        p = np.ones(n)
    elif kind == 'dirichlet':
        p = rng.gamma(1.0, size=n) + 1e-12
    elif kind == 'spiky':
        p = rng.gamma(0.1, size=n) + 1e-300
    elif kind == 'tiny':
        p = 10.0 ** rng.uniform(-14, 0, n)
    else:
        p = np.zeros(n) if zeros else np.full(n, 1e-9)
        p[rng.randint(n)] = 1.0
    if zeros and kind != 'single' and n > 1 and rng.uniform() < 0.5:
        z = rng.choice(n, rng.randint(1, n), replace=False)
        p[z] = 0.0
    if p.sum() == 0:
        p[rng.randint(n)] = 1.0
    return p / p.sum()


def volumes(rng, n):
    kind = rng.choice(['flat', 'gamma', 'zeros', 'scales', 'unnorm', 'ints', 'minute'])
    if kind == 'ints':          # counts, as integers
        v = rng.randint(0, 6, n)
        v[rng.randint(n)] += 1
        return v
    if kind == 'flat':
        return np.ones(n) / n
    if kind == 'gamma':
        v = rng.gamma(2.0, size=n) + 1e-9
        return v / v.sum()
    if kind == 'zeros':
        v = rng.gamma(2.0, size=n)
        v[rng.uniform(size=n) < 0.3] = 0.0
        if v.sum() == 0:
            v[0] = 1.0
        return v / v.sum()
    if kind == 'scales':
        v = 10.0 ** rng.uniform(-8, 0, n)
        return v / v.sum()
    if kind == 'minute':        # absolute volumes of a tiny (or vast) domain
        return (rng.gamma(2.0, size=n) + 1e-3) * 10.0 ** rng.choice([-30, -18, -12, 12])
    return rng.gamma(2.0, size=n) * 10 + 1e-6


def perm_p(rng):
    return [1.0, 2.0, np.inf, 3.0][rng.choice(4, p=[0.25, 0.4, 0.25, 0.1])]
