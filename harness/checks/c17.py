"""C17: Lp generalized samples follow the uniform, normal and beta laws of their ball."""
import math
import numpy as np
from core import Kind

ID = 'C17'
COMM = 'real'
QUICK_X, THOROUGH_X = 10, 8
RULE = ('The three samplers for 1-15 dimensions, p from 0.4 to infinity, scalar and per-coordinate scales, '
        'locations, 1-4000 samples. Non-trivial: enough samples (100 or more) to judge the law.')
REQUIRE = ['laws_judged', 'sign_tests', 'law:uniform', 'law:normal', 'law:beta', 'p_infinite', 'vector_scale',
           'reproduced', 'independence']
ASSUMPTIONS = ['laws are judged by Kolmogorov-Smirnov distance at a one-in-1e9 level',
               'the scale of the generalized normal is that of the underlying gamma law (density '
               'proportional to exp(-|x|^p/scale)), as in the library BET adapts']


def setup():
    global L
    import bet.sampling.LpGeneralizedSamples as L


def ks(ctx, x, cdf, key, upto=np.inf, **d):
    """upto: beyond it the law is so steep (large p) that rounding alone moves the cdf."""
    x = np.sort(np.ravel(x))
    n = len(x)
    k = int((x <= upto).sum())
    u = cdf(x[:k])
    D = 0.0
    if k:
        D = max(np.max(np.arange(1, k + 1) / float(n) - u), np.max(u - np.arange(k) / float(n)))
    if k < n:
        D = max(D, abs(cdf(np.array([upto]))[0] - k / float(n)))
    ctx.ev('laws_judged')
    ctx.check(math.sqrt(n) * D < 3.5, key, distance=D, n=n, **d)


def pnorm(z, p):
    z = np.abs(z)
    if np.isinf(p):
        return z.max(axis=1)
    m = z.max(axis=1, keepdims=True)
    m = np.where(m == 0, 1.0, m)
    return m[:, 0] * ((z / m) ** p).sum(axis=1) ** (1.0 / p)


def case_law(ctx, rng):
    import scipy.special as sp
    law = str(rng.choice(['uniform', 'normal', 'beta']))
    dim = rng.randint(1, 7) if rng.randint(5) else rng.randint(7, 16)
    p = [0.4, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 8.0, 15.0, 40.0][rng.randint(10)]
    if law != 'beta' and rng.randint(5) == 0:
        p = np.inf
        ctx.ev('p_infinite')
    n = int(rng.choice([1, 2, 37, 400, 1000, 4000]))
    loc = None if rng.randint(2) else rng.uniform(-5, 5, dim)
    if rng.randint(3) == 0:
        scale = np.ones(dim)
        args = {}
    elif rng.randint(2):
        scale = np.full(dim, 10 ** rng.uniform(-2, 2))
        args = {'scale': float(scale[0])}
    else:
        scale = 10 ** rng.uniform(-2, 2, dim)
        args = {'scale': scale.copy()}
        ctx.ev('vector_scale')
    if loc is not None:
        args['loc'] = loc.copy()
    d = float(rng.choice([1, 2, 3.5]))
    if law == 'beta' and rng.randint(2):
        args['d'] = d
    else:
        d = 2.0
    if not (p == 2 and rng.randint(2)):
        args['p'] = p if rng.randint(2) or p != int(min(p, 99)) else int(p)
    ctx.describe(law=law, dim=dim, n=n, args=args)
    ctx.ev('law:' + law)
    fn = getattr(L, 'Lp_generalized_' + law)
    num = float(n) if rng.randint(4) == 0 else n
    seed = int(rng.randint(2 ** 31))
    np.random.seed(seed)
    x = ctx.call(law, fn, dim, num, **args)
    ctx.check(isinstance(x, np.ndarray) and x.shape == (n, dim), law + ':shape', shape=np.shape(x))
    ctx.check(np.all(np.isfinite(x)), law + ':finite')
    np.random.seed(seed)
    ctx.equal(ctx.call(law, fn, dim, num, **args), x, law + ':reproducible')
    ctx.ev('reproduced')
    if law == 'normal':
        scale = np.ones(dim) if np.isinf(p) else scale ** (1.0 / p)
    z = (x - (0 if loc is None else loc)) / scale
    slack = 1e-9 + (0 if loc is None else 1e-14 * np.abs(loc / scale).max())
    r = pnorm(z, p)
    if law != 'normal' or np.isinf(p):
        ctx.check(r.max() <= 1 + slack, law + ':outside-ball', worst=r.max())
    if n >= 100:
        pos = (z > 0).sum(axis=0)
        ctx.ev('sign_tests')
        ctx.check(np.all(np.abs(pos - n / 2.0) <= 3.5 * math.sqrt(n)), law + ':signs', positive=pos, n=n)
        if dim > 1:
            same = ((z[:, :1] > 0) == (z[:, 1:] > 0)).sum(axis=0)
            ctx.check(np.all(np.abs(same - n / 2.0) <= 3.5 * math.sqrt(n)), law + ':sign-pairs', same=same)
        if law == 'uniform':
            ks(ctx, r ** dim, lambda u: np.clip(u, 0, 1), 'uniform:radius')
        elif law == 'beta':
            ks(ctx, r ** p, lambda u: sp.betainc(dim / p, d / p, np.clip(u, 0, 1)), 'beta:radius',
               upto=0.999 if p > 8 else np.inf)
        elif np.isinf(p):
            for i in range(dim):
                ks(ctx, np.abs(z[:, i]), lambda u: np.clip(u, 0, 1), 'normal:coordinate')
        else:
            for i in range(dim):
                ks(ctx, np.abs(z[:, i]) ** p, lambda u: sp.gammainc(1 / p, u), 'normal:coordinate')
            ks(ctx, r ** p, lambda u: sp.gammainc(dim / p, u), 'normal:radius')
        if dim > 1:
            if np.isinf(p):
                if law == 'uniform':
                    for i in range(dim):
                        ks(ctx, np.abs(z[:, i]), lambda u: np.clip(u, 0, 1), 'uniform:coordinate')
            else:
                far = r > np.median(r)
                top = 0.999 if p > 8 else np.inf
                for i in range(dim):
                    share = (np.abs(z[:, i]) / np.where(r == 0, 1, r)) ** p
                    law_of = lambda u: sp.betainc(1 / p, (dim - 1) / p, np.clip(u, 0, 1))
                    ks(ctx, share, law_of, law + ':direction', coordinate=i, upto=top)
                    ks(ctx, share[far], law_of, law + ':direction-given-radius', coordinate=i, upto=top)
                    ctx.ev('independence')
    ctx.note(x, nontrivial=n >= 100)


KINDS = [Kind('law', case_law, 1600, 30000)]
