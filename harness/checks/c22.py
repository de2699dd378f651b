"""C22: distances between measures are those of the densities at the comparison points."""
import math
import numpy as np
from core import Kind
import gen
import oracle
from checks import c07

ID = 'C22'
COMM = 'real'
QUICK_X, THOROUGH_X = 2, 3
RULE = ('Pairs of measures (KDE, Gaussian mixture, random variables, Voronoi; initial or updated; of sets or of '
        'either side of discretizations; 1-3 dimensions, different numbers of samples and domains), compared by '
        'every functional, normalised or not, in random order, at points given as arrays, sets or numbers and '
        'replaced in between, and by marginals on given or derived intervals. Non-trivial: the measures differ.')
REQUIRE = ['joint_judged', 'marginal_judged', 'quad_judged', 'normalized', 'points:array', 'points:set',
           'points:local', 'points:number', 'points_replaced', 'identity', 'symmetry', 'refusals',
           'init', 'outputs', 'interval:given', 'interval:domains', 'interval:values', 'interval:unbounded', 'both_zero',
           'functional:tv', 'functional:mink', 'functional:norm', 'functional:2', 'functional:sqhell',
           'functional:hell', 'functional:kl', 'functional:callable', 'voronoi', 'factor', 'supports']
ASSUMPTIONS = ['the Minkowski distance and norm of marginals are not averaged; quadrature is judged for smooth '
               'marginals to 1e-4, to 3% where the integrand has kinks']

NAMES = {'tv': ['tv', 'totvar', 'total variation', 'total-variation', '1'], 'mink': ['mink', 'minkowski'],
         'norm': ['norm'], '2': ['2', '2-norm', 'euclidean'], 'sqhell': ['sqhell', 'sqhellinger'],
         'hell': ['hell', 'hellinger'], 'kl': ['kl', 'k-l', 'kullback-leibler', 'entropy']}


def setup():
    global S, C
    import bet.sample as S
    import bet.postProcess.compareP as C
    c07.setup()


class M(object):
    """One side of a comparison: a set, whether its initial measure is meant, and its densities."""


def side(ctx, rng, dim, dom, smooth=False, first=None):
    m = M()
    m.init = bool(rng.randint(2))
    n = gen.size(rng, 2, 40, 1000)
    m.x = gen.points(rng, n, dom, 'uniform')
    m.s = S.sample_set(dim)
    m.s.set_values(m.x.copy())
    m.dom = None
    if rng.randint(2):
        w = dom[:, 1] - dom[:, 0]
        m.dom = dom + np.outer(w, [1, 1]) * rng.uniform(-0.4, 0.4, (dim, 2))
        m.s.set_domain(m.dom.copy())
    if not smooth and not m.init and rng.randint(3) == 0:
        m.kind = 'voronoi'
        m.s.set_prob_type('voronoi')
        pr = rng.dirichlet(np.ones(n))
        vol = rng.dirichlet(np.ones(n))
        m.s.set_probabilities(pr.copy())
        m.s.set_volumes(vol.copy())
        size = 1.0 if m.dom is None else np.prod(m.dom[:, 1] - m.dom[:, 0])

        def joint(t, x=m.x, d=pr / (vol * size)):
            return d[np.argmin(oracle.dist_matrix(t, x, 2), axis=1)]

        def marg(t, i, x=m.x, pr=pr):
            return oracle.KDE(x[:, i], pr)(t)
        m.joint, m.marg = joint, marg
        ctx.ev('voronoi')
    else:
        k, p, m.joint, m.marg = measure(ctx, rng, dim, dom, smooth)
        m.kind = k
        if m.dom is not None and rng.randint(3) == 0:       # as of a random variable without bounds
            m.dom = np.where(rng.uniform(size=(dim, 2)) < 0.3, [[-np.inf, np.inf]], m.dom)
            m.s.set_domain(m.dom.copy())
        k2, p2, _, _ = c07.measure(ctx, rng, dim, dom)      # the one that is not meant
        if m.init:
            k, p, k2, p2 = k2, p2, k, p
            ctx.ev('init')
        m.s.set_prob_type(k)
        m.s.set_prob_parameters(p)
        m.s.set_prob_type_init(k2)
        m.s.set_prob_parameters_init(p2)
    return m


def measure(ctx, rng, dim, dom, smooth):
    if not smooth:
        return c07.measure(ctx, rng, dim, dom)
    w = dom[:, 1] - dom[:, 0]
    loc, sc = dom[:, 0] + w * rng.uniform(0.2, 0.8, dim), w * rng.uniform(0.3, 1, dim)
    par = [['norm', {'loc': loc[i], 'scale': sc[i]}] for i in range(dim)]

    def marg(t, i):
        return oracle.norm_pdf(t, loc[i], sc[i])

    def joint(t):
        return np.prod([marg(t[:, i], i) for i in range(dim)], axis=0)
    return 'rv', par, joint, marg


def compare(ctx, rng, a, b):
    """The comparison object, of sets or of discretizations holding them."""
    kw = {}
    if a.init or rng.randint(2):
        kw['set1_init'] = a.init
    if b.init or rng.randint(2):
        kw['set2_init'] = b.init
    o1, o2 = a.s, b.s
    if rng.randint(2):
        outputs = rng.randint(2)

        def wrap(m):
            other = S.sample_set(a.s.get_dim() + (0 if rng.randint(2) else 1))
            other.set_values(rng.uniform(size=(len(m.x), other.get_dim())))
            return S.discretization(other, m.s) if outputs else S.discretization(m.s, other)
        o1, o2 = wrap(a), wrap(b)
        if outputs:
            kw['inputs'] = False
            ctx.ev('outputs')
        elif rng.randint(2):
            kw['inputs'] = True
    return ctx.call('compare', C.compare, o1, o2, **kw)


def metric(u, v):
    return float(np.max(np.abs(u - v)))


def wanted(f, u, v, factor, avg, kw):
    """Distances by definition; avg: whether Minkowski and norm are averaged too."""
    if f == 'tv':
        return 0.5 * factor * np.abs(u - v).sum()
    if f == 'mink':
        p = kw.get('p', 2)
        return (factor if avg else 1.0) * (np.abs(u - v) ** p).sum() ** (1.0 / p)
    if f == 'norm':
        return (factor if avg else 1.0) * math.sqrt(((u - v) ** 2).sum())
    if f == '2':
        return math.sqrt(factor * ((u - v) ** 2).sum())
    if f == 'sqhell':
        return 0.5 * factor * ((np.sqrt(u) - np.sqrt(v)) ** 2).sum()
    if f == 'hell':
        return math.sqrt(0.5 * factor * ((np.sqrt(u) - np.sqrt(v)) ** 2).sum())
    if f == 'kl':
        u, v = u / u.sum(), v / v.sum()
        k = u > 0
        if (v[k] == 0).any():
            return np.inf
        return (u[k] * np.log(u[k] / v[k])).sum()
    return metric(u, v)


def pick(ctx, rng):
    f = str(rng.choice(['tv', 'mink', 'norm', '2', 'sqhell', 'hell', 'kl', 'callable']))
    kw = {}
    if f == 'mink' and rng.randint(2):
        kw['p'] = int(rng.choice([1, 2, 3]))
    name = metric if f == 'callable' else str(rng.choice(NAMES[f]))
    ctx.ev('functional:' + f)
    return f, name, kw


def points(ctx, rng, m, a, b, dim, dom):
    """Set comparison points; returns them with the densities there."""
    k = rng.randint(4)
    n = gen.size(rng, 1, 60, 5000)
    w = dom[:, 1] - dom[:, 0]
    t = dom[:, 0] + w * rng.uniform(-0.3, 1.3, (n, dim))
    if k == 0:
        ctx.call('set_compare_set', m.set_compare_set, t.copy())
        ctx.ev('points:array')
    elif k < 3:
        c = S.sample_set(dim)
        if k == 1:
            c.set_values(t.copy())
            ctx.ev('points:set')
        else:
            c.set_values_local(t.copy())
            ctx.ev('points:local')
        ctx.call('set_compare_set', m.set_compare_set, c)
    else:
        n = int(rng.choice([1, 7, 400]))
        f = float(rng.choice([0.0, 0.0, 0.1, 1.0]))
        if f:
            ctx.ev('factor')
        ctx.call('set_compare_set', m.set_compare_set, n, **({'compare_factor': f} if f or rng.randint(2) else {}))
        t = np.array(m.compare_vals)
        ctx.check(t.shape == (n, dim), 'points:shape', shape=t.shape, wanted=(n, dim))
        both = np.vstack([a.x, b.x])
        lo, hi = both.min(axis=0), both.max(axis=0)
        d = f * (hi - lo)
        u = (t - (lo - d)) / (hi - lo + 2 * d)
        ctx.check(u.min() >= -1e-9 and u.max() <= 1 + 1e-9, 'points:box', points=t, low=lo - d, high=hi + d)
        if n >= 400:
            e = np.arange(n) / float(n)
            for i in range(dim):
                v = np.sort(u[:, i])
                ks = max((v - e).max(), (e + 1.0 / n - v).max())
                ctx.check(ks * math.sqrt(n) < 3.4, 'points:uniform', statistic=ks, dimension=i)
            for i in range(dim):
                for j in range(i):
                    c = np.corrcoef(u[:, i], u[:, j])[0, 1]
                    ctx.check(abs(c) * math.sqrt(n) < 7, 'points:dependent', correlation=c)
        ctx.ev('points:number')
    return t


def usable(a, b, t):
    """Points on boundaries of Voronoi cells or of supports are not judged."""
    for m in (a, b):
        if m.kind == 'voronoi' and len(m.x) > 1:
            D = np.sort(oracle.dist_matrix(t, m.x, 2), axis=1)
            if (D[:, 1] - D[:, 0] < 1e-9 * (1 + np.abs(t).max())).any():
                return False
    return True


def case_joint(ctx, rng):
    dim = gen.few(rng, 1, 4, 6)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    a, b = side(ctx, rng, dim, dom), side(ctx, rng, dim, dom)
    m = compare(ctx, rng, a, b)
    ctx.describe(dim=dim, left=a.kind, right=b.kind, init=(a.init, b.init))
    hist = []
    for r in range(rng.randint(1, 4)):
        if r:
            ctx.ev('points_replaced')
        t = points(ctx, rng, m, a, b, dim, dom)
        if not usable(a, b, t):
            continue
        u, v = a.joint(t), b.joint(t)
        if rng.randint(4) == 0:
            ctx.call('evaluate_pdfs', m.evaluate_pdfs)
            z = int(((u == 0) & (v == 0)).sum())
            ctx.check(int(m.pdfs_zero) == z, 'zeros', got=m.pdfs_zero, want=z)
            if z:
                ctx.ev('both_zero')
        for _ in range(rng.randint(1, 7)):
            f, name, kw = pick(ctx, rng)
            norm = bool(rng.randint(2)) and u.sum() > 1e-100 and v.sum() > 1e-100
            if f == 'kl' and not (u.sum() > 1e-100 and v.sum() > 1e-100):
                continue
            uu, vv, factor = (u / u.sum(), v / v.sum(), 1.0) if norm else (u, v, 1.0 / len(t))
            k = dict(kw)
            if norm:
                k['normalize'] = True
                ctx.ev('normalized')
            with np.errstate(all='ignore'):
                got = ctx.call('distance', m.distance, name, **k)
            hist.append((f, norm))
            sc = max(uu.max(), vv.max(), 1e-300)
            want = wanted(f, uu, vv, factor, True, kw)
            tol = 1e-9 * sc * factor * len(t)
            if f in ('2', 'hell'):
                tol = 1e-7 * max(sc, math.sqrt(sc))
            ctx.check(np.ndim(got) == 0, 'distance:shape', got=got)
            ctx.close(got, want, 'distance:' + f, rtol=1e-6, atol=tol, normalized=norm, history=hist)
            if norm and f in ('tv', 'sqhell', 'hell'):
                ctx.check(-1e-12 <= got <= 1 + 1e-9, 'distance:range', functional=f, got=got)
            ctx.ev('joint_judged')
        ctx.note(a.kind, b.kind, a.x, t)


def case_metric(ctx, rng):
    """d(a,a) = 0 and d(a,b) = d(b,a), whatever is compared first."""
    dim = gen.few(rng, 1, 4, 6)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    a, b = side(ctx, rng, dim, dom), side(ctx, rng, dim, dom)
    t = gen.points(rng, gen.size(rng, 1, 60, 3000), dom, 'uniform')
    ms = [compare(ctx, rng, p, q) for p, q in ((a, a), (a, b), (b, a))]
    for m in ms:
        ctx.call('set_compare_set', m.set_compare_set, t.copy())
    i = rng.randint(dim)
    for _ in range(6):
        f, name, kw = pick(ctx, rng)
        norm = bool(rng.randint(2))
        if not (a.joint(t).sum() > 1e-100 and b.joint(t).sum() > 1e-100):
            continue
        with np.errstate(all='ignore'):
            d = [ctx.call('distance', m.distance, name, normalize=norm, **kw) for m in ms]
            g = [ctx.call('distance_marginal', m.distance_marginal, i, interval=list(dom[i]), normalize=norm,
                          functional=name, **kw) for m in ms]
        for x, key in ((d, 'joint'), (g, 'marginal')):
            ctx.close(x[0], 0.0, 'identity:' + key, atol=1e-12, functional=f)
            ctx.ev('identity')
            if f != 'kl':
                ctx.close(x[1], x[2], 'symmetry:' + key, rtol=1e-12, atol=1e-14, functional=f)
                ctx.check(x[1] >= 0, 'nonnegative:' + key, functional=f, got=x[1])
                ctx.ev('symmetry')
    ctx.note(a.kind, b.kind, a.x, t)


def span(ctx, rng, a, b, dom, i, kw):
    """Choose the interval of a marginal comparison and say what it has to be."""
    w = dom[i, 1] - dom[i, 0]
    if rng.randint(2):
        iv = [dom[i, 0] + w * rng.uniform(-0.5, 0.3), dom[i, 1] + w * rng.uniform(-0.3, 0.5)]
        kw['interval'] = [iv, tuple(iv), np.array(iv)][rng.randint(3)]
        ctx.ev('interval:given')
        if rng.randint(3) == 0:
            kw['compare_factor'] = 0.5          # only used without an interval
        return iv
    f = float(rng.choice([0.0, 0.0, 0.2, 0.5]))
    if f:
        kw['compare_factor'] = f
        ctx.ev('factor')
    if a.dom is not None and b.dom is not None and np.isfinite([a.dom[i], b.dom[i]]).all():
        lo, hi = min(a.dom[i, 0], b.dom[i, 0]), max(a.dom[i, 1], b.dom[i, 1])
        ctx.ev('interval:domains')
    else:
        x = np.concatenate([a.x[:, i], b.x[:, i]])
        lo, hi = x.min(), x.max()
        ctx.ev('interval:values')
        if a.dom is not None and b.dom is not None:
            ctx.ev('interval:unbounded')
    return [lo - f * (hi - lo), hi + f * (hi - lo)]


def case_marginal(ctx, rng):
    dim = gen.few(rng, 1, 4, 6)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro']))
    a, b = side(ctx, rng, dim, dom), side(ctx, rng, dim, dom)
    m = compare(ctx, rng, a, b)
    ctx.describe(dim=dim, left=a.kind, right=b.kind, init=(a.init, b.init))
    for _ in range(rng.randint(1, 6)):
        i = rng.randint(dim)
        f, name, fkw = pick(ctx, rng)
        kw = dict(fkw)
        iv = span(ctx, rng, a, b, dom, i, kw)
        num = 1000
        if rng.randint(2):
            num = int(rng.choice([2, 11, 300]))
            kw['num_points'] = num
        t = np.linspace(iv[0], iv[1], num)
        u, v = a.marg(t, i), b.marg(t, i)
        # a support that ends at a grid point: rounding decides on which side the point is
        eps = 1e-10 * (iv[1] - iv[0])
        if not all(np.allclose(g.marg(t + e, i), g.marg(t, i), rtol=1e-4, atol=1e-7 * g.marg(t, i).max())
                   for g in (a, b) for e in (eps, -eps)):
            continue
        norm = bool(rng.randint(2)) and u.sum() > 1e-100 and v.sum() > 1e-100
        if f == 'kl' and not (u.sum() > 1e-100 and v.sum() > 1e-100):
            continue
        if f == 'kl' and ((v < 1e-250) & (u > 0)).any():
            continue
        uu, vv, factor = (u / u.sum(), v / v.sum(), 1.0) if norm else (u, v, (iv[1] - iv[0]) / num)
        if norm:
            kw['normalize'] = True
            ctx.ev('normalized')
        with np.errstate(all='ignore'):
            got = ctx.call('distance_marginal', m.distance_marginal, i, functional=name, **kw)
        sc = max(uu.max(), vv.max(), 1e-300)
        want = wanted(f, uu, vv, factor, False, fkw)
        tol = 1e-8 * max(sc, math.sqrt(sc)) * max(1, factor * num)
        if f in ('2', 'hell'):
            tol = 1e-5 * max(sc, math.sqrt(sc))
        ctx.close(got, want, 'marginal:' + f, rtol=1e-5, atol=tol, normalized=norm, index=i, interval=iv,
                  arguments=kw)
        ctx.ev('marginal_judged')
        ctx.note(a.kind, b.kind, a.x, i, iv, f)


def case_quad(ctx, rng):
    dim = gen.few(rng, 1, 4, 6)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints']))
    a, b = side(ctx, rng, dim, dom, True), side(ctx, rng, dim, dom, True)
    m = compare(ctx, rng, a, b)
    for _ in range(rng.randint(1, 4)):
        i = rng.randint(dim)
        f = str(rng.choice(['tv', '2', 'norm', 'sqhell', 'hell', 'kl', 'callable']))
        ctx.ev('functional:' + f)
        kw = {}
        iv = span(ctx, rng, a, b, dom, i, kw)
        t = np.linspace(iv[0], iv[1], 4001)
        u, v = a.marg(t, i), b.marg(t, i)
        fun = {'tv': lambda u, v: 0.5 * np.abs(u - v), '2': lambda u, v: (u - v) ** 2, 'norm': lambda u, v: u - v,
               'sqhell': lambda u, v: 0.5 * (np.sqrt(u) - np.sqrt(v)) ** 2,
               'hell': lambda u, v: 0.5 * (np.sqrt(u) - np.sqrt(v)) ** 2,
               'kl': lambda u, v: u * np.log(u / v), 'callable': lambda u, v: (u - v) ** 4}[f]
        name = fun if f == 'callable' else str(rng.choice(NAMES[f]))
        y = fun(u, v)
        want = np.sum(0.5 * (y[1:] + y[:-1])) * (t[1] - t[0])
        size = np.sum(np.abs(y)) * (t[1] - t[0])
        if f in ('2', 'hell'):
            want = math.sqrt(max(want, 0))
            size = math.sqrt(size)
        got = ctx.call('distance_marginal_quad', m.distance_marginal_quad, i, functional=name, **kw)
        ctx.check(np.size(got) == 1, 'quad:shape', got=got)
        tol = 3e-2 if f == 'tv' else 1e-4
        ctx.close(float(got), want, 'quad:' + f, rtol=tol, atol=tol * size + 1e-6, index=i, interval=iv)
        ctx.ev('quad_judged')
        ctx.note(a.x, i, iv, f)


def case_quad_support(ctx, rng):
    """The divergence of a measure from one that is positive where it vanishes: nothing where it has no mass."""
    lo, w = rng.uniform(-3, 3), rng.uniform(0.5, 2)
    a = S.sample_set(1)
    a.set_values(rng.uniform(lo, lo + w, (5, 1)))
    a.set_prob_type('rv')
    a.set_prob_parameters([['uniform', {'loc': lo, 'scale': w}]])
    b = S.sample_set(1)
    b.set_values(rng.uniform(lo, lo + w, (5, 1)))
    loc, sc = lo + w * rng.uniform(), w * rng.uniform(0.5, 2)
    b.set_prob_type('rv')
    b.set_prob_parameters([['norm', {'loc': loc, 'scale': sc}]])
    m = C.compare(a, b)
    name = str(rng.choice(NAMES['kl']))
    if rng.randint(2):
        iv = [lo + 1.01 * w, lo + 2 * w]
        want = 0.0
    else:
        u = np.sort(rng.uniform(lo, lo + w, 2))
        iv = [u[0], u[1]]
        t = np.linspace(iv[0], iv[1], 4001)
        y = np.log(oracle.norm_pdf(t, loc, sc) * w) / -w
        want = np.sum(0.5 * (y[1:] + y[:-1])) * (t[1] - t[0])
    ctx.describe(interval=iv, support=(lo, lo + w), normal=(loc, sc))
    got = ctx.call('distance_marginal_quad', m.distance_marginal_quad, 0, interval=iv, functional=name)
    ctx.close(float(got), want, 'quad:support', rtol=1e-4, atol=1e-5)
    ctx.ev('supports')
    ctx.note(lo, w, iv)


def case_refuse(ctx, rng):
    dim = gen.few(rng, 1, 4, 6)
    dom = gen.domain(rng, dim, 'unit')
    a, b = side(ctx, rng, dim, dom), side(ctx, rng, dim, dom)
    c = side(ctx, rng, dim + 1, gen.domain(rng, dim + 1, 'unit'))
    ctx.ev('refusals')
    k = rng.randint(6)
    if k == 0:
        ctx.raises('dimensions', S.dim_not_matching, C.compare, a.s, c.s)
    elif k == 1:
        bad = [None, 3, a.x, [a.s]][rng.randint(4)]
        ctx.raises('not-a-set', S.wrong_input, C.compare, *((a.s, bad) if rng.randint(2) else (bad, a.s)))
    else:
        m = C.compare(a.s, b.s, set1_init=a.init, set2_init=b.init)
        if k == 2:
            ctx.raises('no-points', S.wrong_input, m.distance)
        elif k == 3:
            ctx.raises('points-dimension', S.dim_not_matching, m.set_compare_set, c.s)
        elif k == 4:
            ctx.raises('points-dimension', S.dim_not_matching, m.set_compare_set, c.x)
        else:
            ctx.raises('points-type', S.wrong_input, m.set_compare_set, [None, 'x', 3.5, [1]][rng.randint(4)])
    ctx.note(k, a.x)


KINDS = [Kind('joint', case_joint, 500, 8000), Kind('metric', case_metric, 120, 1500),
         Kind('marginal', case_marginal, 300, 5000), Kind('quad', case_quad, 150, 2000),
         Kind('quad-support', case_quad_support, 100, 1000),
         Kind('refuse', case_refuse, 60, 300)]
