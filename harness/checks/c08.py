"""C08: samplers draw from the distribution, design or grid they are asked for."""
import math
import numpy as np
from core import Kind
import gen
import oracle

ID = 'C08'
COMM = 'real'
QUICK_X, THOROUGH_X = 10, 8
RULE = ('Random variables (seven families, every documented form of rv), Latin hypercubes (every '
        'criterion) and regular grids in 1-5 dimensions on all domain scales, given as dimension, '
        'domain or sample set, module-level and through sampler objects. Non-trivial: more than '
        'one sample.')
REQUIRE = ['sampler_globalized', 'distributions_judged', 'strata_judged', 'grid_points', 'form:str', 'form:pair',
           'form:list', 'obj:int', 'obj:domain', 'obj:set', 'refusals', 'reproduced', 'not_globalized']
ASSUMPTIONS = ['distributions are judged by Kolmogorov-Smirnov distance at a one-in-1e9 level',
               'numpy\'s global generator is the source of randomness; the correlation criterion of pyDOE is '
               'left out because pyDOE itself can return nothing for it']


def setup():
    global S, B
    import bet.sample as S
    import bet.sampling.basicSampling as B


def as_obj(ctx, rng, dim, dom, force_dom=False):
    """The three ways to say what to sample: dimension, domain array, sample set."""
    k = rng.choice(['int', 'domain', 'set', 'set_dom'])
    if force_dom and k in ('int', 'set'):
        k = 'domain'
    ctx.ev('obj:' + ('set' if k.startswith('set') else str(k)))
    if k == 'int':
        return int(dim), None
    if k == 'domain':
        return dom.copy(), dom
    s = [S.sample_set, S.sample_set][0](dim)
    if k == 'set_dom':
        s.set_domain(dom.copy())
        return s, dom
    return s, None


def family(rng, dom_i):
    """(name, args, cdf) of one continuous distribution."""
    import scipy.special as sp
    loc, sc = float(rng.uniform(-5, 5)), float(10 ** rng.uniform(-2, 2))
    k = rng.randint(6)
    if k == 0:
        return 'uniform', {'loc': loc, 'scale': sc}, lambda t: np.clip((t - loc) / sc, 0, 1), (loc, loc + sc)
    if k == 1:
        return 'norm', {'loc': loc, 'scale': sc}, lambda t: sp.ndtr((t - loc) / sc), (-np.inf, np.inf)
    if k == 2:
        a, b = rng.uniform(0.7, 5, 2)
        return 'beta', {'a': a, 'b': b, 'loc': loc, 'scale': sc}, \
            lambda t: sp.betainc(a, b, np.clip((t - loc) / sc, 0, 1)), (loc, loc + sc)
    if k == 3:
        return 'expon', {'loc': loc, 'scale': sc}, \
            lambda t: 1 - np.exp(-np.maximum(t - loc, 0) / sc), (loc, np.inf)
    if k == 4:
        a = rng.uniform(0.8, 6)
        return 'gamma', {'a': a, 'loc': loc, 'scale': sc}, \
            lambda t: sp.gammainc(a, np.maximum(t - loc, 0) / sc), (loc, np.inf)
    return 'logistic', {'loc': loc, 'scale': sc}, \
        lambda t: 1 / (1 + np.exp(-(t - loc) / sc)), (-np.inf, np.inf)


def ks(ctx, x, cdf, key, **d):
    n = len(x)
    u = cdf(np.sort(x))
    D = max(np.max(np.arange(1, n + 1) / float(n) - u), np.max(u - np.arange(n) / float(n)))
    ctx.ev('distributions_judged')
    ctx.check(math.sqrt(n) * D < 3.4, key, distance=D, n=n, **d)


def draw(ctx, rng, obj):
    """Call the module function or a sampler's method."""
    if rng.randint(2):
        return lambda name, *a, **k: ctx.call(name, getattr(B, name), *a, **k), None
    sam = B.sampler(None)
    return lambda name, *a, **k: ctx.call(name, getattr(sam, name), *a, **k), sam


def case_random(ctx, rng):
    dim = gen.few(rng, 1, 6, 12)
    dom = gen.domain(rng, dim)
    n = int(rng.choice([1, 2, 7, 50, 400, 1500]))
    form = rng.choice(['str', 'pair', 'list'])
    ctx.ev('form:' + form)
    if form == 'str':
        obj, d = as_obj(ctx, rng, dim, dom)
        name = rng.choice(['uniform', 'r', 'random', 'norm', 'expon'])
        rv = str(name)
        real = 'uniform' if rv in ('r', 'random') else rv
        lo = np.zeros(dim) if d is None else d[:, 0]
        sc = np.ones(dim) if d is None else d[:, 1] - d[:, 0]
        import scipy.special as sp
        f = {'uniform': lambda t: np.clip(t, 0, 1), 'norm': sp.ndtr,
             'expon': lambda t: 1 - np.exp(-np.maximum(t, 0))}[real]
        cdfs = [lambda t, i=i: f((t - lo[i]) / sc[i]) for i in range(dim)]
        support = {'uniform': lambda i: (lo[i], lo[i] + sc[i]),
                   'norm': lambda i: (-np.inf, np.inf),
                   'expon': lambda i: (lo[i], np.inf)}[real]
        supp = [support(i) for i in range(dim)]
        names = [real] * dim
    else:
        obj, _ = as_obj(ctx, rng, dim, dom)
        if form == 'pair':
            nm, a, c, sup = family(rng, dom[0])
            rv = [nm, a] if rng.randint(2) else (nm, a)
            cdfs, supp, names = [c] * dim, [sup] * dim, [nm] * dim
        else:
            fs = [family(rng, dom[i]) for i in range(dim)]
            rv = [[x[0], x[1]] if rng.randint(2) else (x[0], x[1]) for x in fs]
            if rng.randint(2):
                rv = tuple(rv)
            cdfs, supp, names = [x[2] for x in fs], [x[3] for x in fs], [x[0] for x in fs]
    glob = bool(rng.randint(4))
    call, sam = draw(ctx, rng, obj)
    ctx.describe(dim=dim, n=n, rv=rv, globalize=glob)
    seed = int(rng.randint(2 ** 31))
    np.random.seed(seed)
    opt = {} if glob and rng.randint(2) else {'globalize': glob}
    s = call('random_sample_set', rv, obj, n, **opt)
    if isinstance(obj, S.sample_set):
        ctx.check(s is obj, 'random:other-object')
    if sam is not None:
        ctx.check(sam.input_sample_set is s, 'random:not-in-sampler')
    if glob:
        v = s.get_values()
    else:
        ctx.check(s.get_values() is None, 'random:globalized')
        ctx.ev('not_globalized')
        v = s.get_values_local()
        if sam is not None and rng.randint(2):
            ctx.call('local_to_global', sam.local_to_global)
            ctx.equal(s.get_values(), v, 'random:local_to_global')
            ctx.ev('sampler_globalized')
    ctx.check(v.shape == (n, dim), 'random:shape', shape=v.shape, want=(n, dim))
    ctx.check(s.check_num() == n, 'random:num', got=s.check_num())
    for i in range(dim):
        ks(ctx, v[:, i], cdfs[i], 'random:distribution', index=i, family=names[i])
        lo_i, hi_i = supp[i]
        tol = 1e-9 * (abs(lo_i if np.isfinite(lo_i) else 0) +
                      (hi_i - lo_i if np.isfinite(hi_i - lo_i) else 0))
        ctx.check(v[:, i].min() >= lo_i - tol and v[:, i].max() <= hi_i + tol, 'random:support')
        ctx.close(s.get_domain()[i], [lo_i, hi_i], 'random:domain', rtol=1e-9)
    if n >= 50 and dim > 1:
        r = np.argsort(np.argsort(v, axis=0), axis=0).astype(float)
        c = np.corrcoef(r.T)[np.triu_indices(dim, 1)]
        ctx.check(bool(np.all(np.abs(c) < 6.8 / math.sqrt(n))), 'random:dependent', corr=c, n=n)
    # the initial density is the one the samples were drawn from
    ctx.check(s.get_prob_type_init() == 'rv', 'random:init-type', got=s.get_prob_type_init())
    i = rng.randint(dim)
    t = np.quantile(v[:, i], [0.25, 0.5, 0.75]) if n > 5 else v[:1, i]
    h = 1e-5 * (np.ptp(v[:, i]) or abs(v[0, i]) or 1)
    num = (cdfs[i](t + h) - cdfs[i](t - h)) / (2 * h)
    got = ctx.call('marginal_pdf_init', s.marginal_pdf_init, t, i)
    if n > 5:
        ctx.close(got, num, 'random:init-density', rtol=2e-2, atol=1e-6 * np.max(np.abs(num)))
    if rng.randint(4) == 0 and not isinstance(obj, S.sample_set):
        np.random.seed(seed)
        s2 = ctx.call('random_sample_set', B.random_sample_set, rv, obj, n)
        ctx.equal(s2.get_values(), v, 'random:not-reproducible')
        s3 = ctx.call('random_sample_set', B.random_sample_set, rv, obj, n)
        ctx.check(not np.any(np.all(s3.get_values() == v, axis=1)), 'random:repeats-itself')
        ctx.ev('reproduced')
    ctx.note(v, nontrivial=n > 1)


def case_lhs(ctx, rng):
    dim = gen.few(rng, 1, 6, 12)
    dom = gen.domain(rng, dim)
    n = int(rng.choice([1, 2, 3, 10, 40, 90])) if rng.randint(15) else rng.randint(90, 1200)
    obj, d = as_obj(ctx, rng, dim, dom)
    d = np.repeat([[0., 1.]], dim, axis=0) if d is None else d
    crit = [None, 'center', 'c', 'maximin', 'm', 'centermaximin'][rng.randint(6)]
    if n < 3 or n > 90 or dim == 1:
        crit = [None, 'center'][rng.randint(2)]
    via_random = rng.randint(5) == 0
    glob = bool(rng.randint(4))
    call, sam = draw(ctx, rng, obj)
    ctx.describe(dim=dim, n=n, criterion=crit, globalize=glob, alias=via_random)
    opt = {} if glob and rng.randint(2) else {'globalize': glob}
    if via_random:
        crit = 'center'
        s = call('random_sample_set', 'lhs', obj, n, **opt)
    else:
        s = call('lhs_sample_set', obj, n, crit, **opt)
    if isinstance(obj, S.sample_set):
        ctx.check(s is obj, 'lhs:other-object')
    if sam is not None:
        ctx.check(sam.input_sample_set is s, 'lhs:not-in-sampler')
    if not glob:
        ctx.check(s.get_values() is None, 'lhs:globalized')
        ctx.ev('not_globalized')
    v = s.get_values() if glob else s.get_values_local()
    ctx.check(v.shape == (n, dim), 'lhs:shape', shape=v.shape)
    ctx.equal(s.get_domain(), d, 'lhs:domain')
    u = (v - d[:, 0]) / (d[:, 1] - d[:, 0])
    for i in range(dim):
        k = u[:, i] * n
        if crit is not None and crit.startswith('c'):
            ctx.close(np.sort(k), np.arange(n) + 0.5, 'lhs:centres', rtol=0, atol=1e-6 * n)
        # each of the n slabs holds exactly one sample
        ctx.check(bool(np.all((np.sort(k) >= np.arange(n) - 1e-7) &
                              (np.sort(k) <= np.arange(1, n + 1) + 1e-7))), 'lhs:strata', slabs=k)
        ctx.ev('strata_judged', n)
    if n >= 40 and dim > 1:
        c = np.corrcoef(u.T)[np.triu_indices(dim, 1)]
        ctx.check(bool(np.all(np.abs(c) < 0.95)), 'lhs:diagonal', corr=c)
    ctx.note(v, nontrivial=n > 1)


def case_regular(ctx, rng):
    dim = gen.few(rng, 1, 5, 7)
    dom = gen.domain(rng, dim)
    obj, d = as_obj(ctx, rng, dim, dom)
    d = np.repeat([[0., 1.]], dim, axis=0) if d is None else d
    top = {1: 30, 2: 10, 3: 6, 4: 4}.get(dim, 3)
    if rng.randint(3) == 0:
        k = int(rng.randint(1, top))
        arg, per = k, [k] * dim
    else:
        per = [int(k) for k in rng.randint(1, top, dim)]
        arg = per if rng.randint(2) else np.array(per)
    call, sam = draw(ctx, rng, obj)
    ctx.describe(dim=dim, per=per, domain=d)
    had = obj.get_values() if isinstance(obj, S.sample_set) else None
    args = [obj, arg]
    if rng.randint(6) == 0:
        args, per = [obj], [1] * dim
    s = call('regular_sample_set', *args)
    if isinstance(obj, S.sample_set):
        ctx.check(s is not obj and obj.get_values() is had, 'regular:changes-argument')
    if sam is not None:
        ctx.check(sam.input_sample_set is s, 'regular:not-in-sampler')
    v = s.get_values()
    n = int(np.prod(per))
    ctx.check(v.shape == (n, dim), 'regular:shape', shape=v.shape, want=(n, dim))
    ctx.equal(s.get_values_local(), v, 'regular:local')
    ctx.close(s.get_domain(), d, 'regular:domain', rtol=1e-12)
    u = (v - d[:, 0]) / (d[:, 1] - d[:, 0]) * np.array(per) - 0.5
    ctx.check(bool(np.all(np.abs(u - np.round(u)) < 1e-6)), 'regular:not-midpoints', at=u)
    idx = np.round(u).astype(int)
    ctx.check(bool(np.all((idx >= 0) & (idx < np.array(per)))), 'regular:outside')
    flat = np.ravel_multi_index(idx.T, per)
    ctx.equal(np.sort(flat), np.arange(n), 'regular:not-every-cell-once')
    ctx.ev('grid_points', n)
    ctx.note(v, nontrivial=n > 1)


def case_refuse(ctx, rng):
    dim = rng.randint(1, 5)
    n = 5
    ctx.note(dim, rng.randint(10 ** 6))
    ctx.raises('rv length', S.dim_not_matching, B.random_sample_set,
               [['uniform', {}]] * (dim + 1), dim, n)
    ctx.raises('rv type', S.wrong_input, B.random_sample_set, 3.5, dim, n)
    ctx.raises('rv type', S.wrong_input, B.random_sample_set, {'uniform': {}}, dim, n)
    ctx.raises('object', S.wrong_input, B.random_sample_set, 'uniform', 'text', n)
    ctx.raises('object', S.wrong_input, B.random_sample_set, 'uniform', [[0, 1]], n)
    ctx.raises('object', B.bad_object, B.regular_sample_set, 'text', 2)
    ctx.raises('object', B.bad_object, B.lhs_sample_set, 'text', 2, 'center')
    ctx.ev('refusals', 7)


KINDS = [Kind('random', case_random, 1500, 20000), Kind('lhs', case_lhs, 1000, 12000),
         Kind('regular', case_regular, 1000, 12000), Kind('refuse', case_refuse, 20, 100)]
