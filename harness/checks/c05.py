"""C05: a simple function on the data space carries exactly the stated distribution."""
import math
import numpy as np
from core import Kind
import gen
import oracle

ID = 'C05'
COMM = 'real'
QUICK_X, THOROUGH_X = 3, 3
RULE = ('Random data (array, sample set or discretization; 1-4 dimensions, all domain scales), '
        'random centres, sizes given as number, list or array, numbers of bins and emulation '
        'points, through every simple function; some discretizations carry pointers to an earlier '
        'probability set. Non-trivial: at least two bins.')
REQUIRE = ['bins_judged', 'given:array', 'given:set', 'given:disc', 'regular_cells',
           'refusals', 'defaults', 'solved_after', 'bins_in_1d_exact', 'fine_regular']


def setup():
    global S, F, P
    import bet.sample as S
    import bet.calculateP.simpleFunP as F
    import bet.calculateP.calculateP as P


def make_data(ctx, rng, dim=None, n=None, order=False):
    dim = dim or gen.few(rng, 1, 5, 6)
    dom = gen.domain(rng, dim)
    n = n or gen.size(rng, 2, 60, 5000, 0.1)
    x = gen.points(rng, n, dom, 'uniform')
    if order or rng.randint(6 if n < 100 else 2) == 0:     # in order: the extremes come last
        x = x[np.argsort(x[:, 0])]
    how = rng.choice(['array', 'set', 'disc'])
    ctx.ev('given:' + how)
    ref = dom[:, 0] + rng.uniform(0.2, 0.8, dim) * (dom[:, 1] - dom[:, 0])
    if how == 'array':
        return x.copy(), x, dom, ref, how
    s = S.sample_set(dim)
    s.set_values(x.copy())
    s.set_reference_value(ref.copy())
    if how == 'set':
        return s, x, dom, ref, how
    i = S.sample_set(2)
    i.set_values(rng.uniform(size=(n, 2)))
    d = S.discretization(i, s)
    if rng.randint(2):
        # an earlier probability set, with its pointers
        q = S.voronoi_sample_set(dim)
        q.set_values(gen.points(rng, 5, dom, 'uniform'))
        q.set_probabilities(np.ones(5) / 5)
        ctx.call('set_output_probability_set', d.set_output_probability_set, q)
        ctx.call('set_io_ptr', d.set_io_ptr, True)
    return d, x, dom, ref, how


def after(ctx, rng, data, x, how, s, key):
    """The data is untouched; a discretization now uses (and solves with) s."""
    if how == 'array':
        ctx.equal(data, x, key + ':data-changed')
        return
    out = data if how == 'set' else data.get_output_sample_set()
    ctx.equal(out.get_values(), x, key + ':data-changed')
    if how == 'set':
        return
    ctx.check(data.get_output_probability_set() is s, key + ':not-installed')
    n = len(x)
    pr = s.get_probabilities()
    _, ptr = ctx.call('query', s.query, x)
    ptr = np.ravel(ptr)
    if data.get_io_ptr() is not None:
        ctx.equal(np.ravel(data.get_io_ptr()), ptr, key + ':stale-pointer')
    v = gen.volumes(rng, n)
    data.get_input_sample_set().set_volumes(v.copy())
    ctx.call('prob', P.prob, data)
    want = oracle.share(list(ptr), list(pr), list(v))
    got = data.get_input_sample_set().get_probabilities()
    ctx.close(got, want, key + ':solve-after', rtol=1e-9, atol=1e-300)
    ctx.equal(np.ravel(data.get_io_ptr()) if data.get_io_ptr() is not None else ptr, ptr,
              key + ':pointer-after')
    ctx.ev('solved_after')


def arg_form(rng, v, scalar_ok=True):
    v = np.asarray(v, float)
    k = rng.randint(4 if scalar_ok else 3)
    if k == 3:
        return float(v[0]), np.full(len(v), float(v[0]))
    return [v.copy(), v.tolist(), tuple(v.tolist())][k], v


def pick_ref(rng, ref, how):
    """Q_ref omitted (taken from the set), or given explicitly (and then used)."""
    if how != 'array' and rng.randint(2):
        return None, ref
    q = ref + rng.uniform(-0.1, 0.1, len(ref)) * (1e-3 + np.abs(ref))
    return arg_form(rng, q)


def valid_measure(ctx, s, m, key):
    pr = s.get_probabilities()
    ctx.check(pr is not None and pr.shape == (m,), key + ':size', got=pr, want=m)
    ctx.check(bool(np.all(pr >= 0)), key + ':negative', got=pr)
    ctx.close(pr.sum(), 1.0, key + ':total', rtol=1e-9)
    return pr


def judge_bins(ctx, rng, s, pr, draw, cdf, n_emulate, key):
    """Bin masses against the distribution itself: exact in 1D, else sampled."""
    v = s.get_values()
    if v.shape[1] == 1:
        o = np.argsort(v[:, 0], kind='stable')
        xs = v[o, 0]
        edges = np.concatenate([[-np.inf], 0.5 * (xs[1:] + xs[:-1]), [np.inf]])
        q = np.empty(len(v))
        q[o] = np.diff([cdf(e) for e in edges])
        k = np.inf
        ctx.ev('bins_in_1d_exact', len(v))
    else:
        k = 40000
        pts = draw(k)
        q = np.zeros(len(v))
        for c in range(0, k, 5000):
            idx = oracle.nearest(pts[c:c + 5000], v, 2.0)
            q += np.bincount(idx, minlength=len(v))
        q /= k
    qq = np.clip(q, 0, 1)
    tol = 7.0 * np.sqrt(qq * (1 - qq) * (1.0 / n_emulate + 1.0 / k)) \
        + 20.0 * (1.0 / n_emulate + 1.0 / k)
    ctx.ev('bins_judged', len(v))
    ctx.check(bool(np.all(np.abs(pr - q) <= tol)), key, got=pr, want=q, tol=tol, bins=v)


def corners(rng, lo, hi):
    """The rectangle by any two opposite corners (or by all points of a small cloud)."""
    k = rng.randint(4)
    a = np.vstack([lo, hi])
    if k == 1:
        a = a[::-1].copy()
    elif k == 2:
        flip = rng.randint(0, 2, len(lo)).astype(bool)
        a = np.vstack([np.where(flip, lo, hi), np.where(flip, hi, lo)])
    elif k == 3:
        return a.tolist()
    return a


def in_box(ctx, v, centre, half, key):
    t = (v - centre) / half
    ctx.check(bool(np.all(np.abs(t) <= 1 + 1e-9)), key + ':outside', worst=np.abs(t).max())
    n = len(v)
    if n >= 60:
        # uniform on the box: mean and variance of each coordinate
        ctx.check(bool(np.all(np.abs(t.mean(axis=0)) <= 7 / math.sqrt(3 * n))), key + ':mean',
                  mean=t.mean(axis=0), n=n)
        # var of t^2 is 4/45, mean 1/3
        ctx.check(bool(np.all(np.abs((t ** 2).mean(axis=0) - 1 / 3.) <=
                              7 * math.sqrt(4 / 45.) / math.sqrt(n))), key + ':spread',
                  second=(t ** 2).mean(axis=0), n=n)
        ctx.ev('bin_layouts')


def case_uniform(ctx, rng):
    which = rng.choice(['size', 'scaled', 'domain'])
    # the extremes of many values, which decide a scaled size, come last
    big = which == 'scaled' and rng.randint(4) == 0
    data, x, dom, ref, how = make_data(ctx, rng, n=int(rng.randint(200, 6000)) if big else None,
                                       order=big)
    dim = len(dom)
    w = dom[:, 1] - dom[:, 0]
    M = int(rng.choice([1, 2, 5, 20, 60, 120, 120, 400]))
    N = int(rng.choice([500, 3000, 20000]))
    Nf = float(N) if rng.randint(2) else N
    opt = {'M': M}
    if rng.randint(6) == 0:
        opt, M = {}, 50
        ctx.ev('defaults')
    if which == 'size':
        arg, size = arg_form(rng, w * rng.uniform(0.05, 0.6, dim))
        q, c = pick_ref(rng, ref, how)
        s = ctx.call('uniform_size', F.uniform_partition_uniform_distribution_rectangle_size,
                     data, Q_ref=q, rect_size=arg, num_d_emulate=Nf, **opt)
    elif which == 'scaled':
        arg, sc = arg_form(rng, rng.uniform(0.05, 0.9, dim))
        size = (x.max(axis=0) - x.min(axis=0)) * sc
        q, c = pick_ref(rng, ref, how)
        s = ctx.call('uniform_scaled', F.uniform_partition_uniform_distribution_rectangle_scaled,
                     data, Q_ref=q, rect_scale=arg, num_d_emulate=Nf, **opt)
    else:
        lo = dom[:, 0] + rng.uniform(0, 0.4, dim) * w
        hi = lo + rng.uniform(0.05, 0.5, dim) * w
        size, c = hi - lo, 0.5 * (lo + hi)
        s = ctx.call('uniform_domain', F.uniform_partition_uniform_distribution_rectangle_domain,
                     data, corners(rng, lo, hi), num_d_emulate=Nf, **opt)
    ctx.describe(which=which, how=how, dim=dim, M=M, N=N, size=size, centre=c)
    ctx.note(x, size, c, M, nontrivial=M > 1)
    key = 'uniform-' + which
    pr = valid_measure(ctx, s, M, key)
    v = s.get_values()
    ctx.check(v.shape == (M, dim), key + ':bins', shape=v.shape)
    in_box(ctx, v, c, 0.75 * size, key + '-bins')
    judge_bins(ctx, rng, s, pr, lambda k: c + size * (rng.uniform(size=(k, dim)) - 0.5),
               lambda e: float(np.clip((e - (c[0] - size[0] / 2)) / size[0], 0, 1)), N, key)
    after(ctx, rng, data, x, how, s, key)


def case_normal(ctx, rng):
    from scipy.stats import norm
    data, x, dom, ref, how = make_data(ctx, rng)
    dim = len(dom)
    w = dom[:, 1] - dom[:, 0]
    M = int(rng.choice([1, 2, 5, 20, 60]))
    N = int(rng.choice([500, 3000, 20000]))
    # covariances that scipy itself calls singular are out of reach
    std = w * rng.uniform(0.05, 0.5, dim)
    arg, std = arg_form(rng, np.maximum(std, 1e-4 * std.max()))
    q, c = pick_ref(rng, ref, how)
    part = rng.choice(['normal', 'uniform'])
    f = {'normal': F.normal_partition_normal_distribution,
         'uniform': F.uniform_partition_normal_distribution}[part]
    ctx.describe(part=part, how=how, dim=dim, M=M, N=N, std=std, centre=c)
    s = ctx.call(part + '_normal', f, data, Q_ref=q, std=arg, M=M, num_d_emulate=N)
    ctx.note(x, std, c, M, nontrivial=M > 1)
    key = part + '-normal'
    pr = valid_measure(ctx, s, M, key)
    v = s.get_values()
    ctx.check(v.shape == (M, dim), key + ':bins', shape=v.shape)
    if part == 'uniform':
        in_box(ctx, v, c, 2.0 * std, key + '-bins')
    else:
        t = (v - c) / std
        ctx.check(bool(np.all(np.abs(t) < 7.5)), key + '-bins:outside', worst=np.abs(t).max())
        if M >= 60:
            ctx.check(bool(np.all(np.abs(t.mean(axis=0)) <= 6.5 / math.sqrt(M))),
                      key + '-bins:mean', mean=t.mean(axis=0))
            ctx.check(bool(np.all(np.abs((t ** 2).mean(axis=0) - 1) <= 8 * math.sqrt(2. / M))),
                      key + '-bins:spread', second=(t ** 2).mean(axis=0))
            ctx.ev('bin_layouts')
    judge_bins(ctx, rng, s, pr, lambda k: c + std * rng.normal(size=(k, dim)),
               lambda e: float(norm.cdf((e - c[0]) / std[0])), N, key)
    after(ctx, rng, data, x, how, s, key)


def case_regular(ctx, rng):
    which = rng.choice(['size', 'scaled', 'domain'])
    # the extremes of many values, which decide a scaled size, come last
    big = which == 'scaled' and rng.randint(4) == 0
    data, x, dom, ref, how = make_data(ctx, rng, n=int(rng.randint(200, 6000)) if big else None,
                                       order=big)
    dim = len(dom)
    w = dom[:, 1] - dom[:, 0]
    top = {1: 12, 2: 6, 3: 4, 4: 3}.get(dim, 3)
    if rng.randint(6) == 0:
        top = {1: 250, 2: 40, 3: 12, 4: 7}.get(dim, 4)
        ctx.ev('fine_regular')
    if rng.randint(3) == 0:
        k = int(rng.randint(1, top))
        cells, per = k, [k] * dim
    else:
        per = [int(k) for k in rng.randint(1, top, dim)]
        cells = per if rng.randint(2) else np.array(per)
    opt = {'cells_per_dimension': cells}
    if rng.randint(6) == 0:
        opt, per = {}, [1] * dim
        ctx.ev('defaults')
    if which == 'size':
        arg, size = arg_form(rng, w * rng.uniform(0.05, 0.6, dim))
        q, c = pick_ref(rng, ref, how)
        s = ctx.call('regular_size', F.regular_partition_uniform_distribution_rectangle_size,
                     data, Q_ref=q, rect_size=arg, **opt)
    elif which == 'scaled':
        arg, sc = arg_form(rng, rng.uniform(0.05, 0.9, dim))
        size = (x.max(axis=0) - x.min(axis=0)) * sc
        q, c = pick_ref(rng, ref, how)
        s = ctx.call('regular_scaled', F.regular_partition_uniform_distribution_rectangle_scaled,
                     data, Q_ref=q, rect_scale=arg, **opt)
    else:
        lo = dom[:, 0] + rng.uniform(0, 0.4, dim) * w
        hi = lo + rng.uniform(0.05, 0.5, dim) * w
        size, c = hi - lo, 0.5 * (lo + hi)
        s = ctx.call('regular_domain', F.regular_partition_uniform_distribution_rectangle_domain,
                     data, corners(rng, lo, hi), **opt)
    m = int(np.prod(per))
    ctx.describe(which=which, how=how, dim=dim, cells=per, size=size, centre=c)
    ctx.note(x, size, c, per, nontrivial=m > 1)
    key = 'regular-' + which
    pr = valid_measure(ctx, s, m + 1, key)
    ctx.check(pr[-1] == 0.0, key + ':remainder', got=pr[-1])
    # the edges of a cell are only as exact as numbers of their size
    blur = 4e-16 * float(np.max((np.abs(c) + size) / (size / np.array(per))))
    ctx.close(pr[:-1], np.full(m, 1.0 / m), key + ':equal-cells', rtol=1e-9 + 8 * dim * blur)
    ctx.ev('regular_cells', m)
    ctx.close(s.get_domain(), np.stack([c - size / 2, c + size / 2], axis=1), key + ':domain', rtol=1e-9,
              atol=1e-9 * size.max())
    # the exact measure: mass of any region is its share of the rectangle
    lo = c - size / 2
    pts = lo + size * rng.uniform(0.0, 1.0, (200, dim))
    _, ptr = ctx.call('query', s.query, pts)
    ptr = np.ravel(ptr)
    idx = np.floor((pts - lo) / size * np.array(per)).astype(int)
    frac = (pts - lo) / size * np.array(per)
    clear = np.all(np.abs(frac - np.round(frac)) > 1e-7, axis=1)
    flat = np.ravel_multi_index(idx.T.clip(0, np.array(per)[:, None] - 1), per)
    seen = {}
    for a, b in zip(flat[clear], ptr[clear]):
        ctx.check(b < m and seen.setdefault(a, b) == b, key + ':cell-of-point', cell=a, got=b)
    ctx.check(len(set(seen.values())) == len(seen), key + ':cells-merged', seen=seen)
    outside = np.vstack([c + 0.51 * size, c - 0.51 * size])
    _, ptr = ctx.call('query', s.query, outside)
    ctx.equal(np.ravel(ptr), [m, m], key + ':outside')
    after(ctx, rng, data, x, how, s, key)


def case_samples(ctx, rng):
    data, x, dom, ref, how = make_data(ctx, rng)
    ctx.note(x, nontrivial=len(x) > 1)
    ctx.describe(how=how, n=len(x))
    s = ctx.call('data_samples', F.uniform_partition_uniform_distribution_data_samples, data)
    pr = valid_measure(ctx, s, len(x), 'data-samples')
    ctx.close(pr, np.full(len(x), 1.0 / len(x)), 'data-samples:equal', rtol=1e-12)
    ctx.equal(s.get_values(), x, 'data-samples:values')
    if how != 'array':
        out = data if how == 'set' else data.get_output_sample_set()
        ctx.check(s is not out and out.get_probabilities() is None,
                  'data-samples:writes-into-data')
    ctx.ev('bins_judged', len(x))
    after(ctx, rng, data, x, how, s, 'data-samples')


def wrap(rng, v, pnorm=None):
    k = rng.randint(3)
    if k == 0:
        return v.copy()
    s = S.sample_set(v.shape[1])
    s.set_values(v.copy())
    if k == 1:
        return s
    i = S.sample_set(1)
    i.set_values(rng.uniform(size=(len(v), 1)))
    return S.discretization(i, s)


def case_user(ctx, rng):
    data, x, dom, ref, how = make_data(ctx, rng)
    dim = len(dom)
    M, N = gen.size(rng, 1, 25, 400), gen.size(rng, 1, 300, 6000)
    bins = gen.points(rng, M, dom, 'uniform')
    dist = gen.points(rng, N, dom, rng.choice(['uniform', 'cluster', 'dups']))
    ctx.describe(how=how, dim=dim, M=M, N=N)
    ctx.note(x, bins, dist, nontrivial=M > 1)
    a, b = wrap(rng, bins), wrap(rng, dist)
    s = ctx.call('user', F.user_partition_user_distribution, data, a, b)
    pr = valid_measure(ctx, s, M, 'user')
    ctx.equal(s.get_values(), bins, 'user:values')
    D = oracle.dist_matrix(dist, bins, 2.0)
    ok = D <= D.min(axis=1, keepdims=True) * (1 + 1e-12) + 1e-12 * np.abs(dist).max()
    sure = ok.sum(axis=1) == 1
    low = np.bincount(np.argmax(ok[sure], axis=1), minlength=M) / float(N)
    high = low + ok[~sure].sum(axis=0) / float(N)
    ctx.check(bool(np.all((pr >= low - 1e-9) & (pr <= high + 1e-9))), 'user:mass', got=pr,
              low=low, high=high)
    ctx.ev('bins_judged', M)
    if rng.randint(4) == 0:
        bad = rng.uniform(size=(7, dim + 1))
        args = [(data, bad, dist), (data, bins, bad)][rng.randint(2)]
        ctx.raises('user-dims', F.wrong_argument_type, F.user_partition_user_distribution, *args)
        ctx.ev('refusals')
        if how == 'disc':
            ctx.check(data.get_output_probability_set() is s, 'user:refused-but-installed')
    after(ctx, rng, data, x, how, s, 'user')


def case_refuse(ctx, rng):
    data, x, dom, ref, how = make_data(ctx, rng)
    dim = len(dom)
    bad_size = rng.uniform(0.1, 1, dim)
    bad_size[rng.randint(dim)] = rng.choice([0.0, -1.0])
    rects = [F.uniform_partition_uniform_distribution_rectangle_size,
             F.regular_partition_uniform_distribution_rectangle_size]
    f = rects[rng.randint(2)]
    ctx.note(how, bad_size)
    ctx.raises('rect_size<=0', F.wrong_argument_type, f, data, Q_ref=ref,
               rect_size=arg_form(rng, bad_size, False)[0])
    # a scale is as ill-formed as the size it gives
    k = rng.randint(3)
    bad_scale = [-rng.uniform(0.1, 1, dim), np.abs(bad_size), -0.3][k]
    if k == 1:
        bad_scale[rng.randint(dim)] = rng.choice([0.0, -0.4])
    for g in (F.uniform_partition_uniform_distribution_rectangle_scaled,
              F.regular_partition_uniform_distribution_rectangle_scaled):
        ctx.raises('rect_scale<=0', F.wrong_argument_type, g, data, Q_ref=ref, rect_scale=bad_scale)
    ctx.raises('rect_size missing', F.wrong_argument_type, f, data, Q_ref=ref)
    for bad in ('text', [1.0, 2.0], None):
        ctx.raises('data type', F.wrong_argument_type,
                   F.uniform_partition_uniform_distribution_data_samples, bad)
        ctx.raises('data type', F.wrong_argument_type, f, bad, Q_ref=ref, rect_size=0.1)
        ctx.raises('data type', F.wrong_argument_type, F.user_partition_user_distribution,
                   bad, x, x)
    no_ref = S.sample_set(dim)
    no_ref.set_values(x.copy())
    d = no_ref
    k = rng.randint(3)
    if k == 1:
        d = x.copy()
    elif k == 2:
        i = S.sample_set(1)
        i.set_values(rng.uniform(size=(len(x), 1)))
        d = S.discretization(i, no_ref)
    for g in rects:
        ctx.raises('no reference', F.wrong_argument_type, g, d, rect_size=0.3)
    for g in (F.uniform_partition_uniform_distribution_rectangle_scaled,
              F.regular_partition_uniform_distribution_rectangle_scaled):
        ctx.raises('no reference', F.wrong_argument_type, g, d, rect_scale=0.3)
    for g in (F.normal_partition_normal_distribution, F.uniform_partition_normal_distribution):
        long = [0.3] * (dim + 1)
        ctx.raises('length of Q_ref', S.dim_not_matching, g, data, Q_ref=long, std=0.1, M=3, num_d_emulate=10)
        ctx.raises('length of std', S.dim_not_matching, g, data, Q_ref=ref, std=tuple(long), M=3,
                   num_d_emulate=10)
    ctx.ev('refusals', 14)


ASSUMPTIONS = ['Monte Carlo bins are judged at 7 sigma plus a few counts; numpy generates the draws',
               'rect_domain is given as its two corners, one per row']
KINDS = [Kind('uniform', case_uniform, 160, 2500), Kind('normal', case_normal, 120, 2000),
         Kind('regular', case_regular, 250, 4000), Kind('samples', case_samples, 80, 800),
         Kind('user', case_user, 200, 4000), Kind('refuse', case_refuse, 40, 300)]
