"""C23: marginals computed from samples hold their probability, smoothed or not."""
import numpy as np
from core import Kind
import gen
import build

ID = 'C23'
COMM = 'real'
QUICK_X, THOROUGH_X = 12, 6
RULE = ('Sets and discretizations (plain or emulated inputs; 1-4 dimensions, 1-80 samples, inside, on the '
        'boundary of and outside the domain; data global, local or both) binned by one number or one per '
        'direction, in one and two directions, then smoothed by one or several widths. Non-trivial: more '
        'than one bin is occupied.')
REQUIRE = ['marginals_1d', 'marginals_2d', 'smoothed_1d', 'smoothed_2d', 'emulated', 'plain_input', 'sets',
           'outside', 'local_only', 'refusals', 'nbins:int', 'nbins:list', 'sigma:one', 'sigma:many',
           'symmetric', 'edge_samples']
ASSUMPTIONS = ['a sample outside the domain counts in no bin; a sample within rounding of an inner bin edge is '
               'not generated; smoothing is by the kernel exp(-(distance/sigma)^2), renormalised']


def setup():
    global S, P
    import bet.sample as S
    import bet.postProcess.plotP as P


def put(ctx, rng, s, x, pr):
    how = rng.randint(3)
    if how == 0:
        s.set_values(x.copy())
        s.set_probabilities(pr.copy())
    elif how == 1:
        s.set_values_local(x.copy())
        s.set_probabilities_local(pr.copy())
        ctx.ev('local_only')
    else:
        s.set_values(x.copy())
        s.set_probabilities(pr.copy())
        s.global_to_local()


def case_marginals(ctx, rng):
    dim = gen.few(rng, 1, 5)
    dom = gen.domain(rng, dim)
    w = dom[:, 1] - dom[:, 0]
    n = gen.size(rng, 1, 81, 5000)
    nb = [int(rng.randint(1, 9))] * dim
    arg = nb[0]
    if rng.randint(2):
        nb = [int(b) for b in rng.randint(1, 9, dim)]
        arg = [list(nb), np.array(nb)][rng.randint(2)]
        ctx.ev('nbins:list')
    elif rng.randint(4) == 0:
        nb, arg = [20] * dim, None
        ctx.ev('nbins:int')
    else:
        ctx.ev('nbins:int')
    # samples away from inner bin edges; some exactly on the boundary, some outside
    cell = np.column_stack([rng.randint(0, b, n) for b in nb])
    u = (cell + rng.uniform(0.01, 0.99, (n, dim))) / np.array(nb, float)
    x = dom[:, 0] + u * w
    edge = rng.uniform(size=(n, dim)) < rng.choice([0, 0.1])
    side = rng.randint(0, 2, (n, dim))
    for i in range(dim):
        k = edge[:, i]
        x[k, i] = np.where(side[k, i] == 1, dom[i, 1], dom[i, 0])
        cell[k, i] = np.where(side[k, i] == 1, nb[i] - 1, 0)
    if edge.any():
        ctx.ev('edge_samples', edge.sum())
    out = rng.uniform(size=(n, dim)) < rng.choice([0, 0, 0.1])
    x = np.where(out, np.where(side == 1, dom[:, 1] + 0.3 * w, dom[:, 0] - 0.2 * w), x)
    if out.any():
        ctx.ev('outside', out.sum())
    pr = gen.probs(rng, n)
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](dim)
    put(ctx, rng, s, x, pr)
    s.set_domain(dom.copy())
    obj, k = s, rng.randint(3)
    if k == 0:
        ctx.ev('sets')
    else:
        o = S.sample_set(1)
        o.set_values(rng.uniform(size=(n, 1)))
        obj = S.discretization(s, o)
        ctx.ev('plain_input' if k == 1 else 'emulated')
        if k == 2:
            other = S.sample_set(dim)
            other.set_values(gen.points(rng, n, dom, 'uniform'))
            other.set_probabilities(gen.probs(rng, n))
            other.set_domain(dom.copy())
            obj = S.discretization(other, o)
            obj.set_emulated_input_sample_set(s)
    ctx.describe(dim=dim, n=n, nbins=nb, domain=dom)
    kw = {} if arg is None else {'nbins': arg}
    first = rng.randint(2)
    one = two = None
    for step in range(2):
        if (step == 0) == bool(first):
            bins, one = ctx.call('calculate_1D_marginal_probs', P.calculate_1D_marginal_probs, obj, **kw)
        elif dim > 1:
            bins, two = ctx.call('calculate_2D_marginal_probs', P.calculate_2D_marginal_probs, obj, **kw)
        else:
            ctx.raises('one-dimension', P.dim_not_matching, P.calculate_2D_marginal_probs, obj, **kw)
            ctx.ev('refusals')
            continue
        ctx.check(len(bins) == dim, 'bins:number')
        for i in range(dim):
            ctx.close(bins[i], np.linspace(dom[i, 0], dom[i, 1], nb[i] + 1), 'bins', rtol=1e-12,
                      atol=1e-12 * w[i])
    ctx.check(sorted(one.keys()) == list(range(dim)), '1d:keys', keys=list(one.keys()))
    for i in range(dim):
        want = np.zeros(nb[i])
        k = ~out[:, i]
        np.add.at(want, cell[k, i], pr[k])
        ctx.close(one[i], want, '1d:mass', rtol=1e-12, atol=1e-14, direction=i)
        ctx.ev('marginals_1d')
    if two is not None:
        ctx.check(sorted(two.keys()) == [(i, j) for i in range(dim) for j in range(i + 1, dim)], '2d:keys',
                  keys=list(two.keys()))
        for (i, j), m in two.items():
            want = np.zeros((nb[i], nb[j]))
            k = ~(out[:, i] | out[:, j])
            np.add.at(want, (cell[k, i], cell[k, j]), pr[k])
            ctx.close(m, want, '2d:mass', rtol=1e-12, atol=1e-14, directions=(i, j))
            ctx.ev('marginals_2d')
    got = s.get_values() if s.get_values() is not None else s.get_values_local()
    ctx.equal(got, x, 'values-changed')
    got = s.get_probabilities() if s.get_probabilities() is not None else s.get_probabilities_local()
    ctx.equal(got, pr, 'probabilities-changed')
    ctx.note(x, pr, nb, nontrivial=max((m > 0).sum() for m in one.values()) > 1)


def kernel(n, dx, sigma):
    d = np.subtract.outer(np.arange(n), np.arange(n)) * dx
    return np.exp(-(d / sigma) ** 2)


def case_smooth(ctx, rng):
    dim = gen.few(rng, 1, 4, 6)
    dom = gen.domain(rng, dim)
    w = dom[:, 1] - dom[:, 0]
    nb = rng.randint(1, 16, dim)
    if rng.randint(6) == 0:
        dim = 1
        dom, w, nb = dom[:1], w[:1], rng.randint(100, 700, 1)
        ctx.ev('fine_bins')
    bins = [np.linspace(dom[i, 0], dom[i, 1], nb[i] + 1) for i in range(dim)]
    if rng.randint(2):
        sig = w * 10.0 ** rng.uniform(-1.5, 0.5, dim)
        arg = [list(sig), np.array(sig)][rng.randint(2)]
        ctx.ev('sigma:many')
    else:
        one = float(w.min() * 10.0 ** rng.uniform(-1, 0.5)) if rng.randint(3) else int(rng.randint(1, 4))
        sig = np.full(dim, float(one))
        if (sig / w).max() > 200 or (sig / w).min() < 1e-3:
            return
        arg = one
        ctx.ev('sigma:one')
    sym = rng.randint(3) == 0
    one = {}
    for i in range(dim):
        m = gen.probs(rng, nb[i])
        one[i] = 0.5 * (m + m[::-1]) if sym else m
    keep = dict((k, v.copy()) for k, v in one.items())
    got = ctx.call('smooth_marginals_1D', P.smooth_marginals_1D, one, bins, sigma=arg)
    ctx.describe(nbins=nb, sigma=sig, widths=w / nb)
    ctx.check(sorted(got.keys()) == list(range(dim)), 'smooth-1d:keys')
    K = [kernel(nb[i], w[i] / nb[i], sig[i]) for i in range(dim)]
    for i in range(dim):
        want = K[i].dot(keep[i])
        want /= want.sum()
        ctx.close(got[i], want, 'smooth-1d:values', rtol=1e-7, atol=1e-12, direction=i, sym=sym)
        ctx.close(np.sum(got[i]), 1.0, 'smooth-1d:mass', rtol=1e-9)
        if sym:
            ctx.close(got[i], got[i][::-1], 'smooth-1d:displaced', rtol=1e-7, atol=1e-12)
            ctx.ev('symmetric')
        ctx.equal(one[i], keep[i], 'smooth-1d:argument-changed')
        ctx.ev('smoothed_1d')
    if dim > 1:
        two = {}
        for i in range(dim):
            for j in range(i + 1, dim):
                if rng.randint(4):
                    two[(i, j)] = gen.probs(rng, nb[i] * nb[j]).reshape(nb[i], nb[j])
        keep = dict((k, v.copy()) for k, v in two.items())
        got = ctx.call('smooth_marginals_2D', P.smooth_marginals_2D, two, bins, sigma=arg)
        ctx.check(sorted(got.keys()) == sorted(two.keys()), 'smooth-2d:keys')
        for (i, j) in two:
            want = K[i].dot(keep[(i, j)]).dot(K[j])
            want /= want.sum()
            ctx.close(got[(i, j)], want, 'smooth-2d:values', rtol=1e-7, atol=1e-12, directions=(i, j))
            ctx.equal(two[(i, j)], keep[(i, j)], 'smooth-2d:argument-changed')
            ctx.ev('smoothed_2d')
    ctx.note(nb, sig, *[keep[k] for k in sorted(keep)], nontrivial=nb.max() > 1)


def case_refuse(ctx, rng):
    f = [P.calculate_1D_marginal_probs, P.calculate_2D_marginal_probs][rng.randint(2)]
    ctx.ev('refusals')
    if rng.randint(2):
        ctx.raises('object', P.bad_object, f, [None, 4, 'x', rng.uniform(size=(2, 2))][rng.randint(4)])
    else:
        s = S.sample_set(2)
        s.set_values(rng.uniform(size=(4, 2)))
        s.set_domain(np.array([[0., 1.], [0., 1.]]))
        ctx.raises('no-probabilities', P.missing_attribute, f, s)
    ctx.note(rng.randint(1 << 30))


KINDS = [Kind('marginals', case_marginals, 1200, 20000), Kind('smooth', case_smooth, 800, 15000),
         Kind('refuse', case_refuse, 20, 40)]
