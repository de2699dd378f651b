"""C10: resampling an updated measure draws the number asked for from that measure."""
import math
import numpy as np
from core import Kind
import gen
import oracle

ID = 'C10'
COMM = 'real'
QUICK_X, THOROUGH_X = 14, 10
RULE = ('Updated measures of type rv, kde and gmm (1-4 dimensions, 1-4 clusters incl. empty and '
        'lopsided ones), 1 to 3000 new samples (also as many as dimensions), from sets and '
        'discretizations, globalized or not. Non-trivial: more than one sample.')
REQUIRE = ['distributions_judged', 'type:rv', 'type:kde', 'type:gmm', 'n_equals_dim', 'clustered',
           'empty_clusters', 'refusals', 'not_globalized', 'clusters_judged', 'covariances', 'independence']
ASSUMPTIONS = ['distributions are judged at a one-in-1e8 level or weaker']


def setup():
    global S, B
    import bet.sample as S
    import bet.sampling.basicSampling as B


def ks(ctx, x, cdf, key, **d):
    n = len(x)
    u = cdf(np.sort(x))
    D = max(np.max(np.arange(1, n + 1) / float(n) - u), np.max(u - np.arange(n) / float(n)))
    ctx.ev('distributions_judged')
    # the last term allows for rounding shares to whole samples
    ctx.check(D < 3.4 / math.sqrt(n) + 4.0 / n, key, distance=D, n=n, **d)


def case_resample(ctx, rng):
    import scipy.special as sp
    from scipy.stats import gaussian_kde
    dim = gen.few(rng, 1, 5, 7)
    ncl = int(rng.choice([1, 2, 3, 4, 4, 8]))
    n = int(rng.choice([1, 2, 3, dim, 17, 101, 900, 3000]))
    if n == dim:
        ctx.ev('n_equals_dim')
    cw = rng.dirichlet(np.ones(ncl) * rng.choice([0.3, 3]))
    empty = None
    if ncl > 1 and rng.randint(3) == 0:
        empty = rng.randint(ncl)
        cw[empty] = 0
        cw /= cw.sum()
    kind = rng.choice(['rv', 'kde', 'gmm'])
    ctx.ev('type:' + kind)
    s = S.sample_set(dim)
    base = rng.uniform(-3, 3, dim)
    # clusters far apart, so that a sample's cluster is visible
    cen = [base + 100.0 * j + rng.uniform(-1, 1, dim) for j in range(ncl)]
    if kind == 'rv':
        ncl = 1
        par, cdfs = [], []
        for i in range(dim):
            loc, sc = rng.uniform(-5, 5), 10 ** rng.uniform(-1, 1)
            k = rng.randint(3)
            par.append([['norm', 'uniform', 'expon'][k], {'loc': loc, 'scale': sc}])
            f = [sp.ndtr, lambda t: np.clip(t, 0, 1), lambda t: 1 - np.exp(-np.maximum(t, 0))][k]
            cdfs.append(lambda t, f=f, l=loc, c=sc: f((t - l) / c))
        params = par
    elif kind == 'kde':
        par = [[None if j == empty else None for j in range(ncl)] for _ in range(dim)]
        data = {}
        for i in range(dim):
            for j in range(ncl):
                if j == empty:
                    continue
                x = cen[j][i] + rng.normal(size=rng.randint(4, 15))
                w = rng.gamma(2.0, size=len(x)) + 0.1
                par[i][j] = gaussian_kde(x, weights=w)
                k = oracle.KDE(x, w)
                data[i, j] = (x, w / w.sum(), math.sqrt(k.cov[0, 0]))

        def cdf(i):
            def f(t):
                out = np.zeros(len(t))
                for j in range(ncl):
                    if j != empty:
                        x, w, h = data[i, j]
                        out += cw[j] * sp.ndtr((t[:, None] - x[None]) / h).dot(w)
                return out
            return f
        cdfs = [cdf(i) for i in range(dim)]
        params = (par, list(cw))
    else:
        cov = []
        for j in range(ncl):
            a = rng.normal(size=(dim, dim))
            cov.append(a.dot(a.T) + 0.2 * np.eye(dim))
        means, covs = list(cen), list(cov)
        if empty is not None:
            means[empty] = covs[empty] = None

        def cdf(i):
            return lambda t: sum(cw[j] * sp.ndtr((t - cen[j][i]) / math.sqrt(cov[j][i, i]))
                                 for j in range(ncl) if j != empty)
        cdfs = [cdf(i) for i in range(dim)]
        params = (means, covs, list(cw))
    if empty is not None and kind != 'rv':
        ctx.ev('empty_clusters')
    if ncl > 1:
        ctx.ev('clustered')
    v0 = rng.uniform(size=(6, dim))
    s.set_values(v0.copy())
    s.set_prob_type(str(kind))
    s.set_prob_parameters(params)
    s.set_prob_type_init('rv')
    s.set_prob_parameters_init('something else')
    obj = s
    if rng.randint(2):
        o = S.sample_set(1)
        o.set_values(rng.uniform(size=(6, 1)))
        obj = S.discretization(s, o)
    glob = bool(rng.randint(4))
    ctx.describe(kind=kind, dim=dim, n=n, weights=cw, globalize=glob)
    new = ctx.call('sample_from_updated', B.sample_from_updated, obj, n, globalize=glob)
    ctx.check(new is not s and new.get_dim() == dim, 'resample:set')
    if glob:
        v = new.get_values()
    else:
        ctx.check(new.get_values() is None, 'resample:globalized')
        ctx.ev('not_globalized')
        v = new.get_values_local()
    ctx.check(v is not None and v.shape == (n, dim), 'resample:number', got=np.shape(v), want=(n, dim))
    ctx.check(bool(np.all(np.isfinite(v))), 'resample:finite')
    ctx.note(v, nontrivial=n > 1)
    for i in range(dim):
        ks(ctx, v[:, i], cdfs[i], 'resample:distribution', index=i, kind=kind)
    if kind != 'rv':
        # each sample belongs to one cluster, in all of its coordinates
        D = np.array([np.abs(v - cen[j]).max(axis=1) for j in range(ncl)])
        own = np.argmin(D, axis=0)
        ctx.check(bool(np.all(D.min(axis=0) < 45)), 'resample:mixed-clusters', worst=D.min(axis=0).max())
        cnt = np.bincount(own, minlength=ncl)
        sd = np.sqrt(n * cw * (1 - cw))
        ctx.check(bool(np.all(np.abs(cnt - n * cw) <= 6 * sd + ncl + 1)), 'resample:cluster-share',
                  got=cnt, want=n * cw)
        if empty is not None:
            ctx.check(cnt[empty] == 0, 'resample:empty-cluster', got=cnt)
        ctx.ev('clusters_judged', ncl)
        if kind == 'gmm' and dim > 1:
            for j in range(ncl):
                x = v[own == j]
                if len(x) >= 60:
                    c = np.cov(x.T)
                    sc = np.sqrt(np.outer(np.diag(cov[j]), np.diag(cov[j])))
                    ctx.check(bool(np.all(np.abs(c - cov[j]) <= 8 * sc * math.sqrt(2.0 / len(x)))),
                              'resample:covariance', got=c, want=cov[j])
                    ctx.ev('covariances')
    if kind != 'gmm' and dim > 1:
        # such measures are products: coordinates are independent within each cluster
        for j in range(ncl):
            x = v if kind == 'rv' else v[own == j]
            if len(x) >= 100:
                from scipy.stats import rankdata
                c = np.corrcoef(np.apply_along_axis(rankdata, 0, x).T)
                ctx.check(bool(np.all(np.abs(c - np.eye(dim)) <= 7.0 / math.sqrt(len(x)))),
                          'resample:dependent', got=c, n=len(x))
                ctx.ev('independence')
    # the new set remembers the measure it was drawn from
    ctx.check(new.get_prob_type_init() == kind, 'resample:init', got=new.get_prob_type_init())
    t = v[: min(5, n)]
    ctx.close(ctx.call('pdf_init', new.pdf_init, t), ctx.call('pdf', s.pdf, t), 'resample:init-pdf',
              rtol=1e-12)
    ctx.equal(s.get_values(), v0, 'resample:source-changed')
    ctx.check(s.get_prob_type() == kind and s.get_prob_type_init() == 'rv', 'resample:source-changed')
    if rng.randint(10) == 0:
        ctx.raises('object', B.bad_object, B.sample_from_updated, np.zeros((3, 2)), 5)
        w = S.sample_set(dim)
        ctx.raises('no measure', B.bad_object, B.sample_from_updated, w, 5)
        w.set_prob_type('voronoi')
        ctx.raises('voronoi', B.bad_object, B.sample_from_updated, w, 5)
        ctx.ev('refusals', 3)


KINDS = [Kind('resample', case_resample, 2000, 25000)]
