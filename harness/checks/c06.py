"""C06: density-based inversion weights every sample by observed over predicted density."""
import contextlib
import io
import math
import numpy as np
from core import Kind
import gen
import oracle

ID = 'C06'
COMM = 'real'
QUICK_X, THOROUGH_X = 3, 4
RULE = ('Random maps (1-4 inputs, 1-3 outputs, linear and nonlinear), 8-120 predicted and 4-60 '
        'observed outputs, 1-4 clusters (labels possibly with gaps, or given as cluster maps), '
        'bandwidth rules, initial weights, data set globally or locally; every inversion method and '
        'sequences of them. Non-trivial: weights are not all equal.')
REQUIRE = ['weights_judged', 'multi_cluster', 'label_gaps', 'cluster_maps', 'single_map',
           'weights_init', 'accepted_samples', 'method:kde', 'method:gmm', 'method:mvn',
           'method:rv', 'method:rejection', 'resolved', 'local_only', 'unobserved', 'two_samples']
ASSUMPTIONS = ['each used cluster has more predicted and observed samples than output dimensions, or no observed ones',
               'distribution fits are compared with scipy fits of an independently reweighted sample']


def setup():
    global S, R
    import bet.sample as S
    import bet.calculateP.calculateR as R


def quiet(ctx, label, f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.call(label, f, *a, **k)


class Case(object):
    pass


def make(ctx, rng):
    c = Case()
    di, do = gen.few(rng, 1, 5, 8), gen.few(rng, 1, 4, 5)
    ncl = int(rng.choice([1, 1, 2, 3, 4, 7], p=[.2, .2, .2, .2, .17, .03]))
    per = do + 3 + rng.randint(1, 30, ncl)
    obs = do + 2 + rng.randint(1, 20, ncl)
    if rng.randint(40) == 0:
        per, obs = per + rng.randint(100, 600, ncl), obs + rng.randint(100, 600, ncl)
    if do == 1 and rng.randint(6) == 0:
        # the fewest samples that have a density
        (per if rng.randint(2) else obs)[rng.randint(ncl)] = 2
        ctx.ev('two_samples')
    if ncl > 1 and rng.randint(5) == 0:
        # nothing was observed in one of the clusters
        obs[rng.randint(ncl)] = 0
        ctx.ev('unobserved')
    n, m = per.sum(), obs.sum()
    c.x = gen.points(rng, n, gen.domain(rng, di, rng.choice(['unit', 'shift', 'neg', 'ints', 'micro'])), 'uniform')
    A = rng.normal(size=(di, do))
    labels = np.repeat(np.arange(ncl), per)
    olab = np.repeat(np.arange(ncl), obs)
    c.q = np.tanh(0.3 * c.x.dot(A)) + 0.2 * rng.normal(size=(n, do)) + 1.5 * labels[:, None]
    c.o = 0.5 * rng.normal(size=(m, do)) + 1.5 * olab[:, None] + c.q.mean(axis=0) * 0.1
    if rng.randint(12) == 0:
        # observations concentrated where many predictions are: large ratios, and zero ones
        for j in range(ncl):
            t, e = 1.5 * j + rng.normal(size=do), 10.0 ** rng.uniform(-5, -1)
            near = np.where(labels == j)[0]
            near = near[:max(do + 3, len(near) // 2)]
            c.q[near] = t + e * rng.normal(size=(len(near), do))
            c.o[olab == j] = t + e * rng.normal(size=((olab == j).sum(), do))
        ctx.ev('concentrated')
    u = 1.0
    if rng.randint(6) == 0:     # outputs in small or large units
        u = 10.0 ** rng.choice([-12, -9, 9])
        c.q, c.o = c.q * u, c.o * u
    p = rng.permutation(n)
    c.x, c.q, labels = c.x[p], c.q[p], labels[p]
    p = rng.permutation(m)
    c.o, olab = c.o[p], olab[p]
    c.maps = c.omaps = None
    c.how = 'plain'
    if ncl > 1 or rng.randint(4) == 0:
        c.how = 'labels'
        if ncl > 1 and rng.randint(4) == 0:
            # leave out a label: a cluster nobody belongs to
            gap = rng.randint(0, ncl)
            labels = labels + (labels >= gap)
            olab = olab + (olab >= gap)
            c.how = 'gaps'
            ctx.ev('label_gaps')
        elif rng.randint(3) == 0:
            # learned quantities of interest: a map per cluster, of its own dimension
            c.how = 'maps'
            dims = rng.randint(1, 3, ncl)
            dims[(per == 2) | (obs == 2)] = 1
            B = [rng.normal(size=(do, k)) for k in dims]
            c.maps = [c.q[labels == j].dot(B[j]) + 0.1 * u * rng.normal(size=(per[j], dims[j]))
                      for j in range(ncl)]
            c.omaps = [c.o[olab == j].dot(B[j]) + 0.1 * u * rng.normal(size=(obs[j], dims[j]))
                       for j in range(ncl)]
            ctx.ev('cluster_maps')
            if ncl == 1:
                ctx.ev('single_map')
    c.labels, c.olab = labels, olab
    c.ncl = int(labels.max()) + 1
    if ncl > 1:
        ctx.ev('multi_cluster')
    c.w0 = None
    if rng.randint(4) == 0 and c.how != 'gaps':
        c.w0 = rng.gamma(2.0, size=n) + 0.05
        ctx.ev('weights_init')
    c.f = c.bw = [None, 'scott', 'silverman', 0.4, float(rng.uniform(0.2, 1.3)), 1][rng.randint(6)]
    if rng.randint(12) == 0:
        c.f = float(rng.uniform(0.2, 1.3))
        c.bw = lambda kde, f=c.f: f
        ctx.ev('bandwidth:callable')

    i, o, b = S.sample_set(di), S.sample_set(do), S.sample_set(do)
    if rng.randint(3) == 0:
        ctx.ev('local_only')
        i.set_values_local(c.x.copy())
        o.set_values_local(c.q.copy())
        b.set_values_local(c.o.copy())
        if c.how != 'plain':
            o.set_region_local(labels.copy())
            b.set_region_local(olab.copy())
    else:
        i.set_values(c.x.copy())
        o.set_values(c.q.copy())
        b.set_values(c.o.copy())
        if c.how != 'plain':
            o.set_region(labels.copy())
            b.set_region(olab.copy())
    if c.maps is not None:
        o.set_cluster_maps([v.copy() for v in c.maps])
        b.set_cluster_maps([v.copy() for v in c.omaps])
    if c.w0 is not None:
        o.set_weights_init(c.w0.copy())
    c.d = S.discretization(i, o, output_observed_set=b)
    c.di, c.do, c.n = di, do, n
    ctx.describe(di=di, do=do, per=per, obs=obs, how=c.how, bw=repr(c.f), init=c.w0 is not None)
    # the model
    c.r, c.ptr, c.frac = [], [], []
    for j in range(c.ncl):
        ptr = np.where(labels == j)[0]
        c.ptr.append(ptr)
        c.frac.append(np.mean(olab == j))
        if not len(ptr) or not (olab == j).any():
            c.r.append(None)
            continue
        pv = c.q[ptr] if c.maps is None else c.maps[j]
        ov = c.o[olab == j] if c.omaps is None else c.omaps[j]
        w = None if c.w0 is None else c.w0[ptr]
        c.r.append(oracle.KDE(ov, None, c.f)(pv) / oracle.KDE(pv, w, c.f)(pv))
    c.weights = np.zeros(n)
    for j in range(c.ncl):
        if c.r[j] is not None:
            c.weights[c.ptr[j]] = c.r[j]
    return c


def note(ctx, c):
    ctx.note(c.x, c.q, c.o, c.labels, repr(c.f), nontrivial=np.ptp(c.weights) > 1e-6)


def judge_weights(ctx, c, key):
    got = c.d.get_input_sample_set().get_weights()
    ctx.close(got, c.weights, key + ':weights', rtol=1e-6, atol=1e-12)
    ctx.ev('weights_judged', c.n)
    ctx.equal(c.d.get_input_sample_set().get_values(), c.x, key + ':inputs-changed')
    ctx.equal(c.d.get_output_sample_set().get_values(), c.q, key + ':outputs-changed')
    ctx.equal(c.d.get_output_observed_set().get_values(), c.o, key + ':observed-changed')


def do_invert(ctx, rng, c):
    rs, r, ptr = quiet(ctx, 'invert', R.invert, c.d, bw_method=c.bw)
    judge_weights(ctx, c, 'invert')
    ctx.check(len(rs) == len(r) == len(ptr) == c.ncl, 'invert:clusters', got=len(r), want=c.ncl)
    for j in range(c.ncl):
        ctx.equal(ptr[j], c.ptr[j], 'invert:pointer')
        if c.r[j] is None:
            ctx.check(r[j] is None and rs[j] is None, 'invert:empty-cluster', got=r[j])
        else:
            ctx.close(r[j], c.r[j], 'invert:ratio', rtol=1e-6, atol=1e-12)
            ctx.close(rs[j], np.mean(c.r[j]), 'invert:mean-ratio', rtol=1e-6, atol=1e-12)


def usable(c):
    """Ratios that carry a measure: every used cluster keeps an effective sample."""
    for j in range(c.ncl):
        if c.r[j] is not None:
            s = c.r[j].sum()
            if not s > 1e-8 or (s ** 2 / np.sum(c.r[j] ** 2)) < 2.5:
                return False
    return True


def do_kde(ctx, rng, c):
    mar, cw = quiet(ctx, 'invert_to_kde', R.invert_to_kde, c.d, bw_method=c.bw)
    judge_weights(ctx, c, 'kde')
    ctx.close(cw, c.frac, 'kde:cluster-weights')
    s = c.d.get_input_sample_set()
    ctx.check(s.get_prob_type() == 'kde', 'kde:type', got=s.get_prob_type())
    t = gen.points(rng, 7, np.column_stack([c.x.min(axis=0), c.x.max(axis=0)]), 'uniform')
    joint = np.ones(7)
    for k in range(c.di):
        want = np.zeros(7)
        for j in range(c.ncl):
            if c.r[j] is None:
                ctx.check(mar[k][j] is None, 'kde:empty-cluster')
                continue
            e = oracle.KDE(c.x[c.ptr[j], k], c.r[j], c.f)(t[:, k])
            ctx.close(mar[k][j](t[:, k]), e, 'kde:marginal', rtol=1e-5, atol=1e-10)
            want += c.frac[j] * e
        ctx.close(ctx.call('marginal_pdf', s.marginal_pdf, t, k), want, 'kde:marginal_pdf',
                  rtol=1e-5, atol=1e-10)
        joint *= want
    ctx.close(ctx.call('pdf', s.pdf, t), joint, 'kde:pdf', rtol=1e-5, atol=1e-10)


def do_gmm(ctx, rng, c):
    means, covs, cw = quiet(ctx, 'invert_to_gmm', R.invert_to_gmm, c.d, bw_method=c.bw)
    judge_weights(ctx, c, 'gmm')
    ctx.close(cw, c.frac, 'gmm:cluster-weights')
    s = c.d.get_input_sample_set()
    ctx.check(s.get_prob_type() == 'gmm', 'gmm:type', got=s.get_prob_type())
    for j in range(c.ncl):
        if c.r[j] is None:
            ctx.check(means[j] is None and covs[j] is None, 'gmm:empty-cluster')
            continue
        m, v = oracle.weighted_mean_cov(c.x[c.ptr[j]], c.r[j])
        ctx.close(means[j], m, 'gmm:mean', rtol=1e-6, atol=1e-9 * np.abs(c.x).max())
        ctx.close(covs[j], v, 'gmm:cov', rtol=1e-5, atol=1e-9 * np.abs(c.x).max() ** 2)


def do_mvn(ctx, rng, c):
    means, covs, cw = quiet(ctx, 'invert_to_mvn', R.invert_to_multivariate_gaussian, c.d,
                            bw_method=c.bw)
    judge_weights(ctx, c, 'mvn')
    m, v = oracle.weighted_mean_cov(c.x, total(c))
    ctx.check(len(means) == len(covs) == len(cw) == 1, 'mvn:one-gaussian')
    ctx.close(cw, [1.0], 'mvn:weight')
    ctx.close(means[0], m, 'mvn:mean', rtol=1e-6, atol=1e-9 * np.abs(c.x).max())
    ctx.close(covs[0], v, 'mvn:cov', rtol=1e-5, atol=1e-9 * np.abs(c.x).max() ** 2)
    ctx.check(c.d.get_input_sample_set().get_prob_type() == 'gmm', 'mvn:type')


def total(c):
    w = np.zeros(c.n)
    for j in range(c.ncl):
        if c.r[j] is not None:
            w[c.ptr[j]] = c.r[j] * c.frac[j]
    return w


def do_rv(ctx, rng, c):
    import scipy.stats as st
    lo = float(c.x.min()) - 1.0
    menu = [['norm', {}], ['laplace', {}], ['expon', {'floc': lo}], ['gamma', {'floc': lo}],
            ['lognorm', {'floc': lo}],
            ['beta', {'floc': lo, 'fscale': float(c.x.max() - c.x.min()) * 1.5 + 2}]]
    if not 1e-3 < np.abs(c.x).max() < 1e5:
        menu = menu[:2]         # scipy's numerical fits need numbers of ordinary size
    form = rng.randint(3)
    if form == 0:
        rv, spec = 'norm', [['norm', {}]] * c.di
    elif form == 1:
        one = menu[rng.randint(len(menu))]
        rv, spec = (one if rng.randint(2) else tuple(one)), [one] * c.di
    else:
        spec = [menu[rng.randint(len(menu))] for _ in range(c.di)]
        rv = spec if rng.randint(2) else tuple(spec)
        if c.di == 2 and rv[0] is rv[1]:
            rv = list(rv)
    num = int(rng.choice([2000, 10000]))
    got = quiet(ctx, 'invert_to_rv', R.invert_to_random_variable, c.d, rv, num_reweighted=num,
                bw_method=c.bw)
    judge_weights(ctx, c, 'rv')
    w = total(c)
    rep = np.repeat(c.x, np.round(num * w / w.sum()).astype(int), axis=0)
    s = c.d.get_input_sample_set()
    ctx.check(s.get_prob_type() == 'rv', 'rv:type', got=s.get_prob_type())
    ctx.check(len(got) == c.di, 'rv:length', got=len(got))
    t = gen.points(rng, 9, np.column_stack([c.x.min(axis=0), c.x.max(axis=0)]), 'uniform')
    joint = np.ones(9)
    for k in range(c.di):
        dist = getattr(st, spec[k][0])
        fit = dist.fit(rep[:, k], **spec[k][1])
        want = dist(*fit).pdf(t[:, k])
        ctx.check(got[k][0] == spec[k][0], 'rv:family', got=got[k][0], want=spec[k][0])
        ctx.close(ctx.call('marginal_pdf', s.marginal_pdf, t, k), want, 'rv:marginal',
                  rtol=2e-2, atol=2e-3 * np.max(want), family=spec[k][0], fit=fit, got_fit=got[k])
        joint *= s.marginal_pdf(t, k)
    ctx.close(ctx.call('pdf', s.pdf, t), joint, 'rv:pdf', rtol=1e-9)
    if rng.randint(3) == 0:
        ctx.raises('rv-length', S.dim_not_matching, R.invert_to_random_variable, c.d,
                   [['norm', {}]] * (c.di + 1))
        ctx.raises('rv-type', S.wrong_input, R.invert_to_random_variable, c.d, 7)


def do_rejection(ctx, rng, c):
    new = quiet(ctx, 'rejection', R.invert_rejection_sampling, c.d, bw_method=c.bw)
    judge_weights(ctx, c, 'rejection')
    v = new.get_values()
    rows = {}
    for k, x in enumerate(c.x):
        rows.setdefault(x.tobytes(), []).append(k)
    acc = np.zeros(c.n)
    for x in np.ascontiguousarray(v):
        ids = rows.get(x.tobytes())
        ctx.check(ids is not None, 'rejection:not-a-sample', row=x)
        acc[ids[0]] += 1
    ctx.check(bool(np.all(acc <= 1)), 'rejection:repeated', worst=acc.max())
    p = np.zeros(c.n)
    for j in range(c.ncl):
        if c.r[j] is not None:
            p[c.ptr[j]] = c.r[j] / c.r[j].max()
            top = c.ptr[j][np.argmax(c.r[j])]
            ctx.check(acc[top] == 1, 'rejection:largest-ratio-rejected', row=top)
    ctx.check(not np.any(acc[p < 1e-12]), 'rejection:accepted-zero', rows=np.where(acc * (p < 1e-12))[0])
    sd = math.sqrt(np.sum(p * (1 - p)))
    ctx.check(abs(acc.sum() - p.sum()) <= 6 * sd + 2, 'rejection:rate', got=acc.sum(),
              want=p.sum(), sd=sd)
    # accepted samples favour large ratios as they should
    z = np.sum((acc - p) * (p - p.mean()))
    zs = math.sqrt(np.sum(p * (1 - p) * (p - p.mean()) ** 2))
    ctx.check(abs(z) <= 6 * zs + 1, 'rejection:selection', z=z, sd=zs)
    m = len(v)
    ctx.close(new.get_probabilities(), np.full(m, 1.0 / m), 'rejection:probabilities')
    ctx.equal(new.get_domain(), np.column_stack([v.min(axis=0), v.max(axis=0)]),
              'rejection:domain')
    ctx.check(new.get_dim() == c.di, 'rejection:dim')
    ctx.ev('accepted_samples', m)


METHODS = {'kde': do_kde, 'gmm': do_gmm, 'mvn': do_mvn, 'rv': do_rv, 'rejection': do_rejection}


def case_weights(ctx, rng):
    c = make(ctx, rng)
    note(ctx, c)
    do_invert(ctx, rng, c)
    if rng.randint(2):
        ctx.ev('resolved')
        do_invert(ctx, rng, c)


def case_methods(ctx, rng):
    while True:
        c = make(ctx, rng)
        if usable(c):
            break
    note(ctx, c)
    names = list(METHODS)
    for step in range(rng.randint(1, 4)):
        m = names[rng.randint(len(names))]
        if step:
            ctx.ev('resolved')
        ctx.ev('method:' + m)
        METHODS[m](ctx, rng, c)


KINDS = [Kind('weights', case_weights, 2500, 25000), Kind('methods', case_methods, 2500, 25000)]
