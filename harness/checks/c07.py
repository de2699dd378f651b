"""C07: densities evaluate to the measure a set stores, jointly and by marginal."""
import math
import numpy as np
from core import Kind
import gen
import oracle

ID = 'C07'
COMM = 'real'
QUICK_X, THOROUGH_X = 8, 6
RULE = ('Random sets (1-4 dimensions) carrying KDE, Gaussian-mixture, random-variable and Voronoi '
        'measures (1-4 clusters, empty clusters, any p-norm and domain, probabilities and volumes '
        'given globally, locally or replaced between evaluations), evaluated at random points '
        'given as matrices or vectors. Non-trivial: density differs between evaluation points.')
REQUIRE = ['densities_judged', 'type:kde', 'type:gmm', 'type:rv', 'type:voronoi', 'replaced',
           'integrals', 'refusals', 'init_vs_updated', 'empty_clusters', 'no_volumes']
ASSUMPTIONS = ['a Voronoi density is the cell probability over its volume fraction times the volume '
               'of the domain (of a unit domain when none is set); other marginals of a Voronoi '
               'measure are the documented kernel density estimates']


def setup():
    global S
    import bet.sample as S


def spd(rng, d, scale):
    a = rng.normal(size=(d, d))
    return (a.dot(a.T) + 0.3 * np.eye(d)) * np.outer(scale, scale)


def measure(ctx, rng, dim, dom):
    """(type, parameters, joint model, marginal model) of a random parametric measure."""
    w = dom[:, 1] - dom[:, 0]
    kind = rng.choice(['kde', 'gmm', 'rv'])
    ncl = rng.randint(1, 5)
    cw = rng.dirichlet(np.ones(ncl))
    empty = rng.randint(ncl) if ncl > 1 and rng.randint(3) == 0 else None
    if empty is not None:
        cw[empty] = 0.0
        cw /= cw.sum()
    if kind == 'kde':
        from scipy.stats import gaussian_kde
        par, ora = [], []
        for i in range(dim):
            par.append([])
            ora.append([])
            for j in range(ncl):
                if j == empty:
                    par[i].append(None)
                    ora[i].append(None)
                    continue
                x = dom[i, 0] + w[i] * rng.uniform(size=rng.randint(3, 20))
                ww = rng.gamma(2.0, size=len(x)) + 0.1
                par[i].append(gaussian_kde(x, weights=ww))
                ora[i].append(oracle.KDE(x, ww))

        def marg(t, i):
            return sum(cw[j] * ora[i][j](t) for j in range(ncl) if j != empty)

        def joint(t):
            return np.prod([marg(t[:, i], i) for i in range(dim)], axis=0)
        params = (par, list(cw))
    elif kind == 'gmm':
        m = [dom[:, 0] + w * rng.uniform(size=dim) for _ in range(ncl)]
        v = [spd(rng, dim, 0.2 * w) for _ in range(ncl)]
        pm, pv = list(m), list(v)
        if empty is not None:
            pm[empty] = pv[empty] = None

        def marg(t, i):
            return sum(cw[j] * oracle.norm_pdf(t, m[j][i], math.sqrt(v[j][i, i]))
                       for j in range(ncl) if j != empty)

        def joint(t):
            return sum(cw[j] * oracle.mvn_pdf(t, m[j], v[j]) for j in range(ncl) if j != empty)
        params = (pm, pv, list(cw))
    else:
        params, fs = [], []
        for i in range(dim):
            k = rng.randint(4)
            loc, sc = dom[i, 0] + w[i] * rng.uniform(), w[i] * rng.uniform(0.1, 1)
            if k == 0:
                params.append(['norm', {'loc': loc, 'scale': sc}])
                fs.append(lambda t, l=loc, s=sc: oracle.norm_pdf(t, l, s))
            elif k == 1:
                params.append(['uniform', {'loc': dom[i, 0], 'scale': w[i]}])
                fs.append(lambda t, l=dom[i, 0], s=w[i]: np.where((t >= l) & (t <= l + s), 1 / s, 0.))
            elif k == 2:
                params.append(['expon', {'loc': loc, 'scale': sc}])
                fs.append(lambda t, l=loc, s=sc: np.where(t >= l, np.exp(-np.maximum(t - l, 0) / s) / s, 0.))
            else:
                a, b = rng.uniform(1, 5, 2)
                params.append(['beta', {'a': a, 'b': b, 'loc': dom[i, 0], 'scale': w[i]}])
                B = math.gamma(a) * math.gamma(b) / math.gamma(a + b)
                fs.append(lambda t, l=dom[i, 0], s=w[i], a=a, b=b, B=B: np.where(
                    (t >= l) & (t <= l + s), (np.clip((t - l) / s, 0, 1)) ** (a - 1) *
                    (1 - np.clip((t - l) / s, 0, 1)) ** (b - 1) / B / s, 0.))

        def marg(t, i):
            return fs[i](t)

        def joint(t):
            return np.prod([fs[i](t[:, i]) for i in range(dim)], axis=0)
    if empty is not None and kind != 'rv':
        ctx.ev('empty_clusters')
    ctx.ev('type:' + kind)
    return kind, params, joint, marg


def case_param(ctx, rng):
    dim = gen.few(rng, 1, 5)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'big', 'ints', 'micro']))
    s = S.sample_set(dim)
    k1, p1, j1, m1 = measure(ctx, rng, dim, dom)
    k0, p0, j0, m0 = measure(ctx, rng, dim, dom)
    s.set_prob_type(k1)
    s.set_prob_parameters(p1)
    s.set_prob_type_init(k0)
    s.set_prob_parameters_init(p0)
    ctx.ev('init_vs_updated')
    t = gen.points(rng, gen.size(rng, 1, 30, 3000), dom, 'uniform')
    ctx.describe(dim=dim, updated=k1, init=k0, params=p1)
    tc = t.copy()
    for key, pdf, mpdf, j, m in [('updated', s.pdf, s.marginal_pdf, j1, m1),
                                 ('init', s.pdf_init, s.marginal_pdf_init, j0, m0)]:
        arg = t[:, 0] if dim == 1 and rng.randint(2) else t
        got = ctx.call('pdf', pdf, arg)
        sc = np.max(j(t)) + 1e-300
        ctx.close(got, j(t), key + ':joint', rtol=1e-7, atol=1e-12 * sc)
        ctx.note(k1, k0, t, nontrivial=np.ptp(got) > 0 or len(t) == 1)
        for i in range(dim):
            arg = [t, t[:, i], t[:, i:i + 1]][rng.randint(3)]
            g = ctx.call('marginal_pdf', mpdf, arg, i)
            ctx.close(g, m(t[:, i], i), key + ':marginal', rtol=1e-7,
                      atol=1e-12 * np.max(m(t[:, i], i)), index=i)
            ctx.ev('densities_judged', len(t))
        ctx.raises('dimension', S.dim_not_matching, pdf, rng.uniform(size=(3, dim + 1)))
        ctx.ev('refusals')
    ctx.equal(t, tc, 'points-changed')
    i = rng.randint(dim)
    w = dom[i, 1] - dom[i, 0]
    grid = np.linspace(dom[i, 0] - 8 * w, dom[i, 1] + 8 * w, 20001)
    if k1 in ('kde', 'gmm'):
        y = ctx.call('marginal_pdf', s.marginal_pdf, grid, i)
        ctx.close(np.sum(0.5 * (y[1:] + y[:-1])) * (grid[1] - grid[0]), 1.0, 'marginal-mass',
                  rtol=2e-3)
        ctx.ev('integrals')
    if rng.randint(3) == 0:
        bad = S.sample_set(dim)
        bad.set_prob_type('nonsense')
        bad.set_prob_type_init('nonsense')
        ctx.raises('type', S.wrong_input, bad.pdf, t)
        ctx.raises('type', S.wrong_input, bad.pdf_init, t)
        ctx.raises('type', S.wrong_input, bad.marginal_pdf, t, 0)
        ctx.raises('type', S.wrong_input, bad.marginal_pdf_init, t, 0)
        v = S.sample_set(dim)
        v.set_prob_type_init('voronoi')
        ctx.raises('voronoi-init', S.wrong_input, v.pdf_init, t)
        ctx.raises('voronoi-init', S.wrong_input, v.marginal_pdf_init, t, 0)
        ctx.ev('refusals', 6)


def case_voronoi(ctx, rng):
    dim = rng.randint(1, 5)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'big', 'ints', 'micro']))
    n = gen.size(rng, 3, 60, 800)
    x = gen.points(rng, n, dom, 'uniform')
    s = S.sample_set(dim)
    p = gen.perm_p(rng)
    s.set_p_norm(p)
    s.set_values(x.copy())
    has_dom = bool(rng.randint(3))
    if has_dom:
        s.set_domain(dom.copy())
    size = np.prod(dom[:, 1] - dom[:, 0]) if has_dom else 1.0
    s.set_prob_type('voronoi')
    ctx.ev('type:voronoi')
    how = rng.choice(['global', 'local', 'both', 'prob_local_vol_global'])
    pr, vol = None, None

    def put(new_p, new_v):
        if how == 'global':
            s.set_probabilities(new_p.copy())
            if new_v is not None:
                s.set_volumes(new_v.copy())
        elif how == 'local':
            if s.get_values_local() is None:
                s.global_to_local()
            s.set_probabilities_local(new_p.copy())
            if new_v is not None:
                s.set_volumes_local(new_v.copy())
        elif how == 'both':
            s.set_probabilities(new_p.copy())
            if new_v is not None:
                s.set_volumes(new_v.copy())
            s.global_to_local()
        else:
            if s.get_values_local() is None:
                s.global_to_local()
            if new_v is not None:
                s.set_volumes(new_v.copy())
            s.set_probabilities_local(new_p.copy())
    t = gen.points(rng, gen.size(rng, 1, 40, 3000), dom, 'uniform')
    ctx.describe(dim=dim, n=n, p=p, how=how, domain=dom if has_dom else None)
    ctx.raises('no-probabilities', S.wrong_input, s.pdf, t)
    ctx.raises('no-probabilities', S.wrong_input, s.marginal_pdf, t, 0)
    ctx.ev('refusals', 2)
    D = oracle.dist_matrix(t, x, p)
    near = D <= D.min(axis=1, keepdims=True) + 1e-12 * np.abs(x).max()
    clear = near.sum(axis=1) == 1
    cell = np.argmax(near, axis=1)
    rounds = 1 + rng.randint(3)
    fixed_vol = rng.randint(2)
    for k in range(rounds):
        pr = gen.probs(rng, n)
        if rng.randint(4) == 0 and k == 0:
            nv = None
            ctx.ev('no_volumes')
        else:
            nv = np.array(gen.volumes(rng, n), float)
            nv[nv == 0] = 1e-3
            nv = nv / nv.sum()
        if k and (fixed_vol or how in ('global', 'prob_local_vol_global')):
            nv = None
        if k and how == 'global':
            break                   # global and local data would disagree from here on
        if nv is not None:
            vol = nv
        elif vol is None:
            vol = np.full(n, 1.0 / n)
        if k:
            ctx.ev('replaced')
        put(pr, nv)
        arg = t[:, 0] if dim == 1 and rng.randint(2) else t
        got = ctx.call('pdf', s.pdf, arg)
        want = (pr / (vol * size))[cell]
        ctx.check(np.shape(got) == (len(t),), 'voronoi:shape', shape=np.shape(got))
        ctx.close(got[clear], want[clear], 'voronoi:density', rtol=1e-9, atol=0, round=k)
        ctx.ev('densities_judged', len(t))
        # density times cell size recovers the probabilities: it integrates to one
        at = ctx.call('pdf', s.pdf, x)
        ctx.close(np.sum(at * vol * size), 1.0, 'voronoi:mass', rtol=1e-9)
        ctx.ev('integrals')
        i = rng.randint(dim)
        if 1.0 / np.sum(pr ** 2) > 1.5:
            arg = [t, t[:, i], t[:, i:i + 1]][rng.randint(3)]
            g = ctx.call('marginal_pdf', s.marginal_pdf, arg, i)
            e = oracle.KDE(x[:, i], pr)(t[:, i])
            ctx.close(g, e, 'voronoi:marginal', rtol=1e-6, atol=1e-12 * np.max(e), index=i)
        ctx.close(s.get_probabilities(), pr, 'voronoi:probabilities-changed')
    ctx.equal(s.get_values(), x, 'voronoi:values-changed')
    ctx.raises('dimension', S.dim_not_matching, s.pdf, rng.uniform(size=(3, dim + 1)))
    ctx.note(x, pr, t, p, nontrivial=n > 1)


def case_densities(ctx, rng):
    """set_densities: the stored vector, or probability over volume."""
    dim = rng.randint(1, 4)
    dom = gen.domain(rng, dim)
    n = gen.size(rng, 1, 40, 3000)
    s = S.sample_set(dim)
    s.set_values(gen.points(rng, n, dom, 'uniform'))
    pr, vol = gen.probs(rng, n), rng.dirichlet(np.ones(n)) + 1e-6
    has_dom = rng.randint(2)
    if has_dom:
        s.set_domain(dom.copy())
    size = np.prod(dom[:, 1] - dom[:, 0]) if has_dom else 1.0
    s.set_probabilities(pr.copy())
    s.set_volumes(vol.copy())
    ctx.note(pr, vol, dom, nontrivial=n > 1)
    ctx.call('set_densities', s.set_densities)
    ctx.close(s.get_densities(), pr / vol / size, 'densities', rtol=1e-9, atol=0)
    s.global_to_local()
    ctx.close(s.get_densities_local(), pr / vol / size, 'densities:localised', rtol=1e-9, atol=0)
    ctx.call('set_densities_local', s.set_densities_local)
    ctx.close(s.get_densities_local(), pr / vol / size, 'densities_local', rtol=1e-9, atol=0)
    own = rng.uniform(size=n)
    s.set_densities(own.copy())
    ctx.equal(s.get_densities(), own, 'densities:given')
    s.set_densities_local(own.copy())
    ctx.equal(s.get_densities_local(), own, 'densities_local:given')
    ctx.ev('densities_judged', n)


KINDS = [Kind('param', case_param, 800, 8000), Kind('voronoi', case_voronoi, 1500, 15000),
         Kind('densities', case_densities, 300, 3000)]
