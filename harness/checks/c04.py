"""C04: cell volumes are the fractions of the domain that the cells occupy."""
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C04'
COMM = 'real'
QUICK_X, THOROUGH_X = 3, 4
RULE = ('Random sets in random boxes. Exact methods (1D, 2D with random reflection ratio, rectangles, '
        'balls, Cartesian grids) against closed forms and an independent polygon-clipping oracle; '
        'emulated volumes against exact counts; Monte Carlo volumes, local volumes and radii against '
        'exact or densely sampled references with tolerances of at least 7 standard deviations. '
        'Non-trivial: at least two cells.')
ASSUMPTIONS = ['exact_volume_2D: distinct samples in the interior, and every sample whose cell touches '
               'a side lies within side_ratio of it (the documented reflection parameter)',
               'estimate_local_volume: equal side lengths (it measures cells in the normalised box)',
               'Monte Carlo methods are judged statistically (>= 7 sigma)']
REQUIRE = ['refusals', 'exact_cells_1d', 'exact_cells_2d', 'exact_cells_2d_default_ratio', 'mc_cells',
           'emulated_points', 'radii_cells', 'local_cells', 'empty_mc_cells', 'rings',
           'many_mc_points', 'radii_known']


def setup():
    global S
    import bet.sample as S


def common(ctx, s, v, key, total=1.0):
    vol = s.get_volumes()
    ctx.check(vol is not None and np.shape(vol) == (len(v),), key + ':shape', got=vol)
    ctx.check(bool(np.all(vol >= -1e-12)), key + ':negative', got=vol)
    if total is not None:
        ctx.close(np.sum(vol), total, key + ':sum', rtol=1e-9)
    ctx.equal(s.get_values(), v, key + ':values-changed')
    if s.get_volumes_local() is not None:
        ctx.equal(s.get_volumes_local(), vol, key + ':local')
    return vol


def case_1d(ctx, rng):
    n = gen.size(rng, 1, 60)
    dom = gen.domain(rng, 1)
    v = gen.points(rng, n, dom)
    s = S.sample_set(1)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    if rng.randint(2):
        ctx.call('global_to_local', s.global_to_local)
    ctx.call('exact_volume_1D', s.exact_volume_1D)
    vol = common(ctx, s, v, 'exact_volume_1D')
    ctx.check(s.get_volumes_local() is not None, 'exact_volume_1D:not-localised')
    u, edges = oracle.cells_1d(v[:, 0], dom[0, 0], dom[0, 1])
    want = (edges[1:] - edges[:-1]) / (dom[0, 1] - dom[0, 0])
    got = np.array([vol[v[:, 0] == t].sum() for t in u])
    ctx.close(got, want, 'exact_volume_1D', rtol=1e-8, atol=1e-10)
    ctx.ev('exact_cells_1d', len(u))
    ctx.describe(n=n, dom=dom)
    ctx.note(v, dom, nontrivial=n > 1)


def box2(rng):
    if rng.randint(3) == 0:
        return np.array([[0., 1.], [0., 1.]])
    lo = rng.uniform(-5, 5, 2)
    dom = np.column_stack([lo, lo + 10 ** rng.uniform(-1, 1, 2)])
    return dom * (10.0 ** rng.uniform(-9, 9) if rng.randint(4) == 0 else 1.0)


def case_2d(ctx, rng):
    default = rng.randint(2)
    n = gen.size(rng, 25, 60, 150) if default else gen.size(rng, 2, 30, 150)
    dom = box2(rng)
    v = gen.points(rng, n, dom, rng.choice(['uniform', 'cluster']))
    w = dom[:, 1] - dom[:, 0]
    if not default and rng.randint(4) == 0:
        # one sample within a ring of others: a cell with many sides
        n = rng.randint(8, 50)
        t = 2 * np.pi * (np.arange(n - 1) + rng.uniform(-.2, .2, n - 1)) / (n - 1)
        v = rng.uniform(.45, .55, 2) + np.vstack([np.zeros((1, 2)), rng.uniform(.2, .4) * np.column_stack([
            np.cos(t), np.sin(t)])])
        v = dom[:, 0] + w * v[rng.permutation(n)]
        ctx.ev('rings')
    v = np.clip(v, dom[:, 0] + 1e-3 * w, dom[:, 1] - 1e-3 * w)
    gap = np.abs(v[:, None] - v[None])[np.triu_indices(n, 1)].max(axis=1)
    if gap.min() < 1e-4 * w.min():
        ctx.note(nontrivial=False)
        return
    polys = oracle.voronoi_polys(v, dom)
    ratio = 0.25 if default else [1.0, rng.uniform(0.3, 1.0)][rng.randint(2)]
    for i, poly in enumerate(polys):
        for d in range(2):
            xs = [pt[d] for pt in poly]
            tol = 1e-7 * w[d]
            if min(xs) <= dom[d, 0] + tol and not v[i, d] < dom[d, 0] + ratio * w[d] - tol:
                ratio = 1.0 if not default else None
            if ratio and max(xs) >= dom[d, 1] - tol and \
                    not v[i, d] > dom[d, 1] - ratio * w[d] + tol:
                ratio = 1.0 if not default else None
            if ratio is None:
                break
        if ratio is None:
            break
    if ratio is None:
        ctx.ev('default_ratio_not_sufficient')
        ctx.note(nontrivial=False)
        return
    s = S.sample_set(2)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    if default:
        ctx.call('exact_volume_2D', s.exact_volume_2D)
        ctx.ev('exact_cells_2d_default_ratio', n)
    else:
        ctx.call('exact_volume_2D', s.exact_volume_2D, side_ratio=ratio)
    vol = common(ctx, s, v, 'exact_volume_2D')
    want = np.array([oracle.poly_area(p) for p in polys]) / np.prod(w)
    ctx.close(vol, want, 'exact_volume_2D', rtol=1e-6, atol=1e-8, ratio=ratio)
    ctx.check(s.get_volumes_local() is not None, 'exact_volume_2D:not-localised')
    ctx.ev('exact_cells_2d', n)
    ctx.describe(n=n, dom=dom, ratio=ratio)
    ctx.note(v, dom, ratio)


def case_2d_ints(ctx, rng):
    """Samples given as integers in a domain whose sides are not."""
    n = rng.randint(4, 15)
    v = np.unique(rng.randint(0, 1000, size=(n, 2)), axis=0)
    dom = np.array([[-0.3, 1000.25], [-0.6, 1000.7]])
    s = S.sample_set(2)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    ctx.call('exact_volume_2D', s.exact_volume_2D, side_ratio=1.0)
    vol = common(ctx, s, v, 'exact_volume_2D')
    want = np.array([oracle.poly_area(p) for p in oracle.voronoi_polys(v.astype(float), dom)])
    ctx.close(vol, want / np.prod(dom[:, 1] - dom[:, 0]), 'exact_volume_2D:integers', rtol=1e-7, atol=1e-9)
    ctx.ev('exact_cells_2d_integers', len(v))
    ctx.note(v)


def case_2d_boundary(ctx, rng):
    """Known finding probe: samples that lie exactly on the boundary."""
    v = np.array([[0., 0.], [1., 1.], [.5, .5], [0., 1.], [1., 0.]])
    dom = np.array([[0., 1.], [0., 1.]])
    s = S.sample_set(2)
    s.set_values(v.copy())
    s.set_domain(dom)
    s.exact_volume_2D(side_ratio=1.0)
    want = [oracle.poly_area(p) for p in oracle.voronoi_polys(v, dom)]
    ctx.note('boundary')
    ctx.close(s.get_volumes(), want, 'exact_volume_2D:samples-on-boundary', rtol=1e-6)


def before(ctx, rng, s):
    """Volumes, if any, that the set had before."""
    if rng.randint(3) == 0:
        ctx.call('estimate_volume_mc', s.estimate_volume_mc)
        ctx.ev('had_volumes')


def case_cells(ctx, rng):
    """Rectangles, Cartesian grids and balls: closed forms."""
    dim = rng.randint(1, 5)
    dom = gen.domain(rng, dim)
    w = dom[:, 1] - dom[:, 0]
    kind = rng.choice(['rect', 'cart', 'ball', 'tile'])
    if kind == 'tile':
        # a grid that covers the domain: nothing is left for the remainder
        xi = [np.concatenate([[a], np.sort(rng.uniform(a, b, rng.randint(0, 4))), [b]])
              for a, b in dom]
        s = S.cartesian_sample_set(dim)
        s.setup(xi)
        s.set_domain(dom.copy())
        before(ctx, rng, s)
        ctx.call('exact_volume_lebesgue', s.exact_volume_lebesgue)
        idx = [np.searchsorted(g, s.get_values()[:-1, d]) - 1 for d, g in enumerate(xi)]
        want = np.prod([(g[1:] - g[:-1])[i] / v for g, i, v in zip(xi, idx, w)], axis=0)
    elif kind == 'ball':
        p = gen.perm_p(rng)
        n = rng.randint(1, 6)
        s = S.ball_sample_set(dim)
        s.set_p_norm(p)
        c = gen.points(rng, n, dom, 'uniform')
        r = rng.uniform(0.01, 0.2, n) * w.min() / n
        s.setup(c, r)
        s.set_domain(dom.copy())
        before(ctx, rng, s)
        ctx.call('ball.exact_volume', s.exact_volume)
        want = np.array([oracle.ball_volume(dim, p, x) for x in r]) / np.prod(w)
    else:
        s, _, num, _ = build.out_cells(rng, dim, dom, kind)
        s.set_domain(dom.copy())
        before(ctx, rng, s)
        ctx.call('exact_volume_lebesgue', s.exact_volume_lebesgue)
        # the boxes, measured through queries rather than the set's own bookkeeping
        c = np.array(s.get_values()[:-1])
        rngw = oracle_box_widths(s, c, w, rng)
        want = np.prod(rngw / w, axis=1)
    vol = s.get_volumes()
    ctx.close(vol[:-1], want, kind + '-volume', rtol=1e-6, atol=1e-12)
    ctx.close(vol[-1], 1.0 - want.sum(), kind + '-remainder', rtol=1e-6, atol=1e-9)
    ctx.close(vol.sum(), 1.0, kind + '-sum')
    if s.get_volumes_local() is not None:
        ctx.equal(s.get_volumes_local(), vol, kind + ':local')
    ctx.ev('exact_cells_' + kind, len(want))
    ctx.describe(kind=kind, dim=dim, vol=vol)
    ctx.note(kind, vol, nontrivial=len(want) > 1)


def oracle_box_widths(s, c, w, rng):
    """Side lengths of the cells found by bisection on the set's own query."""
    n, dim = c.shape
    out = np.empty((n, dim))
    ids = np.arange(n)
    for d in range(dim):
        for sign in (+1, -1):
            lo = np.zeros(n)
            hi = np.full(n, 2.0 * w[d])
            for _ in range(60):
                mid = 0.5 * (lo + hi)
                x = c.copy()
                x[:, d] += sign * mid
                ins = s.query(x)[1] == ids
                lo, hi = np.where(ins, mid, lo), np.where(ins, hi, mid)
            out[:, d] = lo if sign > 0 else out[:, d] + lo
    return out


def case_emulated(ctx, rng):
    dim = rng.randint(1, 5)
    dom = gen.domain(rng, dim)
    n = gen.size(rng, 1, 40, 600)
    v = gen.points(rng, n, dom)
    s = S.sample_set(dim)
    p = gen.perm_p(rng)
    s.set_p_norm(p)
    s.set_values(v.copy())
    m = gen.size(rng, 1, 400, 5000)
    e = gen.points(rng, m, dom)
    es = S.sample_set(dim)
    es.set_values(e.copy())
    if rng.randint(2):
        es.global_to_local()
    if rng.randint(2):
        ctx.call('estimate_volume_emulated', s.estimate_volume_emulated, es)
    else:
        other = S.sample_set(dim)
        other.set_values(gen.points(rng, n, dom))
        if rng.randint(2):
            d = S.discretization(s, other, emulated_input_sample_set=es)
            ctx.call('estimate_input_volume_emulated', d.estimate_input_volume_emulated)
        else:
            d = S.discretization(other, s, emulated_output_sample_set=es)
            ctx.call('estimate_output_volume_emulated', d.estimate_output_volume_emulated)
        ctx.check(other.get_volumes() is None, 'emulated-wrong-set')
    vol = common(ctx, s, v, 'estimate_volume_emulated')
    D = oracle.dist_matrix(e, v, p)
    near = D <= D.min(axis=1, keepdims=True) + 1e-12 * np.abs(dom).max()
    _, ptr = ctx.call('query', s.query, e)
    ptr = build.check_ptr(ctx, ptr, near, n, 'emulated-cell')
    ctx.close(vol, np.bincount(ptr, minlength=n) / float(m), 'estimate_volume_emulated',
              rtol=1e-12)
    ctx.equal(es.get_values(), e, 'emulated-values-changed')
    ctx.ev('emulated_points', m)
    ctx.describe(dim=dim, n=n, m=m)
    ctx.note(v, e, p, nontrivial=n > 1)


def case_mc_assumption(ctx, rng):
    dim = rng.randint(1, 5)
    n = gen.size(rng, 1, 200, 5000)
    v = gen.points(rng, n, gen.domain(rng, dim))
    s = S.sample_set(dim)
    s.set_values(v.copy())
    glob = bool(rng.randint(2))
    if not glob:
        s.global_to_local()
    ctx.call('estimate_volume_mc', s.estimate_volume_mc, globalize=glob)
    if glob:
        ctx.close(s.get_volumes(), np.ones(n) / n, 'mc-assumption', rtol=1e-12)
    ctx.close(s.get_volumes_local(), np.ones(n) / n, 'mc-assumption-local', rtol=1e-12)
    ctx.describe(n=n, glob=glob)
    ctx.note(n, dim, glob, nontrivial=n > 1)


def binom_ok(got, ref, n1, n2):
    sd = np.sqrt(np.maximum(ref, 1.0 / n2) * (1.0 / n1 + 1.0 / n2))
    return np.abs(got - ref) <= 7 * sd + 6.0 / n1


def case_estimate_volume(ctx, rng):
    dim = gen.few(rng, 1, 5, 7)
    n = gen.size(rng, 1, 25, 120, 0.05)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'big', 'scales', 'micro']))
    v = gen.points(rng, n, dom, rng.choice(['uniform', 'cluster']))
    p = gen.perm_p(rng)
    s = S.sample_set(dim)
    s.set_p_norm(p)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    m = [10000, 20000, 5003][rng.randint(3)]
    if rng.randint(10) == 0:
        m = rng.randint(50001, 200000)
        ctx.ev('many_mc_points')
    which = rng.choice(['volume', 'radii_and_volume'])
    norm = bool(rng.randint(2))
    if which == 'volume':
        if m == 10000:
            ctx.call('estimate_volume', s.estimate_volume)
        else:
            ctx.call('estimate_volume', s.estimate_volume, n_mc_points=m)
    else:
        ctx.call('estimate_radii_and_volume', s.estimate_radii_and_volume, n_mc_points=m,
                 normalize=norm)
    vol = common(ctx, s, v, which)
    ctx.check(bool(np.allclose(vol * m, np.round(vol * m), atol=1e-6)), which + ':granularity',
              vol=vol, m=m)
    ref = oracle.volume_fractions(v, dom, p, rng)
    ok = binom_ok(vol, ref, m, 200000)
    ctx.check(bool(ok.all()), which + ':estimate', got=vol, ref=ref, m=m, p=p)
    ctx.ev('mc_cells', n)
    ctx.describe(which=which, dim=dim, n=n, m=m, p=p)
    ctx.note(v, dom, p, nontrivial=n > 1)


def case_radii(ctx, rng):
    """Radii never exceed the true radius of the cell and come close to it."""
    dim = rng.randint(1, 3)
    n = gen.size(rng, 1, 20, 60, 0.05)
    dom = gen.domain(rng, 1) if dim == 1 else box2(rng)
    w = dom[:, 1] - dom[:, 0]
    v = gen.points(rng, n, dom, 'uniform')
    p = 2.0 if dim == 2 else gen.perm_p(rng)
    s = S.sample_set(dim)
    s.set_p_norm(p)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    norm = bool(rng.randint(2))
    both = bool(rng.randint(2))
    m = 30 if rng.randint(4) == 0 else 20000
    f = s.estimate_radii_and_volume if both else s.estimate_radii
    ctx.call('estimate_radii', f, n_mc_points=m, normalize=norm)
    rad = s._normalized_radii if norm else s._radii
    ctx.check(rad is not None and np.shape(rad) == (n,), 'radii:shape', got=rad)
    scale = w if norm else np.ones(dim)
    sup, vol = np.empty(n), np.empty(n)
    if dim == 1:
        u, edges = oracle.cells_1d(v[:, 0], dom[0, 0], dom[0, 1])
        for i in range(n):
            j = int(np.searchsorted(u, v[i, 0]))
            sup[i] = max(v[i, 0] - edges[j], edges[j + 1] - v[i, 0]) / scale[0]
            vol[i] = (edges[j + 1] - edges[j]) / w[0]
    else:
        for i, poly in enumerate(oracle.voronoi_polys(v, dom)):
            pts = np.array(poly)
            sup[i] = np.sqrt((((pts - v[i]) / scale) ** 2).sum(axis=1)).max()
            vol[i] = oracle.poly_area(poly) / np.prod(w)
    ctx.check(bool(np.all(rad <= sup * (1 + 1e-6) + 1e-12)), 'radii:too-large', got=rad, sup=sup,
              norm=norm)
    ctx.check(bool(np.all(rad >= 0)), 'radii:negative', got=rad)
    full = vol * m >= 200
    ctx.check(bool(np.all(rad[full] >= 0.5 * sup[full])), 'radii:too-small', got=rad, sup=sup,
              norm=norm, vol=vol)
    ctx.ev('radii_cells', int(full.sum()))
    ctx.ev('empty_mc_cells', int(np.sum(rad == 0)))
    ctx.equal(s.get_values(), v, 'radii:values-changed')
    ctx.describe(dim=dim, n=n, m=m, norm=norm)
    ctx.note(v, dom, norm, m, nontrivial=n > 1)


def case_radii_grid(ctx, rng):
    """Samples on a grid have boxes as cells; a single one in every p-norm, up to the largest."""
    dim = rng.randint(1, 4) if rng.randint(4) else rng.randint(4, 6)
    dom = gen.domain(rng, dim)
    w = dom[:, 1] - dom[:, 0]
    p = [1.0, 1.5, 2.0, 3.0, 12.0, np.inf][rng.randint(6)]
    k = [rng.randint(1, 5 if dim < 3 else 3) for _ in range(dim)]
    if p > 2 or w.max() > 1e3 * w.min() or dim > 3:
        # distances may tie to rounding when one direction outweighs the others: one cell, any norm
        k = [1] * dim
    ax = [np.sort(gen.points(rng, k[d], dom[d:d + 1], 'uniform')[:, 0]) for d in range(dim)]
    half = []
    for d in range(dim):
        e = np.concatenate(([dom[d, 0]], 0.5 * (ax[d][1:] + ax[d][:-1]), [dom[d, 1]]))
        half.append((np.maximum(ax[d] - e[:-1], e[1:] - ax[d]), e[1:] - e[:-1]))
    idx = np.array(list(np.ndindex(*k))).reshape(-1, dim)
    idx = idx[rng.permutation(len(idx))]
    v = np.column_stack([ax[d][idx[:, d]] for d in range(dim)])
    s = S.sample_set(dim)
    s.set_p_norm(p)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    norm = bool(rng.randint(2))
    m = rng.randint(3000, 9000) * (1 if dim < 4 else 6)
    f = s.estimate_radii_and_volume if rng.randint(2) else s.estimate_radii
    ctx.call('estimate_radii', f, n_mc_points=m, normalize=norm)
    rad = s._normalized_radii if norm else s._radii
    ctx.check(rad is not None and np.shape(rad) == (len(v),), 'radii:shape', got=rad)
    far = np.column_stack([half[d][0][idx[:, d]] / (w[d] if norm else 1.0) for d in range(dim)])
    sup = np.linalg.norm(far, ord=p, axis=1)
    vol = np.prod(np.column_stack([half[d][1][idx[:, d]] / w[d] for d in range(dim)]), axis=1)
    slack = 1e-9 + 1e-12 * (np.abs(dom).max(axis=1) / w).max()
    ctx.check(bool(np.all(rad <= sup * (1 + slack) + slack * (1.0 if norm else w.max()))), 'radii:too-large',
              got=rad, sup=sup, norm=norm, p=p)
    # the corner box of half the extent holds 2^-dim of an octant or more
    full = vol * m >= 40 * 4 ** dim
    ctx.check(bool(np.all(rad[full] >= 0.5 * sup[full])), 'radii:too-small', got=rad, sup=sup, norm=norm, p=p)
    ctx.ev('radii_cells', int(full.sum()))
    ctx.describe(dim=dim, grid=k, m=m, norm=norm, p=p)
    ctx.note(v, dom, norm, p, nontrivial=len(v) > 1)


def case_local(ctx, rng):
    dim = rng.randint(1, 4)
    n = rng.randint(2, 9)
    lo = rng.uniform(-3, 3, dim)
    dom = np.column_stack([lo, lo + 10 ** rng.uniform(-1, 1)])
    v = gen.points(rng, n, dom, 'uniform')
    p = gen.perm_p(rng)
    s = S.sample_set(dim)
    s.set_p_norm(p)
    s.set_values(v.copy())
    s.set_domain(dom.copy())
    if rng.randint(3) == 0:
        ctx.call('estimate_radii', s.estimate_radii, n_mc_points=20000)
        ctx.ev('radii_known')
    ctx.call('estimate_local_volume', s.estimate_local_volume, num_emulate_local=1500,
             max_num_emulate=20000)
    vol = common(ctx, s, v, 'estimate_local_volume')
    ref = oracle.volume_fractions(v, dom, p, rng)
    big = ref > 0.02
    ctx.check(bool(np.all(np.abs(vol - ref)[big] <= 0.3 * ref[big])),
              'estimate_local_volume:estimate', got=vol, ref=ref, p=p)
    ctx.check(bool(np.all(vol[~big] <= 0.06)), 'estimate_local_volume:small', got=vol, ref=ref)
    ctx.ev('local_cells', int(big.sum()))
    ctx.describe(dim=dim, n=n, p=p, vol=vol)
    ctx.note(v, dom, p)


def case_local_degenerate(ctx, rng):
    """Cells so small that no Monte Carlo point reaches them still get a finite volume."""
    dim = rng.randint(1, 3)
    n = rng.randint(3, 10)
    dom = np.repeat([[0., 1.]], dim, axis=0)
    v = gen.points(rng, n, dom, 'uniform')
    v[:2] = v[2] + np.array([[1e-9], [2e-9]])
    s = S.sample_set(dim)
    s.set_p_norm(gen.perm_p(rng))
    s.set_values(v.copy())
    s.set_domain(dom)
    ctx.call('estimate_local_volume', s.estimate_local_volume, num_emulate_local=50,
             max_num_emulate=1000)
    vol = common(ctx, s, v, 'estimate_local_volume')
    ctx.check(bool(np.all(np.isfinite(vol))), 'estimate_local_volume:finite', got=vol)
    ctx.ev('empty_mc_cells', int(np.sum(s._normalized_radii == 0)))
    ctx.describe(dim=dim, n=n)
    ctx.note(v, s.get_p_norm())


def case_refuse(ctx, rng):
    """Exact volumes of other dimensions, or of inconsistent sets, are refused."""
    for good, name in ((1, 'exact_volume_1D'), (2, 'exact_volume_2D')):
        dim = int(rng.choice([d for d in (1, 2, 3, 4) if d != good]))
        n = rng.randint(2, 9)
        s = S.sample_set(dim)
        s.set_domain(np.repeat([[0., 1.]], dim, axis=0))
        s.set_values(rng.uniform(size=(n, dim)))
        ctx.raises(name, S.dim_not_matching, getattr(s, name))
        ctx.check(s.get_volumes() is None, name + ':refused-but-set')
        s = S.sample_set(good)
        s.set_domain(np.repeat([[0., 1.]], good, axis=0))
        s.set_values(rng.uniform(size=(n, good)))
        s.set_probabilities(np.ones(n + 1))
        for f in (getattr(s, name), s.estimate_volume, s.estimate_volume_mc):
            ctx.raises('inconsistent', S.length_not_matching, f)
        ctx.check(s.get_volumes() is None, name + ':refused-but-set')
        ctx.ev('refusals', 4)
    ctx.note(rng.randint(10 ** 9))


KINDS = [Kind('refuse', case_refuse, 20, 100), Kind('one_d', case_1d, 600, 6000), Kind('two_d', case_2d, 400, 3500),
         Kind('two_d_ints', case_2d_ints, 30, 300),
         Kind('two_d_boundary', case_2d_boundary, 1, 1),
         Kind('cells', case_cells, 400, 4000), Kind('emulated', case_emulated, 600, 6000),
         Kind('mc_assumption', case_mc_assumption, 60, 300),
         Kind('estimate_volume', case_estimate_volume, 80, 1500),
         Kind('radii', case_radii, 160, 2500),
         Kind('radii_grid', case_radii_grid, 150, 2500), Kind('local', case_local, 60, 700),
         Kind('local_degenerate', case_local_degenerate, 30, 300)]
