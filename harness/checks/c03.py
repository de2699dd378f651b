"""C03: every point is associated with the cell that contains it."""
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C03'
COMM = 'real'
QUICK_X, THOROUGH_X = 18, 10
RULE = ('Random Voronoi, rectangle, ball and Cartesian sets (dim 1-5, p-norm 1, 2, 3, inf) queried at '
        'random, coincident, boundary and outside points with k from 1 to 6, before and after the '
        'values change; pointers of discretizations through histories that replace the sets. '
        'Non-trivial: at least two cells and two query points.')
REQUIRE = ['cell_assignments', 'voronoi_requery', 'boundary_points', 'outside_points', 'knn_rows',
           'pointers_checked', 'overlap_rows', 'sphere_points', 'moved_samples']


def setup():
    global S
    import bet.sample as S


def case_voronoi(ctx, rng):
    dim = gen.few(rng, 1, 6, 10)
    n = rng.randint(1, 60) if rng.uniform() < 0.95 else rng.randint(200, 1500)
    dom = gen.domain(rng, dim)
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](dim)
    p = gen.perm_p(rng)
    s.set_p_norm(p)
    for step in range(1 + rng.randint(3)):
        v = gen.points(rng, n, dom)
        if step and rng.randint(4) == 0 and s.get_values().flags.writeable:
            s.get_values()[...] = v                   # replaced in place
            v = np.array(s.get_values())
        elif step == 0 or rng.randint(2):
            s.set_values(v.copy())
        else:
            # values may also be replaced through the domain normalisation
            s.set_domain(dom.copy())
            v = (np.array(s.get_values()) - dom[:, 0]) / (dom[:, 1] - dom[:, 0])
            ctx.call('normalize_domain', s.normalize_domain)
            dom = np.repeat([[0.0, 1.0]], dim, axis=0)
            v = np.array(s.get_values())
        if step:
            ctx.ev('voronoi_requery')
        if rng.randint(3) == 0:
            p = gen.perm_p(rng)
            s.set_p_norm(p)
        m = gen.size(rng, 1, 40, 1000)
        w = dom[:, 1] - dom[:, 0]
        x = dom[:, 0] - 0.2 * w + rng.uniform(0, 1.4, (m, dim)) * w
        k0 = rng.randint(0, m + 1)
        x[:k0] = v[rng.randint(n, size=k0)]           # exactly on generators
        k = 1 if rng.randint(2) else rng.randint(1, min(n, 6) + 1)
        xc = x.copy()
        dist, ptr = ctx.call('voronoi.query', s.query, x, k=k)
        ctx.equal(x, xc, 'query-points-changed')
        ctx.equal(s.get_values(), v, 'query-changed-values')
        D = oracle.dist_matrix(x, v, p)
        tol = 1e-9 * (np.abs(x).max() + np.abs(v).max())
        srt = np.sort(D, axis=1)[:, :k]
        dist, ptr = np.asarray(dist), np.asarray(ptr)
        want_shape = (m,) if k == 1 else (m, k)
        ctx.check(dist.shape == want_shape and ptr.shape == want_shape, 'voronoi-shape',
                  dist=dist.shape, ptr=ptr.shape, want=want_shape)
        dist, ptr = dist.reshape(m, k), ptr.reshape(m, k)
        ctx.check(bool(np.all((ptr >= 0) & (ptr < n))), 'voronoi-range', ptr=ptr)
        ctx.check(bool(np.all(np.abs(dist - srt) <= tol)), 'voronoi-distance', dist=dist,
                  want=srt, p=p)
        ctx.check(bool(np.all(np.abs(np.take_along_axis(D, ptr, 1) - srt) <= tol)),
                  'voronoi-nearest', ptr=ptr, p=p, k=k, x=x, values=v)
        ctx.check(all(len(set(r)) == k for r in ptr.tolist()), 'voronoi-repeats', ptr=ptr)
        ctx.ev('cell_assignments', m)
        ctx.ev('knn_rows', m if k > 1 else 0)
        ctx.ev('outside_points', int(np.sum(np.any((x < dom[:, 0]) | (x > dom[:, 1]), axis=1))))
    ctx.describe(dim=dim, n=n, p=p, k=k)
    ctx.note(v, x, p, k, nontrivial=n > 1 and m > 1)


def judge_membership(ctx, inside, dist, ptr, k, key, **d):
    """inside: (m, n) membership by definition.  The first k cells that hold the
    point are reported with distance 0, the rest is the remainder at infinity."""
    m, n = inside.shape
    dist, ptr = np.asarray(dist), np.asarray(ptr)
    want_shape = (m,) if k == 1 else (m, k)
    ctx.check(dist.shape == want_shape and ptr.shape == want_shape, key + ':shape',
              dist=dist.shape, ptr=ptr.shape, want=want_shape, **d)
    dist, ptr = dist.reshape(m, k), ptr.reshape(m, k)
    want_p = np.full((m, k), n)
    want_d = np.full((m, k), np.inf)
    for r in range(m):
        hold = np.where(inside[r])[0][:k]
        want_p[r, :len(hold)] = hold
        want_d[r, :len(hold)] = 0.0
    ctx.equal(ptr, want_p, key, **d)
    ctx.equal(dist, want_d, key + ':distance', **d)
    ctx.ev('cell_assignments', m)
    ctx.ev('knn_rows', m if k > 1 else 0)
    ctx.ev('outside_points', int(np.sum(~inside.any(axis=1))))
    ctx.ev('overlap_rows', int(np.sum(inside.sum(axis=1) > 1)))


def case_rect(ctx, rng):
    dim = gen.few(rng, 1, 5)
    n = rng.randint(1, 9) if rng.uniform() < 0.9 else rng.randint(20, 200)
    dom = gen.domain(rng, dim)
    a, b = gen.points(rng, n, dom, 'lattice'), gen.points(rng, n, dom, 'lattice')
    if rng.randint(2):
        a, b = gen.points(rng, n, dom, 'uniform'), gen.points(rng, n, dom, 'uniform')
    mins, maxs = np.minimum(a, b), np.maximum(a, b)
    s = S.rectangle_sample_set(dim)
    args = (maxs, mins) if rng.randint(2) else (maxs.tolist(), mins.tolist())
    ctx.call('rectangle.setup', s.setup, *args)
    ctx.equal(s.get_values()[:-1], 0.5 * (maxs + mins), 'rectangle-midpoints')
    ctx.check(s.check_num() == n + 1, 'rectangle-count', got=s.check_num(), want=n + 1)
    m = gen.size(rng, 1, 40, 1000)
    x = np.vstack([gen.points(rng, m, dom, 'lattice'), gen.points(rng, m, dom, 'uniform'),
                   mins[rng.randint(n, size=3)], maxs[rng.randint(n, size=3)],
                   maxs[rng.randint(n, size=2)] + 1e3 * (dom[:, 1] - dom[:, 0])])
    ctx.ev('boundary_points', 6)
    k = 1 if rng.randint(2) else rng.randint(1, 6)
    xc = x.copy()
    dist, ptr = ctx.call('rectangle.query', s.query, x, k=k)
    ctx.equal(x, xc, 'query-points-changed')
    inside = np.array([[all(mins[i, d] < x[r, d] <= maxs[i, d] for d in range(dim))
                        for i in range(n)] for r in range(len(x))])
    judge_membership(ctx, inside, dist, ptr, k, 'rectangle-membership', mins=mins, maxs=maxs)
    ctx.describe(dim=dim, n=n, k=k, points=len(x))
    ctx.note(mins, maxs, x, k)


def case_cart(ctx, rng):
    dim = rng.randint(1, 5)
    dom = gen.domain(rng, dim)
    xi = []
    for d in range(dim):
        g = np.sort(rng.uniform(dom[d, 0], dom[d, 1], rng.randint(2, 6 if dim < 3 else 4) if rng.randint(12) else
                                [60, 12, 6, 4][dim - 1]))
        xi.append(g if rng.randint(2) or dim > 1 else g)
    s = S.cartesian_sample_set(dim)
    ctx.call('cartesian.setup', s.setup, xi)
    num = int(np.prod([len(g) - 1 for g in xi]))
    ctx.check(s.check_num() == num + 1, 'cartesian-count', got=s.check_num(), want=num + 1)
    x = np.vstack([gen.points(rng, rng.randint(1, 30), dom, 'uniform'),
                   np.column_stack([g[rng.randint(len(g), size=10)] for g in xi])])
    ctx.ev('boundary_points', 10)
    dist, ptr = ctx.call('cartesian.query', s.query, x)
    # grid index of a point per axis: interval (g[j], g[j+1]]
    idx = np.column_stack([np.searchsorted(g, x[:, d], side='left') - 1
                           for d, g in enumerate(xi)])
    inside = np.all([(idx[:, d] >= 0) & (idx[:, d] < len(g) - 1) for d, g in enumerate(xi)], axis=0)
    ctx.check(bool(np.all((ptr == num) == ~inside)), 'cartesian-inside', ptr=ptr, inside=inside)
    c = np.array(s.get_values())
    mid = [0.5 * (g[1:] + g[:-1]) for g in xi]
    for r in np.where(inside)[0]:
        want = np.array([mid[d][idx[r, d]] for d in range(dim)])
        ctx.check(np.allclose(c[ptr[r]], want, rtol=1e-12, atol=0), 'cartesian-cell', x=x[r],
                  got=c[ptr[r]], want=want)
    # every grid cell exists exactly once
    keys = {tuple(int(np.argmin(np.abs(mid[d] - row[d]))) for d in range(dim)) for row in c[:-1]}
    ctx.check(len(keys) == num, 'cartesian-cells-distinct', got=len(keys), want=num)
    ctx.ev('cell_assignments', len(x))
    ctx.ev('outside_points', int(np.sum(~inside)))
    ctx.describe(dim=dim, cells=num, points=len(x))
    ctx.note(x, *xi)


def case_ball(ctx, rng):
    dim = gen.few(rng, 1, 5)
    n = gen.size(rng, 1, 8, 200)
    dom = gen.domain(rng, dim)
    w = (dom[:, 1] - dom[:, 0])
    c = gen.points(rng, n, dom, 'uniform')
    r = rng.uniform(0.05, 0.8, n) * w.min()
    lattice = rng.randint(3) == 0
    if lattice:
        c, r = rng.randint(-4, 5, (n, dim)).astype(float), rng.randint(1, 5, n).astype(float)
    p = gen.perm_p(rng)
    s = S.ball_sample_set(dim)
    s.set_p_norm(p)
    ctx.call('ball.setup', s.setup, c if rng.randint(2) else c.tolist(),
             r if rng.randint(2) else r.tolist())
    ctx.equal(s.get_values()[:-1], c, 'ball-centers')
    m = gen.size(rng, 1, 40, 1000)
    x = np.vstack([gen.points(rng, m, dom, 'uniform'), c,
                   c + rng.uniform(-1, 1, (n, dim)) * r[:, None]])
    D = oracle.dist_matrix(x, c, p)
    clear = np.all(np.abs(D - r) > 1e-9 * np.abs(x).max(), axis=1)
    x, inside = x[clear], (D < r)[clear]
    if lattice:
        # whole numbers: being on the sphere is decided exactly
        x = np.vstack([rng.randint(-6, 7, (30, dim)), c + np.eye(dim)[0] * r[:, None]])
        x = x.astype([float, int][rng.randint(2)])
        Z = np.abs(x[:, None, :].astype(int) - c[None].astype(int))
        if np.isinf(p):
            z, zr = Z.max(axis=2), r.astype(int)
        else:
            z, zr = (Z ** int(p)).sum(axis=2), r.astype(int) ** int(p)
        inside = z < zr
        clear = np.all(z != zr, axis=1) if p == 3 else np.ones(len(x), bool)
        x, inside = x[clear], inside[clear]
        ctx.ev('sphere_points', int(np.sum((z == zr)[clear])))
    if not len(x):
        return
    k = 1 if rng.randint(2) else rng.randint(1, 6)
    dist, ptr = ctx.call('ball.query', s.query, x, k=k)
    judge_membership(ctx, inside, dist, ptr, k, 'ball-membership', p=p, centers=c, radii=r)
    ctx.describe(dim=dim, n=n, p=p, k=k)
    ctx.note(c, r, x, p, k)


def case_pointers(ctx, rng):
    di, do = rng.randint(1, 4), rng.randint(1, 4)
    dom, odom = gen.domain(rng, di), gen.domain(rng, do)

    def vor(dim, dm, n=None):
        s = S.sample_set(dim)
        p = gen.perm_p(rng)
        v = gen.points(rng, n or gen.size(rng, 1, 50), dm)
        s.set_values(v.copy())
        s.set_p_norm(p)
        if rng.randint(2):
            ctx.call('global_to_local', s.global_to_local)
        return s, v, p

    n = gen.size(rng, 1, 50)
    ins, x, px = vor(di, dom, n)
    outs, q, _ = vor(do, odom, n)
    es, e, _ = vor(di, dom)
    eo, f, _ = vor(do, odom)
    pset, allowed, num, kind = build.out_cells(rng, do, odom)
    d = S.discretization(ins, outs, output_probability_set=pset,
                         emulated_input_sample_set=es, emulated_output_sample_set=eo)
    for step in range(1 + rng.randint(4)):
        redo = None
        if step:
            op = rng.choice(['cells', 'outs', 'ins', 'ei', 'eo', 'values', 'none'])
            if op == 'cells':
                pset, allowed, num, kind = build.out_cells(rng, do, odom)
                ctx.call('set_output_probability_set', d.set_output_probability_set, pset)
            elif op == 'outs':
                outs, q, _ = vor(do, odom, n)
                ctx.call('set_output_sample_set', d.set_output_sample_set, outs)
            elif op == 'ins':
                ins, x, px = vor(di, dom, n)
                ctx.call('set_input_sample_set', d.set_input_sample_set, ins)
            elif op == 'ei':
                es, e, _ = vor(di, dom)
                ctx.call('set_emulated_input_sample_set', d.set_emulated_input_sample_set, es)
            elif op == 'eo':
                eo, f, _ = vor(do, odom)
                ctx.call('set_emulated_output_sample_set', d.set_emulated_output_sample_set, eo)
            elif op == 'values':
                # samples moved within their set: pointers asked for afterwards follow them
                redo, t, dm, k = [('io', outs, odom, n), ('emulated_ii', es, dom, len(e)),
                                  ('emulated_oo', eo, odom, len(f))][rng.randint(3)]
                v = gen.points(rng, k, dm)
                t.set_values(v.copy())
                ctx.call('global_to_local', t.global_to_local)
                q, e, f = (v if redo == 'io' else q), (v if redo == 'emulated_ii' else e), \
                    (v if redo == 'emulated_oo' else f)
                ctx.ev('moved_samples')
        # a pointer that is there may never contradict the sets that are there
        near = oracle.dist_matrix(e, x, px)
        near = near <= near.min(axis=1, keepdims=True) + 1e-12 * np.abs(dom).max()
        table = [('io', d.get_io_ptr, d.set_io_ptr, allowed(q), num),
                 ('emulated_ii', d.get_emulated_ii_ptr, d.set_emulated_ii_ptr, near, n),
                 ('emulated_oo', d.get_emulated_oo_ptr, d.set_emulated_oo_ptr, allowed(f), num)]
        for name, get, put, ok, size in table:
            if get() is not None and name != redo:
                build.check_ptr(ctx, get(), ok, size, 'stale-pointer:' + name, step=step)
                ctx.ev('pointers_checked')
            if rng.randint(3) or name == redo:
                glob = bool(rng.randint(2))
                if glob and rng.randint(2):
                    ctx.call('set_%s_ptr' % name, put)
                else:
                    ctx.call('set_%s_ptr' % name, put, globalize=glob)
                if not glob:
                    ctx.call('globalize_ptrs', d.globalize_ptrs)
                build.check_ptr(ctx, get(), ok, size, 'pointer:' + name, step=step)
                ctx.ev('pointers_checked')
    ctx.describe(n=n, cells=num, kind=kind, emulated=len(e))
    ctx.note(x, q, e, f, nontrivial=n > 1)


def case_reject(ctx, rng):
    dim = rng.randint(2, 5)
    bad = (S.length_not_matching,)
    pts = lambda k: rng.uniform(0, 1, (k, dim))
    s = S.rectangle_sample_set(dim)
    ctx.raises('rectangle.setup', bad, s.setup, pts(3) + 1, pts(2))
    ctx.raises('rectangle.setup', bad, s.setup, (pts(3) + 1)[:, 1:], pts(3)[:, 1:])
    s = S.ball_sample_set(dim)
    ctx.raises('ball.setup', bad, s.setup, pts(3), [0.1, 0.2])
    ctx.raises('ball.setup', bad, s.setup, pts(3)[:, 1:], [0.1, 0.2, 0.3])
    s = S.cartesian_sample_set(dim)
    ctx.raises('cartesian.setup', (S.dim_not_matching,), s.setup,
               [np.linspace(0, 1, 3)] * (dim - 1))
    ctx.note(dim)


KINDS = [Kind('voronoi', case_voronoi, 900, 12000), Kind('rect', case_rect, 500, 5000),
         Kind('cart', case_cart, 300, 3000), Kind('ball', case_ball, 500, 5000),
         Kind('pointers', case_pointers, 500, 5000), Kind('reject', case_reject, 10, 50)]
