"""C16: clusters have the stated layout and gradients approximated on them are the model's."""
import math
import numpy as np
from core import Kind
import gen
import build

ID = 'C16'
COMM = 'real'
QUICK_X, THOROUGH_X = 8, 6
RULE = ('Clusters (Lp balls cut by the domain, forward and centred stencils) around random centres, also on '
        'corners and edges of the domain, evaluated by affine, quadratic and transcendental maps with any '
        'number of outputs; every kernel, shape parameter, number of neighbours and centres. Non-trivial: '
        'more than one centre or more than one input or output.')
REQUIRE = ['clusters', 'points_in_balls', 'radial_tests', 'stencils', 'ffd', 'cfd', 'rbf', 'default_shape', 'affine_exact',
           'quadratic_exact', 'missing_outputs', 'normalised', 'kernels', 'corner_centres', 'refusals',
           'other_p_norm', 'constant_outputs', 'output_units', 'many_centres', 'many_inputs']
ASSUMPTIONS = ['RBF systems with condition number above 1e7 are not judged (counted as trivial)',
               'stencil radii are small multiples of the widths, so that rounding stays below 1e-6']


def setup():
    global S, G
    import bet.sample as S
    import bet.sensitivity.gradients as G


def centres(ctx, rng, dim, dom=None, n=None):
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'scales', 'ints', 'micro'])) if dom is None else dom
    n = n or gen.size(rng, 1, 7, 400, 0.04)
    c = gen.points(rng, n, dom, 'uniform')
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](dim)
    s.set_values(c.copy())
    if rng.randint(3):
        s.set_domain(dom.copy())
    return s, c, dom


def unit_norm(z, p):
    z = np.abs(z)
    if np.isinf(p):
        return z.max(axis=1)
    m = z.max(axis=1, keepdims=True)
    m[m == 0] = 1.0
    return m[:, 0] * ((z / m) ** p).sum(axis=1) ** (1.0 / p)


def case_ball(ctx, rng):
    dim = rng.randint(1, 5)
    s, c, dom = centres(ctx, rng, dim)
    w = dom[:, 1] - dom[:, 0]
    n = len(c)
    corner = rng.randint(3) == 0
    if corner:
        at = rng.randint(0, 3, size=(n, dim))
        c = np.where(at == 0, dom[:, 0], np.where(at == 1, dom[:, 1], c))
        s.set_values(c.copy())
        ctx.ev('corner_centres')
    num = int(rng.choice([1, 2, dim, dim + 1, 30, 200]))
    which = rng.randint(3)
    p = [1.0, np.inf, float(rng.choice([0.5, 1.5, 2, 3, 8]))][which]
    if rng.randint(2):
        radius = float(rng.uniform(0.02, 0.4) * w.min())
        rv = np.full(dim, radius)
    else:
        radius = rv = rng.uniform(0.02, 0.4, dim) * w
    snap = build.snapshot(s)
    ctx.describe(dim=dim, n=n, num=num, p=p, radius=radius, domain=s.get_domain())
    if which == 0:
        k = ctx.call('sample_l1_ball', G.sample_l1_ball, s, num, radius)
    elif which == 1:
        k = ctx.call('sample_linf_ball', G.sample_linf_ball, s, num, radius)
    elif p == 2 and rng.randint(2):
        k = ctx.call('sample_lp_ball', G.sample_lp_ball, s, num, radius)
    else:
        k = ctx.call('sample_lp_ball', G.sample_lp_ball, s, num, radius, p)
    ctx.ev('clusters', n)
    build.unchanged(ctx, s, snap, 'ball:argument-changed')
    v = k.get_values()
    ctx.check(k.get_dim() == dim and v.shape == (n * (num + 1), dim), 'ball:shape', shape=v.shape)
    ctx.equal(v[:n], c, 'ball:centres-first')
    if s.get_domain() is not None:
        ctx.equal(k.get_domain(), dom, 'ball:domain')
        t = 1e-12 * np.abs(dom).max()
        ctx.check(np.all(v >= dom[:, 0] - t) and np.all(v <= dom[:, 1] + t), 'ball:outside-domain',
                  values=v)
    else:
        ctx.check(k.get_domain() is None, 'ball:domain-invented')
    u = []
    for i in range(n):
        z = (v[n + i * num:n + (i + 1) * num] - c[i]) / rv
        r = unit_norm(z, p)
        slack = 1e-9 + 1e-14 * np.abs(c[i] / rv).max()
        ctx.ev('points_in_balls', num)
        ctx.check(r.max() <= 1 + slack, 'ball:outside-ball', centre=i, norm=r)
        # is the ball cut only through its centre (or not at all)?
        whole = True
        if s.get_domain() is not None:
            room = np.minimum(np.where(c[i] == dom[:, 0], np.inf, c[i] - dom[:, 0]),
                              np.where(c[i] == dom[:, 1], np.inf, dom[:, 1] - c[i]))
            whole = bool(np.all(room >= rv))
        if whole:
            u.append(r ** dim)
            if s.get_domain() is None and num >= 30:
                # both signs of every coordinate, binomial at one in 1e12
                pos = (z > 0).sum(axis=0)
                ctx.check(np.all(np.abs(pos - num / 2.0) <= 3.7 * math.sqrt(num)), 'ball:one-sided',
                          positive=pos, num=num)
    if u:
        u = np.sort(np.concatenate(u))
        m = len(u)
        if m >= 8:
            D = max(np.max(np.arange(1, m + 1) / float(m) - u), np.max(u - np.arange(m) / float(m)))
            ctx.ev('radial_tests')
            ctx.check(math.sqrt(m) * D < 3.8, 'ball:not-uniform', distance=D, points=m)
    ctx.note(v, nontrivial=n > 1 or dim > 1)


def model(ctx, rng, dim, odim, kind, dom):
    """A map with its exact jacobian; arguments are scaled to the unit box first."""
    lo, w = dom[:, 0], dom[:, 1] - dom[:, 0]
    A = rng.normal(size=(odim, dim))
    unit = 1.0
    if rng.randint(6) == 0:      # outputs in large or small units
        unit = 10.0 ** rng.choice([-14, -8, 8, 14])
        ctx.ev('output_units')
    if odim > 1 and rng.randint(4) == 0:
        A[rng.randint(odim)] = 0.0
        ctx.ev('constant_outputs')
    b = rng.normal(size=odim)
    if kind != 'other':
        A, b = A * unit, b * unit
    if kind == 'affine':
        return lambda x: ((x - lo) / w).dot(A.T) + b, lambda x: np.tile(A / w, (len(x), 1, 1))
    if kind == 'quad':
        Q = unit * rng.normal(size=(odim, dim, dim))
        Q = Q + Q.transpose(0, 2, 1)

        def f(x):
            y = (x - lo) / w
            return y.dot(A.T) + b + 0.5 * np.einsum('ni,oij,nj->no', y, Q, y)

        def J(x):
            y = (x - lo) / w
            return (A[None] + np.einsum('oij,nj->noi', Q, y)) / w
        return f, J

    def f(x):
        y = (x - lo) / w
        return unit * (np.sin(y.dot(A.T) + b) + np.exp(0.3 * y.dot(A.T[:, ::-1])))
    return f, None


def judge(ctx, out, c, fc, J, dom_in, dom_out, normalize, key, tol):
    """out has the centres, their outputs and J (normalised by rows if asked)."""
    i, o = out.get_input_sample_set(), out.get_output_sample_set()
    ctx.equal(i.get_values(), c, key + ':centres')
    ctx.equal(o.get_values(), fc, key + ':outputs-of-centres')
    ctx.check(out.check_nums() == len(c), key + ':numbers')
    for st, dm in ((i, dom_in), (o, dom_out)):
        if dm is None:
            ctx.check(st.get_domain() is None, key + ':domain-invented')
        else:
            ctx.equal(st.get_domain(), dm, key + ':domain')
    got = i.get_jacobians()
    ctx.check(got.shape == J.shape, key + ':shape', shape=got.shape, want=J.shape)
    tol = np.broadcast_to(np.asarray(tol, float), J.shape)
    if normalize:
        ctx.ev('normalised')
        nrm = np.abs(J).sum(axis=2, keepdims=True)
        flat = np.abs(J).max(axis=2, keepdims=True) == 0
        big = nrm > 1e3 * tol.sum(axis=2, keepdims=True)
        want = J / np.where(flat, 1.0, nrm)
        ok = np.abs(got - want) <= 1e-9 + 4 * tol.sum(axis=2, keepdims=True) / np.where(nrm == 0, 1, nrm)
        ctx.check(bool(np.all(ok | ~(big | flat))), key + ':normalised', got=got, want=want)
        n1 = np.abs(got).sum(axis=2)
        ctx.check(bool(np.all((np.abs(n1 - 1) < 1e-9) | (n1 == 0))), key + ':unit-length', lengths=n1)
    else:
        ctx.check(bool(np.all(np.abs(got - J) <= tol + 1e-10 * np.abs(J))), key, got=got, want=J)


def case_fd(ctx, rng):
    dim, odim = gen.few(rng, 1, 5), gen.few(rng, 1, 6, 12)
    s, c, dom = centres(ctx, rng, dim)
    w = dom[:, 1] - dom[:, 0]
    n = len(c)
    centred = bool(rng.randint(2))
    name = 'cfd' if centred else 'ffd'
    ctx.ev(name)
    if rng.randint(3) == 0:
        r0 = float(rng.uniform(1e-3, 0.1) * w.min())
        rv = np.full(dim, r0)
        radius = r0 if rng.randint(2) else [r0] * dim
    else:
        radius = rv = rng.uniform(1e-3, 0.1, dim) * w
    if rng.randint(8) == 0:
        radius = rv = -rv        # backward stencils are stencils as well
    snap = build.snapshot(s)
    k = ctx.call('pick_' + name, getattr(G, 'pick_%s_points' % name), s, radius)
    build.unchanged(ctx, s, snap, name + ':argument-changed')
    v = k.get_values()
    per = (2 if centred else 1) * dim
    ctx.check(v.shape == (n * (per + 1), dim), name + ':shape', shape=v.shape)
    ctx.equal(v[:n], c, name + ':centres-first')
    eye = np.eye(dim) * rv
    moves = np.concatenate([eye, -eye]) if centred else eye
    want = (c[:, None, :] + moves[None]).reshape(-1, dim)
    ctx.close(v[n:], want, name + ':stencil', rtol=1e-14, atol=1e-14 * np.abs(dom).max())
    if s.get_domain() is None:
        ctx.check(k.get_domain() is None, name + ':domain-invented')
    else:
        ctx.equal(k.get_domain(), dom, name + ':domain')
    ctx.ev('stencils', n)
    if n > 60:
        ctx.ev('many_centres')
    kind = rng.choice(['affine', 'quad', 'other'])
    f, jac = model(ctx, rng, dim, odim, kind, dom)
    q = f(v)
    if rng.randint(4) == 0:
        q[rng.uniform(size=q.shape) < 0.15] = np.nan
    miss = bool(np.isnan(q).any())
    z = np.where(np.isnan(q), 0.0, q)
    o = S.sample_set(odim)
    o.set_values(q.copy())
    dom_out = None
    if rng.randint(2):
        dom_out = np.column_stack([np.full(odim, -9.0), np.full(odim, 9.0)])
        o.set_domain(dom_out.copy())
    d = S.discretization(k, o)
    normalize = bool(rng.randint(2))
    a = {} if normalize and rng.randint(2) else {'normalize': normalize}
    ctx.describe(dim=dim, odim=odim, n=n, method=name, map=kind, radius=rv, normalize=normalize, missing=miss)
    si, so = build.snapshot(k), build.snapshot(o)
    out = ctx.call('calculate_gradients_' + name, getattr(G, 'calculate_gradients_' + name), d, **a)
    build.unchanged(ctx, k, si, name + ':input-changed')
    build.unchanged(ctx, o, so, name + ':output-changed')
    st = z[n:].reshape(n, per, odim)
    if centred:
        J = ((st[:, :dim] - st[:, dim:]) / (2 * rv)[None, :, None]).transpose(0, 2, 1)
    else:
        J = ((st - z[:n, None, :]) / rv[None, :, None]).transpose(0, 2, 1)
    eps = 4e-16 * np.abs(z).max() / np.abs(rv) + \
        np.abs(J).max() * 4e-16 * np.abs(dom).max() / np.abs(rv) * 4
    dom_in = dom if s.get_domain() is not None else None
    judge(ctx, out, c, z[:n], J, dom_in, dom_out, normalize, name, 8 * eps[None, None, :])
    if miss:
        ctx.ev('missing_outputs')
    elif jac is not None and (kind == 'affine' or centred):
        # exactness of the rule, independent of how the stencil is combined
        Je = jac(c)
        tol = (eps * 16)[None, None, :] + 1e-9 * np.abs(Je).max()
        judge(ctx, out, c, z[:n], Je, dom_in, dom_out, normalize, name + ':exact-for-' + kind, tol)
        ctx.ev('affine_exact' if kind == 'affine' else 'quadratic_exact')
    ctx.note(v, q, nontrivial=n > 1 or dim > 1 or odim > 1)


KERNELS = {
    'C4Matern': (lambda t: (1 + t + t * t / 3) * np.exp(-t), lambda t: -t * (1 + t) / 3 * np.exp(-t)),
    'Gaussian': (lambda t: np.exp(-t * t), lambda t: -2 * t * np.exp(-t * t)),
    'Multiquadric': (lambda t: np.sqrt(1 + t * t), lambda t: t / np.sqrt(1 + t * t)),
    'InverseMultiquadric': (lambda t: 1 / np.sqrt(1 + t * t), lambda t: -t * (1 + t * t) ** -1.5)}


def case_kernel(ctx, rng):
    """The kernels and their partial derivatives, at any distances."""
    name = str(rng.choice(sorted(KERNELS)))
    ep = float(10 ** rng.uniform(-2, 1))
    dim = rng.randint(1, 4)
    x = rng.normal(size=(dim, rng.randint(1, 9))) * 10 ** rng.uniform(-2, 1)
    if rng.randint(4) == 0:
        x[:, 0] = 0.0
    r = np.sqrt((x ** 2).sum(axis=0))
    phi, dphi = KERNELS[name]
    text = ''.join(list(name))     # not the interned literal
    args = (text, ep)
    form = rng.randint(3)
    if form == 0:
        ep, args = 1.0, (text,)
    elif form == 1 and name == 'C4Matern':
        ep, args = 1.0, ()
    ctx.describe(kernel=name, ep=ep, r=r)
    ctx.ev('kernels')
    ctx.close(ctx.call('rbf', G.radial_basis_function, r.copy(), *args), phi(ep * r), 'kernel:value',
              rtol=1e-12, atol=1e-300)
    safe = np.where(r == 0, 1.0, r)
    want = np.where(r == 0, 0.0, ep * dphi(ep * r) * x / safe)
    got = ctx.call('rbf_dxi', G.radial_basis_function_dxi, np.tile(r, (dim, 1)), x.copy(), *args)
    ctx.close(got, want, 'kernel:derivative', rtol=1e-10, atol=1e-300)
    ctx.note(x, ep)


def case_rbf(ctx, rng):
    dim, odim = gen.few(rng, 1, 4, 6, 0.1), rng.randint(1, 5)
    dom = gen.domain(rng, dim, rng.choice(['unit', 'shift', 'neg', 'ints']))
    s, c, dom = centres(ctx, rng, dim, dom, gen.size(rng, 1, 6, 120, 0.03))
    n = len(c)
    w = (dom[:, 1] - dom[:, 0]).min()
    default = rng.randint(3) == 0
    num = dim + 1 if default else rng.randint(dim + 1, dim + 5)
    k = G.sample_lp_ball(s, num, float(rng.uniform(0.2, 0.6) * w), [1, 2, np.inf][rng.randint(3)])
    v = k.get_values().copy()
    N = len(v)
    nn = None if default else int(rng.randint(2, min(N, dim + 6) + 1))
    pn = 2.0
    if nn is not None and rng.randint(3) == 0 and N < 20:
        nn, pn = N, [1.0, np.inf][rng.randint(2)]
        k.set_p_norm(pn)
        ctx.ev('other_p_norm')
    m = nn or dim + 2
    name = str(rng.choice(sorted(KERNELS)))
    ep = float(rng.uniform(0.5, 4) / w)
    args = dict(RBF=''.join(list(name)), ep=ep)
    what = rng.randint(8)           # each argument has its own default
    if what < 2:
        args, name, ep = {}, 'Gaussian', 1.0
    elif what == 2:
        args, ep = {'RBF': name}, 1.0
        ctx.ev('default_shape')
    elif what == 3:
        args, name = {'ep': ep}, 'Gaussian'
    if nn is not None:
        args['num_neighbors'] = nn
    if not default:
        if rng.randint(4) == 0:     # the gradients of the first ones only
            n = int(rng.randint(1, n + 1))
        args['num_centers'] = n
        if nn is not None and pn == 2.0 and rng.randint(4) == 0:
            del args['num_neighbors']
            m = dim + 2
    normalize = bool(rng.randint(2))
    if not (normalize and rng.randint(2)):
        args['normalize'] = normalize
    f, _ = model(ctx, rng, dim, odim, 'other', dom)
    q = f(v)
    o = S.sample_set(odim)
    o.set_values(q.copy())
    dom_out = None
    if rng.randint(2):
        dom_out = np.column_stack([np.full(odim, -9.0), np.full(odim, 9.0)])
        o.set_domain(dom_out.copy())
    d = S.discretization(k, o)
    ctx.describe(dim=dim, odim=odim, n=n, num=num, args=args, p_norm=pn)
    # independent interpolant
    phi, dphi = KERNELS[name]
    J = np.zeros((n, odim, dim))
    tol = np.zeros((n, odim, dim))
    for i in range(n):
        dist = np.sqrt(((v - c[i]) ** 2).sum(axis=1))
        near = np.argsort(dist, kind='stable')[:m]
        x = v[near]
        D = np.sqrt(((x[:, None] - x[None]) ** 2).sum(axis=2))
        A = phi(ep * D)
        cond = np.linalg.cond(A)
        gap = np.sort(dist)
        if not cond < 1e7 or (m < N and gap[m] - gap[m - 1] < 1e-9 * w):
            ctx.note(nontrivial=False)
            return
        wts = np.linalg.solve(A, q[near])
        dx = c[i] - x
        r = np.sqrt((dx ** 2).sum(axis=1))
        g = (ep * dphi(ep * r) / np.where(r == 0, 1.0, r))[:, None] * dx
        J[i] = wts.T.dot(g)
        tol[i] = 1e-14 * cond * np.abs(wts).T.dot(np.abs(g)) * 10 + 1e-13 * cond * np.abs(q).max() * ep
    ctx.ev('rbf')
    if dim > 3:
        ctx.ev('many_inputs')
    si, so = build.snapshot(k), build.snapshot(o)
    out = ctx.call('calculate_gradients_rbf', G.calculate_gradients_rbf, d, **args)
    build.unchanged(ctx, k, si, 'rbf:input-changed')
    build.unchanged(ctx, o, so, 'rbf:output-changed')
    judge(ctx, out, c[:n], q[:n], J, dom if s.get_domain() is not None else None, dom_out, normalize, 'rbf', tol)
    ctx.note(v, q, nontrivial=n > 1 or dim > 1 or odim > 1)


def case_refuse(ctx, rng):
    dim = rng.randint(1, 4)
    e = S.sample_set(dim)
    o = S.sample_set(2)
    ctx.ev('refusals')
    k = rng.randint(8)
    ctx.describe(which=k)
    if k < 4:
        fn = [lambda: G.sample_lp_ball(e, 3, 0.1), lambda: G.sample_l1_ball(e, 3, 0.1),
              lambda: G.pick_ffd_points(e, np.full(dim, .1)), lambda: G.pick_cfd_points(e, np.full(dim, .1))][k]
        ctx.raises('clusters-without-values', ValueError, fn)
    elif k < 7:
        if rng.randint(2):
            e.set_values(rng.uniform(size=(2 * (dim + 1), dim)))
        d = S.discretization(e, o)
        fn = [G.calculate_gradients_ffd, G.calculate_gradients_cfd, G.calculate_gradients_rbf][k - 4]
        ctx.raises('gradients-without-values', ValueError, fn, d)
    else:
        fn = [lambda: G.radial_basis_function(np.ones(2), 'gaussian'),
              lambda: G.radial_basis_function_dxi(np.ones(2), np.ones(2), 'Matern')][rng.randint(2)]
        ctx.raises('unknown-kernel', ValueError, fn)
    ctx.note(dim, k)


KINDS = [Kind('ball', case_ball, 1200, 15000), Kind('fd', case_fd, 2500, 40000),
         Kind('kernel', case_kernel, 800, 8000), Kind('rbf', case_rbf, 2500, 40000),
         Kind('refuse', case_refuse, 60, 300)]
