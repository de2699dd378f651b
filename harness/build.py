"""Builders of bet objects used by several checks (need bet importable)."""
import numpy as np
import gen
import oracle


def out_cells(rng, dim, dom, kind=None, nmax=9):
    """An output probability set of a random type on a box, with its own oracle.

    Returns (set, assign, n) where assign(x) -> (allowed, ) gives for every row
    of x the boolean row of cells the definition allows (ties allow several)."""
    import bet.sample as S
    kind = kind or rng.choice(['voronoi', 'voronoi', 'rect', 'ball', 'cart'])
    w = dom[:, 1] - dom[:, 0]
    many = rng.uniform() < 0.02          # now and then far more cells
    if many:
        nmax = 300
    if kind == 'voronoi':
        n = rng.randint(1, nmax + 1)
        p = gen.perm_p(rng)
        v = gen.points(rng, n, dom, 'uniform')
        s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](dim)
        s.set_p_norm(p)
        s.set_values(v.copy())

        def allowed(x):
            D = oracle.dist_matrix(x, v, p)
            m = D.min(axis=1, keepdims=True)
            return D <= m + 1e-12 * (np.abs(x).max() + np.abs(v).max())
    elif kind == 'rect':
        n = rng.randint(1, nmax)
        # disjoint boxes: slabs along the first axis
        cuts = np.sort(rng.uniform(dom[0, 0], dom[0, 1], 2 * n))
        mins = np.tile(dom[:, 0] + 0.1 * w, (n, 1))
        maxs = np.tile(dom[:, 1] - 0.1 * w, (n, 1))
        mins[:, 0], maxs[:, 0] = cuts[0::2], cuts[1::2]
        s = S.rectangle_sample_set(dim)
        s.setup(maxs.tolist() if rng.randint(2) else maxs, mins)
        allowed = _rect_allowed(mins, maxs)
    elif kind == 'cart':
        xi = []
        for d in range(dim):
            m = rng.randint(2, (12 if dim < 3 else 6) if many and dim < 4 else 5 if dim < 3 else 4)
            xi.append(np.sort(rng.uniform(dom[d, 0], dom[d, 1], m)))
        s = S.cartesian_sample_set(dim)
        s.setup(xi)
        lo = np.array(np.meshgrid(*[x[:-1] for x in xi], indexing='ij')).reshape(dim, -1).T
        hi = np.array(np.meshgrid(*[x[1:] for x in xi], indexing='ij')).reshape(dim, -1).T
        # the order of the cells is the set's own; take the boxes it declares
        c = s.get_values()[:-1]
        order = [int(np.argmin(np.abs(c - m).sum(axis=1))) for m in 0.5 * (lo + hi)]
        mins, maxs = np.empty_like(lo), np.empty_like(hi)
        mins[order], maxs[order] = lo, hi
        n = len(lo)
        allowed = _rect_allowed(mins, maxs)
    else:
        n = rng.randint(1, nmax if many else 5)
        p = gen.perm_p(rng)
        step = 1.0 / n
        c = np.tile(dom[:, 0] + 0.5 * w, (n, 1))
        c[:, 0] = dom[0, 0] + (np.arange(n) + 0.5) * step * w[0]
        r = rng.uniform(0.2, 0.499, n) * step * w[0]
        s = S.ball_sample_set(dim)
        s.set_p_norm(p)
        s.setup(c, r)

        def allowed(x):
            D = oracle.dist_matrix(x, c, p)
            a = np.zeros((len(x), n + 1), bool)
            a[:, :n] = D < r - 1e-12 * (1 + np.abs(x).max())
            near = np.abs(D - r) <= 1e-9 * (1 + np.abs(x).max())
            a[:, :n] |= near
            a[:, n] = ~(D < r).any(axis=1) | near.any(axis=1)
            return a
    num = n if kind == 'voronoi' else n + 1
    return s, allowed, num, kind


def _rect_allowed(mins, maxs):
    def allowed(x):
        n = len(mins)
        inside = np.all((x[:, None, :] > mins[None]) & (x[:, None, :] <= maxs[None]), axis=2)
        a = np.zeros((len(x), n + 1), bool)
        a[:, :n] = inside
        a[:, n] = ~inside.any(axis=1)
        return a
    return allowed


def check_ptr(ctx, ptr, allowed, n, key, **detail):
    """Every pointer has to name a cell the definition allows for its row."""
    ptr = np.asarray(ptr)
    ctx.check(ptr.shape == (len(allowed),), key + ':shape', shape=ptr.shape,
              want=len(allowed), **detail)
    ok = (ptr >= 0) & (ptr < n) & (ptr == np.floor(ptr))
    ctx.check(bool(ok.all()), key + ':range', ptr=ptr, n=n, **detail)
    hit = allowed[np.arange(len(ptr)), ptr.astype(int)]
    ctx.ev('cell_assignments', len(ptr))
    ctx.check(bool(hit.all()), key, rows=np.where(~hit)[0], ptr=ptr, **detail)
    return ptr.astype(int)


def snapshot(s, skip=()):
    """Copies of every public array of a sample set (None where unset)."""
    names = ['values', 'values_local', 'volumes', 'volumes_local', 'probabilities',
             'probabilities_local', 'jacobians', 'error_estimates', 'domain',
             'reference_value', 'region', 'weights', 'p_norm', 'dim']
    out = {}
    for n in names:
        if n in skip:
            continue
        v = getattr(s, 'get_' + n)()
        out[n] = None if v is None else np.array(v, copy=True)
    return out


def unchanged(ctx, s, snap, key, grow=()):
    """Nothing that was set may differ now; names in ``grow`` may get set."""
    for n, old in snap.items():
        new = getattr(s, 'get_' + n)()
        if old is None:
            if n in grow or n.endswith('_local'):
                continue
            ctx.check(new is None, key, attribute=n, was=None, now=new)
        else:
            ctx.equal(new, old, key, attribute=n)


GLOBAL_FIELDS = ['values', 'volumes', 'probabilities', 'densities', 'jacobians',
                 'error_estimates', 'region', 'error_id']
OTHER_FIELDS = ['domain', 'reference_value', 'weights', 'weights_init', 'label', 'labels',
                'p_norm', 'prob_type', 'prob_type_init', 'prob_parameters',
                'prob_parameters_init', 'cluster_maps', 'bounding_box', 'dim']


def getter(s, name):
    return getattr(s, 'get_' + name)()


def all_fields():
    return GLOBAL_FIELDS + [g + '_local' for g in GLOBAL_FIELDS] + OTHER_FIELDS


def deep_equal(a, b):
    """Content equality of whatever a public getter can return."""
    if a is None or b is None:
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(deep_equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
            return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
        return bool(np.all(a == b))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(deep_equal(a[k], b[k]) for k in a)
    if type(a).__name__ == 'gaussian_kde':
        return type(b).__name__ == 'gaussian_kde' and deep_equal(a.dataset, b.dataset) and \
            deep_equal(a.weights, b.weights) and deep_equal(a.covariance, b.covariance)
    return bool(a == b)


def record(s, fields=None):
    """Deep copy of what every public getter returns."""
    import copy
    return dict((n, copy.deepcopy(getter(s, n))) for n in (fields or all_fields()))


def rich_set(rng, kind=None, dim=None, n=None, fill=0.5, local=None):
    """A sample set of any type with a random subset of its attributes set."""
    import bet.sample as S
    from scipy.stats import gaussian_kde
    kind = kind or rng.choice(['sample_set', 'voronoi', 'rect', 'ball', 'cart'])
    dim = dim or (gen.few(rng, 1, 4, 7) if kind != 'cart' else rng.randint(1, 4))
    dom = gen.domain(rng, dim)
    w = dom[:, 1] - dom[:, 0]
    if kind in ('sample_set', 'voronoi'):
        s = (S.sample_set if kind == 'sample_set' else S.voronoi_sample_set)(dim)
        n = n or gen.size(rng, 1, 15, 1500)
        s.set_values(gen.points(rng, n, dom, 'uniform'))
    elif kind == 'rect':
        m = rng.randint(1, 5)
        cuts = np.sort(rng.uniform(dom[0, 0], dom[0, 1], 2 * m))
        mins, maxs = np.tile(dom[:, 0] + .1 * w, (m, 1)), np.tile(dom[:, 1] - .1 * w, (m, 1))
        mins[:, 0], maxs[:, 0] = cuts[0::2], cuts[1::2]
        s = S.rectangle_sample_set(dim)
        s.setup(maxs, mins)
        n = m + 1
    elif kind == 'ball':
        m = rng.randint(1, 5)
        s = S.ball_sample_set(dim)
        s.setup(gen.points(rng, m, dom, 'uniform'), rng.uniform(.05, .2, m) * w.min())
        n = m + 1
    else:
        s = S.cartesian_sample_set(dim)
        s.setup([np.sort(rng.uniform(dom[d, 0], dom[d, 1], rng.randint(2, 4))) for d in range(dim)])
        n = len(s.get_values())
    on = lambda: rng.uniform() < fill
    if on():
        s.set_p_norm(gen.perm_p(rng))
    if on():
        s.set_domain(dom.copy())
    if on():
        s.set_volumes(gen.volumes(rng, n))
    if on():
        s.set_probabilities(gen.probs(rng, n))
    if s.get_volumes() is not None and s.get_probabilities() is not None and on():
        if s.get_volumes().min() > 0 and s.get_domain() is not None:
            s.set_densities()
    if on():
        s.set_jacobians(rng.normal(size=(n, rng.randint(1, 4), dim)))
    if on():
        s.set_error_estimates(rng.normal(size=(n, dim)))
    if on():
        s.set_reference_value(gen.points(rng, 1, dom, 'uniform')[0])
    if on():
        s.set_region(rng.randint(0, 3, n))
    if on():
        s.set_error_id(rng.uniform(size=n))
    if on():
        s.set_weights(rng.uniform(size=n))
    if on():
        s.set_weights_init(rng.uniform(size=n))
    if on():
        s.set_label('a set %d' % rng.randint(9))
    if on():
        s.set_labels(['x%d' % d for d in range(dim)])
    if on():
        s.set_prob_type_init('rv')
        s.set_prob_parameters_init([['uniform', {'loc': float(a), 'scale': float(b)}]
                                    for a, b in zip(dom[:, 0], w)])
    if on():
        k = rng.randint(1, 3)
        s.set_prob_type('kde')
        s.set_prob_parameters(([[gaussian_kde(rng.normal(size=7)) for _ in range(k)]
                                for _ in range(dim)], list(gen.probs(rng, k, False))))
    if on():
        s.set_cluster_maps([rng.normal(size=(3, dim)) for _ in range(2)])
    if on() and kind in ('sample_set', 'voronoi'):
        s.set_bounding_box()
    if local if local is not None else rng.uniform() < 0.4:
        s.global_to_local()
    return s, kind, dim, n, dom
