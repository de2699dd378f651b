"""C26: array helpers keep every number and give the shape documented."""
import itertools
import sys
import numpy as np
from core import Kind

ID = 'C26'
COMM = 'real'
QUICK_X, THOROUGH_X = 24, 8
RULE = ('Grids of 1-8 coordinate vectors; numbers, lists, tuples and arrays (integer, real, C- and '
        'Fortran-ordered, transposed, strided, read-only) of 0-2 axes as vectors, domains and data; arrays '
        'with NaN and infinities. Non-trivial: more than one entry.')
REQUIRE = ['grids', 'grid_rows', 'vectors', 'columns', 'domains', 'domains_refused', 'domains_list', 'data',
           'data_transposed', 'cleaned', 'cleaned_special', 'fortran', 'readonly', 'scalars', 'global_values']
ASSUMPTIONS = ['a 2 x 2 domain is taken as it is; data whose second axis already is the dimension is not '
               'transposed']


def setup():
    global U
    import bet.util as U


def form(ctx, rng, x):
    """The same numbers in another container or memory layout."""
    h = rng.randint(7)
    if h == 0:
        return x.tolist()
    if h == 1:
        return tuple(x.tolist())
    if h == 2:
        ctx.ev('fortran')
        return np.asfortranarray(x)
    if h == 3:
        b = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        v = b[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if h == 4:
        ctx.ev('readonly')
        y = x.copy()
        y.flags.writeable = False
        return y
    return x.copy()


def frozen(a):
    return np.array(a, copy=True)


def same_arg(ctx, arg, before, key):
    ctx.equal(np.array(arg), before, key + ':argument-changed')


def case_grid(ctx, rng):
    n = rng.randint(1, 9) if rng.randint(12) else rng.randint(9, 11)
    top = {1: 9, 2: 9, 3: 6, 4: 4}.get(n, 3 if n < 9 else 2)
    if n < 3 and rng.randint(20) == 0:
        top = 300
    X = []
    for i in range(n):
        m = rng.randint(1, top + 1)
        X.append([rng.normal(size=m), rng.randint(-5, 5, m), np.sort(rng.normal(size=m))][rng.randint(3)])
    keep = [x.copy() for x in X]
    arg = [tuple(X), list(X), [x.tolist() for x in X]][rng.randint(3)]
    got = ctx.call('meshgrid_ndim', U.meshgrid_ndim, arg)
    want = np.array(list(itertools.product(*keep)), dtype=float)
    ctx.ev('grids')
    ctx.ev('grid_rows', len(want))
    ctx.equal(np.asarray(got, dtype=float), want, 'grid')
    for a, b in zip(X, keep):
        ctx.equal(a, b, 'grid:argument-changed')
    ctx.note(n, want, nontrivial=len(want) > 1)
    ctx.describe(sizes=[len(x) for x in X])


def case_shapes(ctx, rng):
    mk = [lambda s: rng.normal(size=s), lambda s: rng.randint(-9, 9, s)][rng.randint(2)]
    # vectors
    big = rng.randint(25) == 0      # now and then many numbers, or many dimensions
    shape = [(rng.randint(1, 5000 if big else 8),),
             (rng.randint(1, 900 if big else 6), rng.randint(1, 30 if big else 6))][rng.randint(2)]
    x = mk(shape)
    arg = form(ctx, rng, x)
    r = ctx.call('fix_dimensions_vector', U.fix_dimensions_vector, arg)
    ctx.equal(r, x.ravel(), 'vector')
    ctx.check(isinstance(r, np.ndarray), 'vector:type')
    same_arg(ctx, arg, x, 'vector')
    ctx.ev('vectors')
    c = ctx.call('fix_dimensions_vector_2darray', U.fix_dimensions_vector_2darray, arg)
    ctx.equal(c, x.reshape(-1, 1) if x.ndim == 1 else x, 'column')
    same_arg(ctx, arg, x, 'column')
    ctx.ev('columns')
    v = [float(rng.normal()), int(rng.randint(9)), np.float64(rng.normal())][rng.randint(3)]
    ctx.equal(ctx.call('fix_dimensions_vector', U.fix_dimensions_vector, v), np.array([v]), 'vector:scalar')
    ctx.equal(ctx.call('fix_dimensions_vector_2darray', U.fix_dimensions_vector_2darray, v),
              np.array([[v]]), 'column:scalar')
    ctx.equal(ctx.call('fix_dimensions_data', U.fix_dimensions_data, v), np.array([[v]]), 'data:scalar')
    ctx.equal(ctx.call('fix_dimensions_data', U.fix_dimensions_data, v, 1), np.array([[v]]), 'data:scalar')
    ctx.ev('scalars')
    # data
    dim = [None, rng.randint(1, 30 if big else 6)][rng.randint(2)]
    if rng.randint(2) and dim is not None:
        k = rng.randint(1, 900 if big else 6)
        x = mk([(dim, k), (k, dim)][rng.randint(2)])
    elif rng.randint(2):
        x = mk((rng.randint(1, 5000 if big else 8),))
    arg = form(ctx, rng, x)
    r = ctx.call('fix_dimensions_data', U.fix_dimensions_data, arg, *([] if dim is None else [dim]))
    m = x.reshape(-1, 1) if x.ndim == 1 else x
    if dim is not None and m.shape[1] != dim:
        ctx.ev('data_transposed')
        m = m.T
    ctx.equal(r, m, 'data', dim=dim, shape=x.shape)
    same_arg(ctx, arg, x, 'data')
    ctx.ev('data')
    ctx.note(x, dim, nontrivial=x.size > 1)
    ctx.describe(shape=x.shape, dim=dim)


def case_domain(ctx, rng):
    d = rng.randint(1, 7) if rng.randint(20) else rng.randint(7, 60)
    shape = [(d, 2), (2, d), (2,), (d,), (d, d + 2), (1, 2)][rng.randint(6)]
    x = rng.normal(size=shape)
    arg = form(ctx, rng, x)
    ctx.ev('domains_list', not isinstance(arg, np.ndarray))
    if x.ndim == 1 and len(x) == 2:
        want = x.reshape(1, 2)
    elif x.ndim == 2 and x.shape[1] == 2:
        want = x
    elif x.ndim == 2 and x.shape[0] == 2:
        want = x.T
    else:
        want = None
    ctx.describe(shape=shape, type=type(arg))
    if want is None:
        ctx.ev('domains_refused')
        ctx.raises('fix_dimensions_domain', TypeError, U.fix_dimensions_domain, arg)
    else:
        ctx.ev('domains')
        ctx.equal(ctx.call('fix_dimensions_domain', U.fix_dimensions_domain, arg), want, 'domain', shape=shape)
    same_arg(ctx, arg, x, 'domain')
    ctx.note(x)


def case_clean(ctx, rng):
    shape = [(rng.randint(1, 20),), (rng.randint(1, 8), rng.randint(1, 5)), (3, 2, 4)][rng.randint(3)]
    if rng.randint(25) == 0:
        shape = (rng.randint(100, 2000), rng.randint(1, 4))
    x = rng.normal(size=shape) * 10.0 ** rng.uniform(-300, 300, shape)
    m = rng.uniform(size=shape)
    edge = rng.uniform(size=shape) < 0.2    # numbers next to what is replaced
    x[edge] = rng.choice([sys.float_info.max, -sys.float_info.max, 1e308, -1.7e308, 5e-324, -5e-324, 0.0,
                          1e16, -1e-320], size=int(edge.sum()))
    x[m < 0.1] = np.nan
    x[(m > 0.1) & (m < 0.2)] = np.inf
    x[(m > 0.2) & (m < 0.3)] = -np.inf
    ctx.ev('cleaned_special', int((m < 0.3).sum()))
    big = sys.float_info.max
    want = np.array([0.0 if v != v else (big if v == np.inf else (-big if v == -np.inf else v))
                     for v in x.ravel()]).reshape(shape)
    arg = form(ctx, rng, x)
    got = ctx.call('clean_data', U.clean_data, arg)
    ctx.equal(got, want, 'clean')
    same_arg(ctx, arg, x, 'clean')
    ctx.equal(ctx.call('clean_data', U.clean_data, got), want, 'clean:again')
    ctx.ev('cleaned')
    a = [rng.normal(size=(4, 2)), rng.randint(0, 9, 5), rng.uniform(size=3) > 0.5][rng.randint(3)]
    ctx.equal(ctx.call('get_global_values', U.get_global_values, a.copy(), *([] if rng.randint(2) else [a.shape])),
              a, 'global')
    ctx.ev('global_values')
    ctx.note(x)
    ctx.describe(shape=shape)


KINDS = [Kind('grid', case_grid, 400, 6000), Kind('shapes', case_shapes, 600, 12000),
         Kind('domain', case_domain, 400, 6000), Kind('clean', case_clean, 400, 6000)]
