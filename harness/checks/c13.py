"""C13: normalising a domain is the affine map to the unit box and can be undone."""
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C13'
COMM = 'real'
QUICK_X, THOROUGH_X = 10, 8
RULE = ('Sets of every type with random attributes (global, local, sharing memory or not) on all '
        'domain scales are normalised and restored, repeatedly, with queries, volumes and clips in '
        'between. Non-trivial: the domain is not the unit box already.')
REQUIRE = ['normalised', 'restored', 'without_domain', 'never_normalised', 'shared_memory', 'kind:rect',
           'kind:cart', 'kind:voronoi', 'queries_judged', 'volumes_judged', 'jacobians', 'local', 'bounds_judged', 'normalised_again']
ASSUMPTIONS = ['error estimates are normalised as documented by the tests of BET (like values)',
               'balls keep their radii, so only the values of ball sets are judged']


def setup():
    global S
    import bet.sample as S


CONST = ['volumes', 'probabilities', 'region', 'error_id', 'weights', 'weights_init', 'label', 'labels',
         'p_norm', 'prob_type', 'prob_type_init', 'prob_parameters', 'prob_parameters_init',
         'cluster_maps', 'dim', 'volumes_local', 'probabilities_local', 'region_local', 'error_id_local']
AFFINE = ['values', 'values_local', 'reference_value', 'error_estimates', 'error_estimates_local']


BOUNDS = ['_left', '_right', '_width', '_left_local', '_right_local', '_width_local']


def record(s):
    """What the getters return, and the bounds of the cells (which have no getter)."""
    rec = build.record(s)
    for n in BOUNDS:
        v = getattr(s, n, None)
        rec[n] = None if v is None else np.array(v)
    return rec


def judge_bounds(ctx, s, rec, dom, normal, key, tol):
    lo, w = dom[:, 0], dom[:, 1] - dom[:, 0]
    for n in BOUNDS:
        if rec[n] is None:
            continue
        got, want = np.asarray(getattr(s, n, None), float), rec[n]
        if normal:
            want = want / w if 'width' in n else (want - lo) / w
        ctx.check(got.shape == want.shape, key + ':bounds', attribute=n, got=got.shape)
        fin = np.isfinite(want)
        ctx.equal(got[~fin], want[~fin], key + ':bounds', attribute=n)
        ctx.close(got[fin], want[fin], key + ':bounds', attribute=n, rtol=1e-11, atol=tol)
        ctx.ev('bounds_judged')


def scale_of(dom):
    return 1e-12 * (1 + np.abs(dom).max() / (dom[:, 1] - dom[:, 0]).min())


def judge_normal(ctx, s, rec, dom):
    lo, w = dom[:, 0], dom[:, 1] - dom[:, 0]
    ctx.equal(s.get_domain(), np.repeat([[0.0, 1.0]], len(dom), axis=0), 'normalised:domain')
    for n in AFFINE:
        if n.startswith('error'):
            continue
        v = build.getter(s, n)
        if rec[n] is None:
            ctx.check(v is None, 'normalised:appeared', attribute=n)
        else:
            ctx.close(v, (rec[n] - lo) / w, 'normalised', attribute=n, rtol=1e-12, atol=scale_of(dom))
    for n in ('jacobians', 'jacobians_local'):
        if rec[n] is not None:
            ctx.ev('jacobians')
            ctx.close(build.getter(s, n), rec[n] * w, 'normalised', attribute=n, rtol=1e-12)
    for n in CONST:
        ctx.check(build.deep_equal(build.getter(s, n), rec[n]), 'normalised:changed', attribute=n,
                  got=build.getter(s, n), want=rec[n])
    judge_bounds(ctx, s, rec, dom, True, 'normalised', scale_of(dom))
    ctx.ev('normalised')


def judge_restored(ctx, s, rec, dom, times):
    tol = scale_of(dom) * (dom[:, 1] - dom[:, 0]).max() * times
    ctx.close(s.get_domain(), dom, 'restored:domain', rtol=1e-12, atol=tol)
    for n in AFFINE + ['jacobians', 'jacobians_local']:
        if rec[n] is None:
            ctx.check(build.getter(s, n) is None, 'restored:appeared', attribute=n)
        else:
            ctx.close(build.getter(s, n), rec[n], 'restored', attribute=n, rtol=1e-11,
                      atol=tol + 1e-11 * np.abs(dom).max())
    for n in CONST:
        ctx.check(build.deep_equal(build.getter(s, n), rec[n]), 'restored:changed', attribute=n)
    judge_bounds(ctx, s, rec, dom, False, 'restored', tol + 1e-11 * np.abs(dom).max())
    ctx.ev('restored')


def clear(x, s, dom, kind, p):
    """Query points whose cell does not hang on rounding."""
    if kind in ('voronoi', 'sample_set'):
        D = oracle.dist_matrix(x, s.get_values(), p)
        return oracle.tie_gap(D) > 1e-7 * np.abs(dom).max()
    return np.ones(len(x), bool)


def case_round(ctx, rng):
    kind = rng.choice(['sample_set', 'voronoi', 'rect', 'cart', 'ball'])
    s, kind, dim, n, dom = build.rich_set(rng, str(kind))
    ctx.ev('kind:' + kind)
    s.set_domain(dom.copy())
    if rng.randint(3) == 0 and kind in ('voronoi', 'sample_set'):
        v = s.get_values()          # one array used as global and local values
        s.set_values(v)
        s.set_values_local(v)
        ctx.ev('shared_memory')
    user = s.get_values()
    user_copy = user.copy()
    ctx.ev('local', s.get_values_local() is not None)
    if kind in ('voronoi', 'sample_set'):
        if rng.randint(2):
            k = rng.randint(1, 9)
            ctx.call('update_bounds', s.update_bounds, k)
            ctx.equal(s._left, np.tile(dom[:, 0], (k, 1)), 'update_bounds')
            ctx.equal(s._right, np.tile(dom[:, 1], (k, 1)), 'update_bounds')
            ctx.call('update_bounds', s.update_bounds)
            ctx.equal(s._left, np.tile(dom[:, 0], (n, 1)), 'update_bounds')
            ctx.equal(s._right, np.tile(dom[:, 1], (n, 1)), 'update_bounds')
            ctx.close(s._width, np.tile(dom[:, 1] - dom[:, 0], (n, 1)), 'update_bounds', rtol=1e-14)
        if s.get_values_local() is not None and rng.randint(2):
            ctx.call('update_bounds_local', s.update_bounds_local)
            m = len(s.get_values_local())
            ctx.equal(s._left_local, np.tile(dom[:, 0], (m, 1)), 'update_bounds_local')
            ctx.equal(s._right_local, np.tile(dom[:, 1], (m, 1)), 'update_bounds_local')
            ctx.close(s._width_local, np.tile(dom[:, 1] - dom[:, 0], (m, 1)), 'update_bounds_local', rtol=1e-14)
    rec = record(s)
    p = s.get_p_norm()
    w = dom[:, 1] - dom[:, 0]
    x = gen.points(rng, 12, dom, 'uniform')
    times = rng.randint(1, 4)
    cells = None
    if kind != 'ball':
        cells = np.asarray(s.query(x)[1]).ravel()
    if kind in ('rect', 'cart'):
        s.exact_volume_lebesgue()
        vol = s.get_volumes().copy()
        rec = record(s)
    for _ in range(times):
        ctx.call('normalize_domain', s.normalize_domain)
        judge_normal(ctx, s, rec, dom)
        ctx.equal(user, user_copy, 'caller-array-changed')
        xn = (x - dom[:, 0]) / w
        if kind in ('rect', 'cart'):
            got = np.asarray(ctx.call('query', s.query, xn)[1]).ravel()
            ctx.ev('queries_judged', len(x))
            ctx.equal(got, cells, 'normalised:query')
            ctx.call('exact_volume', s.exact_volume_lebesgue)
            ctx.ev('volumes_judged')
            ctx.close(s.get_volumes(), vol, 'normalised:volumes', rtol=1e-7, atol=1e-9)
            s.set_volumes(vol.copy())
        elif kind != 'ball':
            d, i = ctx.call('query', s.query, xn)
            D = oracle.dist_matrix(xn, (rec['values'] - dom[:, 0]) / w, p)
            ctx.ev('queries_judged', len(x))
            ctx.close(D[np.arange(len(x)), np.asarray(i).ravel()], D.min(axis=1),
                      'normalised:query', atol=1e-9)
        if rng.randint(3) == 0:
            # already normalised: once more changes nothing, nor what there is to return to
            ctx.call('normalize_domain', s.normalize_domain)
            judge_normal(ctx, s, rec, dom)
            ctx.ev('normalised_again')
        ctx.call('undo_normalize_domain', s.undo_normalize_domain)
        judge_restored(ctx, s, rec, dom, times)
    ctx.equal(user, user_copy, 'caller-array-changed')
    if kind in ('rect', 'cart'):
        ctx.equal(np.asarray(ctx.call('query', s.query, x)[1]).ravel(), cells, 'restored:query')
        ctx.call('exact_volume', s.exact_volume_lebesgue)
        ctx.close(s.get_volumes(), vol, 'restored:volumes', rtol=1e-7, atol=1e-9)
    elif kind != 'ball':
        ok = clear(x, s, dom, kind, p)
        ctx.equal(np.asarray(ctx.call('query', s.query, x)[1]).ravel()[ok], cells[ok], 'restored:query')
    # nothing left to undo
    keep = build.record(s)
    ctx.call('undo_again', s.undo_normalize_domain)
    same(ctx, s, keep, 'undo-when-not-normalised')
    ctx.note(kind, rec['values'], times, nontrivial=not np.array_equal(dom, [[0., 1.]] * dim))
    ctx.describe(kind=kind, domain=dom, times=times, attributes=[k for k in rec if rec[k] is not None])


def same(ctx, s, rec, key):
    for n, v in rec.items():
        if n in BOUNDS:
            continue
        ctx.check(build.deep_equal(build.getter(s, n), v), key, attribute=n, got=build.getter(s, n), want=v)


def case_nothing(ctx, rng):
    s, kind, dim, n, dom = build.rich_set(rng, fill=0.5)
    ctx.ev('kind:' + kind)
    if s.get_domain() is None:
        ctx.ev('without_domain')
        rec = build.record(s)
        for f in (s.normalize_domain, s.undo_normalize_domain):
            ctx.call('without-domain', f)
            same(ctx, s, rec, 'changed-without-domain')
    else:
        ctx.ev('never_normalised')
        rec = record(s)
        ctx.call('undo-never-normalised', s.undo_normalize_domain)
        same(ctx, s, rec, 'changed-never-normalised')
        c = s.copy()
        ctx.call('normalize_domain', c.normalize_domain)
        same(ctx, s, rec, 'normalising-copy-changed-original')
        d = c.copy()
        ctx.call('undo_normalize_domain', d.undo_normalize_domain)
        judge_restored(ctx, d, rec, dom, 1)
    ctx.note(kind, rec['values'], s.get_domain() is None)


KINDS = [Kind('round', case_round, 2500, 30000), Kind('nothing', case_nothing, 600, 5000)]
