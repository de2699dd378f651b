"""C18: the QoI sets chosen are the best ones by the stated measure, of all sets allowed."""
import itertools
import math
import numpy as np
from core import Kind
import build
import gen

ID = 'C18'
COMM = 'real'
QUICK_X, THOROUGH_X = 3, 4
RULE = ('Random gradients (1-4 inputs, 1-10 QoIs, 1-8 centres; dependent, parallel, zero, badly scaled rows) '
        'and all ways to restrict the choice (index lists in any order, sizes, numbers of sets, tolerances); '
        'every set is enumerated by an independent model. Non-trivial: at least three candidate sets.')
REQUIRE = ['qualities', 'singular_values', 'sets_ranked', 'fewer_sets_than_asked', 'zero_gradients',
           'parallel_gradients', 'unique_judged', 'good_sets_judged', 'pruned', 'refusals', 'by_measure',
           'by_skewness', 'infinite_quality', 'subset_of_qois', 'units', 'many_centres', 'many_qois']
ASSUMPTIONS = ['exactly dependent gradients make qualities infinite up to rounding: more than 1e9 counts as '
               'infinite', 'tolerances are placed in gaps between qualities or inner products']
BIG = 1e9


def setup():
    global S, Q
    import bet.sample as S
    import bet.sensitivity.chooseQoIs as Q


def volume(A):
    """Measure of the parallelepiped spanned by the rows (Gram determinant by orthogonalisation)."""
    v, basis = 1.0, []
    for row in A:
        n = perp(row, basis)
        v *= np.linalg.norm(n)
        if np.linalg.norm(n) > 0:
            basis.append(n / np.linalg.norm(n))
    return v


def perp(x, basis):
    x = np.array(x, float)
    for _ in range(2):
        for b in basis:
            x = x - b.dot(x) * b
    return x


def hmean(x):
    s = sum(0.0 if np.isinf(t) else 1.0 / t for t in x)
    return np.inf if s == 0 else len(x) / s


def skewness(A):
    worst = 1.0
    for i in range(len(A)):
        basis = []
        for j in range(len(A)):
            if j != i:
                n = perp(A[j], basis)
                if np.linalg.norm(n) <= 1e-10 * max(np.linalg.norm(A[j]), 1e-300):
                    return np.inf
                basis.append(n / np.linalg.norm(n))
        n = np.linalg.norm(perp(A[i], basis))
        m = np.linalg.norm(A[i])
        if m == 0 or n <= 1e-10 * m:
            return np.inf
        worst = max(worst, m / n)
    return worst


def quality(G, idx, measure):
    A = G[:, list(idx), :]
    if measure:
        m = np.mean([volume(a) for a in A])
        scale = np.mean([np.prod(np.linalg.norm(a, axis=1)) for a in A])
        return np.inf if m <= 1e-12 * scale or scale == 0 else 1.0 / m
    return hmean([skewness(a) for a in A])


def unit(G, k, measure):
    """What makes a quality a number of ordinary size, whatever the units of the gradients."""
    if not measure:
        return 1.0
    n = np.linalg.norm(G, axis=2)
    n = n[n > 0]
    return 10.0 ** (k * np.round(np.log10(np.median(n)) / 4) * 4) if n.size else 1.0


def same(a, b, rtol=1e-6):
    a = np.where(np.asarray(a, float) > BIG, np.inf, a)
    b = np.where(np.asarray(b, float) > BIG, np.inf, b)
    with np.errstate(invalid='ignore'):
        return (a == b) | (np.abs(a - b) <= rtol * np.abs(b)) | \
            (np.minimum(a, b) > BIG / 10)     # either side of "infinite"


def gradients(ctx, rng, allow_bad=True, many=True):
    dim = gen.few(rng, 1, 5, 6, 0.015)
    nq = rng.randint(1, 11 if dim < 5 else 9)
    nc = gen.size(rng, 1, 9, 1500 if many else 9, 0.02)
    if nc > 500:
        ctx.ev('many_centres')
    if many and nc < 9 and rng.randint(50) == 0:
        nq, dim, nc = rng.randint(16, 27), rng.randint(2, 4), rng.randint(1, 3)
        ctx.ev('many_qois')
    G = rng.normal(size=(nc, nq, dim))
    if allow_bad:
        k = rng.randint(7)
        if k == 0:
            i = rng.randint(nq)
            G[rng.randint(nc), i] = 0.0
            if rng.randint(2):
                G[:, i] = 0.0
            ctx.ev('zero_gradients')
        elif k == 1 and nq > 1:
            i, j = rng.choice(nq, 2, replace=False)
            G[:, i] = G[:, j] * rng.choice([2.0, -1.0, 0.25])
            ctx.ev('parallel_gradients')
        elif k == 2 and nq > 1:
            i, j = rng.choice(nq, 2, replace=False)
            G[:, i] = G[:, j] + 0.05 * rng.normal(size=(nc, dim))
        elif k == 3:
            G *= 10.0 ** rng.uniform(-2, 2, size=(1, nq, 1))
        elif k == 4:
            G = np.round(G)
        elif k == 5:        # large or small units
            G *= 10.0 ** rng.choice([-20, -12, -8, 8, 12])
            ctx.ev('units')
    s = S.sample_set(dim)
    s.set_values(rng.uniform(size=(nc, dim)))
    s.set_jacobians(G.copy())
    return s, G, nc, nq, dim


def case_quality(ctx, rng):
    s, G, nc, nq, dim = gradients(ctx, rng)
    k = rng.randint(1, min(dim, nq) + 1)
    idx = list(rng.permutation(nq)[:k])
    arg = [idx, np.array(idx), [int(i) for i in idx]][rng.randint(3)]
    if nq <= dim and rng.randint(3) == 0:
        idx, arg, k = list(range(nq)), None, nq
    A = G[:, idx, :]
    snap = build.snapshot(s)
    ctx.describe(dim=dim, centres=nc, qois=idx, gradients=G)
    sv = np.sqrt(np.maximum(np.linalg.eigvalsh(np.einsum('coi,cpi->cop', A, A))[:, ::-1], 0))
    tol = 1e-7 * np.abs(sv).max()
    bm = None if rng.randint(2) else float(rng.uniform(0.1, 9))
    m, got = ctx.call('measure', Q.calculate_avg_measure, s, arg, *([] if bm is None else [bm]))
    u = unit(G, k, True)
    ctx.check(bool(same(m * u, quality(G, idx, True) * u * (bm or 1.0))), 'quality:measure', got=m,
              want=quality(G, idx, True), bin_measure=bm)
    ctx.close(got, sv, 'singular-values:measure', atol=tol)
    ctx.ev('singular_values', nc)
    m, loc = ctx.call('skewness', Q.calculate_avg_skewness, s, arg)
    want = quality(G, idx, False)
    ctx.check(bool(same(m, want)), 'quality:skewness', got=m, want=want)
    if np.isinf(want):
        ctx.ev('infinite_quality')
    ctx.check(loc.shape == (nc, k), 'skewness:shape', shape=loc.shape)
    for c in range(nc):
        w = skewness(A[c])
        if w < BIG:
            ctx.check(bool(same(np.max(loc[c]), w)), 'skewness:local', got=loc[c], want=w)
    m, got = ctx.call('condnum', Q.calculate_avg_condnum, s, arg)
    ctx.close(got, sv, 'singular-values:condnum', atol=tol)
    svd = np.array([_svd(a) for a in A])
    with np.errstate(divide='ignore', invalid='ignore'):
        cn = np.where(svd[:, -1] <= 1e-12 * svd[:, 0], np.inf, svd[:, 0] / svd[:, -1])
    ctx.check(bool(same(m, hmean(cn), 1e-5)), 'quality:condnum', got=m, want=hmean(cn))
    ctx.ev('qualities', 3)
    build.unchanged(ctx, s, snap, 'quality:argument-changed')
    ctx.note(G, idx, nontrivial=nc > 1)


def _svd(a):
    import scipy.linalg
    return scipy.linalg.svd(a, compute_uv=False, lapack_driver='gesvd')


def inner(G, i, j):
    n = np.linalg.norm(G, axis=2, keepdims=True)
    H = G / np.where(n == 0, 1.0, n)
    return abs(np.sum(H[:, i] * H[:, j]) / len(G))


def allowed(G, cand, tol, zeros, got):
    """Is ``got`` what removing zero and repeated gradients from ``cand`` may leave?
    Returns None if it is, or what is wrong."""
    got = [int(i) for i in got]
    live = [i for i in cand if not (zeros and np.any(np.linalg.norm(G[:, i], axis=1) == 0))]
    if len(set(got)) != len(got) or set(got) - set(live):
        return 'not among the candidates'
    for i, j in itertools.combinations(got, 2):
        if inner(G, i, j) > tol + 1e-9:
            return 'kept %d and %d' % (i, j)
    for i in set(live) - set(got):
        if not any(inner(G, i, j) > tol - 1e-9 for j in got):
            return 'dropped %d' % i
    return None


def candidates(ctx, rng, nq):
    if rng.randint(2):
        return list(range(nq)), None
    ctx.ev('subset_of_qois')
    c = [int(i) for i in rng.permutation(nq)[:rng.randint(1, nq + 1)]]
    return c, [c, np.array(c), tuple(c)][rng.randint(3)]


def case_unique(ctx, rng):
    s, G, nc, nq, dim = gradients(ctx, rng)
    cand, arg = candidates(ctx, rng, nq)
    tol = float(rng.choice([0.3, 0.6, 0.9, 0.99, 1.0]))
    zeros = bool(rng.randint(3))
    a = [arg] if zeros and rng.randint(2) else [arg, zeros]
    ctx.describe(dim=dim, candidates=cand, tol=tol, remove_zeros=zeros, gradients=G)
    got = ctx.call('find_unique_vecs', Q.find_unique_vecs, s, tol, *a)
    why = allowed(G, cand, tol, zeros, got)
    ctx.ev('unique_judged')
    ctx.check(why is None, 'unique', got=got, why=why)
    ctx.equal(s.get_jacobians(), G, 'unique:argument-changed')
    ctx.note(G, cand, tol, nontrivial=len(cand) > 2)


def judge_best(ctx, G, best, sv, pool, k, nret, measure, key):
    """best: rows (quality, indices); pool: quality of every candidate set (frozenset -> float)."""
    best = np.array(best)
    ctx.check(best.shape == (nret, k + 1), key + ':shape', shape=best.shape, want=(nret, k + 1))
    u = unit(G, k, measure)
    best[:, 0] *= u
    pool = dict((c, v * u) for c, v in pool.items())
    finite = sorted(v for v in pool.values() if v < BIG)
    n = min(nret, len(finite))
    if n < nret:
        ctx.ev('fewer_sets_than_asked')
    ctx.check(np.all(np.diff(best[:, 0][np.isfinite(best[:, 0])]) >= 0), key + ':order', got=best)
    ctx.check(bool(np.all(same(best[:n, 0], finite[:n]))), key + ':qualities', got=best[:, 0],
              want=finite[:n])
    ctx.check(bool(np.all(best[n:, 0] > BIG / 10)), key + ':invented', got=best, n=n)
    seen = set()
    for row in range(n):
        ix = [int(i) for i in best[row, 1:]]
        f = frozenset(ix)
        ctx.check(len(f) == k and f in pool, key + ':not-a-candidate', got=ix, row=row)
        ctx.check(f not in seen, key + ':repeated', got=ix)
        seen.add(f)
        ctx.check(bool(same(best[row, 0], pool[f])), key + ':quality-of-set', got=best[row], want=pool[f])
        if measure and sv is not None:
            A = G[:, ix, :]
            want = np.array([_svd(a) for a in A])
            ctx.close(sv[:, :, row], want, key + ':singular-values', rtol=1e-8,
                      atol=1e-7 * want.max())
            ctx.ev('singular_values', len(G))
    ctx.ev('sets_ranked', len(pool))


def case_choose(ctx, rng):
    s, G, nc, nq, dim = gradients(ctx, rng)
    cand, arg = candidates(ctx, rng, nq)
    measure = bool(rng.randint(2))
    ctx.ev('by_measure' if measure else 'by_skewness')
    k = rng.randint(1, dim + 1)
    nret = int(rng.choice([1, 2, 3, 10, 25]))
    zeros = bool(rng.randint(3))
    args = {'qoiIndices': arg, 'num_qois_return': k, 'num_optsets_return': nret, 'measure': measure,
            'remove_zeros': zeros, 'inner_prod_tol': 1.0}
    if rng.randint(2):
        args['inner_prod_tol'] = float(rng.choice([0.5, 0.9, 0.999]))
    tol = args['inner_prod_tol']
    for name, dflt in (('num_qois_return', dim), ('num_optsets_return', 10), ('measure', False),
                       ('remove_zeros', True), ('inner_prod_tol', 1.0), ('qoiIndices', None)):
        if args[name] is dflt or (name.startswith('num') and rng.randint(4) == 0):
            del args[name]
            if name == 'num_qois_return':
                k = dim
            elif name == 'num_optsets_return':
                nret = 10
    live = [int(i) for i in Q.find_unique_vecs(s, tol, cand, zeros)]
    why = allowed(G, cand, tol, zeros, live)
    ctx.check(why is None, 'choose:unique', got=live, why=why)
    pool = dict((frozenset(c), quality(G, c, measure)) for c in itertools.combinations(sorted(live), k))
    ctx.describe(dim=dim, candidates=cand, args=args, live=live, gradients=G)
    snap = build.snapshot(s)
    if rng.randint(2):
        best, sv = ctx.call('chooseOptQoIs_verbose', Q.chooseOptQoIs_verbose, s, **args)
    else:
        best, sv = ctx.call('chooseOptQoIs', Q.chooseOptQoIs, s, **args), None
    build.unchanged(ctx, s, snap, 'choose:argument-changed')
    judge_best(ctx, G, best, sv, pool, k, nret, measure, 'choose')
    ctx.note(G, cand, k, measure, nontrivial=len(pool) > 2)


def case_large(ctx, rng):
    s, G, nc, nq, dim = gradients(ctx, rng)
    cand, arg = candidates(ctx, rng, nq)
    measure = bool(rng.randint(2))
    ctx.ev('by_measure' if measure else 'by_skewness')
    kmax = rng.randint(1, dim + 1)
    nret = int(rng.choice([1, 2, 3, 10]))
    zeros = bool(rng.randint(3))
    tol = float(rng.choice([0.5, 0.9, 1.0]))
    live = [int(i) for i in Q.find_unique_vecs(s, tol, cand, zeros)]
    # how large a quality is allowed: in a gap of all qualities
    every = sorted(set(v for k in range(2, kmax + 1) for c in itertools.combinations(sorted(live), k)
                       for v in [quality(G, c, measure)] if v * unit(G, k, measure) < BIG))
    lim = np.inf
    if every and rng.randint(2):
        i = rng.randint(len(every))
        lim = every[i] * (1 + 1e-3)
        if any(abs(v - lim) < 1e-5 * lim for v in every):
            lim = np.inf
        else:
            ctx.ev('pruned')
    args = dict(qoiIndices=arg, max_qois_return=kmax, num_optsets_return=nret, inner_prod_tol=tol,
                measskew_tol=float(lim), measure=measure, remove_zeros=zeros)
    for name, dflt in (('measskew_tol', np.inf), ('inner_prod_tol', 1.0), ('measure', False),
                       ('remove_zeros', True), ('qoiIndices', None)):
        if args[name] == dflt if name != 'qoiIndices' else args[name] is None:
            if rng.randint(2):
                del args[name]
    ctx.describe(dim=dim, candidates=cand, args=args, live=live, gradients=G)
    if rng.randint(2):
        best, sv = ctx.call('chooseOptQoIs_large_verbose', Q.chooseOptQoIs_large_verbose, s, **args)
    else:
        best, sv = ctx.call('chooseOptQoIs_large', Q.chooseOptQoIs_large, s, **args), None
    ctx.equal(s.get_jacobians(), G, 'large:argument-changed')
    ctx.check(len(best) == kmax - 1 and (sv is None or len(sv) == kmax - 1), 'large:sizes', got=len(best))
    good = [(i,) for i in sorted(live)]
    total = 0
    for k in range(2, kmax + 1):
        pool = {}
        for g in good:
            for i in sorted(live):
                if i > max(g):
                    v = quality(G, g + (i,), measure)
                    if v < lim:
                        pool[g + (i,)] = v
        if np.isinf(lim) and any(v * unit(G, k, measure) >= BIG for c in itertools.combinations(sorted(live), k)
                                 for v in [quality(G, c, measure)]):
            break        # whether a set of "infinite" quality is carried on is a matter of rounding
        judge_best(ctx, G, best[k - 2], None if sv is None else sv[k - 2],
                   dict((frozenset(c), v) for c, v in pool.items()), k, nret, measure, 'large')
        total += len(pool)
        good = sorted(pool)
    ctx.note(G, cand, kmax, measure, lim, nontrivial=total > 2)


def case_good(ctx, rng):
    """One step of building good sets, from any collection of smaller sets."""
    s, G, nc, nq, dim = gradients(ctx, rng, False)
    if dim < 2 or nq < 2:
        ctx.note(nontrivial=False)
        return
    k = rng.randint(2, min(dim, nq) + 1)
    live = sorted(int(i) for i in rng.permutation(nq)[:rng.randint(k, nq + 1)])
    small = list(itertools.combinations(live, k - 1))
    prev = [small[i] for i in sorted(rng.permutation(len(small))[:rng.randint(1, len(small) + 1)])]
    measure = bool(rng.randint(2))
    nret = int(rng.choice([1, 2, 10]))
    every = {}
    for g in prev:
        for i in live:
            if i > max(g):
                every[g + (i,)] = quality(G, g + (i,), measure)
    lim = np.inf
    if every and rng.randint(2):
        vals = sorted(every.values())
        lim = vals[rng.randint(len(vals))] * (1 + 1e-3)
        if any(abs(v - lim) < 1e-5 * lim for v in vals):
            lim = np.inf
    pool = dict((c, v) for c, v in every.items() if v < lim)
    ctx.describe(dim=dim, prev=prev, live=live, lim=lim, measure=measure, gradients=G)
    good, best, sv = ctx.call('find_good_sets', Q.find_good_sets, s, np.array(prev), np.array(live), nret, lim,
                              measure)
    ctx.ev('good_sets_judged')
    got = [tuple(int(i) for i in r) for r in good]
    ctx.check(sorted(tuple(sorted(r)) for r in got) == sorted(pool) and np.shape(good)[1:] == (k,), 'good',
              got=good, want=sorted(pool))
    judge_best(ctx, G, best, sv, dict((frozenset(c), v) for c, v in pool.items()), k, nret, measure, 'good')
    ctx.note(G, prev, live, nontrivial=len(pool) > 2)


def case_refuse(ctx, rng):
    dim = rng.randint(1, 4)
    s = S.sample_set(dim)
    s.set_values(rng.uniform(size=(3, dim)))
    ctx.ev('refusals')
    k = rng.randint(2)
    ctx.describe(dim=dim, which=k)
    if k == 0:
        for fn in (Q.calculate_avg_measure, Q.calculate_avg_skewness, Q.calculate_avg_condnum,
                   Q.chooseOptQoIs, Q.chooseOptQoIs_verbose, Q.chooseOptQoIs_large,
                   Q.chooseOptQoIs_large_verbose, lambda s: Q.find_unique_vecs(s, 0.9)):
            ctx.raises('without-jacobians', ValueError, fn, s)
    else:
        s.set_jacobians(rng.normal(size=(3, dim + rng.randint(1, 4), dim)))
        for fn in (Q.calculate_avg_measure, Q.calculate_avg_skewness, Q.calculate_avg_condnum):
            ctx.raises('more-qois-than-inputs', ValueError, fn, s)
            ctx.raises('more-qois-than-inputs', ValueError, fn, s, list(range(dim + 1)))
    ctx.note(dim, k)


KINDS = [Kind('quality', case_quality, 1200, 20000), Kind('unique', case_unique, 800, 10000),
         Kind('choose', case_choose, 900, 12000), Kind('large', case_large, 700, 9000),
         Kind('good', case_good, 500, 6000), Kind('refuse', case_refuse, 20, 60)]
