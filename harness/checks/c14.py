"""C14: results do not depend on how many processes compute them."""
import os
import shutil
import tempfile
import contextlib
import io
import math
import pickle
import numpy as np
from core import Kind
import gen
import build
import mpisim
import oracle

ID = 'C14'
COMM = 'sim'
SHARDS = 4
RULE = ('Every parallel operation is run on 2-5 simulated processes (forked, own random state, '
        'collectives meeting in a hub that delays and reorders them) and on one, for the same data, '
        'also with fewer samples than processes. The hub checks that all processes enter the same '
        'collectives and none is left waiting; results are compared between processes and with one '
        'process. Non-trivial: at least one collective took place.')
REQUIRE = ['collectives', 'ranks_run', 'fewer_samples_than_ranks', 'schedules_distinct', 'files',
           'files_of_another_run',
           'model_rows', 'local_pieces', 'w:split', 'w:split_disc', 'w:solve', 'w:rebin', 'w:volumes', 'w:mc',
           'w:simple', 'w:samples', 'w:evaluate', 'w:files', 'w:derive', 'w:density',
           'w:errors', 'w:surrogate', 'w:qois', 'w:marginals', 'w:gather']
ASSUMPTIONS = ['mpi4py is replaced by a stand-in with the same collective semantics; BET uses no '
               'point-to-point messages',
               'sums over processes may round differently (compared to 1e-9)']


def setup():
    global S, P, F, R, B, U, E, V, Q, M
    import bet.sample as S
    import bet.calculateP.calculateP as P
    import bet.calculateP.simpleFunP as F
    import bet.calculateP.calculateR as R
    import bet.sampling.basicSampling as B
    import bet.util as U
    import bet.surrogates as V
    import bet.calculateP.calculateError as E
    import bet.sensitivity.chooseQoIs as Q
    import bet.postProcess.plotP as M


# ---- running a workload on several processes and judging what came back ------
def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, bool)):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OUSb' or b.dtype.kind in 'OUSb':
        return bool(np.all(a == b))
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if not np.array_equal(a[np.isinf(a)], b[np.isinf(b)]):
        return False
    scale = np.abs(b[fin]).max() if fin.any() else 1.0
    return bool(np.all(np.abs(a[fin] - b[fin]) <= tol * (1e-30 + np.maximum(np.abs(b[fin]), 1e-3 * scale))))


def both(ctx, rng, name, work, serial=True):
    """work(rank, size) -> {'same': {}, 'each': {}, 'concat': {}, 'sum': {}}."""
    size = rng.randint(2, 6)
    seed = rng.randint(1 << 30)
    quiet = io.StringIO()

    def go(r):
        with contextlib.redirect_stdout(quiet):
            return work(r, size)
    ref = None
    if serial:
        np.random.seed(seed & 0x7fffffff)
        with contextlib.redirect_stdout(quiet):
            ref = ctx.call(name + ':serial', work, 0, 1)
    out = mpisim.run(size, go, seed, timeout=100)
    ctx.ev('w:' + name)
    ctx.ev('ranks_run', size)
    ctx.ev('collectives', len(out.trace))
    for t in out.trace:
        ctx.ev('op:' + t)
    ctx.counters['schedules_distinct'] += 1 if out.schedule() not in SEEN else 0
    SEEN.add(out.schedule())
    bad = [e for e in out.errors if e]
    if bad:
        ctx.fail(name + ':raised-in-parallel', size=size, errors=out.errors, problem=out.problem,
                 trace=out.trace[-12:])
    ctx.check(not out.problem, name + ':' + str(out.problem).split(':')[0], size=size,
              problem=out.problem, trace=out.trace[-12:])
    res = out.results
    for k in res[0].get('each', {}):
        for r in range(1, size):
            ctx.check(close(res[r]['each'][k], res[0]['each'][k], 1e-12), name + ':ranks-differ', item=k,
                      size=size, rank=r, got=res[r]['each'][k], rank0=res[0]['each'][k])
    if ref is not None:
        for k in ref.get('same', {}):
            for r in range(size):
                ctx.check(close(res[r]['same'][k], ref['same'][k]), name + ':differs-from-serial', item=k,
                          size=size, rank=r, got=res[r]['same'][k], want=ref['same'][k])
        for k in ref.get('sum', {}):
            t = sum(np.asarray(res[r]['sum'][k]) for r in range(size))
            ctx.check(close(t, ref['sum'][k]), name + ':sum-differs', item=k, size=size, got=t,
                      want=ref['sum'][k])
    for k in res[0].get('concat', {}):
        # the local pieces make up the global array that goes with them
        parts = [res[r]['concat'][k][0] for r in range(size)]
        whole = [res[r]['concat'][k][1] for r in range(size)]
        if parts[0] is None and whole[0] is None:
            continue
        ctx.ev('local_pieces', size)
        ctx.check(all(p is not None for p in parts), name + ':missing-local-piece', item=k, size=size)
        cat = np.concatenate(parts)
        for w in whole:
            ctx.check(close(cat, w, 1e-12), name + ':local-pieces-differ', item=k, size=size,
                      got=cat, want=w)
    ctx.note(name, seed, size, nontrivial=len(out.trace) > 0)
    ctx.describe(work=name, size=size, collectives=out.trace[:20], arrivals=out.orders[:5])
    return ref, out


SEEN = set()


def pieces(s, names=('values', 'volumes', 'probabilities', 'jacobians', 'error_estimates', 'region',
                     'error_id', 'densities')):
    return dict((n, (build.getter(s, n + '_local'), build.getter(s, n))) for n in names)


def globs(s, names=('values', 'volumes', 'probabilities', 'jacobians', 'error_estimates', 'region',
                    'error_id', 'densities')):
    return dict((n, build.getter(s, n)) for n in names)


def few(ctx, n):
    ctx.ev('fewer_samples_than_ranks', n < 5)


# ---- workloads -----------------------------------------------------------------
def vor(rng, dim=None, n=None, fill=0.5):
    return build.rich_set(rng, 'sample_set', dim, n, fill, local=False)


def w_split(ctx, rng):
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(1, 30)
    few(ctx, n)
    s0 = build.rich_set(rng, None if rng.randint(3) == 0 else 'sample_set', None, n, 0.6, local=False)[0]

    def work(rank, size):
        s = s0.copy()
        same = {'num': s.check_num()}
        s.global_to_local()
        loc = pieces(s)
        k = s.check_num_local()
        # throw the global arrays away and put them together again from the local ones
        t = type(s)(s.get_dim())
        for n_ in build.GLOBAL_FIELDS:
            v = build.getter(s, n_ + '_local')
            if v is not None:
                getattr(t, 'set_%s_local' % n_)(v)
        same['num_from_local'] = t.check_num()
        t.local_to_global()
        for n_, v in globs(t).items():
            same['again:' + n_] = v
        same.update(globs(s))
        return {'same': same, 'concat': loc, 'sum': {'local_num': k}}
    both(ctx, rng, 'split', work)


def w_split_disc(ctx, rng):
    """A discretization splits and gathers every set it has."""
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(1, 30)
    few(ctx, n)
    di, do = rng.randint(1, 4), rng.randint(1, 4)
    names = ['output_probability_set', 'emulated_input_sample_set', 'emulated_output_sample_set',
             'output_observed_set']
    names = [x for x in names if rng.randint(3)]
    i, o = vor(rng, di, n)[0], vor(rng, do, n)[0]
    extra = [vor(rng, di if 'input' in x else do, rng.randint(1, 20))[0] for x in names]
    seed = rng.randint(1 << 30)

    def work(rank, size):
        d = S.discretization(i.copy(), o.copy(), **dict((x, e.copy()) for x, e in zip(names, extra)))
        sets = dict((x, getattr(d, 'get_' + x)()) for x in ['input_sample_set', 'output_sample_set'] + names)
        d.global_to_local()
        cat, same = {}, {}
        for x, s in sorted(sets.items()):
            for k, v in pieces(s).items():
                cat[x + ':' + k] = v
        # the processes go on with their own pieces: what is gathered is what they made of them
        for x, s in sorted(sets.items()):
            for k in ('values', 'volumes', 'probabilities'):
                v = build.getter(s, k + '_local')
                if v is not None and (seed + len(x)) % 3:
                    getattr(s, 'set_%s_local' % k)(2.0 * v + 1.0)
        d.local_to_global()
        for x, s in sorted(sets.items()):
            for k, v in pieces(s).items():
                cat['again:' + x + ':' + k] = v
                same[x + ':' + k] = v[1]
        return {'same': same, 'concat': cat}
    both(ctx, rng, 'split_disc', work)


def make_problem(ctx, rng):
    dim, do = rng.randint(1, 4), rng.randint(1, 3)
    n = rng.randint(1, 5) if rng.randint(4) == 0 else rng.randint(2, 40)
    few(ctx, n)
    dom = gen.domain(rng, dim)
    i = S.sample_set(dim)
    i.set_domain(dom)
    i.set_p_norm(gen.perm_p(rng))
    i.set_values(gen.points(rng, n, dom, 'uniform'))
    A = rng.normal(size=(dim, do))
    o = S.sample_set(do)
    y = i.get_values().dot(A)
    o.set_values(y)
    lo, hi = y.min(axis=0) - .1, y.max(axis=0) + .1
    p, _, num, _ = build.out_cells(rng, do, np.column_stack([lo, hi]))
    p.set_probabilities(gen.probs(rng, num))
    d = S.discretization(i, o, output_probability_set=p)
    e = S.sample_set(dim)
    m = rng.randint(1, 60)
    e.set_values(gen.points(rng, m, dom, 'uniform'))
    d.set_emulated_input_sample_set(e)
    i.set_volumes(gen.volumes(rng, n))
    return d, dom


def w_solve(ctx, rng):
    d0, dom = make_problem(ctx, rng)
    how = rng.choice(['prob', 'emvol', 'onem'])
    pre = rng.randint(3)
    glob = bool(rng.randint(2))

    def work(rank, size):
        d = d0.copy()
        if pre == 1:
            d.global_to_local()
        elif pre == 2:
            d.set_io_ptr()
        if how == 'prob':
            P.prob(d, globalize=glob)
            s = d.get_input_sample_set()
        elif how == 'emvol':
            P.prob_with_emulated_volumes(d)
            s = d.get_input_sample_set()
        else:
            P.prob_on_emulated_samples(d, globalize=glob)
            s = d.get_emulated_input_sample_set()
        loc = s.get_probabilities_local()
        if not glob and how != 'emvol':
            s.local_to_global()
        same = {'prob': s.get_probabilities(), 'values': s.get_values(),
                'num': s.check_num()}
        if how == 'emvol':
            same['volumes'] = s.get_volumes()
        d.globalize_ptrs()
        same['io_ptr'] = d.get_io_ptr()
        return {'same': same, 'concat': {'prob': (loc, s.get_probabilities()),
                                         'values': (s.get_values_local(), s.get_values())}}
    both(ctx, rng, 'solve', work)


def w_rebin(ctx, rng):
    d0, dom = make_problem(ctx, rng)
    dim = len(dom)
    new0 = build.out_cells(rng, dim, dom)[0]
    how = rng.choice(['set', 'em', 'disc', 'disc_em'])
    p = gen.probs(rng, d0.get_input_sample_set().check_num())
    pe = gen.probs(rng, d0.get_emulated_input_sample_set().check_num())

    def work(rank, size):
        d, new = d0.copy(), new0.copy()
        old, em = d.get_input_sample_set(), d.get_emulated_input_sample_set()
        old.set_probabilities(p.copy())
        if how == 'set':
            r = P.prob_from_sample_set(old, new)
        elif how == 'em':
            r = P.prob_from_sample_set_with_emulated_volumes(old, new, em)
        elif how == 'disc':
            d = S.discretization(old, d.get_output_sample_set())
            r = P.prob_from_discretization_input(d, new)
        else:
            em.set_probabilities(pe.copy())
            r = P.prob_from_discretization_input(d, new)
        return {'same': {'returned': r, 'prob': new.get_probabilities()}}
    both(ctx, rng, 'rebin', work)


def w_volumes(ctx, rng):
    dim = rng.randint(1, 4)
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(2, 25)
    few(ctx, n)
    s0, _, _, _, dom = vor(rng, dim, n, 0.3)
    s0.set_domain(dom)
    em = gen.points(rng, rng.randint(1, 50), dom, 'uniform')
    how = rng.choice(['emulated', 'mc', 'disc', 'exact1', 'exact2', 'rect'])
    if how == 'exact1':
        s0, _, _, _, dom = vor(rng, 1, n, 0.0)
    elif how == 'exact2':
        n = max(n, 4)
        s0, _, _, _, dom = vor(rng, 2, n, 0.0)
    elif how == 'rect':
        s0, _, _, _, dom = build.rich_set(rng, 'rect', None, None, 0.0, local=False)
    s0.set_domain(dom)
    loc = rng.randint(2)

    def work(rank, size):
        s = s0.copy()
        e = S.sample_set(em.shape[1])
        e.set_values(em.copy())
        if loc:
            e.global_to_local()
        if how == 'emulated':
            s.estimate_volume_emulated(e)
        elif how == 'disc':
            d = S.discretization(s, None, emulated_input_sample_set=e)
            d.estimate_input_volume_emulated()
        elif how == 'mc':
            s.estimate_volume_mc()
        elif how == 'exact1':
            s.exact_volume_1D()
        elif how == 'exact2':
            s.exact_volume_2D(side_ratio=1.0)
        else:
            s.exact_volume_lebesgue()
            s.global_to_local()
        return {'same': {'volumes': s.get_volumes(), 'values': s.get_values()},
                'concat': {'volumes': (s.get_volumes_local(), s.get_volumes())}}
    both(ctx, rng, 'volumes', work)


def w_mc(ctx, rng):
    """Monte Carlo estimates: same on every process, from the number of points asked for."""
    dim = rng.randint(1, 4)
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(2, 25)
    few(ctx, n)
    s0, _, _, _, dom = vor(rng, dim, n, 0.0)
    s0.set_domain(dom)
    N = int(rng.choice([1, 3, 7, 100, 1001]))
    how = rng.choice(['volume', 'radii', 'both'])
    norm = bool(rng.randint(2))

    def work(rank, size):
        s = s0.copy()
        query = s.query
        asked = []          # the points this process looked up

        def watched(x, *a, **k):
            asked.append(np.array(x, copy=True))
            return query(x, *a, **k)
        s.query = watched
        if how == 'volume':
            s.estimate_volume(N)
        elif how == 'radii':
            s.estimate_radii(N, normalize=norm)
        else:
            s.estimate_radii_and_volume(N, normalize=norm)
        del s.query
        each = {'volumes': s.get_volumes(), 'values': s.get_values(), 'radii': s._radii,
                'normalized_radii': s._normalized_radii}
        return {'each': each, 'asked': asked, 'concat': {'volumes': (s.get_volumes_local(), s.get_volumes()),
                                         'radii': (s._radii_local, s._radii),
                                         'normalized_radii': (s._normalized_radii_local, s._normalized_radii)}}
    _, out = both(ctx, rng, 'mc', work, serial=False)
    e = out.results[0]['each']
    if how != 'radii':
        c = e['volumes'] * N
        ctx.check(np.allclose(c, np.round(c), atol=1e-6) and abs(c.sum() - N) < 1e-6, 'mc:counts',
                  counts=c, asked=N, size=out.size)
    asked = [x for r in out.results for x in r['asked']]
    if asked and sum(len(x) for x in asked) == N:
        x = np.vstack(asked)
        v = s0.get_values()
        D = oracle.dist_matrix(x, v, s0.get_p_norm())
        gap = np.sort(D, axis=1)
        if len(v) == 1 or (gap[:, 1] - gap[:, 0] > 1e-9 * (np.abs(dom).max() + np.ptp(dom))).all():
            own = D.argmin(axis=1)
            ctx.ev('mc_points', N)
            if how != 'radii':
                ctx.check(np.allclose(c, np.bincount(own, minlength=len(v)), atol=1e-6), 'mc:counts-of-cells',
                          size=out.size, counts=c)
            if how != 'volume':
                w = dom[:, 1] - dom[:, 0] if norm else 1.0
                d = oracle.norms((x - v[own]) / w, s0.get_p_norm())
                want = np.array([d[own == i].max() if (own == i).any() else 0.0 for i in range(len(v))])
                got = e['normalized_radii' if norm else 'radii']
                ctx.check(close(got, want, 1e-6), 'mc:radii', size=out.size, got=got, want=want, normalized=norm)
                ctx.ev('mc_radii', len(v))
    ctx.equal(e['values'], s0.get_values(), 'mc:values-changed')


def w_simple(ctx, rng):
    dim = rng.randint(1, 4)
    n = rng.randint(1, 20)
    # scipy refuses covariances of too different scales
    dom = gen.domain(rng, dim, ['unit', 'shift', 'neg', 'big'][rng.randint(4)])
    x = gen.points(rng, n, dom, 'uniform')
    ref = x[rng.randint(n)]
    w = dom[:, 1] - dom[:, 0]
    how = rng.choice(['regular', 'user', 'uniform', 'normal', 'uninormal', 'samples'])
    form = rng.randint(3)
    M = rng.randint(1, 9)
    N = int(rng.choice([1, 3, 50, 1000]))
    cpd = rng.randint(1, 4)
    part, dist = gen.points(rng, M, dom, 'uniform'), gen.points(rng, rng.randint(1, 30), dom, 'uniform')
    serial = how in ('regular', 'user', 'samples')

    def work(rank, size):
        data = x.copy()
        d = None
        if form:
            data = S.sample_set(dim)
            data.set_values(x.copy())
            data.set_reference_value(ref.copy())
            if form == 2:
                i = S.sample_set(1)
                i.set_values(np.arange(float(n)))
                d = data = S.discretization(i, data)
                d.global_to_local()
        if how == 'regular':
            s = F.regular_partition_uniform_distribution_rectangle_size(
                data, ref, rect_size=0.3 * w, cells_per_dimension=cpd)
        elif how == 'user':
            s = F.user_partition_user_distribution(data, part.copy(), dist.copy())
        elif how == 'samples':
            s = F.uniform_partition_uniform_distribution_data_samples(
                data if form else wrap(data))
        elif how == 'uniform':
            s = F.uniform_partition_uniform_distribution_rectangle_size(
                data, ref, rect_size=0.3 * w, M=M, num_d_emulate=N)
        elif how == 'normal':
            s = F.normal_partition_normal_distribution(data, ref, std=0.3 * w, M=M, num_d_emulate=N)
        else:
            s = F.uniform_partition_normal_distribution(data, ref, std=0.3 * w, M=M, num_d_emulate=N)
        r = dict(globs(s), prob=s.get_probabilities(), domain=s.get_domain(), width=s._width, left=s._left)
        out = {'same': r} if serial else {'each': r}
        if d is not None:
            d.globalize_ptrs()
            r['io_ptr'] = d.get_io_ptr()
        return out
    _, out = both(ctx, rng, 'simple', work, serial)
    if not serial:
        p = out.results[0]['each']['prob']
        c = p * N
        ctx.check(np.allclose(c, np.round(c), atol=1e-6) and abs(c.sum() - N) < 1e-6, 'simple:counts',
                  counts=c, asked=N, size=out.size, how=how)


def wrap(x):
    s = S.sample_set(x.shape[1])
    s.set_values(x)
    return s


def w_samples(ctx, rng):
    dim = rng.randint(1, 4)
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(1, 40)
    few(ctx, n)
    dom = gen.domain(rng, dim)
    how = rng.choice(['random', 'lhs', 'regular', 'kde', 'gmm', 'rv'])
    glob = bool(rng.randint(2))
    crit = [None, 'c', 'm'][rng.randint(3)] if n > 1 else None     # pyDOE: maximin needs two points
    from scipy.stats import gaussian_kde
    k = rng.randint(1, 4)
    cw = list(gen.probs(rng, k, False))
    kdes = [[gaussian_kde(rng.normal(size=6)) for _ in range(k)] for _ in range(dim)]
    means, covs = [rng.normal(size=dim) for _ in range(k)], [np.eye(dim) * (j + 1) for j in range(k)]
    rv = [['uniform', {'loc': float(a), 'scale': float(b - a)}] for a, b in dom]

    def work(rank, size):
        if how == 'random':
            s = B.random_sample_set(rv, dim, n, globalize=glob)
        elif how == 'lhs':
            s = B.lhs_sample_set(dom.copy(), n, crit, globalize=glob)
        elif how == 'regular':
            s = B.regular_sample_set(dom.copy(), max(1, int(round(n ** (1.0 / dim)))))
            if s.get_values_local() is None:
                s.global_to_local()
        else:
            src = S.sample_set(dim)
            src.set_prob_type(how)
            src.set_prob_parameters({'kde': (kdes, cw), 'gmm': (means, covs, cw), 'rv': rv}[how])
            s = B.sample_from_updated(src, n, globalize=glob)
        loc = s.get_values_local()
        num = s.check_num()
        if not glob and s.get_values() is None:
            s.local_to_global()
        r = {'values': s.get_values(), 'num': num, 'domain': s.get_domain()}
        return {('same' if how == 'regular' else 'each'): r,
                'concat': {'values': (loc, s.get_values())}}
    _, out = both(ctx, rng, 'samples', work, serial=how == 'regular')
    if how != 'regular':
        v = out.results[0]['each']['values']
        ctx.check(v.shape == (n, dim) and out.results[0]['each']['num'] == n, 'samples:number', got=v.shape,
                  want=(n, dim), how=how, size=out.size)
        # processes draw independently: no two share a sample
        ctx.check(len(np.unique(v, axis=0)) == n, 'samples:repeated', values=v, how=how, size=out.size)
        if how == 'lhs':
            u = np.floor((v - dom[:, 0]) / (dom[:, 1] - dom[:, 0]) * n - 1e-9 * (crit is None) * 0)
            for j in range(dim):
                ctx.check(len(set(np.clip(u[:, j], 0, n - 1))) == n, 'samples:strata', column=v[:, j])


def w_evaluate(ctx, rng):
    dim, do = rng.randint(1, 4), rng.randint(1, 4)
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(1, 30)
    few(ctx, n)
    dom = gen.domain(rng, dim)
    A = rng.normal(size=(dim, do))
    ee, jac = bool(rng.randint(2)), bool(rng.randint(2))
    x = gen.points(rng, n, dom, 'uniform')
    ref = gen.points(rng, 1, dom, 'uniform')[0] if rng.randint(2) else None
    glob = bool(rng.randint(2))
    given = rng.randint(2)

    def f(v):
        return np.sin(v.dot(A)) + v.sum(axis=1)[:, None]

    def work(rank, size):
        rows = []

        def model(v):
            v = np.asarray(v)
            rows.append(v.shape[0])
            r = [f(v)]
            if ee:
                r.append(0.1 * f(v))
            if jac:
                r.append(np.repeat(f(v)[:, :, None], dim, axis=2))
            return tuple(r) if len(r) > 1 else r[0]
        s = S.sample_set(dim)
        s.set_values(x.copy())
        s.set_domain(dom.copy())
        if ref is not None:
            s.set_reference_value(ref.copy())
        if given:
            s.global_to_local()
        sam = B.sampler(model, error_estimates=ee, jacobians=jac)
        d = sam.compute_qoi_and_create_discretization(s, globalize=glob)
        i, o = d.get_input_sample_set(), d.get_output_sample_set()
        li, lo = i.get_values_local(), o.get_values_local()
        if not glob:
            d.local_to_global()
        same = {'in': i.get_values(), 'out': o.get_values(), 'ref': o.get_reference_value(),
                'ee': o.get_error_estimates(), 'jac': i.get_jacobians(), 'num': d.check_nums()}
        return {'same': same, 'concat': {'in': (li, i.get_values()), 'out': (lo, o.get_values()),
                                         'jac': (i.get_jacobians_local(), i.get_jacobians())},
                'each': {'domain': i.get_domain()}, 'sum': {'rows': rows[0]}}
    _, out = both(ctx, rng, 'evaluate', work)
    ctx.ev('model_rows', n)


def w_files(ctx, rng):
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(2, 20)
    few(ctx, n)
    s0 = vor(rng, None, n, 0.5)[0]
    o0 = vor(rng, None, n, 0.5)[0]
    disc = bool(rng.randint(2))
    glob = bool(rng.randint(2))
    base = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    name = ['obj', 'proc', 'my.obj'][rng.randint(3)]
    drop = rng.randint(4) == 0
    other = rng.randint(3) == 0
    off = [-1, 1, 2][rng.randint(3)]
    try:
        def work(rank, size):
            where = os.path.join(base, str(size))
            if rank == 0:
                os.makedirs(where)
                if other:       # an object of another run with a similar name
                    for r in range(size + 1):
                        open(os.path.join(where, 'proc%d_other%s.p' % (r, name)), 'w').close()
            U.comm.barrier()
            f = os.path.join(where, name)
            obj = S.discretization(s0.copy(), o0.copy()) if disc else s0.copy()
            obj.global_to_local()
            keep = obj.copy()
            dump = pickle.dump
            written = []

            def watched(o, g, *a, **k):
                written.append(str(getattr(g, 'name', '')))
                return dump(o, g, *a, **k)
            pickle.dump = watched
            try:
                obj.save(f, globalize=glob)
            finally:
                pickle.dump = dump
            got = U.load_object(f)
            files = sorted(x for x in os.listdir(where) if 'other' not in x)
            res = {'equal': bool(got == keep) if not glob else None}
            i = got.get_input_sample_set() if disc else got
            o = got.get_output_sample_set() if disc else got
            res['files'] = len(files)
            same = {'num': i.check_num()}
            same.update(('g:' + k, v) for k, v in globs(i).items())
            same.update(('o:' + k, v) for k, v in globs(o).items())
            loc = U.load_object(f, localize=True)
            li = loc.get_input_sample_set() if disc else loc
            i.local_to_global() if not glob else None
            if not glob and size > 1:
                # pieces of a run on another number of processes are not this run's object
                away = os.path.join(where, 'away')
                if rank == 0:
                    os.makedirs(away)
                    for r in range(size + off):
                        shutil.copy(os.path.join(where, 'proc%d_%s.p' % (r % size, name)),
                                    os.path.join(away, 'proc%d_%s.p' % (r, name)))
                U.comm.barrier()
                try:
                    U.load_object(os.path.join(away, name))
                    res['refused'] = False
                except S.dim_not_matching:
                    res['refused'] = True
                U.comm.barrier()
            return {'same': same, 'each': res, 'concat': pieces(li), 'written': written}
        ref, out = both(ctx, rng, 'files', work)
        w = [x for r in out.results for x in r['written']]
        ctx.ev('files_written', len(w))
        ctx.check(len(w) == len(set(w)), 'files:written-by-several', files=w, globalize=glob)
        want = 1 if glob else out.size
        e = out.results[0]['each']
        ctx.ev('files', want)
        ctx.check(e['files'] == want, 'files:number', got=e['files'], want=want, globalize=glob)
        if not glob:
            ctx.ev('files_of_another_run')
            ctx.check(e['refused'], 'files:other-number-of-processes-accepted', size=out.size, written=out.size + off)
        ctx.check(all(r['each']['equal'] in (True, None) for r in out.results), 'files:loaded-differs',
                  globalize=glob)
    finally:
        shutil.rmtree(base)


def w_derive(ctx, rng):
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(2, 25)
    few(ctx, n)
    dim = rng.randint(1, 4)
    s0, _, _, _, dom = vor(rng, dim, n, 0.5)
    s0.set_domain(dom)
    o0 = vor(rng, dim, rng.randint(1, 12), 0.2)[0]
    o0.set_domain(dom.copy())
    o0.set_p_norm(s0.get_p_norm())
    c = rng.randint(1, n + 2)
    start = rng.randint(2)
    only_local = rng.randint(2)

    def work(rank, size):
        s, o = s0.copy(), o0.copy()
        if start:
            s.global_to_local()
            o.global_to_local()
            if only_local:
                t = S.sample_set(dim)
                t.set_domain(dom.copy())
                t.set_p_norm(s.get_p_norm())
                for n_ in ('values', 'volumes', 'probabilities'):
                    v = build.getter(s, n_ + '_local')
                    if v is not None:
                        getattr(t, 'set_%s_local' % n_)(v)
                s = t
        same, concat = {}, {}
        k = s.clip(c)
        same.update(('clip:' + a, b) for a, b in globs(k).items())
        if k.get_values_local() is not None:
            concat.update(('clip:' + a, b) for a, b in pieces(k).items() if b[0] is not None or b[1] is None)
        same['clip:num'] = k.check_num()
        s.normalize_domain()
        if s.get_values() is not None:
            same.update(('norm:' + a, b) for a, b in globs(s).items())
        s.undo_normalize_domain()
        m = s.merge(o)
        v = m.get_values()
        same['merge:rows'] = v[np.lexsort(v.T)]     # merged pieces keep the order of the processes
        same['merge:num'] = m.check_num()
        concat['merge'] = (m.get_values_local(), v)
        return {'same': same, 'concat': concat, 'each': {'merge:values': v}}
    both(ctx, rng, 'derive', work)


def w_density(ctx, rng):
    di, do = rng.randint(1, 3), rng.randint(1, 3)
    n, m = rng.randint(20, 60), rng.randint(12, 40)
    k = rng.randint(1, 3)
    x = rng.uniform(size=(n, di))
    A = rng.normal(size=(di, do))
    y = x.dot(A) + 0.05 * rng.normal(size=(n, do))
    obs = y[rng.choice(n, m)] + 0.05 * rng.normal(size=(m, do))
    reg, oreg = np.arange(n) % k, np.arange(m) % k
    how = rng.choice(['invert', 'kde', 'gmm', 'mvn', 'rv', 'rejection'])
    local_only = rng.randint(2)

    def work(rank, size):
        i, o, b = S.sample_set(di), S.sample_set(do), S.sample_set(do)
        for s, v, g in ((i, x, None), (o, y, reg), (b, obs, oreg)):
            if local_only:
                s.set_values_local(np.array_split(v, size)[rank].copy())
                if g is not None:
                    s.set_region_local(np.array_split(g, size)[rank].copy())
            else:
                s.set_values(v.copy())
                if g is not None:
                    s.set_region(g.copy())
        d = S.discretization(i, o, output_observed_set=b)
        res = {}
        each = {}
        if how == 'invert':
            R.invert(d)
        elif how == 'kde':
            mar, cw = R.invert_to_kde(d)
            res['kde'] = [[mm(np.linspace(0, 1, 5)) for mm in row] for row in mar]
            res['cw'] = cw
        elif how == 'gmm':
            res['gmm'] = list(R.invert_to_gmm(d))
        elif how == 'mvn':
            res['mvn'] = list(R.invert_to_multivariate_gaussian(d))
        elif how == 'rv':
            pp = R.invert_to_random_variable(d, 'norm', num_reweighted=500)
            res['rv'] = [[q[0]] + [q[1][z] for z in sorted(q[1])] for q in pp]
        else:
            s = R.invert_rejection_sampling(d)
            each['accepted'] = s.get_values()
            each['prob'] = s.get_probabilities()
            return {'each': each, 'same': {'weights': i.get_weights()},
                    'concat': {'accepted': (s.get_values_local(), s.get_values())}}
        res['weights'] = i.get_weights()
        return {'same': res, 'each': each}
    both(ctx, rng, 'density', work)


def error_problem(ctx, rng):
    dim, do = rng.randint(1, 3), rng.randint(1, 3)
    n = rng.randint(5, 40)
    dom = gen.domain(rng, dim, 'shift')
    x = gen.points(rng, n, dom, 'uniform')
    A = rng.normal(size=(dim, do))
    y = x.dot(A)
    p, _, num, _ = build.out_cells(rng, do, np.column_stack([y.min(axis=0) - .1, y.max(axis=0) + .1]),
                                   ['voronoi', 'cart'][rng.randint(2)], 4)
    p.set_probabilities(gen.probs(rng, num))
    err = 0.2 * rng.normal(size=y.shape)
    regs, _, rn, _ = build.out_cells(rng, dim, dom, ['voronoi', 'rect'][rng.randint(2)], 5)
    regs.set_region(np.arange(rn) % max(1, rn - 1))
    J = np.repeat(A.T[None], n, axis=0) + 0.1 * rng.normal(size=(n, do, dim))
    pre = rng.randint(3)

    def make():
        i, o = S.sample_set(dim), S.sample_set(do)
        i.set_values(x.copy())
        i.set_domain(dom.copy())
        i.set_jacobians(J.copy())
        o.set_values(y.copy())
        o.set_error_estimates(err.copy())
        d = S.discretization(i, o, output_probability_set=p.copy())
        if pre == 1:
            i.global_to_local()
            o.global_to_local()
        elif pre == 2:
            d.global_to_local()
        return d
    return make, regs, int(np.max(regs.get_region())), dom


def w_errors(ctx, rng):
    make, regs0, top, dom = error_problem(ctx, rng)
    em = gen.points(rng, rng.randint(20, 80), dom, 'uniform')
    which = int(rng.randint(top + 1))
    how = rng.choice(['sampling', 'sampling_region', 'model', 'model_region', 'model_mc', 'connect'])
    loc = rng.randint(2)

    def work(rank, size):
        d, regs = make(), regs0.copy()
        e = S.sample_set(len(dom))
        e.set_values(em.copy())
        if loc:
            e.global_to_local()
        i = d.get_input_sample_set()
        same = {}
        if how == 'connect':
            c = E.cell_connectivity_exact(d)
            same['cells'] = [sorted(c[k]) for k in range(i.check_num())]
        elif how.startswith('sampling'):
            i.estimate_volume_mc()
            er = E.sampling_error(d)
            same['e'] = list(er.calculate_for_contour_events()) if how == 'sampling' else \
                list(er.calculate_for_sample_set_region(regs, which, e))
        else:
            i.estimate_volume_mc()
            er = E.model_error(d)
            if how == 'model':
                same['e'] = er.calculate_for_contour_events()
            elif how == 'model_region':
                same['e'] = er.calculate_for_sample_set_region(regs, which, e)
            else:
                same['e'] = er.calculate_for_sample_set_region_mc(regs, which)
                if np.isfinite(same['e']):
                    i.local_to_global()
                    same['id'] = i.get_error_id()
        return {'same': same}
    both(ctx, rng, 'errors', work)


def w_surrogate(ctx, rng):
    make, regs0, top, dom = error_problem(ctx, rng)
    z = gen.points(rng, rng.randint(1, 60), dom, 'uniform')
    order = rng.randint(2)
    ask = list(range(top + 1))[:rng.randint(1, top + 2)]
    upd = bool(rng.randint(2))
    loc = rng.randint(3)

    def work(rank, size):
        d, regs = make(), regs0.copy()
        s = S.sample_set(len(dom))
        if loc == 0:
            s.set_values(z.copy())
        elif loc == 1:
            s.set_values_local(np.array_split(z, size)[rank].copy())
        else:
            s.set_values(z.copy())
            s.global_to_local()
        sur = V.piecewise_polynomial_surrogate(d)
        out = sur.generate_for_input_set(s, order=order)
        pr, er = sur.calculate_prob_for_sample_set_region(regs, ask, update_input=upd)
        i = sur.input_disc.get_input_sample_set()
        same = {'prob': pr, 'err': er, 'in': i.get_probabilities()}
        if np.all(np.isfinite(er)):
            same['id'] = i.get_error_id()
        s.local_to_global()
        o = out.get_output_sample_set()
        o.local_to_global()
        same.update(values=s.get_values(), out=o.get_values(), ee=o.get_error_estimates(),
                    num=out.check_nums(), p=s.get_probabilities())
        return {'same': same}
    both(ctx, rng, 'surrogate', work)


def w_qois(ctx, rng):
    n, dim = rng.randint(1, 4), rng.randint(1, 4)
    nq = dim + rng.randint(0, 5)
    G = rng.normal(size=(n, nq, dim))
    how = rng.choice(['opt', 'large'])
    nret = rng.randint(1, 6)
    k = rng.randint(1, dim + 1)
    # single vectors all have the same skewness: nothing to order them by
    meas = bool(rng.randint(2)) or k == 1 or dim == 1
    verbose = rng.randint(2)

    def work(rank, size):
        s = S.sample_set(dim)
        s.set_values(np.arange(float(n * dim)).reshape(n, dim))
        s.set_jacobians(G.copy())
        if how == 'opt':
            f = Q.chooseOptQoIs_verbose if verbose else Q.chooseOptQoIs
            r = f(s, num_qois_return=k, num_optsets_return=nret, measure=meas, remove_zeros=False)
        else:
            f = Q.chooseOptQoIs_large_verbose if verbose else Q.chooseOptQoIs_large
            r = f(s, max_qois_return=dim, num_optsets_return=nret, measure=meas, remove_zeros=False)
        return {'same': {'sets': list(r) if isinstance(r, (tuple, list)) else r}}
    both(ctx, rng, 'qois', work)


def w_marginals(ctx, rng):
    dim = rng.randint(2, 4)
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(1, 60)
    few(ctx, n)
    dom = gen.domain(rng, dim)
    x = gen.points(rng, n, dom, 'uniform')
    pr = gen.probs(rng, n)
    nb = [int(rng.randint(2, 9)), [int(v) for v in rng.randint(2, 9, dim)]][rng.randint(2)]
    loc, two = rng.randint(3), rng.randint(2)

    def work(rank, size):
        s = S.sample_set(dim)
        s.set_domain(dom.copy())
        if loc == 1:
            s.set_values_local(np.array_split(x, size)[rank].copy())
            s.set_probabilities_local(np.array_split(pr, size)[rank].copy())
        else:
            s.set_values(x.copy())
            s.set_probabilities(pr.copy())
            if loc == 2:
                s.global_to_local()
        f = M.calculate_2D_marginal_probs if two else M.calculate_1D_marginal_probs
        bins, mar = f(s, nbins=nb)
        keys = sorted(mar) if isinstance(mar, dict) else range(len(mar))
        return {'same': {'bins': [np.asarray(b) for b in bins], 'mar': [mar[q] for q in keys],
                         'keys': [str(q) for q in keys]}}
    both(ctx, rng, 'marginals', work)


def w_gather(ctx, rng):
    n = rng.randint(1, 5) if rng.randint(3) == 0 else rng.randint(1, 30)
    few(ctx, n)
    a = [rng.normal(size=(n, 3)), rng.normal(size=n), rng.randint(0, 99, n), rng.randint(0, 99, (n, 2)),
         rng.uniform(size=n) > 0.5, rng.normal(size=(n, 2, 3)), rng.normal(size=(n, 1))][rng.randint(7)]
    even = rng.randint(2)

    def work(rank, size):
        b = np.concatenate([a] * 60)[:60 * len(a)] if even else a
        loc = np.array_split(b, size)[rank].copy()
        keep = loc.copy()
        r = U.get_global_values(loc, b.shape) if even else U.get_global_values(loc)
        return {'same': {'all': r, 'dtype': str(r.dtype), 'kept': bool(np.array_equal(loc, keep))}}
    both(ctx, rng, 'gather', work)


ALL = [w_split, w_split_disc, w_solve, w_rebin, w_volumes, w_mc, w_simple, w_samples, w_evaluate, w_files, w_derive,
       w_density, w_errors, w_surrogate, w_qois, w_marginals, w_gather]
KINDS = [Kind(w.__name__[2:], w, 150, 1500) for w in ALL]
