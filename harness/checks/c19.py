"""C19: error bounds and estimates of probabilities are those of their definitions."""
import itertools
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C19'
COMM = 'real'
QUICK_X, THOROUGH_X = 8, 8
RULE = ('Discretizations of smooth maps (1-3 inputs, output cells of every type, positive, zero and empty '
        'output events, volumes global, local, emulated or by the MC assumption) whose contour events, '
        'interior and boundary cells, sampling error bounds and model error estimates are computed for contour '
        'events and for regions of sets of every type, several times and in any order on the same object. '
        'Non-trivial: some event has interior cells (sampling) or changes under the model error.')
REQUIRE = ['cells_connected', 'interior_cells', 'bounds_judged', 'bounds_undefined', 'regions_judged',
           'estimates_judged', 'error_ids', 'changed_cells', 'repeated', 'refusals', 'emulated:given',
           'emulated:own', 'emulated:mc', 'vol:local', 'vol:none', 'empty_event', 'brute_force_triangles']
ASSUMPTIONS = ['neighbours are those of the Voronoi diagram of the whole space (no cut by the domain)',
               'samples and emulated points are in general position (ties are skipped)']


def setup():
    global S, E
    import bet.sample as S
    import bet.calculateP.calculateError as E


def neighbours(ctx, x):
    n, dim = x.shape
    nb = [set() for _ in range(n)]
    if dim == 1:
        o = np.argsort(x[:, 0])
        for a, b in zip(o[:-1], o[1:]):
            nb[a].add(b)
            nb[b].add(a)
        return nb
    if dim == 2 and n <= 12:
        ctx.ev('brute_force_triangles')
        for t in itertools.combinations(range(n), 3):
            a, b, c = x[list(t)]
            M = 2 * np.array([b - a, c - a])
            if abs(np.linalg.det(M)) < 1e-14:
                return None
            ctr = np.linalg.solve(M, [b.dot(b) - a.dot(a), c.dot(c) - a.dot(a)])
            r = np.linalg.norm(ctr - a)
            dist = np.linalg.norm(x - ctr, axis=1)
            rest = np.delete(dist, t)
            if len(rest) and np.any(np.abs(rest - r) < 1e-9 * r):
                return None
            if np.all(rest > r):
                for i, j in itertools.combinations(t, 2):
                    nb[i].add(j)
                    nb[j].add(i)
        return nb
    # lower faces of the convex hull of the points lifted to a paraboloid
    from scipy.spatial import ConvexHull
    y = (x - x.mean(axis=0)) / np.abs(x - x.mean(axis=0)).max()
    H = ConvexHull(np.column_stack([y, (y ** 2).sum(axis=1)]))
    for f, eq in zip(H.simplices, H.equations):
        if abs(eq[-2]) < 1e-10:
            return None
        if eq[-2] < 0:
            for i, j in itertools.combinations(f, 2):
                nb[i].add(j)
                nb[j].add(i)
    return nb


def assign(allowed, pts):
    """The unique cell of every point, or None if any point is on a boundary."""
    a = allowed(pts)
    if not np.all(a.sum(axis=1) == 1):
        return None
    return a.argmax(axis=1)


def nearest(x, pts, p):
    D = oracle.dist_matrix(pts, x, p)
    s = np.sort(D, axis=1)
    if len(x) > 1 and np.any(s[:, 1] - s[:, 0] <= 1e-10 * (1 + s[:, 1])):
        return None
    return D.argmin(axis=1)


class Problem(object):
    pass


def problem(ctx, rng, p2=True, errors=False):
    t = Problem()
    di, do = gen.few(rng, 1, 4, 5), gen.few(rng, 1, 3, 4)
    n = rng.randint(di + 2, 13 if di < 4 else 30) if rng.randint(3) == 0 or di > 3 else gen.size(rng, di + 2, 70, 500)
    if di == 1 and rng.randint(8) == 0:
        n = rng.randint(1, 4)
    t.dom = gen.domain(rng, di, rng.choice(['unit', 'unit', 'shift', 'neg', 'ints', 'micro', 'scales']))
    t.n, t.di = n, di
    t.x = gen.points(rng, n, t.dom, 'uniform')
    y = (t.x - t.dom[:, 0]) / (t.dom[:, 1] - t.dom[:, 0])
    A = rng.normal(size=(di, do))
    u = 1.0 if rng.randint(6) else 10.0 ** rng.choice([-13, -9, 9])
    t.q = u * (y.dot(A) + 0.1 * np.sin(3 * y.dot(A)))
    whole = errors and u == 1.0 and n % 5 == 3       # outputs given as integers
    if whole:
        t.q = np.round(20 * t.q)
        ctx.ev('integer_outputs')
    box = np.column_stack([t.q.min(axis=0) - 1e-3 * u, t.q.max(axis=0) + 1e-3 * u])
    if rng.randint(4) == 0:      # some output cells nothing maps to
        box[:, 1] += 0.7 * (box[:, 1] - box[:, 0])
    t.pset, t.allowed, t.num, t.kind = build.out_cells(rng, do, box, nmax=4)
    t.ptr = assign(t.allowed, t.q)
    t.pr = gen.probs(rng, t.num)
    t.pset.set_probabilities(t.pr.copy())
    t.p = 2.0 if p2 else gen.perm_p(rng)
    t.ins = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](di)
    t.ins.set_p_norm(t.p)
    t.ins.set_values(t.x.copy())
    t.ins.set_domain(t.dom.copy())
    t.outs = S.sample_set(do)
    t.outs.set_values(t.q.astype(int) if whole else t.q.copy())
    t.ok = t.ptr is not None
    if errors:
        big = rng.choice([0.02, 0.3, 1.5]) * (box[:, 1] - box[:, 0])
        t.err = rng.normal(size=t.q.shape) * big
        t.outs.set_error_estimates(t.err.copy())
        t.ptr2 = assign(t.allowed, t.q + t.err)
        t.ok = t.ok and t.ptr2 is not None
    t.emu = None
    if rng.randint(3) == 0:
        t.emu, t.e = emulated(rng, t)
    kw = {} if t.emu is None else {'emulated_input_sample_set': t.emu}
    t.d = S.discretization(t.ins, t.outs, output_probability_set=t.pset, **kw)
    if rng.randint(3) == 0:
        t.d.set_io_ptr()
    how = rng.choice(['global', 'both', 'local', 'none'])
    t.vol = None
    ctx.ev('vol:' + how)
    if how != 'none':
        t.vol = rng.gamma(2.0, size=n) + 1e-6
        t.vol /= t.vol.sum()
        if how in ('global', 'both'):
            t.ins.set_volumes(t.vol.copy())
        if how == 'both':
            t.ins.global_to_local()
        if how == 'local':
            t.ins.set_volumes_local(t.vol.copy())
    ctx.describe(di=di, do=do, n=n, cells=t.kind, out_prob=t.pr, volumes=how,
                 emulated=None if t.emu is None else len(t.e), p_norm=t.p)
    return t


def emulated(rng, t, m=None):
    m = m or gen.size(rng, 20, 300, 3000)
    e = gen.points(rng, m, t.dom, 'uniform')
    s = S.sample_set(t.di)
    s.set_values(e.copy())
    if rng.randint(2):
        s.global_to_local()
    return s, e


def volumes(ctx, t):
    """The volumes the estimates have to use, by what is available."""
    if t.vol is not None:
        return t.vol
    if t.emu is not None:
        own = nearest(t.x, t.e, t.p)
        return None if own is None else np.bincount(own, minlength=t.n) / float(len(t.e))
    return np.ones(t.n) / t.n


def interior(t, nb):
    B = [[i for i in range(t.n) if t.ptr[i] == k and nb[i] and all(t.ptr[j] == k for j in nb[i])]
         for k in range(t.num)]
    C = [[i for i in range(t.n) if any(t.ptr[j] == k for j in nb[i])] for k in range(t.num)]
    return B, C


def as_lists(m, num):
    return [sorted(int(i) for i in (m[k] if k in m else [])) for k in range(num)]


def case_cells(ctx, rng):
    t = problem(ctx, rng)
    nb = neighbours(ctx, t.x)
    if not t.ok or nb is None:
        ctx.note(nontrivial=False)
        return
    snaps = [build.snapshot(s) for s in (t.ins, t.outs, t.pset)]
    got = ctx.call('cell_connectivity_exact', E.cell_connectivity_exact, t.d)
    for i in range(t.n):
        want = set(int(t.ptr[j]) for j in nb[i])
        now = list(got[i])
        ctx.check(len(now) == len(set(now)) and set(int(k) for k in now) == want, 'neighbours', cell=i,
                  got=now, want=sorted(want))
    ctx.ev('cells_connected', t.n)
    B, C = interior(t, nb)
    b, c = ctx.call('boundary_sets', E.boundary_sets, t.d, got)
    ctx.check(as_lists(b, t.num) == B, 'interior', got=b, want=B)
    ctx.check(as_lists(c, t.num) == C, 'boundary', got=c, want=C)
    ctx.ev('interior_cells', sum(map(len, B)))
    for s, sn in zip((t.ins, t.outs, t.pset), snaps):
        build.unchanged(ctx, s, sn, 'cells:argument-changed')
    ctx.note(t.x, t.ptr, nontrivial=any(B))


def region_set(ctx, rng, t, emus):
    """A set with regions, and the region of every emulated point by the definition."""
    s, allowed, num, kind = build.out_cells(rng, t.di, t.dom, nmax=6)
    reg = rng.randint(0, rng.choice([3, 3, 8]), num)
    s.set_region(reg.copy())
    which = int(rng.choice(reg))
    out = []
    for e in emus:
        a = assign(allowed, e)
        out.append(None if a is None else reg[a] == which)
    return s, which, out


def judge_pair(ctx, got, want, key, **d):
    got = np.array(got, float)
    want = np.array(want, float)
    ctx.check(got.shape == want.shape and
              np.all((np.isnan(got) & np.isnan(want)) | np.isclose(got, want, rtol=1e-9, atol=1e-12)),
              key, got=got, want=want, **d)


def case_sampling(ctx, rng):
    t = problem(ctx, rng)
    nb = neighbours(ctx, t.x)
    vol = volumes(ctx, t)
    if not t.ok or nb is None or vol is None:
        ctx.note(nontrivial=False)
        return
    B, C = interior(t, nb)
    er = ctx.call('sampling_error', E.sampling_error, t.d)
    steps = rng.randint(1, 5)
    for step in range(steps):
        if step:
            ctx.ev('repeated')
        if rng.randint(2):
            up, low = ctx.call('contour_events', er.calculate_for_contour_events)
            wu, wl = [], []
            for k in range(t.num):
                if t.pr[k] == 0:
                    wu.append(0.0)
                    wl.append(0.0)
                    continue
                if not B[k]:
                    wu.append(np.nan)
                    wl.append(np.nan)
                    ctx.ev('bounds_undefined')
                    continue
                inA = t.ptr == k
                mB, mC = vol[B[k]].sum(), vol[C[k]].sum()
                if mB == 0:
                    ctx.note(nontrivial=False)
                    return
                a = (vol * inA)[B[k]].sum() / mC - 1.0
                b = (vol * inA)[C[k]].sum() / mB - 1.0
                wu.append(t.pr[k] * max(a, b))
                wl.append(t.pr[k] * min(a, b))
                ctx.ev('bounds_judged')
            judge_pair(ctx, up, wu, 'sampling:upper', step=step)
            judge_pair(ctx, low, wl, 'sampling:lower', step=step)
            ctx.close(t.ins.get_volumes(), vol, 'sampling:volumes')
        else:
            ems, e, args = emu_choice(ctx, rng, t)
            own = nearest(t.x, e, 2.0)
            s, which, (inA,) = region_set(ctx, rng, t, [e])
            if own is None or inA is None:
                continue
            got = ctx.call('region', er.calculate_for_sample_set_region, s, which, *args)
            up = low = 0.0
            for k in range(t.num):
                if t.pr[k] == 0:
                    continue
                inK = t.ptr[own] == k
                inB, inC = np.isin(own, B[k]), np.isin(own, C[k])
                if not inK.sum() or not inB.sum() or not inC.sum():
                    up = low = np.nan
                    ctx.ev('bounds_undefined')
                    break
                ex = (inA & inK).sum() / float(inK.sum())
                a = (inA & inB).sum() / float(inC.sum()) - ex
                b = (inA & inC).sum() / float(inB.sum()) - ex
                up += t.pr[k] * max(a, b)
                low += t.pr[k] * min(a, b)
            judge_pair(ctx, got, (up, low), 'sampling:region', step=step)
            ctx.ev('regions_judged')
    ctx.note(t.x, t.ptr, t.pr, steps, nontrivial=any(B))


def emu_choice(ctx, rng, t):
    if rng.randint(2):
        ctx.ev('emulated:given')
        s, e = emulated(rng, t)
        return s, e, [s]
    if t.emu is not None:
        ctx.ev('emulated:own')
        return t.emu, t.e, []
    ctx.ev('emulated:mc')
    return t.ins, t.x, []


def case_model(ctx, rng):
    t = problem(ctx, rng, p2=False, errors=True)
    vol = volumes(ctx, t)
    if not t.ok or vol is None:
        ctx.note(nontrivial=False)
        return
    snap = build.snapshot(t.outs)
    er = ctx.call('model_error', E.model_error, t.d)
    ctx.ev('changed_cells', int((t.ptr != t.ptr2).sum()))
    steps = rng.randint(1, 5)
    for step in range(steps):
        if step:
            ctx.ev('repeated')
        if rng.randint(2):
            got = ctx.call('contour_events', er.calculate_for_contour_events)
            want = []
            for k in range(t.num):
                a, b = t.ptr == k, t.ptr2 == k
                if t.pr[k] == 0:
                    want.append(0.0)
                elif vol[a].sum() == 0 or vol[b].sum() == 0:
                    want.append(None)
                    ctx.ev('empty_event')
                else:
                    want.append(t.pr[k] * (1.0 - vol[a & b].sum() / vol[b].sum()))
            ctx.check(len(got) == t.num, 'model:number', got=got)
            for k in range(t.num):
                if want[k] is None:
                    ctx.check(not np.isfinite(got[k]), 'model:undefined', got=got, event=k)
                else:
                    ctx.close(got[k], want[k], 'model:events', rtol=1e-8, atol=1e-12, event=k, step=step)
                    ctx.ev('estimates_judged')
            ctx.close(t.ins.get_volumes(), vol, 'model:volumes')
        else:
            ems, e, args = emu_choice(ctx, rng, t)
            mc = rng.randint(3) == 0
            if mc:
                ems, e = t.ins, t.x
                own = np.arange(t.n)
            elif ems is t.ins:
                mc, own = True, np.arange(t.n)
            else:
                own = nearest(t.x, e, t.p)
            s, which, (inA,) = region_set(ctx, rng, t, [e])
            if own is None or inA is None:
                continue
            if mc and (args or t.emu is not None or rng.randint(2)):
                got = ctx.call('region_mc', er.calculate_for_sample_set_region_mc, s, which)
            else:
                got = ctx.call('region', er.calculate_for_sample_set_region, s, which, *args)
            tot, ids, bad = 0.0, np.zeros(t.n), False
            for k in range(t.num):
                if t.pr[k] == 0:
                    continue
                a, b = t.ptr[own] == k, t.ptr2[own] == k
                if not a.any() or not b.any():
                    ctx.ev('empty_event')
                    bad = True
                    break
                c = t.pr[k] * ((inA & a).sum() / float(a.sum()) - (inA & b).sum() / float(b.sum()))
                tot += c
                ch = (t.ptr == k) != (t.ptr2 == k)
                if ch.any():
                    ids[ch] += c / ch.sum()
            if bad:
                ctx.check(not np.isfinite(got), 'model:region-undefined', got=got)
            else:
                ctx.close(got, tot, 'model:region', rtol=1e-8, atol=1e-12, step=step)
                ctx.ev('regions_judged')
                if mc:
                    ctx.close(t.ins.get_error_id_local(), ids, 'model:error-id', rtol=1e-8, atol=1e-12)
                    ctx.ev('error_ids', t.n)
    build.unchanged(ctx, t.outs, snap, 'model:outputs-changed')
    ctx.equal(t.pset.get_probabilities(), t.pr, 'model:probabilities-changed')
    ctx.note(t.x, t.ptr, t.ptr2, steps, nontrivial=bool((t.ptr != t.ptr2).any()))


def case_refuse(ctx, rng):
    ctx.ev('refusals')
    t = problem(ctx, rng, errors=False)
    W = E.wrong_argument_type
    k = rng.randint(6)
    if k == 0:
        for fn in (E.cell_connectivity_exact, lambda d: E.boundary_sets(d, {}), E.sampling_error, E.model_error):
            ctx.raises('not-a-discretization', W, fn, t.ins)
    elif k == 1:
        t.ins.set_p_norm([1.0, np.inf][rng.randint(2)])
        ctx.raises('other-norm', W, E.cell_connectivity_exact, t.d)
        ctx.raises('other-norm', W, E.boundary_sets, t.d, {})
        ctx.raises('other-norm', W, E.sampling_error, t.d)
    elif k == 2:
        ctx.raises('no-error-estimates', W, E.model_error, t.d)
    elif k == 3:
        ctx.raises('inexact', NotImplementedError, E.sampling_error, t.d, False)
    else:
        t.outs.set_error_estimates(np.ones((t.n, t.outs.get_dim())) * 0.1)
        er = E.model_error(t.d) if k == 4 else E.sampling_error(t.d)
        s = S.sample_set(t.di)
        s.set_values(gen.points(rng, 4, t.dom, 'uniform'))
        ctx.raises('no-regions', W, er.calculate_for_sample_set_region, s, 0)
        s.set_region(np.array([0, 1, 1, 0]))
        ctx.raises('unknown-region', W, er.calculate_for_sample_set_region, s, 2)
        if k == 4:
            ctx.raises('unknown-region', W, er.calculate_for_sample_set_region_mc, s, 2)
    ctx.note(k, t.n, t.di)


KINDS = [Kind('cells', case_cells, 700, 9000), Kind('sampling', case_sampling, 1200, 15000),
         Kind('model', case_model, 1500, 20000), Kind('refuse', case_refuse, 60, 300)]
