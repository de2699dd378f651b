"""C02: moving a measure from one discretization of a space to another conserves mass
and gives every new cell exactly the mass of what falls into it."""
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C02'
COMM = 'real'
QUICK_X, THOROUGH_X = 14, 10
RULE = ('Random old sets (1-90 points with probabilities incl. zeros and extremes), random new '
        'sets of every type and p-norm, optional emulated points, through prob_from_sample_set, '
        'prob_from_sample_set_with_emulated_volumes and prob_from_discretization_input, chained '
        'up to three times. Non-trivial: new set has at least two cells and mass reaches one.')
REQUIRE = ['cell_assignments', 'chained', 'old_cells_without_points', 'mass_moves',
           'ptype:voronoi', 'ptype:rect', 'ptype:ball', 'ptype:cart']


def setup():
    global S, P
    import bet.sample as S
    import bet.calculateP.calculateP as P


def old_set(ctx, rng, dim, dom, n=None):
    n = n or (rng.randint(1, 90) if rng.uniform() < 0.97 else rng.randint(300, 2000))
    x = gen.points(rng, n, dom)
    pr = gen.probs(rng, n)
    if rng.randint(5) == 0:
        pr = pr * rng.uniform(0.1, 3)      # not necessarily normalised
    s = S.sample_set(dim)
    s.set_values(x.copy())
    s.set_p_norm(gen.perm_p(rng))
    how = rng.choice(['global', 'both', 'values_local_first'])
    if how == 'values_local_first':
        ctx.call('global_to_local', s.global_to_local)
    s.set_probabilities(pr.copy())
    if how == 'both':
        ctx.call('global_to_local', s.global_to_local)
    return s, x, pr


def new_set(ctx, rng, dim, dom):
    s, allowed, num, kind = build.out_cells(rng, dim, dom,
                                            nmax=12 if rng.uniform() < 0.9 else 80)
    ctx.ev('ptype:' + kind)
    if rng.randint(3) == 0:
        s.set_probabilities(gen.probs(rng, num))     # to be overwritten
    return s, allowed, num


def voro_allowed(x, pts, p):
    D = oracle.dist_matrix(x, pts, p)
    return D <= D.min(axis=1, keepdims=True) + 1e-12 * (
        np.abs(x).max() + np.abs(pts).max())


def ptr_of(ctx, s, pts, allowed, num, key):
    _, ptr = ctx.call('query', s.query, pts)
    return build.check_ptr(ctx, np.ravel(ptr), allowed(pts), num, key)


def accept(ctx, s, ret, want, total, key, **d):
    got = s.get_probabilities()
    ctx.check(got is not None and np.shape(got) == want.shape, key + ':shape', got=got, **d)
    ctx.close(got, want, key, rtol=1e-9, atol=1e-300, **d)
    ctx.equal(ret, got, key + ':returned', **d)
    ctx.check(bool(np.all(got >= 0)), key + ':negative', got=got, **d)
    ctx.close(np.sum(got), total, key + ':mass', rtol=1e-9, **d)
    ctx.check(s.get_prob_type() == 'voronoi', key + ':type', got=s.get_prob_type())
    ctx.ev('mass_moves')


def case_mc(ctx, rng):
    dim = gen.few(rng, 1, 5)
    dom = gen.domain(rng, dim)
    old, x, pr = old_set(ctx, rng, dim, dom)
    ctx.describe(dim=dim, n=len(x), pr=pr)
    sig = [x, pr]
    num = 1
    for step in range(1 + rng.randint(3)):
        if step:
            ctx.ev('chained')
        new, allowed, num = new_set(ctx, rng, dim, dom)
        snap = build.snapshot(old, skip=('probabilities_local', 'values_local'))
        nv = np.array(new.get_values(), copy=True)
        ret = ctx.call('prob_from_sample_set', P.prob_from_sample_set, old, new)
        build.unchanged(ctx, old, snap, 'old-set-changed')
        ctx.equal(new.get_values(), nv, 'new-values-changed')
        ptr = ptr_of(ctx, new, x, allowed, num, 'new-cell')
        want = oracle.rebin(ptr, pr, num)
        accept(ctx, new, ret, want, pr.sum(), 'prob_from_sample_set', step=step)
        if not np.all(np.isfinite(new.get_values())):
            break
        old, x, pr = new, np.array(new.get_values()), want
        sig.append(x)
    ctx.note(*sig, nontrivial=num > 1)


def case_emulated(ctx, rng):
    dim = gen.few(rng, 1, 5)
    dom = gen.domain(rng, dim)
    old, x, pr = old_set(ctx, rng, dim, dom, n=rng.randint(1, 25))
    new, allowed, num = new_set(ctx, rng, dim, dom)
    if rng.randint(8) == 0:       # without emulated points: the MC assumption
        ret = ctx.call('prob_from_sample_set_with_emulated_volumes',
                       P.prob_from_sample_set_with_emulated_volumes, old, new)
        ptr = ptr_of(ctx, new, x, allowed, num, 'new-cell')
        accept(ctx, new, ret, oracle.rebin(ptr, pr, num), pr.sum(), 'emulated-none')
        ctx.note(x, pr, nontrivial=num > 1)
        return
    # mostly enough points for every old cell, sometimes deliberately too few
    m = rng.randint(1, 40) if rng.randint(2) else rng.randint(200, 800)
    e = gen.points(rng, m, dom)
    es = S.sample_set(dim)
    es.set_values(e.copy())
    if rng.randint(2):
        ctx.call('global_to_local', es.global_to_local)
    ctx.describe(dim=dim, n=len(x), m=m, pr=pr)
    p_old = old.get_p_norm()
    iptr = ptr_of(ctx, old, e, lambda y: voro_allowed(y, x, p_old), len(x), 'old-cell')
    if not np.any(pr[iptr] > 0):
        ctx.ev('no_mass_reached')
        return                       # nothing to distribute: outside the property
    snap = build.snapshot(old, skip=('probabilities_local', 'values_local'))
    esnap = build.snapshot(es, skip=('values_local',))
    ret = ctx.call('prob_from_sample_set_with_emulated_volumes',
                   P.prob_from_sample_set_with_emulated_volumes, old, new, es)
    build.unchanged(ctx, old, snap, 'old-set-changed')
    build.unchanged(ctx, es, esnap, 'emulated-set-changed')
    cnt = np.bincount(iptr, minlength=len(x))
    mass = pr[iptr] / cnt[iptr]
    total = pr.sum()
    if np.any((cnt == 0) & (pr > 0)):
        # cells without emulated points: their mass is redistributed, total is one
        ctx.ev('old_cells_without_points')
        mass = mass / mass.sum()
        total = 1.0
    ptr = ptr_of(ctx, new, e, allowed, num, 'new-cell')
    accept(ctx, new, ret, oracle.rebin(ptr, mass, num), total, 'emulated')
    ctx.note(x, pr, e, nontrivial=num > 1)


def case_disc(ctx, rng):
    dim, do = rng.randint(1, 5), rng.randint(1, 3)
    dom, odom = gen.domain(rng, dim), gen.domain(rng, do)
    ins, x, pr = old_set(ctx, rng, dim, dom)
    outs = S.sample_set(do)
    outs.set_values(gen.points(rng, len(x), odom))
    d = S.discretization(ins, outs)
    src, pts, mass = ins, x, pr
    if rng.randint(2):
        src, pts, mass = old_set(ctx, rng, dim, dom)
        ctx.call('set_emulated_input_sample_set', d.set_emulated_input_sample_set, src)
        ctx.ev('disc_emulated')
    ctx.describe(dim=dim, n=len(pts), mass=mass)
    new, allowed, num = new_set(ctx, rng, dim, dom)
    snap = build.snapshot(src, skip=('probabilities_local', 'values_local'))
    ret = ctx.call('prob_from_discretization_input', P.prob_from_discretization_input, d, new)
    build.unchanged(ctx, src, snap, 'old-set-changed')
    ptr = ptr_of(ctx, new, pts, allowed, num, 'new-cell')
    accept(ctx, new, ret, oracle.rebin(ptr, mass, num), mass.sum(),
           'prob_from_discretization_input')
    ctx.note(pts, mass, nontrivial=num > 1)


def case_reject(ctx, rng):
    """Sets of different dimension, or without probabilities, are refused."""
    dim = rng.randint(1, 4)
    other = dim + rng.randint(1, 3)
    old, x, pr = old_set(ctx, rng, dim, gen.domain(rng, dim))
    new, _, _ = new_set(ctx, rng, other, gen.domain(rng, other))
    es = S.sample_set(dim)
    es.set_values(x.copy())
    bad = (S.dim_not_matching,)
    ctx.raises('prob_from_sample_set', bad, P.prob_from_sample_set, old, new)
    ctx.raises('prob_from_sample_set_with_emulated_volumes', bad,
               P.prob_from_sample_set_with_emulated_volumes, old, new, es)
    same, _, _ = new_set(ctx, rng, dim, gen.domain(rng, dim))
    es2 = S.sample_set(other)
    es2.set_values(gen.points(rng, 5, gen.domain(rng, other)))
    ctx.raises('prob_from_sample_set_with_emulated_volumes', bad,
               P.prob_from_sample_set_with_emulated_volumes, old, same, es2)
    outs = S.sample_set(1)
    outs.set_values(np.arange(len(x), dtype=float))
    d = S.discretization(old, outs)
    ctx.raises('prob_from_discretization_input', bad, P.prob_from_discretization_input, d, new)
    bare = S.sample_set(dim)
    bare.set_values(x.copy())
    ctx.raises('prob_from_discretization_input', (AttributeError,),
               P.prob_from_discretization_input, S.discretization(bare, outs), same)
    ctx.note(dim, other, len(x))


KINDS = [Kind('mc', case_mc, 900, 9000), Kind('emulated', case_emulated, 900, 9000),
         Kind('disc', case_disc, 500, 5000), Kind('reject', case_reject, 40, 300)]
