"""C21: samples selected by probability are the densest (or least dense) ones and stay consistent."""
import numpy as np
from core import Kind
import gen
import build

ID = 'C21'
COMM = 'real'
QUICK_X, THOROUGH_X = 16, 8
RULE = ('Sets and discretizations (1-3 inputs, 1-2 outputs, 1-60 samples) with ties, zero and tiny '
        'probabilities, missing, zero or badly scaled volumes, sorted by density and cut at fractions of the '
        'probability from either end, sorted or in the order given. Non-trivial: some but not all samples are '
        'selected.')
REQUIRE = ['sorted', 'no_volumes', 'zero_volumes', 'zero_probabilities', 'discretizations', 'highest', 'lowest',
           'unsorted', 'partial_selection', 'ties', 'exact_sums', 'refusals', 'chained']
ASSUMPTIONS = ['the order of samples of equal density is not prescribed; a cumulative probability that equals '
               'the fraction up to rounding may be counted or not, unless all sums are exact']


def setup():
    global S, T
    import bet.sample as S
    import bet.postProcess.postTools as T


def make(ctx, rng):
    n, di, do = gen.size(rng, 1, 61, 5000), gen.few(rng, 1, 4, 7), gen.few(rng, 1, 3, 5)
    dom = gen.domain(rng, di)
    x, q = gen.points(rng, n, dom), rng.normal(size=(n, do))
    P = gen.probs(rng, n)
    if rng.randint(4) == 0:
        P = rng.randint(0, 4, n).astype(float)
        P[rng.randint(n)] += 1
        P /= P.sum()
        ctx.ev('ties')
    elif rng.randint(3) == 0:
        # multiples of 2^-20: every partial sum is exact, and so is the comparison with a fraction
        P = np.bincount(rng.randint(0, n, 1 << [3, 6, 10][rng.randint(3)]), minlength=n).astype(float)
        P /= P.sum()
        ctx.ev('exact_sums')
    vol = None if rng.randint(4) == 0 else gen.volumes(rng, n)
    if vol is None:
        ctx.ev('no_volumes')
    elif (vol == 0).any():
        ctx.ev('zero_volumes')
    if (P == 0).any():
        ctx.ev('zero_probabilities')
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](di)
    s.set_values(x.copy())
    s.set_probabilities(P.copy())
    if vol is not None:
        s.set_volumes(vol.copy())
    obj, data = s, None
    if rng.randint(2):
        o = S.sample_set(do)
        o.set_values(q.copy())
        obj, data = S.discretization(s, o), q
        ctx.ev('discretizations')
    ctx.describe(n=n, di=di, prob=P, vol=vol, discretization=data is not None)
    return obj, s, x, P, vol, data


def density(P, vol):
    """With 0/0 as 0: a sample without probability is never dense."""
    if vol is None:
        return P.copy()
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.where(P > 0, P / vol, 0.0)


def rows(ctx, obj, data, out, idx, x, P, vol, key):
    if data is not None:
        ctx.check(isinstance(out, S.discretization), key + ':type')
        o = out.get_output_sample_set()
        ctx.equal(o.get_values(), data[idx], key + ':data')
        out = out.get_input_sample_set()
    ctx.equal(out.get_values(), x[idx], key + ':values')
    ctx.equal(out.get_probabilities(), P[idx], key + ':probabilities')
    if vol is None:
        ctx.check(out.get_volumes() is None, key + ':volumes-invented')
    else:
        ctx.equal(out.get_volumes(), vol[idx], key + ':volumes')


def ordered(ctx, r, idx, key):
    a, b = r[idx][:-1], r[idx][1:]
    ok = (a >= b) | np.isclose(a, b, rtol=1e-12, atol=0)
    ctx.check(bool(ok.all()), key, densities=r[idx])


def case_sort(ctx, rng):
    obj, s, x, P, vol, data = make(ctx, rng)
    snap = build.snapshot(s)
    with np.errstate(all='ignore'):
        out, idx = ctx.call('sort_by_rho', T.sort_by_rho, obj)
    idx = np.asarray(idx)
    ctx.ev('sorted')
    ctx.check(sorted(idx.tolist()) == np.where(P > 0)[0].tolist(), 'sort:selection', indices=idx)
    ordered(ctx, density(P, vol), idx, 'sort:order')
    rows(ctx, obj, data, out, idx, x, P, vol, 'sort')
    build.unchanged(ctx, s, snap, 'sort:argument-changed')
    ctx.note(x, P, nontrivial=len(idx) > 1)


def case_select(ctx, rng):
    obj, s, x, P, vol, data = make(ctx, rng)
    snap = build.snapshot(s)
    base = np.arange(len(P))
    for rnd in range(rng.randint(1, 4)):
        if rnd:
            ctx.ev('chained')
        f = float(rng.choice([0.0, rng.uniform(), rng.uniform(), 0.5, 0.95, 1.0, 1.5]))
        if rng.randint(4) == 0 and len(P):
            f = float(np.cumsum(np.sort(P)[::-1])[rng.randint(len(P))])
        sort, low = bool(rng.randint(3)), bool(rng.randint(2))
        how = rng.randint(3)
        kw = {} if sort and rng.randint(2) else {'sort': sort}
        with np.errstate(all='ignore'):
            if how == 0:
                num, out, idx = ctx.call('sample_prob', T.sample_prob, f, obj, descending=low, **kw)
            elif low:
                num, out, idx = ctx.call('sample_lowest_prob', T.sample_lowest_prob, f, obj, **kw)
            else:
                num, out, idx = ctx.call('sample_highest_prob', T.sample_highest_prob, f, obj, **kw)
        ctx.ev('lowest' if low else 'highest')
        if not sort:
            ctx.ev('unsorted')
        idx = np.asarray(idx).astype(int)
        r = density(P, vol)
        ctx.check(num == len(idx), 'select:number', num=num, indices=idx)
        ctx.check(len(set(idx.tolist())) == len(idx), 'select:repeated', indices=idx)
        exact = bool((P * 2.0 ** 20 == np.round(P * 2.0 ** 20)).all())
        tot, tol = P[idx].sum(), 0.0 if exact else 1e-12
        ctx.check(tot <= f + tol, 'select:too-much', total=tot, fraction=f)
        rest = np.setdiff1d(np.arange(len(P)), idx)
        if sort:
            ctx.check(bool((P[idx] > 0).all()), 'select:zero-probability', indices=idx)
            ordered(ctx, -r if low else r, idx, 'select:order')
            rest = rest[P[rest] > 0]
            if len(rest):
                b = r[rest].min() if low else r[rest].max()
                if len(idx):
                    e = r[idx].max() if low else r[idx].min()
                    ok = (e <= b if low else e >= b) or np.isclose(e, b, rtol=1e-12, atol=0)
                    ctx.check(ok, 'select:not-extreme', indices=idx, left=b, kept=e)
                tie = rest[np.isclose(r[rest], b, rtol=1e-12, atol=0) | (r[rest] == b)]
                ctx.check(P[tie].max() + tot > f - tol, 'select:too-few', indices=idx, total=tot, fraction=f)
        else:
            want = np.arange(len(P))[::-1] if low else np.arange(len(P))
            ctx.equal(idx, want[:len(idx)], 'select:unsorted-order')
            if len(rest):
                ctx.check(tot + P[want[len(idx)]] > f - tol, 'select:too-few', indices=idx, total=tot, fraction=f)
        rows(ctx, obj, data, out, idx, x, P, vol, 'select')
        build.unchanged(ctx, s, snap, 'select:argument-changed')
        if 0 < len(idx) < (P > 0).sum():
            ctx.ev('partial_selection')
        ctx.note(x, P, f, nontrivial=0 < len(idx) < len(P))
        if len(idx) == 0 or rng.randint(2):
            break
        # select again from what was selected
        obj = out
        s = out.get_input_sample_set() if data is not None else out
        x, P, vol = x[idx], P[idx], None if vol is None else vol[idx]
        data = None if data is None else data[idx]
        snap = build.snapshot(s)


def case_refuse(ctx, rng):
    bad = [None, 3, rng.uniform(size=(3, 2)), 'set'][rng.randint(4)]
    ctx.ev('refusals')
    if rng.randint(2):
        ctx.raises('sort_by_rho', T.bad_object, T.sort_by_rho, bad)
    else:
        ctx.raises('sample_prob', T.bad_object, T.sample_prob, 0.5, bad)
    ctx.note(repr(bad))


KINDS = [Kind('sort', case_sort, 800, 20000), Kind('select', case_select, 2000, 40000),
         Kind('refuse', case_refuse, 20, 40)]
