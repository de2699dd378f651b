"""C20: surrogates are the piecewise polynomials they claim and propagate probability and error."""
import numpy as np
from core import Kind
import gen
import build
import oracle
from checks import c19
from checks.c19 import assign, nearest

ID = 'C20'
COMM = 'real'
QUICK_X, THOROUGH_X = 8, 8
RULE = ('Surrogates of order 0 and 1 of smooth maps (1-3 inputs, 1-3 outputs, any p-norm and output cells), '
        'generated repeatedly for different input sets (global or local), then used for probabilities and '
        'errors of lists of regions of sets of every type, with and without updating the input. Non-trivial: '
        'more than one cell of the input discretization is used.')
REQUIRE = ['order0', 'order1', 'values_judged', 'errors_judged', 'regions_judged', 'updates_judged',
           'not_updated', 'regenerated', 'refusals', 'affine_exact', 'domain_adopted', 'domain_kept',
           'empty_event', 'own_volumes', 'coincident_points']
ASSUMPTIONS = ['points on cell boundaries are skipped', 'an event no surrogate sample maps to makes the error '
               'estimate infinite']


def setup():
    global S, E, V
    import bet.sample as S
    import bet.calculateP.calculateError as E
    import bet.surrogates as V
    c19.setup()


def make(ctx, rng):
    t = c19.Problem()
    di, do = gen.few(rng, 1, 4, 6), gen.few(rng, 1, 4, 6)
    n = gen.size(rng, 1, 40, 500)
    t.dom = gen.domain(rng, di, rng.choice(['unit', 'shift', 'neg', 'scales', 'ints', 'micro']))
    t.n, t.di, t.do = n, di, do
    t.lo, t.w = t.dom[:, 0], t.dom[:, 1] - t.dom[:, 0]
    t.x = gen.points(rng, n, t.dom, 'uniform')
    t.A = rng.normal(size=(di, do))
    t.affine = bool(rng.randint(2))
    y = (t.x - t.lo) / t.w
    u = 1.0 if rng.randint(6) else 10.0 ** rng.choice([-13, -9, 9])
    t.A = t.A * u
    t.q = y.dot(t.A) + (0 if t.affine else 0.3) * u * np.sin(3 * y.dot(t.A) / u)
    whole = not t.affine and u == 1.0 and n % 5 == 3     # outputs given as integers
    if whole:
        t.q = np.round(20 * t.q)
        ctx.ev('integer_outputs')
    t.J = np.tile(t.A.T / t.w, (n, 1, 1))
    if not t.affine:
        t.J = t.J + u * rng.normal(size=t.J.shape) / t.w
    box = np.column_stack([t.q.min(axis=0) - 1e-2 * u, t.q.max(axis=0) + 1e-2 * u])
    t.pset, t.allowed, t.num, t.kind = build.out_cells(rng, do, box, nmax=4)
    t.pr = gen.probs(rng, t.num)
    t.pset.set_probabilities(t.pr.copy())
    t.p = gen.perm_p(rng)
    t.ins = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](di)
    t.ins.set_p_norm(t.p)
    t.outs = S.sample_set(do)
    t.err = rng.normal(size=t.q.shape) * rng.choice([0.02, 0.3]) * (box[:, 1] - box[:, 0])
    local = rng.randint(3) == 0
    t.jac, t.ee = bool(rng.randint(4)), bool(rng.randint(4))
    for s, name, val in [(t.ins, 'values', t.x), (t.outs, 'values', t.q.astype(int) if whole else t.q)] + \
            ([(t.ins, 'jacobians', t.J)] if t.jac else []) + \
            ([(t.outs, 'error_estimates', t.err)] if t.ee else []):
        getattr(s, 'set_%s%s' % (name, '_local' if local else ''))(val.copy())
    t.has_dom = bool(rng.randint(3))
    if t.has_dom:
        t.ins.set_domain(t.dom.copy())
    t.d = S.discretization(t.ins, t.outs, output_probability_set=t.pset)
    ctx.describe(di=di, do=do, n=n, p_norm=t.p, cells=t.kind, out_prob=t.pr, local=local)
    return t


def surrogate_set(ctx, rng, t):
    m = gen.size(rng, 1, 60, 3000)
    z = gen.points(rng, m, t.dom, 'uniform')
    if rng.randint(2):    # some of them are samples of the input itself
        k = rng.randint(m, size=rng.randint(1, m + 1))
        z[k] = t.x[rng.randint(t.n, size=len(k))]
        ctx.ev('coincident_points', len(k))
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](t.di)
    how = rng.randint(3)
    if how == 0:
        s.set_values(z.copy())
    elif how == 1:
        s.set_values_local(z.copy())
    else:
        s.set_values(z.copy())
        s.global_to_local()
    s.set_p_norm(gen.perm_p(rng))
    own_dom = None
    if rng.randint(2):
        own_dom = np.column_stack([t.lo - 0.5 * t.w, t.lo + 2 * t.w])
        s.set_domain(own_dom.copy())
    return s, z, own_dom


def case_surrogate(ctx, rng):
    t = make(ctx, rng)
    sur = ctx.call('surrogate', V.piecewise_polynomial_surrogate, t.d)
    used = 0
    for rnd in range(rng.randint(1, 4)):
        if rnd:
            ctx.ev('regenerated')
        s, z, own_dom = surrogate_set(ctx, rng, t)
        m, pn = len(z), s.get_p_norm()
        own = nearest(t.x, z, t.p)
        if own is None:
            continue
        order = int(rng.randint(2)) if t.jac else 0
        a = {} if order == 0 and rng.randint(2) else {'order': order}
        out = ctx.call('generate_for_input_set', sur.generate_for_input_set, s, **a)
        ctx.ev('order%d' % order)
        ctx.check(out.get_input_sample_set() is s, 'generate:input')
        ctx.equal(s.get_p_norm(), pn, 'generate:p-norm')
        want = t.q[own]
        if order:
            want = want + np.einsum('ijk,ik->ij', t.J[own], z - t.x[own])
        o = out.get_output_sample_set()
        ctx.check(o.get_dim() == t.do, 'generate:dimension')
        tol = 1e-12 * (1 + np.abs(t.q).max() + np.abs(t.J).max() * np.abs(t.dom).max())
        ctx.close(o.get_values_local(), want, 'generate:values', rtol=1e-10, atol=tol, order=order)
        ctx.ev('values_judged', m)
        if order and t.affine:
            ctx.close(o.get_values_local(), ((z - t.lo) / t.w).dot(t.A), 'generate:affine-exact', rtol=1e-9,
                      atol=100 * tol)
            ctx.ev('affine_exact')
        if t.ee:
            ctx.equal(o.get_error_estimates_local(), t.err[own], 'generate:error-estimates')
            ctx.ev('errors_judged', m)
        else:
            ctx.check(o.get_error_estimates_local() is None, 'generate:errors-invented')
        ctx.equal(out.get_output_probability_set().get_probabilities(), t.pr, 'generate:output-probabilities')
        if own_dom is not None:
            ctx.equal(s.get_domain(), own_dom, 'generate:domain-replaced')
            ctx.ev('domain_kept')
        elif t.has_dom:
            ctx.equal(s.get_domain(), t.dom, 'generate:domain')
            ctx.ev('domain_adopted')
        ctx.equal(sur.input_disc.get_input_sample_set().get_values(), t.x, 'generate:input-changed')
        ctx.equal(sur.input_disc.get_output_sample_set().get_values(), t.q, 'generate:outputs-changed')
        used = max(used, len(set(own)))
        if t.ee:
            for _ in range(rng.randint(0, 3)):
                regions(ctx, rng, t, sur, s, z, own, want)
        ctx.equal(o.get_values_local(), o.get_values() if o.get_values() is not None else o.get_values_local(),
                  'generate:global-local')
    ctx.note(t.x, t.q, t.pr, nontrivial=used > 1)


def regions(ctx, rng, t, sur, s, z, own, vals):
    m = len(z)
    p1, p2 = assign(t.allowed, vals), assign(t.allowed, vals + t.err[own])
    cells, allowed, num, kind = build.out_cells(rng, t.di, t.dom, nmax=6)
    at = assign(allowed, z)
    if p1 is None or p2 is None or at is None:
        return
    reg = rng.randint(0, 4, num)
    cells.set_region(reg.copy())
    ask = [int(r) for r in rng.permutation(sorted(set(reg)))[:rng.randint(1, 4)]]
    vol = np.ones(m) / m
    if rng.randint(3) == 0:
        vol = rng.gamma(2.0, size=m) + 1e-6
        vol /= vol.sum()
        s.set_volumes_local(vol.copy())
        ctx.ev('own_volumes')
    elif s.get_volumes_local() is not None:
        vol = s.get_volumes_local().copy()
    upd = bool(rng.randint(3))
    before = (sur.input_disc.get_input_sample_set().get_probabilities(),
              sur.input_disc.get_input_sample_set().get_error_id())
    a = {} if upd and rng.randint(2) else {'update_input': upd}
    prob, err = ctx.call('regions', sur.calculate_prob_for_sample_set_region, cells, ask, **a)
    mass = oracle.share(p1, t.pr, vol)
    got = rebin_ = oracle.rebin(at, mass, num)
    ctx.check(len(prob) == len(err) == len(ask), 'regions:number', probabilities=prob, errors=err)
    ids = np.zeros(m)
    for r, pv, ev in zip(ask, prob, err):
        ctx.close(pv, rebin_[reg == r].sum(), 'regions:probability', rtol=1e-9, atol=1e-13, region=r)
        tot, ids, bad = 0.0, np.zeros(m), False
        inA = (reg == r)[at]
        for k in range(t.num):
            if t.pr[k] == 0:
                continue
            a1, a2 = p1 == k, p2 == k
            if not a1.any() or not a2.any():
                bad = True
                continue
            c = t.pr[k] * ((inA & a1).sum() / float(a1.sum()) - (inA & a2).sum() / float(a2.sum()))
            tot += c
            ch = a1 != a2
            if ch.any():
                ids[ch] += c / ch.sum()
        if bad:
            ctx.check(not np.isfinite(ev), 'regions:error-undefined', got=ev)
            ctx.ev('empty_event')
        else:
            ctx.close(ev, tot, 'regions:error', rtol=1e-8, atol=1e-12, region=r)
        ctx.ev('regions_judged')
    i = sur.input_disc.get_input_sample_set()
    if upd:
        ctx.close(i.get_probabilities(), oracle.rebin(own, mass, t.n), 'update:probabilities', rtol=1e-9,
                  atol=1e-13)
        if not bad:
            ctx.close(i.get_error_id(), oracle.rebin(own, ids, t.n), 'update:error-id', rtol=1e-8, atol=1e-12)
        ctx.ev('updates_judged')
    else:
        ctx.check(build.deep_equal(i.get_probabilities(), before[0]) and
                  build.deep_equal(i.get_error_id(), before[1]), 'update:unasked')
        ctx.ev('not_updated')


def case_refuse(ctx, rng):
    t = make(ctx, rng)
    W = E.wrong_argument_type
    ctx.ev('refusals')
    k = rng.randint(5)
    if k == 0:
        ctx.raises('not-a-discretization', W, V.piecewise_polynomial_surrogate, t.ins)
    else:
        sur = V.piecewise_polynomial_surrogate(t.d)
        s, z, _ = surrogate_set(ctx, rng, t)
        if k == 1:
            ctx.raises('order', W, sur.generate_for_input_set, s, int(rng.choice([-1, 2, 3])))
        elif k == 2:
            b = S.sample_set(t.di + 1)
            b.set_values(rng.uniform(size=(4, t.di + 1)))
            ctx.raises('dimension', S.dim_not_matching, sur.generate_for_input_set, b)
        elif k == 3:
            ctx.raises('nothing-generated', W, sur.calculate_prob_for_sample_set_region, s, [0])
        elif not t.jac:
            ctx.raises('no-jacobians', W, sur.generate_for_input_set, s, 1)
    ctx.note(k, t.x)


KINDS = [Kind('surrogate', case_surrogate, 1500, 20000), Kind('refuse', case_refuse, 80, 400)]
