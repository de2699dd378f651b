"""C01: the set-based inverse conserves every output cell's probability and
shares it over the cell's inputs in proportion to volume."""
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C01'
COMM = 'real'
QUICK_X, THOROUGH_X = 12, 8
RULE = ('Random discretizations (input dim 1-4, output dim 1-3, 1-70 samples, output cells of '
        'every set type and p-norm, zero/tiny/dominating probabilities and volumes, volumes '
        'given globally, locally or by the MC assumption) driven through multi-step histories '
        '(re-solve, replace the output probability set or the emulated set). Non-trivial: at least '
        'two samples and a positive-probability cell that contains a sample.')
ASSUMPTIONS = ['arrays given globally are localised the way the API localises them '
               '(one rank here; several ranks are property C14)']
REQUIRE = ['cell_assignments', 'positive_cells_hit', 'positive_cells_empty', 'resolves',
           'ptype:voronoi', 'ptype:rect', 'ptype:ball', 'ptype:cart', 'emulated_points']


def setup():
    global S, P
    import bet.sample as S
    import bet.calculateP.calculateP as P


def make(rng, nmax=70):
    di, do = gen.few(rng, 1, 5), gen.few(rng, 1, 4, 5)
    n = rng.randint(1, nmax) if rng.uniform() < 0.97 else rng.randint(300, 2500)
    dom, odom = gen.domain(rng, di), gen.domain(rng, do)
    x = gen.points(rng, n, dom)
    q = gen.points(rng, n, odom)
    ins = S.sample_set(di)
    ins.set_values(x.copy())
    ins.set_domain(dom)
    ins.set_p_norm(gen.perm_p(rng))
    outs = S.sample_set(do)
    outs.set_values(q.copy())
    return ins, outs, dom, odom, x, q


def new_cells(ctx, rng, do, odom):
    pset, allowed, num, kind = build.out_cells(rng, do, odom,
                                               nmax=9 if rng.uniform() < 0.9 else 60)
    pr = gen.probs(rng, num)
    pset.set_probabilities(pr.copy())
    ctx.ev('ptype:' + kind)
    return pset, allowed, num, pr


def give_volumes(ctx, rng, ins, n, again=False):
    how = rng.choice(['global', 'global+local', 'local', 'mc'])
    v = gen.volumes(rng, n)
    if how == 'mc':
        ctx.call('estimate_volume_mc', ins.estimate_volume_mc)
        v = np.ones(n) / n
    elif how == 'global' and not again:
        ins.set_volumes(v.copy())
    elif how == 'local':
        ins.set_volumes_local(v.copy())
        if again:
            ins.set_volumes(v.copy())
    else:
        ins.set_volumes(v.copy())
        ctx.call('global_to_local', ins.global_to_local)
    return v, how


def judge(ctx, got, ptr, pr, vol, key, **d):
    want = oracle.share(ptr, pr, vol)
    ctx.check(got is not None and np.shape(got) == (len(ptr),), key + ':shape', got=got, **d)
    ctx.check(bool(np.all(got >= 0)), key + ':negative', got=got, **d)
    ctx.close(got, want, key, rtol=1e-9, atol=1e-300, ptr=ptr, out_prob=pr, vol=vol, **d)
    # conservation, stated on its own: mass per output cell
    mass = oracle.rebin(ptr, got, len(pr))
    volm = oracle.rebin(ptr, vol, len(pr))
    ctx.close(mass, np.where(volm > 0, pr, 0.0), key + ':conservation', rtol=1e-9,
              atol=1e-14, **d)
    ctx.ev('positive_cells_hit', int(np.sum((pr > 0) & (volm > 0))))
    ctx.ev('positive_cells_empty', int(np.sum((pr > 0) & (volm == 0))))


def case_prob(ctx, rng):
    ins, outs, dom, odom, x, q = make(rng)
    n = len(x)
    pset, allowed, num, pr = new_cells(ctx, rng, outs.get_dim(), odom)
    if rng.randint(2):
        d = S.discretization(ins, outs, output_probability_set=pset)
    else:
        d = S.discretization(ins, outs)
        if rng.randint(2):
            ctx.call('global_to_local', outs.global_to_local)
        ctx.call('set_output_probability_set', d.set_output_probability_set, pset)
    vol, how = give_volumes(ctx, rng, ins, n)
    if rng.randint(4) == 0:
        ctx.call('set_io_ptr', d.set_io_ptr, globalize=bool(rng.randint(2)))
    ctx.describe(n=n, di=ins.get_dim(), do=outs.get_dim(), how=how, out_prob=pr, vol=vol)
    for step in range(1 + rng.randint(3)):
        if step:
            ctx.ev('resolves')
            op = rng.choice(['probs', 'cells', 'vols', 'same', 'outs'])
            if op == 'probs':
                pr = gen.probs(rng, num)
                pset.set_probabilities(pr.copy())
            elif op == 'cells':
                pset, allowed, num, pr = new_cells(ctx, rng, outs.get_dim(), odom)
                ctx.call('set_output_probability_set', d.set_output_probability_set, pset)
            elif op == 'vols':
                vol, how = give_volumes(ctx, rng, ins, n, again=True)
            elif op == 'outs':
                q = gen.points(rng, n, odom)
                outs = S.sample_set(outs.get_dim())
                outs.set_values(q.copy())
                ctx.call('set_output_sample_set', d.set_output_sample_set, outs)
        isnap = build.snapshot(ins, skip=('probabilities', 'probabilities_local'))
        osnap, psnap = build.snapshot(outs), build.snapshot(pset)
        glob = rng.uniform() < 0.8
        ctx.call('prob', P.prob, d, globalize=bool(glob))
        build.unchanged(ctx, ins, isnap, 'prob-changed-input')
        build.unchanged(ctx, outs, osnap, 'prob-changed-output')
        build.unchanged(ctx, pset, psnap, 'prob-changed-output-cells')
        loc = ins.get_probabilities_local()
        if glob:
            ctx.equal(ins.get_probabilities(), loc, 'prob-global-local-differ')
        d2 = S.discretization(ins, outs, output_probability_set=pset)
        d2.set_io_ptr()
        # the pointer is judged against the geometry, then used by the oracle
        ptr = build.check_ptr(ctx, d2.get_io_ptr(), allowed(q), num, 'output-cell')
        judge(ctx, loc, ptr, pr, vol, 'prob', step=step)
        ctx.check(ins.get_prob_type() == 'voronoi', 'prob-type', got=ins.get_prob_type())
    ctx.note(x, q, pr, vol, nontrivial=n > 1 and bool(np.any(pr[ptr] > 0)))


def emulated_set(ctx, rng, dim, dom, m=None):
    m = m or gen.size(rng, 1, 300)
    e = gen.points(rng, m, dom)
    es = S.sample_set(dim)
    es.set_values(e.copy())
    if rng.randint(2):
        ctx.call('global_to_local', es.global_to_local)
    return es, e


def case_emulated(ctx, rng):
    """prob_on_emulated_samples: a cell's mass is split evenly over its points."""
    ins, outs, dom, odom, x, q = make(rng)
    n = len(x)
    pset, allowed, num, pr = new_cells(ctx, rng, outs.get_dim(), odom)
    es, e = emulated_set(ctx, rng, ins.get_dim(), dom)
    style = rng.randint(3)
    if style == 0:
        d = S.discretization(ins, outs, output_probability_set=pset,
                             emulated_input_sample_set=es)
    else:
        d = S.discretization(ins, outs)
        if style == 2:
            ctx.call('global_to_local', outs.global_to_local)
        ctx.call('set_emulated_input_sample_set', d.set_emulated_input_sample_set, es)
        ctx.call('set_output_probability_set', d.set_output_probability_set, pset)
    ctx.describe(n=n, m=len(e), out_prob=pr)
    for step in range(1 + rng.randint(3)):
        if step:
            ctx.ev('resolves')
            op = rng.choice(['probs', 'cells', 'emulated'])
            if op == 'probs':
                pr = gen.probs(rng, num)
                pset.set_probabilities(pr.copy())
            elif op == 'cells':
                pset, allowed, num, pr = new_cells(ctx, rng, outs.get_dim(), odom)
                ctx.call('set_output_probability_set', d.set_output_probability_set, pset)
            else:
                es, e = emulated_set(ctx, rng, ins.get_dim(), dom)
                ctx.call('set_emulated_input_sample_set', d.set_emulated_input_sample_set, es)
        isnap, osnap = build.snapshot(ins), build.snapshot(outs)
        ctx.call('prob_on_emulated_samples', P.prob_on_emulated_samples, d)
        build.unchanged(ctx, ins, isnap, 'emulated-changed-input')
        build.unchanged(ctx, outs, osnap, 'emulated-changed-output')
        _, iptr = ctx.call('query', ins.query, e)
        D = oracle.dist_matrix(e, x, ins.get_p_norm())
        near = D <= D.min(axis=1, keepdims=True) + 1e-12 * np.abs(dom).max()
        iptr = build.check_ptr(ctx, iptr, near, n, 'input-cell')
        _, optr = ctx.call('query', pset.query, q)
        optr = build.check_ptr(ctx, optr, allowed(q), num, 'output-cell')
        judge(ctx, es.get_probabilities(), optr[iptr], pr, np.ones(len(e)),
              'prob_on_emulated_samples', step=step)
        ctx.equal(es.get_probabilities_local(), es.get_probabilities(),
                  'emulated-global-local-differ')
        ctx.ev('emulated_points', len(e))
    ctx.note(x, q, e, pr, nontrivial=len(e) > 1 and n > 1 and bool(np.any(pr[optr[iptr]] > 0)))


def case_emulated_volumes(ctx, rng):
    """prob_with_emulated_volumes: volume = fraction of emulated points in the cell."""
    ins, outs, dom, odom, x, q = make(rng)
    n = len(x)
    pset, allowed, num, pr = new_cells(ctx, rng, outs.get_dim(), odom)
    es, e = emulated_set(ctx, rng, ins.get_dim(), dom)
    d = S.discretization(ins, outs, output_probability_set=pset,
                         emulated_input_sample_set=es)
    ctx.describe(n=n, m=len(e), out_prob=pr)
    if rng.randint(3) == 0:  # volumes of an earlier solve must not leak in
        give_volumes(ctx, rng, ins, n, again=True)
    ctx.call('prob_with_emulated_volumes', P.prob_with_emulated_volumes, d)
    _, iptr = ctx.call('query', ins.query, e)
    D = oracle.dist_matrix(e, x, ins.get_p_norm())
    near = D <= D.min(axis=1, keepdims=True) + 1e-12 * np.abs(dom).max()
    iptr = build.check_ptr(ctx, iptr, near, n, 'input-cell')
    vol = np.bincount(iptr, minlength=n) / float(len(e))
    ctx.close(ins.get_volumes(), vol, 'emulated-volume', rtol=1e-12)
    _, optr = ctx.call('query', pset.query, q)
    optr = build.check_ptr(ctx, optr, allowed(q), num, 'output-cell')
    judge(ctx, ins.get_probabilities(), optr, pr, vol, 'prob_with_emulated_volumes')
    ctx.ev('emulated_points', len(e))
    ctx.note(x, q, e, pr, nontrivial=n > 1 and bool(np.any(pr[optr] > 0)))


KINDS = [Kind('prob', case_prob, 1200, 12000),
         Kind('emulated', case_emulated, 700, 7000),
         Kind('emulated_volumes', case_emulated_volumes, 500, 5000)]
