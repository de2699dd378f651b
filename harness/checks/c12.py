"""C12: clipping, merging, slicing and appending keep every sample with its own data."""
import copy
import numpy as np
from core import Kind
import gen
import build
import oracle

ID = 'C12'
COMM = 'real'
QUICK_X, THOROUGH_X = 8, 6
RULE = ('Voronoi sets and discretizations with random attributes (global, local or both, pointers, '
        'emulated, probability and observed sets, reference values) are clipped, merged, sliced and '
        'appended to, singly and in sequences. Non-trivial: the operation keeps at least one sample and '
        'drops, adds or reorders something.')
REQUIRE = ['clips', 'merges', 'slices', 'appends', 'refusals', 'rows_judged', 'local_only', 'gathered',
           'beyond_the_end', 'repeated_index', 'sequences', 'emulated_merged', 'queries_judged']
ASSUMPTIONS = ['samples are distinct, so that rows can be followed; merging keeps values, domain, p-norm '
               'only (documented)']

ROWS = ['values', 'volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region',
        'error_id', 'weights', 'weights_init']
CONST = ['domain', 'reference_value', 'label', 'labels', 'p_norm', 'prob_type', 'prob_type_init',
         'prob_parameters', 'prob_parameters_init', 'cluster_maps', 'dim']


def setup():
    global S, P
    import bet.sample as S
    import bet.calculateP.calculateP as P


def make_set(ctx, rng, dim=None, n=None, fill=0.6):
    s, kind, dim, n, dom = build.rich_set(rng, ['sample_set', 'voronoi'][rng.randint(2)], dim, n, fill)
    if rng.randint(5) == 0:     # what a parallel sampler leaves: local arrays only
        t = type(s)(dim)
        t.set_p_norm(s.get_p_norm())
        for n_ in ['values', 'volumes', 'probabilities', 'jacobians', 'error_estimates']:
            v = build.getter(s, n_)
            if v is not None:
                getattr(t, 'set_%s_local' % n_)(v)
        if s.get_domain() is not None:
            t.set_domain(s.get_domain())
        s = t
        ctx.ev('local_only')
    elif rng.randint(4) == 0:   # values set globally, other arrays locally and then gathered
        t = type(s)(dim)
        t.set_p_norm(s.get_p_norm())
        t.set_values(s.get_values())
        for n_ in ['volumes', 'probabilities', 'jacobians', 'error_estimates', 'densities', 'region', 'error_id']:
            v = build.getter(s, n_)
            if v is not None:
                getattr(t, 'set_%s_local' % n_)(v)
        if s.get_domain() is not None:
            t.set_domain(s.get_domain())
        ctx.call('local_to_global', t.local_to_global)
        s = t
        ctx.ev('gathered')
    return s, dim, n, dom


def cur(s, name):
    """The data the set holds for an attribute, global or local."""
    g = build.getter(s, name)
    if g is None and name + '_local' in build.all_fields():
        g = build.getter(s, name + '_local')
    return copy.deepcopy(g)


def hold(s):
    return dict((n, cur(s, n)) for n in ROWS + CONST)


def judge_rows(ctx, s, want, idx, key, rows=ROWS):
    for n in rows:
        if want[n] is None:
            ctx.check(build.getter(s, n) is None, key, attribute=n, got=build.getter(s, n), want=None)
            continue
        got = build.getter(s, n)
        ctx.ev('rows_judged', len(idx))
        ctx.check(build.deep_equal(got, want[n][idx]), key, attribute=n, got=got, want=want[n][idx])
        if n + '_local' in build.all_fields():
            loc = build.getter(s, n + '_local')
            ctx.check(loc is None or build.deep_equal(loc, want[n][idx]), key + ':local', attribute=n,
                      got=loc, want=want[n][idx])


def judge_query(ctx, rng, s, dom, key):
    x = gen.points(rng, 7, dom, 'uniform')
    d, p = ctx.call('query', s.query, x)
    D = oracle.dist_matrix(x, s.get_values(), s.get_p_norm())
    ctx.ev('queries_judged', len(x))
    ctx.close(D[np.arange(len(x)), np.asarray(p).ravel()], D.min(axis=1), key,
              rtol=1e-9, atol=1e-9 * np.abs(dom).max())


def same(ctx, s, before, key, grow=True):
    for n, v in before.items():
        ctx.check(build.deep_equal(cur(s, n), v), key, attribute=n, got=cur(s, n), want=v)


def case_clip(ctx, rng):
    s, dim, n, dom = make_set(ctx, rng)
    if rng.randint(2) and s.get_values() is not None:
        s.query(gen.points(rng, 2, dom, 'uniform'))     # builds the search tree first
    want = hold(s)
    cnum = rng.randint(1, n + 1) if rng.randint(4) else n + rng.randint(1, 4)
    m = min(cnum, n)
    ctx.ev('clips')
    ctx.ev('beyond_the_end', cnum > n)
    c = ctx.call('clip', s.clip, cnum if rng.randint(2) else np.int64(cnum))
    ctx.check(type(c) is type(s), 'clip:type', got=type(c))
    judge_rows(ctx, c, want, np.arange(m), 'clip')
    for k in CONST:
        ctx.check(build.deep_equal(build.getter(c, k), want[k]), 'clip:kept', attribute=k,
                  got=build.getter(c, k), want=want[k])
    ctx.check(ctx.call('check_num', c.check_num) == m, 'clip:num')
    judge_query(ctx, rng, c, dom, 'clip:query')
    same(ctx, s, want, 'clip:source-changed')
    ctx.check(not np.shares_memory(c.get_values(), np.asarray(cur_ref(s))), 'clip:shares-memory')
    ctx.note(want['values'], cnum, nontrivial=m < n)
    ctx.describe(n=n, cnum=cnum, attributes=[k for k in ROWS if want[k] is not None])


def cur_ref(s):
    return s.get_values() if s.get_values() is not None else s.get_values_local()


def case_merge(ctx, rng):
    a, dim, n, dom = make_set(ctx, rng)
    b, _, m, _ = make_set(ctx, rng, dim)
    if rng.randint(8) == 0:
        o = make_set(ctx, rng, dim + 1)[0]
        ctx.ev('refusals')
        ctx.raises('merge-dim', S.dim_not_matching, a.merge, o)
    if a.get_domain() is not None and rng.randint(3) == 0:
        d = a.get_domain().copy()
        d[rng.randint(dim), rng.randint(2)] += (d[:, 1] - d[:, 0]).max()
        o = S.sample_set(dim)
        o.set_values(b.get_values() if b.get_values() is not None else b.get_values_local())
        o.set_domain(d)
        ctx.ev('refusals')
        ctx.raises('merge-domain', S.domain_not_matching, a.merge, o)
        ctx.raises('merge-domain', S.domain_not_matching, o.merge, a)
    if b.get_domain() is not None and a.get_domain() is not None:
        b.set_domain(a.get_domain().copy())
    b.set_p_norm(a.get_p_norm())
    wa, wb = hold(a), hold(b)
    ctx.ev('merges')
    c = ctx.call('merge', a.merge, b)
    v = np.concatenate([wa['values'], wb['values']])
    ctx.equal(c.get_values(), v, 'merge:values')
    ctx.ev('rows_judged', len(v))
    dd = wa['domain'] if wa['domain'] is not None else wb['domain']
    ctx.check(build.deep_equal(c.get_domain(), dd), 'merge:domain', got=c.get_domain(), want=dd)
    ctx.check(c.get_p_norm() == wa['p_norm'] and c.get_dim() == dim, 'merge:p-norm')
    ctx.check(c.check_num() == n + m, 'merge:num')
    judge_query(ctx, rng, c, dom, 'merge:query')
    same(ctx, a, wa, 'merge:source-changed')
    same(ctx, b, wb, 'merge:source-changed')
    ctx.note(v)
    ctx.describe(n=n, m=m, dim=dim)


def case_append(ctx, rng):
    s, dim, n, dom = make_set(ctx, rng)
    for k in ['volumes', 'probabilities', 'densities', 'region', 'error_id']:
        pass
    k = rng.randint(1, 6)
    new = gen.points(rng, k, dom, 'uniform')
    if k == dim and dim > 1:
        form = new
    else:
        form = [new, new.tolist() if dim > 1 and k > 1 and k != dim else new][rng.randint(2)]
    ctx.ev('appends')
    if rng.randint(4) == 0:     # whole numbers so far
        for name in ('values', 'values_local'):
            v = getattr(s, 'get_' + name)()
            if v is not None:
                getattr(s, 'set_' + name)(np.round(v * 10).astype(int))
    if s.get_values() is not None:
        s.query(new)
        w = s.get_values().copy()
        ctx.call('append_values', s.append_values, form)
        ctx.equal(s.get_values(), np.concatenate([w, new]), 'append')
        judge_query(ctx, rng, s, dom, 'append:query')
        if s.get_jacobians() is not None:
            j = s.get_jacobians().copy()
            nj = rng.normal(size=(k,) + j.shape[1:])
            ctx.call('append_jacobians', s.append_jacobians, nj)
            ctx.equal(s.get_jacobians(), np.concatenate([j, nj]), 'append:jacobians')
        if s.get_error_estimates() is not None:
            e = s.get_error_estimates().copy()
            ne = rng.normal(size=(k,) + e.shape[1:])
            ctx.call('append_error_estimates', s.append_error_estimates, ne)
            ctx.equal(s.get_error_estimates(), np.concatenate([e, ne]), 'append:error_estimates')
    if s.get_values_local() is not None:
        w = s.get_values_local().copy()
        g = None if s.get_values() is None else s.get_values().copy()
        ctx.call('append_values_local', s.append_values_local, form)
        ctx.equal(s.get_values_local(), np.concatenate([w, new]), 'append:local')
        ctx.check(build.deep_equal(s.get_values(), g), 'append:local-changed-global')
        ctx.call('local_to_global', s.local_to_global)
        ctx.equal(s.get_values(), np.concatenate([w, new]), 'append:globalized')
    ctx.note(new, n)
    ctx.describe(n=n, k=k)


def make_disc(ctx, rng, di=None, do=None, like=None):
    di, do, n = di or rng.randint(1, 5), do or rng.randint(1, 5), gen.size(rng, 2, 14, 800)
    i = make_set(ctx, rng, di, n, 0.4)[0]
    o = make_set(ctx, rng, do, n, 0.4)[0]
    if i.get_jacobians() is not None:
        i.set_jacobians(rng.normal(size=(n, do, di)))
        if i.get_jacobians_local() is not None:
            i.set_jacobians_local(i.get_jacobians().copy())
    elif i.get_jacobians_local() is not None:
        i.set_jacobians_local(rng.normal(size=(n, do, di)))
    if like is not None:
        for a, b in ((i, like.get_input_sample_set()), (o, like.get_output_sample_set())):
            a.set_p_norm(b.get_p_norm())
            if a.get_domain() is not None and b.get_domain() is not None:
                a.set_domain(b.get_domain().copy())
    d = S.discretization(i, o)
    have = rng.uniform(size=4) < 0.5
    if have[0]:
        p, _, num, _ = build.out_cells(rng, do, gen.domain(rng, do))
        p.set_probabilities(gen.probs(rng, num))
        d.set_output_probability_set(p)
    for h, name, dm in ((have[1], 'input', di), (have[2], 'output', do)):
        if h:
            e = S.sample_set(dm)
            e.set_values(rng.normal(size=(rng.randint(1, 12), dm)))
            getattr(d, 'set_emulated_%s_sample_set' % name)(e)
    if have[3]:
        b = S.sample_set(do)
        b.set_values(rng.normal(size=(rng.randint(1, 12), do)))
        d.set_output_observed_set(b)
    if have[0] and o.get_values_local() is not None:
        if o.get_values() is None:
            o.local_to_global()
        d.set_io_ptr()
    return d, n, have


def judge_ptr(ctx, d, key):
    """Pointers, where a derived discretization has them, are those of its own samples."""
    p = d.get_io_ptr()
    if p is not None:
        q = d.get_output_probability_set().query(d.get_output_sample_set().get_values())[1]
        ctx.equal(np.asarray(p).ravel(), np.asarray(q).ravel(), key)


def do_clip(ctx, rng, d, n):
    c = rng.randint(1, n + 1)
    wi, wo = hold(d.get_input_sample_set()), hold(d.get_output_sample_set())
    ctx.ev('clips')
    e = ctx.call('disc.clip', d.clip, c)
    judge_rows(ctx, e.get_input_sample_set(), wi, np.arange(c), 'disc-clip:input')
    judge_rows(ctx, e.get_output_sample_set(), wo, np.arange(c), 'disc-clip:output')
    for s in ('output_probability_set', 'emulated_input_sample_set', 'emulated_output_sample_set',
              'output_observed_set'):
        x, y = build.getter(d, s), build.getter(e, s)
        ctx.check((x is None) == (y is None) and (x is None or x == y), 'disc-clip:' + s, got=y)
    judge_ptr(ctx, e, 'disc-clip:pointer')
    ctx.check(e.check_nums() == c, 'disc-clip:num')
    same(ctx, d.get_input_sample_set(), wi, 'disc-clip:source-changed')
    same(ctx, d.get_output_sample_set(), wo, 'disc-clip:source-changed')
    return e, c


def do_merge(ctx, rng, d, n):
    o, m, have = make_disc(ctx, rng, d.get_input_sample_set().get_dim(),
                           d.get_output_sample_set().get_dim(), like=d)
    w = [hold(x) for x in (d.get_input_sample_set(), d.get_output_sample_set(),
                           o.get_input_sample_set(), o.get_output_sample_set())]
    em = {}
    for nme in ('emulated_input_sample_set', 'emulated_output_sample_set'):
        a, b = build.getter(d, nme), build.getter(o, nme)
        vs = [cur(x, 'values') for x in (a, b) if x is not None]
        em[nme] = np.concatenate(vs) if vs else None
        ctx.ev('emulated_merged', len(vs) == 2)
    ctx.ev('merges')
    e = ctx.call('disc.merge', d.merge, o)
    ctx.equal(e.get_input_sample_set().get_values(), np.concatenate([w[0]['values'], w[2]['values']]),
              'disc-merge:input')
    ctx.equal(e.get_output_sample_set().get_values(), np.concatenate([w[1]['values'], w[3]['values']]),
              'disc-merge:output')
    ctx.ev('rows_judged', n + m)
    for nme, v in em.items():
        x = build.getter(e, nme)
        ctx.check((x is None) == (v is None), 'disc-merge:' + nme, got=x, want=v)
        if v is not None:
            ctx.equal(cur(x, 'values'), v, 'disc-merge:' + nme)
    for s in ('output_probability_set', 'output_observed_set'):
        x, y = build.getter(d, s), build.getter(e, s)
        ctx.check((x is None) == (y is None) and (x is None or x == y), 'disc-merge:' + s, got=y)
    judge_ptr(ctx, e, 'disc-merge:pointer')
    ctx.check(e.check_nums() == n + m, 'disc-merge:num')
    for x, y in zip((d.get_input_sample_set(), d.get_output_sample_set(),
                     o.get_input_sample_set(), o.get_output_sample_set()), w):
        same(ctx, x, y, 'disc-merge:source-changed')
    return e, n + m


def do_slice(ctx, rng, d, n):
    i, o = d.get_input_sample_set(), d.get_output_sample_set()
    wi, wo = hold(i), hold(o)
    sel = []
    for dim in (i.get_dim(), o.get_dim()):
        k = rng.randint(1, dim + 1)
        ix = rng.choice(dim, k, replace=False).tolist()
        if rng.randint(8) == 0:
            ix = ix + ix[:1]
            ctx.ev('repeated_index')
        sel.append(None if rng.randint(4) == 0 else (ix if rng.randint(3) else np.array(ix)))
    full = [list(range(s.get_dim())) if x is None else list(x) for s, x in zip((i, o), sel)]
    ctx.ev('slices')
    kw = {}
    if sel[0] is not None or rng.randint(2):
        kw['inputs'] = sel[0]
    if sel[1] is not None or rng.randint(2):
        kw['outputs'] = sel[1]
    e = ctx.call('choose_inputs_outputs', d.choose_inputs_outputs, **kw)
    for s, w, ix, nm in ((e.get_input_sample_set(), wi, full[0], 'input'),
                         (e.get_output_sample_set(), wo, full[1], 'output')):
        ctx.check(s.get_dim() == len(ix), 'slice:dim:' + nm, got=s.get_dim(), want=len(ix))
        ctx.check(s.get_p_norm() == w['p_norm'], 'slice:p-norm:' + nm)
        for k in ('values', 'error_estimates'):
            want = None if w[k] is None else w[k][:, ix]
            ctx.check(build.deep_equal(cur(s, k), want), 'slice:%s:%s' % (k, nm), got=cur(s, k), want=want)
            ctx.ev('rows_judged', n)
        for k in ('domain', 'reference_value'):
            want = None if w[k] is None else w[k][ix]
            ctx.check(build.deep_equal(build.getter(s, k), want), 'slice:%s:%s' % (k, nm),
                      got=build.getter(s, k), want=want)
    want = None if wi['jacobians'] is None else wi['jacobians'][:, full[1]][:, :, full[0]]
    ctx.check(build.deep_equal(cur(e.get_input_sample_set(), 'jacobians'), want), 'slice:jacobians',
              got=cur(e.get_input_sample_set(), 'jacobians'), want=want)
    same(ctx, i, wi, 'slice:source-changed')
    same(ctx, o, wo, 'slice:source-changed')
    ctx.check(e.check_nums() == n, 'slice:num')
    judge_ptr(ctx, e, 'slice:pointer')
    # what a user writes into the slice does not reach the source
    for s in (e.get_input_sample_set(), e.get_output_sample_set()):
        for v in (s.get_values(), s.get_values_local(), s.get_domain()):
            if v is not None and v.flags.writeable:
                keep = v.copy()
                v += 1
                same(ctx, i, wi, 'slice:shares-memory')
                same(ctx, o, wo, 'slice:shares-memory')
                v[...] = keep
    return e, n


def case_disc(ctx, rng):
    d, n, have = make_disc(ctx, rng)
    ops = []
    first = hold(d.get_input_sample_set())['values']
    for _ in range(rng.randint(1, 4)):
        op = [do_clip, do_merge, do_slice][rng.randint(3)]
        ops.append(op.__name__)
        d, n = op(ctx, rng, d, n)
    ctx.ev('sequences', len(ops) > 1)
    ctx.note(first, ops)
    ctx.describe(ops=ops, n=n, sets=list(have))


KINDS = [Kind('clip', case_clip, 800, 10000), Kind('merge', case_merge, 600, 8000),
         Kind('append', case_append, 500, 5000), Kind('disc', case_disc, 1500, 20000)]
