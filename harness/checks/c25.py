"""C25: inconsistent data is refused and what was there stays."""
import numpy as np
from core import Kind
import gen
import build

ID = 'C25'
COMM = 'real'
QUICK_X, THOROUGH_X = 16, 8
RULE = ('Sets of every type get values, domains, reference values and other arrays of right and wrong '
        'dimension and length, in every orientation; discretizations get sets of right and wrong '
        'dimension, length and type. Each call has to be accepted and stored, or refused with the previous '
        'state kept; the number of samples reported is compared with the arrays set. Non-trivial: at '
        'least two arrays or sets take part.')
REQUIRE = ['attributes_set', 'bounding_boxes', 'values_accepted', 'values_transposed', 'values_refused', 'domains_accepted', 'domains_refused',
           'references_refused', 'references_accepted', 'lengths_consistent', 'lengths_refused',
           'local_lengths_refused', 'local_only', 'setups_refused', 'setups_accepted', 'disc_refused',
           'disc_accepted', 'setters_refused', 'setters_accepted', 'type_refused', 'fixed_appends', 'bounds',
           'kind:rect', 'kind:cart', 'kind:ball', 'kind:sample_set']
ASSUMPTIONS = ['a two-dimensional array whose second axis has the length of the dimension is taken as it is, '
               'else one whose first axis has it is taken transposed; where the code has no dedicated refusal '
               'any exception counts as one']

ARRAYS = ['volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region', 'error_id']


def setup():
    global S, REFUSAL
    import bet.sample as S
    REFUSAL = (S.dim_not_matching, S.length_not_matching)


def arr(rng, name, n, dim):
    if name == 'jacobians':
        return rng.normal(size=(n, 2, dim))
    if name == 'error_estimates':
        return rng.normal(size=(n, dim))
    if name in ('region', 'error_id'):
        return rng.randint(0, 3, n) if rng.randint(4) else rng.randint(-5, 10 ** 6, n)
    return rng.uniform(0.1, 1, n)


def state(s):
    return build.record(s)


def same(ctx, s, rec, key, skip=()):
    now = state(s)
    for n in rec:
        if n not in skip:
            ctx.check(build.deep_equal(now[n], rec[n]), key, attribute=n, got=now[n], want=rec[n])


def case_values(ctx, rng):
    dim, n = rng.randint(1, 5), rng.randint(1, 9)
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](dim)
    old = rng.normal(size=(n, dim))
    sites = [(s.set_values, s.get_values, 'set_values'), (s.set_values_local, s.get_values_local,
                                                           'set_values_local')]
    s.set_values(old.copy())
    s.set_values_local(old.copy())
    for step in range(6):
        fn, get, label = sites[rng.randint(2)]
        shape = (rng.randint(1, 7), rng.randint(1, 7))
        how = rng.randint(6)
        if how == 0:
            shape = (shape[0], dim)
        elif how == 1:
            shape = (dim, shape[1])
        elif how == 2:
            shape = (shape[0] * dim,)
        x = rng.normal(size=shape)
        arg = x.tolist() if rng.randint(3) == 0 else x
        m = x.reshape(-1, 1) if x.ndim == 1 else x
        if m.shape[1] == dim:
            want, ev = m, 'values_accepted'
        elif m.shape[0] == dim:
            want, ev = m.T, 'values_transposed'
        else:
            want, ev = None, 'values_refused'
        ctx.ev(ev)
        ctx.describe(shape=shape, dim=dim, call=label)
        rec = state(s)
        if want is None:
            ctx.raises(label, S.dim_not_matching, fn, arg)
            same(ctx, s, rec, 'refused-but-changed')
        else:
            ctx.call(label, fn, arg)
            ctx.equal(get(), want, 'values')
            same(ctx, s, rec, 'other-data-changed',
                 skip=('values_local',) if 'local' in label else ('values', 'bounding_box'))
    for step in range(4):
        d = rng.choice([dim, dim, dim + 1, max(1, dim - 1), 2])
        shp = [(d, 2), (d, 3), (d, 1), (d,), (2, d), (d, 2, 1)][rng.choice(6, p=[.4, .12, .12, .12, .12, .12])]
        a = np.sort(rng.normal(size=shp), axis=-1) if len(shp) == 2 else rng.normal(size=shp)
        ctx.describe(domain_shape=shp, dim=dim)
        rec = state(s)
        if shp == (dim, 2):
            ctx.ev('domains_accepted')
            ctx.call('set_domain', s.set_domain, a)
            ctx.equal(s.get_domain(), a, 'domain')
            same(ctx, s, rec, 'other-data-changed', skip=('domain',))
        else:
            ctx.ev('domains_refused')
            ctx.raises('set_domain', S.dim_not_matching, s.set_domain, a)
            same(ctx, s, rec, 'refused-but-changed')
        r = rng.normal(size=[(dim,), (dim + 1,), (1, dim), (dim, 1), (max(1, dim - 1),)][rng.randint(5)])
        rec = state(s)
        if r.shape == (dim,):
            ctx.ev('references_accepted')
            ctx.call('set_reference_value', s.set_reference_value, r)
            ctx.equal(s.get_reference_value(), r, 'reference')
        else:
            ctx.ev('references_refused')
            ctx.raises('set_reference_value', S.dim_not_matching, s.set_reference_value, r)
            same(ctx, s, rec, 'refused-but-changed')
    ctx.note(old)


def case_lengths(ctx, rng):
    dim, n = rng.randint(1, 4), rng.randint(2, 10)
    s = S.sample_set(dim)
    wrong = rng.randint(2)
    local = {}
    glob = {}
    only_local = rng.randint(3) == 0
    names = ['values'] + ARRAYS
    for nm in names:
        for loc in (False, True):
            if only_local and not loc:
                continue
            if rng.uniform() < 0.45:
                continue
            m = n
            if wrong and rng.uniform() < 0.25:
                m = max(1, n + rng.randint(-2, 3))
            a = rng.normal(size=(m, dim)) if nm == 'values' else arr(rng, nm, m, dim)
            if nm == 'values' and m == dim:
                pass
            getattr(s, 'set_' + nm + ('_local' if loc else ''))(a)
            (local if loc else glob)[nm] = m
    ctx.describe(glob=glob, local=local)
    rec = state(s)
    lg, ll = set(glob.values()), set(local.values())
    # asked twice: the answer does not wear off
    for again in range(2):
        if len(ll) > 1:
            ctx.ev('local_lengths_refused')
            ctx.raises('check_num_local', S.length_not_matching, s.check_num_local)
        else:
            got = ctx.call('check_num_local', s.check_num_local)
            ctx.check(got == (list(ll)[0] if ll else None), 'num-local', got=got, want=ll)
        if len(lg) > 1 or (not lg and len(ll) > 1):
            ctx.ev('lengths_refused')
            ctx.raises('check_num', S.length_not_matching, s.check_num)
        else:
            ctx.ev('lengths_consistent')
            got = ctx.call('check_num', s.check_num)
            want = list(lg)[0] if lg else (list(ll)[0] if ll else 0)
            ctx.ev('local_only', not lg and bool(ll))
            ctx.check(got == want, 'num', got=got, want=want, glob=glob, local=local)
    same(ctx, s, rec, 'asking-changed')
    if 'values' in glob:
        ctx.check(tuple(ctx.call('shape', s.shape)) == (glob['values'], dim), 'shape')
    if 'values' in local:
        ctx.check(tuple(ctx.call('shape_local', s.shape_local)) == (local['values'], dim), 'shape_local')
    ctx.note(sorted(glob.items()), sorted(local.items()), nontrivial=len(glob) + len(local) > 1)


def case_setup(ctx, rng):
    kind = str(rng.choice(['rect', 'ball', 'cart', 'sample_set']))
    dim = rng.randint(1, 4)
    ctx.ev('kind:' + kind)
    dom = gen.domain(rng, dim)
    if kind == 'sample_set':
        s = S.sample_set(dim)
        s.set_values(gen.points(rng, rng.randint(1, 8), dom, 'uniform'))
        n = len(s.get_values())
        s.set_domain(dom)
    else:
        s, allowed, n, _ = build.out_cells(rng, dim, dom, kind)
        s.set_domain(dom)
    for nm in ARRAYS:
        if rng.randint(2):
            getattr(s, 'set_' + nm)(arr(rng, nm, n, dim))
    rec = state(s)
    x = np.concatenate([gen.points(rng, 12, dom, 'uniform'), np.nan_to_num(s.get_values(), posinf=0.0)])
    before = s.query(x)
    if kind == 'sample_set':
        how = rng.randint(3)
        k = [None, n, rng.randint(1, 7)][how]
        ctx.call('update_bounds', s.update_bounds, *([] if k is None else [k]))
        k = n if k is None else k
        for nm, col in (('_left', dom[:, 0]), ('_right', dom[:, 1]), ('_width', dom[:, 1] - dom[:, 0])):
            if hasattr(s, nm):
                ctx.equal(getattr(s, nm), np.tile(col, (k, 1)), 'bounds', which=nm)
        ctx.ev('bounds')
        s.set_values_local(s.get_values()[:rng.randint(1, n + 1)].copy())
        kl = len(s.get_values_local())
        ctx.call('update_bounds_local', s.update_bounds_local)
        for nm, col in (('_left', dom[:, 0]), ('_right', dom[:, 1]), ('_width', dom[:, 1] - dom[:, 0])):
            if hasattr(s, nm + '_local'):
                ctx.equal(getattr(s, nm + '_local'), np.tile(col, (kl, 1)), 'bounds-local', which=nm)
        ctx.note(dom, k)
        return
    # these sets do not take further cells; asking leaves them alone
    ctx.ev('fixed_appends')
    ctx.call('append_values', s.append_values, rng.normal(size=(3, dim)))
    ctx.call('append_values_local', s.append_values_local, rng.normal(size=(3, dim)))
    ctx.call('append_jacobians', s.append_jacobians, rng.normal(size=(3, 2, dim)))
    ctx.call('append_error_estimates', s.append_error_estimates, rng.normal(size=(3, dim)))
    ctx.call('update_bounds', s.update_bounds)
    ctx.call('update_bounds_local', s.update_bounds_local)
    same(ctx, s, rec, 'fixed-set-changed')
    # wrong set-ups are refused and keep the cells that were there
    bad = dim + (1 if dim == 1 or rng.randint(2) else -1)
    m = rng.randint(1, 5)
    which = rng.randint(3)
    if kind == 'cart':
        xi = [np.sort(rng.normal(size=rng.randint(2, 5))) for _ in range(bad)]
        ctx.raises('setup', REFUSAL, s.setup, xi)
    elif kind == 'rect':
        lo, hi = np.zeros((m, dim)), np.ones((m, dim))
        if which == 0:
            hi = np.ones((m + 1, dim))
        elif which == 1:
            hi = [np.ones(dim)] * (m - 1) + [np.ones(bad)]
        else:
            lo = [np.zeros(dim)] * (m - 1) + [np.zeros(bad)]
        ctx.raises('setup', REFUSAL, s.setup, hi, lo)
    else:
        c, r = np.zeros((m, dim)), np.ones(m)
        if which == 0:
            r = np.ones(m + rng.choice([-1, 1]))
        else:
            c = [np.zeros(dim)] * (m - 1) + [np.zeros(bad)]
        ctx.raises('setup', REFUSAL, s.setup, c, r)
    ctx.ev('setups_refused')
    same(ctx, s, rec, 'refused-but-changed')
    after = s.query(x)
    ctx.equal(after[1], before[1], 'refused-but-cells-changed')
    # a right one is taken, and counts its cells and the remainder
    t = type(s)(dim)
    if kind == 'cart':
        xi = [np.sort(rng.normal(size=rng.randint(2, 5))) for _ in range(dim)]
        ctx.call('setup', t.setup, xi)
        want = int(np.prod([len(v) - 1 for v in xi])) + 1
    elif kind == 'rect':
        lo = rng.normal(size=(m, dim))
        ctx.call('setup', t.setup, lo + 1, lo)
        want = m + 1
        ctx.close(t.get_values()[:-1], lo + 0.5, 'setup:values', rtol=1e-12)
    else:
        c = rng.normal(size=(m, dim))
        ctx.call('setup', t.setup, c, rng.uniform(0.1, 1, m))
        want = m + 1
        ctx.equal(t.get_values()[:-1], c, 'setup:values')
    ctx.ev('setups_accepted')
    ctx.check(t.check_num() == want, 'setup:num', got=t.check_num(), want=want)
    ctx.equal(t.get_region(), np.arange(want), 'setup:region')
    ctx.note(dom, m, which)


def mk(rng, dim, n, values=True):
    s = S.sample_set(dim)
    if values:
        s.set_values(rng.normal(size=(n, dim)))
    if rng.randint(2):
        s.set_probabilities(rng.uniform(size=n))
    return s


def case_disc(ctx, rng):
    di, do, n = rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 9)
    m = n + rng.choice([-1, 1, 2])
    if rng.randint(2):
        ctx.ev('disc_refused')
        a, b = mk(rng, di, n), mk(rng, do, m)
        if rng.randint(2):
            a, b = b, a
        ctx.raises('discretization', S.length_not_matching, S.discretization, a, b)
    i, o = mk(rng, di, n), mk(rng, do, n)
    d = ctx.call('discretization', S.discretization, i, o)
    ctx.ev('disc_accepted')
    ctx.check(ctx.call('check_nums', d.check_nums) == n, 'nums')
    if rng.randint(3) == 0:
        b = S.discretization(mk(rng, di, n), mk(rng, do, n))
        b.get_output_sample_set().set_probabilities(None)
        b.get_output_sample_set().set_values(rng.normal(size=(m, do)))
        ctx.ev('disc_refused')
        ctx.raises('check_nums', S.length_not_matching, b.check_nums)
    have = {'input_sample_set': i, 'output_sample_set': o, 'output_observed_set': None,
            'output_probability_set': None, 'emulated_input_sample_set': None,
            'emulated_output_sample_set': None}
    side = {'emulated_input_sample_set': di, 'output_probability_set': do, 'emulated_output_sample_set': do}
    io = None
    for step in range(8):
        name = str(rng.choice(sorted(have)))
        setter = getattr(d, 'set_' + name)
        how = rng.randint(3)
        before = dict((k, getattr(d, 'get_' + k)()) for k in have)
        if how == 0:
            ctx.ev('type_refused')
            ctx.raises('set_' + name, AttributeError, setter,
                       [np.zeros((n, 2)), None, d, 3.0, 'set'][rng.randint(5)])
        elif how == 1 and name in side:
            ctx.ev('setters_refused')
            wrong = side[name] + (1 if side[name] == 1 or rng.randint(2) else -1)
            ctx.raises('set_' + name, S.dim_not_matching, setter, mk(rng, wrong, n))
        else:
            ctx.ev('setters_accepted')
            dim = di if 'input' in name else do
            num = n if name in ('input_sample_set', 'output_sample_set') else rng.randint(1, 9)
            new = mk(rng, dim, num)
            ctx.call('set_' + name, setter, new)
            have[name] = new
        for k in have:
            ctx.check(getattr(d, 'get_' + k)() is have[k], 'disc:set', changed=k, by=name,
                      refused=how < 2)
    ctx.check(ctx.call('check_nums', d.check_nums) == n, 'nums')
    if d.get_output_probability_set() is None:
        ctx.raises('get_io_ptr', Exception, d.set_io_ptr)
    if d.get_emulated_input_sample_set() is None:
        ctx.raises('estimate_input_volume_emulated', AttributeError, d.estimate_input_volume_emulated)
    if d.get_emulated_output_sample_set() is None:
        ctx.raises('estimate_output_volume_emulated', AttributeError, d.estimate_output_volume_emulated)
    ctx.note(i.get_values(), o.get_values())
    ctx.describe(di=di, do=do, n=n)


def case_accessors(ctx, rng):
    """What is set is what is returned; the box is that of the values the set has."""
    dim, n = rng.randint(1, 4), rng.randint(1, 9)
    s = [S.sample_set, S.voronoi_sample_set][rng.randint(2)](dim)
    s.set_values(rng.normal(size=(n, dim)))
    word = lambda: str(rng.choice(['q%d', ' Q%d ', '', r'$\lambda_{%d}$', 'q_%d\n(x)'])).replace('%d', str(rng.randint(99)))
    plain = {'label': word,
             'labels': lambda: [word() for _ in range(dim)],
             'weights': lambda: rng.uniform(0, 10 ** rng.uniform(-9, 9), size=n),
             'weights_init': lambda: rng.uniform(0, 10 ** rng.uniform(-9, 9), size=n),
             'p_norm': lambda: float(rng.choice([1.0, 1.5, 2.0, 3.0, np.inf])),
             'prob_type': lambda: str(rng.choice(['kde', 'rv', 'gmm', 'voronoi'])),
             'prob_type_init': lambda: str(rng.choice(['kde', 'rv', 'gmm', 'voronoi'])),
             'prob_parameters': lambda: [['norm', {'loc': rng.normal()}] for _ in range(dim)],
             'prob_parameters_init': lambda: [['norm', {'loc': rng.normal()}] for _ in range(dim)],
             'cluster_maps': lambda: [rng.normal(size=(3, dim)) for _ in range(2)],
             'reference_value': lambda: rng.normal(size=dim)}
    arrays = [a + b for a in ['values'] + ARRAYS for b in ('', '_local')]
    names = sorted(plain) + arrays
    fields = [f for f in build.all_fields() if f != 'bounding_box']
    for step in range(10):
        name = str(rng.choice(names))
        if name in plain:
            x = plain[name]()
        else:
            base = name.replace('_local', '')
            x = rng.normal(size=(n, dim)) if base == 'values' else arr(rng, base, n, dim)
        rec = build.record(s, fields)
        ctx.call('set_' + name, getattr(s, 'set_' + name), x)
        ctx.ev('attributes_set')
        got = ctx.call('get_' + name, getattr(s, 'get_' + name))
        ctx.check(build.deep_equal(got, x), 'get-differs-from-set', attribute=name, got=got, want=x)
        for f in fields:
            if f != name:
                ctx.check(build.deep_equal(build.getter(s, f), rec[f]), 'setting-changed-another',
                          set=name, attribute=f, got=build.getter(s, f), want=rec[f])
        ctx.check(s.get_dim() == dim, 'dim')
        if rng.randint(3) == 0:
            if rng.randint(2):
                ctx.call('set_bounding_box', s.set_bounding_box)
            v = s.get_values()
            ctx.equal(ctx.call('get_bounding_box', s.get_bounding_box),
                      np.stack([v.min(axis=0), v.max(axis=0)], axis=1), 'bounding-box')
            ctx.ev('bounding_boxes')
    ctx.describe(dim=dim, n=n)
    ctx.note(s.get_values(), n, dim)


KINDS = [Kind('accessors', case_accessors, 300, 5000), Kind('values', case_values, 500, 8000), Kind('lengths', case_lengths, 600, 10000),
         Kind('setup', case_setup, 400, 6000), Kind('disc', case_disc, 400, 6000)]
