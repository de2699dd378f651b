"""C11: saving, loading, copying and comparing preserve everything a set or discretization holds."""
import copy
import os
import shutil
import tempfile
import numpy as np
from core import Kind
import gen
import build

ID = 'C11'
COMM = 'real'
QUICK_X, THOROUGH_X = 6, 6
RULE = ('Sets of every type and discretizations with a random subset of all attributes (global, local, '
        'measures, pointers, emulated and observed sets) are saved, loaded, copied, compared and changed '
        'one attribute at a time; file names with directories, dots, prefixes of the parallel naming '
        'scheme and files overwritten. Non-trivial: at least two attributes besides values are set.')
REQUIRE = ['fields_compared', 'files', 'single_changes', 'inplace_mutations', 'overwrites',
           'kind:rect', 'kind:ball', 'kind:cart', 'kind:voronoi', 'kind:sample_set', 'pointers',
           'queries_compared', 'solved_after_load', 'none_changes']
ASSUMPTIONS = ['objects are compared through their public getters; files live in a scratch directory']


def setup():
    global S, U, P
    import bet.sample as S
    import bet.util as U
    import bet.calculateP.calculateP as P


def judge_set(ctx, new, rec, cls, key):
    ctx.check(type(new) is cls, key + ':type', got=type(new), want=cls)
    for n, old in rec.items():
        now = build.getter(new, n)
        ctx.ev('fields_compared')
        ctx.check(build.deep_equal(now, old), key, attribute=n, got=now, want=old)


PTRS = ['io_ptr', 'io_ptr_local', 'emulated_ii_ptr', 'emulated_ii_ptr_local', 'emulated_oo_ptr',
        'emulated_oo_ptr_local']
SETS = ['input_sample_set', 'output_sample_set', 'output_probability_set',
        'emulated_input_sample_set', 'emulated_output_sample_set', 'output_observed_set']


def rec_disc(d):
    r = {}
    for n in SETS:
        s = build.getter(d, n)
        r[n] = None if s is None else (type(s), build.record(s))
    for n in PTRS:
        g = getattr(d, 'get_' + n, None)
        if g is not None:
            r[n] = copy.deepcopy(g())
    return r


def judge_disc(ctx, d, rec, key):
    ctx.check(type(d) is S.discretization, key + ':type', got=type(d))
    for n in SETS:
        s = build.getter(d, n)
        if rec[n] is None:
            ctx.check(s is None, key, attribute=n, got=s)
        else:
            ctx.check(s is not None, key, attribute=n, got=None)
            judge_set(ctx, s, rec[n][1], rec[n][0], key + ':' + n)
    for n in PTRS:
        if n in rec:
            ctx.ev('fields_compared')
            now = build.getter(d, n)
            ctx.check(build.deep_equal(now, rec[n]), key, attribute=n, got=now, want=rec[n])


def filename(rng, base):
    names = ['s', 'a.b', 'my set', 'proc', 'proc0', 'x-1.p', 'proc_set', 'mat', u'd\u00e9j\u00e0']
    sub = ['', 'sub', os.path.join('sub', 'proc_dir')][rng.randint(3)]
    d = os.path.join(base, sub)
    if not os.path.isdir(d):
        os.makedirs(d)
    return os.path.join(d, names[rng.randint(len(names))])


def eq(ctx, a, b, label):
    return ctx.call('eq', lambda: a == b)


def save(ctx, rng, obj, f, glob):
    if rng.randint(2):
        ctx.call('save', obj.save, f, globalize=glob)
    else:
        ctx.call('save_object', U.save_object, obj, f, globalize=glob)
    ctx.ev('files')


def fresh_locals(ctx, rng, s, n):
    """Work done on local arrays only, as every process does, before the object is saved."""
    for g in build.GLOBAL_FIELDS:
        old = build.getter(s, g + '_local')
        put = getattr(s, 'set_%s_local' % g, None)
        if put is None or g == 'values' or rng.randint(2):
            continue
        if old is None:
            old = build.getter(s, g)
        if old is None:
            if g not in ('probabilities', 'volumes'):
                continue
            old = rng.uniform(size=n)
        put(old * 2 + 1)
        ctx.ev('local_only:' + g)


def case_set_file(ctx, rng):
    s, kind, dim, n, dom = build.rich_set(rng)
    ctx.ev('kind:' + kind)
    if kind in ('sample_set', 'voronoi') and rng.randint(3) == 0:
        fresh_locals(ctx, rng, s, n)
    base = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    cwd = os.getcwd()
    try:
        f = filename(rng, base)
        if rng.randint(4) == 0:
            os.chdir(os.path.dirname(f))
            f = os.path.basename(f)
        over = rng.randint(3) == 0
        if over:
            ctx.ev('overwrites')
            t = build.rich_set(rng)[0]
            save(ctx, rng, t, f, True)
        glob = bool(rng.randint(2))
        before = build.record(s)
        save(ctx, rng, s, f, glob)
        # globalizing may fill global arrays from local ones; nothing else changes
        want = dict(before)
        if glob:
            for g in build.GLOBAL_FIELDS:
                if before[g + '_local'] is not None:
                    want[g] = before[g + '_local']
        judge_set(ctx, s, want, type(s), 'saved-object-changed')
        loc = rng.randint(4) == 0
        new = ctx.call('load_object', U.load_object, f, localize=loc)
        if loc and not f.startswith('proc_'):
            ctx.ev('localized')
            for g in build.GLOBAL_FIELDS:
                if want[g] is not None:
                    want[g + '_local'] = want[g]
        judge_set(ctx, new, want, type(s), 'loaded')
        if not loc:
            ctx.check(eq(ctx, new, s, 'eq') is True, 'loaded-not-equal')
            ctx.check(eq(ctx, s, new, 'eq') is True, 'loaded-not-equal')
        if want['values'] is not None:
            x = gen.points(rng, 9, dom, 'uniform')
            a = ctx.call('query', s.query, x)
            b = ctx.call('query', new.query, x)
            ctx.ev('queries_compared', 9)
            ctx.check(build.deep_equal(a[0], b[0]) and build.deep_equal(a[1], b[1]),
                      'loaded-query', got=b, want=a)
        # what was loaded is the caller's own: changing it does not change the file
        again = ctx.call('load_object', U.load_object, f)
        mutate_inplace(ctx, new)
        third = ctx.call('load_object', U.load_object, f)
        ctx.check(eq(ctx, again, third, 'eq') is True, 'file-changed')
        ctx.note(kind, want['values'], [k for k in want if want[k] is not None],
                 nontrivial=sum(want[k] is not None for k in build.GLOBAL_FIELDS) > 1)
        ctx.describe(kind=kind, file=os.path.relpath(f, base) if os.path.isabs(f) else f,
                     set_attributes=[k for k in want if want[k] is not None])
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)


def arrays_of(s):
    out = []

    def walk(v):
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                for e in v.ravel():
                    walk(e)
            else:
                out.append(v)
        elif isinstance(v, (list, tuple)):
            for e in v:
                walk(e)
        elif isinstance(v, dict):
            for e in v.values():
                walk(e)
        elif type(v).__name__ == 'gaussian_kde':
            out.append(v.dataset)
            out.append(v.weights)
    for n in build.all_fields():
        walk(build.getter(s, n))
    return out


def mutate_inplace(ctx, s):
    for a in arrays_of(s):
        if a.flags.writeable and a.size:
            if a.dtype.kind == 'f':
                a[...] = a * 0.5 + 3.25
            elif a.dtype.kind in 'iu':
                a[...] = a + 1
            ctx.ev('inplace_mutations')
    for n in ('labels', 'cluster_maps', 'prob_parameters_init'):
        v = build.getter(s, n)
        if isinstance(v, list) and v:
            v[0] = 'changed'
            ctx.ev('inplace_mutations')


def case_set_copy(ctx, rng):
    s, kind, dim, n, dom = build.rich_set(rng)
    ctx.ev('kind:' + kind)
    rec = build.record(s)
    c = ctx.call('copy', s.copy)
    judge_set(ctx, c, rec, type(s), 'copy')
    judge_set(ctx, s, rec, type(s), 'copied-object-changed')
    ctx.check(eq(ctx, s, c, '') is True and eq(ctx, c, s, '') is True, 'copy-not-equal')
    x = gen.points(rng, 9, dom, 'uniform')
    a = ctx.call('query', s.query, x)
    b = ctx.call('query', c.query, x)
    ctx.ev('queries_compared', 9)
    ctx.check(build.deep_equal(a[0], b[0]) and build.deep_equal(a[1], b[1]), 'copy-query',
              got=b, want=a)
    first, second = (s, c) if rng.randint(2) else (c, s)
    mutate_inplace(ctx, first)
    judge_set(ctx, second, rec, type(s), 'copy-shares-memory')
    b = ctx.call('query', second.query, x)
    ctx.check(build.deep_equal(a[0], b[0]) and build.deep_equal(a[1], b[1]),
              'copy-shares-memory:query', got=b, want=a)
    ctx.note(kind, rec['values'], [k for k in rec if rec[k] is not None],
             nontrivial=sum(rec[k] is not None for k in build.GLOBAL_FIELDS) > 1)
    ctx.describe(kind=kind, set_attributes=[k for k in rec if rec[k] is not None])


SETTABLE = ['values', 'volumes', 'probabilities', 'densities', 'jacobians', 'error_estimates', 'region',
            'error_id', 'domain', 'reference_value', 'weights', 'weights_init', 'label', 'labels', 'p_norm',
            'prob_type', 'prob_type_init', 'prob_parameters', 'prob_parameters_init', 'cluster_maps',
            'values_local', 'volumes_local', 'probabilities_local', 'densities_local',
            'jacobians_local', 'error_estimates_local', 'region_local', 'error_id_local']


def perturbed(rng, v):
    """A value of the same kind that differs in one place."""
    v = copy.deepcopy(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return None
        if v.dtype.kind in 'iu':
            v.flat[rng.randint(v.size)] += 1
            return v
        ok = np.where(np.isfinite(v.ravel()))[0]
        if not len(ok):
            return None
        i = ok[rng.randint(len(ok))]
        x = v.flat[i]
        v.flat[i] = np.nextafter(x, np.inf) if rng.randint(2) or x + 1.0 == x else x + 1.0
        return v
    if isinstance(v, str):
        return v + '.'
    if isinstance(v, (int, float)):
        return v + 1 if np.isfinite(v) else 2.0
    if isinstance(v, (list, tuple)):
        if len(v) and rng.randint(3) == 0:      # of another length
            return v[:-1] if rng.randint(2) else v + v[-1:]
        for i in rng.permutation(len(v)):
            p = perturbed(rng, v[i])
            if p is not None:
                w = list(v)
                w[i] = p
                return type(v)(w)
        return None
    if isinstance(v, dict):
        for k in sorted(v):
            p = perturbed(rng, v[k])
            if p is not None:
                v[k] = p
                return v
        return None
    if type(v).__name__ == 'gaussian_kde':
        from scipy.stats import gaussian_kde
        d = v.dataset[0].copy()
        d[rng.randint(len(d))] += 0.5
        return gaussian_kde(d)
    return None


def case_set_equality(ctx, rng):
    s, kind, dim, n, dom = build.rich_set(rng, fill=0.7, local=True if rng.randint(2) else None)
    ctx.ev('kind:' + kind)
    c = s.copy()
    ctx.check(eq(ctx, s, s, '') is True, 'not-reflexive')
    ctx.check(not (s != c), 'ne-of-copies')
    n_changes = 0
    for name in rng.permutation(SETTABLE):
        name = str(name)
        old = build.getter(c, name)
        setter = getattr(c, 'set_' + name)
        if old is None:
            continue
        keep = copy.deepcopy(old)
        if rng.randint(4) == 0 and name not in ('values', 'domain', 'p_norm', 'reference_value',
                                                'values_local', 'densities', 'densities_local') \
                and build.getter(s, name) is not None:
            new = None
        else:
            new = perturbed(rng, old)
            if new is None:
                continue
        if new is None:
            try:
                setter(None)
            except Exception:       # not every attribute can be unset through its setter
                continue
            if build.getter(c, name) is not None:
                setter(keep)
                continue
            ctx.ev('none_changes')
        else:
            ctx.call('set_' + name, setter, new)
            got = build.getter(c, name)
            ctx.check(build.deep_equal(got, new), 'setter-getter', attribute=name, got=got, want=new)
        ctx.ev('single_changes')
        n_changes += 1
        ctx.check(eq(ctx, s, c, '') is False, 'change-not-seen', attribute=name, kind=kind)
        ctx.check(eq(ctx, c, s, '') is False, 'not-symmetric', attribute=name, kind=kind)
        setter(keep)
        ctx.check(eq(ctx, s, c, '') is True, 'restored-not-equal', attribute=name, kind=kind)
    # arrays of one repeated number, of other lengths and shapes
    a, b = s.copy(), s.copy()
    u = float(rng.uniform())
    shapes = [(n,), (n, 1), (1, n), (n + 1,), (1,), (n, 1, 1)]
    i, j = rng.choice(len(shapes), 2, replace=False)
    if shapes[i] != shapes[j]:
        a.set_weights(np.full(shapes[i], u))
        b.set_weights(np.full(shapes[j], u))
        ctx.check(eq(ctx, a, b, '') is False and eq(ctx, b, a, '') is False, 'shape-not-seen',
                  shapes=(shapes[i], shapes[j]))
        ctx.ev('shape_changes')
    # a measure that differs in its weights only: points and covariance are the same numbers
    from scipy.stats import gaussian_kde
    w = float(rng.choice([0.25, 0.125, 0.375]))
    for c, k in ((a, [w, 1 - w]), (b, [1 - w, w])):
        c.set_prob_type('kde')
        c.set_prob_parameters(([[gaussian_kde(np.array([-1.0, 1.0]), weights=np.array(k))] for _ in range(dim)], [1.0]))
        c.set_weights(None)
    ctx.check(eq(ctx, a, b, '') is False and eq(ctx, a, a.copy(), '') is True, 'weights-not-seen', weights=w)
    for other in (None, 3, 'set', S.discretization(s, None)):
        ctx.raises('eq-other-class', TypeError, lambda: s == other)
    ctx.note(kind, s.get_values(), n_changes, nontrivial=n_changes > 2)
    ctx.describe(kind=kind, changes=n_changes)


def rand_disc(ctx, rng):
    di, do = rng.randint(1, 4), rng.randint(1, 4)
    n = gen.size(rng, 2, 15, 1500)
    loc = bool(rng.randint(2))
    i = build.rich_set(rng, 'sample_set', di, n, local=loc)[0]
    o, _, _, _, odom = build.rich_set(rng, 'sample_set', do, n, local=loc)
    d = S.discretization(i, o)
    have = rng.uniform(size=4) < 0.6
    if have[0]:
        p, _, num, k = build.out_cells(rng, do, odom)
        p.set_probabilities(gen.probs(rng, num))
        d.set_output_probability_set(p)
    if have[1]:
        e = S.sample_set(di)
        e.set_values(rng.normal(size=(rng.randint(1, 20), di)))
        e.global_to_local()
        d.set_emulated_input_sample_set(e)
        if rng.randint(2):
            d.set_emulated_ii_ptr()
            ctx.ev('pointers')
    if have[2]:
        e = S.sample_set(do)
        e.set_values(rng.normal(size=(rng.randint(1, 20), do)))
        e.global_to_local()
        d.set_emulated_output_sample_set(e)
        if have[0] and rng.randint(2):
            d.set_emulated_oo_ptr()
            ctx.ev('pointers')
    if have[3]:
        d.set_output_observed_set(build.rich_set(rng, 'sample_set', do)[0])
    if have[0] and loc and rng.randint(2):
        d.set_io_ptr()
        ctx.ev('pointers')
    return d, have


def case_disc(ctx, rng):
    d, have = rand_disc(ctx, rng)
    base = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    try:
        f = filename(rng, base)
        rec0 = rec_disc(d)
        c = ctx.call('copy', d.copy)
        judge_disc(ctx, c, rec0, 'copy')
        ctx.check(eq(ctx, c, d, '') is True and eq(ctx, d, c, '') is True, 'copy-not-equal')
        save(ctx, rng, d, f, bool(rng.randint(2)))
        rec = rec_disc(d)
        for n in SETS:          # globalizing only fills global arrays from local ones
            if rec0[n] is not None:
                for k, v in rec0[n][1].items():
                    if k in build.GLOBAL_FIELDS and rec0[n][1][k + '_local'] is not None:
                        continue
                    ctx.check(build.deep_equal(rec[n][1][k], v), 'saved-object-changed', set=n, attribute=k)
        new = ctx.call('load_object', U.load_object, f)
        judge_disc(ctx, new, rec, 'loaded')
        ctx.check(eq(ctx, new, d, '') is True and eq(ctx, d, new, '') is True, 'loaded-not-equal')
        # equality sees a change of any member set
        for n in SETS:
            s = build.getter(new, n)
            if s is None:
                continue
            t = s.copy()
            v = t.get_values() if t.get_values() is not None else t.get_values_local()
            fin = np.where(np.isfinite(v.ravel()))[0]
            i = fin[rng.randint(len(fin))]
            alt = new.copy()
            w = build.getter(alt, n)
            loc = w.get_values() is None
            arr = (w.get_values_local() if loc else w.get_values()).copy()
            arr.flat[i] += 1.0
            (w.set_values_local if loc else w.set_values)(arr)
            ctx.ev('single_changes')
            ctx.check(eq(ctx, alt, new, '') is False and eq(ctx, new, alt, '') is False,
                      'change-not-seen', set=n)
        # the copy made before saving is independent of everything done to the original
        for n in SETS:
            s = build.getter(d, n)
            if s is not None:
                mutate_inplace(ctx, s)
        for n in PTRS:
            v = getattr(d, 'get_' + n, lambda: None)()
            if v is not None and v.flags.writeable:
                v += 1
        judge_disc(ctx, c, rec0, 'copy-shares-memory')
        judge_disc(ctx, new, rec, 'loaded-shares-memory')
        if have[0] and c.get_input_sample_set().get_volumes() is not None:
            a, b = c.copy(), new.copy()
            if a.get_input_sample_set().get_volumes_local() is None:
                a.global_to_local()
                b.global_to_local()
            if eq(ctx, a.get_output_sample_set(), b.get_output_sample_set(), '') is True:
                ctx.call('prob', P.prob, a)
                ctx.call('prob', P.prob, b)
                ctx.ev('solved_after_load')
                ctx.equal(b.get_input_sample_set().get_probabilities(),
                          a.get_input_sample_set().get_probabilities(), 'solved-after-load')
        for other in (None, 3, d.get_input_sample_set()):
            ctx.raises('eq-other-class', TypeError, lambda: d == other)
        ctx.note(rec['input_sample_set'][1]['values'], list(have), nontrivial=bool(have.any()))
        ctx.describe(sets=[n for n in SETS if rec[n] is not None],
                     pointers=[n for n in PTRS if rec.get(n) is not None])
    finally:
        shutil.rmtree(base)


KINDS = [Kind('set_file', case_set_file, 700, 8000), Kind('set_copy', case_set_copy, 700, 8000),
         Kind('set_equality', case_set_equality, 500, 6000), Kind('disc', case_disc, 600, 7000)]
