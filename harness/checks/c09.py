"""C09: a sampler pairs every sample with what the model says about that sample."""
import os
import shutil
import tempfile
import numpy as np
from core import Kind
import gen

ID = 'C09'
COMM = 'real'
QUICK_X, THOROUGH_X = 20, 10
RULE = ('Recording models (1-4 inputs, 1-4 outputs; outputs as matrix, vector, 1-, 2- and 3-tuples '
        'with error estimates and Jacobians; models that only accept matrices) evaluated on random, '
        'Latin and regular sets, given globally or locally, with or without reference value, saved '
        'and not, several evaluations per sampler. Non-trivial: at least two samples.')
REQUIRE = ['defaults', 'sampler_globalized', 'rows_judged', 'model_calls', 'with_ee', 'with_jac', 'with_reference', 'saved',
           'vector_outputs', 'local_given', 'not_globalized', 'refusals', 'again', 'matrix_only',
           'reused_sets', 'other_model']
ASSUMPTIONS = ['the model is a deterministic row-wise function of an (N, dim) array']


def setup():
    global S, B, U
    import bet.sample as S
    import bet.sampling.basicSampling as B
    import bet.util as U


class Model(object):
    """Row-wise model that records every row it is asked for."""

    def __init__(self, rng, di, do, ee, jac, shape):
        self.A = rng.normal(size=(di, do))
        self.c = rng.normal(size=do)
        self.ee, self.jac, self.shape, self.do = ee, jac, shape, do
        self.calls, self.rows = 0, []

    def q(self, x):
        return np.sin(x.dot(self.A)) + self.c + x[:, :1] ** 2

    def e(self, x):
        return 0.1 * np.abs(self.q(x)) + x[:, :1]

    def j(self, x):
        return np.cos(x.dot(self.A))[:, :, None] * self.A.T[None] + x[:, :1, None]

    def __call__(self, x):
        if not isinstance(x, np.ndarray) or x.ndim != 2 or x.shape[1] != len(self.A):
            raise AssertionError('the model was not called with an (N, dim) array: %r' % (
                np.shape(x),))
        self.calls += 1
        self.rows += [r.tobytes() for r in np.ascontiguousarray(x, dtype=float)]
        q = self.q(x)
        if self.shape == 'vector':
            q = q[:, 0]
        if self.ee and self.jac:
            return q, self.e(x), self.j(x)
        if self.ee:
            return q, self.e(x)
        if self.jac:
            return q, self.j(x)
        return (q,) if self.shape == 'tuple' else q


def judge(ctx, m, d, x, ref, glob, key):
    i, o = d.get_input_sample_set(), d.get_output_sample_set()
    if glob:
        ctx.equal(i.get_values(), x, key + ':inputs')
        got = o.get_values()
        ctx.equal(i.get_values_local(), x, key + ':inputs-local')
        ctx.equal(o.get_values_local(), got, key + ':outputs-local')
    else:
        ctx.check(i.get_values() is None and o.get_values() is None, key + ':globalized')
        ctx.equal(i.get_values_local(), x, key + ':inputs')
        got = o.get_values_local()
        ctx.ev('not_globalized')
    ctx.check(o.get_dim() == m.do, key + ':dim', got=o.get_dim(), want=m.do)
    ctx.close(got, m.q(x), key + ':outputs', rtol=1e-13, atol=0)
    ctx.ev('rows_judged', len(x))
    for has, want, g, loc, name in [
            (m.ee, m.e, o.get_error_estimates, o.get_error_estimates_local, 'error_estimates'),
            (m.jac, m.j, i.get_jacobians, i.get_jacobians_local, 'jacobians')]:
        if has:
            ctx.ev('with_' + {'e': 'ee', 'j': 'jac'}[name[0]])
            ctx.close(g() if glob else loc(), want(x), key + ':' + name, rtol=1e-13, atol=0)
        else:
            ctx.check(g() is None and loc() is None, key + ':spurious-' + name)
    if ref is not None:
        ctx.equal(i.get_reference_value(), ref, key + ':reference-input')
        ctx.close(o.get_reference_value(), m.q(ref[None])[0], key + ':reference', rtol=1e-13)
        ctx.ev('with_reference')
    else:
        ctx.check(o.get_reference_value() is None, key + ':spurious-reference')
    # every sample exactly once (and the reference value besides)
    seen = list(m.rows)
    for r in x:
        r = r.tobytes()
        ctx.check(r in seen, key + ':not-evaluated', row=r)
        seen.remove(r)
    ctx.check(len(seen) <= (0 if ref is None else 2), key + ':evaluated-again', extra=len(seen))
    ctx.ev('model_calls', m.calls)
    m.calls, m.rows = 0, []
    ctx.check(d.check_nums() == len(x), key + ':nums')


def case_eval(ctx, rng):
    di = gen.few(rng, 1, 5, 8)
    ee, jac = bool(rng.randint(2)), bool(rng.randint(2))
    shape = rng.choice(['matrix', 'tuple', 'vector'])
    do = 1 if shape == 'vector' else gen.few(rng, 1, 5, 9)
    m = Model(rng, di, do, ee, jac, shape)
    ctx.ev('matrix_only')
    if shape == 'vector':
        ctx.ev('vector_outputs')
    sam = B.sampler(m, error_estimates=ee, jacobians=jac)
    ctx.describe(di=di, do=do, ee=ee, jac=jac, shape=shape)
    prev = None
    for step in range(1 + rng.randint(4)):
        if step:
            ctx.ev('again')
        n = gen.size(rng, 1, 40, 3000)
        dom = gen.domain(rng, di)
        glob = bool(rng.randint(4))
        ref = None
        how = rng.choice(['given', 'given_local', 'random', 'lhs', 'regular', 'stored',
                          'create', 'old_name', 'reused'])
        if how == 'reused' and prev is None:
            how = 'given'
        if rng.randint(8) == 0:
            # another model for the same sampler
            m = sam.lb_model = Model(rng, di, do, ee, jac, shape)
            ctx.ev('other_model')
        if how == 'reused':
            # the set evaluated before, with other samples in it
            s = prev[0].get_input_sample_set()
            n = len(prev[1])
            x = gen.points(rng, n, dom, 'uniform')
            s.set_values(x.copy())
            if rng.randint(2):
                s.set_values_local(x.copy())
            else:
                ctx.call('global_to_local', s.global_to_local)
            ref = None
            if rng.randint(2) or s.get_reference_value() is not None:
                ref = dom[:, 0] + rng.uniform(size=di) * (dom[:, 1] - dom[:, 0])
                s.set_reference_value(ref.copy())
            prev = None
            ctx.ev('reused_sets')
        elif how in ('given', 'given_local', 'stored', 'old_name'):
            x = gen.points(rng, n, dom, 'uniform')
            s = S.sample_set(di)
            if how == 'given_local':
                s.set_values_local(x.copy())
                ctx.ev('local_given')
            else:
                s.set_values(x.copy())
            if rng.randint(2):
                ref = dom[:, 0] + rng.uniform(size=di) * (dom[:, 1] - dom[:, 0])
                s.set_reference_value(ref.copy())
            if how == 'stored':
                sam.input_sample_set = s
        elif how == 'random':
            s = sam.random_sample_set('uniform', dom.copy(), n, globalize=bool(rng.randint(2)))
            x = np.array(s.get_values_local())
        elif how == 'lhs':
            s = sam.lhs_sample_set(dom.copy(), n, None, globalize=bool(rng.randint(2)))
            x = np.array(s.get_values_local())
        elif how == 'regular':
            s = sam.regular_sample_set(dom.copy(), [int(k) for k in rng.randint(1, 4, di)])
            x = np.array(s.get_values_local())
        save = None
        tmp = None
        if rng.randint(4) == 0:
            tmp = tempfile.mkdtemp(prefix='c09')
            save = os.path.join(tmp, ['disc', 'disc.p'][rng.randint(2)])
            if rng.randint(2):      # there is something else under the name
                old = S.sample_set(1)
                old.set_values(np.zeros((3, 1)))
                U.save_object(old, save)
                ctx.ev('saved_over')
        try:
            if how == 'create':
                d = ctx.call('create_random_discretization', sam.create_random_discretization,
                             'uniform', dom.copy(), savefile=save, num_samples=n, globalize=glob)
                x = np.array(d.get_input_sample_set().get_values_local())
                ctx.check(x.shape == (n, di), 'create:size', shape=x.shape)
                w = dom[:, 1] - dom[:, 0]
                ctx.check(bool(np.all((x >= dom[:, 0] - 1e-9 * w) & (x <= dom[:, 1] + 1e-9 * w))),
                          'create:domain')
            elif glob and save is None and rng.randint(3) == 0:
                d = ctx.call('compute', sam.compute_qoi_and_create_discretization,
                             *([] if how in ('stored', 'random', 'lhs', 'regular') else [s]))
                ctx.ev('defaults')
            elif how in ('given', 'given_local', 'reused'):
                d = ctx.call('compute', sam.compute_qoi_and_create_discretization, s, save, glob)
            elif how == 'old_name':
                d = ctx.call('compute', sam.compute_QoI_and_create_discretization, s, save, glob)
            else:
                d = ctx.call('compute', sam.compute_qoi_and_create_discretization,
                             savefile=save, globalize=glob)
            judge(ctx, m, d, x, ref, glob, 'eval')
            ctx.check(sam.discretization is d, 'eval:not-in-sampler')
            ctx.check(sam.input_sample_set is d.get_input_sample_set(), 'eval:other-input')
            if how in ('given', 'given_local', 'stored', 'old_name', 'reused'):
                ctx.check(d.get_input_sample_set() is s, 'eval:other-set')
            if save is not None and glob:
                back = ctx.call('load_object', U.load_object, save)
                ctx.equal(back.get_input_sample_set().get_values(), x, 'saved:inputs')
                ctx.equal(back.get_output_sample_set().get_values(),
                          d.get_output_sample_set().get_values(), 'saved:outputs')
                ctx.ev('saved')
        finally:
            if tmp:
                shutil.rmtree(tmp)
        if not glob and rng.randint(2):
            ctx.call('local_to_global', sam.local_to_global)
            ctx.equal(d.get_input_sample_set().get_values(), x, 'local_to_global:inputs')
            ctx.equal(d.get_output_sample_set().get_values(), d.get_output_sample_set().get_values_local(),
                      'local_to_global:outputs')
            ctx.ev('sampler_globalized')
        if prev is not None:
            # an earlier result does not change under the user's feet
            pd, px, pq = prev
            ctx.equal(pd.get_output_sample_set().get_values_local(), pq, 'earlier-result-changed')
            ctx.equal(pd.get_input_sample_set().get_values_local(), px, 'earlier-result-changed')
        prev = (d, x, np.array(d.get_output_sample_set().get_values_local()))
        ctx.note(x, do, ee, jac, shape, nontrivial=len(x) > 1)
    if rng.randint(4) == 0:
        c = ctx.call('copy', sam.copy)
        ctx.check(c is not sam and c.discretization is not sam.discretization, 'copy:shared')
        ctx.equal(c.discretization.get_output_sample_set().get_values_local(), prev[2],
                  'copy:outputs')


def case_refuse(ctx, rng):
    di = rng.randint(1, 4)
    s = S.sample_set(di)
    s.set_values(rng.uniform(size=(4, di)))
    ctx.note(s.get_values())
    for bad in (lambda x: [1.0] * len(x), lambda x: 'text', lambda x: None,
                lambda x: (x, x), lambda x: (x, x, x, x)):
        sam = B.sampler(bad)
        ctx.raises('model output', B.bad_object, sam.compute_qoi_and_create_discretization, s)
        ctx.check(sam.discretization is None, 'refused-but-built')
        ctx.ev('refusals')


KINDS = [Kind('eval', case_eval, 1500, 20000), Kind('refuse', case_refuse, 20, 60)]
