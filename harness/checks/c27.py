"""C27: learned quantities of interest are attached to the samples they were learned from."""
import os
import shutil
import sys
import tempfile
import types
import contextlib
import io
import numpy as np
from core import Kind
import oracle
import build

ID = 'C27'
COMM = 'real'
QUICK_X, THOROUGH_X = 20, 8
RULE = ('The LUQ package is replaced by a recording stand-in with the same interface (it is not installed). '
        'Prediction and observation sets (1-4 parameters, 1-4 clusters, own numbers of learned quantities) go '
        'through model evaluation or series given by hand, cleaning, clustering, learning, discretizations, '
        'inversion, saving and learning again. Non-trivial: at least two samples per set.')
REQUIRE = ['learned', 'relearned', 'discs', 'without_obs_set', 'given_series', 'model_runs', 'wrappers', 'saved',
           'inverted', 'clusters', 'missing_module', 'series_override', 'set_up_again']
ASSUMPTIONS = ['luq.luq.LUQ(predicted, observed, times) with clean_data, dynamics, learn_qois_and_transform and '
               'the attributes num_pcs, predict_labels, obs_labels, predict_maps, obs_maps, as BET uses them; '
               'one process (the tests of BET skip LUQ in parallel)']

CALLS = []


class LUQ(object):
    def __init__(self, predicted, observed, times):
        self.predicted_time_series, self.observed_time_series, self.times = predicted, observed, times
        CALLS.append(('init', predicted, observed, times))

    def clean_data(self, **kw):
        CALLS.append(('clean_data', kw))
        self.cleaned = kw

    def dynamics(self, **kw):
        CALLS.append(('dynamics', kw))
        k = kw['n']
        self.predict_labels = np.arange(len(self.predicted_time_series)) * kw['stride'] % k
        self.obs_labels = (np.arange(len(self.observed_time_series)) * kw['stride'] + kw['shift']) % k
        self.k = k

    def learn_qois_and_transform(self, **kw):
        CALLS.append(('learn_qois_and_transform', kw))
        q = kw['num_qoi']
        r = np.random.RandomState(kw['seed'])
        M = r.normal(size=(self.k, self.predicted_time_series.shape[1], q))
        self.num_pcs = [q] * self.k
        self.predict_maps = [self.predicted_time_series[self.predict_labels == j].dot(M[j])
                             for j in range(self.k)]
        self.obs_maps = [self.observed_time_series[self.obs_labels == j].dot(M[j]) for j in range(self.k)]


def model(inputs, times):
    CALLS.append(('model', np.array(inputs), np.array(times)))
    return np.sin(inputs.sum(axis=1))[:, None] * np.cos(times)[None, :] + inputs[:, :1] * times + \
        0.1 * (inputs[:, -1:] * times) ** 2


def setup():
    global S, L, U, R, stub
    import bet.sample as S
    import bet.util as U
    import bet.sampling.useLUQ as L
    import bet.calculateP.calculateR as R
    stub = types.ModuleType('luq')
    stub.luq = types.ModuleType('luq.luq')
    stub.luq.LUQ = LUQ
    sys.modules['luq'], sys.modules['luq.luq'] = stub, stub.luq


def quiet(ctx, label, f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.call(label, f, *a, **k)


def judge_disc(ctx, d, inp, labels, maps, q, key):
    ctx.check(d.get_input_sample_set() is inp, key + ':input')
    o = d.get_output_sample_set()
    ctx.check(o.get_dim() == q, key + ':dim', got=o.get_dim(), want=q)
    ctx.equal(o.get_region(), labels, key + ':region')
    m = o.get_cluster_maps()
    ctx.check(m is not None and len(m) == len(maps), key + ':clusters')
    for a, b in zip(m, maps):
        ctx.equal(a, b, key + ':maps')


def case_learn(ctx, rng):
    del CALLS[:]
    dim, k, q, T = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3), rng.randint(3, 8)
    k = k if rng.randint(20) else 7
    n, m = k * rng.randint(4, 9) + rng.randint(0, k), k * rng.randint(4, 8) + rng.randint(0, k)
    if rng.randint(3) == 0:
        m = n
    x, y = rng.normal(size=(n, dim)), 0.6 * rng.normal(size=(m, dim))
    times = np.sort(rng.uniform(0, 3, T))
    ps, os_ = S.sample_set(dim), S.sample_set(dim)
    ps.set_values(x.copy())
    os_.set_values(y.copy())
    with_obs = rng.randint(4) > 0
    ctx.describe(n=n, m=m, dim=dim, clusters=k, q=q, with_obs=with_obs)
    u = ctx.call('useLUQ', L.useLUQ, predict_set=ps, lb_model=model, times=times.copy(),
                 **({'obs_set': os_} if with_obs else {}))
    sp, so = model(x, times), model(y, times)
    t = times
    del CALLS[:]
    how = rng.randint(3) if with_obs else 1 + rng.randint(2)
    if how == 0:
        ctx.call('setup', u.setup)
        ctx.ev('model_runs')
        runs = [c for c in CALLS if c[0] == 'model']
        ctx.check(len(runs) == 2, 'model-runs', got=len(runs))
        if n == len(runs[0][1]) and np.array_equal(runs[0][1], x):
            runs = runs[::-1]
        ctx.equal(runs[1][1], x, 'model:prediction-inputs')
        ctx.equal(runs[0][1], y, 'model:observation-inputs')
        for r in runs:
            ctx.equal(r[2], times, 'model:times')
    elif how == 1:
        ctx.call('get_predictions', u.get_predictions)
        so = so + 0.01 * rng.normal(size=so.shape)
        ctx.call('set_observed_time_series', u.set_observed_time_series, so.copy())
        ctx.call('initialize', u.initialize)
        ctx.ev('given_series')
    else:
        if rng.randint(2):
            u.get_predictions()
            u.set_observed_time_series(so.copy())
            ctx.ev('series_override')
        sp = sp + rng.normal(size=sp.shape)
        so = so + rng.normal(size=so.shape)
        kw = {}
        if rng.randint(2):
            t = times + 1.0
            kw['times'] = t.copy()
        ctx.call('initialize', u.initialize, sp.copy(), so.copy(), **kw)
        ctx.ev('given_series')
    ini = [c for c in CALLS if c[0] == 'init']
    ctx.check(len(ini) == 1, 'luq-created', got=len(ini))
    ctx.equal(ini[0][1], sp, 'luq:predicted')
    ctx.equal(ini[0][2], so, 'luq:observed')
    ctx.equal(ini[0][3], t, 'luq:times')
    first = None
    for round_ in range(1 + rng.randint(2)):
        for name, kw in (('clean_data', dict(time_start_idx=0, tol=float(rng.uniform()), max_knots=3)),
                         ('dynamics', dict(n=k, stride=[1, 1, 3, 5][rng.randint(4)] if k in (1, 2, 4) else 1,
                                           shift=int(rng.randint(4)))),
                         ('learn_qois_and_transform', dict(num_qoi=q, seed=int(rng.randint(1000))))):
            ctx.call(name, getattr(u, name), **kw)
            ctx.check(CALLS[-1][0] == name and CALLS[-1][1] == kw, 'wrapper', got=CALLS[-1][0], want=name)
            ctx.ev('wrappers')
        lq = u.learn
        want = [(ps, lq.predict_labels.copy(), [v.copy() for v in lq.predict_maps]),
                (os_, lq.obs_labels.copy(), [v.copy() for v in lq.obs_maps])]
        d1, d2 = ctx.call('make_disc', u.make_disc)
        judge_disc(ctx, d1, *want[0], q=q, key='predict')
        ob = d1.get_output_observed_set()
        ctx.check(ob is not None, 'observed:missing')
        ctx.equal(ob.get_region(), want[1][1], 'observed:region')
        for a, b in zip(ob.get_cluster_maps(), want[1][2]):
            ctx.equal(a, b, 'observed:maps')
        if with_obs:
            judge_disc(ctx, d2, *want[1], q=q, key='observed')
        else:
            ctx.check(d2 is None, 'observed:appeared')
            ctx.ev('without_obs_set')
        ctx.ev('discs')
        ctx.ev('clusters', k)
        ctx.ev('learned')
        if first is not None:
            ctx.ev('relearned')
            judge_disc(ctx, first[0], *first[1][0], q=q, key='earlier')
        first = (d1, want)
    ctx.equal(ps.get_values(), x, 'predict:inputs-changed')
    ctx.equal(os_.get_values(), y, 'observed:inputs-changed')
    if rng.randint(2):
        # the prediction discretization can be inverted as it is
        quiet(ctx, 'invert', R.invert, d1)
        w = np.zeros(n)
        good = True
        for j in range(k):
            pm, om = want[0][2][j], want[1][2][j]
            for v in (pm, om):
                good = good and len(v) > q + 1 and np.linalg.cond(np.atleast_2d(np.cov(v.T))) < 1e6
            if good:
                w[want[0][1] == j] = oracle.KDE(om)(pm) / oracle.KDE(pm)(pm)
        if good:
            ctx.close(ps.get_weights(), w, 'invert:weights', rtol=1e-6, atol=1e-10)
            ctx.ev('inverted')
    if rng.randint(2):
        tmp = tempfile.mkdtemp(prefix='c27')
        try:
            f = os.path.join(tmp, 'luq')
            ctx.call('save', u.save, f)
            v = ctx.call('load_object', U.load_object, f)
        finally:
            shutil.rmtree(tmp)
        ctx.ev('saved')
        e1, e2 = ctx.call('make_disc', v.make_disc)
        ctx.check(e1.get_input_sample_set() == ps, 'saved:predict-set')
        ctx.equal(e1.get_output_sample_set().get_region(), want[0][1], 'saved:region')
        ctx.equal(e1.get_output_observed_set().get_region(), want[1][1], 'saved:observed-region')
        for a, b in zip(e1.get_output_sample_set().get_cluster_maps(), want[0][2]):
            ctx.equal(a, b, 'saved:maps')
        ctx.check((e2 is None) == (not with_obs), 'saved:observed')
        if with_obs:
            ctx.check(e2.get_input_sample_set() == os_, 'saved:obs-set')
    if rng.randint(2):
        # the same object set up again after the samples changed
        x = rng.normal(size=(n, dim))
        ps.set_values(x.copy())
        if with_obs:
            if rng.randint(2):
                y = 0.6 * rng.normal(size=(m, dim))
                os_.set_values(y.copy())
            del CALLS[:]
            ctx.call('setup', u.setup)
            so = model(y, times)
        else:
            so = rng.normal(size=so.shape)
            ctx.call('get_predictions', u.get_predictions)
            u.set_observed_time_series(so.copy())
            del CALLS[:]
            ctx.call('initialize', u.initialize)
        ini = [c for c in CALLS if c[0] == 'init']
        ctx.check(len(ini) == 1, 'again:luq-created', got=len(ini))
        ctx.equal(ini[0][1], model(x, times), 'again:predicted')
        ctx.equal(ini[0][2], so, 'again:observed')
        ctx.equal(ini[0][3], times, 'again:times')
        u.clean_data()
        u.dynamics(n=k, stride=1, shift=1)
        u.learn_qois_and_transform(num_qoi=q, seed=5)
        e1, e2 = ctx.call('make_disc', u.make_disc)
        judge_disc(ctx, e1, ps, u.learn.predict_labels, u.learn.predict_maps, q=q, key='again')
        if with_obs:
            judge_disc(ctx, e2, os_, u.learn.obs_labels, u.learn.obs_maps, q=q, key='again-observed')
        ctx.ev('set_up_again')
    ctx.note(x, y, k, q)


def case_missing(ctx, rng):
    ps = S.sample_set(2)
    ps.set_values(rng.normal(size=(5, 2)))
    u = L.useLUQ(ps, model, np.arange(3.0), obs_set=ps)
    sys.modules['luq'] = sys.modules['luq.luq'] = None
    try:
        ctx.raises('initialize', L.missing_module, u.initialize, np.zeros((5, 3)), np.zeros((5, 3)))
        ctx.raises('setup', L.missing_module, u.setup)
        ctx.raises('myModel', L.missing_module, L.myModel, np.ones((2, 2)), np.arange(3.0))
    finally:
        sys.modules['luq'], sys.modules['luq.luq'] = stub, stub.luq
    ctx.ev('missing_module')
    ctx.note('missing', ps.get_values())


KINDS = [Kind('learn', case_learn, 300, 5000), Kind('missing', case_missing, 10, 50)]
