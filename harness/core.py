"""Runtime-monitoring framework for UT-CHG/BET.

A *check* decides one property.  It is a module in harness/checks with

    ID       the property id
    COMM     'real' (mpi4py, one process), 'sim' (simulated ranks), 'none' (no mpi4py)
    KINDS    list of Kind(name, function, n_quick, n_thorough)
    REQUIRE  names of monitor counters that have to be non-zero on a run

A *case* is one seeded workload: it drives the code of /repo through its public
API, records what it did (Ctx.ev), and hands what it observed to an oracle that
is independent of the code (Ctx.check / close / equal ...).  The first broken
oracle ends the case and is reported with the data that replays it.
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

Kind = collections.namedtuple('Kind', 'name fn quick thorough')


class Violation(Exception):
    """An oracle rejected an observed execution."""

    def __init__(self, key, detail):
        Exception.__init__(self, key)
        self.key = key
        self.detail = detail


class HarnessTimeout(BaseException):
    pass


def _short(x, n=600):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            s = 'array%s %s' % (x.shape, np.array2string(
                x, threshold=40, precision=17).replace('\n', ' '))
        else:
            s = repr(x)
    except Exception as e:  # a repr that fails must not hide the finding
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


def case_seed(prop, kind, seed, idx):
    h = hashlib.sha256(('%s|%s|%d|%d' % (prop, kind, seed, idx)).encode())
    return int.from_bytes(h.digest()[:4], 'little')


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = collections.Counter()
        self.sigs = set()
        self.trivial = 0
        self.samples = {}
        self.kind = None
        self.idx = None
        self.desc = {}

    # ---- recording -----------------------------------------------------
    def ev(self, name, n=1):
        self.counters[name] += int(n)

    def describe(self, **kw):
        self.desc.update((k, _short(v)) for k, v in kw.items())

    def note(self, *parts, nontrivial=True):
        """Identify this case; only distinct non-trivial ones are counted."""
        if not nontrivial:
            self.trivial += 1
            return
        h = hashlib.sha1()
        h.update(self.kind.encode())
        for p in parts:
            if hasattr(p, 'tobytes'):
                h.update(repr(p.shape).encode())
                h.update(p.tobytes())
            else:
                h.update(repr(p).encode())
        self.sigs.add(h.hexdigest()[:16])

    # ---- oracles -------------------------------------------------------
    def fail(self, key, **detail):
        raise Violation(key, dict((k, _short(v)) for k, v in detail.items()))

    def check(self, cond, key, **detail):
        self.ev('oracle_evaluations')
        if not cond:
            self.fail(key, **detail)

    def equal(self, got, want, key, **detail):
        import numpy as np
        self.ev('oracle_evaluations')
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not _nan_equal(g, w):
            self.fail(key, got=got, want=want, **detail)

    def close(self, got, want, key, rtol=1e-9, atol=1e-12, **detail):
        import numpy as np
        self.ev('oracle_evaluations')
        if got is None or want is None:
            ok = got is want
        else:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(
                np.all(np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)))
        if not ok:
            self.fail(key, got=got, want=want, **detail)

    def call(self, label, fn, *a, **k):
        """Run code under test; an exception on a valid input is a violation."""
        self.ev('call:' + label)
        try:
            return fn(*a, **k)
        except (Violation, HarnessTimeout):
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ['%s:%s:%s' % (os.path.basename(f.filename), f.lineno, f.name)
                     for f in tb][-4:]
            self.fail('raised:' + label, error='%s: %s' % (type(e).__name__, e),
                      where=where)

    def raises(self, label, exc, fn, *a, **k):
        """The code has to refuse this (invalid) input with one of ``exc``."""
        self.ev('call:' + label)
        self.ev('oracle_evaluations')
        try:
            r = fn(*a, **k)
        except exc:
            return
        except (Violation, HarnessTimeout):
            raise
        except Exception as e:
            self.fail('wrong-error:' + label, error='%s: %s' % (type(e).__name__, e),
                      wanted=str(exc))
        self.fail('accepted:' + label, returned=r, wanted=str(exc))


def _nan_equal(g, w):
    import numpy as np
    if g.dtype.kind in 'fc' or w.dtype.kind in 'fc':
        try:
            return bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
        except TypeError:
            return bool(np.all(g == w))
    return bool(np.all(g == w))


def run_case(ctx, kind, idx, case_alarm):
    import numpy as np
    ctx.kind, ctx.idx, ctx.desc = kind.name, idx, {}
    s = case_seed(ctx.prop, kind.name, ctx.seed, idx)
    np.random.seed(s ^ 0x5bd1e995)
    random.seed(s)
    rng = np.random.RandomState(s)

    def on_alarm(*_):
        raise HarnessTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case_alarm)
    viol = None
    try:
        kind.fn(ctx, rng)
    except Violation as v:
        viol = {'key': v.key, 'detail': v.detail}
    except HarnessTimeout:
        viol = {'key': 'no-termination',
                'detail': {'seconds': case_alarm,
                           'where': traceback.format_exc()[-1500:]}}
    except Exception as e:
        # what was observed does not even have the shape the oracle expects
        viol = {'key': 'malformed:' + type(e).__name__,
                'detail': {'error': str(e), 'where': traceback.format_exc()[-1800:]}}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.ev('cases:' + kind.name)
    if kind.name not in ctx.samples and ctx.desc:
        ctx.samples[kind.name] = dict(ctx.desc, case='%s#%d' % (kind.name, idx))
    if viol is not None:
        viol.update(property=ctx.prop, kind=kind.name, idx=idx, seed=ctx.seed,
                    tier=ctx.tier, case=dict(ctx.desc))
    return viol


def install_poison():
    """Uninitialised-memory sanitizer: numpy.empty hands out poisoned memory."""
    import numpy as np
    real_empty, real_like = np.empty, np.empty_like

    def poison(a):
        if a.size and a.flags.writeable:
            if a.dtype.kind == 'f':
                a.fill(np.nan)
            elif a.dtype.kind in 'iu':
                a.fill(np.iinfo(a.dtype).max // 3)
        return a

    def empty(*a, **k):
        return poison(real_empty(*a, **k))

    def empty_like(*a, **k):
        return poison(real_like(*a, **k))
    np.empty, np.empty_like = empty, empty_like
