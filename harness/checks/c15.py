"""C15: without mpi4py the library does what it does with it."""
import json
import os
import subprocess
import sys
import numpy as np
import core
from core import Kind, Violation, HarnessTimeout

ID = 'C15'
COMM = 'none'
RULE = ('mpi4py is made unimportable. The workloads and monitors of the other properties run on the '
        'stand-in communicator; one that is rejected is run again, same seed, in a process with mpi4py, and '
        'counts only if it passes there. The stand-in itself is driven through every operation of the '
        'communicator, compared with a real one-process communicator. Non-trivial: every case.')
REQUIRE = ['standin', 'standin_ops', 'workloads', 'barriers']
ASSUMPTIONS = ['one process; arrays are contiguous and of the type named']

SUBS = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c16', 'c18',
        'c19', 'c20', 'c21', 'c22', 'c23']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIRM = r'''
import sys, json, os, warnings, logging
warnings.simplefilter('ignore'); logging.disable(logging.CRITICAL)
here, repo, sub, kind, seed, tier = sys.argv[1:7]
sys.path.insert(0, here)
import core, importlib
mod = importlib.import_module('checks.' + sub)
sys.path.insert(0, repo)
import bet
core.install_poison()
mod.setup()
import numpy as np, random
from checks import c15
ctx = core.Ctx('C15', tier, 1)
v = c15.run_sub(ctx, mod, kind, int(seed))
print('RESULT ' + json.dumps(v.key if v is not None else None))
'''


def setup():
    global C, mods
    import bet.Comm as C
    assert sys.modules.get('mpi4py') is None
    import importlib
    mods = {}
    for n in SUBS:
        m = importlib.import_module('checks.' + n)
        m.setup()
        mods[n] = m


def run_sub(ctx, mod, kind, seed):
    """One case of another check; the Violation it ends in, or None."""
    import random
    k = [k for k in mod.KINDS if k.name == kind][0]
    np.random.seed(seed ^ 0x5bd1e995)
    random.seed(seed)
    sub = core.Ctx(mod.ID, ctx.tier, 1)
    sub.kind, sub.idx = kind, 0
    try:
        k.fn(sub, np.random.RandomState(seed))
    except Violation as v:
        return v
    except HarnessTimeout:
        raise
    except Exception as e:
        return Violation('malformed:' + type(e).__name__, {'error': str(e)})
    finally:
        ctx.ev('oracle_evaluations', sub.counters['oracle_evaluations'])
    return None


known = set()
also = {}


def case_workload(ctx, rng, sub, kind):
    seed = int(rng.randint(1 << 31))
    ctx.describe(check=sub, kind=kind, seed=seed)
    ctx.ev('workloads')
    ctx.note(sub, kind, seed)
    if also.get((sub, kind), 0) >= 3:
        ctx.ev('skipped:fails-also-with-mpi4py')
        return
    v = run_sub(ctx, mods[sub], kind, seed)
    if v is None:
        return
    env = dict(os.environ)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CONFIRM, HERE,
                        os.environ.get('VERIF_REPO', '/repo'), sub, kind, str(seed), ctx.tier], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    line = [l for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('RESULT ')]
    if line and json.loads(line[0][7:]) is not None:
        ctx.ev('fails-also-with-mpi4py')
        also[(sub, kind)] = also.get((sub, kind), 0) + 1
        return
    ctx.fail('workload:%s:%s' % (mods[sub].ID, v.key), **v.detail)


class Tok(object):
    pass


def case_standin(ctx, rng):
    """Every operation the library uses, on any object, any number of times."""
    c = type(C.comm)() if rng.randint(2) else C.comm
    M = C.MPI
    ctx.ev('standin')
    ctx.check(C.comm.size == 1 and C.comm.rank == 0 and C.size == 1 and C.rank == 0, 'standin:world')
    for _ in range(rng.randint(3, 15)):
        x = [rng.normal(size=rng.randint(0, 5)), float(rng.normal()), int(rng.randint(9)), None, 'text', [], [1, 2],
             (3,), {}, {'a': 1}, Tok(), True, rng.normal(size=(2, 3)), [rng.normal(size=3)]][rng.randint(14)]
        keep = x.copy() if isinstance(x, np.ndarray) else None
        k = rng.randint(12)
        ctx.ev('standin_ops')
        if k == 0:
            ctx.check(c.Get_size() == 1 and c.Get_rank() == 0 and c.size == 1 and c.rank == 0, 'standin:size')
        elif k == 1:
            g = ctx.call('allgather', c.allgather, x)
            ctx.check(isinstance(g, list) and len(g) == 1 and g[0] is x, 'standin:allgather', got=g)
        elif k == 2:
            g = ctx.call('gather', c.gather, x, **({'root': 0} if rng.randint(2) else {}))
            ctx.check(isinstance(g, list) and len(g) == 1 and g[0] is x, 'standin:gather', got=g)
        elif k == 3:
            g = ctx.call('bcast', c.bcast, x, **({'root': 0} if rng.randint(2) else {}))
            ctx.check(g is x, 'standin:bcast', got=g)
        elif k == 4:
            g = ctx.call('scatter', c.scatter, [x], **({'root': 0} if rng.randint(2) else {}))
            ctx.check(g is x, 'standin:scatter', got=g, sent=x)
        elif k == 5:
            op = [{}, {'op': M.SUM}, {'op': M.MAX}][rng.randint(3)]
            g = ctx.call('allreduce', c.allreduce, x, **op)
            ctx.check(g is x, 'standin:allreduce', got=g)
        elif k == 6:
            (c.barrier if rng.randint(2) else c.Barrier)()
            ctx.ev('barriers')
        else:
            a = rng.normal(size=rng.randint(1, 6))
            b, s = (rng.normal(size=len(a)), a.copy()) if 7 <= k <= 10 and k != 8 else (a.copy(), a.copy())
            t = M.DOUBLE
            if k == 7:
                ctx.call('Allreduce', c.Allreduce, [s, t], [b, t], op=[M.SUM, M.MAX][rng.randint(2)])
            elif k == 8:
                ctx.call('Bcast', c.Bcast, [s, t], root=0)
            elif k == 9:
                ctx.call('Allgather', c.Allgather, [s, t], [b, t])
            elif k == 10:
                ctx.call('Scatter', c.Scatter, [s, t], [b, t], root=0)
            else:
                ctx.check(M.INT is not None and M.BOOL is not None and M.DOUBLE is not None, 'standin:types')
            ctx.equal(s, a, 'standin:send-buffer')
            ctx.equal(b, a, 'standin:receive-buffer')
        if keep is not None:
            ctx.equal(x, keep, 'standin:object-changed')
    ctx.note(rng.randint(1 << 30))


def _kinds():
    import importlib
    out = [Kind('standin', case_standin, 150, 2000)]
    for n in SUBS:
        for k in importlib.import_module('checks.' + n).KINDS:
            def fn(ctx, rng, n=n, k=k):
                case_workload(ctx, rng, n, k.name)
            q = max(2, min(25, k.quick // 8))
            out.append(Kind('%s.%s' % (n, k.name), fn, q, max(q, min(400, k.thorough // 8))))
    return out


KINDS = _kinds()
