"""Simulated MPI: real processes, one per rank, whose collectives meet in a monitoring hub.

install() puts a stand-in for mpi4py in sys.modules before bet is imported.  In the importing
process the communicator has one rank.  run(size, fn) forks one process per rank; every
collective a rank enters is sent to the hub (the parent), which

 * waits until every rank has arrived and checks that all of them entered the same collective
   with the same root, operation, type and size (a mismatch is what hangs or corrupts a real run),
 * notices ranks that finished or died while others wait (a deadlock in a real run),
 * answers in a random order, after random delays, and records the order of arrival.

block_mpi4py() makes ``import mpi4py`` fail instead.
"""
import hashlib
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
import types

import numpy as np


class MPIError(Exception):
    """What the MPI library would reject in a single call."""


class Op(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __reduce__(self):
        return (_op, (self.name,))


def _op(name):
    return OPS[name]


OPS = {'SUM': Op('SUM', lambda a, b: a + b), 'PROD': Op('PROD', lambda a, b: a * b),
       'MAX': Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)),
       'MIN': Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))}


class Datatype(object):
    def __init__(self, name, dtype):
        self.name, self.dtype = name, np.dtype(dtype)

    def Get_size(self):
        return self.dtype.itemsize


IN_PLACE = object()


def _buffer(spec):
    """(array as the library sees it, datatype name) of a buffer specification."""
    if isinstance(spec, (list, tuple)):
        arr, typ = spec[0], spec[-1]
    else:
        arr = spec
        typ = Datatype(str(np.asarray(spec).dtype), np.asarray(spec).dtype)
    if not isinstance(arr, np.ndarray):
        raise TypeError('message: expecting a buffer or list/tuple')
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise ValueError('ndarray is not contiguous')
    if arr.nbytes % typ.dtype.itemsize:
        raise ValueError('message: buffer length is not a multiple of the datatype extent')
    flat = arr.ravel(order='K').view(typ.dtype)   # the memory, whatever numpy calls it
    return arr, flat, typ.name


def _store(arr, flat):
    """Write bytes into the memory of arr."""
    view = arr.reshape(-1, order='A') if arr.flags.c_contiguous else arr.T.reshape(-1)
    assert np.shares_memory(view, arr) or arr.size == 0
    if view.nbytes < flat.nbytes:
        raise MPIError('message truncated')
    n = flat.nbytes // view.dtype.itemsize
    view[:n] = np.frombuffer(flat.tobytes(), dtype=view.dtype)


class SimComm(object):
    def __init__(self):
        self.rank, self.size = 0, 1
        self._link = None

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # ---- transport -------------------------------------------------------
    def _meet(self, name, meta, payload):
        """Enter a collective; returns the payloads of all ranks."""
        if self.size == 1:
            return [pickle.loads(pickle.dumps(payload, 2))]
        return self._link.meet(name, meta, payload)

    # ---- pickled collectives ---------------------------------------------
    def barrier(self):
        self._meet('barrier', (), None)

    Barrier = barrier

    def allgather(self, sendobj):
        return self._meet('allgather', (), sendobj)

    def gather(self, sendobj, root=0):
        all_ = self._meet('gather', (root,), sendobj)
        return all_ if self.rank == root else None

    def bcast(self, obj, root=0):
        got = self._meet('bcast', (root,), obj if self.rank == root else None)
        return obj if self.rank == root else got[root]

    def scatter(self, sendobj, root=0):
        got = self._meet('scatter', (root,), sendobj if self.rank == root else None)
        lst = got[root]
        if lst is None or len(lst) != self.size:
            raise ValueError('expecting %d items, got %s' % (
                self.size, None if lst is None else len(lst)))
        return lst[self.rank]

    def alltoall(self, sendobj):
        return [x[self.rank] for x in self._meet('alltoall', (), list(sendobj))]

    def reduce(self, sendobj, op=None, root=0):
        op = op or OPS['SUM']
        got = self._meet('reduce', (op.name, root), sendobj)
        if self.rank != root:
            return None
        return _fold(op, got)

    def allreduce(self, sendobj, op=None):
        op = op or OPS['SUM']
        return _fold(op, self._meet('allreduce', (op.name,), sendobj))

    # ---- buffer collectives ----------------------------------------------
    def Allreduce(self, sendbuf, recvbuf, op=None):
        op = op or OPS['SUM']
        rarr, rflat, rtype = _buffer(recvbuf)
        if sendbuf is IN_PLACE:
            sflat, stype = rflat, rtype
        else:
            sarr, sflat, stype = _buffer(sendbuf)
            if sarr.size and np.shares_memory(sarr, rarr):
                raise MPIError('send and receive buffers overlap')
        if stype != rtype or sflat.size != rflat.size:
            raise ValueError('mismatch in send and receive buffers')
        got = self._meet('Allreduce', (op.name, stype, sflat.size), sflat.copy())
        _store(rarr, _fold(op, got))

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        op = op or OPS['SUM']
        _, sflat, stype = _buffer(sendbuf)
        got = self._meet('Reduce', (op.name, root, stype, sflat.size), sflat.copy())
        if self.rank == root:
            _store(_buffer(recvbuf)[0], _fold(op, got))

    def Bcast(self, buf, root=0):
        arr, flat, typ = _buffer(buf)
        got = self._meet('Bcast', (root, typ, flat.size), flat.copy() if self.rank == root else None)
        if self.rank != root:
            _store(arr, got[root])

    def Allgather(self, sendbuf, recvbuf):
        _, sflat, stype = _buffer(sendbuf)
        rarr, rflat, _ = _buffer(recvbuf)
        got = self._meet('Allgather', (stype, sflat.size), sflat.copy())
        if rflat.size != sum(g.size for g in got):
            raise MPIError('message truncated')
        _store(rarr, np.concatenate(got))

    def Gather(self, sendbuf, recvbuf, root=0):
        _, sflat, stype = _buffer(sendbuf)
        got = self._meet('Gather', (root, stype, sflat.size), sflat.copy())
        if self.rank == root:
            _store(_buffer(recvbuf)[0], np.concatenate(got))

    def Scatter(self, sendbuf, recvbuf, root=0):
        pay = _buffer(sendbuf)[1].copy() if self.rank == root else None
        rarr, rflat, rtype = _buffer(recvbuf)
        got = self._meet('Scatter', (root, rtype, rflat.size), pay)[root]
        if got.size != rflat.size * self.size:
            raise MPIError('message truncated')
        _store(rarr, got[self.rank * rflat.size:(self.rank + 1) * rflat.size])


def _fold(op, got):
    out = got[0]
    for x in got[1:]:
        out = op.fn(out, x)
    return out


WORLD = SimComm()


def install():
    pkg = types.ModuleType('mpi4py')
    mpi = types.ModuleType('mpi4py.MPI')
    mpi.COMM_WORLD = WORLD
    mpi.IN_PLACE = IN_PLACE
    mpi.Exception = MPIError
    for n, o in OPS.items():
        setattr(mpi, n, o)
    for n, t in (('INT', 'int32'), ('LONG', 'int64'), ('LONG_LONG', 'int64'), ('INT64_T', 'int64'),
                 ('INT32_T', 'int32'), ('FLOAT', 'float32'), ('DOUBLE', 'float64'), ('BOOL', 'bool'),
                 ('C_BOOL', 'bool'), ('BYTE', 'uint8')):
        setattr(mpi, n, Datatype(n, t))
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi


def block_mpi4py():
    sys.modules['mpi4py'] = None
    sys.modules['mpi4py.MPI'] = None


# ---- running -------------------------------------------------------------
class Link(object):
    """Child side of the hub."""

    def __init__(self, rfd, wfd, rng):
        self.rfd, self.wfd, self.rng = rfd, wfd, rng

    def meet(self, name, meta, payload):
        if self.rng.rand() < 0.2:
            time.sleep(self.rng.rand() * 0.001)
        _send(self.wfd, ('op', name, meta, payload))
        tag, val = _recv(self.rfd)
        if tag == 'abort':
            raise Abort(val)
        return val


class Abort(BaseException):
    pass


def _send(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack('<q', len(b)) + b
    mv = memoryview(b)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _read(fd, n):
    out = bytearray()
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError()
        out += b
    return bytes(out)


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('<q', _read(fd, 8))[0]))


class Outcome(object):
    """results[r], or errors[r] = (type name, text, where); trace of the collectives."""

    def __init__(self, size):
        self.size = size
        self.results = [None] * size
        self.errors = [None] * size
        self.problem = None         # mismatch, deadlock, death of a rank
        self.trace = []
        self.orders = []

    def schedule(self):
        h = hashlib.sha1(repr(self.orders).encode())
        return h.hexdigest()[:12]


def run(size, fn, seed=0, timeout=60):
    """Run fn(rank) on ``size`` simulated ranks; each rank has its own numpy random state."""
    out = Outcome(size)
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    rng = np.random.RandomState(seed & 0x7fffffff)
    for r in range(size):
        c2p, p2c = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(c2p[0])
                os.close(p2c[1])
                for _, a, b in kids:
                    os.close(a)
                    os.close(b)
                WORLD.rank, WORLD.size = r, size
                WORLD._link = Link(p2c[0], c2p[1], np.random.RandomState(seed * 31 + r & 0x7fffffff))
                comm_mod = sys.modules.get('bet.Comm')
                if comm_mod is not None:
                    comm_mod.rank, comm_mod.size = r, size
                np.random.seed((seed * 1009 + 7919 * r + 13) & 0x7fffffff)
                try:
                    msg = ('done', fn(r))
                except Abort as a:
                    msg = ('aborted', str(a))
                except BaseException as e:
                    tb = traceback.extract_tb(sys.exc_info()[2])
                    where = ['%s:%s:%s' % (os.path.basename(f.filename), f.lineno, f.name)
                             for f in tb][-4:]
                    msg = ('error', (type(e).__name__, str(e), where))
                _send(c2p[1], msg)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(c2p[1])
        os.close(p2c[0])
        kids.append((pid, c2p[0], p2c[1]))
    try:
        _hub(out, kids, rng, timeout)
    finally:
        for pid, a, b in kids:
            os.close(a)
            os.close(b)
            if out.problem:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
    return out


def _hub(out, kids, rng, timeout):
    size = out.size
    state = ['running'] * size
    waiting = [None] * size
    fds = dict((k[1], r) for r, k in enumerate(kids))
    order = []
    end = time.time() + timeout
    while True:
        live = [r for r in range(size) if state[r] == 'running']
        if not live:
            waits = [r for r in range(size) if state[r] == 'waiting']
            if not waits:
                return
            heads = set((waiting[r][0], waiting[r][1]) for r in waits)
            if len(waits) < size:
                done = [r for r in range(size) if state[r] == 'done']
                failed = [r for r in range(size) if out.errors[r]]
                if not failed:
                    out.problem = 'deadlock: ranks %s wait in %s, ranks %s have finished' % (
                        waits, sorted(set(waiting[r][0] for r in waits)), done)
                else:
                    out.problem = 'ranks %s wait in %s, rank %d failed: %s' % (
                        waits, sorted(set(waiting[r][0] for r in waits)), failed[0],
                        out.errors[failed[0]])
            elif len(heads) > 1:
                out.problem = 'mismatched collectives: %s' % sorted(
                    '%d:%s%s' % (r, waiting[r][0], waiting[r][1]) for r in waits)
            if out.problem:
                for r in waits:
                    _send(kids[r][2], ('abort', out.problem))
                    state[r] = 'running'
                    waiting[r] = None
                continue
            out.trace.append(waiting[0][0])
            out.orders.append(tuple(order))
            order = []
            vals = [waiting[r][2] for r in range(size)]
            for r in rng.permutation(size):
                if rng.rand() < 0.1:
                    time.sleep(0.0005)
                _send(kids[r][2], ('ok', vals))
                state[r] = 'running'
                waiting[r] = None
            continue
        ready = select.select([kids[r][1] for r in live], [], [], max(0.0, end - time.time()))[0]
        if not ready:
            out.problem = 'no progress within %d s: ranks %s run, ranks %s wait' % (
                timeout, live, [r for r in range(size) if state[r] == 'waiting'])
            return
        for fd in ready:
            r = fds[fd]
            try:
                msg = _recv(fd)
            except EOFError:
                out.problem = out.problem or 'rank %d died' % r
                out.errors[r] = ('died', '', [])
                state[r] = 'done'
                continue
            if msg[0] == 'op':
                waiting[r] = msg[1:]
                state[r] = 'waiting'
                order.append(r)
            else:
                state[r] = 'done'
                if msg[0] == 'done':
                    out.results[r] = msg[1]
                elif msg[0] == 'error':
                    out.errors[r] = msg[1]
