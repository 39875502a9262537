"""A small deterministic stand-in for MPI: ranks are threads run one at a time.

A rank runs until it reaches a collective operation or ends.  When every rank has
arrived, the operation is carried out, and the ranks go on in the next order of the
given list (the last order is used from then on).  Ranks that end while others wait
in a collective operation are a deadlock.
"""
import importlib, sys, threading, types

import numpy as np

from mc.core import Violation


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


SUM = Op("SUM", lambda xs: sum(xs[1:], xs[0]))
MAX = Op("MAX", lambda xs: np.maximum.reduce(xs))
MIN = Op("MIN", lambda xs: np.minimum.reduce(xs))
PROD = Op("PROD", lambda xs: np.multiply.reduce(xs))
IN_PLACE = object()


def buf(b):
    return b[0] if isinstance(b, (list, tuple)) else b


class Comm:
    def __init__(self, world, rank):
        self.world, self.rank = world, rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.world.size

    size = property(Get_size)

    def _go(self, kind, root, data, op=None):
        return self.world.collective(self.rank, kind, root, data, op)

    def Barrier(self):
        self._go("barrier", 0, None)

    barrier = Barrier

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        src = buf(recvbuf) if sendbuf is IN_PLACE else buf(sendbuf)
        res = self._go("reduce", root, np.array(src), op)
        if self.rank == root:
            buf(recvbuf)[...] = res

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        src = buf(recvbuf) if sendbuf is IN_PLACE else buf(sendbuf)
        buf(recvbuf)[...] = self._go("allreduce", None, np.array(src), op)

    def reduce(self, obj, op=SUM, root=0):
        res = self._go("reduce", root, obj, op)
        return res if self.rank == root else None

    def allreduce(self, obj, op=SUM):
        return self._go("allreduce", None, obj, op)

    def gather(self, obj, root=0):
        res = self._go("gather", root, obj)
        return res if self.rank == root else None

    def allgather(self, obj):
        return self._go("allgather", None, obj)

    def bcast(self, obj, root=0):
        return self._go("bcast", root, obj)


class World:
    def __init__(self, size, orders):
        self.size, self.orders = size, orders
        self.comms = [Comm(self, r) for r in range(size)]
        self.turn = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.call = {}
        self.answer = {}
        self.done = {}
        self.error = {}
        self.log = []

    def collective(self, rank, kind, root, data, op):
        self.call[rank] = (kind, root, data, op)
        self.back.release()
        self.turn[rank].acquire()
        if rank not in self.answer:
            raise SystemExit  # world was given up
        return self.answer.pop(rank)

    def run(self, fn):
        """fn(comm) on every rank; the results by rank."""

        def body(r):
            self.turn[r].acquire()
            try:
                self.done[r] = fn(self.comms[r])
            except SystemExit:
                pass
            except BaseException as e:  # handed over to the checker
                self.error[r] = e
            self.back.release()

        threads = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        step = 0
        try:
            while True:
                order = [r for r in self.orders[min(step, len(self.orders) - 1)] if r not in self.done and r not in self.error]
                for r in order:
                    self.turn[r].release()
                    self.back.acquire()
                    if self.error:
                        raise list(self.error.values())[0]
                if len(self.done) == self.size:
                    return [self.done[r] for r in range(self.size)]
                if len(self.call) != self.size:
                    raise Violation(f"deadlock: ranks {sorted(self.call)} wait in {[c[0] for c in self.call.values()]}, ranks {sorted(self.done)} have ended")
                kinds = {(c[0], c[1]) for c in self.call.values()}
                if len(kinds) != 1:
                    raise Violation(f"ranks meet in different operations: {kinds}")
                (kind, root), = kinds
                datas = [self.call[r][2] for r in range(self.size)]
                self.log.append(kind)
                for r in range(self.size):
                    op = self.call[r][3]
                    self.answer[r] = (
                        op.f(datas) if kind in ("reduce", "allreduce") else datas if "gather" in kind else datas[root] if kind == "bcast" else None
                    )
                self.call = {}
                step += 1
        finally:
            for r in range(self.size):
                self.turn[r].release()


class Proxy:
    """COMM_WORLD of whichever rank is running (thread-local)."""

    def __init__(self):
        self.local = threading.local()

    def __getattr__(self, name):
        return getattr(self.local.comm, name)


def fake_mpi():
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.rc = types.ModuleType("mpi4py.rc")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.SUM, mpi.MAX, mpi.MIN, mpi.PROD, mpi.IN_PLACE = SUM, MAX, MIN, PROD, IN_PLACE
    mpi.COMM_WORLD = Proxy()
    for t in ("INT", "LONG", "DOUBLE", "FLOAT", "INT64_T"):
        setattr(mpi, t, t)
    pkg.MPI = mpi
    return {"mpi4py": pkg, "mpi4py.rc": pkg.rc, "mpi4py.MPI": mpi}


_loaded = {}


def simulations(with_mpi):
    """flamingpy.simulations, imported with or without (stand-in) MPI being installed."""
    if with_mpi in _loaded:
        return _loaded[with_mpi]
    name = "flamingpy.simulations"
    mods = fake_mpi()
    hidden = {k: sys.modules.pop(k) for k in list(sys.modules) if k == name or k.split(".")[0] == "mpi4py"}
    if with_mpi:
        sys.modules.update(mods)
    else:
        sys.modules["mpi4py"] = None  # not installed
    try:
        mod = importlib.import_module(name)
    finally:
        for k in list(mods) + [name]:
            sys.modules.pop(k, None)
        sys.modules.update(hidden)
    _loaded[with_mpi] = mod
    mod_mpi = mods["mpi4py.MPI"] if with_mpi else None
    mod.__dict__.setdefault("_stand_in", mod_mpi)
    return mod
