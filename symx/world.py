"""A message-passing world for rank programs, usable symbolically and natively.

Ranks run as threads passing a baton (exactly one runs at a time).  Point to
point messages match in posting order per (source, destination, tag), as MPI
requires.  `capture` says when a non-blocking send reads its buffer: at the
Isend ("eager") or only when the receive completes ("late"); MPI allows both.
With `sync` every send completes only once a matching receive is posted.
"""
import copy
import io
import pickle
import threading

import numpy as _np

ANY = -1


class WorldAbort(BaseException):
    pass


class Deadlock(Exception):
    pass


class MPIError(Exception):
    """The program did something MPI forbids or leaves undefined."""


def _sym(a):
    return hasattr(a, "mem") and hasattr(a, "_dmap")


def as_message(a):
    """Memory-order picture of a contiguous buffer, or ValueError."""
    if isinstance(a, (list, tuple)):
        a = a[0]
    if hasattr(a, "__array_function__") and hasattr(a, "inner"):
        a = a.inner  # device memory, which the library reads and writes as it does the host's
    if not (_sym(a) or isinstance(a, _np.ndarray)):
        raise TypeError(f"object does not support the buffer interface: {type(a)}")
    if a.flags["C_CONTIGUOUS"]:
        return a
    if a.flags["F_CONTIGUOUS"]:
        return a.T
    raise ValueError("ndarray is not contiguous")


def _copy(m):
    return m._materialise("C") if _sym(m) else _np.array(m, copy=True, order="C")


def _eq_shape(a, b):
    if len(a) != len(b):
        return False
    return all(bool(x == y) for x, y in zip(a, b))


def _total(shape):
    r = 1
    for s in shape:
        r = r * s
    return r


def deliver(msg, recvbuf):
    """Copy a captured message (C-order array) into a receive buffer."""
    dst = as_message(recvbuf)
    if msg.dtype != dst.dtype:
        raise MPIError(f"message of type {msg.dtype} received as {dst.dtype}")
    if not dst.flags["WRITEABLE"]:
        raise ValueError("receive buffer is read-only")
    if _eq_shape(msg.shape, dst.shape):
        dst[...] = msg
        return
    n, m = _total(msg.shape), _total(dst.shape)
    if bool(n > m):
        raise MPIError(f"message truncated: {msg.shape} into {dst.shape}")
    if _sym(dst):
        from . import core

        newshape = [core.CTX.concretize(s) if core.is_sym(s) else s for s in dst.shape]
        flat = msg.reshape(-1)
        cnt = core.CTX.concretize(n) if core.is_sym(n) else n
        for k, pos in enumerate(_np.ndindex(*newshape)):
            if k >= cnt:
                break
            dst[tuple(int(p) for p in pos)] = flat[k]
        return
    dst.reshape(-1)[:n] = msg.reshape(-1)


class _Pickler(pickle.Pickler):
    """Pickles as mpi4py does; symbolic values and arrays travel as copies."""

    def __init__(self, f):
        super().__init__(f, pickle.HIGHEST_PROTOCOL)
        self.kept, self.seen = [], {}

    def persistent_id(self, obj):
        if isinstance(obj, type) or not type(obj).__module__.startswith("symx"):
            return None
        if id(obj) not in self.seen:
            self.seen[id(obj)] = len(self.kept), obj
            self.kept.append(copy.deepcopy(obj))
        return self.seen[id(obj)][0]


class _Unpickler(pickle.Unpickler):
    def __init__(self, f, kept):
        super().__init__(f)
        self.kept = kept

    def persistent_load(self, i):
        return self.kept[i]


def wire(obj):
    """What arrives when a Python object is sent."""
    f = io.BytesIO()
    p = _Pickler(f)
    p.dump(obj)
    f.seek(0)
    return _Unpickler(f, p.kept).load()


class Message:
    def __init__(self, src, dst, tag, array, seq):
        self.src, self.dst, self.tag, self.seq = src, dst, tag, seq
        self.array = array
        self.data = None
        self.matched = False
        self.received = False

    def content(self):
        if self.data is None:
            self.data = _copy(as_message(self.array))
        return self.data


class Posted:
    def __init__(self, buf, source, tag):
        self.buf, self.source, self.tag = buf, source, tag
        self.msg = None
        self.done = False


class Request:
    def __init__(self, comm, kind, obj, buf=None):
        self._c, self._kind, self._o, self._buf = comm, kind, obj, buf
        self._waited = False

    def wait(self, status=None):
        w = self._c.world
        if self._waited:
            return None
        self._waited = True
        if self._kind == "send":
            w.record(self._c, ("send_wait", self._o.seq))
            if w.sync:
                w.block(lambda: self._o.matched)
            self._o.content()  # the caller may change the buffer from now on
        elif self._kind == "isendobj":
            pass
        else:
            w.record(self._c, ("recv_wait", id(self._o)))
            w.block(lambda: self._o.msg is not None)
            w.record(self._c, ("recv_done", self._o.msg.seq, id(self._o)))
            self._c._complete(self._o)
        return None

    Wait = wait

    def test(self, status=None):
        self._c.world.wildcards = True
        if self._kind == "recv" and self._o.msg is None:
            return (False, None)
        self.wait()
        return (True, None)

    Test = lambda self, status=None: self.test()[0]

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.wait()


class Comm:
    """The part of the mpi4py communicator interface the package can use."""

    def __init__(self, world, group, rank, cid):
        self.world = world
        self.group = group  # shared state between the ranks of this communicator
        self._rank = rank
        self.cid = cid
        self._coll = 0

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.group["size"]

    rank = property(Get_rank)
    size = property(Get_size)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from .core_shared import Unsupported

        raise Unsupported("MPI communicator method " + name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- point to point
    def _check_rank(self, r):
        if not 0 <= int(r) < self.group["size"]:
            raise MPIError(f"invalid rank {r}")
        return int(r)

    def Isend(self, buf, dest, tag=0):
        return Request(self, "send", self._post_send(buf, dest, tag, "isend"))

    def Issend(self, buf, dest, tag=0):
        return self.Isend(buf, dest, tag)

    def _post_send(self, buf, dest, tag, kind):
        dest = self._check_rank(dest)
        w = self.world
        m = Message(self._rank, dest, int(tag), buf, w.next_seq())
        as_message(buf)
        w.record(self, (kind, m.seq, dest, int(tag)))
        w.n_messages += 1
        if w.capture == "eager" or kind == "send":
            m.content()
        self.group["msgs"].append(m)
        self._match(dest)
        return m

    def Send(self, buf, dest, tag=0):
        m = self._post_send(buf, dest, tag, "send")
        self.world.record(self, ("send_wait", m.seq))
        if self.world.sync:
            self.world.block(lambda: m.matched)

    Ssend = Send

    def _match(self, dst):
        posts = self.group["posts"].setdefault(dst, [])
        for p in posts:
            if p.msg is not None:
                continue
            for m in self.group["msgs"]:
                if m.matched or m.dst != dst:
                    continue
                if p.source not in (ANY, m.src) or p.tag not in (ANY, m.tag):
                    continue
                m.matched = True
                p.msg = m
                break
        posts[:] = [p for p in posts if p.msg is None]
        self.group["msgs"][:] = [m for m in self.group["msgs"] if not m.matched]

    def _post_recv(self, buf, source, tag, kind):
        if source != ANY:
            source = self._check_rank(source)
        if source == ANY or tag == ANY:
            self.world.wildcards = True
        as_message(buf)
        p = Posted(buf, source, int(tag))
        self.world.record(self, (kind, id(p), source, int(tag)))
        self.world.keep.append(p)
        self.group["posts"].setdefault(self._rank, []).append(p)
        self._match(self._rank)
        return p

    def _complete(self, p):
        if not p.done:
            p.done = True
            deliver(p.msg.content(), p.buf)
            p.msg.received = True

    def Irecv(self, buf, source=ANY, tag=ANY):
        return Request(self, "recv", self._post_recv(buf, source, tag, "irecv"))

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        p = self._post_recv(buf, source, tag, "recv")
        self.world.block(lambda: p.msg is not None)
        self.world.record(self, ("recv_done", p.msg.seq, id(p)))
        self._complete(p)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        m = self._post_send(sendbuf, dest, sendtag, "isend")
        self.Recv(recvbuf, source, recvtag)
        self.world.record(self, ("send_wait", m.seq))
        if self.world.sync:
            self.world.block(lambda: m.matched)

    # -- collectives
    def _collective(self, kind, root):
        i = self._coll
        self._coll += 1
        slots = self.group["coll"]
        while len(slots) <= i:
            slots.append({"kind": None, "in": {}})
        s = slots[i]
        if s["kind"] is None:
            s["kind"] = (kind, root)
        elif s["kind"] != (kind, root):
            raise MPIError(
                f"collective mismatch: rank {self._rank} calls {(kind, root)}, "
                f"another rank called {s['kind']}"
            )
        self.world.record(self, ("coll", self.cid, i, kind, root))
        s.setdefault("arrived", set()).add(self._rank)
        if self.world.sync:  # MPI allows collectives to synchronise
            self.world.block(lambda: len(s["arrived"]) == self.group["size"])
        return s

    def bcast(self, obj=None, root=0):
        s = self._collective("bcast", root)
        if self._rank == root:
            s["in"][root] = None
            s["value"] = wire(obj)
            s["in"]["set"] = True
            return obj
        self.world.block(lambda: s["in"].get("set"))
        return wire(s["value"])

    def barrier(self):
        s = self._collective("barrier", None)
        s["in"][self._rank] = True
        self.world.block(lambda: len(s["in"]) == self.group["size"])

    Barrier = barrier

    def Scatter(self, sendbuf, recvbuf, root=0):
        s = self._collective("Scatter", root)
        n = self.group["size"]
        if self._rank == root:
            msg = as_message(sendbuf)
            if not bool(msg.shape[0] == n):
                flat = msg.reshape(-1)
                tot = _total(msg.shape)
                if not bool(tot % n == 0):
                    raise MPIError("Scatter: buffer size is not a multiple of the number of ranks")
                msg = flat.reshape((n, tot // n))
            s["data"] = _copy(msg)
            s["set"] = True
        else:
            self.world.block(lambda: s.get("set"))
        if recvbuf is not None:
            part = s["data"][self._rank]
            if not _sym(part) and not isinstance(part, _np.ndarray):
                part = s["data"][self._rank : self._rank + 1]
            dst = as_message(recvbuf)
            if not bool(_total(part.shape) == _total(dst.shape)):
                raise MPIError(f"Scatter: part of shape {part.shape} received as {dst.shape}")
            deliver(part, recvbuf)

    def Gather(self, sendbuf, recvbuf, root=0):
        s = self._collective("Gather", root)
        n = self.group["size"]
        s["in"][self._rank] = _copy(as_message(sendbuf))
        if self._rank != root:
            return
        self.world.block(lambda: len(s["in"]) == n)
        dst = as_message(recvbuf)
        if not bool(dst.shape[0] == n):
            raise MPIError(f"Gather: receive buffer of shape {dst.shape} for {n} ranks")
        for r in range(n):
            part = dst[r] if len(dst.shape) > 1 else dst[r : r + 1]
            m = s["in"][r]
            if len(m.shape) == 0:
                m = m.reshape((1,))
            if not bool(_total(part.shape) == _total(m.shape)):
                raise MPIError(f"Gather: rank {r} sends {m.shape}, slot is {part.shape}")
            deliver(m, part)

    def gather(self, obj, root=0):
        s = self._collective("gather", root)
        s["in"][self._rank] = wire(obj)
        if self._rank != root:
            return None
        self.world.block(lambda: len(s["in"]) == self.group["size"])
        return [s["in"][r] for r in range(self.group["size"])]

    def allgather(self, obj):
        s = self._collective("allgather", None)
        s["in"][self._rank] = wire(obj)
        self.world.block(lambda: len(s["in"]) == self.group["size"])
        return [copy.deepcopy(s["in"][r]) for r in range(self.group["size"])]

    def scatter(self, objs=None, root=0):
        s = self._collective("scatter", root)
        if self._rank == root:
            s["value"] = wire(list(objs))
            s["in"]["set"] = True
        else:
            self.world.block(lambda: s["in"].get("set"))
        return s["value"][self._rank]

    def Split(self, color=0, key=0):
        s = self._collective("Split", None)
        s["in"][self._rank] = (color, key)
        self.world.block(lambda: len(s["in"]) == self.group["size"])
        if "groups" not in s:
            s["groups"] = {}
            for r, (c, k) in sorted(s["in"].items()):
                s["groups"].setdefault(c, []).append((k, r))
            s["shared"] = {c: new_group(len(m)) for c, m in s["groups"].items()}
        members = sorted(s["groups"][color])
        new_rank = [r for _, r in members].index(self._rank)
        return Comm(self.world, s["shared"][color], new_rank, f"{self.cid}/{self._coll}:{color}")


def new_group(n):
    return {"size": n, "msgs": [], "posts": {}, "coll": []}


class World:
    def __init__(self, n, capture="eager", sync=False, order=None):
        self.n = n
        self.capture = capture
        self.sync = sync
        self.seq = 0
        self.n_messages = 0
        self.wildcards = False  # did anything depend on timing?
        self.keep = []
        self.trace = {r: [] for r in range(n)}
        self.order = list(order) if order is not None else list(range(n))
        self.group = new_group(n)
        self.current = None
        self._abort = False

    def next_seq(self):
        self.seq += 1
        return self.seq

    def record(self, comm, op):
        self.trace[self.current].append(op)

    def comm(self, rank):
        return Comm(self, self.group, rank, "w")

    def block(self, pred):
        if self._abort:
            raise WorldAbort()
        if pred():
            return
        r = self.current
        self._pred[r] = pred
        self._back.release()
        self._sem[r].acquire()
        if self._abort:
            raise WorldAbort()
        self._pred[r] = None

    def run(self, programs):
        """programs: {rank: fn(comm)}; returns {rank: result}."""
        n = self.n
        self._sem = [threading.Semaphore(0) for _ in range(n)]
        self._back = threading.Semaphore(0)
        self._pred = [None] * n
        results, errors, done = {}, [], set()

        def main(r):
            self._sem[r].acquire()
            try:
                if not self._abort:
                    results[r] = programs[r](self.comm(r))
            except WorldAbort:
                pass
            except BaseException as e:
                errors.append((r, e))
            done.add(r)
            self._back.release()

        old = threading.stack_size()
        try:
            threading.stack_size(64 * 1024 * 1024)
        except ValueError:
            pass
        threads = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(n)]
        for t in threads:
            t.start()
        threading.stack_size(old)
        dead = None
        while len(done) < n and not errors:
            progressed = False
            for r in self.order:
                if r in done:
                    continue
                if self._pred[r] is not None and not self._pred[r]():
                    continue
                progressed = True
                self.current = r
                self._sem[r].release()
                self._back.acquire()
                if errors:
                    break
            if not progressed:
                dead = {r: self.trace[r][-1:] for r in range(n) if r not in done}
                break
        if len(done) < n:
            self._abort = True
            for r in range(n):
                if r not in done:
                    self.current = r
                    self._sem[r].release()
                    self._back.acquire()
        for t in threads:
            t.join()
        if errors:
            raise errors[0][1]
        if dead is not None:
            raise Deadlock(f"no rank can proceed: {dead}")
        return results

    def leftover(self):
        return len(self.group["msgs"])
