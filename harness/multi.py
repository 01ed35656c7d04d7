"""Several communications in flight: independence and freedom from deadlock."""
from . import halo as H

BOUNDS = {
    "C07": "two or three requests (scalar, vector, interface synchronisation; different staggering, widths "
    "and padding) outstanding on the 1x1-layout cube, one mix on the 2x2 layout, with gathers and blocking updates in "
    "between and rank-dependent orders of waiting; cells per rank 1..64, widths 1..5, padding symbolic; send buffers "
    "read at post time or when the message is received",
    "C08": "layouts 1 to 3 (6, 24, 54 ranks), up to four operations, every schedule (program positions of all ranks "
    "are symbolic; sends complete only when their receive is posted, collectives synchronise); sizes symbolic, as in C07",
}
BOUNDS["C38"] = (
    "the 1x1-layout cube (2x2 thorough), updates of every kind blocking, started and outstanding together, gathers in between and refused calls; timers on, off, null, turned "
    "on and off between start and wait, with clocks of the user's around; cells per rank 1..16, width 1..2, padding up to one more (symbolic)")
OUTSIDE = {
    "C07": "requests on overlapping variables; ranks that start their requests in different orders; requests never finished",
    "C08": "ranks that wait for outstanding updates in different orders (with unbuffered sends that deadlocks by design); "
    "calls that raise on some ranks only",
}
ASSUMPTIONS = H.ASSUMPTIONS


def where(c, spec):
    return c.tile if spec.get("on") == "tile" else c


class Held:
    def __init__(self, data):
        self.data = data


class Op:
    """One operation on its own variables."""

    def __init__(self, env, cfg, spec, k, n, L, R, p=None):
        self.env, self.spec, self.k, self.n, self.L, self.R = env, spec, k, n, L, R
        kind = spec["kind"]
        cfg = dict(cfg, **spec)
        self.cfg = cfg
        both = spec.get("dims") or spec["xdims"] + spec["ydims"]
        _, self.p, origin, trail, sizes = H.geometry_inputs(env, dict(cfg, dims=both), f"_{k}", n, p)
        dtype = spec.get("dtype", "float64")

        def make(dims, name):
            geo = H.shape_of(env, dims, n, sizes, origin, trail)
            qs = [H.make_quantity(env, f"{name}{k}_{r}", dims, geo, dtype) for r in range(R)]
            return geo, qs, [env.snapshot(q.data) for q in qs]

        if kind in ("scalar", "gather"):
            self.geo, self.qs, self.before = make(spec["dims"], "q")
            if spec.get("what", "").startswith("scatter"):
                dims = list(spec["dims"])
                ext = [n * L + H.KIND[d] if d in H.KIND else e for d, e in zip(dims, self.geo[1])]
                if spec.get("on") != "tile":
                    dims, ext = ["tile"] + dims, [6] + ext
                self.whole = H.make_quantity(env, f"whole{k}", dims, ((0,) * len(ext), tuple(ext), tuple(ext)), dtype)
        else:
            self.dimsets = {"x": spec["xdims"], "y": spec["ydims"]}
            self.geos, self.qs, self.before = {}, {}, {}
            for c in "xy":
                self.geos[c], self.qs[c], self.before[c] = make(self.dimsets[c], c)

    def start(self, c, r):
        kind = self.spec["kind"]
        if kind == "scalar":
            return c.start_halo_update(self.qs[r], self.p)
        if kind == "vector":
            return c.start_vector_halo_update(self.qs["x"][r], self.qs["y"][r], self.p)
        if kind == "sync":
            return c.start_synchronize_vector_interfaces(self.qs["x"][r], self.qs["y"][r])
        raise AssertionError(kind)

    def block(self, c, r):
        kind = self.spec["kind"]
        if kind == "scalar":
            c.halo_update(self.qs[r], self.p)
        elif kind == "vector":
            c.vector_halo_update(self.qs["x"][r], self.qs["y"][r], self.p)
        elif kind == "sync":
            c.synchronize_vector_interfaces(self.qs["x"][r], self.qs["y"][r])
        elif self.spec["what"] == "gather":
            where(c, self.spec).gather(self.qs[r])
        elif self.spec["what"] == "scatter":
            where(c, self.spec).scatter(self.whole if where(c, self.spec).rank == 0 else None, self.qs[r])
        elif self.spec["what"] == "gather_state":
            where(c, self.spec).gather_state({"a": self.qs[r], "time": 1.0})
        elif self.spec["what"] == "scatter_state":
            w = where(c, self.spec)
            w.scatter_state({"a": self.whole, "time": 1.0} if w.rank == 0 else None)

    def overwrite(self, r):
        """Rank r goes on to use its variables for something else; what they held is kept for the check."""
        def one(qs, name):
            q = qs[r]
            qs[r] = Held(q.data.copy())
            q.data[...] = self.env.array(f"{name}{self.k}_{r}_next", q.data.shape, self.spec.get("dtype", "float64"))

        if isinstance(self.qs, dict):
            for c in "xy":
                one(self.qs[c], c)
        else:
            one(self.qs, "q")

    def check(self):
        env, L, R, n, p = self.env, self.L, self.R, self.n, self.p
        kind = self.spec["kind"]
        if kind == "scalar":
            H.check_scalar(env, self.cfg, L, R, n, p, self.spec["dims"], [self.geo] * R, self.qs, self.before)
        elif kind == "vector":
            H.check_vector(env, self.cfg, L, R, n, p, self.dimsets, {c: [g] * R for c, g in self.geos.items()}, self.qs, self.before)
        elif kind == "sync":
            H.check_sync(env, self.cfg, L, R, n, p, self.dimsets, {c: [g] * R for c, g in self.geos.items()}, self.qs, self.before)
        else:
            for r in range(R):
                env.check_forall(
                    [(f"d{k}", 0, s) for k, s in enumerate(self.qs[r].data.shape)],
                    lambda *i, r=r: env.same(env.value(self.qs[r].data, *i), self.before[r](*i)),
                    "gathered variables keep their values",
                )


def script_of(cfg, r):
    return cfg["scripts"][r % len(cfg["scripts"])]


def setup(env, cfg):
    L = cfg["L"]
    R = 6 * L * L
    n = env.int("n", 1, cfg.get("nmax", 64))
    p = None
    if cfg.get("samep"):
        p = env.int("p", 1, cfg.get("pmax", 5))
        env.assume(p < n)
    ops = [Op(env, cfg, s, k, n, L, R, p) for k, s in enumerate(cfg["ops"])]
    return L, R, n, ops


def programs(env, cfg, L, R, ops, done=None):
    def program(r):
        def f(comm):
            c = H.communicator(env, comm, L)
            reqs = {}
            for act in script_of(cfg, r):
                k = int(act[1:])
                if act[0] == "s":
                    reqs[k] = ops[k].start(c, r)
                elif act[0] == "w":
                    reqs.pop(k).wait()
                elif act[0] == "x":
                    ops[k].overwrite(r)
                else:
                    ops[k].block(c, r)
            if done is not None:
                done.add(r)

        return f

    return {r: program(r) for r in range(R)}


def run_outstanding(env, cfg):
    L, R, n, ops = setup(env, cfg)
    w = env.world(R, capture=cfg.get("capture", "eager"), order=H.order_of(cfg, R))
    w.run(programs(env, cfg, L, R, ops))
    env.check(w.leftover() == 0, "every message sent is received")
    for k, op in enumerate(ops):
        if k in cfg.get("look", [k]):
            op.check()
    env.cover("outstanding " + cfg["name"])


def stuck_state(env, w, R):
    """Formula: some reachable cut of the run is stuck.

    The program position of every rank is a symbolic integer, so the cuts are
    those of every schedule; a send completes only when its receive is posted
    and a collective only when all its ranks have arrived.
    """
    ev = [w.trace[r] for r in range(R)]
    send_at, recv_at, coll_at = {}, {}, {}
    for r in range(R):
        posts = {}
        for k, e in enumerate(ev[r]):
            if e[0] in ("isend", "send"):
                send_at[e[1]] = (r, k)
            elif e[0] in ("recv", "irecv"):
                posts[e[1]] = k
            elif e[0] == "recv_done":
                recv_at[e[1]] = (r, posts[e[2]])
            elif e[0] == "coll":
                coll_at.setdefault(e[1:3], []).append((r, k))
    pc = [env.int(f"pc{r}", 0, len(ev[r])) for r in range(R)]

    def enabled(e):
        if e[0] == "send_wait":
            s, k = recv_at[e[1]]
            return pc[s] > k
        if e[0] == "recv_done":
            s, k = send_at[e[1]]
            return pc[s] > k
        if e[0] == "coll":
            return env.And(*[pc[s] >= k for s, k in coll_at[e[1:3]]])
        return True

    consistent, stuck = [], []
    for r in range(R):
        here = [pc[r] == len(ev[r])]
        for k, e in enumerate(ev[r]):
            if e[0] in ("send_wait", "recv_done", "coll"):
                en = enabled(e)
                consistent.append(env.Implies(pc[r] > k, en))
                here.append(env.And(pc[r] == k, env.Not(en)))
        stuck.append(env.Or(*here))
    unfinished = env.Or(*[pc[r] < len(ev[r]) for r in range(R)])
    return env.And(unfinished, *consistent, *stuck), sum(len(e) for e in ev)


def run_progress(env, cfg):
    L, R, n, ops = setup(env, cfg)
    w = env.world(R, capture="late", sync=True, order=H.order_of(cfg, R))
    done = set()
    w.run(programs(env, cfg, L, R, ops, done))
    env.check(len(done) == R, "every rank finishes")
    env.check(w.leftover() == 0, "every message sent is received")
    if w.wildcards:
        from symx.core_shared import Unsupported

        raise Unsupported("the matching of messages depends on timing")
    if env.symbolic:
        bad, events = stuck_state(env, w, R)
        env.check(env.Not(bad), "no schedule of the ranks gets stuck")
    env.cover("progress " + cfg["name"])


class Clock:
    """A clock that only messages move: each rank has its own."""

    def __init__(self):
        self.world, self.at = None, {}

    def now(self):
        r = self.world.current if self.world is not None else None
        return self.at.get(r, 0.0)

    def now_ns(self):
        return self.now() * 10**9

    def advance(self, d):
        r = self.world.current
        self.at[r] = self.at.get(r, 0.0) + d


CLOCK = Clock()


def stubs(ctx, cfg):
    if cfg["kind"] != "timers":
        return {}
    from symx import loader

    names = ("perf_counter", "time", "monotonic", "process_time")
    return {
        "timeit": loader.StubModule("timeit", {"default_timer": CLOCK.now}),
        "time": loader.StubModule("time", dict({n: CLOCK.now for n in names}, **{n + "_ns": CLOCK.now_ns for n in names})),
    }


class patched_clock:
    """Has the package read CLOCK in native runs."""

    def __init__(self, env):
        import importlib

        from . import timing

        self.module = importlib.import_module("fv3gfs.util._timing")
        self.had = {} if env.symbolic else timing.set_clock(self.module, CLOCK.now)

    def __enter__(self):
        pass

    def __exit__(self, *a):
        for k, v in self.had.items():
            setattr(self.module, k, v)


class Slow:
    """An MPI communicator whose messages take time."""

    KINDS = {"Isend": "Isend", "Issend": "Isend", "Send": "Send", "Ssend": "Send", "Recv": "Recv", "Irecv": None}

    def __init__(self, comm, takes, spent):
        self._comm, self._takes, self._spent = comm, takes, spent

    def __getattr__(self, name):
        f = getattr(self._comm, name)
        if not callable(f):
            return f

        def call(*a, **k):
            got = f(*a, **k)
            if name in self.KINDS:
                self._spend(self.KINDS[name])
            elif name not in ("Get_rank", "Get_size"):
                self._spend("collective")
            if name == "Irecv":
                return SlowRequest(got, self)
            return Slow(got, self._takes, self._spent) if name == "Split" else got

        return call

    def _spend(self, kind):
        if kind is not None:
            d = self._takes["Recv" if kind == "Recv" else "Isend"]
            CLOCK.advance(d)
            self._spent[kind] = self._spent.get(kind, 0.0) + d


class SlowRequest:
    def __init__(self, request, comm):
        self._request, self._comm = request, comm

    def wait(self, *a):
        got = self._request.wait(*a)
        self._comm._spend("Recv")
        return got


def run_timers(env, cfg):
    with patched_clock(env):
        timers(env, cfg)


def timers(env, cfg):
    """The timer of a communicator watches its updates and does not meddle with them."""
    import warnings

    L, R, n, ops = setup(env, cfg)
    U = env.util
    w = env.world(R, capture=cfg.get("capture", "eager"), order=H.order_of(cfg, R))
    CLOCK.world, CLOCK.at = w, {}
    takes = {"Isend": env.real("isend takes", 0, 9), "Recv": env.real("recv takes", 0, 9)}
    done = []

    def idle(c, where):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            c.timer.times, c.timer.hits
        env.check(not seen, "no clock of a communicator runs outside its calls", lambda: f"{where}: {seen[0].message}")

    def refuse(c, r, k):
        """calls that are refused"""
        q = ops[k].qs
        for f in ((lambda: c.halo_update(q[r], 0)) if not isinstance(q, dict) else (lambda: c.vector_halo_update(q["x"][r], q["y"][r], 0)),):
            try:
                f()
            except ValueError:
                continue
            env.fail("an update of no width is refused")

    def program(r):
        mode = cfg["modes"][r % len(cfg["modes"])]

        def f(comm):
            spent = {}
            comm = Slow(comm, takes, spent)
            c, other = H.communicator(env, comm, L), H.communicator(env, comm, L)
            spent.clear()
            began = CLOCK.now()
            if mode == "off":
                c.timer.disable()
            elif mode == "null":
                c.timer = U.NullTimer()
            elif mode == "own":
                c.timer.start("all of it")
            idle_ = (lambda *a: None) if mode == "own" else idle
            reqs = {}
            for act in cfg["scripts"][r % len(cfg["scripts"])]:
                k = int(act[1:])
                if mode == "toggled" and act[0] in "sw":
                    c.timer.enable() if act[0] == "s" else c.timer.disable()
                if act[0] == "s":
                    reqs[k] = ops[k].start(c, r)
                elif act[0] == "w":
                    reqs.pop(k).wait()
                elif act[0] == "r":
                    refuse(c, r, k)
                elif mode == "clocked":
                    with c.timer.clock(act):
                        ops[k].block(c, r)
                else:
                    ops[k].block(c, r)
                idle_(c, act)
            if mode == "own":
                c.timer.stop("all of it")
                idle(c, "at the end")
            hits, times = c.timer.hits, c.timer.times
            env.check(set(hits) == set(times), "counts and times are of the same clocks")
            if mode in ("off", "null"):
                env.check(hits == {} and times == {}, "a timer that is off records nothing", lambda: f"{hits}")
            else:
                env.check(all(v > 0 for v in hits.values()) and all(v >= 0 for v in times.values()), "times are not negative")
            if mode == "own":
                env.check(hits["all of it"] == 1, "a clock of the user's own counts once")
            if mode == "clocked":
                for act in set(cfg["scripts"][r % len(cfg["scripts"])]):
                    if act[0] == "b":
                        env.check(hits.get(act) == 1, "a clock of the user's own counts once", lambda: f"{act}: {hits}")
            if mode in ("on", "own", "clocked") and any(o.spec["kind"] in ("scalar", "vector") for o in ops):
                env.check({"pack", "unpack", "Isend", "Recv"} <= set(hits), "the parts of an update are timed", lambda: f"{hits}")
            for name in ("pack", "unpack"):
                env.check(env.close(times.get(name, 0.0), 0.0), "time spent in messages is not counted as packing", lambda: f"{name}: {times}")
            if mode in ("on", "own", "clocked"):
                for name in ("Isend", "Recv"):
                    env.check(env.close(times.get(name, 0.0), spent.get(name, 0.0)), "time spent in messages is counted as such", lambda: f"{name}: {times} {spent}")
            if mode == "own":
                env.check(env.close(times["all of it"], CLOCK.now() - began), "a clock of the user's own runs on")
            idle(other, "another communicator")
            env.check(other.timer.hits == {} and other.timer.enabled, "the timer of another communicator is not touched", lambda: f"{other.timer.hits}")
            if mode != "null":  # free to be turned off and on, and to be started afresh
                c.timer.disable()
                c.timer.enable()
                for name in list(hits):
                    c.timer.start(name)
                    c.timer.stop(name)
                c.timer.reset()
                env.check(c.timer.hits == {}, "a timer that is reset is empty")
            done.append(r)

        return f

    w.run({r: program(r) for r in range(R)})
    env.check(len(done) == R, "every rank finishes")
    env.check(w.leftover() == 0, "every message sent is received")
    for op in ops:
        if not op.spec.get("what", "").startswith("scatter"):
            op.check()
    env.cover("timers " + cfg["name"])


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


S = dict(kind="scalar", dims=["y", "x"])
S3 = dict(kind="scalar", dims=["z", "y", "x"])
SI = dict(kind="scalar", dims=["y_interface", "x_interface"])
SF = dict(kind="scalar", dims=["x", "y"], dtype="float32")
V = dict(kind="vector", xdims=["y", "x"], ydims=["y", "x"])
VD = dict(kind="vector", xdims=["y_interface", "x"], ydims=["y", "x_interface"])
C = dict(kind="sync", xdims=["y_interface", "x"], ydims=["y", "x_interface"])
C3 = dict(kind="sync", xdims=["z", "y_interface", "x"], ydims=["z", "y", "x_interface"])
GC = dict(kind="gather", what="gather", dims=["y", "x"])
GT = dict(kind="gather", what="gather", dims=["y", "x"], on="tile")
SC = dict(kind="gather", what="scatter", dims=["y", "x"])
ST = dict(kind="gather", what="scatter", dims=["z", "y", "x"], on="tile")
GS = dict(kind="gather", what="gather_state", dims=["y", "x"])
SS = dict(kind="gather", what="scatter_state", dims=["y", "x_interface"])
SST = dict(kind="gather", what="scatter_state", dims=["y", "x"], on="tile")

FWD = ["s0", "s1", "w0", "w1"]
REV = ["s0", "s1", "w1", "w0"]


def configs(tier, prop):
    out = []
    deep = tier == "thorough"

    def add(name, kind, **k):
        out.append(dict(name=name, kind=kind, **k))

    if prop == "C07":
        O = "outstanding"
        add("scalar-scalar", O, L=1, ops=[S, S3], scripts=[FWD, REV])
        add("same-shape-late", O, samep=True, L=1, ops=[S, S], scripts=[REV, REV, FWD], capture="late")
        add("scalar-iface", O, L=1, ops=[SI, S], scripts=[REV], sched="down", capture="late")
        add("scalar-vector", O, L=1, ops=[S, V], scripts=[REV, FWD], capture="late")
        add("vector-scalar-float32", O, L=1, ops=[VD, SF], scripts=[FWD, REV], sched="down")
        add("vector-vector", O, L=1, ops=[V, V], scripts=[REV, FWD])
        add("sync-sync", O, L=1, ops=[C, C3], scripts=[REV, FWD], capture="late")
        add("sync-scalar-vector", O, L=1, ops=[C, S, VD],
            scripts=[["s0", "s1", "s2", "w2", "w0", "w1"], ["s0", "s1", "s2", "w1", "w2", "w0"]], capture="late")
        add("three-scalars", O, samep=True, L=1, ops=[S, SI, S], capture="late",
            scripts=[["s0", "s1", "s2", "w2", "w1", "w0"], ["s0", "s1", "s2", "w0", "w2", "w1"]])
        add("blocking-between", O, samep=True, L=1, ops=[S, S, C], capture="late",
            scripts=[["s0", "b1", "b2", "w0"], ["s0", "b1", "b2", "w0"]])
        add("gather-between", O, samep=True, L=1, ops=[S, GC, S], capture="late",
            scripts=[["s0", "b1", "s2", "w2", "w0"], ["s0", "b1", "s2", "w0", "w2"]])
        add("reused", O, L=1, ops=[S, SF], capture="late", pmax=2, omax=1,
            scripts=[["s0", "w0", "x0", "b1", "x1"]])
        add("reused-vectors", O, L=1, ops=[C, V], capture="late", pmax=2, omax=1, sched="down",
            scripts=[["s0", "s1", "w0", "x0", "w1", "x1"], ["s0", "s1", "w1", "x1", "w0", "x0"]])
        add("chained", O, samep=True, L=1, ops=[S, S, S], capture="late", sched="down",
            scripts=[["s0", "s1", "w0", "s2", "w1", "w2"], ["s0", "s1", "w1", "s2", "w2", "w0"]])
        add("L2-scalar-tile-gather", O, samep=True, L=2, ops=[S, GT, S], capture="late",
            scripts=[["s0", "b1", "s2", "w2", "w0"], ["s0", "b1", "s2", "w0", "w2"]])
        N = 1000 if deep else 300
        add("many", O, samep=True, L=1, ops=[S] * N, capture="late", nmax=2, pmax=1, omax=0, look=[0, 1, N - 1],
            scripts=[[f"s{k}" for k in range(N)] + [f"w{k}" for k in reversed(range(N))]])
        add("many-vectors", O, samep=True, L=1, ops=[V] * (N // 4), capture="late", nmax=2, pmax=1, omax=0, look=[0, 1, N // 4 - 1],
            scripts=[[f"s{k}" for k in range(N // 4)] + [f"w{k}" for k in reversed(range(N // 4))]])
        if deep:
            add("L2-scalar-vector", O, L=2, ops=[SI, V], scripts=[REV, FWD], capture="late")
            add("L2-vector-sync", O, L=2, ops=[VD, C3], scripts=[REV, FWD, REV], capture="late", sched="down")
            add("four", O, L=1, ops=[S, S, V, C], capture="late",
                scripts=[["s0", "s1", "s2", "s3", "w3", "w1", "w0", "w2"], ["s0", "s1", "s2", "s3", "w2", "w0", "w1", "w3"]])
    if prop == "C38":
        O = "timers"
        k = dict(samep=True, L=1, pmax=2, omax=1, nmax=16)
        M = ["on", "off", "null", "own", "clocked", "toggled"]
        SF_ = dict(kind="scalar", dims=["z", "y", "x"], order="F")
        for name, spec in (("scalar", S3), ("vector", VD), ("sync", C3), ("fortran", SF_), ("iface", SI)):
            add(f"{name}-blocking", O, ops=[spec], scripts=[["b0"]], modes=M, **k)
            add(f"{name}-started", O, ops=[spec], scripts=[["s0", "w0"]], modes=M[3:] + M[:3], capture="late", **k)
        add("outstanding", O, ops=[S, V, C], scripts=[["s0", "s1", "s2", "w2", "w0", "w1"], ["s0", "s1", "s2", "w1", "w2", "w0"]], modes=M, **k)
        add("refused", O, ops=[S, V], scripts=[["r0", "s0", "r1", "w0", "b1"]], modes=M, **k)
        add("gathers", O, ops=[S, GC, ST], scripts=[["s0", "b1", "b2", "w0"]], modes=M, **k)
        if deep:
            for m in M:
                add(f"all {m}", O, ops=[S3, VD, C], scripts=[["b0", "s1", "s2", "w2", "w1"]], modes=[m], **k)
            add("L2", O, ops=[SI, C], scripts=[["s0", "b1", "w0"]], modes=M[::-1], **dict(k, L=2))
    if prop == "C08":
        O = "progress"
        k = dict(samep=True, max_models=3)
        for n, x in (("scalar", S), ("vector", VD), ("sync", C), ("iface", SI)):
            add(f"L1-{n}", O, L=1, ops=[x], scripts=[["b0"]], **k)
            add(f"L2-{n}", O, L=2, ops=[x], scripts=[["b0"]], sched="down", **k)
        add("L1-outstanding", O, L=1, ops=[S, V, C], scripts=[["s0", "s1", "s2", "w2", "w0", "w1"]], **k)
        add("L2-outstanding", O, L=2, ops=[S, S, C], scripts=[["s0", "s1", "s2", "w1", "w0", "w2"]], **k)
        add("L1-between", O, L=1, ops=[S, GC, C, SC], scripts=[["s0", "b1", "b2", "b3", "w0"]], **k)
        add("L2-tile", O, L=2, ops=[GT, ST, S], scripts=[["b0", "s2", "b1", "w2"]], sched="down", **k)
        add("L1-states", O, L=1, ops=[GS, SS, GC], scripts=[["b1", "b0", "b2"]], **k)
        add("L2-states", O, L=2, ops=[SST, GS], scripts=[["b0", "b1"]], sched="down", **k)
        add("L3-scalar", O, L=3, ops=[S], scripts=[["b0"]], nmax=8, **k)
        if deep:
            add("L3-vector", O, L=3, ops=[VD], scripts=[["b0"]], **k)
            add("L4-scalar", O, L=4, ops=[S], scripts=[["b0"]], **k)
            add("L3-outstanding", O, L=3, ops=[S, C], scripts=[["s0", "s1", "w1", "w0"]], **k)
            add("L2-all", O, L=2, ops=[S, V, C, GT, ST], scripts=[["s0", "b3", "s1", "b4", "s2", "w2", "w0", "w1"]], **k)
    return out
