"""The mock communicator (testing/dummy_comm.py)."""
import itertools

BOUNDS = {
    "C26": "histories of up to four messages and changes between any chosen ranks (seven in scripted histories), up to three collectives (four in the thorough tier) in any order, one to three ranks; "
    "arrays of symbolic length 1..6 with arbitrary contents, float64 and int32, one and two dimensions",
}
OUTSIDE = {
    "C26": "Split; requests waited for in another order than they were posted; broadcasts and scatters from roots other than rank 0 (refused); ranks run in an order the mock does not support "
    "(receivers before senders are refused); message shapes that differ between sender and receiver",
}
ASSUMPTIONS = []


# in "rankwise" order every rank runs through all operations, so gathers overlap
GATHERS = {"lockstep": "gather moves the data of rank r to row r", "rankwise": "overlapping gathers move the data of rank r to row r"}
EARLY = ["gathering before every rank called is an error", "gathering again before every rank called again is an error"]


def comms(env, R):
    import importlib

    D = importlib.import_module("fv3gfs.util.testing").DummyComm
    box = {}
    out = [D(r, R, box) for r in range(R)]
    for r, c in enumerate(out):
        env.check(c.Get_rank() == r and c.Get_size() == R, "rank and size as given")
    return out


def same_content(env, a, ref, label, who=None):
    env.check_forall([(f"p{i}", 0, s) for i, s in enumerate(a.shape)], lambda *p: env.same(env.value(a, *p), ref(*p)), label, who)


def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        if type(e).__name__ in ("Unsupported", "PathAbort", "Violated", "Budget"):
            raise
        return True
    return False


def run_messages(env, cfg):
    R = cfg["ranks"]
    cs = comms(env, R)
    shape = (env.int("n", 1, 6),) + ((2,) if cfg.get("two") else ())
    queues, sent, out = {}, [], []
    steps = cfg.get("script")
    for k in range(len(steps) if steps else cfg["steps"]):
        if steps:
            op = tuple(steps[k])
        else:
            op = env.choice(f"op{k}", [tuple(o) for o in cfg["ops"]])
        word = op[0]
        who = lambda: f"step {k}: {op}"  # noqa
        if word in ("send", "isend"):
            a = env.array(f"m{k}", shape, cfg.get("dtype", "float64"))
            before = env.snapshot(a)
            if word == "send":
                cs[op[1]].Send(a, dest=op[2])
            else:
                cs[op[1]].Isend(a, dest=op[2], tag=k).wait()
            same_content(env, a, before, "sending leaves the data as it was", who)
            queues.setdefault(op[1:], []).append(before)
            sent.append(a)
        elif word in ("recv", "irecv"):
            b = env.array(f"r{k}", shape, cfg.get("dtype", "float64"))
            before = env.snapshot(b)

            def receive():
                if word == "recv":
                    cs[op[2]].Recv(b, source=op[1])
                else:
                    req = cs[op[2]].Irecv(b, source=op[1], tag=k)
                    same_content(env, b, before, "a receive is complete only after waiting", who)
                    req.wait()

            q = queues.get(op[1:], [])
            if q:
                ref = q.pop(0)
                receive()
                same_content(env, b, ref, "messages arrive unchanged, in order per sender and receiver", who)
                out.append((b, ref))
            else:
                env.check(refused(receive), "receiving what was not sent is an error", who)
                same_content(env, b, before, "a refused receive changes nothing", who)
        elif word == "change":
            for a in sent:
                a[...] = 7
        elif word == "change received":
            for b, _ in out:
                b[...] = 9
            out = []
        elif word == "bad send":
            a = env.array(f"m{k}", (shape[0], 2))[:, 0:1]
            env.assume(shape[0] > 1)
            env.check(refused(cs[op[1]].Send, a, dest=op[2]), "data that is not contiguous is refused", who)
    # what is left arrives too
    for (i, j), q in queues.items():
        for ref in q:
            b = env.np.zeros(shape, dtype=cfg.get("dtype", "float64"))
            cs[j].Recv(b, source=i)
            same_content(env, b, ref, "messages arrive unchanged, in order per sender and receiver")
    for b, ref in out:
        same_content(env, b, ref, "later messages and changes leave received data alone")
    env.cover("history")


def run_collect(env, cfg):
    R = cfg["ranks"]
    cs = comms(env, R)
    n = env.int("n", 1, 6)
    ops = [env.choice(f"op{k}", cfg["ops"]) for k in range(cfg["steps"])]
    root = cfg.get("root", 0)
    prog = []  # per operation: function of the rank, and the checks
    late = []
    for k, op in enumerate(ops):
        if op == "bcast":
            value = (env.real(f"v{k}"), "x%d" % k)

            def call(r, value=value, k=k):
                got = cs[r].bcast(value if r == 0 else None, **({} if k % 2 else {"root": 0}))
                env.check(got is not None and got[1] == value[1] and bool(got[0] == value[0]), "a broadcast reaches every rank",
                          lambda: f"operation {k} rank {r}")

        elif op == "scatter":
            a = env.array(f"s{k}", (R, n))
            ref = env.snapshot(a)

            def call(r, a=a, ref=ref, k=k):
                b = env.array(f"b{k}_{r}", (n,))
                cs[r].Scatter(a if r == 0 else None, b, **({} if k % 2 else {"root": 0}))
                same_content(env, b, lambda p: ref(r, p), "scatter moves row r to rank r", lambda: f"operation {k} rank {r}")
                if r == 0:
                    same_content(env, a, ref, "scatter leaves the data sent as it was")
                    if cfg.get("change"):
                        a[...] = -1

        else:
            parts = [env.array(f"g{k}_{r}", (n,)) for r in range(R)]
            refs = [env.snapshot(p) for p in parts]

            def call(r, parts=parts, refs=refs, k=k):
                if r != root:
                    cs[r].Gather(parts[r], None, root=root)
                    if cfg.get("change"):
                        parts[r][...] = -1
                    return
                b = env.array(f"c{k}", (R, n))
                cs[root].Gather(parts[root], b, root=root)
                for i in range(R):
                    same_content(env, b[i], refs[i], GATHERS[cfg["order"]], lambda: f"operation {k} row {i}")

            call.last = True
        prog.append(call)
    last = [r for r in range(R) if r != root] + [root]
    if cfg["order"] == "lockstep":
        for call in prog:
            for r in (last if hasattr(call, "last") else range(R)):
                call(r)
    else:
        for r in last if "gather" in ops else range(R):
            for call in prog:
                call(r)
    env.cover("collectives")


def run_early(env, cfg):
    """The root of a gather comes too early: an error, and the gather can be completed."""
    R, n = cfg["ranks"], env.int("n", 1, 6)
    cs = comms(env, R)
    parts = [env.array(f"g{r}", (n,)) for r in range(R)]
    refs = [env.snapshot(p) for p in parts]
    b = env.array("c", (R, n))
    before = env.snapshot(b)
    if cfg.get("second"):
        for r in list(range(1, R)) + [0]:
            cs[r].Gather(parts[r] * 2.0, b if r == 0 else None, root=0)
        before = env.snapshot(b)
    called = set()
    for r in range(1, R):
        if env.boolean(f"called{r}"):
            cs[r].Gather(parts[r], None, root=0)
            called.add(r)
    if len(called) < R - 1:
        env.check(refused(cs[0].Gather, parts[0], b, root=0), EARLY[bool(cfg.get("second"))])
        same_content(env, b, before, "a refused gather changes nothing")
    for r in set(range(1, R)) - called:
        cs[r].Gather(parts[r], None, root=0)
    cs[0].Gather(parts[0], b, root=0)
    for i in range(R):
        same_content(env, b[i], refs[i], "gather moves the data of rank r to row r")
    for name, args in (("bcast", (None,)), ("Scatter", (None, env.np.zeros((n,))))):
        if R > 1:
            env.check(refused(getattr(cs[1], name), *args, root=0), "receiving what was not sent is an error", name)
    for q in range(1, R):
        for r in range(R):
            env.check(refused(cs[r].bcast, 1.0 if r == q else None, root=q), "broadcasts and scatters from other ranks than rank 0 are refused", lambda: f"root {q} rank {r}")
            c = env.array(f"d{q}_{r}", (n,))
            ref = env.snapshot(c)
            env.check(refused(cs[r].Scatter, b if r == q else None, c, root=q), "broadcasts and scatters from other ranks than rank 0 are refused", lambda: f"root {q} rank {r}")
            same_content(env, c, ref, "a refused scatter changes nothing")
    env.cover("early")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []
    deep = tier != "quick"

    def add(name, kind, **k):
        k.setdefault("max_models", 24)
        k.setdefault("max_paths", 200000)
        out.append(dict(name=name, kind=kind, **k))

    two = [("send", 0, 1), ("recv", 0, 1), ("send", 1, 0), ("recv", 1, 0), ("change",)]
    three = [("send", 0, 1), ("isend", 2, 1), ("irecv", 0, 1), ("recv", 2, 1)]
    selfs = [("send", 0, 0), ("irecv", 0, 0), ("change",), ("change received",)]
    add("two ranks", "messages", ranks=2, steps=4, ops=two)
    add("three ranks", "messages", ranks=3, steps=4, ops=three, dtype="int32")
    add("to oneself", "messages", ranks=1, steps=4, ops=selfs, two=True)
    S, R = ("send", 0, 1), ("recv", 0, 1)
    add("three in a row", "messages", ranks=2, script=[S, S, S, ("change",), R, R, R])
    add("alternating", "messages", ranks=2, script=[S, ("isend", 0, 1), R, S, R, ("change received",), R], two=True)
    add("not contiguous", "messages", ranks=2, script=[("bad send", 0, 1), S, R])
    for r in (1, 2, 3):
        for order in ("lockstep", "rankwise"):
            add(f"bcast scatter {r} {order}", "collect", ranks=r, steps=3, ops=["bcast", "scatter"], order=order, change=order == "lockstep")
            add(f"gather {r} {order}", "collect", ranks=r, steps=2, ops=["gather"], order=order, change=True)
        add(f"mixed {r}", "collect", ranks=r, steps=3 if not deep else 4, ops=["bcast", "scatter", "gather"], order="lockstep", change=True)
        if r > 1:
            add(f"gather at {r - 1}", "collect", ranks=r, steps=3, ops=["bcast", "scatter", "gather"], order="lockstep", root=r - 1, change=True)
        add(f"early {r}", "early", ranks=r)
        add(f"early second {r}", "early", ranks=r, second=True)
    if deep:
        add("two ranks 5", "messages", ranks=2, steps=5, ops=two)
        add("three ranks 5", "messages", ranks=3, steps=5, ops=three + [("change",)])
    return out
