"""Recycled transfer buffers (buffer.py)."""
import contextlib
import importlib
import itertools

BOUNDS = {
    "C17": "every history of up to four uses (array, send, receive; two allocators) opened and closed in any nesting, chosen "
    "symbolically, with bodies that end or raise; sizes up to 40 as symbolic integers that may or may not coincide, float64, float32, int64 and int32, contiguous, "
    "sliced, transposed and Fortran-ordered arrays of one to three dimensions",
}
OUTSIDE = {"C17": "what a receive buffer's array holds when the body of its use raises; use from several threads"}
ASSUMPTIONS = ["array contiguity as numpy defines it, compared with numpy on every path's example run"]


def make(env, cfg, k, form):
    """an array of one of the given forms, and its backing array"""
    dt = cfg.get("dtypes", ["float64"])[k % len(cfg.get("dtypes", ["float64"]))]
    n, m = env.int(f"n{k}", 1, 40), env.int(f"m{k}", 1, 40)
    if form == "full":
        a = env.array(f"a{k}", (n, m), dt)
        return a, a
    if form == "cols":  # contiguous only when nothing is cut off
        c = env.int(f"c{k}", 0, 3)
        a = env.array(f"a{k}", (n, m + c), dt)
        return a[:, 0:m], a
    if form == "rows":
        c = env.int(f"c{k}", 0, 3)
        a = env.array(f"a{k}", (n + c, m), dt)
        return a[c:, :], a
    if form == "T":
        a = env.array(f"a{k}", (m, n), dt)
        return a.T, a
    if form == "F":
        a = env.array(f"a{k}", (n, m), dt, "F")
        return a, a
    if form == "rev":
        a = env.array(f"a{k}", (n, m), dt)
        return a[::-1, :], a
    if form == "1d":
        s = env.int(f"s{k}", 1, 2)
        a = env.array(f"a{k}", (n, 2), dt)
        return a[:, 1], a
    if form == "3d":
        a = env.array(f"a{k}", (2, n, m), dt)
        return a[1:2, :, 0:m], a
    raise ValueError(form)


class Use:
    pass


class Interrupted(Exception):
    pass


def contiguous(env, a):
    return a.flags["C_CONTIGUOUS"]


def run_history(env, cfg):
    buf = importlib.import_module("fv3gfs.util.buffer")
    made = [[], []]

    def allocator(i, f):
        def allocate(*a, **k):
            r = f(*a, **k)
            made[i].append(r)
            return r

        return allocate

    allocs = [allocator(0, env.np.empty), allocator(1, env.np.zeros)]
    open_, done = [], 0
    n_uses, n_steps = cfg["uses"], 2 * cfg["uses"]
    arrays = [make(env, cfg, k, cfg["forms"][k % len(cfg["forms"])]) for k in range(n_uses)]
    for step in range(n_steps):
        options = []
        if done < n_uses:
            options.append("open")
        options += [("close", k) for k in range(len(open_))]
        if not options:
            break
        if "script" in cfg:
            act = cfg["script"][step]
            act = ("close", act) if act != "open" else act
        else:
            act = options[0] if len(options) == 1 else env.choice(f"step{step}", options)
        if act == "open":
            u = Use()
            k = done
            done += 1
            kinds = cfg["kinds"][k % len(cfg["kinds"])]
            u.kind = env.choice(f"kind{k}", kinds) if len(kinds) > 1 else kinds[0]
            u.array, u.back = arrays[k]
            u.k = k
            ia = cfg.get("allocs", [0])[k % len(cfg.get("allocs", [0]))]
            al = allocs[ia]
            u.before = env.snapshot(u.array)
            u.backbefore = env.snapshot(u.back)
            if u.kind == "array":
                u.cm = buf.array_buffer(al, u.array.shape, u.array.dtype)
            elif u.kind == "send":
                u.cm = buf.send_buffer(al, u.array)
            else:
                u.cm = buf.recv_buffer(al, u.array)
            u.buf = u.cm.__enter__()
            who = lambda u=u: f"use {u.k} ({u.kind})"  # noqa
            env.check(bool(contiguous(env, u.buf)), "a buffer is contiguous", who)
            env.check(len(u.buf.shape) == len(u.array.shape), "a buffer has the requested shape", who)
            for x, y in zip(u.buf.shape, u.array.shape):
                env.check(x == y, "a buffer has the requested shape", who)
            env.check(u.buf.dtype == u.array.dtype, "a buffer has the requested element type", who)
            u.direct = u.kind != "array" and env.shares(u.buf, u.back)
            if u.kind != "array":
                env.check(u.direct == bool(contiguous(env, u.array)),
                          "an array that is contiguous is used directly, another is not", who)
            if not u.direct:
                env.check(any(env.shares(u.buf, x) for x in made[ia]), "a buffer comes from the requested allocator", who)
            for v in open_:
                env.check(not env.shares(u.buf, v.buf), "a buffer in use is not handed out again", who)
                env.check(not env.shares(u.buf, v.back), "a buffer is not part of an array in use", who)
            if u.kind == "send":
                content(env, u.buf, u.before, "a send buffer carries the array's values", who)
                u.expect = u.before
            elif u.kind == "recv" and u.direct:
                content(env, u.buf, u.before, "a contiguous array receives directly", who)
            if u.kind != "send":
                val = env.array(f"v{k}", u.array.shape, str(u.array.dtype))
                u.expect = env.snapshot(val)
                u.buf[...] = val
            open_.append(u)
        else:
            u = open_.pop(act[1])
            who = lambda u=u: f"use {u.k} ({u.kind})"  # noqa
            content(env, u.buf, u.expect, "a buffer keeps its contents while in use", who)
            if cfg.get("fails") and env.boolean(f"fails{step}"):  # the body raises
                try:
                    swallowed = u.cm.__exit__(Interrupted, Interrupted(), None)
                except Interrupted:
                    swallowed = False
                env.check(not swallowed, "an exception of the body reaches the caller", who)
                if u.kind != "recv":
                    content(env, u.array, u.before, "sending leaves the array as it was", who)
                elif not u.direct:
                    outside(env, u, cfg["forms"][u.k % len(cfg["forms"])])
                continue
            leave(u.cm)
            if u.kind == "recv":
                content(env, u.array, u.expect, "what was received ends in the array", who)
                if not u.direct:
                    outside(env, u, cfg["forms"][u.k % len(cfg["forms"])])
            else:
                content(env, u.array, u.before, "sending leaves the array as it was", who)
    env.cover("history")


def leave(cm):
    cm.__exit__(None, None, None)


def content(env, a, ref, label, who):
    env.check_forall([(f"p{i}", 0, s) for i, s in enumerate(a.shape)],
                     lambda *p: env.same(env.value(a, *p), ref(*p)), label, who)


def outside(env, u, form):
    """elements of the backing array that are not part of the array"""
    if form == "cols":
        m = u.array.shape[1]
        part = lambda p: p[1] < m  # noqa
    elif form == "1d":
        part = lambda p: p[1] == 1  # noqa
    else:
        return

    def body(*p):
        if part(p):
            return True
        return env.same(env.value(u.back, *p), u.backbefore(*p))

    env.check_forall([(f"p{i}", 0, s) for i, s in enumerate(u.back.shape)], body,
                     "receiving changes only the array", lambda: f"use {u.k}")


def run_late(env, cfg):
    """The array changes after the buffer was filled; the buffer after it was closed."""
    buf = importlib.import_module("fv3gfs.util.buffer")
    a, back = make(env, cfg, 0, cfg["forms"][0])
    before = env.snapshot(a)
    with buf.send_buffer(env.np.empty, a) as b:
        direct = env.shares(b, back)
        if not direct:
            back[...] = 3.0
            content(env, b, before, "a send buffer does not follow the array", lambda: "")
    with buf.recv_buffer(env.np.empty, a) as b:
        b[...] = 4.0
    with buf.array_buffer(env.np.empty, a.shape, a.dtype) as c:
        c[...] = 9.0
    content(env, a, lambda *p: 4.0, "an array does not follow a returned buffer", lambda: "")
    env.cover("late")


def run_none(env, cfg):
    buf = importlib.import_module("fv3gfs.util.buffer")
    for f in (buf.send_buffer, buf.recv_buffer):
        with f(env.np.empty, None) as b:
            env.check(b is None, "no array gives no buffer")
    env.cover("none")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []
    deep = tier != "quick"

    def add(name, kind, **k):
        k.setdefault("max_models", 16)
        out.append(dict(name=name, kind=kind, **k))

    A, S, R = "array", "send", "recv"
    forms = ["full", "cols", "rows", "T", "F", "rev", "1d", "3d"]
    for f in forms:
        add("one-" + f, "history", uses=1, forms=[f], kinds=[[A, S, R]], dtypes=["float32"])
        add("late-" + f, "late", forms=[f])
    H = "history"
    for name, fs in [("cols", ["cols"]), ("T", ["T"]), ("F-T", ["F", "T"]), ("1d", ["1d"])]:
        add(f"two-{name}", H, uses=2, forms=fs, kinds=[[A, S, R]], max_models=40)
    add("two-types", H, uses=2, forms=["T"], kinds=[[A, S, R]], dtypes=["float64", "float32"], max_models=40)
    for t2 in (["int32", "float32"], ["int64", "float64"], ["float64", "int64"]):
        add("two-" + "-".join(t2), H, uses=2, forms=["T"], kinds=[[A, S, R]], dtypes=t2, max_models=40)
    add("two-allocs", H, uses=2, forms=["T"], kinds=[[A, S, R]], allocs=[0, 1], max_models=40)
    for ks in itertools.product([A, S, R], repeat=3):
        if deep or ks in [(A, A, A), (S, S, R), (R, S, A), (S, R, S), (R, R, R), (S, S, S)]:
            add("three-" + "-".join(ks), H, uses=3, forms=["T"], kinds=[[k] for k in ks], max_models=24)
    add("three-mixed", H, uses=3, forms=["T", "cols", "F"], kinds=[[S], [R], [S]], dtypes=["float64", "int32", "float64"])
    # reuse after two are returned, and nested use of the returned ones
    add("four-reuse", H, uses=4, forms=["T"], kinds=[[S], [R], [S], [R]], script=["open", "open", 0, 0, "open", "open", 0, 0])
    add("four-reuse-2", H, uses=4, forms=["F"], kinds=[[A], [S], [R], [S]], script=["open", "open", 1, "open", "open", 0, 0, 0])
    add("fails-two", H, uses=2, forms=["T"], kinds=[[A, S, R]], fails=True, max_models=24)
    add("fails-three", H, uses=3, forms=["T"], kinds=[[R], [S], [R]], fails=True, script=["open", 0, "open", "open", 1, 0], max_models=24)
    add("fails-three-array", H, uses=3, forms=["F"], kinds=[[S], [A], [R]], fails=True, script=["open", "open", 0, "open", 0, 0], max_models=24)
    add("none", "none")
    if deep:
        add("four-send", H, uses=4, forms=["T"], kinds=[[S]], max_models=24)
        add("four-recv", H, uses=4, forms=["T"], kinds=[[R]], max_models=24)
        add("four-mixed", H, uses=4, forms=["T", "F"], kinds=[[S], [R]], max_models=24)
        add("three-any", H, uses=3, forms=["T"], kinds=[[A, S, R]], max_models=40)
        add("three-types", H, uses=3, forms=["T"], kinds=[[A, S, R]], dtypes=["float64", "float32"], max_models=40)
    return out
