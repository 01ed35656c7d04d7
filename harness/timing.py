"""Timers (_timing.py) under an arbitrary clock."""
import importlib
import sys
import warnings

BOUNDS = {
    "C18": "every history of up to four operations (five of the state-changing ones; five and seven in the thorough tier) out of start, stop, clock, read, reset, enable and "
    "disable on two names (ordinary, empty, nearly equal and long ones), clock bodies that raise included, three operations on each of two timers, one history of some 90 operations (900 thorough), with an arbitrary non-decreasing clock whose readings are symbolic real numbers",
}
OUTSIDE = {"C18": "rounding of floating-point sums; threads"}
ASSUMPTIONS = ["the clock does not go back, and reads are counted in exact arithmetic (replays compare to 1e-6)"]

CLOCK = {}


def now():
    return CLOCK["t"][CLOCK["i"]]


def now_ns():
    return now() * 10**9


def stubs(ctx, cfg):
    from symx import loader

    names = ("perf_counter", "time", "monotonic", "process_time")
    ns = {n + "_ns": now_ns for n in names}
    return {
        "timeit": loader.StubModule("timeit", {"default_timer": now}),
        "time": loader.StubModule("time", dict({n: now for n in names}, **ns)),
    }


NAMES_OF_CLOCKS = ("perf_counter", "time", "monotonic", "process_time")


def set_clock(module, now):
    """Has a module read the clock `now`, however it got hold of the real ones; returns what it had."""
    import time
    import timeit
    import types

    def ns():
        return now() * 10**9

    clocks = {getattr(time, n): now for n in NAMES_OF_CLOCKS}
    clocks.update({getattr(time, n + "_ns"): ns for n in NAMES_OF_CLOCKS})
    clocks[timeit.default_timer] = now
    had = {}
    for k, v in list(vars(module).items()):
        if v is time or v is timeit:
            stand = types.SimpleNamespace(**vars(v))
            for n, f in vars(v).items():
                if type(f).__hash__ and f in clocks:
                    setattr(stand, n, clocks[f])
        elif callable(v) and type(v).__hash__ and v in clocks:
            stand = clocks[v]
        else:
            continue
        had[k] = v
        setattr(module, k, stand)
    return had


def timer_module(env):
    m = importlib.import_module("fv3gfs.util._timing")
    if not env.symbolic:
        set_clock(m, now)
    return m


class Model:
    def __init__(self, null):
        self.running, self.acc, self.hits = {}, {}, {}
        self.enabled, self.null = not null, null

    def start(self, n):
        if not self.enabled:
            return True
        if n in self.running:
            return False
        self.running[n] = now()
        return True

    def stop(self, n):
        if not self.enabled:
            return True
        if n not in self.running:
            return None
        self.acc[n] = self.acc.get(n, 0) + (now() - self.running.pop(n))
        self.hits[n] = self.hits.get(n, 0) + 1
        return True


def attempt(f, *a):
    try:
        f(*a)
        return True
    except (ValueError, RuntimeError, KeyError, NotImplementedError):
        return False


class Interrupted(Exception):
    pass


def agree(env, t, m, spoil=False):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        times, hits = t.times, t.hits
    env.check(set(times) == set(m.acc), "times are reported for exactly the names with completed pairs",
              lambda: f"{set(times)} not {set(m.acc)}")
    env.check(set(hits) == set(m.hits), "hits are reported for exactly the names with completed pairs")
    for n in m.acc:
        env.check(env.close(times[n], m.acc[n]), "the time of a name is the sum over its completed pairs", lambda: n)
        env.check(hits[n] == m.hits[n], "the hits of a name are its completed pairs", lambda: n)
    env.check(bool(t.enabled) == m.enabled, "enabled as set")
    if spoil:
        for d in (times, hits):
            try:
                d["a"] = 99
                d.pop("b", None)
            except TypeError:
                pass


OPS = ["start a", "stop a", "start b", "stop b", "clock a", "fail a", "read", "reset", "enable", "disable"]


def run(env, cfg):
    mod = timer_module(env)
    null = cfg.get("null", False)
    make = mod.NullTimer if null else mod.Timer
    pairs = [(make(), Model(null)) for _ in range(cfg.get("timers", 1))]
    called = env.choice("names", cfg.get("names", NAMES[:1]))
    n = cfg["steps"]
    ts = [env.real("t0", -1000, 1000)]
    for k in range(2 * n + 1 + 2 * len(pairs)):
        ts.append(ts[-1] + env.real(f"dt{k}", 0, 1000))
    CLOCK["t"], CLOCK["i"] = ts, 0
    for k in range(n):
        op = cfg["first"][k] if k < len(cfg.get("first", [])) else env.choice(f"op{k}", cfg.get("ops", OPS))
        CLOCK["i"] += 1
        which, _, what = op.rpartition(":")
        t, m = pairs[int(which or 0)]
        word, _, name = what.partition(" ")
        name = called["ab".index(name)] if name else name
        if word == "start":
            want = m.start(name)
            env.check(attempt(t.start, name) == want, "starting a running clock is refused, and no other", lambda: op)
        elif word == "stop":
            want = m.stop(name)
            got = attempt(t.stop, name)
            env.check(want is None or got == want, "a running clock stops", lambda: op)
        elif word in ("clock", "fail"):  # a body that ends, or one that raises
            want = m.start(name)
            if want is False:
                def use():
                    with t.clock(name):
                        pass

                env.check(not attempt(use), "starting a running clock is refused, and no other", lambda: op)
            else:
                try:
                    with t.clock(name):
                        CLOCK["i"] += 1
                        if word == "fail":
                            raise Interrupted
                except Interrupted:
                    pass
                m.stop(name)
        elif word == "read":
            agree(env, t, m, spoil=True)
        elif word == "reset":
            t.reset()
            m.acc, m.hits = {}, {}
        elif word == "enable":
            if null:
                env.check(not attempt(t.enable), "a null timer cannot be enabled")
            else:
                t.enable()
                m.enabled = True
        else:
            want = not m.running
            env.check(attempt(t.disable) == want, "disabling while a clock runs is refused, and only then")
            if want:
                m.enabled = False
    for t, m in pairs:
        agree(env, t, m)
        # what still runs is counted once stopped
        for name in list(m.running):
            CLOCK["i"] += 1
            t.stop(name)
            m.stop(name)
    for t, m in pairs:
        agree(env, t, m)
    env.cover("history")


def long_history(n):
    """Many pairs of two names, interleaved, with resets and times off."""
    ops = []
    for k in range(n):
        ops += ["start a", "clock b", "stop a"] if k % 3 else ["clock a", "start b", "clock a", "stop b"]
        if k % 7 == 6:
            ops += ["disable", "start a", "clock b", "enable", "read"]
        if k == n // 3:
            ops += ["reset"]
    return ops


NAMES = [("a", "b"), ("", " "), ("a", "A"), ("halo", "halo_update"), ("0", "00"), ("times", "_clock_starts"), ("\u00e9" * 40, "\u00e9" * 41)]


def configs(tier, prop):
    out = []
    deep = tier != "quick"
    n = 4 if not deep else 5
    for op in OPS:
        out.append(dict(name="from " + op, steps=n, first=[op], max_models=60, max_paths=200000))
    for op in ("start a", "clock a"):
        out.append(dict(name="five from " + op, steps=5, first=[op], max_models=40, max_paths=200000,
                        ops=["start a", "stop a", "start b", "stop b", "reset", "disable"]))
    out.append(dict(name="null", steps=3, null=True, max_models=40))
    out.append(dict(name="one name", steps=5, ops=["start a", "stop a", "clock a", "reset", "read"], first=["start a"],
                    max_models=40, max_paths=200000))
    few = ["start a", "stop a", "start b", "stop b", "clock a", "fail b", "reset"]
    out.append(dict(name="names", steps=3, names=NAMES, ops=few, max_models=60, max_paths=200000))
    two = ["start a", "stop a", "fail a", "reset", "disable", "enable"]
    out.append(dict(name="two timers", steps=4, timers=2, first=["0:start a"], ops=["0:" + o for o in two] + ["1:" + o for o in two], max_models=60, max_paths=200000))
    out.append(dict(name="two null timers", steps=2, timers=2, null=True, ops=["0:" + o for o in two] + ["1:" + o for o in two], max_models=10))
    ops = long_history(20 if not deep else 200)
    out.append(dict(name="long", steps=len(ops), first=ops, max_models=2))
    if deep:
        for op in OPS[:4]:
            out.append(dict(name="seven from " + op, steps=7, first=[op], ops=OPS[:4] + ["reset", "disable"],
                            max_models=40, max_paths=500000))
    return out
