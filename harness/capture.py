"""Capturing what is written to a stream (_capture_stream.py)."""
import os
import shutil
import tempfile

BOUNDS = {
    "C32": "every history of up to four operations (five in the thorough tier) before, during and after captures: writing through the stream, writing to its descriptor, flushing, entering (nested up to two "
    "deep, also of two streams), leaving normally and by an exception; each piece of data of 1 to 20000 bytes (symbolic), so that it may or may not overrun the stream's buffer",
}
OUTSIDE = {
    "C32": "other processes and threads writing to the stream; order between data written through the stream and data written to the descriptor; the C library's own buffers; "
    "captures left in another order than they were entered",
}
ASSUMPTIONS = ["descriptors, their duplicates and buffered streams behave as POSIX and Python's io say (stand-in in symx/oslib.py; real descriptors of scratch files in replays)"]


def stubs(ctx, cfg):
    from symx import oslib

    k = oslib.Kernel()
    cfg["_kernel"] = k
    return {"os": k.os(), "tempfile": k.tempfile(), "io": k.io()}


class Symbolic:
    def __init__(self, env, cfg):
        from symx import oslib

        self.lib, self.k = oslib, cfg["_kernel"]
        self.files = []

    def stream(self, kind):
        f = self.lib.File(f"file{len(self.files)}")
        o = self.lib.Open(f)
        self.files.append(f)
        return self.lib.Stream(self.k, self.k.new(o), buffered=kind != "raw")

    def data(self, name, n):
        return self.lib.Chunk(name, n)

    def put(self, stream, kind, data):
        stream.write(data)

    def raw(self, stream, data):
        self.k.write(stream.fileno(), data)

    def table(self):
        return {fd: o.file.name for fd, o in self.k.fds.items()}

    def names(self, value):
        return self.lib.pieces(value.chunks)

    def captured(self, out):
        return self.names(out.getvalue())

    def content(self, i):
        return self.lib.pieces(self.files[i].chunks)

    def done(self):
        pass


class Native:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif")
        self.made = []
        self.known = {}

    def stream(self, kind):
        p = os.path.join(self.dir, f"file{len(self.made)}")
        s = {"text": lambda: open(p, "w"), "line": lambda: open(p, "w", buffering=1), "binary": lambda: open(p, "wb"), "raw": lambda: open(p, "wb", buffering=0)}[kind]()
        self.made.append((p, s))
        return s

    def data(self, name, n):
        # every piece has a letter of its own, some begin or end with bytes that
        # text processing treats in a special way
        c, n = chr(65 + len(self.known)), int(n)
        whole = ["", "\n", "", "\r\n", " \t", "\x00"][len(self.known) % 6]
        begin = ["", "", "\n\n", "", "\x1a"][len(self.known) % 5]
        piece = c * n if n < 8 else begin + c * (n - len(begin) - len(whole)) + whole
        self.known[piece] = name
        return piece

    def put(self, stream, kind, data):
        stream.write(data if kind in ("text", "line") else data.encode())

    def raw(self, stream, data):
        os.write(stream.fileno(), data.encode())

    def table(self):
        t = {}
        for fd in range(256):
            try:
                st = os.fstat(fd)
            except OSError:
                continue
            t[fd] = (st.st_dev, st.st_ino)
        return t

    def names(self, value):
        out, i = [], 0
        value = value.decode()
        while i < len(value):
            piece = max((p for p in self.known if value.startswith(p, i)), key=len, default=None)
            if piece is None:
                # up to where the next whole piece starts
                j = min((value.find(p, i) for p in self.known if value.find(p, i) >= 0), default=len(value))
                out.append(f"unknown {value[i:i + 3]!r}... of {j - i} bytes")
                i = j
                continue
            out.append(self.known[piece])
            i += len(piece)
        return out

    def captured(self, out):
        return self.names(out.getvalue())

    def content(self, i):
        with open(self.made[i][0], "rb") as f:
            return self.names(f.read())

    def done(self):
        for _, s in self.made:
            try:
                s.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Boom(Exception):
    pass


def run_history(env, cfg):
    sys_ = Symbolic(env, cfg) if env.symbolic else Native()
    try:
        history(env, cfg, sys_)
    finally:
        sys_.done()


def history(env, cfg, w):
    kinds = cfg["streams"]
    streams = [w.stream(k) for k in kinds]
    before = w.table()
    fds = [s.fileno() for s in streams]
    stack = []  # [stream, manager, buffer, what it must get]
    want = [{"s": [], "d": []} for _ in kinds]  # what the files must get, by level
    n = 0

    def target(i):
        for e in reversed(stack):
            if e[0] == i:
                return e[3]
        return want[i]

    def compare(got, expected, label, what):
        for level in "sd":
            have = [x for x in got if x.split()[-1].startswith(level)]
            env.check(have == expected[level], label, lambda: f"{what}: {got}, not {expected} after {steps}")
        env.check(len(got) == len(expected["s"]) + len(expected["d"]), label, lambda: f"{what}: {got}")

    def leave(exc=None):
        i, m, buf, exp = stack.pop()
        if exc is None:
            r = m.__exit__(None, None, None)
        else:
            try:
                r = m.__exit__(type(exc), exc, None)
            except Boom as e:
                env.check(e is exc, "an exception leaves the capture unchanged")
                r = False
        env.check(not r, "an exception is not swallowed")
        compare(w.captured(buf), exp, "the captured buffer holds exactly what was written during the capture", f"stream {i}")
        env.check(streams[i].fileno() == fds[i] and not streams[i].closed, "the stream keeps its descriptor")
        if not stack:
            now = w.table()
            env.check(now == before, "after the capture every descriptor is what it was before, and none is left open", lambda: f"{before} then {now} after {steps}")

    steps = []
    todo = cfg.get("script")
    count = len(todo) if todo else cfg["steps"]
    for k in range(count):
        ops = []
        for i in range(len(kinds)):
            ops += [("write", i), ("fd write", i)]
            if kinds[i] != "raw":
                ops.append(("flush", i))
            if len(stack) < cfg.get("depth", 2):
                ops.append(("enter", i))
        if stack:
            ops += [("leave", 0), ("raise", 0)]
        op, i = tuple(todo[k]) if todo else env.choice(f"op{k}", ops)
        steps.append((op, i))
        if op == "write":
            d = w.data(f"s{n}", env.int(f"n{n}", 1, 20000))
            target(i)["s"].append(f"s{n}")
            w.put(streams[i], kinds[i], d)
            n += 1
        elif op == "fd write":
            d = w.data(f"d{n}", env.int(f"n{n}", 1, 20000))
            target(i)["d"].append(f"d{n}")
            w.raw(streams[i], d)
            n += 1
        elif op == "flush":
            streams[i].flush()
        elif op == "enter":
            m = env.util.capture_stream(streams[i])
            buf = m.__enter__()
            stack.append([i, m, buf, {"s": [], "d": []}])
        else:
            leave(Boom("x") if op == "raise" else None)
    while stack:
        leave()
    # the streams go on writing where they did
    for i, s in enumerate(streams):
        want[i]["s"].append(f"s{n}")
        w.put(s, kinds[i], w.data(f"s{n}", env.int(f"last{i}", 1, 20)))
        n += 1
        want[i]["d"].append(f"d{n}")
        s.flush()
        w.raw(s, w.data(f"d{n}", env.int(f"lastd{i}", 1, 20)))
        n += 1
        compare(w.content(i), want[i], "outside captures everything goes where it went before", f"stream {i}")
    env.cover("history")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []

    def add(name, **k):
        k.setdefault("max_models", 40)
        k.setdefault("max_paths", 200000)
        out.append(dict(name=name, kind="history", **k))

    n = 4 if tier == "quick" else 5
    for kind in ("text", "line", "binary", "raw"):
        add(f"{kind} stream", streams=[kind], steps=n if kind != "raw" or n > 4 else 5)
        W, D, E, L, X = ("write", 0), ("fd write", 0), ("enter", 0), ("leave", 0), ("raise", 0)
        add(f"{kind} nested", streams=[kind], script=[W, E, D, W, E, W, D, L, W, D, X, W])
        add(f"{kind} again and again", streams=[kind], script=[E, W, D, L, W, E, W, L, E, D, X, D, E, W, L], max_models=20)
    A, B = [("enter", 0), ("write", 0), ("fd write", 1), ("enter", 1), ("write", 1), ("fd write", 0)], [("leave", 0), ("write", 1), ("raise", 0)]
    add("two streams nested", streams=["text", "binary"], script=A + B)
    add("two streams", streams=["text", "raw"], steps=3)
    return out
