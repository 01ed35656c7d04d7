"""Descriptors, files and buffered streams: stand-ins for os, tempfile and io.

What is written is a Chunk of symbolic length and unknown content; a file is a
sequence of chunks, a descriptor refers to an open file with a position that
duplicated descriptors share, as in POSIX.
"""
import io as _io
import os as _os
import types

from . import core
from .core import Unsupported

BUFFER = 8192


class Chunk:
    """n bytes of a piece of data, from offset lo; the piece has `whole` bytes."""

    def __init__(self, name, n, lo=0, whole=None):
        self.name, self.n, self.lo, self.whole = name, n, lo, n if whole is None else whole

    def split(self, n):
        return Chunk(self.name, n, self.lo, self.whole), Chunk(self.name, self.n - n, self.lo + n, self.whole)

    def __repr__(self):
        return self.name


def pieces(chunks):
    """Names of the pieces of data the chunks are, parts put together."""
    out = []
    for c in chunks:
        if out and out[-1].name == c.name and bool(out[-1].lo + out[-1].n == c.lo):
            last = out.pop()
            c = Chunk(c.name, last.n + c.n, last.lo, c.whole)
        out.append(c)
    return [c.name if bool(core.And(c.lo == 0, c.n == c.whole)) else "part of " + c.name for c in out]


class Data:
    """Bytes: a sequence of chunks."""

    def __init__(self, chunks=()):
        self.chunks = list(chunks)

    @staticmethod
    def of(x):
        if isinstance(x, Data):
            return x
        if isinstance(x, Chunk):
            return Data([x])
        if isinstance(x, (bytes, str, bytearray)):
            return Data([Chunk(repr(x), len(x))] if len(x) else [])
        raise TypeError(f"a bytes-like object is required, not {type(x).__name__}")

    def __symlen__(self):
        return sum((c.n for c in self.chunks), 0)

    def __len__(self):
        raise Unsupported("length of unknown data")

    def __bool__(self):
        return bool(self.chunks)  # chunks are not empty

    def __add__(self, o):
        return Data(self.chunks + Data.of(o).chunks)

    def decode(self, *a):
        return self

    def encode(self, *a):
        return self

    def __repr__(self):
        return f"Data({self.chunks})"


class File:
    def __init__(self, name):
        self.name, self.chunks = name, []


class Open:
    """An open file description."""

    def __init__(self, file, append=False):
        self.file, self.pos, self.append = file, 0, append

    def write(self, data):
        if self.append:
            self.pos = len(self.file.chunks)
        if self.pos != len(self.file.chunks) and data.chunks:
            raise Unsupported("data is overwritten")
        self.file.chunks.extend(data.chunks)
        self.pos = len(self.file.chunks)

    def read(self, n=-1):
        if n is None or (isinstance(n, int) and n < 0):
            d = Data(self.file.chunks[self.pos:])
            self.pos = len(self.file.chunks)
            return d
        got = []
        while self.pos < len(self.file.chunks) and bool(n > 0):
            c = self.file.chunks[self.pos]
            if not bool(c.n <= n):
                self.file.chunks[self.pos:self.pos + 1] = c.split(n)
                c = self.file.chunks[self.pos]
            got.append(c)
            n = n - c.n
            self.pos += 1
        return Data(got)

    def seek(self, off, whence=0):
        if off != 0 or whence not in (0, 2):
            raise Unsupported("seek to a position")
        self.pos = 0 if whence == 0 else len(self.file.chunks)
        return 0


class Kernel:
    def __init__(self):
        self.fds = {k: Open(File(f"std{k}")) for k in range(3)}
        self.names = {}

    def lowest(self):
        k = 0
        while k in self.fds:
            k += 1
        return k

    def new(self, o):
        k = self.lowest()
        self.fds[k] = o
        return k

    def get(self, fd):
        if not isinstance(fd, int):
            raise TypeError("an integer is required")
        if fd not in self.fds:
            raise OSError(9, "Bad file descriptor")
        return self.fds[fd]

    def dup(self, fd):
        return self.new(self.get(fd))

    def dup2(self, a, b, inheritable=True):
        o = self.get(a)
        self.fds[b] = o
        return b

    def close(self, fd):
        self.get(fd)
        del self.fds[fd]

    def write(self, fd, data):
        d = Data.of(data)
        self.get(fd).write(d)
        return d.__symlen__()

    def read(self, fd, n):
        return self.get(fd).read(n)

    def lseek(self, fd, off, whence=0):
        return self.get(fd).seek(off, whence)

    def fsync(self, fd):
        self.get(fd)

    def open(self, path, *a, **k):
        raise Unsupported("os.open")

    def os(self):
        m = _Os("os")
        for n in ("dup", "dup2", "close", "write", "read", "lseek", "fsync"):
            setattr(m, n, getattr(self, n))
        return m

    def tempfile(self):
        def temporary(mode="w+b", buffering=-1, **k):
            if mode not in ("w+b", "wb+", "r+b", "w+", "wb", "x+b"):
                raise Unsupported("temporary file mode " + mode)
            f = File("temporary")
            s = Stream(self, self.new(Open(f)), buffered=buffering != 0, limit=BUFFER, closefd=True)
            s.name = f"/tmp/f{len(self.names)}"
            self.names[s.name] = f
            return s

        m = _Only("tempfile")
        m.NamedTemporaryFile = m.TemporaryFile = temporary
        return m

    def io(self):
        m = _Fall("io")
        m.BytesIO = BytesIO
        return m


class _Only(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self.__name__}.{name}")


class _Os(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(_os, name)
        if callable(v) and not isinstance(v, type):
            raise Unsupported("os." + name)
        return v


class _Fall(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_io, name)


class BytesIO:
    def __init__(self, initial=None):
        self._o = Open(File("memory"))
        if initial is not None:
            self._o.write(Data.of(initial))
            self._o.pos = 0

    def write(self, data):
        d = Data.of(data)
        self._o.write(d)
        return d.__symlen__()

    def read(self, n=-1):
        return self._o.read(n)

    def seek(self, off, whence=0):
        return self._o.seek(off, whence)

    def tell(self):
        if self._o.pos == 0:
            return 0
        raise Unsupported("tell")

    def truncate(self, n=None):
        if n == 0 or (n is None and self._o.pos == 0):
            self._o.file.chunks.clear()
            return 0
        raise Unsupported("truncate")

    def getvalue(self):
        return Data(self._o.file.chunks)

    def getbuffer(self):
        return Data(self._o.file.chunks)

    def flush(self):
        pass

    def close(self):
        self.closed = True


class Stream:
    """A Python file object over a descriptor, with a write buffer."""

    closed = False

    def __init__(self, kernel, fd, buffered=True, limit=BUFFER, closefd=False):
        self.k, self.fd, self.buffered, self.limit = kernel, fd, buffered, limit
        self.pending = []
        self.size = 0
        self.name = fd

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self.fd

    def write(self, data):
        d = Data.of(data)
        self.pending.extend(d.chunks)
        self.size = self.size + d.__symlen__()
        if not self.buffered or self.size > self.limit:
            self.flush()
        return d.__symlen__()

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        p, self.pending, self.size = self.pending, [], 0
        if p:
            self.k.write(self.fd, Data(p))

    def read(self, n=-1):
        self.flush()
        return self.k.read(self.fd, n)

    def seek(self, off, whence=0):
        self.flush()
        return self.k.lseek(self.fd, off, whence)

    def writable(self):
        return True

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            self.flush()
            self.k.close(self.fd)
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False
