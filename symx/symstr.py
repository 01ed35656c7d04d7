"""Text with symbolic characters: a fixed number of code points, each an
integer or a symbolic integer below LIMIT."""
from . import core
from .core import And, Or, SymBool, SymInt, Unsupported

LIMIT = 0x3001


def _intervals(pred):
    out = []
    for c in range(LIMIT):
        if pred(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


_SPACE = _intervals(str.isspace)


def _within(c, intervals):
    return Or(*[And(c >= a, c <= b) if a != b else c == a for a, b in intervals])


def _space(c):
    if isinstance(c, int):
        return chr(c).isspace()
    return bool(_within(c, _SPACE))


def _any(c, chars):
    if isinstance(c, int):
        return chr(c) in chars
    return bool(Or(*[c == ord(x) for x in chars]))


def codes(x):
    if isinstance(x, SymStr):
        return x.codes
    if isinstance(x, str):
        return [ord(c) for c in x]
    raise TypeError(f"must be str, not {type(x).__name__}")


class SymStr:
    def __init__(self, c):
        self.codes = list(c)

    @staticmethod
    def make(c):
        c = list(c)
        if all(isinstance(x, int) for x in c):
            return "".join(map(chr, c))
        return SymStr(c)

    def __symlen__(self):
        return len(self.codes)

    __len__ = __symlen__

    def __iter__(self):
        return iter([SymStr.make([c]) for c in self.codes])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.make(self.codes[i])
        return SymStr.make([self.codes[i]])

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        o = codes(o)
        if len(o) != len(self.codes):
            return False
        return And(*[a == b for a, b in zip(self.codes, o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)

    def __hash__(self):
        raise Unsupported("symbolic text as a key")

    def __bool__(self):
        return len(self.codes) > 0

    def __add__(self, o):
        return SymStr.make(self.codes + codes(o))

    def __radd__(self, o):
        return SymStr.make(codes(o) + self.codes)

    def __mul__(self, n):
        return SymStr.make(self.codes * n)

    def __contains__(self, o):
        o = codes(o)
        n = len(o)
        return any(bool(And(*[a == b for a, b in zip(self.codes[i:i + n], o)])) for i in range(len(self.codes) - n + 1))

    def _strip(self, chars, left, right):
        test = _space if chars is None else (lambda c: _any(c, chars))
        if isinstance(chars, SymStr):
            raise Unsupported("strip of symbolic characters")
        i, j = 0, len(self.codes)
        while left and i < j and test(self.codes[i]):
            i += 1
        while right and j > i and test(self.codes[j - 1]):
            j -= 1
        return SymStr.make(self.codes[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        out, cur = [], []
        if sep is None:
            k, n = 0, len(self.codes)
            while True:
                while k < n and _space(self.codes[k]):
                    k += 1
                if k == n:
                    return out
                if maxsplit >= 0 and len(out) == maxsplit:
                    out.append(SymStr.make(self.codes[k:]).rstrip())
                    return out
                j = k
                while k < n and not _space(self.codes[k]):
                    k += 1
                out.append(SymStr.make(self.codes[j:k]))
        s = codes(sep)
        if not s:
            raise ValueError("empty separator")
        k = 0
        while k < len(self.codes):
            if (maxsplit < 0 or len(out) < maxsplit) and k + len(s) <= len(self.codes) and bool(
                And(*[a == b for a, b in zip(self.codes[k:], s)])
            ):
                out.append(SymStr.make(cur))
                cur = []
                k += len(s)
            else:
                cur.append(self.codes[k])
                k += 1
        out.append(SymStr.make(cur))
        return out

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (p[0], "", "")

    def splitlines(self, keepends=False):
        out, cur = [], []
        for c in self.codes:
            cur.append(c)
            if _any(c, "\n"):
                out.append(SymStr.make(cur if keepends else cur[:-1]))
                cur = []
            elif _any(c, "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
                raise Unsupported("splitlines on other line boundaries")
        return out + ([SymStr.make(cur)] if cur else [])

    def replace(self, old, new, count=-1):
        if count >= 0:
            raise Unsupported("replace with a count")
        p = self.split(old)
        r = p[0]
        for x in p[1:]:
            r = r + new + x
        return r

    def _map(self, f):
        out = []
        for c in self.codes:
            if isinstance(c, int):
                out += [ord(x) for x in f(chr(c))]
                continue
            if bool(c > 127):
                raise Unsupported("case of a character outside ASCII")
            a, b = (65, 90) if f("A") != "A" else (97, 122)
            out.append(core.ite(And(c >= a, c <= b), c + (ord(f(chr(a))) - a), c))
        return SymStr.make(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        p = codes(p)
        return bool(SymStr.make(self.codes[: len(p)]) == SymStr.make(p))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x)) for x in p)
        p = codes(p)
        return len(p) <= len(self.codes) and bool(SymStr.make(self.codes[len(self.codes) - len(p):]) == SymStr.make(p))

    def isspace(self):
        return bool(self.codes) and all(_space(c) for c in self.codes)

    def isdigit(self):
        return bool(self.codes) and all(bool(And(c >= 48, c <= 57)) for c in self.codes)

    def __symint__(self):
        s = self.strip()
        c = list(codes(s))
        sign = 1
        if c and _any(c[0], "+-"):
            if bool(c[0] == ord("-")):
                sign = -1
            c = c[1:]
        v = 0
        for x in c:
            if not bool(And(x >= 48, x <= 57)):
                raise ValueError("invalid literal for int() with base 10")
            v = v * 10 + (x - 48)
        if not c:
            raise ValueError("invalid literal for int() with base 10")
        return sign * v

    def __str__(self):
        return "<symbolic text>"

    def __repr__(self):
        return "'<symbolic text>'"

    def __format__(self, spec):
        return "<symbolic text>"

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        raise Unsupported("str." + name)


class _StrMeta(type):
    def __call__(cls, *args, **kw):
        if len(args) == 1 and not kw and isinstance(args[0], SymStr):
            return args[0]
        return str(*args, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __subclasscheck__(cls, x):
        return x is SymStr or issubclass(x, str)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, name):
        f = getattr(str, name)

        def call(*a, **k):
            if a and isinstance(a[0], SymStr):
                return getattr(a[0], name)(*a[1:], **k)
            if any(isinstance(x, SymStr) for x in a):
                raise Unsupported("str." + name)
            return f(*a, **k)

        return call


class StrShim(metaclass=_StrMeta):
    pass


def join(sep, items):
    """What sep.join(items) is rewritten to where sep is a literal."""
    items = list(items)
    if not any(isinstance(x, SymStr) for x in items):
        return sep.join(items)
    out = []
    for k, x in enumerate(items):
        out += (codes(sep) if k else []) + codes(x)
    return SymStr.make(out)
