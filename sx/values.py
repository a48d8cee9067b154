"""Symbolic values: booleans, integers, text, bytes, and the containers that
may hold them as keys.  Text has a concrete length and symbolic characters."""
import builtins
import re

import z3

from .engine import E, WIDTH, Inconclusive

BV = lambda v: z3.BitVecVal(v, WIDTH)
_bool = builtins.bool


def bv(x):
    return BV(x) if isinstance(x, int) else x


# ---------------------------------------------------------------- booleans
def mkbool(z):
    if isinstance(z, _bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zbool(x):
    """z3 term (or Python bool) of a truth value."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, _bool):
        return x
    return _bool(x)


class SymBool:
    __slots__ = ("z",)
    __class__ = property(lambda self: _bool)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E.branch(self.z)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mkbool(self.z == other.z)
        if other is True or other is False:
            return self if other else mkbool(z3.Not(self.z))
        if isinstance(other, (int, float)):
            return _bool(self) == other
        return False

    def __ne__(self, other):
        r = self.__eq__(other)
        return mkbool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __invert__(self):
        return ~int(_bool(self))

    def __and__(self, o):
        if isinstance(o, (_bool, SymBool)):
            return and_(self, o)
        return NotImplemented

    def __or__(self, o):
        if isinstance(o, (_bool, SymBool)):
            return or_(self, o)
        return NotImplemented

    def __xor__(self, o):
        if isinstance(o, (_bool, SymBool)):
            return self != o
        return NotImplemented

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __hash__(self):
        return hash(_bool(self))

    def __index__(self):
        return int(_bool(self))

    def __int__(self):
        return int(_bool(self))

    def __repr__(self):
        return "<sym bool>"

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Inconclusive("pickling a symbolic value")


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    return not x


def and_(*xs):
    zs = []
    for x in xs:
        x = zbool(x)
        if x is False:
            return False
        if x is True:
            continue
        zs.append(x)
    if not zs:
        return True
    return mkbool(zs[0] if len(zs) == 1 else z3.And(zs))


def or_(*xs):
    zs = []
    for x in xs:
        x = zbool(x)
        if x is True:
            return True
        if x is False:
            continue
        zs.append(x)
    if not zs:
        return False
    return mkbool(zs[0] if len(zs) == 1 else z3.Or(zs))


# ---------------------------------------------------------------- integers
LIMIT = (1 << WIDTH) - 1


class SymInt:
    """A small non-negative symbolic integer: a term and an upper bound for it
    (all of them below 2**21)."""
    __slots__ = ("z", "hi")
    __class__ = property(lambda self: int)

    def __init__(self, z, hi=LIMIT):
        self.z = z
        self.hi = hi

    @staticmethod
    def mk(z, hi=LIMIT):
        if isinstance(z, int):
            return z
        z = z3.simplify(z)
        return z.as_long() if z3.is_bv_value(z) else SymInt(z, min(hi, LIMIT))

    @staticmethod
    def _z(o):
        if isinstance(o, SymInt):
            return o.z
        if isinstance(o, _bool):
            return BV(int(o))
        if isinstance(o, int) and 0 <= o <= LIMIT:
            return BV(o)
        return None

    def value(self):
        d = E.concretise_terms([self.z], limit=64, why="integer")
        return d[self.z.get_id()]

    def __bool__(self):
        return E.branch(self.z != 0)

    def __index__(self):
        return self.value()

    __int__ = __index__

    def __float__(self):
        return float(self.value())

    def __hash__(self):
        return hash(self.value())

    def __repr__(self):
        return "<sym int>"

    def __str__(self):
        return str(self.value())

    def __format__(self, spec):
        return format(self.value(), spec)

    def bit_length(self):
        return self.value().bit_length()

    def to_bytes(self, *a, **k):
        return self.value().to_bytes(*a, **k)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _cmp(op, zop):
    def f(self, o):
        z = SymInt._z(o)
        if z is None:
            if isinstance(o, (int, float)):
                return getattr(self.value(), op)(o)
            if op == "__eq__":
                return False
            if op == "__ne__":
                return True
            return NotImplemented
        return mkbool(z3.simplify(zop(self.z, z)))
    return f


for _op, _z in (("__eq__", lambda a, b: a == b), ("__ne__", lambda a, b: a != b),
                ("__lt__", z3.ULT), ("__le__", z3.ULE),
                ("__gt__", z3.UGT), ("__ge__", z3.UGE)):
    setattr(SymInt, _op, _cmp(_op, _z))


def _bounded(o):
    """(term, upper bound) of an operand, or None"""
    if isinstance(o, SymInt):
        return o.z, o.hi
    if isinstance(o, (_bool, int)) and not isinstance(o, SymBool):
        o = int(o)
        return (BV(o), o) if 0 <= o <= LIMIT else None
    return None


def _power(x, y):
    return (1 << max(x, y).bit_length()) - 1


def _symbolic(op, a, b):
    """a op b as a term, where it stays within the range of SymInt; else None"""
    if op == "and":
        for x, y in ((a, b), (b, a)):
            if type(x) is int and x < 0 and isinstance(y, SymInt):
                return SymInt.mk(y.z & BV(x & LIMIT), y.hi)
    x, y = _bounded(a), _bounded(b)
    if x is None or y is None:
        return None
    (x, hx), (y, hy) = x, y
    if op == "add" and hx + hy <= LIMIT:
        return SymInt.mk(x + y, hx + hy)
    if op == "sub" and E.branch(z3.UGE(x, y)):
        return SymInt.mk(x - y, hx)
    if op == "mul" and hx * hy <= LIMIT:
        return SymInt.mk(x * y, hx * hy)
    if op in ("floordiv", "mod") and type(b) is int and b > 0:
        return SymInt.mk(z3.UDiv(x, y), hx // b) if op == "floordiv" else \
            SymInt.mk(z3.URem(x, y), min(hx, b - 1))
    if op == "lshift" and type(b) is int and hx << b <= LIMIT:
        return SymInt.mk(x << y, hx << b)
    if op == "rshift" and type(b) is int:
        return SymInt.mk(z3.LShR(x, BV(min(b, WIDTH))), hx >> b)
    if op == "and":
        return SymInt.mk(x & y, min(hx, hy))
    if op == "or":
        return SymInt.mk(x | y, _power(hx, hy))
    if op == "xor":
        return SymInt.mk(x ^ y, _power(hx, hy))
    return None


def _arith(op, reverse):
    name = f"__r{op}__" if reverse else f"__{op}__"

    def f(self, o):
        if isinstance(o, int):
            r = _symbolic(op, o, self) if reverse else _symbolic(op, self, o)
            if r is not None:
                return r
        return getattr(self.value(), name)(o.value() if isinstance(o, SymInt) else o)
    return f


for _op in ("add", "sub", "mul", "floordiv", "mod", "truediv", "pow", "lshift",
            "rshift", "and", "or", "xor"):
    setattr(SymInt, f"__{_op}__", _arith(_op, False))
    setattr(SymInt, f"__r{_op}__", _arith(_op, True))


def digits(x, base, upper=False):
    """The text of a SymInt in a base; forks on the number of digits."""
    n, k = 1, base
    while k <= x.hi and not branch(z3.ULT(x.z, BV(k))):
        n, k = n + 1, k * base
    out, z = [], x.z
    for _ in range(n):
        d = z3.URem(z, BV(base))
        out.append(z3.simplify(z3.If(z3.ULT(d, BV(10)), d + BV(48),
                                     d + BV(55 if upper else 87)) if base > 10 else d + BV(48)))
        z = z3.UDiv(z, BV(base))
    return tuple(v.as_long() if z3.is_bv_value(v) else v for v in out[::-1])


_SPEC = re.compile(r"(0?)([0-9]*)([doxX]?)")


def format_int(x, spec):
    """format(x, spec) of a SymInt, for the usual specs; else None"""
    m = _SPEC.fullmatch(spec)
    if m is None:
        return None
    base = {"o": 8, "x": 16, "X": 16}.get(m[3], 10)
    c = digits(x, base, m[3] == "X")
    pad = (48 if m[1] else 32,) * (int(m[2] or 0) - len(c))
    return SymStr.mk(pad + c)


def parse_int(x, base=10):
    """int(text, base) where all symbolic characters are digits; else None"""
    if type(base) is not int or not 2 <= base <= 16 or not x.c or base ** len(x.c) > LIMIT:
        return None
    z = BV(0)
    for k in x.c:
        if branch(crange(k, 48, 47 + min(base, 10))):
            d = bv(k) - BV(48)
        elif base > 10 and branch(crange(k, 97, 86 + base)):
            d = bv(k) - BV(87)
        elif base > 10 and branch(crange(k, 65, 54 + base)):
            d = bv(k) - BV(55)
        else:
            return None
        z = z * BV(base) + d
    return SymInt.mk(z, base ** len(x.c) - 1)


for _op in ("neg", "abs", "invert"):
    setattr(SymInt, f"__{_op}__", (lambda op: lambda self: getattr(self.value(), op)())(f"__{_op}__"))


# ---------------------------------------------------------------- characters
def ceq(a, b):
    """Equality of two code terms: Python bool or z3 Bool."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return a == BV(b)
    if a.get_id() == b.get_id():
        return True
    return a == b


def cin(c, codes):
    """Membership of a code term in a collection of code points."""
    if isinstance(c, int):
        return c in codes
    return z3.Or([c == BV(k) for k in codes])


def crange(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    if lo == 0:
        return z3.ULE(c, BV(hi))
    return z3.And(z3.UGE(c, BV(lo)), z3.ULE(c, BV(hi)))


def branch(z):
    return z if isinstance(z, _bool) else E.branch(z)


def zand(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def zor(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def znot(x):
    return (not x) if isinstance(x, _bool) else z3.Not(x)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return zand([ceq(x, y) for x, y in zip(a, b)])


def seq_lt(a, b, or_equal):
    """Lexicographic comparison as one formula."""
    n = min(len(a), len(b))
    res = (len(a) < len(b)) or (or_equal and len(a) == len(b))
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if isinstance(x, int) and isinstance(y, int):
            lt, eq = x < y, x == y
        else:
            lt, eq = z3.ULT(bv(x), bv(y)), ceq(x, y)
        res = zor([lt, zand([eq, res])])
    return res


WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680,
      *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)
BWS = (9, 10, 11, 12, 13, 32)
LINEBREAKS = (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)


class Seq:
    """Common part of SymStr and SymBytes: a tuple of code terms."""
    __slots__ = ("c",)

    def __init__(self, codes):
        self.c = tuple(codes)

    # construction from codes, normalising fully concrete ones
    @classmethod
    def mk(cls, codes):
        codes = tuple(codes)
        for x in codes:
            if not isinstance(x, int):
                o = cls.__new__(cls)
                o.c = codes
                return o
        return cls.native(codes)

    @classmethod
    def lift(cls, x):
        """codes of a native or symbolic value of this kind, or None"""
        if isinstance(x, cls):
            return x.c
        return cls.lift_native(x)

    def concrete(self, why="text"):
        terms = [t for t in self.c if not isinstance(t, int)]
        uniq = list({t.get_id(): t for t in terms}.values())
        d = E.concretise_terms(uniq, why=why)
        return self.native([t if isinstance(t, int) else d[t.get_id()] for t in self.c])

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return True        # symbolic values are never empty

    def __eq__(self, other):
        c = self.lift(other)
        if c is None:
            return False
        return mkbool(seq_eq(self.c, c))

    def __ne__(self, other):
        c = self.lift(other)
        if c is None:
            return True
        return mkbool(znot(seq_eq(self.c, c)))

    def _ord(self, other, swap, or_equal):
        c = self.lift(other)
        if c is None:
            return NotImplemented
        a, b = (c, self.c) if swap else (self.c, c)
        return mkbool(seq_lt(a, b, or_equal))

    def __lt__(self, o):
        return self._ord(o, False, False)

    def __le__(self, o):
        return self._ord(o, False, True)

    def __gt__(self, o):
        return self._ord(o, True, False)

    def __ge__(self, o):
        return self._ord(o, True, True)

    def __hash__(self):
        return hash(self.concrete("hash"))

    def __add__(self, o):
        c = self.lift(o)
        if c is None:
            return NotImplemented
        return self.mk(self.c + tuple(c))

    def __radd__(self, o):
        c = self.lift(o)
        if c is None:
            return NotImplemented
        return self.mk(tuple(c) + self.c)

    def __mul__(self, n):
        return self.mk(self.c * int(n))

    __rmul__ = __mul__

    def __contains__(self, o):
        if self.KIND == "bytes" and isinstance(o, int):
            return branch(contains_formula(self.c, (SymByteArray.term(o),)))
        return branch(contains_formula(self.c, self.need(o)))

    def need(self, o):
        c = self.lift(o)
        if c is None:
            raise TypeError(f"a {self.KIND} is required, not {type(o).__name__!r}")
        return c

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- methods (shared) ---------------------------------------------
    def startswith(self, prefix, start=0, end=None):
        c = self.c[start:end]
        if isinstance(prefix, tuple):
            return or_(*[mkbool(seq_eq(c[:len(self.need(p))], self.need(p))) for p in prefix])
        p = self.need(prefix)
        return mkbool(seq_eq(c[:len(p)], p))

    def endswith(self, suffix, start=0, end=None):
        c = self.c[start:end]
        if isinstance(suffix, tuple):
            return or_(*[SymStr.endswith(self, s, start, end) for s in suffix])
        p = self.need(suffix)
        if not p:
            return True
        if len(p) > len(c):
            return False
        return mkbool(seq_eq(c[-len(p):], p))

    def _find(self, sub, start=0, end=None):
        s = self.need(sub)
        n = len(self.c)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(s) + 1):
            if branch(seq_eq(self.c[i:i + len(s)], s)):
                return i
        return -1

    def _rfind(self, sub, start=0, end=None):
        s = self.need(sub)
        n = len(self.c)
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - len(s), start - 1, -1):
            if branch(seq_eq(self.c[i:i + len(s)], s)):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=0, end=None):
        return self._rfind(sub, start, end)

    def index(self, sub, start=0, end=None):
        i = self._find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=0, end=None):
        i = self._rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=0, end=None):
        s = self.need(sub)
        c = self.c[slice(start, end)]
        if not s:
            return len(c) + 1
        i = n = 0
        while i + len(s) <= len(c):
            if branch(seq_eq(c[i:i + len(s)], s)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        o, r = self.need(old), self.need(new)
        count = int(count)
        if not o:
            return self._fallback("replace", old, new, count)
        out, i, n = [], 0, 0
        while i < len(self.c):
            if (count < 0 or n < count) and i + len(o) <= len(self.c) \
                    and branch(seq_eq(self.c[i:i + len(o)], o)):
                out.extend(r)
                i += len(o)
                n += 1
            else:
                out.append(self.c[i])
                i += 1
        return self.mk(out)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            out, cur, n = [], None, 0
            for i, x in enumerate(self.c):
                if branch(cin(x, self.WS)):
                    if cur is not None:
                        out.append(self.mk(cur))
                        cur = None
                else:
                    if cur is None:
                        if 0 <= maxsplit <= len(out):
                            rest = SymStr.rstrip(self, None) if False else self.mk(self.c[i:])
                            out.append(rest.rstrip())
                            return out
                        cur = []
                    cur.append(x)
            if cur is not None:
                out.append(self.mk(cur))
            return out
        s = self.need(sep)
        if not s:
            raise ValueError("empty separator")
        out, cur, i = [], [], 0
        while i < len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(s) <= len(self.c) \
                    and branch(seq_eq(self.c[i:i + len(s)], s)):
                out.append(self.mk(cur))
                cur = []
                i += len(s)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(self.mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or int(maxsplit) < 0:
            return self.split(sep, maxsplit) if int(maxsplit) < 0 else \
                self._fallback("rsplit", sep, maxsplit)
        s = self.need(sep)
        out, end, i = [], len(self.c), len(self.c) - len(s)
        while i >= 0 and len(out) < maxsplit:
            if branch(seq_eq(self.c[i:i + len(s)], s)):
                out.append(self.mk(self.c[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(self.mk(self.c[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        if not len(self.need(sep)):
            raise ValueError("empty separator")
        i = self._find(sep)
        n = len(self.need(sep))
        e = self.native(())
        if i < 0:
            return self, e, e
        return self.mk(self.c[:i]), sep, self.mk(self.c[i + n:])

    def rpartition(self, sep):
        if not len(self.need(sep)):
            raise ValueError("empty separator")
        i = self._rfind(sep)
        n = len(self.need(sep))
        e = self.native(())
        if i < 0:
            return e, e, self
        return self.mk(self.c[:i]), sep, self.mk(self.c[i + n:])

    def _stripset(self, chars):
        return self.WS if chars is None else self.need(chars)

    def _in(self, x, chars):
        return branch(zor([ceq(x, k) for k in chars]))

    def lstrip(self, chars=None):
        s = self._stripset(chars)
        i = 0
        while i < len(self.c) and self._in(self.c[i], s):
            i += 1
        return self.mk(self.c[i:])

    def rstrip(self, chars=None):
        s = self._stripset(chars)
        i = len(self.c)
        while i > 0 and self._in(self.c[i - 1], s):
            i -= 1
        return self.mk(self.c[:i])

    def strip(self, chars=None):
        s = self._stripset(chars)
        i, j = 0, len(self.c)
        while i < j and self._in(self.c[i], s):
            i += 1
        while j > i and self._in(self.c[j - 1], s):
            j -= 1
        return self.mk(self.c[i:j])

    def removeprefix(self, p):
        return self.mk(self.c[len(self.need(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(self.need(p))
        return self.mk(self.c[:len(self.c) - n]) if n and self.endswith(p) else self

    def join(self, items):
        out = []
        for i, x in enumerate(items):
            if i:
                out.extend(self.c)
            out.extend(self.need(x))
        return self.mk(out)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        c = self.c
        while i < len(c):
            if branch(cin(c[i], self.LINEBREAKS)):
                brk = [c[i]]
                if i + 1 < len(c) and branch(zand([ceq(c[i], 13), ceq(c[i + 1], 10)])):
                    i += 1
                    brk.append(c[i])
                out.append(self.mk(cur + brk if keepends else cur))
                cur = []
            else:
                cur.append(c[i])
            i += 1
        if cur:
            out.append(self.mk(cur))
        return out

    def _case(self, lo, hi, delta):
        out = []
        for x in self.c:
            if isinstance(x, int):
                if x < 128:
                    out.append(x + delta if lo <= x <= hi else x)
                    continue
                return None
            if not branch(crange(x, 0, 127)):
                return None
            out.append(z3.If(crange(x, lo, hi), x + BV(delta % (1 << WIDTH)), x))
        return self.mk(out)

    def lower(self):
        r = self._case(65, 90, 32)
        return self._fallback("lower") if r is None else r

    def upper(self):
        r = self._case(97, 122, -32)
        return self._fallback("upper") if r is None else r

    casefold = lower

    def isdigit(self):
        for x in self.c:
            if not isinstance(x, int) and not branch(crange(x, 0, 127)):
                return self._fallback("isdigit")
        return mkbool(zand([crange(x, 48, 57) for x in self.c]))

    def isascii(self):
        return mkbool(zand([crange(x, 0, 127) for x in self.c]))

    def isspace(self):
        return mkbool(zand([cin(x, self.WS) for x in self.c]))

    def _fallback(self, name, *args):
        from . import rt
        return getattr(self.concrete("method " + name), name)(*[rt.deep_concrete(a) for a in args])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(self.NATIVE, name):
            return lambda *a, **k: self._fallback(name, *a)
        raise AttributeError(
            f"'{self.KIND}' object has no attribute '{name}'")


def contains_formula(c, s):
    if not s:
        return True
    return zor([seq_eq(c[i:i + len(s)], s) for i in range(len(c) - len(s) + 1)])


def _index(c, k):
    return c[k]


class SymStr(Seq):
    __slots__ = ()
    __class__ = property(lambda self: str)
    KIND = "str"
    NATIVE = str
    WS = WS
    LINEBREAKS = LINEBREAKS

    @staticmethod
    def native(codes):
        return "".join(map(chr, codes))

    @staticmethod
    def lift_native(x):
        return tuple(map(ord, x)) if isinstance(x, str) else None

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr.mk(self.c[k])
        return SymStr.mk((self.c[int(k)],))

    def __iter__(self):
        for x in self.c:
            yield SymStr.mk((x,))

    def __str__(self):
        return self.concrete("str()")

    def __repr__(self):
        return "<sym str:%d>" % len(self.c)

    def __format__(self, spec):
        return format(self.concrete("format()"), spec)

    def __fspath__(self):
        return self.concrete("fspath()")

    def __mod__(self, args):
        from . import rt
        return rt.mod(self.concrete("%"), args)

    def encode(self, encoding="utf-8", errors="strict"):
        known = encoding.lower().replace("-", "").replace("_", "")
        top = {"utf8": None, "ascii": 128, "latin1": 256, "iso88591": 256}.get(known, 0)
        if top == 0:
            return self._fallback("encode", encoding, errors)
        out = []
        for i, x in enumerate(self.c):
            if top is None:
                out.extend(utf8(x))
            elif branch(z3.ULT(bv(x), BV(top))):
                out.append(x)
            elif errors == "strict":
                raise UnicodeEncodeError(encoding, "?" * len(self.c), i, i + 1, "ordinal not in range")
            elif errors in ("ignore", "replace"):
                out.extend(b"?" if errors == "replace" else b"")
            else:
                return self._fallback("encode", encoding, errors)
        return SymBytes.mk(out)

    def format(self, *a, **k):
        return self.concrete("format").format(*a, **k)

    def expandtabs(self, n=8):
        return self._fallback("expandtabs", n)

    def translate(self, table):
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.extend(map(ord, chr(x).translate(table)))
                continue
            for k in table:
                if branch(ceq(x, k if isinstance(k, int) else ord(k))):
                    v = table[k]
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(map(ord, v))
                    break
            else:
                out.append(x)
        return SymStr.mk(out)


def utf8(x):
    """UTF-8 byte terms of a code point term."""
    if isinstance(x, int):
        return list(chr(x).encode())
    if branch(z3.ULT(x, BV(0x80))):
        return [x]
    if branch(z3.ULT(x, BV(0x800))):
        return [BV(0xc0) | z3.LShR(x, BV(6)), BV(0x80) | (x & BV(0x3f))]
    if branch(z3.ULT(x, BV(0x10000))):
        return [BV(0xe0) | z3.LShR(x, BV(12)),
                BV(0x80) | (z3.LShR(x, BV(6)) & BV(0x3f)),
                BV(0x80) | (x & BV(0x3f))]
    return [BV(0xf0) | z3.LShR(x, BV(18)),
            BV(0x80) | (z3.LShR(x, BV(12)) & BV(0x3f)),
            BV(0x80) | (z3.LShR(x, BV(6)) & BV(0x3f)),
            BV(0x80) | (x & BV(0x3f))]


def decode_utf8(c):
    out, i = [], 0
    n = len(c)

    def cont(k):
        if k >= n or not branch(crange(c[k], 0x80, 0xbf)):
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic")
        return bv(c[k]) & BV(0x3f)

    while i < n:
        x = c[i]
        if branch(crange(x, 0, 0x7f)):
            out.append(x)
            i += 1
            continue
        x = bv(x)
        if branch(crange(x, 0xc2, 0xdf)):
            out.append(z3.simplify(((x & BV(0x1f)) << BV(6)) | cont(i + 1)))
            i += 2
        elif branch(crange(x, 0xe0, 0xef)):
            out.append(z3.simplify(((x & BV(0xf)) << BV(12)) | (cont(i + 1) << BV(6)) | cont(i + 2)))
            i += 3
        elif branch(crange(x, 0xf0, 0xf4)):
            out.append(z3.simplify(((x & BV(7)) << BV(18)) | (cont(i + 1) << BV(12))
                                   | (cont(i + 2) << BV(6)) | cont(i + 3)))
            i += 4
        else:
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic")
    return SymStr.mk([v.as_long() if not isinstance(v, int) and z3.is_bv_value(v) else v
                      for v in out])


class SymBytes(Seq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)
    KIND = "bytes"
    NATIVE = bytes
    WS = BWS
    LINEBREAKS = (10, 13)

    @staticmethod
    def native(codes):
        return bytes(codes)

    @staticmethod
    def lift_native(x):
        return tuple(x) if isinstance(x, (bytes, bytearray)) else None

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes.mk(self.c[k])
        x = self.c[int(k)]
        return x if isinstance(x, int) else SymInt(x, 255)

    def __iter__(self):
        for x in self.c:
            yield x if isinstance(x, int) else SymInt(x, 255)

    def __repr__(self):
        return "<sym bytes:%d>" % len(self.c)

    __str__ = __repr__

    def __bytes__(self):
        return self.concrete("bytes()")

    def hex(self, *sep):
        if sep:
            return self._fallback("hex", *sep)
        out = []
        for x in self.c:
            for d in (z3.LShR(bv(x), BV(4)), bv(x) & BV(15)):
                d = z3.simplify(z3.If(z3.ULT(d, BV(10)), d + BV(48), d + BV(87)))
                out.append(d.as_long() if z3.is_bv_value(d) else d)
        return SymStr.mk(out)

    def decode(self, encoding="utf-8", errors="strict"):
        encoding = encoding.lower().replace("-", "").replace("_", "")
        if encoding in ("latin1", "iso88591"):
            return SymStr.mk(self.c)
        if encoding not in ("utf8", "ascii"):
            return self._fallback("decode", encoding, errors)
        if encoding == "ascii" or errors != "strict":
            out = []
            for i, x in enumerate(self.c):
                if not branch(z3.ULT(bv(x), BV(128))):
                    if encoding == "utf8":      # sequences of bytes that belong together
                        return self._fallback("decode", encoding, errors)
                    if errors == "strict":
                        raise UnicodeDecodeError("ascii", bytes(len(self.c)), i, i + 1, "ordinal not in range")
                    x = {"replace": 0xfffd, "ignore": None}.get(errors, 0)
                    if x == 0:
                        return self._fallback("decode", encoding, errors)
                if x is not None:
                    out.append(x)
            return SymStr.mk(out)
        return decode_utf8(self.c)


class SymByteArray(SymBytes):
    """bytearray: a mutable sequence of byte terms, with or without symbolic ones."""
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    @classmethod
    def mk(cls, codes):
        return cls(codes)

    @staticmethod
    def native(codes):
        return bytearray(codes)

    @staticmethod
    def term(x):
        if isinstance(x, SymInt):
            if not branch(z3.ULT(x.z, BV(256))):
                raise ValueError("byte must be in range(0, 256)")
            return x.z
        x = x.__index__()
        if not 0 <= x < 256:
            raise ValueError("byte must be in range(0, 256)")
        return x

    @classmethod
    def terms(cls, x):
        if isinstance(x, SymBytes):
            return x.c
        if isinstance(x, SymStr) or isinstance(x, str):
            raise TypeError("expected iterable of integers; got: 'str'")
        return tuple(cls.term(k) for k in x)

    def __bool__(self):
        return bool(self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymByteArray(self.c[k])
        x = self.c[int(k)]
        return x if isinstance(x, int) else SymInt(x, 255)

    def _put(self, k, v):
        c = list(self.c)
        if isinstance(k, slice):
            c[k] = self.terms(v)
        else:
            c[int(k)] = self.term(v)
        self.c = tuple(c)

    __setitem__ = _put

    def __delitem__(self, k):
        c = list(self.c)
        del c[k if isinstance(k, slice) else int(k)]
        self.c = tuple(c)

    def append(self, x):
        self.c += (self.term(x),)

    def extend(self, x):
        self.c += self.terms(x)

    def __iadd__(self, x):
        if not isinstance(x, (bytes, bytearray, memoryview)):
            raise TypeError(f"can't concat {type(x).__name__} to bytearray")
        self.c += self.terms(x)
        return self

    def insert(self, i, x):
        c = list(self.c)
        c.insert(int(i), self.term(x))
        self.c = tuple(c)

    def pop(self, i=-1):
        if not self.c:
            raise IndexError("pop from empty bytearray")
        x = self[i]
        del self[i]
        return x

    def clear(self):
        self.c = ()

    def reverse(self):
        self.c = self.c[::-1]

    def copy(self):
        return SymByteArray(self.c)

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy


SYM = (SymBool, SymInt, SymStr, SymBytes)


def is_sym(x):
    return isinstance(x, SYM)


# ---------------------------------------------------------------- containers
import uuid as _uuid
import enum as _enum

_PLAIN = (str, int, float, bytes, type(None), type, complex, _uuid.UUID)


class SymUUID(_uuid.UUID):
    """An identifier with symbolic hex digits (32 codes, lower case)."""

    def __init__(self, codes):
        object.__setattr__(self, "codes", tuple(codes))

    @staticmethod
    def of(text):
        """UUID(text)"""
        c = list(text.c)
        if any(not isinstance(k, int) and not branch(zor([crange(k, 48, 57), crange(k, 65, 70),
                                                          crange(k, 97, 102)])) for k in c):
            return _uuid.UUID(text.concrete("identifier"))
        # the symbolic characters are hex digits, so what is stripped does not depend on them
        t = "".join(chr(k) if isinstance(k, int) else "?" for k in c)
        t = t.replace("urn:", "").replace("uuid:", "").strip("{}").replace("-", "")
        if len(t) != 32 or set(t) - set("0123456789abcdefABCDEF?"):
            return _uuid.UUID(text.concrete("identifier"))
        sym = iter([k for k in c if not isinstance(k, int)])
        out = []
        for ch in t.lower():
            if ch != "?":
                out.append(ord(ch))
                continue
            k = next(sym)
            out.append(z3.simplify(z3.If(crange(k, 65, 70), k + BV(32), k)))
        return SymUUID(out)

    @property
    def hex(self):
        return SymStr.mk(self.codes)

    def __str__(self):
        c, d = self.codes, (45,)
        return SymStr.mk(c[:8] + d + c[8:12] + d + c[12:16] + d + c[16:20] + d + c[20:])

    def __repr__(self):
        return SymStr.mk(SymStr.lift_native("UUID('") + self.__str__().c + SymStr.lift_native("')"))

    @property
    def urn(self):
        return SymStr.mk(SymStr.lift_native("urn:uuid:") + self.__str__().c)

    @property
    def int(self):
        return self.native().int

    def native(self):
        return _uuid.UUID(SymStr(self.codes).concrete("identifier"))

    def __int__(self):
        return self.int

    @staticmethod
    def _codes(o):
        if isinstance(o, SymUUID):
            return o.codes
        return tuple(map(ord, o.hex)) if isinstance(o, _uuid.UUID) else None

    def __eq__(self, o):
        c = self._codes(o)
        return NotImplemented if c is None else mkbool(seq_eq(self.codes, c))

    def __ne__(self, o):
        c = self._codes(o)
        return NotImplemented if c is None else mkbool(znot(seq_eq(self.codes, c)))

    def __lt__(self, o):
        return mkbool(seq_lt(self.codes, self._codes(o), False))

    def __le__(self, o):
        return mkbool(seq_lt(self.codes, self._codes(o), True))

    def __gt__(self, o):
        return mkbool(seq_lt(self._codes(o), self.codes, False))

    def __ge__(self, o):
        return mkbool(seq_lt(self._codes(o), self.codes, True))

    def __hash__(self):
        return hash(self.native())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def plain_key(k):
    """Can this key be looked up by its native hash without any symbolic part?"""
    t = type(k)
    if t in (str, int, _bool, bytes, type(None), float):
        return True
    if t is tuple or t is frozenset:
        return all(plain_key(x) for x in k)
    if t is SymUUID:
        return False
    if isinstance(k, (type, _uuid.UUID, _enum.Enum)):
        return True
    if isinstance(k, SYM):
        return False
    # objects whose equality is identity
    if t.__eq__ is object.__eq__:
        return True
    return False


def keys_equal(a, b):
    if a is b:
        return True
    if (_own_hash(a) or _own_hash(b)) and not _rt_hash(a) == _rt_hash(b):
        return False
    r = a == b
    return _bool(r)


def _own_hash(x):
    """Does the class define its hash in (interpreted) Python code?"""
    return isinstance(getattr(type(x), "__hash__", None), _FUNCTION) and not isinstance(
        x, SYM + (_uuid.UUID,))


_FUNCTION = type(plain_key)


def _rt_hash(x):
    from .rt import hash_
    return hash_(x)


def alike(values):
    """May the values be merged into one term?"""
    x = values[0]
    if isinstance(x, int) and not isinstance(x, _bool):
        return all(isinstance(v, int) and not isinstance(v, _bool) and _bounded(v) is not None
                   for v in values)
    for t in (SymStr, SymBytes):
        if t.lift(x) is not None and type(x) in (t, t.NATIVE):
            return len(x) > 0 and all(type(v) in (t, t.NATIVE) and len(v) == len(x) for v in values)
    return False


def ite(c, a, b):
    """a where the condition holds, b elsewhere; of values that are alike"""
    if isinstance(c, _bool):
        return a if c else b
    if isinstance(a, int):
        (x, hx), (y, hy) = _bounded(a), _bounded(b)
        return SymInt.mk(z3.If(c, x, y), max(hx, hy))
    t = SymBytes if isinstance(a, bytes) else SymStr
    return t.mk([x if isinstance(x, int) and isinstance(y, int) and x == y else z3.If(c, bv(x), bv(y))
                 for x, y in zip(t.lift(a), t.lift(b))])


class SymDict(dict):
    """Insertion-ordered dict whose keys may be symbolic or compare
    symbolically.  The native storage of the base class is unused."""

    def __init__(self, *args, **kwargs):
        self._e = []           # entries [key, value] or None when deleted
        self._x = {}           # plain key -> entry
        self._s = 0            # number of non-plain entries
        self.update(*args, **kwargs)

    def __new__(cls, *args, **kwargs):
        o = dict.__new__(cls)
        o._e = []
        o._x = {}
        o._s = 0
        return o

    def _lookup(self, k):
        if isinstance(k, (list, dict, set)) and type(k).__hash__ is None:
            raise TypeError(f"unhashable type: '{type(k).__name__}'")
        if plain_key(k):
            e = self._x.get(k)
            if e is not None:
                return e
            if self._s:
                for e in self._e:
                    if e[2] is False and keys_equal(e[0], k):
                        return e
            return None
        h = getattr(type(k), "__hash__", None)
        if h is None:
            raise TypeError(f"unhashable type: '{type(k).__name__}'")
        if _own_hash(k):
            _rt_hash(k)
        for e in self._e:
            if keys_equal(e[0], k):
                return e
        return None

    def _matches(self, k):
        """[(condition, entry)] of a symbolic key that may match several entries,
        or None where the entries are looked at one by one"""
        if not isinstance(k, (SymStr, SymBytes, SymInt)) or len(self._e) < 2:
            return None
        out = []
        for e in self._e:
            if not isinstance(e[0], (str, bytes, int, type(None))):
                return None
            c = zbool(k == e[0])
            if c is not False:
                out.append((c, e))
        return out

    def _select(self, k, default=None):
        """The value of a symbolic key as one term, or None where its values are not alike"""
        if len(self._e) < 2 or not isinstance(k, (SymStr, SymBytes, SymInt)):
            return None
        values = [e[1] for e in self._e] + ([] if default is None else [default])
        if not alike(values):
            return None
        m = self._matches(k)
        if m is None or len(m) < 2:
            return None
        if default is None:
            if not branch(zor([c for c, _ in m])):
                return None
            default = m[-1][1][1]
            m = m[:-1]
        r = default
        for c, e in reversed(m):
            r = ite(c, e[1], r)
        return r

    def __getitem__(self, k):
        r = self._select(k)
        if r is not None:
            return r
        e = self._lookup(k)
        if e is None:
            miss = getattr(type(self), "__missing__", None)
            if miss is not None:
                return miss(self, k)
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        e = self._lookup(k)
        if e is not None:
            e[1] = v
            return
        p = plain_key(k)
        e = [k, v, p]
        self._e.append(e)
        if p:
            self._x[k] = e
        else:
            self._s += 1

    def _drop(self, e):
        self._e = [x for x in self._e if x is not e]
        if e[2]:
            del self._x[e[0]]
        else:
            self._s -= 1

    def __delitem__(self, k):
        e = self._lookup(k)
        if e is None:
            raise KeyError(k)
        self._drop(e)

    def __contains__(self, k):
        m = self._matches(k)
        if m is not None:
            return branch(zor([c for c, _ in m]))
        return self._lookup(k) is not None

    def __len__(self):
        return len(self._e)

    def __bool__(self):
        return len(self._e) > 0

    def __iter__(self):
        n = len(self._e)
        for e in list(self._e):
            yield e[0]
            if len(self._e) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return iter([e[0] for e in reversed(self._e)])

    def keys(self):
        return DictKeys(self)

    def values(self):
        return DictView(self, 1)

    def items(self):
        return DictItems(self)

    def get(self, k, default=None):
        if default is not None:
            r = self._select(k, default)
            if r is not None:
                return r
        e = self._lookup(k)
        return default if e is None else e[1]

    def pop(self, k, *default):
        e = self._lookup(k)
        if e is None:
            if default:
                return default[0]
            raise KeyError(k)
        self._drop(e)
        return e[1]

    def popitem(self):
        if not self._e:
            raise KeyError("popitem(): dictionary is empty")
        e = self._e[-1]
        self._drop(e)
        return e[0], e[1]

    def setdefault(self, k, default=None):
        e = self._lookup(k)
        if e is not None:
            return e[1]
        self[k] = default
        return default

    def clear(self):
        self._e = []
        self._x = {}
        self._s = 0

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        o = type(self).__new__(type(self))
        memo[id(self)] = o
        for e in self._e:
            o[copy.deepcopy(e[0], memo)] = copy.deepcopy(e[1], memo)
        if hasattr(self, "__dict__"):
            for k, v in self.__dict__.items():
                if k not in ("_e", "_x", "_s"):
                    o.__dict__[k] = copy.deepcopy(v, memo)
        return o

    def __reduce_ex__(self, proto):
        raise Inconclusive("pickling a dict")

    def update(self, *args, **kwargs):
        if args:
            src = args[0]
            if isinstance(src, SymDict):
                for e in list(src._e):
                    self[e[0]] = e[1]
            elif hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        d = SymDict(self)
        d.update(o)
        return d

    def __ror__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        d = SymDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) else SymDict(o)
        for e in self._e:
            f = o._lookup(e[0])
            if f is None or not (e[1] is f[1] or _bool(e[1] == f[1])):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{e[0]!r}: {e[1]!r}" for e in self._e) + "}"

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d


class DictView:
    def __init__(self, d, idx):
        self.d, self.idx = d, idx

    def __iter__(self):
        n = len(self.d._e)
        for e in list(self.d._e):
            yield e[self.idx]
            if len(self.d._e) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __len__(self):
        return len(self.d._e)

    def __contains__(self, x):
        return any(keys_equal(x, y) for y in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __repr__(self):
        return "dict_view(%r)" % list(self)


class _SetOps:
    def __and__(self, o):
        return SymSet(x for x in self if x in _asset(o))

    def __rand__(self, o):
        return SymSet(x for x in o if x in self)

    def __or__(self, o):
        return SymSet([*self, *o])

    def __ror__(self, o):
        return SymSet([*o, *self])

    def __sub__(self, o):
        return SymSet(x for x in self if x not in _asset(o))

    def __rsub__(self, o):
        return SymSet(x for x in o if x not in self)

    def __xor__(self, o):
        o = _asset(o)
        return SymSet([*[x for x in self if x not in o], *[x for x in o if x not in self]])

    __rxor__ = __xor__

    def __le__(self, o):
        return all(x in _asset(o) for x in self)

    def __lt__(self, o):
        return len(self) < len(o) and self <= o

    def __ge__(self, o):
        return all(x in self for x in o)

    def __gt__(self, o):
        return len(self) > len(o) and self >= o

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, DictKeys)) and not hasattr(o, "isdisjoint"):
            return NotImplemented
        return len(self) == len(o) and all(x in _asset(o) for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


def _asset(o):
    if isinstance(o, (SymSet, DictKeys, DictItems)):
        return o
    return SymSet(o)


class DictKeys(_SetOps, DictView):
    __hash__ = None

    def __init__(self, d):
        DictView.__init__(self, d, 0)

    def __contains__(self, k):
        return k in self.d


class DictItems(_SetOps, DictView):
    __hash__ = None

    def __init__(self, d):
        DictView.__init__(self, d, 0)

    def __iter__(self):
        n = len(self.d._e)
        for e in list(self.d._e):
            yield e[0], e[1]
            if len(self.d._e) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __contains__(self, kv):
        e = self.d._lookup(kv[0])
        return e is not None and keys_equal(e[1], kv[1])


class SymSet(_SetOps, set):
    """Insertion-ordered set, the analogue of SymDict."""

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = None

    def __new__(cls, it=()):
        o = set.__new__(cls)
        o._d = SymDict()
        return o

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __contains__(self, x):
        return x in self._d

    def add(self, x):
        self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        if not self._d:
            raise KeyError("pop from an empty set")
        k = next(iter(list(self._d)))
        del self._d[k]
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SymSet(copy.deepcopy(x, memo) for x in self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        s = SymSet(self)
        s.update(*its)
        return s

    def intersection(self, *its):
        s = self
        for it in its:
            s = s & _asset(it)
        return SymSet(s)

    def difference(self, *its):
        s = self
        for it in its:
            s = s - _asset(it)
        return SymSet(s)

    def symmetric_difference(self, it):
        return self ^ _asset(it)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        keep = self.intersection(*its)
        self._d = keep._d

    def issubset(self, o):
        return self <= _asset(o)

    def issuperset(self, o):
        return all(x in self for x in o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}"

    def __reduce_ex__(self, proto):
        raise Inconclusive("pickling a set")


class SymFrozenSet(SymSet):
    def __hash__(self):
        raise TypeError("symbolic frozenset hashed natively")

    def _no(self, *a):
        raise AttributeError("frozenset cannot be changed")
    add = discard = remove = pop = clear = update = _no
