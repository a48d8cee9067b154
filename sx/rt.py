"""Run-time support called by the instrumented source.

Everything here gives a Python construct its ordinary meaning for ordinary
values, and its symbolic meaning when symbolic values take part.  Where there
is no symbolic meaning, the values are concretised (every alternative value is
still explored, up to a limit that is reported)."""
import builtins
import types

from . import values as V
from .engine import E, Inconclusive
from .values import (SymBool, SymBytes, SymDict, SymInt, SymSet, SymStr, is_sym)

_SYM = V.SYM
_BUILTIN = types.BuiltinFunctionType
_MDESC = type(str.join)
_CMDESC = type(dict.__dict__["fromkeys"])
_WRAP = type("".__add__)
_SLOT = type(str.__add__)


def has_sym(x, depth=4):
    if isinstance(x, _SYM):
        return True
    if depth and type(x) in (tuple, list, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, SymDict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if depth and type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def deep_concrete(x, why="concretised argument"):
    """An ordinary Python value; symbolic parts are fixed on this path."""
    if isinstance(x, (SymStr, SymBytes)):
        return x.concrete(why)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return x.value()
    t = type(x)
    if t is V.SymUUID:
        return x.native()
    if t is tuple or t is list:
        return t(deep_concrete(y, why) for y in x)
    if t is frozenset or t is set or isinstance(x, SymSet):
        return set(deep_concrete(y, why) for y in x)
    if t is dict or isinstance(x, SymDict):
        return {deep_concrete(k, why): deep_concrete(v, why) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ text
class SymHash:
    """The hash of a value, as an uninterpreted injective function of it."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return bool(self.v == o.v)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return builtins.hash(deep_concrete(self.v))

    def __index__(self):
        return builtins.hash(deep_concrete(self.v))

    def __xor__(self, o):
        return SymHash(("xor", self.v, o.v if isinstance(o, SymHash) else o))

    def __add__(self, o):
        return SymHash(("add", self.v, o.v if isinstance(o, SymHash) else o))

    def __mul__(self, o):
        return SymHash(("mul", self.v, o.v if isinstance(o, SymHash) else o))

    __rxor__ = __xor__
    __radd__ = __add__
    __rmul__ = __mul__


def hash_(x):
    if isinstance(x, (str, bytes)) or isinstance(x, (SymStr, SymBytes)):
        return SymHash(x)
    if isinstance(x, (SymBool, SymInt)):
        return SymHash(x)
    if isinstance(x, _uuid.UUID):
        return SymHash(to_str(x))
    if type(x) is tuple or isinstance(x, tuple) and type(x).__hash__ is tuple.__hash__:
        return SymHash(tuple(_hv(y) for y in x))
    if type(x) is frozenset or isinstance(x, V.SymFrozenSet):
        return SymHash(SymSet(_hv(y) for y in x))
    if type(x) is SymSet or type(x) is SymDict or type(x) is list:
        raise TypeError(f"unhashable type: '{type(x).__name__[3:].lower() or 'list'}'")
    t = type(x)
    if V.plain_key(x):
        return builtins.hash(x)
    f = getattr(t, "__hash__", None)
    if f is None:
        raise TypeError(f"unhashable type: '{t.__name__}'")
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.hash(x)


def _hv(y):
    h = hash_(y)
    return h.v if isinstance(h, SymHash) else ("#", h)


def to_str(x):
    """str(x), possibly symbolic"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str) and type(x) is str:
        return x
    if isinstance(x, SymInt):
        return V.SymStr.mk(V.digits(x, 10))
    if isinstance(x, SymBool):
        return "True" if x else "False"
    t = type(x)
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is object.__str__ and isinstance(t.__repr__, types.FunctionType):
        return t.__repr__(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return to_str(x.args[0])
        return "exception"
    if f is object.__str__ and t in (list, tuple, dict):
        return to_repr(x)
    return str(x)


def to_repr(x):
    if isinstance(x, (SymStr, SymBytes)):
        return _text_repr(x)
    if isinstance(x, SymInt):
        return V.SymStr.mk(V.digits(x, 10))
    if isinstance(x, SymBool):
        return "True" if x else "False"
    t = type(x)
    if t in (list, tuple, SymDict, dict, SymSet) and has_sym(x, 8):
        if t in (dict, SymDict):
            return fjoin(["{", fjoin([fjoin([to_repr(k), ": ", to_repr(v)]) for k, v in x.items()],
                                     ", "), "}"])
        o, c = ("[", "]") if t is list else ("(", ")") if t is tuple else ("{", "}")
        body = fjoin([to_repr(y) for y in x], ", ")
        if t is tuple and len(x) == 1:
            body = fjoin([body, ","])
        return fjoin([o, body, c])
    r = t.__repr__
    if isinstance(r, types.FunctionType):
        if _dataclasses.is_dataclass(t) and \
                getattr(r, "__wrapped__", r).__code__.co_filename == "<string>":
            return fjoin([t.__qualname__, "(", fjoin([
                fjoin([n.name, "=", to_repr(getattr(x, n.name))])
                for n in _dataclasses.fields(x) if n.repr], ", "), ")"])
        if isinstance(x, tuple) and r.__code__.co_filename != "<string>" and \
                r.__module__ == "collections" and hasattr(t, "_fields"):
            return fjoin([t.__name__, "(", fjoin([
                fjoin([n, "=", to_repr(getattr(x, n))]) for n in t._fields], ", "), ")"])
        return r(x)
    return repr(x)


def _text_repr(x):
    """repr of text: its quotes, escapes and unprintable characters"""
    b = isinstance(x, SymBytes)
    pre = (98,) if b else ()
    simple = V.zand([V.zand([V.crange(k, 32, 126), V.znot(V.cin(k, [39, 92]))]) for k in x.c])
    if V.branch(simple):
        return SymStr.mk(pre + (39,) + tuple(x.c) + (39,))
    q = 39
    if V.branch(V.zor([V.ceq(k, 39) for k in x.c])) and not V.branch(
            V.zor([V.ceq(k, 34) for k in x.c])):
        q = 34
    out = [*pre, q]
    for k in x.c:
        if V.branch(V.cin(k, [q, 92])):
            out.extend((92, k))
        elif V.branch(V.crange(k, 32, 126)):
            out.append(k)
        else:
            for code, ch in ((10, "n"), (13, "r"), (9, "t")):
                if V.branch(V.ceq(k, code)):
                    out.extend((92, ord(ch)))
                    break
            else:
                if not b and V.branch(V.zor([V.crange(k, 0xa1, 0xac), V.crange(k, 0xae, 0xff)])):
                    out.append(k)
                else:
                    one = (SymBytes if b else SymStr)((k,)).concrete("repr of a character")
                    out.extend(map(ord, repr(one)[2 if b else 1:-1]))
    out.append(q)
    return SymStr.mk(out)


def fjoin(parts, sep=""):
    return SymStr(tuple(map(ord, sep))).join(parts)


def fstr(*parts):
    """A formatted string: parts are text or (value, conversion, spec)."""
    out = []
    for p in parts:
        if type(p) is not tuple:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = to_repr(v)
        elif conv == 115:
            v = to_str(v)
        if spec:
            spec = deep_concrete(spec)
            r = V.format_int(v, spec) if type(v) is SymInt else None
            v = format(deep_concrete(v, "format spec"), spec) if r is None else r
        else:
            v = _format0(v)
        out.append(v)
    if all(type(p) is str for p in out):
        return "".join(out)
    return fjoin(out)


def _format0(v):
    if type(v) is str or isinstance(v, SymStr):
        return v
    f = type(v).__format__
    if f is object.__format__ or isinstance(v, (SymInt, SymBool, V.Seq)):
        return to_str(v)
    return format(v, "")


def mod(a, b):
    if type(a) is str and (has_sym(b) or not isinstance(b, (str, int, float, tuple))):
        args = b if type(b) is tuple else (b,)
        out, i, k = [], 0, 0
        while i < len(a):
            if a[i] == "%" and i + 1 < len(a):
                t = a[i + 1]
                if t == "%":
                    out.append("%")
                elif t == "s":
                    out.append(to_str(args[k]))
                    k += 1
                elif t == "r":
                    out.append(to_repr(args[k]))
                    k += 1
                elif t in "doxX" and type(args[k]) is SymInt:
                    out.append(V.format_int(args[k], t))
                    k += 1
                elif t == "0" and a[i + 2:i + 3].isdigit() and a[i + 3:i + 4] in tuple("doxX") \
                        and type(args[k]) is SymInt:
                    out.append(V.format_int(args[k], a[i + 1:i + 4]))
                    k += 1
                    i += 2
                elif t == "d":
                    out.append(str(deep_concrete(args[k])))
                    k += 1
                else:
                    return a % deep_concrete(b)
                i += 2
            else:
                out.append(a[i])
                i += 1
        return fjoin(out)
    return a % b


def str_format(fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kwargs[field]
        else:
            return fmt.format(*deep_concrete(args), **{k: deep_concrete(x) for k, x in kwargs.items()})
        out.append(fstr((v, ord(conv) if conv else -1, spec)))
    return fstr(*out)


# ------------------------------------------------------------ operators
def contains(a, b):
    """a in b"""
    t = type(b)
    if t is str or t is bytes:
        if is_sym(a):
            cls = SymStr if t is str else SymBytes
            return a in cls(cls.lift_native(b)) if not isinstance(a, SymInt) else a.value() in b
    elif t is dict or t is set or t is frozenset:
        if not V.plain_key(a):
            return any(V.keys_equal(x, a) for x in b)
    elif t is _KEYS:
        if not V.plain_key(a):
            return any(V.keys_equal(x, a) for x in b)
    return a in b


_KEYS = type({}.keys())


def getitem(o, k):
    t = type(o)
    if t is dict and not V.plain_key(k):
        for x in o:
            if V.keys_equal(x, k):
                return o[x]
        raise KeyError(k)
    return o[k]


def mkdict(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


def mkdict_display(*items):
    d = SymDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkset(items):
    return SymSet(items)


def base(cls):
    if cls is dict:
        return SymDict
    if cls is set:
        return SymSet
    return cls


def enter(name):
    E.functions.add(name)
    E.steps += 1
    if E.steps > E.max_steps:
        E.stop(Inconclusive("step limit"))


# ------------------------------------------------------------ calls
SPECIAL = {}
_keep = []


def special(*fs):
    def deco(h):
        for f in fs:
            SPECIAL[id(f)] = h
            _keep.append(f)
        return h
    return deco


@special(str)
def _str(x="", *a, **k):
    if a or k:
        if isinstance(x, SymBytes):
            return x.decode(*a, **k)
        return str(x, *a, **k)
    return to_str(x)


@special(repr, ascii)
def _repr(x):
    return to_repr(x)


@special(format)
def _format(v, spec=""):
    return fstr((v, -1, spec))


@special(dict)
def _dict(*a, **k):
    return SymDict(*a, **k)


@special(set)
def _set(*a):
    return SymSet(*a)


@special(frozenset)
def _frozenset(*a):
    items = list(*a)
    if all(V.plain_key(x) for x in items):
        return frozenset(items)
    return V.SymFrozenSet(items)


@special(bytes)
def _bytes(x=b"", *a):
    if isinstance(x, SymBytes):
        return SymBytes.mk(x.c)
    if isinstance(x, SymStr):
        return x.encode(*a)
    if isinstance(x, (SymInt, int, str, bytes, bytearray)) or not hasattr(x, "__iter__"):
        return bytes(x, *a)
    return SymBytes.mk(V.SymByteArray.terms(x))


@special(bytearray)
def _bytearray(x=b"", *a):
    x = _bytes(x, *a)
    return V.SymByteArray(x.c if isinstance(x, SymBytes) else x)


@special(memoryview)
def _memoryview(x):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        raise TypeError("memoryview: a bytes-like object is required, not 'str'")
    return memoryview(x)


@special(type)
def _type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, _SYM):
            return x.__class__
        t = type(x)
        if t is SymDict:
            return dict
        if t is SymSet:
            return set
        return t
    if len(a) == 3 and isinstance(a[2], SymDict):
        a = (a[0], a[1], deep_concrete(a[2]))
    return type(*a, **k)


@special(hash)
def _hash(x):
    return hash_(x)


@special(len)
def _len(x):
    return len(x)


@special(int)
def _int(x=0, *a, **k):
    if isinstance(x, (SymStr, SymBytes)):
        r = V.parse_int(x, *a, **k)
        return int(x.concrete("int()"), *a, **k) if r is None else r
    if isinstance(x, SymInt) and not a:
        return x
    return int(x, *a, **k)


@special(float)
def _float(x=0.0):
    return float(deep_concrete(x, "float()"))


@special(bool)
def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


@special(map)
def _map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


@special(filter)
def _filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


@special(sorted)
def _sorted(it, key=None, reverse=False):
    xs = list(it)
    return sorted(xs, key=adapt(key), reverse=reverse)


@special(sum)
def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


@special(print)
def _print(*a, **k):
    return None


@special(ord)
def _ord(c):
    if isinstance(c, (SymStr, SymBytes)):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return V.SymInt.mk(c.c[0], 255 if isinstance(c, SymBytes) else 0x10ffff)
    return ord(c)


@special(chr)
def _chr(i):
    if isinstance(i, SymInt):
        if i.hi > 0x10ffff and not E.branch(V.z3.ULE(i.z, V.BV(0x10ffff))):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr.mk((i.z,))
    return chr(i)


@special(getattr)
def _getattr(o, name, *d):
    return getattr(o, deep_concrete(name), *d)


@special(setattr)
def _setattr(o, name, v):
    return setattr(o, deep_concrete(name), v)


@special(hasattr)
def _hasattr(o, name):
    return hasattr(o, deep_concrete(name))


@special(open)
def _open(*a, **k):
    from . import world
    return world.W.fs.open(*a, **k)


@special(str.maketrans)
def _maketrans(*a):
    return str.maketrans(*deep_concrete(a))


@special(dict.fromkeys)
def _fromkeys(it, value=None):
    return SymDict.fromkeys(it, value)


import sys as _sys
import os as _os
import io as _io
import uuid as _uuid
import copy as _copy
import functools as _functools
import itertools as _itertools
import operator as _operator
import dataclasses as _dataclasses

SPECIAL[id(_io.open)] = _open
_keep.append(_io.open)


@special(_sys.intern)
def _intern(x):
    return x if isinstance(x, SymStr) else _sys.intern(x)


@special(_os.fspath)
def _fspath(x):
    if isinstance(x, (SymStr, SymBytes)):
        return x
    f = getattr(type(x), "__fspath__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return _os.fspath(x)


@special(_uuid.UUID)
def _UUID(*a, **k):
    h = a[0] if a else k.get("hex")
    if isinstance(h, SymStr) and len(a) + len(k) == 1:
        return V.SymUUID.of(h)
    return _uuid.UUID(*deep_concrete(a), **{n: deep_concrete(v) for n, v in k.items()})


_CALLED = (types.BuiltinFunctionType, type(str.join), type(str.__add__), _functools.partial,
           _operator.methodcaller)


def adapt(f):
    """function argument of a native function"""
    if isinstance(f, _CALLED) or f in _SPECIAL_TYPES:
        return lambda *a, **k: call(f, *a, **k)
    return f


_SPECIAL_TYPES = (str, bytes, int, bool, len, repr, ord, chr, hash)


def _adapted(f, a, k):
    """arguments of a native function that calls one of them"""
    if not (isinstance(f, _BUILTIN) or type(f) is type and f.__module__ in ("itertools", "functools")
            ) or f is _functools.partial:
        return a, k
    if any(isinstance(x, _CALLED) or type(x) is type for x in a):
        a = tuple(adapt(x) if isinstance(x, _CALLED) or type(x) is type and x in _SPECIAL_TYPES
                  else x for x in a) if getattr(f, "__name__", "") in _CALLING else a
    if "key" in k:
        k = {**k, "key": adapt(k["key"])}
    return a, k


_CALLING = {"reduce", "groupby", "takewhile", "dropwhile", "filterfalse", "starmap", "accumulate"}


def keywords(d):
    """mapping of which the items become keyword arguments"""
    if type(d) is dict and all(type(k) is str for k in d):
        return d
    return {(deep_concrete(k) if is_sym(k) else k): d[k] for k in d.keys()}


def call(f, *a, **k):
    h = SPECIAL.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is _functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is _operator.methodcaller and a and not is_sym(a[0]):
        r = f.__reduce__()
        if r[0] is _operator.methodcaller:
            return call(getattr(a[0], r[1][0]), *r[1][1:])
    a, k = _adapted(f, a, k)
    if t is types.MethodType or t is types.FunctionType:
        return f(*a, **k)
    if t is _BUILTIN:
        return call_builtin(f, a, k)
    if t is _MDESC:
        oc = f.__objclass__
        if a and oc in (str, bytes) and (is_sym(a[0]) or has_sym(a[1:])):
            cls = SymStr if oc is str else SymBytes
            s = a[0] if is_sym(a[0]) else cls(cls.lift_native(a[0]))
            return call(getattr(s, f.__name__), *a[1:], **k)
        if oc is dict and a and isinstance(a[0], SymDict):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        return f(*a, **k)
    if t is _SLOT and a:
        oc = f.__objclass__
        m = None
        if oc in (str, bytes, dict, set):
            o = a[0]
            if oc in (str, bytes) and has_sym(a):
                cls = SymStr if oc is str else SymBytes
                o = o if is_sym(o) else cls(cls.lift_native(o))
                return getattr(o, f.__name__)(*a[1:], **k)
            if isinstance(o, SymDict):
                m = getattr(SymDict, f.__name__)
            elif isinstance(o, SymSet):
                m = getattr(SymSet, f.__name__)
            if m is not None:
                return m(*a, **k)
        return f(*a, **k)
    return f(*a, **k)


def call_builtin(f, a, k):
    s = f.__self__
    ts = type(s)
    if ts is str:
        name = f.__name__
        if name == "join":
            items = list(a[0])
            if has_sym(items, 1):
                return SymStr(tuple(map(ord, s))).join(items)
            return s.join(items)
        if name == "format":
            return str_format(s, a, k)
        if has_sym(a, 2):
            return getattr(SymStr(tuple(map(ord, s))), name)(*a, **k)
        return f(*a, **k)
    if ts is bytes:
        name = f.__name__
        if name == "join":
            a = (list(a[0]),)
        if has_sym(a, 2):
            return getattr(SymBytes(tuple(s)), name)(*a, **k)
        return f(*a, **k)
    if ts is dict:
        name = f.__name__
        if name in ("get", "pop", "setdefault") and a and not V.plain_key(a[0]):
            for x in s:
                if V.keys_equal(x, a[0]):
                    return f(x, *a[1:])
            if name == "get":
                return a[1] if len(a) > 1 else None
            if name == "pop":
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
        return f(*a, **k)
    if s is bytes and f.__name__ == "fromhex" and a and isinstance(a[0], SymStr):
        out = []
        pairs = a[0].replace(" ", "")
        for i in range(0, len(pairs), 2):
            x = V.parse_int(pairs[i:i + 2], 16) if i + 1 < len(pairs) else None
            if x is None:
                raise ValueError("non-hexadecimal number found in fromhex() arg")
            out.append(x if type(x) is int else x.z)
        return SymBytes.mk(tuple(out))
    if ts is list or ts is tuple or ts is set or ts is type or ts is types.ModuleType:
        if ts is types.ModuleType and (has_sym(a, 2) or (k and has_sym(tuple(k.values()), 2))):
            return native_call(f, a, k)
        return f(*a, **k)
    if has_sym(a, 1):
        return native_call(f, a, k)
    return f(*a, **k)


_PASS = {"isinstance", "issubclass", "any", "all", "min", "max", "iter", "next", "id",
         "enumerate", "zip", "reversed", "callable", "cast", "vars", "dir", "list", "tuple",
         "reduce"}


def native_call(f, a, k):
    if f.__name__ in _PASS:
        return f(*a, **k)
    try:
        return f(*a, **k)
    except (TypeError, AttributeError):
        return f(*deep_concrete(a), **{n: deep_concrete(v) for n, v in k.items()})
