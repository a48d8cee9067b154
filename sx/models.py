"""Stand-ins for the standard and third-party modules /repo imports."""
import hashlib as _hashlib
import io as _io
import json as _json
import math
import os as _os
import subprocess as _subprocess
import types

import z3

from . import rt, values as V
from .engine import E, Inconclusive
from .instrument import Facade
from .values import (BV, SymBool, SymBytes, SymDict, SymInt, SymStr, branch, bv, ceq, cin, crange,
                     is_sym, zand, zor)
from .world import Crash, W, codes_of, is_conc, lit


# ==================================================================== json
def _plain(x):
    """ordinary value of a value without symbolic parts, or raises KeyError"""
    t = type(x)
    if t in (str, int, float, bool, type(None)):
        return x
    if t is SymDict or isinstance(x, SymDict):
        return {(_plain(k) if type(k) is not str else k): _plain(v) for k, v in x.items()}
    if t is list or t is tuple:
        return [_plain(v) for v in x]
    if isinstance(x, V.SYM):
        raise _HasSym()
    if t is dict:
        return {(_plain(k) if type(k) is not str else k): _plain(v) for k, v in x.items()}
    return x


class _HasSym(Exception):
    pass


HEXD = "0123456789abcdef"


def hexdigit(n):
    if isinstance(n, int):
        return ord(HEXD[n])
    return z3.If(z3.ULT(n, BV(10)), n + BV(48), n + BV(87))


# What the terms made by the encoder stand for, so that the parser can decode them without asking
# for the value of each digit: {ids of the terms: (the terms, to keep the ids; the value)}
_DECODED = {}


def _decoded(terms, value):
    if len(_DECODED) > 20000:
        _DECODED.clear()
    _DECODED[tuple(t if isinstance(t, int) else -1 - t.get_id() for t in terms)] = (terms, value)


def _lookup(terms):
    hit = _DECODED.get(tuple(t if isinstance(t, int) else -1 - t.get_id() for t in terms))
    return None if hit is None else hit[1]


def u4(x):
    if isinstance(x, int):
        return lit("\\u%04x" % x)
    digits = (hexdigit(z3.LShR(x, BV(12)) & BV(15)), hexdigit(z3.LShR(x, BV(8)) & BV(15)),
              hexdigit(z3.LShR(x, BV(4)) & BV(15)), hexdigit(x & BV(15)))
    _decoded(digits, x)
    return (92, 117) + digits


_SHORT = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r"}


def enc_string(s, ensure_ascii=True):
    out = [34]
    for x in SymStr.lift(s):
        if branch(zand([crange(x, 0x20, 0x7e), V.znot(ceq(x, 34)), V.znot(ceq(x, 92))])):
            out.append(x)
        elif branch(cin(x, (34, 92) + tuple(_SHORT))):
            if isinstance(x, int):
                e = ord(_SHORT.get(x, chr(x)))
            else:
                e = x
                for k, c in _SHORT.items():
                    e = z3.If(x == BV(k), BV(ord(c)), e)
                _decoded((e,), x)
            out.extend((92, e))
        elif ensure_ascii and branch(crange(x, 0, 0xffff)):
            out.extend(u4(x))
        elif not ensure_ascii and branch(crange(x, 0, 0x1f)):
            out.extend(u4(x))
        elif not ensure_ascii:
            out.append(x)
        else:
            y = bv(x) - BV(0x10000)
            hi, lo = BV(0xd800) | z3.LShR(y, BV(10)), BV(0xdc00) | (y & BV(0x3ff))
            if isinstance(x, int):
                hi, lo = z3.simplify(hi).as_long(), z3.simplify(lo).as_long()
            else:
                _decoded((hi, lo), x)
            out.extend(u4(hi))
            out.extend(u4(lo))
    out.append(34)
    return out


def _key(k):
    if isinstance(k, (str,)):
        return k
    if isinstance(k, bool):
        return "true" if k else "false"
    if k is None:
        return "null"
    if isinstance(k, int):
        return rt.to_str(k)
    if isinstance(k, float):
        return _json.dumps(k)
    raise TypeError(f"keys must be str, int, float, bool or None, not {k.__class__.__name__}")


def dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None,
          indent=None, separators=None, default=None, sort_keys=False, **kw):
    if cls is not None and cls is not JSONEncoder:
        return cls(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular,
                   allow_nan=allow_nan, indent=indent, separators=separators, default=default,
                   sort_keys=sort_keys, **kw).encode(obj)
    if kw:
        raise TypeError("JSONEncoder.__init__() got an unexpected keyword argument "
                        + repr(next(iter(kw))))
    if skipkeys:
        raise Inconclusive("json.dumps option")
    try:
        return _json.dumps(_plain(obj), ensure_ascii=ensure_ascii, allow_nan=allow_nan,
                           indent=indent, separators=separators,
                           default=default and (lambda o: _plain(default(o))),
                           sort_keys=sort_keys)
    except _HasSym:
        pass
    if separators is None:
        separators = (", ", ": ") if indent is None else (",", ": ")
    isep, ksep = [list(map(ord, s)) for s in separators]
    if isinstance(indent, int) and not isinstance(indent, bool):
        indent = " " * indent
    out = []

    def nl(level):
        if indent is not None:
            out.extend(map(ord, "\n" + indent * level))

    def w(x, level):
        if isinstance(x, str):
            out.extend(enc_string(x, ensure_ascii))
        elif x is None:
            out.extend(lit("null"))
        elif isinstance(x, bool):
            out.extend(lit("true" if x else "false"))
        elif isinstance(x, int):
            out.extend(lit(rt.to_str(x)))
        elif isinstance(x, float):
            out.extend(lit(_json.dumps(x, allow_nan=allow_nan)))
        elif isinstance(x, (list, tuple)):
            if not x:
                out.extend(lit("[]"))
                return
            out.append(91)
            for i, y in enumerate(x):
                if i:
                    out.extend(isep)
                nl(level + 1)
                w(y, level + 1)
            nl(level)
            out.append(93)
        elif isinstance(x, dict):
            items = [(_key(k), v) for k, v in x.items()]
            if sort_keys:
                items.sort(key=lambda kv: kv[0])
            if not items:
                out.extend(lit("{}"))
                return
            out.append(123)
            for i, (k, v) in enumerate(items):
                if i:
                    out.extend(isep)
                nl(level + 1)
                out.extend(enc_string(k, ensure_ascii))
                out.extend(ksep)
                w(v, level + 1)
            nl(level)
            out.append(125)
        elif default is not None:
            w(default(x), level)
        else:
            raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")

    w(obj, 0)
    return SymStr.mk(out)


def dump(obj, fp, **kw):
    fp.write(dumps(obj, **kw))


class JSONEncoder:
    item_separator, key_separator = ", ", ": "

    def __init__(self, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
                 sort_keys=False, indent=None, separators=None, default=None):
        self.skipkeys, self.ensure_ascii, self.allow_nan = skipkeys, ensure_ascii, allow_nan
        self.check_circular, self.sort_keys, self.indent = check_circular, sort_keys, indent
        if separators is not None:
            self.item_separator, self.key_separator = separators
        elif indent is not None:
            self.item_separator = ","
        if default is not None:
            self.default = default

    def default(self, o):
        raise TypeError(f"Object of type {o.__class__.__name__} is not JSON serializable")

    def encode(self, o):
        return dumps(o, skipkeys=self.skipkeys, ensure_ascii=self.ensure_ascii,
                     allow_nan=self.allow_nan, sort_keys=self.sort_keys, indent=self.indent,
                     separators=(self.item_separator, self.key_separator), default=self.default)

    def iterencode(self, o, _one_shot=False):
        return iter([self.encode(o)])


class JSONDecoder:
    def __init__(self, **kw):
        self.options = kw

    def decode(self, s):
        return loads(s, **self.options)


def _conv(x):
    if type(x) is dict:
        d = SymDict()
        for k, v in x.items():
            d[k] = _conv(v)
        return d
    if type(x) is list:
        return [_conv(v) for v in x]
    return x


class _Parser:
    def __init__(self, c, text, object_hook=None, object_pairs_hook=None):
        self.c, self.text = c, text
        self.object_hook, self.object_pairs_hook = object_hook, object_pairs_hook

    def made(self, pairs):
        if self.object_pairs_hook is not None:
            return self.object_pairs_hook(pairs)
        out = SymDict()
        for k, v in pairs:
            out[k] = v
        return out if self.object_hook is None else self.object_hook(out)

    def err(self, i):
        raise _json.JSONDecodeError("symbolic text", "", i)

    def is_(self, i, ch):
        return i < len(self.c) and branch(ceq(self.c[i], ord(ch)))

    def ws(self, i):
        while i < len(self.c) and branch(cin(self.c[i], (32, 9, 10, 13))):
            i += 1
        return i

    def value(self, i):
        i = self.ws(i)
        if i >= len(self.c):
            self.err(i)
        if self.is_(i, '"'):
            return self.string(i + 1)
        if self.is_(i, "{"):
            return self.object(i + 1)
        if self.is_(i, "["):
            return self.array(i + 1)
        for w, v in (("null", None), ("true", True), ("false", False), ("NaN", math.nan),
                     ("Infinity", math.inf), ("-Infinity", -math.inf)):
            if self.is_(i, w[0]):
                if branch(V.seq_eq(self.c[i:i + len(w)], lit(w))):
                    return v, i + len(w)
        j = i
        while j < len(self.c) and branch(zor([crange(self.c[j], 48, 57),
                                              cin(self.c[j], (43, 45, 46, 69, 101))])):
            j += 1
        if j == i:
            self.err(i)
        s = SymStr.mk(self.c[i:j])
        if isinstance(s, SymStr):
            s = s.concrete("json number")
        return _json.loads(s), j

    def string(self, i):
        out = []
        while True:
            if i >= len(self.c):
                self.err(i)
            x = self.c[i]
            if branch(ceq(x, 34)):
                return SymStr.mk(out), i + 1
            if not branch(ceq(x, 92)):
                if branch(crange(x, 0, 0x1f)):
                    self.err(i)
                out.append(x)
                i += 1
                continue
            if i + 1 >= len(self.c):
                self.err(i)
            e = self.c[i + 1]
            if not isinstance(e, int):
                v = _lookup((e,))
                if v is not None:
                    out.append(v)
                    i += 2
                    continue
            for k, v in ((34, 34), (92, 92), (47, 47), (98, 8), (102, 12), (110, 10), (114, 13),
                         (116, 9)):
                if branch(ceq(e, k)):
                    out.append(v)
                    i += 2
                    break
            else:
                if not branch(ceq(e, 117)):
                    self.err(i)
                v, i = self.hex4(i + 2)
                if self.is_(i, "\\") and self.is_(i + 1, "u") and \
                        branch(crange(v, 0xd800, 0xdbff)):
                    v2, j = self.hex4(i + 2)
                    if branch(crange(v2, 0xdc00, 0xdfff)):
                        w = None if isinstance(v, int) else _lookup((v, v2))
                        if w is not None:
                            out.append(w)
                            i = j
                            continue
                        v = BV(0x10000) + (((bv(v) - BV(0xd800)) << BV(10)) | (bv(v2) - BV(0xdc00)))
                        v = z3.simplify(v)
                        if z3.is_bv_value(v):
                            v = v.as_long()
                        i = j
                out.append(v)

    def hex4(self, i):
        if i + 4 > len(self.c):
            self.err(i)
        if not all(isinstance(x, int) for x in self.c[i:i + 4]):
            v = _lookup(tuple(self.c[i:i + 4]))
            if v is not None:
                return v, i + 4
        r = 0
        for x in self.c[i:i + 4]:
            if isinstance(x, int):
                if chr(x) not in "0123456789abcdefABCDEF":
                    self.err(i)
                d = int(chr(x), 16)
            else:
                if branch(crange(x, 48, 57)):
                    d = x - BV(48)
                elif branch(crange(x, 97, 102)):
                    d = x - BV(87)
                elif branch(crange(x, 65, 70)):
                    d = x - BV(55)
                else:
                    self.err(i)
            r = r * 16 + d if isinstance(r, int) and isinstance(d, int) else \
                (bv(r) << BV(4)) | bv(d)
        if not isinstance(r, int):
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                r = r.as_long()
        return r, i + 4

    def array(self, i):
        out = []
        i = self.ws(i)
        if self.is_(i, "]"):
            return out, i + 1
        while True:
            v, i = self.value(i)
            out.append(v)
            i = self.ws(i)
            if self.is_(i, "]"):
                return out, i + 1
            if not self.is_(i, ","):
                self.err(i)
            i += 1

    def object(self, i):
        out = []
        i = self.ws(i)
        if self.is_(i, "}"):
            return self.made(out), i + 1
        while True:
            i = self.ws(i)
            if not self.is_(i, '"'):
                self.err(i)
            k, i = self.string(i + 1)
            i = self.ws(i)
            if not self.is_(i, ":"):
                self.err(i)
            v, i = self.value(i + 1)
            out.append((k, v))
            i = self.ws(i)
            if self.is_(i, "}"):
                return self.made(out), i + 1
            if not self.is_(i, ","):
                self.err(i)
            i += 1


def loads(s, *, cls=None, object_hook=None, object_pairs_hook=None, **kw):
    if kw:
        raise Inconclusive("json.loads option")
    if cls is not None and cls is not JSONDecoder:
        hooks = dict(object_hook=object_hook, object_pairs_hook=object_pairs_hook)
        return cls(**{k: v for k, v in hooks.items() if v is not None}).decode(s)
    if isinstance(s, SymBytes):
        s = s.decode()
    if not isinstance(s, SymStr):
        v = _conv(_json.loads(s))
        if object_hook is None and object_pairs_hook is None:
            return v
        s = SymStr(tuple(map(ord, s if isinstance(s, str) else s.decode())))
    p = _Parser(s.c, s, object_hook, object_pairs_hook)
    v, i = p.value(0)
    i = p.ws(i)
    if i != len(s.c):
        raise _json.JSONDecodeError("Extra data", "", i)
    return v


def load(fp, **kw):
    return loads(fp.read(), **kw)


json = Facade(_json, dumps=dumps, loads=loads, dump=dump, load=load, JSONEncoder=JSONEncoder,
              JSONDecoder=JSONDecoder)


# ================================================================ hashlib
class Digest:
    def __init__(self, algo, data=b""):
        self.algo = algo
        self.c = codes_of(data)
        self.name = algo

    def update(self, data):
        self.c = self.c + tuple(codes_of(data))

    def hexdigest(self):
        c = self.c
        if self.algo == "sha1" and c[:5] == tuple(b"blob "):
            i = 5
            while i < len(c) and isinstance(c[i], int) and 48 <= c[i] <= 57:
                i += 1
            if i < len(c) and ceq(c[i], 0) is True and i > 5 \
                    and int(bytes(c[5:i])) == len(c) - i - 1:
                return W.git.ids.blob(c[i + 1:])
        return W.git.ids.digest(self.algo, c)

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        d = Digest(self.algo)
        d.c = self.c
        return d


def _mk(algo):
    def f(data=b"", **kw):
        return Digest(algo, data)
    return f


hashlib = Facade(_hashlib, new=lambda algo, data=b"", **k: Digest(algo, data),
                 **{a: _mk(a) for a in ("sha1", "sha256", "md5", "sha512")})


# ============================================================= subprocess
def _argv(args, shell):
    if isinstance(args, str):
        if shell:
            return None
        return [args]
    return [rt.call(_os.fspath, a) if not isinstance(a, (str, bytes)) else a for a in args]


class Popen:
    def __init__(self, args, bufsize=-1, stdin=None, stdout=None, stderr=None, shell=False,
                 text=None, encoding=None, universal_newlines=None, cwd=None, env=None, **kw):
        self.args = args
        self._text = bool(text or encoding or universal_newlines)
        self._shell = shell
        self._encoding = encoding
        if kw.get("errors") not in (None, "strict"):
            raise Inconclusive("decoding errors of a process")
        self._stdin, self._stdout, self._stderr = stdin, stdout, stderr
        self._cwd = cwd
        self.returncode = None
        self.pid = 4242
        self.stdin = _PipeIn(self) if stdin == _subprocess.PIPE else None
        self.stdout = _PipeOut(self, "_out") if stdout == _subprocess.PIPE else None
        self.stderr = _PipeOut(self, "_err") if stderr == _subprocess.PIPE else None
        self._data = ()
        self._done = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def _go(self):
        if self._done:
            return
        self._done = True
        data = self._data
        s = self._stdin
        if isinstance(s, _PipeOut):
            data = codes_of(s.read_bytes())
        elif s is not None and not (isinstance(s, int) and s < 0):
            # the process reads what is in the file system, from where the file is
            f = _file(s)
            data = tuple(W.fs.files.get(f.name, ()))[f.pos:]
            f.pos += len(data)
        if self._shell and isinstance(self.args, str):
            rc, out, err = W.shell(self.args, SymBytes.mk(data))
        else:
            argv = _argv(self.args, False)
            if self._cwd is not None and argv and argv[0] == "git":
                argv = [argv[0], "-C", rt.call(_os.fspath, self._cwd)] + argv[1:]
            rc, out, err = W.command(argv, SymBytes.mk(data))
        self.returncode = rc
        out, err = tuple(out), tuple(err)
        if self._stderr == _subprocess.STDOUT:
            out, err = out + err, ()
        self._out, self._err = out, err
        for f, x in ((self._stdout, out), (self._stderr, err)):
            if f is not None and not (isinstance(f, int) and f < 0):
                _write_to(f, x)

    def _res(self, c):
        if not self._text:
            return SymBytes.mk(c)
        if self._encoding is not None and self._encoding.lower().replace("_", "-") not in (
                "utf-8", "utf8"):
            raise Inconclusive(f"output in {self._encoding}")
        x = V.decode_utf8(c)
        if is_sym(x) or "\r" in x:
            # universal newlines
            x = SymStr(SymStr.lift(x)).replace("\r\n", "\n")
            x = SymStr(SymStr.lift(x)).replace("\r", "\n")
        return x

    def communicate(self, input=None, timeout=None):
        if input is not None:
            if self._text and not isinstance(input, str):
                raise TypeError("input must be str")
            if not self._text and not isinstance(input, (bytes, bytearray)):
                raise TypeError("a bytes-like object is required, not 'str'")
            self._data = self._data + tuple(codes_of(input))
        self._go()
        return (self._res(self._out) if self.stdout is not None else None,
                self._res(self._err) if self.stderr is not None else None)

    def wait(self, timeout=None):
        self._go()
        return self.returncode

    def poll(self):
        self._go()
        return self.returncode

    def kill(self):
        pass

    terminate = kill


def _file(f):
    """The open file behind a file object or descriptor"""
    if isinstance(f, int):
        return types.SimpleNamespace(name=W.fs.fds[f], pos=0, append=True)
    f = getattr(f, "_f", f)
    if not hasattr(f, "fs"):
        raise Inconclusive("redirection to an unknown file")
    f._open()
    return f


def _write_to(f, out):
    f = _file(f)
    old = tuple(W.fs.files.get(f.name, ()))
    at = len(old) if f.append else f.pos
    W.fs.files[f.name] = old[:at] + tuple(out) + old[at + len(out):]
    f.pos = at + len(out)


class _PipeIn:
    def __init__(self, p):
        self.p = p
        self.closed = False

    def write(self, x):
        if self.closed:
            raise ValueError("write to closed file")
        if self.p._text != isinstance(x, str):
            raise TypeError("write() argument must be str" if self.p._text
                            else "a bytes-like object is required, not 'str'")
        self.p._data = self.p._data + tuple(codes_of(x))
        return len(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _PipeOut:
    def __init__(self, p, attr):
        self.p, self.attr = p, attr
        self.pos = 0
        self.closed = False

    def read_bytes(self):
        self.p._go()
        return SymBytes.mk(getattr(self.p, self.attr))

    def read(self, n=-1):
        self.p._go()
        if n is not None and n >= 0:
            if self.p._text:
                raise Inconclusive("reading a part of the output")
            x = SymBytes.mk(getattr(self.p, self.attr)[self.pos:self.pos + n])
        else:
            x = self.p._res(getattr(self.p, self.attr)[self.pos:])
        self.pos = len(getattr(self.p, self.attr)) if n is None or n < 0 else self.pos + len(x)
        return x

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readlines(self):
        x = self.read()
        if not len(x):
            return []
        cls = SymBytes if isinstance(x, bytes) else SymStr
        out, start, c = [], 0, cls.lift(x)
        for i, b in enumerate(c):
            if branch(ceq(b, 10)):
                out.append(cls.mk(c[start:i + 1]))
                start = i + 1
        if start < len(c):
            out.append(cls.mk(c[start:]))
        return out

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        if not hasattr(self, "_rest"):
            self._rest = self.readlines()
        return self._rest.pop(0) if self._rest else ("" if self.p._text else b"")


class CompletedProcess(_subprocess.CompletedProcess):
    pass


def run(args, input=None, capture_output=False, check=False, timeout=None, stdin=None, stdout=None,
        stderr=None, **kw):
    if capture_output:
        stdout = stderr = _subprocess.PIPE
    p = Popen(args, stdin=_subprocess.PIPE if input is not None else stdin, stdout=stdout,
              stderr=stderr, **kw)
    out, err = p.communicate(input)
    r = CompletedProcess(args, p.returncode, out, err)
    if check and p.returncode:
        raise _subprocess.CalledProcessError(p.returncode, args, out, err)
    return r


def check_output(args, **kw):
    kw.pop("timeout", None)
    return run(args, stdout=_subprocess.PIPE, check=True, **kw).stdout


def call(args, **kw):
    return run(args, **kw).returncode


def check_call(args, **kw):
    return run(args, check=True, **kw).returncode


def getstatusoutput(cmd, *a, **k):
    r = run(cmd, shell=True, text=True, stdout=_subprocess.PIPE, stderr=_subprocess.STDOUT)
    out = r.stdout
    if len(out) and rt.call(out.endswith, "\n"):
        out = out[:-1]
    return r.returncode, out


subprocess = Facade(_subprocess, getstatusoutput=getstatusoutput,
                    getoutput=lambda cmd, *a, **k: getstatusoutput(cmd)[1], Popen=Popen, run=run, check_output=check_output, call=call,
                    check_call=check_call, CompletedProcess=CompletedProcess)


# ===================================================================== os
def _stat(path, *, dir_fd=None, follow_symlinks=True):
    p = W.fs.norm(path)
    if p in W.fs.dirs:
        return _os.stat_result((0o40755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
    if p in W.fs.files:
        return _os.stat_result((0o100644, 2, 1, 1, 0, 0, len(W.fs.files[p]), 0, 0, 0))
    raise FileNotFoundError(2, "No such file or directory", p)


def _alive():
    if W.dead:
        raise Crash()


def _mkdir(path, mode=0o777, *, dir_fd=None):
    _alive()
    import posixpath
    p = W.fs.norm(path)
    if W.fs.exists(p):
        raise FileExistsError(17, "File exists", p)
    if posixpath.dirname(p) not in W.fs.dirs:
        raise FileNotFoundError(2, "No such file or directory", p)
    W.fs.dirs.add(p)


def _makedirs(path, mode=0o777, exist_ok=False):
    _alive()
    p = W.fs.norm(path)
    if W.fs.exists(p):
        if not exist_ok or p in W.fs.files:
            raise FileExistsError(17, "File exists", p)
        return
    W.fs.mkdirs(p)


def _unlink(path, *, dir_fd=None):
    _alive()
    p = W.fs.norm(path)
    if p not in W.fs.files:
        raise FileNotFoundError(2, "No such file or directory", p)
    del W.fs.files[p]


def _rename(a, b, **k):
    _alive()
    a, b = W.fs.norm(a), W.fs.norm(b)
    if a not in W.fs.files:
        raise FileNotFoundError(2, "No such file or directory", a)
    W.fs.files[b] = W.fs.files.pop(a)


def _listdir(path="."):
    import posixpath
    p = W.fs.norm(path)
    if p not in W.fs.dirs:
        raise FileNotFoundError(2, "No such file or directory", p)
    return sorted(posixpath.basename(x) for x in [*W.fs.dirs, *W.fs.files]
                  if x != "/" and posixpath.dirname(x) == p)


class _DirEntry:
    def __init__(self, d, name):
        import posixpath
        self.name, self.path = name, posixpath.join(d, name)

    def is_dir(self, *, follow_symlinks=True):
        return W.fs.norm(self.path) in W.fs.dirs

    def is_file(self, *, follow_symlinks=True):
        return W.fs.norm(self.path) in W.fs.files

    def is_symlink(self):
        return False

    def __fspath__(self):
        return self.path

    def stat(self, *, follow_symlinks=True):
        return _stat(self.path)


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _scandir(path="."):
    return _Scan(_DirEntry(rt.deep_concrete(rt.call(_os.fspath, path)), n) for n in _listdir(path))


def _walk(top, topdown=True, onerror=None, followlinks=False):
    top = rt.deep_concrete(rt.call(_os.fspath, top))
    if W.fs.norm(top) not in W.fs.dirs:
        return
    es = _scandir(top)
    ds, fs = [e.name for e in es if e.is_dir()], [e.name for e in es if not e.is_dir()]
    if topdown:
        yield top, ds, fs
    for d in ds:
        yield from _walk(f"{top}/{d}", topdown)
    if not topdown:
        yield top, ds, fs


def _rmdir(path, *, dir_fd=None):
    _alive()
    p = W.fs.norm(path)
    if p not in W.fs.dirs:
        raise FileNotFoundError(2, "No such file or directory", p)
    if _listdir(p):
        raise OSError(39, "Directory not empty", p)
    W.fs.dirs.discard(p)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    _alive()
    p = W.fs.norm(path)
    if p not in W.fs.files:
        if not flags & _os.O_CREAT:
            raise FileNotFoundError(2, "No such file or directory", p)
        W.fs.open(p, "wb")
    elif flags & _os.O_EXCL and flags & _os.O_CREAT:
        raise FileExistsError(17, "File exists", p)
    elif flags & _os.O_TRUNC:
        W.fs.files[p] = ()
    return W.fs.descriptor(p)


def _os_close(fd):
    W.fs.fds.pop(fd)


def _os_write(fd, data):
    _alive()
    p = W.fs.fds[fd]
    c = tuple(codes_of(data))
    W.fs.files[p] = tuple(W.fs.files[p]) + c
    return len(c)


def _fdopen(fd, mode="r", *a, **k):
    return W.fs.open(W.fs.fds[fd], mode, *a, **k)


def _rmtree(path, ignore_errors=False, onerror=None, **k):
    _alive()
    if W.fs.norm(path) not in W.fs.dirs:
        if ignore_errors:
            return
        raise FileNotFoundError(2, "No such file or directory", W.fs.norm(path))
    W.fs.rmtree(path)


def _copyfile(a, b, **k):
    import posixpath
    _alive()
    p, q = W.fs.norm(a), W.fs.norm(b)
    if p not in W.fs.files:
        raise FileNotFoundError(2, "No such file or directory", p)
    if q in W.fs.dirs:
        q = q + "/" + posixpath.basename(p)
    with W.fs.open(q, "wb"):
        pass
    W.fs.files[q] = W.fs.files[p]
    return q


def _move(a, b, **k):
    import posixpath
    p, q = W.fs.norm(a), W.fs.norm(b)
    if q in W.fs.dirs:
        q = q + "/" + posixpath.basename(p)
    _rename(p, q)
    return q


def _unsupported(name):
    def f(*a, **k):
        raise Inconclusive(f"os.{name}")
    return f


os = Facade(
    _os, stat=_stat, lstat=_stat, mkdir=_mkdir, makedirs=_makedirs, unlink=_unlink,
    remove=_unlink, rename=_rename, replace=_rename, listdir=_listdir,
    getpid=lambda: 4242, getcwd=lambda: "/cwd",
    scandir=_scandir, walk=_walk, rmdir=_rmdir, open=_os_open, close=_os_close, write=_os_write,
    fdopen=_fdopen, access=lambda p, mode, **k: W.fs.exists(p), utime=lambda *a, **k: None,
    chmod=lambda *a, **k: None, fsync=lambda fd: None,
    **{n: _unsupported(n) for n in (
        "system", "popen", "fork", "removedirs", "symlink", "read", "dup", "dup2", "pipe",
        "link", "readlink", "kill", "execv", "execvp", "chdir", "truncate", "ftruncate", "fstat",
        "mkfifo", "mknod", "chown", "fwalk", "renames", "spawnv", "posix_spawn")})


class MemoryFile:
    """io.BytesIO and io.StringIO (newline="\\n") of symbolic content"""
    KIND = SymBytes
    NAME = "bytes"

    def __init__(self, initial=None, newline="\n"):
        if newline != "\n":
            raise Inconclusive("StringIO with newline")
        self.c, self.pos, self.closed = (), 0, False
        if initial is not None:
            self.c = self._codes(initial)

    def _codes(self, x):
        if isinstance(x, memoryview):
            x = bytes(x)
        c = self.KIND.lift(x)
        if c is None:
            raise TypeError(f"a {self.NAME}-like object is required, not {type(x).__name__!r}")
        return tuple(c)

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        self._open()

    def readable(self):
        return True

    writable = seekable = readable

    def write(self, x):
        self._open()
        c = self._codes(x)
        old = self.c + (0,) * (self.pos - len(self.c))
        self.c = old[:self.pos] + c + old[self.pos + len(c):]
        self.pos += len(c)
        return len(c)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        self._open()
        return self.KIND.mk(self.c)

    getbuffer = getvalue

    def seek(self, to, whence=0):
        self._open()
        self.pos = to + (0, self.pos, len(self.c))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.c = self.c[:self.pos if size is None else size]
        return len(self.c)

    def read(self, n=-1):
        self._open()
        c = self.c[self.pos:] if n is None or n < 0 else self.c[self.pos:self.pos + n]
        self.pos += len(c)
        return self.KIND.mk(c)

    def readline(self, size=-1):
        self._open()
        n = 0
        rest = self.c[self.pos:]
        for b in rest:
            n += 1
            if n == size or branch(ceq(b, 10)):
                break
        return self.read(n)

    def __iter__(self):
        while self.pos < len(self.c):
            yield self.readline()

    def readlines(self, hint=-1):
        return list(self)


class BytesIO(MemoryFile):
    read1 = MemoryFile.read


class StringIO(MemoryFile):
    KIND = SymStr
    NAME = "str"


io = Facade(_io, open=lambda *a, **k: W.fs.open(*a, **k), BytesIO=BytesIO, StringIO=StringIO)


# =============================================================== the rest
class _NullLogger:
    def __init__(self, name=""):
        self.name = name
        self.handlers = []
        self.level = 0

    def _no(self, *a, **k):
        return None

    debug = info = warning = warn = error = critical = exception = log = _no
    setLevel = addHandler = removeHandler = _no

    def isEnabledFor(self, level):
        return False

    def getChild(self, name):
        return self


import logging as _logging
logging = Facade(_logging, getLogger=lambda name=None: _NullLogger(name), Logger=_NullLogger,
                 basicConfig=lambda *a, **k: None,
                 **{n: _NullLogger()._no for n in ("debug", "info", "warning", "error", "critical",
                                                   "exception", "log")})

import time as _time


def _tick():
    W.now += 1.0
    return W.now


time = Facade(_time, time=_tick, monotonic=_tick, perf_counter=_tick, sleep=lambda s: None,
              time_ns=lambda: int(_tick()) * 10**9)


class InterProcessLock:
    """fasteners.InterProcessLock: a POSIX record lock, held by the process."""

    def __init__(self, path, sleep_func=None, logger=None):
        self.path = rt.call(_os.fspath, path)
        self.acquired = False
        self.lockfile = None

    def acquire(self, blocking=True, delay=0.01, max_delay=0.1, timeout=None):
        _alive()
        p = W.fs.norm(self.path)
        import posixpath
        W.fs.mkdirs(posixpath.dirname(p))
        W.fs.files.setdefault(p, ())
        if p in W.others:
            if not blocking or timeout is not None and timeout < 5:
                return False
            W.finish_other(p)
        W.locks[p] = True
        self.acquired = True
        return True

    def release(self):
        if not self.acquired:
            import threading
            raise threading.ThreadError("Unable to release an unacquired lock")
        _alive()
        W.locks[W.fs.norm(self.path)] = False
        self.acquired = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def exists(self):
        return W.fs.exists(self.path)


fasteners = types.SimpleNamespace(InterProcessLock=InterProcessLock, __name__="fasteners")
appdirs = types.SimpleNamespace(
    user_cache_dir=lambda *a, **k: "/cache/" + "/".join(str(x) for x in a),
    user_data_dir=lambda *a, **k: "/data/" + "/".join(str(x) for x in a), __name__="appdirs")


class TemporaryDirectory:
    def __init__(self, suffix=None, prefix=None, dir=None, **k):
        self.name = W.fs.mkdtemp(prefix or "tmp")
        self._fs = W.fs

    def cleanup(self):
        # objects of an earlier path might be collected during a later one
        if self._fs is W.fs:
            W.fs.rmtree(self.name)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()


class NamedTemporaryFile:
    def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None,
                 prefix=None, dir=None, delete=True, *, errors=None, delete_on_close=True):
        d = rt.call(_os.fspath, dir) if dir is not None else W.fs.mkdtemp("f")
        W.fs.n += 1
        self.name = f"{d}/{prefix or 'tmp'}{W.fs.n}{suffix or ''}"
        self._f = W.fs.open(self.name, mode, encoding=encoding, newline=newline, errors=errors)
        self.file = self._f
        self.delete, self.on_close = delete, delete_on_close

    def __getattr__(self, n):
        return getattr(self.__dict__["_f"], n)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        self._drop()

    def __del__(self):
        if self._f.fs is W.fs and not W.dead:
            self.close()
            self._drop()

    def _drop(self):
        if self.delete:
            self._f.fs.files.pop(self._f.name, None)

    def close(self):
        self._f.close()
        if self.on_close:
            self._drop()


def _mkstemp(suffix=None, prefix=None, dir=None, text=False):
    d = rt.call(_os.fspath, dir) if dir is not None else "/tmp"
    W.fs.n += 1
    p = f"{d}/{prefix or 'tmp'}{W.fs.n}{suffix or ''}"
    W.fs.open(p, "wb")
    return W.fs.descriptor(p), p


import tempfile as _tempfile
tempfile = Facade(_tempfile, TemporaryDirectory=TemporaryDirectory,
                  mkdtemp=lambda suffix=None, prefix=None, dir=None: W.fs.mkdtemp(prefix or "tmp"),
                  NamedTemporaryFile=NamedTemporaryFile, mkstemp=_mkstemp,
                  TemporaryFile=lambda mode="w+b", *a, **k: NamedTemporaryFile(mode),
                  SpooledTemporaryFile=_unsupported("SpooledTemporaryFile"),
                  mktemp=_unsupported("mktemp"), gettempdir=lambda: "/tmp")


def _escape_decode(s, errors=None):
    """codecs.escape_decode on symbolic text: Python bytes-literal escapes"""
    if not is_sym(s):
        import codecs as c
        return c.escape_decode(s)
    c = codes_of(s)
    out, i = [], 0
    n = len(c)
    simple = {10: None, 92: 92, 39: 39, 34: 34, 98: 8, 102: 12, 116: 9, 110: 10, 114: 13, 118: 11,
              97: 7}
    while i < n:
        b = c[i]
        if not branch(ceq(b, 92)):
            out.append(b)
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError("Trailing \\ in string")
        e = c[i]
        for k, v in simple.items():
            if branch(ceq(e, k)):
                if v is not None:
                    out.append(v)
                i += 1
                break
        else:
            if branch(crange(e, 48, 55)):
                v = bv(e) - BV(48)
                i += 1
                for _ in range(2):
                    if i < n and branch(crange(c[i], 48, 55)):
                        v = (v << BV(3)) | (bv(c[i]) - BV(48))
                        i += 1
                    else:
                        break
                v = z3.simplify(v & BV(0xff))
                out.append(v.as_long() if z3.is_bv_value(v) else v)
            elif branch(ceq(e, 120)):
                v = V.parse_int(SymBytes(c[i + 1:i + 3]), 16) if len(c) >= i + 3 else None
                if v is None:
                    raise ValueError("invalid \\x escape at position %d" % (i - 1))
                out.append(v if isinstance(v, int) and type(v) is int else v.z)
                i += 3
            else:
                out.extend((92, e))
                i += 1
    return SymBytes.mk(out), n


import codecs as _codecs
codecs = Facade(_codecs, escape_decode=_escape_decode,
                encode=lambda s, enc="utf-8", errors="strict": s.encode(enc),
                decode=lambda b, enc="utf-8", errors="strict": b.decode(enc))

import shlex as _shlex


def _quote(s):
    if isinstance(s, SymStr):
        for x in s.c:
            if not branch(zor([crange(x, 97, 122), crange(x, 64, 90), crange(x, 43, 58),
                               cin(x, [95, 37, 61])])):
                return SymStr((39,)) + s.replace("'", "'\"'\"'") + "'"
        return s
    return _shlex.quote(s)


shlex = Facade(_shlex, quote=_quote, split=lambda s, *a, **k: _shlex.split(rt.deep_concrete(s)),
               join=lambda xs: rt.fjoin([_quote(x) for x in xs], " ") if rt.has_sym(list(xs)) else _shlex.join(xs))

import collections as _collections


class _DefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = rt.call(self.default_factory)
        return v


class _Counter(SymDict):
    def __init__(self, it=(), **k):
        SymDict.__init__(self)
        if isinstance(it, dict):
            SymDict.update(self, it)
        else:
            for x in it:
                self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda kv: -kv[1])[:n]


class _Mapping:
    """what a mapping made of __getitem__, __setitem__, __delitem__, __iter__ and __len__ offers"""
    _missing = object()

    def __contains__(self, k):
        try:
            self[k]
        except KeyError:
            return False
        return True

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def keys(self):
        return SymDict((k, None) for k in self).keys()

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def setdefault(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            self[k] = default
        return default

    def pop(self, k, default=_missing):
        try:
            v = self[k]
        except KeyError:
            if default is _Mapping._missing:
                raise
            return default
        del self[k]
        return v

    def popitem(self):
        for k in self:
            return k, self.pop(k)
        raise KeyError

    def update(self, other=(), /, **kw):
        for k, v in SymDict(other, **kw).items():
            self[k] = v

    def clear(self):
        for k in list(self):
            del self[k]

    def __eq__(self, other):
        return SymDict(self.items()) == (SymDict(other.items()) if isinstance(other, _Mapping) else other)

    def __ne__(self, other):
        return not (self == other)

    __hash__ = None


_collections.abc.MutableMapping.register(_Mapping)


class _ChainMap(_Mapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [SymDict()]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def __iter__(self):
        d = SymDict()
        for m in reversed(self.maps):
            for k in m:
                d[k] = None
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def __bool__(self):
        return any(map(len, self.maps))

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __delitem__(self, k):
        del self.maps[0][k]

    def new_child(self, m=None, **kw):
        return _ChainMap(SymDict(m or (), **kw), *self.maps)

    @property
    def parents(self):
        return _ChainMap(*self.maps[1:])

    def copy(self):
        return _ChainMap(self.maps[0].copy(), *self.maps[1:])


class _UserDict(_Mapping):
    def __init__(self, other=(), /, **kw):
        self.data = SymDict()
        self.update(other, **kw)

    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(type(self), "__missing__"):
            return type(self).__missing__(self, k)
        raise KeyError(k)

    def __contains__(self, k):
        return k in self.data

    def __setitem__(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def copy(self):
        return type(self)(self.data)


collections = Facade(_collections, defaultdict=_DefaultDict, OrderedDict=SymDict, Counter=_Counter,
                     ChainMap=_ChainMap, UserDict=_UserDict)

import functools as _functools


def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        table = SymDict()

        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            if key in table:
                return table[key]
            v = table[key] = f(*a, **k)
            return v
        g.__wrapped__ = f
        g.cache_clear = table.clear
        g.cache_info = lambda: None
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


functools = Facade(_functools, lru_cache=_lru_cache, cache=lambda f: _lru_cache(None)(f))

import posix as _posix


class _NoNorm(Facade):
    def __getattr__(self, n):
        if n.startswith("_path_"):
            raise AttributeError(n)
        return super().__getattr__(n)


posix = _NoNorm(_posix)

import importlib as _importlib
import shutil as _shutil
import glob as _glob
from . import regex as _regex

re = _regex.facade(Facade)
shutil = Facade(
    _shutil, rmtree=_rmtree, copyfile=_copyfile, copy=_copyfile, copy2=_copyfile, move=_move,
    which=lambda cmd, *a, **k: "/usr/bin/git" if cmd == "git" else None,
    copyfileobj=lambda a, b, *k: b.write(a.read()) and None,
    **{n: _unsupported(n) for n in ("copytree", "make_archive", "unpack_archive", "chown",
                                    "disk_usage")})
glob = Facade(_glob, **{n: _unsupported(n) for n in ("glob", "iglob", "glob1", "glob0")})


def overrides(version_module=None):
    ov = {
        "json": json, "hashlib": hashlib, "subprocess": subprocess, "os": os, "io": io,
        "logging": logging, "time": time, "fasteners": fasteners, "appdirs": appdirs,
        "tempfile": tempfile, "codecs": codecs, "shlex": shlex, "collections": collections,
        "functools": functools, "posix": posix, "re": re, "shutil": shutil, "glob": glob,
    }
    return ov
