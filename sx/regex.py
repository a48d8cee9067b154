"""The re module on symbolic text: backtracking over the parsed pattern, one
branch per character test."""
import re as _re
from re import _constants as C
from re import _parser as P

from . import rt
from . import values as V
from .engine import Inconclusive
from .values import SymBytes, SymStr, branch, ceq, cin, crange, is_sym, znot, zor

_FLAGS = _re.I | _re.M | _re.S | _re.A | _re.U | _re.X


def _cat(cat, c, ascii_only):
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        z = crange(c, 48, 57)
        neg = cat is C.CATEGORY_NOT_DIGIT
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        z = cin(c, [9, 10, 11, 12, 13, 32] if ascii_only else sorted(V.WS))
        neg = cat is C.CATEGORY_NOT_SPACE
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        z = zor([crange(c, 48, 57), crange(c, 65, 90), crange(c, 97, 122), ceq(c, 95)])
        neg = cat is C.CATEGORY_NOT_WORD
    else:
        raise Inconclusive(f"regular expression category {cat}")
    if not ascii_only and cat not in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        if not branch(crange(c, 0, 127)):
            if isinstance(c, int):
                ch = chr(c)
                z = (ch.isdecimal() if "DIGIT" in str(cat) else ch.isalnum() or ch == "_")
            else:
                raise Inconclusive("non-ASCII character in a regular expression category")
    return znot(z) if neg else z


def _swap(k):
    x = chr(k)
    return [ord(y) for y in {x.lower(), x.upper()} if len(y) == 1]


class _M:
    def __init__(self, codes, flags, end):
        self.c, self.flags, self.end = codes, flags, end
        self.ascii = bool(flags & _re.A) or bool(flags & 0x10000)
        self.icase = bool(flags & _re.I)

    def lit(self, c, k):
        if self.icase:
            return cin(c, _swap(k))
        return ceq(c, k)

    def one(self, c, items):
        neg = False
        zs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                zs.append(self.lit(c, av))
            elif op is C.RANGE:
                lo, hi = av
                zs.append(crange(c, lo, hi))
                if self.icase:
                    for a, b, d in ((65, 90, 32), (97, 122, -32)):
                        l, h = max(lo, a), min(hi, b)
                        if l <= h:
                            zs.append(crange(c, l + d, h + d))
            elif op is C.CATEGORY:
                zs.append(_cat(av, c, self.ascii))
            else:
                raise Inconclusive(f"regular expression {op}")
        z = zor(zs)
        return znot(z) if neg else z

    def seq(self, ops, i, pos, g):
        """positions after ops[i:], matched from pos"""
        if i == len(ops):
            yield pos, g
            return
        op, av = ops[i]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos >= self.end:
                return
            c = self.c[pos]
            if op is C.LITERAL:
                z = self.lit(c, av)
            elif op is C.NOT_LITERAL:
                z = znot(self.lit(c, av))
            elif op is C.ANY:
                z = True if self.flags & _re.S else znot(ceq(c, 10))
            else:
                z = self.one(c, av)
            if branch(z):
                yield from self.seq(ops, i + 1, pos + 1, g)
        elif op is C.AT:
            if self.at(av, pos):
                yield from self.seq(ops, i + 1, pos, g)
        elif op is C.SUBPATTERN:
            n, add, rem, p = av
            if add or rem:
                raise Inconclusive("inline flags in a regular expression")
            for q, h in self.seq(list(p), 0, pos, g):
                if n is not None:
                    h = {**h, n: (pos, q)}
                yield from self.seq(ops, i + 1, q, h)
        elif op is C.BRANCH:
            for p in av[1]:
                for q, h in self.seq(list(p), 0, pos, g):
                    yield from self.seq(ops, i + 1, q, h)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            for q, h in self.rep(list(p), lo, hi, pos, g, op is C.MAX_REPEAT, 0):
                yield from self.seq(ops, i + 1, q, h)
        elif op is C.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            if pos + b - a > self.end:
                return
            for k in range(b - a):
                if not branch(V.seq_eq((self.c[a + k],), (self.c[pos + k],))):
                    return
            yield from self.seq(ops, i + 1, pos + b - a, g)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Inconclusive("look-behind of variable width")
                start = pos - lo
                r = None if start < 0 else next(
                    (x for x in self.seq(list(p), 0, start, g) if x[0] == pos), None)
            else:
                r = next(self.seq(list(p), 0, pos, g), None)
            if op is C.ASSERT and r is not None:
                yield from self.seq(ops, i + 1, pos, r[1])
            elif op is C.ASSERT_NOT and r is None:
                yield from self.seq(ops, i + 1, pos, g)
        else:
            raise Inconclusive(f"regular expression {op}")

    def rep(self, p, lo, hi, pos, g, greedy, n):
        more = hi is C.MAXREPEAT or n < hi
        if n >= lo and not greedy:
            yield pos, g
        if more:
            for q, h in self.seq(p, 0, pos, g):
                if q == pos and n >= lo:
                    continue
                yield from self.rep(p, lo, hi, q, h, greedy, n + 1)
        if n >= lo and greedy:
            yield pos, g

    def at(self, what, pos):
        if what is C.AT_BEGINNING and self.flags & _re.M:
            return pos == 0 or branch(ceq(self.c[pos - 1], 10))
        if what in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return pos == 0
        if what is C.AT_END_STRING:
            return pos == self.end
        if what is C.AT_END:
            if pos == self.end:
                return True
            if self.flags & _re.M or pos == self.end - 1:
                return branch(ceq(self.c[pos], 10))
            return False
        if what in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            def word(k):
                return 0 <= k < self.end and branch(_cat(C.CATEGORY_WORD, self.c[k], self.ascii))
            return (word(pos - 1) != word(pos)) == (what is C.AT_BOUNDARY)
        raise Inconclusive(f"regular expression {what}")


class Match:
    def __init__(self, pattern, string, groups, pos, endpos):
        self.re, self.string, self._g = pattern, string, groups
        self.pos, self.endpos = pos, endpos

    def _n(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[rt.deep_concrete(k)]
        if not 0 <= k <= self.re.groups:
            raise IndexError("no such group")
        return k

    def _one(self, k, default=None):
        r = self._g.get(self._n(k))
        return default if r is None else self.string[r[0]:r[1]]

    def group(self, *ks):
        if len(ks) <= 1:
            return self._one(ks[0] if ks else 0)
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return rt.mkdict((n, self._one(k, default)) for n, k in self.re.groupindex.items())

    def span(self, k=0):
        return self._g.get(self._n(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def expand(self, template):
        return _expand(self, rt.deep_concrete(template))

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks, key=lambda k: self._g[k][1]) if ks else None


def _expand(m, template):
    parts = P.parse_template(template, m.re._real)
    out = []
    if isinstance(parts, tuple):        # (groups, literals) of older versions
        raise Inconclusive("template")
    for p in parts:
        if isinstance(p, int):
            x = m._one(p)
            if x is not None:
                out.append(x)
        elif p:
            out.append(p)
    return _join(m.re, out)


def _join(pattern, parts):
    if pattern._bytes:
        return rt.call(b"".join, parts)
    return rt.call("".join, parts)


class Pattern:
    def __init__(self, pattern, flags=0):
        pattern = rt.deep_concrete(pattern)
        self._real = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, self._real.flags
        self.groups, self.groupindex = self._real.groups, dict(self._real.groupindex)
        self._bytes = isinstance(pattern, bytes)
        self._ops = list(P.parse(pattern, self.flags & _FLAGS))

    def __eq__(self, o):
        return isinstance(o, Pattern) and self._real == o._real

    def __hash__(self):
        return hash(self._real)

    def _native(self, s):
        if not isinstance(s, bytes if self._bytes else str):
            raise TypeError("cannot use a string pattern on a bytes-like object"
                            if isinstance(s, bytes) else "expected string or bytes-like object")
        return not is_sym(s)

    def _at(self, s, pos, endpos, full=False):
        m = _M(s.c, self.flags | (0x10000 if self._bytes else 0), endpos)
        for q, g in m.seq(self._ops, 0, pos, {}):
            if full and q != endpos:
                continue
            return Match(self, s, {**g, 0: (pos, q)}, pos, endpos)
        return None

    def match(self, s, pos=0, endpos=None):
        if self._native(s):
            return self._real.match(s, pos, len(s) if endpos is None else endpos)
        return self._at(s, pos, len(s) if endpos is None else min(endpos, len(s)))

    def fullmatch(self, s, pos=0, endpos=None):
        if self._native(s):
            return self._real.fullmatch(s, pos, len(s) if endpos is None else endpos)
        return self._at(s, pos, len(s) if endpos is None else min(endpos, len(s)), True)

    def search(self, s, pos=0, endpos=None):
        if self._native(s):
            return self._real.search(s, pos, len(s) if endpos is None else endpos)
        end = len(s) if endpos is None else min(endpos, len(s))
        for p in range(pos, end + 1):
            m = self._at(s, p, end)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if self._native(s):
            yield from self._real.finditer(s, pos, len(s) if endpos is None else endpos)
            return
        end = len(s) if endpos is None else min(endpos, len(s))
        last = None
        while pos <= end:
            m = self.search(s, pos, end)
            if m is None:
                return
            if m.end() == m.start():
                if m.start() == last:
                    # an empty match right behind a match counts, but not twice
                    pos = m.start() + 1
                    last = None
                    continue
                last = m.start()
                yield m
                # the scan goes on at the same place, for a match that is not empty
                q = None
                for p, g in _M(s.c, self.flags | (0x10000 if self._bytes else 0), end).seq(
                        self._ops, 0, m.start(), {}):
                    if p != m.start():
                        q = Match(self, s, {**g, 0: (m.start(), p)}, pos, end)
                        break
                if q is not None:
                    yield q
                    pos, last = q.end(), None
                else:
                    pos = m.start() + 1
                    last = None
            else:
                yield m
                pos, last = m.end(), None

    def findall(self, s, pos=0, endpos=None):
        if self._native(s):
            return self._real.findall(s, pos, len(s) if endpos is None else endpos)
        out = []
        empty = s[0:0]
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups(empty)[0])
            else:
                out.append(m.groups(empty))
        return out

    def split(self, s, maxsplit=0):
        if self._native(s):
            return self._real.split(s, maxsplit)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def subn(self, repl, s, count=0):
        if self._native(s) and isinstance(repl, (str, bytes)) and not is_sym(repl):
            return self._real.subn(repl, s, count)
        if is_sym(repl):
            repl = repl.concrete("replacement")
        if not is_sym(s):
            s = (SymBytes if self._bytes else SymStr)(
                (SymBytes if self._bytes else SymStr).lift_native(s))
            if not s.c:
                return self._real.subn(lambda m: rt.deep_concrete(rt.call(repl, m))
                                       if callable(repl) else repl, b"" if self._bytes else "", count)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            out.append(rt.call(repl, m) if callable(repl) else _expand(m, repl))
            last = m.end()
            n += 1
        out.append(s[last:])
        return _join(self, out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)


def _f(name):
    def f(pattern, *a, flags=0, **k):
        n = {"sub": 2, "subn": 2}.get(name, 1)
        a = list(a)
        if name in ("match", "search", "fullmatch", "findall", "finditer") and len(a) > n:
            flags = a.pop()
        elif name in ("sub", "subn", "split") and len(a) > n + 1:
            flags = a.pop()
        if "string" in k:
            a.append(k.pop("string"))
        return getattr(compile(pattern, flags), name)(*a, **k)
    f.__name__ = name
    return f


def escape(s):
    if not is_sym(s):
        return _re.escape(s)
    special = [ord(x) for x in "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"]
    out = []
    for x in s.c:
        if branch(cin(x, special)):
            out.append(92)
        out.append(x)
    return type(s).mk(out)


def facade(Facade):
    return Facade(_re, compile=compile, escape=escape, Match=Match, Pattern=Pattern,
                  **{n: _f(n) for n in ("match", "search", "fullmatch", "split", "sub", "subn",
                                        "findall", "finditer")})
