"""Symbolic execution of Python source.

Modules are loaded through an AST transformation which routes every operation
that the interpreter would otherwise do in C on real strings (calls, method
calls, comparisons, subscripts, f-strings, %) through the functions below.
Strings may then contain symbolic characters.  Every decision on them is a
fork: both sides are decided by z3 under the path condition, and all paths are
explored by re-execution.
"""

import ast
import builtins
import functools
import importlib.util
import itertools
import os
import re
import re._compiler as sre_compile
import re._constants as sc
import re._parser as sre_parse
import string as _string
import sys
import time
import types
import z3

NCH = 256
ALL = (1 << NCH) - 1


class Abort(BaseException):
    """The path is infeasible or outside the assumptions."""


class Stop(BaseException):
    """A violation was found on this path."""


class Limit(BaseException):
    """Out of time on this path."""


class Endless(BaseException):
    """The path has used much more time than any path should need."""


class Unsupported(BaseException):
    pass


CTX = None


def mask_of(pred):
    m = 0
    for i in range(NCH):
        if pred(chr(i)):
            m |= 1 << i
    return m


@functools.lru_cache(None)
def ranges(mask):
    out = []
    i = 0
    while i < NCH:
        if mask >> i & 1:
            j = i
            while j + 1 < NCH and mask >> (j + 1) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return tuple(out)


def member(v, mask):
    """v in mask, as a formula."""
    rs = ranges(mask)
    if len(rs) > len(ranges(ALL & ~mask)) and mask != ALL:
        return z3.Not(member(v, ALL & ~mask))
    es = []
    for a, b in rs:
        if a == b:
            es.append(v == a)
        elif a == 0:
            es.append(z3.ULE(v, b))
        elif b == NCH - 1:
            es.append(z3.UGE(v, a))
        else:
            es.append(z3.And(z3.UGE(v, a), z3.ULE(v, b)))
    if not es:
        return z3.BoolVal(False)
    return es[0] if len(es) == 1 else z3.Or(es)


class Ch:
    """A symbolic character: a variable, seen through a table."""
    __slots__ = ('var', 'tab')

    def __init__(self, var, tab=None):
        self.var, self.tab = var, tab

    def out(self, i):
        return chr(i) if self.tab is None else self.tab[i]

    def mask(self, pred):
        if self.tab is None:
            return pmask(pred)
        m = 0
        for i in range(NCH):
            if pred(self.tab[i]):
                m |= 1 << i
        return m

    def eqmask(self, c):
        if self.tab is None:
            o = ord(c)
            return 1 << o if o < NCH else 0
        m = 0
        for i in range(NCH):
            if self.tab[i] == c:
                m |= 1 << i
        return m

    def setmask(self, mask):
        """Preimage of a set of characters."""
        if self.tab is None:
            return mask
        m = 0
        for i in range(NCH):
            o = ord(self.tab[i])
            if o < NCH and mask >> o & 1:
                m |= 1 << i
        return m

    def expr(self):
        v = CTX.vars[self.var]
        if self.tab is None:
            return v
        e = v
        by = {}
        for i in range(NCH):
            d = ord(self.tab[i]) - i
            if d:
                by.setdefault(d, 0)
                by[d] |= 1 << i
        for d, m in by.items():
            e = z3.If(member(v, m), v + z3.BitVecVal(d, 16), e)
        return e

    def mapped(self, f):
        t = tuple(f(self.out(i)) for i in range(NCH))
        odd = sum(1 << i for i in range(NCH) if len(t[i]) != 1)
        if odd and CTX.dom[self.var] & odd:
            if CTX.branch(Cond({self.var: odd})):
                return f(CTX.concrete_char(self))
        return Ch(self.var, tuple(x if len(x) == 1 else '?' for x in t))


@functools.lru_cache(None)
def pmask(pred):
    return mask_of(pred)


class Cond:
    """A conjunction of 'variable in set' and formulas, or its negation."""
    __slots__ = ('parts', 'extra', 'neg')

    def __init__(self, parts=None, extra=(), neg=False):
        self.parts, self.extra, self.neg = parts or {}, list(extra), neg

    def expr(self):
        es = [member(CTX.vars[v], m) for v, m in self.parts.items()] + self.extra
        e = es[0] if len(es) == 1 else z3.And(es) if es else z3.BoolVal(True)
        return z3.Not(e) if self.neg else e

    def __bool__(self):
        return CTX.branch(self)

    def inverted(self):
        return Cond(self.parts, self.extra, not self.neg)

    def __eq__(self, o):
        return (self if o else self.inverted()) if isinstance(o, bool) else NotImplemented

    __hash__ = None


def conj(conds):
    parts, extra = {}, []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return False
        if c.neg:
            extra.append(c.expr())
            continue
        for v, m in c.parts.items():
            parts[v] = parts.get(v, ALL) & m
        extra += c.extra
    return Cond(parts, extra) if parts or extra else True


# ------------------------------------------------------------------ integers
class SymInt:
    """An integer given by a 64 bit formula; text is its decimal form if known."""
    __slots__ = ('e', 'text')

    def __init__(self, e, text=None):
        self.e, self.text = e, text

    @staticmethod
    def lift(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, int):
            return z3.BitVecVal(o, 64)
        return None

    def _b(self, o, f):
        o = SymInt.lift(o)
        return NotImplemented if o is None else SymInt(f(self.e, o))

    def _c(self, o, f):
        o = SymInt.lift(o)
        return NotImplemented if o is None else Cond(extra=[f(self.e, o)])

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b) if not isinstance(o, (str, list)) else o * int(self)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.e)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else r.inverted()
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __bool__(self): return CTX.branch(Cond(extra=[self.e != 0]))
    def __index__(self): return CTX.concrete_int(self)
    def __int__(self): return CTX.concrete_int(self)
    def __hash__(self): return hash(CTX.concrete_int(self))
    def __abs__(self): return SymInt(z3.If(self.e < 0, -self.e, self.e))
    def __floordiv__(self, o): return CTX.concrete_int(self) // o
    def __mod__(self, o): return CTX.concrete_int(self) % o
    def __rshift__(self, o): return CTX.concrete_int(self) >> o
    def __lshift__(self, o): return CTX.concrete_int(self) << o
    def __and__(self, o): return CTX.concrete_int(self) & o
    def __or__(self, o): return CTX.concrete_int(self) | o

    def decimal(self):
        return self.text if self.text is not None else str(CTX.concrete_int(self))


# ------------------------------------------------------------------- strings
def norm(c):
    """A character whose variable has one value left."""
    if type(c) is Ch:
        d = CTX.dom[c.var]
        if d & (d - 1) == 0:
            return c.out(d.bit_length() - 1)
    return c


def mk(chars):
    cs = tuple(norm(c) for c in chars)
    for c in cs:
        if type(c) is Ch:
            return VStr(cs)
    return ''.join(cs)


def force(chars):
    """A VStr even if there is nothing symbolic (for the translator's tests)."""
    return VStr(tuple(chars))


def chars(s):
    return s.c if isinstance(s, VStr) else tuple(s)


def unwrap(s):
    return mk(s.c) if isinstance(s, VStr) else s


def ch_is(c, pred):
    c = norm(c)
    if type(c) is Ch:
        return CTX.branch(Cond({c.var: c.mask(pred)}))
    return pred(c)


def ch_in(c, mask):
    c = norm(c)
    if type(c) is Ch:
        return CTX.branch(Cond({c.var: c.setmask(mask)}))
    o = ord(c)
    return o < NCH and bool(mask >> o & 1)


def eq_cond(a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return False
    parts, extra = {}, []
    for x, y in zip(a, b):
        x, y = norm(x), norm(y)
        sx, sy = type(x) is Ch, type(y) is Ch
        if not sx and not sy:
            if x != y:
                return False
        elif sx and sy:
            if x.var == y.var:
                m = sum(1 << i for i in range(NCH) if x.out(i) == y.out(i))
                parts[x.var] = parts.get(x.var, ALL) & m
            else:
                extra.append(x.expr() == y.expr())
        else:
            if sy:
                x, y = y, x
            parts[x.var] = parts.get(x.var, ALL) & x.eqmask(y)
    if not parts and not extra:
        return True
    return Cond(parts, extra)


def str_lt(a, b):
    """a < b by forking per character."""
    a, b = chars(a), chars(b)
    for x, y in zip(a, b):
        if truth(eq_cond((mk([x])), mk([y]))):
            continue
        x, y = norm(x), norm(y)
        if type(x) is Ch and type(y) is Ch:
            return truth(Cond(extra=[z3.ULT(x.expr(), y.expr())]))
        if type(x) is Ch:
            return ch_cmp(x, lambda c: c < y)
        if type(y) is Ch:
            return ch_cmp(y, lambda c: x < c)
        return x < y
    return len(a) < len(b)


def ch_cmp(c, pred):
    m = sum(1 << i for i in range(NCH) if pred(c.out(i)))
    return CTX.branch(Cond({c.var: m}))


def truth(x):
    return CTX.branch(x) if isinstance(x, Cond) else bool(x)


WS = frozenset(c for c in map(chr, range(NCH)) if c.isspace())


def is_space(c):
    return c.isspace()


class VStr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return iter([mk([c]) for c in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.c[i])
        return mk([self.c[i]])

    def __add__(self, o):
        if not isinstance(o, (str, VStr)):
            return NotImplemented
        return mk(self.c + chars(o))

    def __radd__(self, o):
        if not isinstance(o, (str, VStr)):
            return NotImplemented
        return mk(chars(o) + self.c)

    def __mul__(self, n):
        return mk(self.c * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        return eq_cond(self, o) if isinstance(o, (str, VStr)) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.inverted() if isinstance(r, Cond) else not r

    def __lt__(self, o): return str_lt(self, o)
    def __gt__(self, o): return str_lt(o, self)
    def __le__(self, o): return not str_lt(o, self)
    def __ge__(self, o): return not str_lt(self, o)

    def __hash__(self):
        return id(self) >> 4

    def __contains__(self, o):
        return self.find(o) >= 0

    def __str__(self):
        return 'VStr(%r)' % ''.join('?' if type(norm(c)) is Ch else norm(c) for c in self.c)

    __repr__ = __str__

    # searching
    def _at(self, p, i):
        return i + len(p) <= len(self.c) and truth(eq_cond(self.c[i:i + len(p)], p))

    def find(self, p, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(start, end - len(p) + 1):
            if truth(eq_cond(self.c[i:i + len(p)], p)):
                return i
        return -1

    def rfind(self, p, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(end - len(p), start - 1, -1):
            if truth(eq_cond(self.c[i:i + len(p)], p)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, p, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.c))
        n, i = 0, start
        while i + len(p) <= end:
            if truth(eq_cond(self.c[i:i + len(p)], p)):
                n += 1
                i += max(1, len(p))
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x, start) for x in p)
        return self._at(p, start)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return len(p) <= len(self.c) and truth(eq_cond(self.c[len(self.c) - len(p):], p))

    def removeprefix(self, p):
        return mk(self.c[len(p):]) if self.startswith(p) else mk(self.c)

    def removesuffix(self, p):
        return mk(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else mk(self.c)

    # transforming
    def _map(self, f):
        out = []
        for c in self.c:
            c = norm(c)
            r = c.mapped(f) if type(c) is Ch else f(c)
            out += [r] if type(r) is Ch else list(r)
        return mk(out)

    def lower(self): return self._map(lambda c: c.lower())
    def upper(self): return self._map(lambda c: c.upper())
    def swapcase(self): return self._map(lambda c: c.swapcase())
    def casefold(self): return self._map(lambda c: c.casefold())

    def capitalize(self):
        return add(mk(self.c[:1]) if not isinstance(mk(self.c[:1]), VStr) else VStr(self.c[:1])._map(lambda c: c.title()),
                   VStr(self.c[1:]).lower()) if self.c else ''

    def title(self):
        out, prev = [], False
        for c in self.c:
            c = norm(c)
            f = (lambda x: x.lower()) if prev else (lambda x: x.title())
            r = c.mapped(f) if type(c) is Ch else f(c)
            out += [r] if type(r) is Ch else list(r)
            prev = ch_is(c, is_cased)
        return mk(out)

    def _strip(self, cs, left, right):
        pred = is_space if cs is None else None
        a, b = 0, len(self.c)

        def hit(c):
            if pred:
                return ch_is(c, pred)
            return any(truth(eq_cond((c,), (x,))) for x in chars(cs))
        while left and a < b and hit(self.c[a]):
            a += 1
        while right and a < b and hit(self.c[b - 1]):
            b -= 1
        return mk(self.c[a:b])

    def strip(self, cs=None): return self._strip(cs, True, True)
    def lstrip(self, cs=None): return self._strip(cs, True, False)
    def rstrip(self, cs=None): return self._strip(cs, False, True)

    def split(self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        if sep is None:
            for c in self.c:
                if ch_is(c, is_space):
                    if cur:
                        out.append(mk(cur))
                    cur = []
                else:
                    cur.append(c)
            return out + ([mk(cur)] if cur else [])
        while i < len(self.c):
            if maxsplit != 0 and self._at(sep, i):
                out.append(mk(cur))
                cur = []
                i += len(sep)
                maxsplit -= 1
            else:
                cur.append(self.c[i])
                i += 1
        return out + [mk(cur)]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        out, rest = [], self
        while maxsplit > 0:
            i = VStr(chars(rest)).rfind(sep)
            if i < 0:
                break
            out.insert(0, mk(chars(rest)[i + len(sep):]))
            rest = mk(chars(rest)[:i])
            maxsplit -= 1
        return [rest] + out

    def splitlines(self, keepends=False):
        out, cur = [], []
        i = 0
        while i < len(self.c):
            c = self.c[i]
            cur.append(c)
            i += 1
            if ch_is(c, is_eol):
                if i < len(self.c) and truth(eq_cond((c,), '\r')) and truth(eq_cond((self.c[i],), '\n')):
                    cur.append(self.c[i])
                    i += 1
                    out.append(mk(cur if keepends else cur[:-2]))
                else:
                    out.append(mk(cur if keepends else cur[:-1]))
                cur = []
        return out + ([mk(cur)] if cur else [])

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk(self.c), '', '')
        return (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mk(self.c))
        return (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    def replace(self, old, new, count=-1):
        out, i = [], 0
        if len(old) == 0:
            raise Unsupported('replace of the empty string')
        while i < len(self.c):
            if count != 0 and self._at(old, i):
                out += chars(new)
                i += len(old)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mk(out)

    def join(self, items):
        out = []
        for k, x in enumerate(it(items)):
            if not isinstance(x, (str, VStr)):
                raise TypeError('sequence item: expected str instance')
            if k:
                out += self.c
            out += chars(x)
        return mk(out)

    def ljust(self, n, fill=' '): return mk(self.c + chars(fill) * (n - len(self.c)))
    def rjust(self, n, fill=' '): return mk(chars(fill) * (n - len(self.c)) + self.c)

    def zfill(self, n):
        if self.c and (truth(eq_cond(self.c[:1], '-')) or truth(eq_cond(self.c[:1], '+'))):
            return mk(self.c[:1] + ('0',) * (n - len(self.c)) + self.c[1:])
        return self.rjust(n, '0')

    def _all(self, pred):
        return len(self.c) > 0 and all(ch_is(c, pred) for c in self.c)

    def isdigit(self): return self._all(p_digit)
    def isdecimal(self): return self._all(p_decimal)
    def isnumeric(self): return self._all(p_numeric)
    def isalpha(self): return self._all(p_alpha)
    def isalnum(self): return self._all(p_alnum)
    def isspace(self): return self._all(is_space)
    def isascii(self): return all(ch_is(c, p_ascii) for c in self.c)

    def isupper(self):
        return not any(ch_is(c, p_lower) for c in self.c) and any(ch_is(c, p_upper) for c in self.c)

    def islower(self):
        return not any(ch_is(c, p_upper) for c in self.c) and any(ch_is(c, p_lower) for c in self.c)

    def isidentifier(self):
        return len(self.c) > 0 and ch_is(self.c[0], p_idstart) and all(ch_is(c, p_idpart) for c in self.c[1:])

    def encode(self, *a):
        return CTX.concrete_str(self).encode(*a)

    def format(self, *a, **k):
        return vformat(self, a, k)


def p_digit(c): return c.isdigit()
def p_decimal(c): return c.isdecimal()
def p_numeric(c): return c.isnumeric()
def p_alpha(c): return c.isalpha()
def p_alnum(c): return c.isalnum()
def p_ascii(c): return c.isascii()
def p_upper(c): return c.isupper()
def p_lower(c): return c.islower()
def p_idstart(c): return c.isidentifier()
def p_idpart(c): return ('a' + c).isidentifier()
def is_eol(c): return len(c.splitlines()[0]) == 0
def is_cased(c): return c.isupper() or c.islower() or c.istitle()


def add(a, b):
    return a + b


class VSet:
    """A set of possibly symbolic strings."""

    def __init__(self, items=()):
        self.l = []
        for x in it(items):
            self.add(x)

    def add(self, x):
        if x not in self:
            self.l.append(x)

    def __contains__(self, x):
        return any(truth(veq(x, y)) for y in self.l)

    def __iter__(self): return iter(self.l)
    def __len__(self): return len(self.l)
    def update(self, *o):
        for s in o:
            for x in it(s):
                self.add(x)
    def discard(self, x): self.l = [y for y in self.l if not truth(veq(x, y))]
    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)
    def union(self, *o):
        r = VSet(self.l)
        r.update(*o)
        return r
    def __or__(self, o): return self.union(o)
    __ror__ = __or__
    def difference(self, o): return VSet([x for x in self.l if x not in VSet(o)])
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return VSet(o).difference(self)
    def intersection(self, o): return VSet([x for x in self.l if x in VSet(o)])
    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__
    def copy(self): return VSet(self.l)
    def issubset(self, o): return all(x in VSet(o) for x in self.l)
    def __le__(self, o): return self.issubset(o)
    def __eq__(self, o): return len(self) == len(o) and self.issubset(o)
    __hash__ = None


def veq(a, b):
    a, b = unwrap(a), unwrap(b)
    if isinstance(a, VStr) or isinstance(b, VStr):
        if isinstance(a, (str, VStr)) and isinstance(b, (str, VStr)):
            return eq_cond(a, b)
        return False
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return conj([veq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, dict) and isinstance(b, dict) and not isinstance(a, type(b)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        rs = []
        for k, v in a.items():
            f = find_key(b, k)
            if f is MISSING:
                return False
            rs.append(veq(v, b[f]))
        return conj(rs)
    return a == b


MISSING = object()


def find_key(d, k):
    k = unwrap(k)
    if (type(k) is not str and has_v(k)) or any(type(x) is not str and has_v(x) for x in d):
        for x in d:
            if x is k or truth(veq(x, k)):
                return x
        return MISSING
    return k if k in d else MISSING


def has_v(x, depth=3):
    if isinstance(x, (VStr, SymInt, VSet)):
        return True
    if depth:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(has_v(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(has_v(y, depth - 1) or has_v(k, 1) for k, y in x.items())
    return False


# ---------------------------------------------------------------- formatting
def vstr(x):
    x = unwrap(x)
    if isinstance(x, VStr):
        return x
    if isinstance(x, SymInt):
        return x.decimal()
    if isinstance(x, BaseException) and has_v(x.args):
        return vstr(x.args[0]) if len(x.args) == 1 else vrepr(x.args)
    if has_v(x):
        return vrepr(x)
    return str(x)


def vrepr(x):
    x = unwrap(x)
    if isinstance(x, VStr):
        q = "'"
        out = []
        for c in x.c:
            c = norm(c)
            if type(c) is Ch and ch_is(c, plain):
                out.append(c)
            else:
                if type(c) is Ch:
                    c = CTX.concrete_char(c)
                out += repr('"' + c)[2:-1]
        return mk([q] + out + [q])
    if isinstance(x, SymInt):
        return x.decimal()
    if isinstance(x, list):
        return add(add('[', mcall(', ', 'join', [vrepr(y) for y in x])), ']')
    if isinstance(x, tuple):
        return add(add('(', mcall(', ', 'join', [vrepr(y) for y in x])), ',)' if len(x) == 1 else ')')
    if isinstance(x, dict):
        return add(add('{', mcall(', ', 'join', [add(add(vrepr(k), ': '), vrepr(v)) for k, v in x.items()])), '}')
    return repr(x)


def plain(c): return c.isprintable() and c not in '\'"\\'


def vfmt(value, conv, spec):
    if conv == 'r':
        value = vrepr(value)
    elif conv == 's':
        value = vstr(value)
    elif conv == 'a':
        value = ascii(concretise(value))
    value = unwrap(value)
    spec = unwrap(spec)
    if isinstance(spec, VStr):
        spec = CTX.concrete_str(spec)
    if isinstance(value, VStr):
        if not spec or spec == 's':
            return value
        m = re.fullmatch(r'(.)?([<>^])?(\d+)?s?', spec)
        if m and not m.group(1) and m.group(3):
            n = int(m.group(3))
            return value.rjust(n) if m.group(2) == '>' else value.ljust(n)
        return format(CTX.concrete_str(value), spec)
    if isinstance(value, SymInt):
        return value.decimal() if spec in ('', 'd') else format(CTX.concrete_int(value), spec)
    if not spec and (has_v(value) or isinstance(value, BaseException)):
        return vstr(value)
    return format(value, spec)


def fstr(parts):
    out = []
    for p in parts:
        out += chars(p)
    return mk(out)


def vformat(fmt, args, kw):
    fmt = unwrap(fmt)
    if isinstance(fmt, VStr):
        fmt = CTX.concrete_str(fmt)
    out = []
    auto = itertools.count()
    for lit, name, spec, conv in _string.Formatter().parse(fmt):
        out += lit
        if name is None:
            continue
        first, rest = _string._string.formatter_field_name_split(name)
        if first == '':
            first = next(auto)
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else getitem(obj, i)
        out += chars(vfmt(obj, conv, vformat(spec, args, kw) if spec else ''))
    return mk(out)


def mod(a, b):
    a = unwrap(a)
    if isinstance(a, (str, VStr)) and (isinstance(a, VStr) or has_v(b)):
        if isinstance(a, VStr):
            a = CTX.concrete_str(a)
        args = list(b) if isinstance(b, tuple) else [b]
        out = []
        i = 0
        for m in re.finditer(r'%(\((\w+)\))?([-0#+ ]*\d*)([sdrxX%])|([^%]+)', a):
            if m.group(5):
                out += m.group(5)
            elif m.group(4) == '%':
                out += '%'
            else:
                v = b[m.group(2)] if m.group(2) else args[i]
                i += 0 if m.group(2) else 1
                if m.group(3):
                    out += ('%' + m.group(3) + m.group(4)) % concretise(v)
                else:
                    out += chars(vrepr(v) if m.group(4) == 'r' else vstr(v) if m.group(4) in 'sd' else ('%' + m.group(4)) % concretise(v))
        return mk(out)
    return a % b


def concretise(x):
    x = unwrap(x)
    if isinstance(x, VStr):
        return CTX.concrete_str(x)
    if isinstance(x, SymInt):
        return CTX.concrete_int(x)
    if isinstance(x, list):
        return [concretise(y) for y in x]
    if isinstance(x, tuple):
        return tuple(concretise(y) for y in x)
    if isinstance(x, dict):
        return {concretise(k): concretise(v) for k, v in x.items()}
    if isinstance(x, VSet):
        return {concretise(y) for y in x.l}
    return x


def vint(x=0, base=10):
    x = unwrap(x)
    if isinstance(x, SymInt):
        return x
    if not isinstance(x, VStr):
        return int(x) if not isinstance(x, str) else int(x, base)
    x = unwrap(x.strip())
    if not isinstance(x, VStr):
        return int(x, base)
    cs = list(x.c)
    neg = False
    if cs and ch_is(cs[0], p_sign):
        neg = truth(eq_cond(cs[:1], '-'))
        cs = cs[1:]
    if base in (0, 16, 8, 2) and len(cs) >= 2 and truth(eq_cond(cs[:1], '0')):
        if ch_is(cs[1], p_x) and base in (0, 16):
            base, cs = 16, cs[2:]
        elif ch_is(cs[1], p_o) and base in (0, 8):
            base, cs = 8, cs[2:]
        elif ch_is(cs[1], p_b) and base in (0, 2):
            base, cs = 2, cs[2:]
        elif base == 0:
            if all(truth(eq_cond((c,), '0')) for c in cs):
                return 0
            raise ValueError('invalid literal for int() with base 0')
    if base == 0:
        base = 10
    # an underscore between digits is allowed
    digits = []
    for k, c in enumerate(cs):
        if truth(eq_cond((c,), '_')):
            if k == 0 or k + 1 == len(cs) or truth(eq_cond(cs[k - 1:k], '_')):
                raise ValueError('invalid literal for int()')
            continue
        digits.append(c)
    if not digits:
        raise ValueError('invalid literal for int()')
    pred = {10: p_decimal, 16: p_hex, 8: p_oct, 2: p_bin}[base]
    e = z3.BitVecVal(0, 64)
    if len(digits) > 14:
        raise Unsupported('long integer literal')
    for c in digits:
        if not ch_is(c, pred):
            raise ValueError('invalid literal for int()')
        c = norm(c)
        if type(c) is Ch:
            w = z3.ZeroExt(48, c.expr())
            d = w - 48
            if base == 16:
                d = z3.If(z3.ULE(w, 57), w - 48, z3.If(z3.UGE(w, 97), w - 87, w - 55))
        else:
            d = z3.BitVecVal(int(c, base), 64)
        e = e * base + d
    if neg:
        e = -e
    text = None
    if base == 10:
        while len(digits) > 1 and truth(eq_cond(digits[:1], '0')):
            digits = digits[1:]
        if not neg or not (len(digits) == 1 and truth(eq_cond(digits[:1], '0'))):
            text = mk((['-'] if neg else []) + digits)
        else:
            text = '0'
        if isinstance(text, str):
            return int(text)
    return SymInt(e, text)


def p_sign(c): return c in '+-'
def p_x(c): return c in 'xX'
def p_o(c): return c in 'oO'
def p_b(c): return c in 'bB'
def p_hex(c): return c in '0123456789abcdefABCDEF'
def p_oct(c): return c in '01234567'
def p_bin(c): return c in '01'


# ------------------------------------------------------------------- regexps
ONE = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)


@functools.lru_cache(None)
def re_parse(pattern, flags):
    p = sre_parse.parse(pattern, flags)
    return p, p.state.flags, dict(p.state.groupdict), p.state.groups


_one_cache = {}


def one_mask(op, av, flags):
    k = (op, repr(av), flags)
    m = _one_cache.get(k)
    if m is None:
        st = sre_parse.State()
        st.flags = flags
        code = sre_compile.compile(sre_parse.SubPattern(st, [(op, av)]), flags & ~re.DEBUG)
        m = _one_cache[k] = mask_of(lambda c: code.match(c) is not None)
    return m


class VMatch:
    def __init__(self, s, groups, names, n, lastindex, pattern):
        self.string, self._g, self._names, self._n, self.lastindex, self.re = s, groups, names, n, lastindex, pattern

    @property
    def lastgroup(self):
        for k, v in self._names.items():
            if v == self.lastindex:
                return k
        return None

    def _i(self, g):
        g = concretise(g)
        if isinstance(g, str):
            g = self._names[g]
        return g

    def span(self, g=0):
        return self._g.get(self._i(g), (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    def _get(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else mk(chars(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        return self._get(gs[0]) if len(gs) == 1 else tuple(self._get(g) for g in gs)

    def __getitem__(self, g): return self._get(g)
    def groups(self, default=None): return tuple(self._get(i, default) for i in range(1, self._n))
    def groupdict(self, default=None): return {k: self._get(k, default) for k in self._names}

    def expand(self, t):
        return expand(t, self)


def m_seq(ops, i, cs, pos, g, flags):
    """Yields (position, groups) of every way to match, in priority order."""
    n = len(ops)
    while i < n and ops[i][0] in ONE:
        if pos >= len(cs) or not ch_in(cs[pos], one_mask(ops[i][0], ops[i][1], flags)):
            return
        pos += 1
        i += 1
    if i == n:
        yield pos, g
        return
    op, av = ops[i]
    if op is sc.BRANCH:
        for alt in av[1]:
            for p, h in m_seq(list(alt), 0, cs, pos, g, flags):
                yield from m_seq(ops, i + 1, cs, p, h, flags)
    elif op is sc.SUBPATTERN:
        group, add_flags, del_flags, p = av
        fl = (flags | add_flags) & ~del_flags
        for e, h in m_seq(list(p), 0, cs, pos, g, fl):
            if group is not None:
                h = dict(h)
                h[group] = (pos, e)
                h['last'] = group
            yield from m_seq(ops, i + 1, cs, e, h, flags)
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
        lo, hi, p = av
        p = list(p)
        if op is sc.POSSESSIVE_REPEAT:
            for e, h in m_rep(p, lo, hi, 0, cs, pos, g, flags, True):
                yield from m_seq(ops, i + 1, cs, e, h, flags)
                return
            return
        if len(p) == 1 and p[0][0] in ONE:
            m = one_mask(p[0][0], p[0][1], flags)
            if op is sc.MAX_REPEAT:
                e = pos
                while e < len(cs) and (hi is sc.MAXREPEAT or e - pos < hi) and ch_in(cs[e], m):
                    e += 1
                while e - pos >= lo:
                    yield from m_seq(ops, i + 1, cs, e, g, flags)
                    e -= 1
            else:
                e = pos
                while True:
                    if e - pos >= lo:
                        yield from m_seq(ops, i + 1, cs, e, g, flags)
                    if e >= len(cs) or (hi is not sc.MAXREPEAT and e - pos >= hi) or not ch_in(cs[e], m):
                        return
                    e += 1
            return
        for e, h in m_rep(p, lo, hi, 0, cs, pos, g, flags, op is sc.MAX_REPEAT):
            yield from m_seq(ops, i + 1, cs, e, h, flags)
    elif op is sc.AT:
        if m_at(av, cs, pos, flags):
            yield from m_seq(ops, i + 1, cs, pos, g, flags)
    elif op is sc.GROUPREF:
        a, b = g.get(av, (-1, -1))
        if a >= 0 and pos + b - a <= len(cs) and truth(eq_cond(cs[a:b], cs[pos:pos + b - a])):
            yield from m_seq(ops, i + 1, cs, pos + b - a, g, flags)
    elif op in (sc.ASSERT, sc.ASSERT_NOT):
        direction, p = av
        ok = None
        if direction > 0:
            for _, h in m_seq(list(p), 0, cs, pos, g, flags):
                ok = h
                break
        else:
            lo, hi = p.getwidth()
            for w in range(lo, min(hi, pos) + 1):
                for e, h in m_seq(list(p), 0, cs, pos - w, g, flags):
                    if e == pos:
                        ok = h
                        break
                if ok is not None:
                    break
        if (ok is not None) == (op is sc.ASSERT):
            yield from m_seq(ops, i + 1, cs, pos, ok if op is sc.ASSERT else g, flags)
    elif op is sc.ATOMIC_GROUP:
        for e, h in m_seq(list(av), 0, cs, pos, g, flags):
            yield from m_seq(ops, i + 1, cs, e, h, flags)
            return
    else:
        raise Unsupported('regular expression %s' % op)


def m_rep(p, lo, hi, count, cs, pos, g, flags, greedy):
    if not greedy and count >= lo:
        yield pos, g
    if hi is sc.MAXREPEAT or count < hi:
        for e, h in m_seq(p, 0, cs, pos, g, flags):
            if e == pos and count >= lo:
                continue
            yield from m_rep(p, lo, hi, count + 1, cs, e, h, flags, greedy)
    if greedy and count >= lo:
        yield pos, g


def is_word(c): return c.isalnum() or c == '_'


def m_at(av, cs, pos, flags):
    if av is sc.AT_BEGINNING and flags & re.M:
        return pos == 0 or truth(eq_cond(cs[pos - 1:pos], '\n'))
    if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        return pos == 0
    if av is sc.AT_END_STRING:
        return pos == len(cs)
    if av is sc.AT_END:
        if pos == len(cs):
            return True
        if flags & re.M:
            return truth(eq_cond(cs[pos:pos + 1], '\n'))
        return pos == len(cs) - 1 and truth(eq_cond(cs[pos:], '\n'))
    if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
        a = pos > 0 and ch_is(cs[pos - 1], is_word)
        b = pos < len(cs) and ch_is(cs[pos], is_word)
        return (a != b) == (av is sc.AT_BOUNDARY)
    raise Unsupported('anchor %s' % av)


class VPattern:
    def __init__(self, pattern, flags=0):
        pattern = concretise(pattern)
        self.pattern = pattern
        self.p, self.flags, self.groupindex, self.groups_n = re_parse(pattern, int(flags))
        self.ops = list(self.p)

    def _try(self, s, pos, full=False, nonempty=False):
        cs = chars(s)
        for e, g in m_seq(self.ops, 0, cs, pos, {}, self.flags):
            if full and e != len(cs) or nonempty and e == pos:
                continue
            g = dict(g)
            g[0] = (pos, e)
            return VMatch(s, g, self.groupindex, self.groups_n, g.get('last'), self)
        return None

    def match(self, s, pos=0): return self._try(s, pos)
    def fullmatch(self, s, pos=0): return self._try(s, pos, True)

    def search(self, s, pos=0, nonempty=False):
        for i in range(pos, len(s) + 1):
            m = self._try(s, i, False, nonempty and i == pos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0):
        ne = False
        while pos <= len(s):
            m = self.search(s, pos, ne)
            if m is None:
                return
            yield m
            pos = m.end()
            ne = m.end() == m.start()

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            gs = m.groups('')
            out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
        return out

    def subn(self, repl, s, count=0):
        out, at, n = [], 0, 0
        for m in self.finditer(s):
            out += chars(s)[at:m.start()]
            out += chars(repl(m) if callable(repl) else expand(repl, m))
            at = m.end()
            n += 1
            if count and n >= count:
                break
        return mk(out + list(chars(s)[at:])), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        out, at, n = [], 0, 0
        for m in self.finditer(s):
            out.append(mk(chars(s)[at:m.start()]))
            out += list(m.groups())
            at = m.end()
            n += 1
            if maxsplit and n >= maxsplit:
                break
        return out + [mk(chars(s)[at:])]


def expand(t, m):
    t = concretise(t)
    out, i = [], 0
    while i < len(t):
        if t[i] == '\\' and i + 1 < len(t):
            k = t[i + 1]
            if k.isdigit():
                out += chars(m.group(int(k)) or '')
                i += 2
                continue
            if k == 'g':
                e = t.index('>', i)
                name = t[i + 3:e]
                out += chars(m.group(int(name) if name.isdigit() else name) or '')
                i = e + 1
                continue
            out += {'n': '\n', 't': '\t', '\\': '\\', 'r': '\r'}[k]
            i += 2
            continue
        out.append(t[i])
        i += 1
    return mk(out)


RE_FUNCS = {}


def _re(name, argpos):
    def f(pattern, *a, **k):
        flags = k.pop('flags', 0)
        a = list(a)
        want = argpos
        if len(a) > want:
            flags = a.pop()
        p = pattern if isinstance(pattern, (VPattern,)) else VPattern(
            pattern.pattern if isinstance(pattern, re.Pattern) else pattern,
            pattern.flags if isinstance(pattern, re.Pattern) else flags)
        return getattr(p, name)(*a, **k)
    RE_FUNCS[getattr(re, name)] = f


for _n, _p in (('match', 1), ('fullmatch', 1), ('search', 1), ('finditer', 1), ('findall', 1), ('sub', 3), ('subn', 3),
               ('split', 2)):
    _re(_n, _p)


# ------------------------------------------------------- hooks of the rewrite
def call(f, /, *a, **k):
    if f is builtins.isinstance and len(a) == 2:
        o, t = a
        if isinstance(o, (VStr, SymInt, VSet)):
            ts = t if isinstance(t, tuple) else (t,)
            kind = str if isinstance(o, VStr) else int if isinstance(o, SymInt) else set
            return any(issubclass(kind, x) for x in ts)
        return isinstance(o, t)
    if CTX is not None:
        h = CTX.stubs.get(f) if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, type)) else None
        if h is not None:
            return h(*a, **k)
    if f is set and not a:
        return VSet()
    if f in (set, frozenset) and a:
        items = list(it(a[0]))
        return VSet(items) if has_v(items) else f(items)
    if f is list and a or f is tuple and a or f is enumerate and a or f is iter and len(a) == 1:
        return f(it(a[0]), *a[1:], **k)
    if f is sorted and a:
        return sorted(list(it_any(a[0])), *a[1:], **k)
    if f is dict and a and not k and not isinstance(a[0], dict):
        d = {}
        for x, y in it(a[0]):
            d[key(d, x)] = y
        return d
    if type(f) is types.FunctionType or isinstance(f, types.MethodType) or f is len:
        h = RE_FUNCS.get(f) if type(f) is types.FunctionType else None
        if h is not None:
            if any(isinstance(unwrap(x), VStr) for x in a):
                return h(*a, **k)
            a = [unwrap(x) for x in a]
        return f(*a, **k)
    if not any(isinstance(x, (VStr, SymInt, VSet)) for x in a) and not k:
        if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, '__self__', None), str):
            return mcall(f.__self__, f.__name__, *a)
        if f is map:
            return map(lambda *x: call(a[0], *x), *[it(x) for x in a[1:]])
        return f(*a)
    if f is str and len(a) == 1:
        return vstr(a[0])
    if f is repr:
        return vrepr(a[0])
    if f is int:
        return vint(*a, **k)
    if f is type and len(a) == 1:
        return str if isinstance(a[0], VStr) else int if isinstance(a[0], SymInt) else set
    if f is bool:
        return truth(a[0]) if a else False
    if f is ord:
        v = unwrap(a[0])
        if isinstance(v, VStr):
            return SymInt(z3.ZeroExt(48, v.c[0].expr()))
        return ord(v)
    if f is hash:
        return hash(concretise(a[0]))
    if f is abs and isinstance(a[0], SymInt):
        return abs(a[0])
    if f is format:
        return vfmt(a[0], None, a[1] if len(a) > 1 else '')
    if f is print:
        return None
    if f in (map, filter):
        return f(lambda *x: truth(call(a[0], *x)) if f is filter else call(a[0], *x), *[it(x) for x in a[1:]])
    if f in (reversed, zip, enumerate, any, all, len, max, min, sum, next, id, iter, callable, getattr, setattr, hasattr):
        if f in (getattr, setattr, hasattr):
            a = (a[0], concretise(a[1])) + tuple(a[2:])
        return f(*a, **k)
    if isinstance(f, type) and f.__module__ not in ('builtins',) and not f.__module__.startswith(('_', 'pathlib', 're')):
        return f(*a, **k)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    self = getattr(f, '__self__', None)
    if isinstance(self, str):
        return mcall(self, f.__name__, *a, **k)
    if isinstance(self, (list, dict, set, VStr, VSet, VMatch, VPattern, SymInt)):
        return mcall(self, f.__name__, *a, **k)
    if callable(f) and not isinstance(f, (types.BuiltinFunctionType, type, types.MethodWrapperType, types.MethodDescriptorType)):
        return f(*a, **k)
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*a, **k)
    if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str:
        return mcall(a[0], f.__name__, *a[1:], **k)
    CTX.fallback[getattr(f, '__qualname__', repr(f))] = CTX.fallback.get(getattr(f, '__qualname__', repr(f)), 0) + 1
    return f(*[concretise(x) for x in a], **{n: concretise(x) for n, x in k.items()})


def mcall(obj, name, /, *a, **k):
    if type(obj) is str:
        if name == 'join' and a:
            items = list(it(a[0]))
            if any(isinstance(x, VStr) for x in items):
                return VStr(tuple(obj)).join(items)
            return obj.join(items)
        if name == 'format':
            return vformat(obj, a, k)
        if any(isinstance(x, VStr) or isinstance(x, tuple) and has_v(x) for x in a):
            return getattr(VStr(tuple(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, VStr):
        f = getattr(VStr, name, None)
        if f is None:
            CTX.fallback['str.' + name] = CTX.fallback.get('str.' + name, 0) + 1
            return getattr(CTX.concrete_str(obj), name)(*[concretise(x) for x in a], **k)
        return f(obj, *a, **k)
    if isinstance(obj, dict) and a and name in ('get', 'setdefault', 'pop'):
        f = find_key(obj, a[0])
        if name == 'setdefault':
            if f is MISSING:
                f = key(obj, a[0])
                obj[f] = a[1] if len(a) > 1 else None
            return obj[f]
        if f is MISSING:
            if name == 'pop' and len(a) < 2:
                raise KeyError(a[0])
            return a[1] if len(a) > 1 else None
        r = obj[f]
        if name == 'pop':
            del obj[f]
        return r
    if type(obj) in (set, frozenset) and a and has_v(a):
        if name in ('union', 'difference', 'intersection', 'issubset'):
            return getattr(VSet(obj), name)(*a)
        if name in ('add', 'update', 'discard', 'remove'):
            raise Unsupported('mutating a set with a symbolic string')
    if isinstance(obj, re.Pattern) and has_v(a):
        return getattr(VPattern(obj.pattern, obj.flags), name)(*a, **k)
    if type(obj) is list and name == 'extend':
        return obj.extend(it(a[0]))
    if isinstance(obj, (list, tuple)) and name in ('index', 'count', 'remove') and (has_v(a[:1]) or has_v(obj)):
        hits = [i for i, x in enumerate(obj) if i >= (a[1] if len(a) > 1 else 0) and truth(veq(x, a[0]))] if name == 'count' else \
            next(([i] for i, x in enumerate(obj) if i >= (a[1] if len(a) > 1 else 0) and truth(veq(x, a[0]))), [])
        if name == 'count':
            return len(hits)
        if not hits:
            raise ValueError('not in list')
        if name == 'index':
            return hits[0]
        del obj[hits[0]]
        return None
    if isinstance(obj, dict) and name == 'update' and a and has_v(a):
        for x, y in (a[0].items() if isinstance(a[0], dict) else it(a[0])):
            obj[key(obj, x)] = y
        obj.update(k)
        return None
    if isinstance(obj, (list, tuple, dict, set, frozenset, VSet, VMatch, VPattern, SymInt)):
        return getattr(obj, name)(*a, **k)
    return call(getattr(obj, name), *a, **k)


OPS = {
    'Eq': veq,
    'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
}


def cmp(op, a, b):
    if op == 'Eq':
        return veq(a, b) if has_v(a, 2) or has_v(b, 2) else a == b
    if op == 'NotEq':
        if has_v(a, 2) or has_v(b, 2):
            r = veq(a, b)
            return r.inverted() if isinstance(r, Cond) else not r
        return a != b
    if op in ('In', 'NotIn'):
        a = unwrap(a)
        if isinstance(b, dict):
            r = find_key(b, a) is not MISSING
        elif isinstance(b, (set, frozenset)) and (has_v(a) or has_v(b)):
            r = any(truth(veq(a, x)) for x in sorted(b, key=repr))
        elif isinstance(b, (str, VStr)) and (isinstance(a, VStr) or isinstance(b, VStr)):
            r = VStr(chars(b)).find(a) >= 0
        elif isinstance(b, (list, tuple)) and (isinstance(a, VStr) or has_v(b, 1) or has_v(a, 2)):
            r = any(truth(veq(a, x)) for x in b)
        else:
            r = a in b
        return r if op == 'In' else not r
    return OPS[op](a, b)


def getitem(o, i):
    if isinstance(o, dict):
        if type(o) is dict:
            f = find_key(o, i)
            if f is MISSING:
                raise KeyError(i)
            return o[f]
        return o[unwrap(i)]
    if isinstance(i, SymInt):
        i = CTX.concrete_int(i)
    return o[i]


def key(d, k):
    """The key to use when storing."""
    k = unwrap(k)
    if isinstance(k, SymInt):
        return CTX.concrete_int(k)
    if isinstance(d, dict):
        f = find_key(d, k)
        return k if f is MISSING else f
    return k


def it(x):
    """Iteration; the order of a set is arbitrary."""
    if isinstance(x, (set, frozenset, VSet)):
        l = x.l if isinstance(x, VSet) else sorted(x, key=repr)
        if CTX is not None and CTX.set_order and len(l) > 1:
            l, out = list(l), []
            while l:
                out.append(l.pop(CTX.choose(len(l), 'order')))
            return out
        return list(l)
    return x


def it_any(x):
    return x.l if isinstance(x, VSet) else x


def mkset(items):
    return VSet(items) if has_v(items) else set(items)


class Rewriter(ast.NodeTransformer):
    def _h(self, name, args, node):
        n = ast.Call(ast.Attribute(ast.Name('_vf', ast.Load()), name, ast.Load()), args, [])
        return ast.copy_location(n, node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals'):
            self.generic_visit(node)
            return node
        fn = node.func
        node.args = [self.visit(a) for a in node.args]
        node.keywords = [self.visit(a) for a in node.keywords]
        if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name)
                                                  and fn.value.func.id == 'super'):
            obj = self.visit(fn.value)
            n = self._h('mcall', [obj, ast.Constant(fn.attr)] + node.args, node)
        else:
            n = self._h('call', [self.visit(fn)] + node.args, node)
        n.keywords = node.keywords
        return n

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) > 1:
            # a < b < c: the operands are simple here, evaluate twice
            left, vals = node.left, []
            for op, right in zip(node.ops, node.comparators):
                vals.append(self._cmp(left, op, right, node))
                left = right
            return ast.copy_location(ast.BoolOp(ast.And(), vals), node)
        return self._cmp(node.left, node.ops[0], node.comparators[0], node)

    def _cmp(self, a, op, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return ast.copy_location(ast.Compare(a, [op], [b]), node)
        return self._h('cmp', [ast.Constant(type(op).__name__), a, b], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                return node
            return self._h('getitem', [node.value, node.slice], node)
        if isinstance(node.ctx, ast.Store) and not isinstance(node.slice, ast.Slice):
            # the object is evaluated twice; assignments to calls do not occur
            load = ast.parse(ast.unparse(node.value), mode='eval').body
            node.slice = self._h('key', [load, node.slice], node)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]:
            a.annotation = None
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else None)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(self._h('vfmt', [self.visit(v.value), conv, spec], node))
            else:
                parts.append(v)
        return self._h('fstr', [ast.List(parts, ast.Load())], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h('mod', [node.left, node.right], node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._h('it', [node.iter], node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self._h('it', [node.iter], node.iter)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self._h('it', [node.value], node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._h('mkset', [ast.List(node.elts, ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._h('mkset', [ast.copy_location(ast.ListComp(node.elt, node.generators), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return self._h('call', [ast.Name('dict', ast.Load()),
                                ast.copy_location(ast.ListComp(pair, node.generators), node)], node)


def transform(src, filename):
    tree = ast.parse(src, filename)
    for node in ast.walk(tree):
        if isinstance(node, ast.Assign) and isinstance(node.value, (ast.BinOp, ast.Subscript)):
            s = ast.unparse(node.value)
            if s.startswith(('list[', 'typing.')):        # type aliases
                node.value = ast.Constant(None)
    tree = Rewriter().visit(tree)
    imp = ast.parse('from vlib import pysym as _vf').body
    at = 0
    for i, n in enumerate(tree.body):
        if isinstance(n, ast.ImportFrom) and n.module == '__future__' or i == 0 and isinstance(n, ast.Expr):
            at = i + 1
    tree.body[at:at] = imp
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


FUNCS = set()


class Loader:
    """Imports the given packages through the rewriter."""

    def __init__(self, roots):
        self.roots = roots        # name -> directory holding it

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        rel = os.path.join(self.roots[top], *name.split('.'))
        for f, pkg in ((os.path.join(rel, '__init__.py'), True), (rel + '.py', False)):
            if os.path.exists(f):
                return importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        module.__file__ = f
        with open(f, encoding='utf-8') as fin:
            src = fin.read()
        exec(transform(src, f), module.__dict__)


def load_source(name, path):
    """One instrumented module outside any package (also for the harnesses)."""
    m = types.ModuleType(name)
    m.__file__ = path
    with open(path, encoding='utf-8') as f:
        exec(transform(f.read(), path), m.__dict__)
    return m


# ------------------------------------------------------------------ execution
class Context:
    """One path."""

    def __init__(self, prefix, stats, deadline, max_branches=60000):
        self.prefix, self.stats, self.deadline = prefix, stats, deadline
        self.trace, self.alts = [], []
        self.vars, self.dom, self.names = [], [], []
        self.solver = z3.SolverFor('QF_BV')
        self.solver.set('timeout', 20000)
        self.stubs, self.set_order, self.fallback = {}, False, {}
        self.reached, self.observed, self.violations = [], [], []
        self.unknown = 0
        self.branches = 0
        self.max_branches = max_branches
        self.vfs, self.outputs = None, {}

    # variables
    def new_var(self, mask, name):
        i = len(self.vars)
        v = z3.BitVec('v%d' % i, 16)
        self.vars.append(v)
        self.dom.append(mask)
        self.names.append(name)
        self.solver.add(member(v, mask) if mask != ALL else z3.ULT(v, NCH))
        return i

    def ask(self, e):
        t = time.time()
        r = self.solver.check(e)
        d = time.time() - t
        s = self.stats
        s['queries'] += 1
        s['solver_s'] += d
        s['max_query_s'] = max(s['max_query_s'], d)
        s['sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'] += 1
        if time.time() > self.deadline:
            raise Limit()
        return r

    def branch(self, c):
        if c is True or c is False:
            return c
        if not c.extra:
            imp = True
            for v, m in c.parts.items():
                d = self.dom[v]
                if d & m == 0:
                    return c.neg
                if d & ~m:
                    imp = False
            if imp:
                return not c.neg
        else:
            for v, m in c.parts.items():
                if self.dom[v] & m == 0:
                    return c.neg
        self.branches += 1
        if self.branches > self.max_branches:
            raise Limit()
        i = len(self.trace)
        e = c.expr()
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            a, b = self.ask(e), self.ask(z3.Not(e))
            if z3.unknown in (a, b):
                self.unknown += 1
            ta, tb = a != z3.unsat, b != z3.unsat
            if not ta and not tb:
                raise Abort()
            r = ta
            if ta and tb:
                self.alts.append(self.trace + [False])
                self.stats['forks'] += 1
        self.trace.append(r)
        self.assert_(c, e, r)
        return r

    def assert_(self, c, e, r):
        self.solver.add(e if r else z3.Not(e))
        if r != c.neg:                                  # the conjunction holds
            for v, m in c.parts.items():
                self.dom[v] &= m
        elif len(c.parts) == 1 and not c.extra:
            (v, m), = c.parts.items()
            self.dom[v] &= ~m

    def concrete_char(self, c):
        c = norm(c)
        while type(c) is Ch:
            d = self.dom[c.var]
            low = d & -d
            if self.branch(Cond({c.var: low})):
                return c.out(low.bit_length() - 1)
            c = norm(c)
        return c

    def concrete_str(self, s):
        return ''.join(self.concrete_char(c) for c in chars(s))

    def concrete_int(self, s):
        """One value per path; the picks are part of the trace."""
        e = s.e
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                _, v, r = self.prefix[i]
            else:
                if time.time() > self.deadline:
                    raise Limit()
                self.stats['queries'] += 1
                if self.solver.check() != z3.sat:
                    raise Abort()
                v, r = self.solver.model().eval(e, True).as_signed_long(), True
                if self.ask(e != z3.BitVecVal(v, 64)) != z3.unsat:
                    self.alts.append(self.trace + [('v', v, False)])
                    self.stats['forks'] += 1
            self.trace.append(('v', v, r))
            self.solver.add((e == z3.BitVecVal(v, 64)) if r else (e != z3.BitVecVal(v, 64)))
            if r:
                return v

    # the interface of the harnesses
    concrete = False

    def choose(self, n, name='choice'):
        """An arbitrary number below n; every value is a path of its own."""
        if n <= 1:
            return 0
        v = self.new_var((1 << n) - 1, name)
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.branch(Cond({v: ((1 << mid) - 1) & ~((1 << lo) - 1)})):
                hi = mid
            else:
                lo = mid
        return lo

    def text(self, n, chars_=None, name='text'):
        """n arbitrary characters."""
        m = ALL if chars_ is None else sum(1 << ord(c) for c in set(chars_))
        return VStr(tuple(Ch(self.new_var(m, name)) for _ in range(n))) if n else ''

    def isin(self, c, chars_):
        """Is the one-character text c one of the given ones?  (One fork.)"""
        return ch_in(chars(c)[0], sum(1 << ord(x) for x in set(chars_)))

    def assume(self, c):
        if not truth(c):
            raise Abort()

    def check(self, c, msg):
        self.stats['asserts'] += 1
        if isinstance(c, (VStr, SymInt)):
            c = truth(c)
        if not isinstance(c, Cond):
            if not c:
                self.violation(msg)
            return
        e = c.expr()
        r = self.ask(z3.Not(e))
        if r == z3.unknown:
            self.unknown += 1
        if r == z3.sat:
            self.violation(msg, z3.Not(e))
        self.assert_(c, e, True)

    def violation(self, msg, extra=None):
        self.violations.append({'msg': msg, 'inputs': self.model(extra)})
        raise Stop()

    def model(self, extra=None):
        if extra is not None:
            r = self.solver.check(extra)
        else:
            r = self.solver.check()
        if r != z3.sat:
            raise Abort()
        m = self.solver.model()
        return [m.eval(v, True).as_long() for v in self.vars]

    def reach(self, label):
        if label not in self.reached:
            self.reached.append(label)

    def obs(self, x):
        self.observed.append(x)
