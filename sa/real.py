"""Terms read as real numbers: rational functions over the terms that are not
arithmetic, with every rounding left out.  Equality is exact."""
from fractions import Fraction

from .terms import *

DEC = 10**18


class R:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {(): Fraction(1)}

    def __add__(self, o):
        return R(_add(_mul(self.n, o.d), _mul(o.n, self.d)), _mul(self.d, o.d))

    def __sub__(self, o):
        return self + const(-1) * o

    def __mul__(self, o):
        return R(_mul(self.n, o.n), _mul(self.d, o.d))

    def __truediv__(self, o):
        return R(_mul(self.n, o.d), _mul(self.d, o.n))

    def same(self, o):
        return _add(_mul(self.n, o.d), _mul(const(-1).n, _mul(o.n, self.d))) == {}

    def number(self):
        """its value, if it is a constant"""
        if set(self.n) <= {()} and set(self.d) <= {()}:
            return self.n.get((), Fraction(0)) / self.d[()]
        return None


def const(c):
    return R({(): Fraction(c)} if c else {})


def atom(t):
    return R({((t, 1),): Fraction(1)})


def _add(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    return r


def _mul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            e = dict(m)
            for t, p in k:
                e[t] = e.get(t, 0) + p
            q = tuple(sorted(e.items(), key=lambda x: skey(x[0])))
            r[q] = r.get(q, 0) + c * d
            if not r[q]:
                del r[q]
    return r


def real(t, leaf=None):
    """`leaf(t)` may give the value of a term itself (None: read on)"""
    if leaf is not None:
        v = leaf(t)
        if v is not None:
            return v
    f = lambda x: real(x, leaf)
    if t.op == "int":
        return const(t.args[0])
    if t.op == "dec":
        return const(Fraction(t.args[0], DEC))
    if t.op == "lin":
        r = const(t.args[0])
        for m, k in t.args[1]:
            r = r + const(k) * f(m)
        return r
    if t.op in ("mul", "decmul", "mulfloor", "mulceil"):
        r = const(1)
        for x in t.args:
            r = r * f(x)
        return r
    if t.op in ("ratio", "decdiv", "decdivint"):
        return f(t.args[0]) / f(t.args[1])
    if t.op == "muldiv":
        return f(t.args[0]) * f(t.args[1]) / f(t.args[2])
    if t.op == "fld" and t.args[1] == "0" and t.args[0].op == "as" and t.args[0].args[1] == "Ok":
        x = t.args[0].args[0]
        if x.op == "app" and str(x.args[0]).split("::")[-1] == "from_atomics":
            n = real(x.args[2], leaf).number()
            if n is not None and n.denominator == 1 and n >= 0:
                return f(x.args[1]) / const(10 ** int(n))
    if t.op == "app":
        n = str(t.args[0]).split("::")[-1]
        if n == "atomics":
            return const(DEC) * f(t.args[1])
        if n == "decimal_places":
            return const(18)
    if t.op == "idiv" and t.args[0].op == "app" and str(t.args[0].args[0]).endswith("atomics") and t.args[1] is I(DEC):
        return atom(mk("to_uint_floor", t.args[0].args[1]))
    if t.op == "irem" and t.args[0].op == "app" and str(t.args[0].args[0]).endswith("atomics") and t.args[1] is I(DEC):
        x = t.args[0].args[1]
        return const(DEC) * (f(x) - atom(mk("to_uint_floor", x)))
    if t.op == "floor":
        return atom(mk("to_uint_floor", t.args[0]))
    return atom(t)
