"""Recognisers for the loop summaries the rules talk about."""
from ..terms import *
from .lib import *


def split_keyed(acc, guards_, keyname, kt):
    """Splits the guards of a step into the keyed-membership test and the
    rest.  Returns (present: bool|None, membership guards, rest)."""
    rest = []
    pres = None
    mg = None
    for c, p in guards_:
        if c.op == "exists" and c.args[0] is acc and _keytest(c.args[1], acc, keyname, kt):
            pres = p
            mg = c.args[1]
        else:
            rest.append((c, p))
    return pres, mg, tuple(rest)


def _keytest(g, acc, keyname, kt):
    if len(g) != 1 or not g[0][1] or g[0][0].op != "eq":
        return False
    me = fld(el(acc, 0), keyname)
    a, b = g[0][0].args
    o = b if a is me else a if b is me else None
    if o is None:
        return False
    return kt is None or o is kt


def key_of(g, acc, keyname):
    me = fld(el(acc, 0), keyname)
    a, b = g[0][0].args
    return b if a is me else a


class Step:
    def __init__(self, rest, key, delta, present, new):
        self.rest, self.key, self.delta, self.present, self.new = rest, key, delta, present, new


def keyed_fold(f, keyname, valname, acc=None):
    """fold(base, init, cases) where each step looks a key up in the
    accumulator and changes the value stored under it (or appends).
    Returns (base, init, [Step]) or None."""
    if f.op not in ("fold",):
        return None
    base, init, cases = f.args
    a = mk("accv", 0)
    steps = []
    for g, v in cases:
        s = keyed_step(a, g, v, keyname, valname)
        if s is None:
            return None
        steps.append(s)
    return base, init, steps


def keyed_step(a, g, v, keyname, valname):
    """one step: accumulator a under guards g becomes v"""
    for c, p in g:
        if c.op == "exists" and c.args[0] is a and _keytest(c.args[1], a, keyname, None):
            mg = c.args[1]
            k = key_of(mg, a, keyname)
            rest = tuple(x for x in g if x != (c, p))
            if v is a:
                return Step(rest, k, I(0), p, None)
            if p:
                if v.op != "upd" or v.args[0] is not a or v.args[1] is not mk("pos", a, mg):
                    return None
                f = mk("find", a, mg)
                nv = v.args[2]
                if fld(nv, keyname) is not fld(f, keyname) and fld(nv, keyname) is not k:
                    return None
                return Step(rest, k, sub(fld(nv, valname), fld(f, valname)), True, nv)
            if v.op != "concat" or v.args[0] is not a or len(v.args) != 2 or v.args[1].op != "arr" or len(v.args[1].args) != 1:
                return None
            nv = v.args[1].args[0]
            if fld(nv, keyname) is not k:
                return None
            return Step(rest, k, fld(nv, valname), False, nv)
    if v is a:
        return Step(g, None, I(0), None, None)
    return None


def elem(seq, base):
    """The generic element of `seq` when it maps `base` element-wise."""
    if seq is base:
        return el(base, 0)
    if seq.op == "comp" and seq.args[0] is base and len(seq.args[1]) == 1:
        g, ys = seq.args[1][0]
        if not g and len(ys) == 1:
            return ys[0]
    return None


def root_of(seq):
    """base of an element-wise map"""
    if seq.op == "comp" and len(seq.args[1]) == 1 and not seq.args[1][0][0] and len(seq.args[1][0][1]) == 1:
        return seq.args[0]
    return seq


def strip_sort(s):
    while s.op in ("sorted", "sortedby", "rev"):
        s = s.args[0]
    return s
