"""Propositional reasoning over guard literals (no solver: a small exact
case split over the atoms that occur in the guards)."""
from ..terms import *


def refuted(goal, clauses, limit=20000):
    """Is the conjunction `goal` (a guard set) inconsistent with none of the
    guard sets in `clauses` holding?  Exact over the atoms involved, their
    order, equality and variant conflicts, and what finding an element in a
    list says about it."""
    ids = {}

    def lit(c, p):
        c, p = _norm(c, p)
        if c.op == "bool":
            return c.args[0] == p
        i = ids.setdefault(c, len(ids) + 1)
        return i if p else -i

    units = []
    nots = []  # sets of literals that cannot all hold
    for c, p in goal:
        x = lit(c, p)
        if x is False:
            return True
        if x is not True:
            units.append(x)
    for g in clauses:
        _conflict(nots, [lit(c, p) for c, p in g])
    for g in _found(list(ids)):
        _conflict(nots, [lit(c, p) for c, p in g])
    _theory(ids, nots)
    return not _sat(units, nots, [limit])


def _conflict(nots, ls):
    if any(x is False for x in ls):
        return
    nots.append([-x for x in ls if x is not True])


def _norm(c, p):
    while c.op == "not":
        c, p = c.args[0], not p
    return c, p


def _theory(ids, nots):
    """pairs of atoms that exclude each other"""
    eqs, iss = {}, {}
    for a, i in ids.items():
        if a.op == "lt":
            j = ids.get(mk("lt", a.args[1], a.args[0]))
            if j and j > i:
                nots.append([-i, -j])
            e = eq(a.args[0], a.args[1])
            if e.op == "bool":
                if e.args[0]:
                    nots.append([-i])
            elif e in ids:
                nots.append([-i, -ids[e]])
        elif a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if is_const(y):
                    eqs.setdefault(x, []).append((y, i))
        elif a.op == "is":
            iss.setdefault(a.args[0], []).append((a.args[1], i))
    for d in (eqs, iss):
        for vs in d.values():
            for n, (y, i) in enumerate(vs):
                for z, j in vs[n + 1:]:
                    if y != z:
                        nots.append([-i, -j])


def _found(atoms):
    """The element found in a list satisfies what it was searched by, and
    whatever every element of the list satisfies: guard sets that cannot
    hold."""
    finds = set()
    ex = {}
    for a in atoms:
        if a.op == "exists":
            ex.setdefault(a.args[0], []).append(a)
        for y in subterms(a):
            if y.op == "find":
                finds.add(y)
    r = []
    for f in finds:
        b, g = f.args
        if not isinstance(g, tuple) or b not in ex:
            continue
        m = {el(b, 0): f}
        here = (mk("exists", b, g), True)

        def at(c):
            mm = dict(m)
            for y in subterms(c):
                if y.op == "accat" and y.args[0] is b and y.args[1] == ():
                    mm[y] = mk("accat", b, g, y.args[2])
            return subst(c, mm)

        for c, p in g:
            r.append([here, (at(c), not p)])
        for e in ex[b]:
            if e.args[1] != g:
                r.append([here, (e, False)] + [(at(c), p) for c, p in e.args[1]])
    return r


def _sat(units, nots, budget):
    """Is there an assignment with all `units` and, in each of `nots`
    (disjunctions), a true literal?  (Out of budget: assume so.)"""
    asg = {}
    todo = list(units)
    cls = nots
    while True:
        while todo:
            x = todo.pop()
            v = asg.get(abs(x))
            if v is not None:
                if v != (x > 0):
                    return False
                continue
            asg[abs(x)] = x > 0
        nxt = []
        for c in cls:
            o = []
            for x in c:
                v = asg.get(abs(x))
                if v is None:
                    o.append(x)
                elif v == (x > 0):
                    break
            else:
                if not o:
                    return False
                if len(o) == 1:
                    todo.append(o[0])
                else:
                    nxt.append(o)
        cls = nxt
        if not todo:
            break
    if not cls:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return True
    c = min(cls, key=len)
    for n, x in enumerate(c):
        # x true, the literals before it false
        if _sat([x] + [-y for y in c[:n]], cls, budget):
            return True
    return False


def none_of(t, base):
    """guard sets g for which the trace knows no element of base satisfies g"""
    r = []
    for c, p in t.lits:
        if not p and c.op == "exists" and c.args[0] is base:
            r.append(c.args[1])
    return r


def no_element(t, base, g):
    """The trace guarantees that no element of `base` satisfies guards g."""
    g = guards(g)
    if g is None:
        return True
    if base.op == "arr":
        for x in base.args:
            m = {el(base, 0): x}
            if t.holds(and_(*[subst(c, m) if p else not_(subst(c, m)) for c, p in g])) is not False:
                return False
        return True
    # facts of the trace that do not mention the element may be used too
    gl = [c for c, p in g]
    cl = list(none_of(t, base))
    goal = list(g)
    for c, p in t.lits:
        goal.append((c, p))
    return refuted(goal, cl)
