"""Hash-consed terms: the value domain of the abstract interpretation.

A term is an operator with arguments (terms, ints, strings, bools, None or
tuples of those).  Equal terms are the same object.
"""

import hashlib

_tab = {}
_ctr = [0]


class T:
    __slots__ = ("op", "args", "id", "_has", "hasref")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _hasref(a):
    for x in a:
        if isinstance(x, T):
            if x.hasref:
                return True
        elif isinstance(x, tuple) and _hasref(x):
            return True
    return False


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _ctr[0] += 1
        t.id = _ctr[0]
        t._has = None
        t.hasref = op == "ref" or _hasref(args)
        _tab[k] = t
    return t


def skey(x):
    """A structural, run-independent sort key (a digest of the structure)."""
    if isinstance(x, T):
        k = x._has
        if k is None:
            h = hashlib.blake2b(digest_size=8)
            h.update(x.op.encode())
            for a in x.args:
                h.update(b"|")
                h.update(skey(a).encode())
            k = x._has = x.op + h.hexdigest()
        return k
    if isinstance(x, tuple):
        return "(" + ",".join(skey(a) for a in x) + ")"
    return type(x).__name__[0] + str(x)


# ---------------------------------------------------------------- printing
_show_memo = {}
_size = {}


def tree_size(x):
    """how many nodes the term has when written out"""
    if isinstance(x, tuple):
        return sum(tree_size(a) for a in x)
    if not isinstance(x, T):
        return 1
    n = _size.get(x)
    if n is None:
        n = _size[x] = 1 + sum(tree_size(a) for a in x.args)
    return n


def show(x):
    if isinstance(x, T):
        s = _show_memo.get(x)
        if s is None:
            # written out, shared parts can be far larger than the term
            s = _show(x) if tree_size(x) < 20000 else "%s(..%s)" % (x.op, skey(x)[-8:])
            _show_memo[x] = s
        return s
    if isinstance(x, tuple):
        return "(" + ",".join(show(a) for a in x) + ")"
    return str(x)


FIELDS = {}  # (tyname, variant) -> field names


def _show(t):
    o, a = t.op, t.args
    if o in ("int", "bool"):
        return str(a[0])
    if o == "str":
        return '"' + a[0] + '"'
    if o == "bytes":
        return "b" + repr(bytes(a[0]))
    if o == "sym":
        return a[0]
    if o == "adt":
        ty, v = a[0], a[1]
        nm = ty.split("::")[-1]
        if v != nm:
            nm += "::" + v
        if ty.startswith("std::option") or ty.startswith("std::result"):
            nm = v
        fs = FIELDS.get((ty, v), ())
        vals = a[2:]
        if not vals:
            return nm
        if fs and not fs[0].isdigit():
            return nm + "{" + ", ".join(f"{f}: {show(x)}" for f, x in zip(fs, vals)) + "}"
        return nm + "(" + ", ".join(show(x) for x in vals) + ")"
    if o == "fld":
        return f"{show(a[0])}.{a[1]}"
    if o == "as":
        return f"{show(a[0])}:{a[1]}"
    if o == "tuple":
        return "(" + ", ".join(show(x) for x in a) + ")"
    if o == "arr":
        return "[" + ", ".join(show(x) for x in a) + "]"
    if o == "lin":
        c, ms = a
        parts = []
        for m, k in ms:
            parts.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + show(m))
        parts.sort(key=lambda p: (p[0] != "+", p))
        if c:
            parts.append(("+" if c > 0 else "") + str(c))
        return "(" + " ".join(parts).lstrip("+") + ")"
    if o == "app":
        return a[0].split("::")[-1] + "(" + ", ".join(show(x) for x in a[1:]) + ")"
    return o + "(" + ", ".join(show(x) for x in a) + ")"


def brief(x, n=300):
    """show(x) cut at about n characters; never expands more than that (terms
    are shared graphs, their full text can be exponentially long)"""
    if not isinstance(x, (T, tuple)):
        return str(x)[:n]
    left = [n]

    def go(y):
        if left[0] <= 0:
            return "…"
        if isinstance(y, tuple):
            out = "("
            for i, a in enumerate(y):
                if left[0] <= 0:
                    return out + "…)"
                out += ("," if i else "") + go(a)
            return out + ")"
        if not isinstance(y, T):
            left[0] -= len(str(y))
            return str(y)
        if y in _show_memo or y.op in ("int", "bool", "str", "bytes", "sym"):
            s = show(y)[: max(left[0], 0) + 40]
            left[0] -= len(s)
            return s
        o, a = y.op, y.args
        if o == "fld" or o == "as":
            s = go(a[0])
            left[0] -= len(str(a[1])) + 1
            return s + (":" if o == "as" else ".") + str(a[1])
        nm, vals = o, a
        if o == "adt":
            nm, vals = (a[1] if a[1] in ("Some", "None", "Ok", "Err") or a[0].endswith("::" + a[1]) else a[0].split("::")[-1] + "::" + a[1]), a[2:]
        elif o == "app":
            nm, vals = str(a[0]).split("::")[-1], a[1:]
        elif o == "lin":
            nm, vals = "sum", a
        left[0] -= len(nm) + 2
        if not vals:
            return nm
        out = nm + "("
        for i, v in enumerate(vals):
            if left[0] <= 0:
                return out + "…)"
            out += (", " if i else "") + go(v)
        return out + ")"

    return go(x)[:n]


# ------------------------------------------------------------ traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def contains(t, sub):
    return sub in subterms(t)


def any_sub(t, pred):
    return any(pred(x) for x in subterms(t))


def has_op(t, ops):
    for x in subterms(t):
        if x.op in ops:
            return True
    return False


def rebuild(op, args):
    """Re-apply the simplifying constructor for an operator."""
    f = SIMP.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    """Simultaneous substitution {term: term}, simplifying on the way up."""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args:
        r = t
    else:
        free = BINDERS.get(t.op)
        own = mk("el", t.args[0], 0) if free is not None else None
        if own is not None and own in m:
            # the element variable of a summary is bound by it
            key = ("sub", own)
            sub = memo.get(key)
            if sub is None:
                m2 = {k: v for k, v in m.items() if k is not own}
                sub = memo[key] = (m2, {})
            m2, memo2 = sub
            na = tuple(_subst(x, m, memo) if i in free else (_subst(x, m2, memo2) if m2 else x) for i, x in enumerate(t.args))
        else:
            na = tuple(_subst(x, m, memo) for x in t.args)
        r = t if na == t.args else rebuild(t.op, na)
    memo[t] = r
    return r


# summaries binding the element variable el(args[0], 0); positions of the
# arguments outside the scope of the binder
BINDERS = {
    "comp": (0,),
    "find": (0,),
    "pos": (0,),
    "exists": (0,),
    "sumover": (0,),
    "flat": (0,),
    "foreach": (0,),
    "foreachw": (0,),
    "fold": (0, 1),
    "foldj": (0, 1, 2),
    "accat": (0, 2),
}

# --------------------------------------------------------- constructors
def I(n):
    return mk("int", n)


def S(s):
    return mk("str", s)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tuple")
UNINIT = mk("uninit")


def B(b):
    return TRUE if b else FALSE


def sym(n):
    return mk("sym", n)


OPT = "std::option::Option"
RES = "std::result::Result"


def some(x):
    return mk("adt", OPT, "Some", x)


NONE = mk("adt", OPT, "None")


def ok(x):
    return mk("adt", RES, "Ok", x)


def err(x):
    return mk("adt", RES, "Err", x)


def tup(*a):
    return mk("tuple", *a)


def arr(*a):
    return mk("arr", *a)


def is_const(t):
    return t.op in ("int", "str", "bool", "bytes")


def fld(base, name, idx=None):
    """Field of a struct/tuple/(variant of an) enum value."""
    if base.op == "adt":
        ty, v = base.args[0], base.args[1]
        names = FIELDS.get((ty, v), ())
        if name in names:
            return base.args[2 + names.index(name)]
        if name.isdigit() and int(name) < len(base.args) - 2:
            return base.args[2 + int(name)]
        return mk("fld", base, name)
    if base.op == "tuple" and name.isdigit() and int(name) < len(base.args):
        return base.args[int(name)]
    if base.op == "as" and base.args[0].op == "adt":
        if base.args[0].args[1] == base.args[1]:
            return fld(base.args[0], name)
    if base.op == "uninit":
        return UNINIT
    if base.op == "find":
        # the element found by key equality has that key
        me = mk("fld", mk("el", base.args[0], 0), name)
        for c, p in base.args[1]:
            if p and c.op == "eq" and (c.args[0] is me or c.args[1] is me):
                x = c.args[1] if c.args[0] is me else c.args[0]
                if not contains(x, me.args[0]):
                    return x
    return mk("fld", base, name)


def as_variant(base, v):
    if base.op == "adt":
        return base
    return mk("as", base, v)


def variant_payload(x, v, name="0"):
    return fld(as_variant(x, v), name)


def not_(c):
    if c.op == "bool":
        return B(not c.args[0])
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            out.extend(c.args)
        else:
            out.append(c)
    out = sorted(set(out), key=skey)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", *out)


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def iff(a, b):
    """both or neither of two conditions"""
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "bool":
            return y if x.args[0] else not_(y)
    pol = True
    if a.op == "not":
        a, pol = a.args[0], not pol
    if b.op == "not":
        b, pol = b.args[0], not pol
    c = mk("iff", *sorted((a, b), key=skey))
    return c if pol else not_(c)


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == b.op:
            return B(a.args[0] == b.args[0])
        if {a.op, b.op} == {"str", "bytes"}:
            x = a.args[0].encode() if a.op == "str" else bytes(a.args[0])
            y = b.args[0].encode() if b.op == "str" else bytes(b.args[0])
            return B(x == y)
    for x, y in ((a, b), (b, a)):
        if x is I(0) and y.op == "len" and y.args[0].op == "app" and y.args[0].args[0] == "split":
            return FALSE  # a split text has at least one part
        if is_atomics(x) and (is_atomics(y) or (y.op == "int" and y.args[0] == 0)):
            return eq(x.args[1], y.args[1] if y.op == "app" else y)
    if a.op == "bool":
        return b if a.args[0] else not_(b)
    if b.op == "bool":
        return a if b.args[0] else not_(a)
    if a.op == "not" and b.op == "not":
        return eq(a.args[0], b.args[0])
    if a.op == "adt" and b.op == "adt":
        if a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    for x, y in ((a, b), (b, a)):
        if x.op == "discr" and y.op == "int" and x.args[1] in DISCR:
            n = DISCR[x.args[1]].get(y.args[0])
            return FALSE if n is None else is_variant(x.args[0], n, x.args[1])
    if a.op == "discr" and b.op == "discr" and a.args[1] == b.args[1] and len(VARIANTS.get(a.args[1], ())) == 2:
        v = VARIANTS[a.args[1]][1 if a.args[1] == OPT else 0]
        return eq(is_variant(a.args[0], v, a.args[1]), is_variant(b.args[0], v, b.args[1]))
    # comparison against a nullary variant is a variant test
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and y.op != "adt":
            t = is_variant(y, x.args[1], x.args[0])
            if len(x.args) == 2:
                return t
            names = FIELDS.get((x.args[0], x.args[1])) or [str(i) for i in range(len(x.args) - 2)]
            return and_(t, *[eq(fld(as_variant(y, x.args[1]), n), v) for n, v in zip(names, x.args[2:])]) if x.args[0] in (OPT, RES) else mk("eq", *sorted((a, b), key=skey))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "arr" and b.op == "arr":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    # linear: move everything to one side when both are linear sums
    if a.op == "lin" or b.op == "lin":
        d = lin_add(a, b, -1)
        if d.op == "int":
            return B(d.args[0] == 0)
        if d.op == "lin":
            c, ms = d.args
            if c == 0 and len(ms) == 2 and ms[0][1] == -ms[1][1] == 1:
                return eq(ms[0][0], ms[1][0])
            if c == 0 and len(ms) == 2 and ms[0][1] == -ms[1][1] == -1:
                return eq(ms[1][0], ms[0][0])
    # nothing is listed: no element meets a case
    for x, y in ((a, b), (b, a)):
        if x.op == "len" and y is I(0) and x.args[0].op == "comp":
            s, cs = x.args[0].args
            return and_(*[not_(exists(s, g)) for g, ys in cs])
    a, b = sorted((a, b), key=skey)
    return mk("eq", a, b)


DISCR = {}  # enum name -> {discriminant: variant}
VARIANTS = {OPT: ("None", "Some"), RES: ("Ok", "Err")}


def is_variant(x, v, ty=None):
    if x.op == "adt":
        return B(x.args[1] == v)
    vs = VARIANTS.get(ty, ())
    # two-variant enums: one canonical test
    if len(vs) == 2 and v == vs[1] and ty == RES:
        return not_(is_variant(x, vs[0], ty))
    if len(vs) == 2 and v == vs[0] and ty == OPT:
        return not_(is_variant(x, vs[1], ty))
    return ordering_test(x, v) if x.op == "cmp" else mk("is", x, v)


def ordering_test(x, v):
    """a test of the outcome of a comparison, as the comparison it makes"""
    a, b = x.args
    return {"Less": lambda: lt(a, b, False), "Greater": lambda: lt(b, a, False), "Equal": lambda: eq(a, b)}[v]()


def is_atomics(a):
    return a.op == "app" and a.args[0] == "atomics"


def lt(a, b, unsigned=True, integer=False):
    """a < b; `integer` only when both sides are known to be integers (a
    decimal one is I(1) too)."""
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return B(a.args[0] < b.args[0])
    if is_atomics(a) and is_atomics(b):
        return lt(a.args[1], b.args[1], unsigned)
    if unsigned:
        if b.op == "dec" and b.args[0] == 1:
            # below the smallest decimal
            return eq(a, I(0))
        if b.op == "int" and b.args[0] == 0:
            return FALSE
        if a.op == "ratio" and b.op == "int" and b.args[0] == 1:
            # (rounding down to decimals does not cross one)
            return lt(a.args[0], a.args[1])
        if a.op == "int" and a.args[0] == 0:
            return not_(eq(b, I(0)))
        if integer and b.op == "int" and b.args[0] == 1:
            return eq(a, I(0))
        return mk("lt", a, b)
    return mk("slt", a, b)


def le(a, b, unsigned=True, integer=False):
    return not_(lt(b, a, unsigned, integer))


# linear arithmetic normal form ("sum" of terms with integer coefficients)
def _lin_parts(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def _lin_make(c, ms):
    ms = tuple(sorted(((m, k) for m, k in ms.items() if k != 0), key=lambda p: skey(p[0])))
    if not ms:
        return I(c)
    if c == 0 and len(ms) == 1 and ms[0][1] == 1:
        return ms[0][0]
    return mk("lin", c, ms)


def lin_add(a, b, k=1):
    c, ms = _lin_parts(a)
    c2, ms2 = _lin_parts(b)
    ms = dict(ms)
    for m, q in ms2.items():
        ms[m] = ms.get(m, 0) + k * q
    return _lin_make(c + k * c2, ms)


def add(a, b):
    return lin_add(a, b, 1)


def sub(a, b):
    return lin_add(a, b, -1)


def simp_lin(c, ms):
    r = I(c)
    for m, k in ms:
        c2, m2 = _lin_parts(m)
        r = lin_add(r, _lin_make(c2 * k, {x: q * k for x, q in m2.items()}))
    return r


def mul(a, b, kind="mul"):
    """kind: 'mul' exact integer product, 'mulfloor' Uint*Decimal floored,
    'decmul' Decimal*Decimal floored at 18 digits."""
    if a.op == "int" and b.op == "int" and kind == "mul":
        return I(a.args[0] * b.args[0])
    if kind == "mul":
        for x, y in ((a, b), (b, a)):
            if x.op == "int":
                if x.args[0] == 0:
                    return I(0)
                if x.args[0] == 1:
                    return y
    a, b = sorted((a, b), key=skey)
    return mk(kind, a, b)


def seq_concat(*xs):
    out = []
    for x in xs:
        if x.op == "concat":
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op == "arr":
            if not x.args:
                continue
            if res and res[-1].op == "arr":
                res[-1] = mk("arr", *(res[-1].args + x.args))
                continue
        res.append(x)
    if not res:
        return mk("arr")
    if len(res) == 1:
        return res[0]
    return mk("concat", *res)


def seq_len(s):
    if s.op == "app" and s.args[0] == "split" and s.args[2] is I(44):
        # texts split at a comma are pairs
        return I(2)
    if s.op == "tail" and s.args[0].op == "app":
        return sub(seq_len(s.args[0]), I(1))
    if s.op == "arr":
        return I(len(s.args))
    if s.op == "concat":
        r = I(0)
        for x in s.args:
            r = add(r, seq_len(x))
        return r
    if s.op == "str":
        return I(len(s.args[0].encode()))
    if s.op == "bytes":
        return I(len(s.args[0]))
    if s.op == "comp":
        base, cases = s.args
        if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1:
            return seq_len(base)
    if s.op == "upd":
        return seq_len(s.args[0])
    if s.op in ("sorted", "shuffled"):
        return seq_len(s.args[0])
    return mk("len", s)


def idxend(s, k):
    """the k-th element from the end, where there is one"""
    while s.op == "tail":
        s = s.args[0]
    l = s.args[-1] if s.op == "concat" else s
    if l.op == "arr" and isinstance(k, int) and 1 <= k <= len(l.args):
        return l.args[len(l.args) - k]
    return mk("idxend", s, k)


def idx(s, i):
    if s.op == "rev" and s.args[0].op == "app" and s.args[0].args[0] == "split" and i.op == "int" and i.args[0] in (0, 1):
        return idx(s.args[0], I(1 - i.args[0]))
    if s.op == "app" and s.args[0] == "split" and s.args[2] is I(44) and i is I(1):
        return mk("idxend", s, 1)
    if s.op == "arr" and i.op == "int" and 0 <= i.args[0] < len(s.args):
        return s.args[i.args[0]]
    if i.op == "pos" and i.args[0] is s:
        return mk("find", s, i.args[1])
    if s.op == "upd" and s.args[1] is i:
        return s.args[2]
    if i.op == "ix" and i.args[0] is s:
        return el(s, i.args[1])
    if i.op == "ix" and s.op == "comp" and i.args[0] is s.args[0] and len(s.args[1]) == 1 and not s.args[1][0][0] and len(s.args[1][0][1]) == 1:
        # one for each of the positions it goes over
        b = s.args[0]
        return subst(s.args[1][0][1][0], {el(b, 0): el(b, i.args[1]), mk("ix", b, 0): i})
    if s.op == "bytes" and i.op == "int" and i.args[0] < len(s.args[0]):
        return I(s.args[0][i.args[0]])
    if s.op == "concat" and i.op == "int" and s.args[0].op == "arr" and i.args[0] < len(s.args[0].args):
        return s.args[0].args[i.args[0]]
    if i.op == "lin" and s.op != "arr":
        n = sub(seq_len(s), i)
        if n.op == "int" and n.args[0] > 0:
            return mk("idxend", s, n.args[0])
    return mk("idx", s, i)


def upd(s, i, v):
    if s.op == "arr" and i.op == "int" and i.args[0] < len(s.args):
        l = list(s.args)
        l[i.args[0]] = v
        return mk("arr", *l)
    if v is idx(s, i):
        return s
    if s.op == "upd" and s.args[1] is i:
        return upd(s.args[0], i, v)
    return mk("upd", s, i, v)


def el(s, k):
    return mk("el", s, k)


def comp(base, cases):
    """for each element of base, the values yielded under each case."""
    cases = tuple(c for c in cases if c[1])
    if not cases:
        return mk("arr")
    if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1:
        y = cases[0][1][0]
        if y.op == "el" and y.args[0] is base:
            return base
    return mk("comp", base, tuple(sorted(cases, key=skey)))


def sumover(base, cases):
    if not cases:
        return I(0)
    return mk("sumover", base, cases)


def adt(ty, v, *vals):
    return mk("adt", ty, v, *vals)


def guards(g):
    """Normalise a guard set; None when it is contradictory."""
    out = set()
    st = list(g)
    while st:
        c, p = st.pop()
        if c.op == "not":
            st.append((c.args[0], not p))
        elif c.op == "bool":
            if c.args[0] != p:
                return None
        elif c.op == "and" and p:
            st.extend((x, True) for x in c.args)
        else:
            out.add((c, p))
    for c, p in out:
        if (c, not p) in out:
            return None
    return tuple(sorted(out, key=skey))


def cases_(cs):
    r = []
    for c in cs:
        g = guards(c[0])
        if g is not None:
            r.append((g,) + tuple(c[1:]))
    return tuple(sorted(set(r), key=skey))


def exists(base, g):
    g = guards(g)
    if g is None:
        return FALSE
    if not g:
        return not_(eq(seq_len(base), I(0)))
    return mk("exists", base, g)


def _gb(op):
    def f(base, g):
        n = guards(g)
        return mk(op, base, g if n is None else n)

    return f


def _accat(base, g, init):
    n = guards(g)
    return mk("accat", base, g if n is None else n, init)


SIMP = {
    "exists": exists,
    "find": _gb("find"),
    "pos": _gb("pos"),
    "accat": _accat,
    "comp": lambda b, cs: comp(b, cases_(cs)),
    "sumover": lambda b, cs: sumover(b, cases_(cs)),
    "fold": lambda b, i, cs: mk("fold", b, i, cases_(cs)),
    "foldj": lambda b, j, i, cs: mk("foldj", b, j, i, cases_(cs)),
    "fld": lambda b, n: fld(b, n),
    "as": lambda b, v: as_variant(b, v),
    "not": lambda c: not_(c),
    "and": lambda *c: and_(*c),
    "eq": lambda a, b: eq(a, b),
    "lt": lambda a, b: lt(a, b),
    "slt": lambda a, b: lt(a, b, False),
    "is": lambda x, v: (B(x.args[1] == v) if x.op == "adt" else ordering_test(x, v) if x.op == "cmp" else mk("is", x, v)),
    "lin": simp_lin,
    "mul": lambda a, b: mul(a, b, "mul"),
    "mulfloor": lambda a, b: mul(a, b, "mulfloor"),
    "decmul": lambda a, b: mul(a, b, "decmul"),
    "concat": lambda *a: seq_concat(*a),
    "len": lambda s: seq_len(s),
    "idx": lambda s, i: idx(s, i),
    "upd": lambda s, i, v: upd(s, i, v),
    "idxend": lambda s, k: idxend(s, k),
}
