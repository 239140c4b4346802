"""Abstract interpreter over the dumped MIR.

Domain: value numbers (hash-consed terms) for every memory location, a set of
branch literals that hold on the trace (must-facts), the contents of the
contract's storage by namespace, and the emitted effects.  Traces are
partitioned by branch outcome; functions are analysed in their calling
context; loops and iterator adaptors are summarised element-wise (one generic
element, accumulators generalised until the set of changed locations is
stable).  Nothing is executed and no path condition is ever solved: a literal
is only looked up.
"""
from . import terms
from .program import TRANSPARENT, VECNEW, live_in, loops_of, norm_name
from .terms import *

NEWTYPES = {
    "cosmwasm_std::Uint64",
    "cosmwasm_std::Uint128",
    "cosmwasm_std::Uint256",
    "cosmwasm_std::Uint512",
    "cosmwasm_std::Decimal",
    "cosmwasm_std::Decimal256",
    "cosmwasm_std::Timestamp",
    "cosmwasm_std::Addr",
    "cosmwasm_std::Binary",
} | TRANSPARENT


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "lits", "sto", "eff", "active", "extra")

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.lits = self.lits
        s.sto = dict(self.sto)
        s.eff = self.eff
        s.active = self.active
        s.extra = self.extra
        return s


def new_state():
    s = St()
    s.mem, s.facts, s.lits, s.sto, s.eff, s.active, s.extra = {}, {}, (), {}, (), (), ()
    return s


class Call:
    __slots__ = ("name", "rname", "args", "argtys", "rty", "inst", "where", "gargs")


# ---------------------------------------------------------------- facts
def decide(st, c):
    """True / False when the facts of the trace settle c, else None."""
    if c.op == "bool":
        return c.args[0]
    if c.op == "not":
        r = decide(st, c.args[0])
        return None if r is None else not r
    f = st.facts
    r = f.get(c)
    if r is not None:
        return r
    if c.op == "and":
        rs = [decide(st, x) for x in c.args]
        if any(x is False for x in rs):
            return False
        if all(x is True for x in rs):
            return True
        return None
    if c.op in ("lt", "slt"):
        a, b = c.args
        if f.get(mk(c.op, b, a)) is True:
            return False
        e = terms.eq(a, b)
        if e.op == "bool":
            if e.args[0]:
                return False
        elif decide0(f, e) is True:
            return False
        return ordered(f, a, b)
    if c.op == "eq":
        a, b = c.args
        for o in ("lt", "slt"):
            x, y = f.get(mk(o, a, b)), f.get(mk(o, b, a))
            if x is True or y is True:
                return False
            if x is False and y is False:
                return True
        for x, y in ((a, b), (b, a)):
            if is_const(y):
                for g, p in f.items():
                    if p and g.op == "eq" and (g.args[0] is x or g.args[1] is x):
                        o = g.args[1] if g.args[0] is x else g.args[0]
                        if is_const(o) and o is not y:
                            return False
        return None
    if c.op == "is":
        x, v = c.args
        for g, p in f.items():
            if g.op == "is" and g.args[0] is x and p and g.args[1] != v:
                return False
        return None
    return None


def ordered(f, a, b):
    """a < b by chaining the order facts of the trace (None: not connected)"""
    if not any(g.op == "lt" and (g.args[0] is b or g.args[1] is b) for g in f):
        return None
    up, down = {}, {}
    for g, p in f.items():
        if g.op == "lt":
            x, y = g.args if p else (g.args[1], g.args[0])
            up.setdefault(x, []).append((y, p))
            down.setdefault(y, []).append((x, p))
        elif g.op == "eq" and p:
            x, y = g.args
            for m in (up, down):
                m.setdefault(x, []).append((y, False))
                m.setdefault(y, []).append((x, False))
    if a not in up and a not in down:
        return None
    for m, res in ((up, True), (down, False)):
        seen = {}
        todo = [(a, False)]
        while todo:
            x, s = todo.pop()
            if seen.get(x, -1) >= s:
                continue
            seen[x] = int(s)
            todo.extend((y, s or p) for y, p in m.get(x, ()))
        if b in seen and (seen[b] or not res):
            return res
    return None


def decide0(f, c):
    if c.op == "not":
        r = f.get(c.args[0])
        return None if r is None else not r
    return f.get(c)


def assume(st, c, pol=True):
    """Add the literal to st in place; False when it contradicts the facts."""
    while c.op == "not":
        c, pol = c.args[0], not pol
    d = decide(st, c)
    if d is not None:
        return d == pol
    if c.op == "and":
        if pol:
            for x in c.args:
                if not assume(st, x, True):
                    return False
            return True
        rest = [x for x in c.args if decide(st, x) is not True]
        if len(rest) == 1:
            return assume(st, rest[0], False)
    st.facts[c] = pol
    st.lits = st.lits + ((c, pol),)
    return True


class Engine:
    MAXPATHS = 4000

    def __init__(self, prog, models=None, limit_depth=80):
        self.p = prog
        from . import models as M

        self.models = M
        self.frame = 0
        self.depth = 0
        self.limit_depth = limit_depth
        self.panics = []  # stack of logs of literals of aborting traces
        self.panic_log = []
        self.opaque = {}
        self.origin = {}
        self.analysed = {}
        self.calls = 0
        self.loops = 0
        self.steps = 0
        self.curfn = []
        self.jsonty = {}  # json term -> types it was made from
        self.boxmut = False  # track what &mut self calls do to boxed objects

    # ------------------------------------------------------------ values
    def const(self, j, ty=None):
        if "i" in j:
            return I(j["i"])
        if "b" in j:
            return B(j["b"])
        if "s" in j:
            return S(j["s"])
        if "by" in j:
            return mk("bytes", tuple(j["by"]))
        if "tup" in j:
            return mk("tuple", *[self.const(x) for x in j["tup"]])
        if "arr" in j:
            return mk("arr", *[self.const(x) for x in j["arr"]])
        if "ref" in j:
            return self.const(j["ref"])
        if "fn" in j:
            return mk("fninst", j["fn"])
        if "zst" in j:
            return self.zst(j["zst"])
        if "adt" in j:
            t = self.p.types[j["adt"]]
            fs = [self.const(x) for x in j["f"]]
            return self.mkadt(j["adt"], j["v"], fs)
        return mk("const?", str(j.get("?")))

    def zst(self, tid):
        t = self.p.types[tid]
        if t["k"] == "closure":
            return mk("clos", t["inst"])
        if t["k"] == "fndef":
            return mk("fn", tid)
        if t["k"] == "tuple":
            return mk("tuple", *[self.zst(x) for x in t["f"]])
        if t["k"] == "adt":
            if len(t["v"]) == 1 and not t["enum"]:
                return self.mkadt(t, 0, [self.zst(f[1]) for f in t["v"][0]["f"]])
            return mk("zst", t["name"])
        if t["k"] == "array":
            return arr()
        return mk("zst", self.p.tname(tid))

    def mkadt(self, t, v, fs):
        if isinstance(t, int):
            t = self.p.types[t]
        n = t["name"]
        if (n in NEWTYPES or n in VECNEW) and len(fs) >= 1:
            x = fs[0]
            if n == "cosmwasm_std::Decimal" and x.op == "int":
                a = x.args[0]
                return I(a // 10**18) if a % 10**18 == 0 else mk("dec", a)
            return x
        return mk("adt", n, t["v"][v]["n"], *fs)

    # ------------------------------------------------------------ memory
    def getp(self, v, path):
        for e in path:
            v = self.get1(v, e)
        return v

    def get1(self, v, e):
        if e[0] == "f":
            _, i, name, variant, transparent = e
            if transparent:
                return v
            if v.op == "clos":
                return v.args[1 + i] if 1 + i < len(v.args) else mk("fld", v, name)
            if variant is not None:
                return fld(as_variant(v, variant), name)
            return fld(v, name)
        if e[0] == "i":
            return idx(v, e[1])
        if e[0] == "ie":
            if v.op == "arr" and e[1] <= len(v.args):
                return v.args[len(v.args) - e[1]]
            return idxend(v, e[1])
        if e[0] == "ss":
            return self.subslice(v, e)
        if e[0] == "mk":
            return self.models.mapget(v, e[1])
        raise Unsupported("path " + str(e))

    def subslice(self, v, e):
        _, a, b, fe = e
        if v.op == "arr":
            l = list(v.args)
            return mk("arr", *(l[a : len(l) - b] if fe else l[a:b]))
        return mk("subslice", v, a, b, fe)

    def setp(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            _, i, name, variant, transparent = e
            if transparent:
                return self.setp(v, path[1:], new)
            if v.op == "clos":
                l = list(v.args)
                l[1 + i] = self.setp(l[1 + i], path[1:], new)
                return mk("clos", *l)
            if v.op == "tuple" and i < len(v.args):
                l = list(v.args)
                l[i] = self.setp(l[i], path[1:], new)
                return mk("tuple", *l)
            if v.op == "adt" and len(v.args) > 2 + i:
                l = list(v.args)
                l[2 + i] = self.setp(l[2 + i], path[1:], new)
                return mk("adt", *l)
            raise Unsupported("store into unexpanded " + v.op)
        if e[0] == "i":
            return upd(v, e[1], self.setp(idx(v, e[1]), path[1:], new))
        if e[0] == "ie":
            l = v.args[-1] if v.op == "concat" else v
            if l.op == "arr" and e[1] <= len(l.args):
                k = len(l.args) - e[1]
                l = mk("arr", *(l.args[:k] + (self.setp(l.args[k], path[1:], new),) + l.args[k + 1 :]))
                return seq_concat(*(v.args[:-1] + (l,))) if v.op == "concat" else l
        if e[0] == "mk":
            old = self.models.mapget(v, e[1])
            base = v.args[0] if v.op == "mapins" and v.args[1] is e[1] else v
            return mk("mapins", base, e[1], self.setp(old, path[1:], new))
        raise Unsupported("store path " + str(e))

    def load(self, st, cell, path=()):
        v = st.mem.get(cell, UNINIT)
        return self.getp(v, path)

    def expand(self, v, ty, variant=None):
        """Give a symbolic struct/tuple value its constructor."""
        if v.op in ("adt", "tuple", "clos"):
            return v
        t = self.p.types[ty]
        if t["k"] == "adt" and t["x"] and t["name"] not in NEWTYPES and t["name"] not in VECNEW:
            vi = 0
            if t["enum"]:
                if variant is None:
                    return v
                vi = [x["n"] for x in t["v"]].index(variant)
            vd = t["v"][vi]
            base = as_variant(v, variant) if t["enum"] else v
            return mk("adt", t["name"], vd["n"], *[fld(base, f[0]) for f in vd["f"]])
        if t["k"] == "tuple":
            return mk("tuple", *[fld(v, str(i)) for i in range(len(t["f"]))])
        return v

    def storeat(self, st, cell, path, new, tys):
        """tys[i]: type of the value that path[i] projects from."""
        v = st.mem.get(cell, UNINIT)
        st.mem[cell] = self._storerec(v, path, tys, new)

    def _storerec(self, v, path, tys, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f" and not e[4] and tys[0] is not None:
            v = self.expand(v, tys[0], e[3])
            if v.op == "uninit":
                t = self.p.types[tys[0]]
                n = len(t["f"]) if t["k"] == "tuple" else 0
                if t["k"] == "tuple":
                    v = mk("tuple", *[UNINIT] * n)
                elif t["k"] == "adt":
                    vi = 0 if e[3] is None else [x["n"] for x in t["v"]].index(e[3])
                    v = mk("adt", t["name"], t["v"][vi]["n"], *[UNINIT] * len(t["v"][vi]["f"]))
        if e[0] == "f" and e[4]:
            return self._storerec(v, path[1:], tys[1:], new)
        old = self.get1(v, e)
        return self.setp(v, (e,), self._storerec(old, path[1:], tys[1:], new))

    # pointers: ("ref", cell, path, tys)
    def deref(self, st, v):
        if v.op == "ref":
            return self.load(st, v.args[0], v.args[1])
        return v

    def deref_full(self, st, v, memo=None):
        """Replace every pointer inside a value by what it points to."""
        if not v.hasref:
            return v
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is None:
            if v.op == "ref":
                r = self.deref_full(st, self.deref(st, v), memo)
            else:
                r = rebuild(v.op, tuple(self._df(st, a, memo) for a in v.args))
            memo[v] = r
        return r

    def _df(self, st, a, memo):
        if isinstance(a, T):
            return self.deref_full(st, a, memo)
        if isinstance(a, tuple):
            return tuple(self._df(st, x, memo) for x in a)
        return a

    def write(self, st, ptr, val, note=""):
        if ptr.op == "ref":
            self.storeat(st, ptr.args[0], ptr.args[1], val, ptr.args[2])
        else:
            st.eff = st.eff + (mk("lostwrite", note, ptr),)

    # ------------------------------------------------------------ places
    def walk(self, st, fr, inst, place):
        """-> (kind, ...) location plus static type of the place."""
        p = self.p
        local, proj = place
        ty = inst.body["locals"][local]
        loc = ("L", (fr, local), (), ())
        variant = None
        for e in proj:
            if e == "*":
                t = p.types[ty]
                v = self.read_loc(st, loc)
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                elif t["k"] == "adt" and t.get("args"):
                    ty = t["args"][0]
                if v.op == "ref":
                    loc = ("L", v.args[0], v.args[1], v.args[2])
                elif p.is_box_name(t) and loc[0] == "L":
                    pass  # a box owns its contents: same location
                else:
                    loc = ("V", v)
                variant = None
            elif e[0] == "f":
                t = p.types[ty]
                transparent = False
                if t["k"] == "adt":
                    if t["name"] in NEWTYPES or t["name"] in VECNEW:
                        transparent = e[1] == 0 or t["name"] in TRANSPARENT
                    vi = 0
                    if variant is not None:
                        vi = variant
                    vd = t["v"][vi] if t["v"] else None
                    name = vd["f"][e[1]][0] if vd and e[1] < len(vd["f"]) else str(e[1])
                    vname = vd["n"] if t["enum"] else None
                else:
                    name, vname = str(e[1]), None
                pe = ("f", e[1], name, vname, transparent)
                loc = self.ext(loc, pe, ty)
                ty = e[2]
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                iv = self.load(st, (fr, e[1]))
                loc = self.ext(loc, ("i", iv), ty)
                ty = p.types[ty].get("e", ty)
            elif e[0] == "ci":
                if e[3]:
                    pe = ("ie", e[1])
                else:
                    pe = ("i", I(e[1]))
                loc = self.ext(loc, pe, ty)
                ty = p.types[ty].get("e", ty)
            elif e[0] == "ss":
                loc = self.ext(loc, tuple(e), ty)
            elif e[0] == "oc":
                ty = e[1]
            else:
                raise Unsupported("proj " + str(e))
        return loc, ty

    def ext(self, loc, pe, ty):
        if loc[0] == "L":
            return ("L", loc[1], loc[2] + (pe,), loc[3] + (ty,))
        return ("V", self.get1(loc[1], pe))

    def read_loc(self, st, loc):
        if loc[0] == "L":
            return self.load(st, loc[1], loc[2])
        return loc[1]

    def read(self, st, fr, inst, place):
        if not place[1]:
            return st.mem.get((fr, place[0]), UNINIT)
        loc, _ = self.walk(st, fr, inst, place)
        return self.read_loc(st, loc)

    def assign(self, st, fr, inst, place, val):
        if not place[1]:
            st.mem[(fr, place[0])] = val
            return
        loc, _ = self.walk(st, fr, inst, place)
        if loc[0] == "L":
            self.storeat(st, loc[1], loc[2], val, loc[3])
        else:
            st.eff = st.eff + (mk("lostwrite", inst.deff, loc[1]),)

    def operand(self, st, fr, inst, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read(st, fr, inst, o[1])
        if k == "k":
            t = self.p.types[o[1]]
            if t["k"] in ("fndef", "closure"):
                return self.zst(o[1])
            return self.const(o[2])
        if k == "rc":
            return FALSE if "Ub" in o[1] or "Contract" in o[1] else TRUE
        raise Unsupported("operand " + str(o))

    # ----------------------------------------------------------- rvalues
    def is_unsigned(self, ty):
        t = self.p.types[ty] if ty is not None else None
        return not (t and t["k"] == "int")

    def optype(self, inst, o):
        if o[0] == "k":
            return o[1]
        ty = inst.body["locals"][o[1][0]]
        if not o[1][1]:
            return ty
        for e in reversed(o[1][1]):
            if isinstance(e, list) and e[0] == "f":
                return e[2]
            break
        return None

    def rvalue(self, st, fr, inst, r):
        k = r[0]
        if k == "use":
            if self.boxmut and r[1][0] == "c":
                loc, ty = self.walk(st, fr, inst, r[1][1])
                if self.p.is_box_name(self.p.types[ty]) and loc[0] == "L":
                    # copied only to reach what it owns
                    return mk("ref", loc[1], loc[2], loc[3])
            return self.operand(st, fr, inst, r[1])
        if k == "ref":
            loc, ty = self.walk(st, fr, inst, r[1])
            if r[2] == "shr":
                return self.read_loc(st, loc)
            if loc[0] == "L":
                if r[2] == "raw":
                    v = self.read_loc(st, loc)
                    # raw pointers are only used by std internals on values
                    return mk("ref", loc[1], loc[2], loc[3])
                return mk("ref", loc[1], loc[2], loc[3])
            return loc[1]
        if k == "agg":
            kind = r[1]
            vals = [self.operand(st, fr, inst, o) for o in r[2]]
            if kind[0] == "tuple":
                if len(vals) == 2 and all(v.op == "fld" and v.args[1] == str(i) and v.args[0] is vals[0].args[0] for i, v in enumerate(vals)) and vals[0].args[0].op in ("el", "idx", "find"):
                    return vals[0].args[0]  # a pair taken apart and put together again
                return mk("tuple", *vals)
            if kind[0] == "array":
                if vals and all(v.op == "int" for v in vals) and self.p.tname(kind[1]) == "u8":
                    return mk("bytes", tuple(v.args[0] for v in vals))
                return mk("arr", *vals)
            if kind[0] == "adt":
                return self.mkadt(kind[1], kind[2], vals)
            if kind[0] == "closure":
                return mk("clos", self.p.types[kind[1]]["inst"], *vals)
            if kind[0] == "rawptr":
                return vals[0]
            raise Unsupported("aggregate " + str(kind))
        if k in ("bin", "cbin"):
            a = self.operand(st, fr, inst, r[2])
            b = self.operand(st, fr, inst, r[3])
            a, b = self.deref(st, a), self.deref(st, b)
            return self.binop(r[1], a, b, self.optype(inst, r[2]), k == "cbin")
        if k == "cast":
            v = self.operand(st, fr, inst, r[2])
            if r[1].startswith("IntToInt"):
                src, dst = self.optype(inst, r[2]), r[3]
                if v.op == "bool":
                    return I(1 if v.args[0] else 0)
                if src is not None:
                    a, b = self.p.types[src], self.p.types[dst]
                    if a["k"] in ("int", "uint") and b["k"] in ("int", "uint"):
                        if v.op != "int" and width(b["n"]) < width(a["n"]):
                            return mk("narrow", self.p.tname(dst), v)
                    elif a["k"] == "bool":
                        return mk("b2i", v)
                return v
            return v
        if k == "discr":
            loc, ty = self.walk(st, fr, inst, r[1])
            return self.discr(self.read_loc(st, loc), ty)
        if k == "len":
            return seq_len(self.read(st, fr, inst, r[1]))
        if k == "repeat":
            v = self.operand(st, fr, inst, r[1])
            n = r[2]
            if n is not None and n <= 256:
                if v.op == "int":
                    return mk("bytes", (v.args[0],) * n)
                return mk("arr", *[v] * n)
            return mk("repeat", v, n)
        if k == "un":
            v = self.operand(st, fr, inst, r[2])
            if r[1] == "Not":
                ty = self.optype(inst, r[2])
                if ty is not None and self.p.types[ty]["k"] != "bool":
                    return mk("bitnot", v)
                return not_(v)
            if r[1] == "Neg":
                return lin_add(I(0), v, -1)
            if r[1] == "PtrMetadata":
                return seq_len(self.deref(st, v))
            return mk("un", r[1], v)
        if k == "tls":
            return mk("tls")
        raise Unsupported("rvalue " + str(r[0]))

    def discr(self, v, ty):
        v0 = v
        ty = self.p.strip_ref(ty)
        t = self.p.types[ty]
        if v.op == "adt" and t["k"] == "adt":
            for x in t["v"]:
                if x["n"] == v.args[1]:
                    return I(x["d"])
        if v.op == "int":
            return v
        if t["k"] == "adt" and t["enum"]:
            terms.DISCR[t["name"]] = {x["d"]: x["n"] for x in t["v"]}
            return mk("discr", v, t["name"], ty)
        return mk("discr", v, "", ty)

    def binop(self, op, a, b, ty, checked):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op.endswith("WithOverflow"):
            checked = True
        uns = self.is_unsigned(ty)
        if base in ("Eq", "Ne") and ty is not None and self.p.types[ty]["k"] == "bool":
            return iff(a, b) if base == "Eq" else not_(iff(a, b))
        if base == "Eq":
            return eq(a, b)
        if base == "Ne":
            return not_(eq(a, b))
        if base == "Lt":
            return lt(a, b, uns, uns)
        if base == "Gt":
            return lt(b, a, uns, uns)
        if base == "Le":
            return not_(lt(b, a, uns, uns))
        if base == "Ge":
            return not_(lt(a, b, uns, uns))
        if base == "Add":
            r, o = add(a, b), mk("ovf", "add", *sorted((a, b), key=skey))
        elif base == "Sub":
            r, o = sub(a, b), (lt(a, b, True, True) if uns else mk("ovf", "sub", a, b))
        elif base == "Mul":
            r, o = mul(a, b), mk("ovf", "mul", *sorted((a, b), key=skey))
        elif base == "Div":
            return mk("idiv", a, b) if not (a.op == b.op == "int" and b.args[0]) else I(a.args[0] // b.args[0])
        elif base == "Rem":
            return mk("irem", a, b) if not (a.op == b.op == "int" and b.args[0]) else I(a.args[0] % b.args[0])
        elif base in ("BitAnd", "BitOr", "BitXor"):
            t = self.p.types[ty] if ty is not None else {"k": "?"}
            if t["k"] == "bool":
                if base == "BitAnd":
                    return and_(a, b)
                if base == "BitOr":
                    return or_(a, b)
                return not_(iff(a, b))
            return mk("bit" + base[3:].lower(), a, b)
        else:
            if a.op == "int" and b.op == "int":
                if base == "Shl":
                    return I(a.args[0] << b.args[0])
                if base == "Shr":
                    return I(a.args[0] >> b.args[0])
            return mk("bin" + base, a, b)
        if a.op == "int" and b.op == "int":
            o = FALSE if r.args[0] >= 0 or not uns else TRUE
        if checked:
            return mk("tuple", r, o)
        return r

    # ---------------------------------------------------------- control
    def panic(self, st, why=""):
        self.panic_log.append((st.lits, why))

    def fork(self, st, c):
        """-> [(state, bool)] for the outcomes of a boolean term."""
        d = decide(st, c)
        if d is not None:
            return [(st, d)]
        if c.op == "not":
            return [(s, not p) for s, p in self.fork(st, c.args[0])]
        if c.op == "iff":
            return [(s2, p == q) for s, p in self.fork(st, c.args[0]) for s2, q in self.fork(s, c.args[1])]
        out = []
        a = st.copy()
        if assume(a, c, True):
            out.append((a, True))
        b = st
        if assume(b, c, False):
            out.append((b, False))
        return out

    def fork_variant(self, st, v, tyname):
        """-> [(state, variant name)]"""
        if v.op == "adt":
            return [(st, v.args[1])]
        vs = terms.VARIANTS[tyname]
        out = []
        for i, n in enumerate(vs):
            s = st.copy()
            good = True
            if len(vs) == 2:
                good = assume(s, is_variant(v, n, tyname), True)
            else:
                good = assume(s, is_variant(v, n, tyname), True)
            if good:
                out.append((s, n))
        return out

    def switch(self, st, fr, inst, t):
        c = self.operand(st, fr, inst, t[1])
        c = self.deref(st, c)
        branches, other, ty = t[2], t[3], t[4]
        if c.op == "int":
            for v, b in branches:
                if v == c.args[0]:
                    return [(st, b)]
            return [(st, other)]
        if c.op == "discr":
            v, _, tid = c.args
            td = self.p.types[tid]
            if td["k"] == "adt" and td["enum"]:
                out = []
                dm = {x["d"]: x["n"] for x in td["v"]}
                listed = {}
                for val, b in branches:
                    if val in dm:
                        listed[dm[val]] = b
                rest = [x["n"] for x in td["v"] if x["n"] not in listed]
                for n, b in listed.items():
                    s = st.copy()
                    if assume(s, is_variant(v, n, td["name"]), True):
                        out.append((s, b))
                oblk = inst.body["blocks"][other]
                if rest and not (oblk["t"][0] == "unreach" and not oblk["s"]):
                    if len(rest) == 1:
                        s = st.copy()
                        if assume(s, is_variant(v, rest[0], td["name"]), True):
                            out.append((s, other))
                    else:
                        s = st.copy()
                        good = all(assume(s, is_variant(v, n, td["name"]), False) for n in listed)
                        if good:
                            out.append((s, other))
                return out
        tk = self.p.types[ty]["k"] if ty is not None else "?"
        if tk == "bool" or c.op in ("bool", "eq", "lt", "slt", "not", "and", "is", "exists", "iff"):
            tb = fb = other
            for v, b in branches:
                if v == 0:
                    fb = b
                else:
                    tb = b
            return [(s, tb if p else fb) for s, p in self.fork(st, c)]
        out = []
        cur = st
        for v, b in branches:
            e = eq(c, I(v))
            d = decide(cur, e)
            if d is True:
                out.append((cur, b))
                return out
            if d is False:
                continue
            s = cur.copy()
            if assume(s, e, True):
                out.append((s, b))
            if not assume(cur, e, False):
                return out
        out.append((cur, other))
        return out

    def exec_fn(self, inst, args, st):
        """Analyse a function in context: -> [(state, return value)]"""
        if inst.body is None:
            raise Unsupported("no body: " + inst.name)
        if self.depth > self.limit_depth:
            raise Unsupported("call depth at " + inst.name)
        self.depth += 1
        self.frame += 1
        fr = self.frame
        self.analysed[inst.deff] = (inst.file, inst.line)
        self.curfn.append(inst)
        body = inst.body
        s = st
        if body["spread"] is not None and False:
            pass
        for i, a in enumerate(args):
            s.mem[(fr, i + 1)] = a
        outs = self.run(fr, inst, 0, s, None)
        res = []
        for o in outs:
            assert o[0] == "ret", o[0]
            s = o[1]
            rv = s.mem.get((fr, 0), UNINIT)
            if rv is UNINIT and self.p.types[body["locals"][0]]["k"] == "tuple":
                rv = UNIT
            for c in [c for c in s.mem if c[0] == fr]:
                del s.mem[c]
            res.append((s, rv))
        self.curfn.pop()
        self.depth -= 1
        return self.merge(res)

    def callpath(self):
        """The repository functions on the analysis stack, outermost first."""
        r = []
        for i in self.curfn:
            n = i.deff
            if n.startswith("ibcx_") and (not r or r[-1] != n):
                r.append(n)
        return tuple(r)

    def merge(self, res):
        """Join traces that agree on everything except one complementary
        literal that neither the value nor the memory depends on."""
        if len(res) < 2:
            return res
        changed = True
        while changed:
            changed = False
            groups = {}
            for i, (s, r) in enumerate(res):
                k = (r, s.eff, frozenset(s.sto.items()), frozenset(s.mem.items()), len(s.lits))
                groups.setdefault(k, []).append(i)
            for k, ix in groups.items():
                if len(ix) < 2:
                    continue
                done = False
                for a in range(len(ix)):
                    for b in range(a + 1, len(ix)):
                        sa, sb = res[ix[a]][0], res[ix[b]][0]
                        d = [j for j in range(len(sa.lits)) if sa.lits[j] != sb.lits[j]]
                        if len(d) == 1:
                            (t1, p1), (t2, p2) = sa.lits[d[0]], sb.lits[d[0]]
                            if t1 is t2 and p1 != p2:
                                m = sa.copy()
                                m.lits = sa.lits[: d[0]] + sa.lits[d[0] + 1 :]
                                m.facts = {f: p for f, p in sa.facts.items() if sb.facts.get(f) == p}
                                res[ix[a]] = (m, res[ix[a]][1])
                                del res[ix[b]]
                                done = True
                                break
                        elif not d:
                            del res[ix[b]]
                            done = True
                            break
                    if done:
                        break
                if done:
                    changed = True
                    break
        return res

    def run(self, fr, inst, start, st, stop):
        loops = loops_of(inst)
        blocks = inst.body["blocks"]
        out = []
        work = [(start, st, True)]
        while work:
            b, s, first = work.pop()
            if stop is not None and not first:
                if b == stop[0]:
                    out.append(("back", s))
                    continue
                if b not in stop[1]:
                    out.append(("exit", s, b))
                    continue
            if b in loops and not (stop is not None and b == stop[0]):
                r = self.loop(fr, inst, b, loops[b], s)
                if r is not None:
                    for s2, b2 in r:
                        if stop is not None and b2 not in stop[1]:
                            out.append(("exit", s2, b2))
                        else:
                            work.append((b2, s2, False))
                    continue
            for s2, b2 in self.block(fr, inst, b, s, out):
                work.append((b2, s2, False))
            if len(work) + len(out) > self.MAXPATHS:
                raise Unsupported("too many traces in " + inst.name)
        return out

    def block(self, fr, inst, b, st, out, upto_call=False):
        """Transfer function of one block -> [(state, successor)]"""
        self.steps += 1
        blk = inst.body["blocks"][b]
        for s in blk["s"]:
            if isinstance(s, str):
                raise Unsupported("copy_nonoverlapping in " + inst.name)
            pl, rv = s
            if rv[0] == "setd":
                loc, ty = self.walk(st, fr, inst, pl)
                t = self.p.types[ty]
                v = self.read_loc(st, loc)
                if v.op in ("uninit", "adt"):
                    vd = t["v"][rv[1]]
                    n = len(vd["f"])
                    fs = list(v.args[2:]) if v.op == "adt" and v.args[1] == vd["n"] else [UNINIT] * n
                    self.assign(st, fr, inst, pl, mk("adt", t["name"], vd["n"], *fs))
                continue
            self.assign(st, fr, inst, pl, self.rvalue(st, fr, inst, rv))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "ret":
            out.append(("ret", st))
            return []
        if k == "unreach":
            return []
        if k == "switch":
            return self.switch(st, fr, inst, t)
        if k == "assert":
            if "PointerDereference" in t[4]:
                return [(st, t[3])]  # compiler-inserted pointer sanity check
            c = self.operand(st, fr, inst, t[1])
            if not t[2]:
                c = not_(c)
            res = []
            for s, pol in self.fork(st, c):
                if pol:
                    res.append((s, t[3]))
                else:
                    self.panic(s, t[4])
            return res
        if k == "call":
            res = []
            for s, v in self.call(fr, inst, t, st, b):
                if t[4] is None:
                    self.panic(s, "diverges")
                    continue
                self.assign(s, fr, inst, t[3], v)
                res.append((s, t[4]))
            return res
        raise Unsupported("terminator " + k)

    # ------------------------------------------------------------- calls
    def call(self, fr, inst, t, st, b):
        self.calls += 1
        c = Call()
        f = t[1]
        args = [self.operand(st, fr, inst, a) for a in t[2]]
        c.args, c.argtys, c.rty = args, t[5], t[6]
        c.where = (inst.deff, inst.body["blocks"][b].get("fl"), inst.body["blocks"][b].get("l"))
        if f[0] == "k":
            td = self.p.types[f[1]]
            if td["k"] == "fndef":
                c.name = norm_name(td["name"])
                c.inst = self.p.insts.get(td["inst"]) if td["inst"] is not None else None
                c.rname = norm_name(c.inst.deff) if c.inst is not None else c.name
                c.gargs = td["args"]
                return self.dispatch(st, c)
        fv = self.operand(st, fr, inst, f)
        return self.call_value(st, fv, args, c)

    def call_value(self, st, fv, args, c=None):
        """Call a closure, function item or function pointer value."""
        if fv.op == "ref":
            fv2 = self.deref(st, fv)
            if fv2.op == "clos":
                inst = self.p.insts[fv2.args[0]]
                return self.exec_closure(st, inst, fv2, fv, args)
            fv = fv2
        if fv.op == "clos":
            inst = self.p.insts[fv.args[0]]
            return self.exec_closure(st, inst, fv, None, args)
        if fv.op == "fn":
            td = self.p.types[fv.args[0]]
            cc = Call()
            cc.name = norm_name(td["name"])
            cc.inst = self.p.insts.get(td["inst"]) if td["inst"] is not None else None
            cc.rname = norm_name(cc.inst.deff) if cc.inst is not None else cc.name
            cc.gargs = td["args"]
            cc.args, cc.argtys, cc.rty = list(args), [None] * len(args), None
            cc.where = c.where if c else ("?", None, None)
            if cc.inst is not None and cc.inst.body is not None:
                cc.argtys = cc.inst.body["locals"][1 : 1 + cc.inst.body["argc"]]
                cc.rty = cc.inst.body["locals"][0]
            ctor = self.ctor(td["name"], args)
            if ctor is not None:
                return [(st, ctor)]
            return self.dispatch(st, cc)
        if fv.op == "fninst":
            inst = self.p.insts[fv.args[0]]
            cc = Call()
            cc.name = cc.rname = norm_name(inst.deff)
            cc.inst, cc.gargs = inst, inst.args
            cc.args, cc.argtys, cc.rty = list(args), [None] * len(args), None
            cc.where = c.where if c else ("?", None, None)
            return self.dispatch(st, cc)
        a = [self.deref_full(st, x) for x in args]
        return [(st, mk("app", "callval", self.deref_full(st, fv), *a))]

    def ctor(self, name, args):
        """Tuple-variant / tuple-struct constructor used as a function."""
        n = norm_name(name)
        if n in ("std::option::Option::Some", "std::prelude::v1::Some", "std::option::Option::<T>::Some"):
            return some(args[0])
        if n.startswith("std::result::Result") and n.endswith("Ok"):
            return ok(args[0])
        if n.startswith("std::result::Result") and n.endswith("Err"):
            return err(args[0])
        if "::" in n:
            ty, v = n.rsplit("::", 1)
            if (ty, v) in terms.FIELDS and ty in terms.VARIANTS:
                return mk("adt", ty, v, *args)
            if (n, v) in terms.FIELDS and n not in terms.VARIANTS:
                if n in NEWTYPES or n in VECNEW:
                    return args[0]
                return mk("adt", n, v, *args)
        return None

    def exec_closure(self, st, inst, clos, ptr, args):
        lt_ = self.p.types[inst.body["locals"][1]]
        tmp = None
        if lt_["k"] == "ref" and lt_["m"]:
            if ptr is None:
                self.frame += 1
                tmp = (self.frame, "clos")
                st.mem[tmp] = clos
                ptr = mk("ref", tmp, (), ())
            env = ptr
        else:
            env = clos
        n = inst.body["argc"]
        a = list(args)
        if n - 1 != len(a):
            if n == 2 and inst.body["spread"] is not None:
                a = [mk("tuple", *a)]
            else:
                raise Unsupported("closure arity " + inst.name)
        r = self.exec_fn(inst, [env] + a, st)
        if tmp is not None:
            for s, _ in r:
                s.mem.pop(tmp, None)
        return r

    def dispatch(self, st, c):
        m = self.models.lookup(c)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        if c.inst is not None and c.inst.body is not None:
            if c.inst.kind == "shim":
                r = self.models.call_shim(self, st, c)
                if r is not None:
                    return r
            return self.exec_fn(c.inst, c.args, st)
        ctor = self.ctor(c.name, c.args)
        if ctor is not None:
            return [(st, ctor)]
        return self.opaque_call(st, c)

    def opaque_call(self, st, c):
        self.opaque[c.rname] = self.opaque.get(c.rname, 0) + 1
        vals = [self.deref_full(st, a) for a in c.args]
        app = mk("app", c.rname, *vals)
        for i, a in enumerate(c.args):
            if a.op == "ref":
                self.write(st, a, mk("mut", c.rname, i, *vals), c.rname)
            elif a.op == "sym" and a.args[0].startswith("storage"):
                st.eff = st.eff + (mk("opaque_storage", c.rname),)
        return [(st, app)]

    # ------------------------------------------------------------- loops
    def loop(self, fr, inst, header, body, st):
        """Summarise a loop met at its header: -> [(state, next block)]"""
        blocks = inst.body["blocks"]
        blk = blocks[header]
        t = blk["t"]
        if t[0] == "call" and t[1][0] == "k":
            td = self.p.types[t[1][1]]
            if td["k"] == "fndef" and td["name"].endswith("Iterator::next"):
                tmp = []
                s = st.copy()
                for x in blk["s"]:
                    pl, rv = x
                    self.assign(s, fr, inst, pl, self.rvalue(s, fr, inst, rv))
                ptr = self.operand(s, fr, inst, t[2][0])
                itv = self.deref(s, ptr)
                if itv.op == "it" and ptr.op == "ref":
                    return self.for_loop(fr, inst, header, body, s, ptr, itv, t)
        return self.while_loop(fr, inst, header, body, st)

    def for_loop(self, fr, inst, header, body, st, ptr, itv, t):
        self.loops += 1
        li, borrowed = live_in(inst)
        live = set(li[header]) | borrowed
        skip = {ptr.args[0]}

        def carried(cell):
            if cell in skip:
                return False
            if cell[0] == fr:
                return cell[1] in live
            return True

        def step(s, e):
            self.write(s, ptr, mk("it", mk("consumed"), ()))
            self.assign(s, fr, inst, t[3], some(e))
            r = []
            for o in self.run(fr, inst, t[4], s, (header, body)):
                if o[0] == "back":
                    v = self.deref(o[1], ptr)
                    if v.op != "it" or v.args[0].op != "consumed":
                        raise Unsupported("iterator advanced inside loop in " + inst.name)
                    r.append(("cont", o[1], None))
                elif o[0] == "exit":
                    r.append(("brk", o[1], o[2]))
                else:
                    r.append(("brk", o[1], "ret"))
            return r

        done, brks = self.iterate(st, itv, step, carried)
        out = []
        for s, b in brks:
            if b == "ret":
                raise Unsupported("return inside natural loop")
            out.append((s, b))
        for s in done:
            self.write(s, ptr, mk("it", arr(), ()))
            self.assign(s, fr, inst, t[3], NONE)
            # leave through the `None` arm
            for o in self.run(fr, inst, t[4], s, (header, body)):
                if o[0] == "exit":
                    out.append((o[1], o[2]))
                else:
                    raise Unsupported("loop does not end on None in " + inst.name)
        return out

    def while_loop(self, fr, inst, header, body, st):
        """A loop that is not driven by an iterator: its changed locations
        are generalised to unknowns that satisfy the loop's exit tests."""
        # concrete unrolling first: if no branch in the body needs a
        # choice that stays inside the loop forever, this terminates
        self.loops += 1
        li, borrowed = live_in(inst)
        live = set(li[header]) | borrowed

        def carried(cell):
            return cell[1] in live if cell[0] == fr else True

        tag = (inst.deff, header)
        phis = {}
        base = st
        for _ in range(6):
            s = base.copy()
            for key in phis:
                self.set_leaf(s, key, phis[key])
            self.panics.append(self.panic_log)
            self.panic_log = []
            outs = self.run(fr, inst, header, s.copy(), (header, body))
            self.panic_log = self.panics.pop()
            new = False
            for o in outs:
                if o[0] != "back":
                    continue
                for key, _ in self.changed(s, o[1], carried):
                    if key not in phis:
                        phis[key] = mk("hv", inst.deff, len(phis))
                        new = True
                        if key[0] == "m" and base.mem.get(key[1]) is not s.mem.get(key[1]):
                            base.mem[key[1]] = self.conform(base, base.mem[key[1]], o[1].mem[key[1]])
            if not new:
                break
        else:
            raise Unsupported("loop does not stabilise in " + inst.name)
        inits = {k: self.get_leaf(base, k) for k in phis}
        # describe each unknown by its start value and its step cases
        n0 = len(base.lits)
        cases = []
        for o in outs:
            if o[0] == "back":
                cases.append((tuple(o[1].lits[n0:]), tuple(self.get_leaf(o[1], k) for k in phis)))
        desc = mk("while", tuple(inits[k] for k in phis), tuple(phis[k] for k in phis), tuple(sorted(cases, key=skey)))
        names = {}
        for i, k in enumerate(phis):
            names[phis[k]] = mk("wv", desc, i)
        res = []
        for o in outs:
            if o[0] == "exit":
                s2 = self.subst_state(o[1], names, n0)
                res.append((s2, o[2]))
            elif o[0] == "ret":
                raise Unsupported("return inside natural loop")
        return res

    # leaves: ("m", cell, path) | ("s", ns)
    def get_leaf(self, s, key):
        if key[0] == "m":
            return self.getp(s.mem.get(key[1], UNINIT), key[2])
        if key[0] == "s":
            return s.sto.get(key[1], mk("writes"))
        if key[0] == "e":
            return mk("effs", *s.eff)

    def set_leaf(self, s, key, v):
        if key[0] == "m":
            s.mem[key[1]] = self.setp(s.mem.get(key[1], UNINIT), key[2], v)
        elif key[0] == "s":
            s.sto[key[1]] = v
        elif key[0] == "e":
            s.eff = v.args if v.op == "effs" else (v,)

    def changed(self, s0, s1, carried):
        out = []
        for cell, v0 in s0.mem.items():
            v1 = s1.mem.get(cell, UNINIT)
            if v1 is v0 or v0 is UNINIT or not carried(cell):
                continue
            v0x = self.conform(s0, v0, v1)
            if v0x is not v0:
                s0.mem[cell] = v0x
            self._diff(v0x, v1, ("m", cell), (), out)
        for ns in set(s0.sto) | set(s1.sto):
            a, b = s0.sto.get(ns, mk("writes")), s1.sto.get(ns, mk("writes"))
            if a is not b:
                out.append((("s", ns), (a, b)))
        if s0.eff != s1.eff:
            out.append((("e",), None))
        return out

    def conform(self, st, a, b):
        """Give a symbolic value the constructors of the value it becomes, so
        that only the fields that really change count as changed."""
        if a is b or b.op not in ("adt", "tuple", "clos"):
            return a
        if a.op == b.op:
            if b.op == "clos" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
                return mk("clos", a.args[0], *[self.conform(st, x, y) for x, y in zip(a.args[1:], b.args[1:])])
            if b.op == "adt" and a.args[:2] == b.args[:2]:
                return mk("adt", a.args[0], a.args[1], *[self.conform(st, x, y) for x, y in zip(a.args[2:], b.args[2:])])
            if b.op == "tuple" and len(a.args) == len(b.args):
                return mk("tuple", *[self.conform(st, x, y) for x, y in zip(a.args, b.args)])
            return a
        if b.op != "adt" or a.op not in ("sym", "fld", "ld", "el", "find", "idx"):
            return a
        ty, v = b.args[:2]
        names = terms.FIELDS.get((ty, v)) or [str(i) for i in range(len(b.args) - 2)]
        base = a
        if ty in terms.VARIANTS:
            if decide(st, is_variant(a, v, ty)) is not True:
                return a
            base = as_variant(a, v)
        if len(names) != len(b.args) - 2 or not names:
            return a
        return mk("adt", ty, v, *[self.conform(st, fld(base, n), y) for n, y in zip(names, b.args[2:])])

    def _diff(self, a, b, key, path, out):
        if a is b:
            return
        if a.op == b.op == "adt" and a.args[:2] == b.args[:2]:
            names = terms.FIELDS.get((a.args[0], a.args[1]), ())
            isenum = a.args[0] in terms.VARIANTS
            for i in range(len(a.args) - 2):
                nm = names[i] if i < len(names) else str(i)
                self._diff(a.args[2 + i], b.args[2 + i], key, path + (("f", i, nm, a.args[1] if isenum else None, False),), out)
            return
        if a.op == b.op == "tuple" and len(a.args) == len(b.args):
            for i in range(len(a.args)):
                self._diff(a.args[i], b.args[i], key, path + (("f", i, str(i), None, False),), out)
            return
        if a.op == b.op == "clos" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            for i in range(len(a.args) - 1):
                self._diff(a.args[1 + i], b.args[1 + i], key, path + (("f", i, str(i), None, False),), out)
            return
        out.append((key + (path,), (a, b)))

    def subst_state(self, s, m, n0, f0=None):
        """Substitute in everything the loop may have touched."""
        if not m:
            return s
        memo = {}
        r = s.copy()
        ks = set(m)
        r.mem = {c: subst(v, m, memo) for c, v in s.mem.items()}
        r.sto = {c: subst(v, m, memo) for c, v in s.sto.items()}
        r.eff = subst(s.eff, m, memo)
        r.lits = s.lits[:n0] + tuple((subst(c, m, memo), p) for c, p in s.lits[n0:])
        fx = {}
        for c, p in s.facts.items():
            c2 = subst(c, m, memo)
            while c2.op == "not":
                c2, p = c2.args[0], not p
            if c2.op != "bool":
                fx[c2] = p
        r.facts = fx
        return r

    # ------------------------------------------------- element-wise passes
    def iterate(self, st, itv, step, carried=None):
        """Run `step(state, element) -> [("cont"|"brk", state, payload)]` over
        an iterator value.  -> (states after exhaustion, [(state, payload)])"""
        states, brks = [st], []
        if itv.op != "it":
            itv = mk("it", itv, ())
        src, stages = itv.args
        if src.op == "mutseq":
            return self.iterate_mut(st, src.args[0], stages, step, carried)
        for seg in self.segments(src):
            nxt = []
            for s in states:
                if seg[0] == "one":
                    cur = self.through(s, seg[1], stages, step)
                    for k, s2, pl in cur:
                        if k == "cont":
                            nxt.append(s2)
                        else:
                            brks.append((s2, pl))
                else:
                    d, bk = self.summarise(s, seg[1], seg[2], stages, step, carried)
                    nxt.extend(d)
                    brks.extend(bk)
            states = nxt
        return states, brks

    def iterate_mut(self, st, ptr, stages, step, carried):
        """Iterate over `&mut` elements: each element lives in a cell of its
        own, and the sequence is rebuilt from the cells' final values."""
        if ptr.op != "ref":
            raise Unsupported("iter_mut over an unknown place")
        v = self.deref(st, ptr)
        self.frame += 1
        out = (self.frame, "out")
        st = st.copy()
        st.mem[out] = mk("arr")

        def step2(s, e):
            self.frame += 1
            ec = (self.frame, "elem")
            s.mem[ec] = e
            r = []
            for k, s2, pl in self.through(s, mk("ref", ec, (), ()), stages, step):
                x = s2.mem.pop(ec)
                if k == "cont":
                    s2.mem[out] = seq_concat(s2.mem[out], mk("arr", x))
                    r.append((k, s2, pl))
                else:
                    if isinstance(pl, T) and any_sub(pl, lambda y: y.op == "ref" and y.args[0] == ec):
                        raise Unsupported("reference to an element escapes its loop")
                    s2.mem[out] = mk("tuple", s2.mem[out], x, e, mk("ref", ec, (), ()))
                    r.append((k, s2, pl))
            return r

        done, brks = self.iterate(st, mk("it", v, ()), step2, carried)
        for s in done:
            nv = s.mem.pop(out)
            if nv is not v:
                self.write(s, ptr, nv, "iter_mut")
        for s, pl in brks:
            pre, x, e, here = s.mem.pop(out).args
            self.stays(s, here.args[0], ptr, v, pre, e)
            n = self.from_end(v, pre, e)
            if n is not None:
                if x is not e:
                    self.write(s, mk("ref", ptr.args[0], ptr.args[1] + (("ie", n),), ptr.args[2] + (None,)), x, "iter_mut")
                continue
            if pre.op == "accat" and pre.args[2] is pre.args[0]:
                # no earlier element was changed
                if x is not e:
                    if e.op != "find":
                        raise Unsupported("early exit from a mutable iteration")
                    self.write(s, ptr, mk("upd", v, mk("pos", e.args[0], e.args[1]), x), "iter_mut")
            elif v.op == "arr":
                self.write(s, ptr, mk("arr", *(pre.args + (x,) + v.args[len(pre.args) + 1 :])), "iter_mut")
            else:
                self.write(s, ptr, mk("app", "partial_update", v, pre, x), "iter_mut")
        return done, brks

    def from_end(self, v, pre, e):
        """Stopped at one of the elements written out after a sequence whose
        elements are all unchanged: how far from the end."""
        if v.op != "concat" or v.args[-1].op != "arr":
            return None
        l = v.args[-1].args
        for k, x in enumerate(l):
            if x is e and seq_concat(pre, mk("arr", *l[k:])) is v:
                return len(l) - k
        return None

    def stays(self, st, cell, ptr, v, pre, e):
        """Code after an early exit goes on with the element the loop stopped
        at: pointers to it point into the sequence from now on."""
        if v.op == "arr":
            at = ("i", I(len(pre.args)))
        elif self.from_end(v, pre, e) is not None:
            at = ("ie", self.from_end(v, pre, e))
        elif e.op == "find":
            at = ("i", mk("pos", e.args[0], e.args[1]))
        else:
            at = None

        def into(y):
            if not isinstance(y, T) or not y.hasref:
                return y
            if y.op == "ref":
                if y.args[0] != cell:
                    return y
                if at is None:
                    raise Unsupported("reference to an element escapes its loop")
                return mk("ref", ptr.args[0], ptr.args[1] + (at,) + y.args[1], ptr.args[2] + (None,) + y.args[2])
            return rebuild(y.op, tuple(tuple(into(z) for z in a) if isinstance(a, tuple) else into(a) for a in y.args))

        for c in list(st.mem):
            st.mem[c] = into(st.mem[c])

    def segments(self, src):
        if src.op == "arr":
            return [("one", x) for x in src.args]
        if src.op == "bytes":
            return [("one", I(x)) for x in src.args[0]]
        if src.op == "concat":
            r = []
            for x in src.args:
                r.extend(self.segments(x))
            return r
        if src.op == "comp":
            return [("many", src.args[0], src.args[1])]
        if src.op == "adt" and src.args[0] == OPT:
            return [("one", src.args[2])] if src.args[1] == "Some" else []
        if src.op == "chain":
            r = []
            for x in src.args:
                r.extend(self.segments(x))
            return r
        return [("many", src, None)]

    def through(self, s, e, stages, step):
        """Push one element through the lazy adaptor stages into step."""
        cur = [(s, e)]
        out = []
        for i, stg in enumerate(stages):
            nxt = []
            kind, f = stg[0], stg[1] if len(stg) > 1 else None
            for s1, x in cur:
                if kind == "map":
                    nxt.extend(self.call_value(s1, f, [x]))
                elif kind in ("filter", "filter_map", "take_while", "map_while"):
                    for s2, r in self.call_value(s1, f, [x]):
                        if kind == "filter":
                            for s3, p in self.fork(s2, r):
                                if p:
                                    nxt.append((s3, x))
                                else:
                                    out.append(("cont", s3, None))
                        elif kind == "filter_map":
                            for s3, v in self.fork_variant(s2, r, OPT):
                                if v == "Some":
                                    nxt.append((s3, variant_payload(r, "Some")))
                                else:
                                    out.append(("cont", s3, None))
                        else:
                            raise Unsupported(kind)
                elif kind in ("flatten", "flat_map"):
                    vals = [(s1, x)] if kind == "flatten" else self.call_value(s1, f, [x])
                    for s2, r in vals:
                        rest = stages[i + 1 :]
                        ty = stg[2]
                        if ty == OPT or ty == RES:
                            good = "Some" if ty == OPT else "Ok"
                            for s3, v in self.fork_variant(s2, r, ty):
                                if v == good:
                                    nxt.append((s3, variant_payload(r, good)))
                                else:
                                    out.append(("cont", s3, None))
                        else:
                            def inner(s3, y):
                                return self.through(s3, y, rest, step)

                            d, bk = self.iterate(s2, self.models.to_iter(r), inner)
                            out.extend(("cont", q, None) for q in d)
                            out.extend(("brk", q, pl) for q, pl in bk)
                elif kind == "inspect":
                    for s2, _ in self.call_value(s1, f, [x]):
                        nxt.append((s2, x))
                elif kind == "enumsym":
                    raise Unsupported("enumerate after a lazy stage")
                else:
                    raise Unsupported("stage " + kind)
            cur = nxt
        for s1, x in cur:
            out.extend(step(s1, x))
        return out

    def one_pass(self, s, base, cases, e, stages, step):
        res = []
        if cases is None:
            return self.through(s, e, stages, step)
        ren = {}
        for guards, ys in decision_order(cases):
            s1 = s.copy()
            good = True
            for c, p in guards:
                if not assume(s1, self.rebind(c, base, e), p):
                    good = False
                    break
            if not good:
                continue
            cur = [s1]
            for y in ys:
                y = self.rebind(y, base, e)
                nxt = []
                for s2 in cur:
                    for k, s3, pl in self.through(s2, y, stages, step):
                        if k == "cont":
                            nxt.append(s3)
                        else:
                            res.append((k, s3, pl))
                cur = nxt
            res.extend(("cont", s2, None) for s2 in cur)
        return res

    def rebind(self, t, base, e):
        e0 = el(base, 0)
        if e is e0:
            return t
        return subst(t, {e0: e})

    def summarise(self, st, base, cases, stages, step, carried=None, full=None):
        if carried is None:
            carried = lambda c: True
        self.loops += 1
        k = st.active.count(base)
        e = el(base, k)
        depth = len(st.active)
        s0 = st.copy()
        s0.active = st.active + (base,)
        n0 = len(s0.lits)
        phis = {}
        for rnd in range(8):
            s = s0.copy()
            for key, ph in phis.items():
                self.set_leaf(s, key, ph)
            self.panics.append(self.panic_log)
            self.panic_log = []
            outs = self.one_pass(s.copy(), base, cases, e, stages, step)
            plog = self.panic_log
            self.panic_log = self.panics.pop()
            new = False
            for kk, s1, pl in outs:
                if kk != "cont":
                    continue
                for key, _ in self.changed(s, s1, carried):
                    if key not in phis:
                        phis[key] = mk("acc", depth, len(phis))
                        new = True
                        if key[0] == "m" and s0.mem.get(key[1]) is not s.mem.get(key[1]):
                            s0.mem[key[1]] = self.conform(s0, s0.mem[key[1]], s1.mem[key[1]])
            if not new:
                break
        else:
            raise Unsupported("loop does not stabilise")
        keys = list(phis)
        inits = [self.get_leaf(s0, q) for q in keys]
        accs = [phis[q] for q in keys]
        accset = set(accs)
        # ---- left as soon as something counted from nothing reaches a bound:
        # the loop sees that many elements at most
        if (cases is None or len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1) and all(x[0] in ("map", "okwrap", "inspect") for x in stages):
            stop = self.fills(outs, keys, inits, accs, n0, e, base)
            if stop is not None and full is None:
                n = stop[1]
                front = mk("take", base, n)
                front_ = cases and tuple((g, tuple(subst(y, {el(base, 0): el(front, 0), mk("ix", base, 0): mk("ix", front, 0)}) for y in ys)) for g, ys in cases)
                done, brks = self.summarise(st, front, front_, stages, step, carried, n)
                more = lt(n, seq_len(base))
                r = []
                for d in done:
                    d2 = d.copy()
                    if assume(d, more, False):
                        r.append(d)
                    if assume(d2, more, True):
                        m = {q: self.get_leaf(d2, q) for q in keys}
                        s1, pl = stop[0]
                        m = {a: m[q] for q, a in zip(keys, accs)}
                        m[e] = mk("idx", base, n)
                        m[mk("ix", base, k)] = n
                        s1 = s1.copy()
                        s1.lits = s1.lits[:n0]
                        s2 = self.subst_state(s1, m, n0)
                        s2.active = st.active
                        s2.facts = d2.facts
                        s2.lits = d2.lits
                        brks.append((s2, subst(pl, m) if isinstance(pl, T) else pl))
                return r, brks
            if full is not None:
                if stop is None or stop[1] is not full:
                    raise Unsupported("a bounded loop")
                gone = stop[2]
                outs = [o for o in outs if not (o[0] != "cont" and o[1] is stop[0][0])]
                for _, s1, _ in outs:
                    s1.lits = s1.lits[:n0] + tuple(x for x in s1.lits[n0:] if x[0] is not gone)
                plog = [(lits[:n0] + tuple(x for x in lits[n0:] if x[0] is not gone), why) for lits, why in plog]
        # ---- literal paths, with assertion-like literals pruned
        paths = []
        for kk, s1, pl in outs:
            paths.append((s1.lits[n0:], kk == "cont"))
        for lits, why in plog:
            paths.append((lits[n0:], False))
        pruned = prune(paths)
        mentions = lambda t: bool(accset & subterms(t)) if isinstance(t, (T, tuple)) else False
        finals = []
        contidx = [i for i, o in enumerate(outs) if o[0] == "cont"]
        for j, q in enumerate(keys):
            news = [(tuple(sorted(pruned[i], key=skey)), self.get_leaf(outs[i][1], q)) for i in contidx]
            finals.append(self.close(base, k, depth, j, inits, accs, news, keys, outs, contidx, pruned, q, cases is None))
        done = []
        if contidx or True:
            d = s0.copy()
            d.active = st.active
            for q, v in zip(keys, finals):
                self.set_leaf(d, q, v)
            good = True
            for i, (lits, iscont) in enumerate(paths):
                if iscont:
                    continue
                g = tuple(sorted(set(pruned[i]), key=skey))
                if any(mentions(c) for c, _ in g):
                    g = tuple((self.accat(c, base, k, accs, finals), p) for c, p in g)
                if i >= len(outs):
                    # an element that panics: seen from outside the loop
                    x = (terms.exists(base, normg(g, e, base)), True) if g else (eq(seq_len(base), I(0)), False)
                    self.panic_log.append((st.lits + (x,), plog[i - len(outs)][1]))
                if not g:
                    # every element leaves the loop: it completes only if empty
                    x = eq(seq_len(base), I(0))
                    if not assume(d, x, True):
                        good = False
                    continue
                if not any(e in subterms(c) for c, _ in g) and len(g) == 1 and False:
                    pass
                if not assume(d, terms.exists(base, normg(g, e, base)), False):
                    good = False
            if good:
                done.append(d)
        brks = []
        for i, (kk, s1, pl) in enumerate(outs):
            if kk == "cont":
                continue
            g = normg(tuple(sorted(set(pruned[i] or s1.lits[n0:]), key=skey)), e, base)
            g = tuple((self.accat(c, base, k, accs, finals), p) for c, p in g)
            w = mk("find", base, g)
            m = {e: w, mk("ix", base, k): mk("pos", base, g)}
            for a, fin in zip(accs, finals):
                m[a] = mk("accat", base, g, fin)
            s2 = self.subst_state(s1, m, n0)
            s2.active = st.active
            if not assume(s2, terms.exists(base, g), True):
                continue
            if isinstance(pl, T):
                pl = subst(pl, m)
            brks.append((s2, pl))
        return done, brks

    def fills(self, outs, keys, inits, accs, n0, e, base):
        """((state, payload), N, literal) when the loop is left, with nothing
        else done, exactly when a count kept from nothing has reached N"""
        brks = [o for o in outs if o[0] != "cont"]
        conts = [o for o in outs if o[0] == "cont"]
        for _, s1, pl in brks:
            lits = s1.lits[n0:]
            if len(lits) != 1 or any(self.get_leaf(s1, q) is not a for q, a in zip(keys, accs)):
                continue
            c, p = lits[0]
            for a, q, i in zip(accs, keys, inits):
                if q[0] != "m":
                    continue
                if c.op == "eq" and p and len(c.args) == 2:
                    pairs = (c.args, c.args[::-1])
                elif c.op == "lt" and not p:
                    pairs = (c.args,)
                else:
                    continue
                for x, n in pairs:
                    if set(accs) & subterms(n) or e in subterms(n) or mk("ix", base, 0) in subterms(n):
                        continue
                    if x is mk("len", a):
                        good = i.op == "arr" and not i.args
                        step = lambda v: v.op == "concat" and len(v.args) == 2 and v.args[0] is a and v.args[1].op == "arr" and len(v.args[1].args) == 1
                    elif x is a:
                        good = i is I(0)
                        step = lambda v: v is terms.add(a, I(1))
                    else:
                        continue
                    if not good or not conts or not all(step(self.get_leaf(o[1], q)) for o in conts):
                        continue
                    if any((c, not p) not in o[1].lits[n0:] for o in conts):
                        continue
                    return (s1, pl), n, c
        return None

    def accat(self, c, base, k, accs, finals):
        # the accumulator as it is when the generic element is reached: named
        # by the loop and by its closed form over the whole loop
        m = {a: mk("accat", base, (), fin) for a, fin in zip(accs, finals)}
        return subst(c, m)

    def close(self, base, k, depth, j, inits, accs, news, keys, outs, contidx, pruned, q, total):
        acc = accs[j]
        init = inits[j]
        others = set(accs) - {acc}
        if q[0] == "e":
            cs = []
            for g, v in news:
                evs = v.args[1:] if v.op == "effs" and v.args and v.args[0] is acc else (v,)
                if evs:
                    cs.append((g, evs))
            return mk("effs", *(init.args + (mk("foreach", base, tuple(sorted(cs, key=skey))),)))
        if q[0] == "s":
            cs = []
            for g, v in news:
                if v.op == "writes" and v.args and v.args[0] is acc:
                    if v.args[1:]:
                        cs.append((g, v.args[1:]))
                elif v is not acc:
                    cs.append((g, (v,)))
            return mk("writes", *(init.args + (mk("foreachw", base, tuple(sorted(cs, key=skey))),)))
        if not news:
            return init
        # what the iterations that go on do to this one accumulator: guards
        # that only distinguish what they do to others are dropped
        if total and len({v for _, v in news}) == 1:
            news = [((), news[0][1])]
        else:
            news = mergecases(news)
        ment = lambda t, ss: bool(ss & subterms(t))
        # appended sequences
        app = []
        okapp = True
        for g, v in news:
            if v is acc:
                app.append((g, ()))
            elif v.op == "concat" and v.args[0] is acc and not any(ment(x, set(accs)) for x in v.args[1:]):
                if len(v.args) == 2 and v.args[1].op == "arr":
                    app.append((g, v.args[1].args))
                else:
                    app.append((g, None, v.args[1:]))
            else:
                okapp = False
                break
        if okapp and not any(ment(c, set(accs)) for g, *_ in app for c, _ in g):
            if all(len(a) == 2 for a in app):
                cases = mergecases([(g, ys) for g, ys in app if ys])
                return seq_concat(init, self.fuse(base, k, cases))
            return seq_concat(init, mk("flat", base, tuple(sorted(((a[0], a[1] if len(a) == 2 else a[2]) for a in app), key=skey))))
        free = not any(ment(c, set(accs)) for g, _ in news for c, _ in g)
        # flags
        if free and init.op == "bool" and all(v is acc or v is not_(init) for _, v in news):
            ex = or_(*[terms.exists(base, normg(g, el(base, k), base)) for g, v in news if v is not acc])
            return ex if init is FALSE else not_(ex)
        # the elements of the sequence itself replaced one by one
        if init is base:
            here = mk("ix", base, k)
            m = {mk("idx", acc, here): el(base, k)}
            put = []
            for g, v in news:
                x = None
                if v is acc:
                    x = el(base, k)
                elif v.op == "upd" and v.args[0] is acc and v.args[1] is here:
                    x = subst(v.args[2], m)
                g = tuple(sorted(subst(tuple(g), m), key=skey))
                if x is None or ment(x, set(accs)) or any(ment(c, set(accs)) for c, _ in g):
                    break
                put.append((g, (x,)))
            else:
                return self.fuse(base, k, mergecases(put))
        # sums
        if free:
            ds = []
            for g, v in news:
                d = lin_add(v, acc, -1)
                if ment(d, set(accs)):
                    ds = None
                    break
                if not (d.op == "int" and d.args[0] == 0):
                    ds.append((g, (d,)))
            if ds is not None and (init.op != "uninit"):
                e = el(base, k)
                cases = tuple(sorted(mergecases(ds), key=skey))
                return add(init, mk("sumover", base, cases))
            # maps filled by inserting
            kv = []
            for g, v in news:
                ins = []
                while v.op in ("mapins", "mapext"):
                    ins.append(v.args[1] if v.op == "mapext" else arr(v.args[1] if v.args[2] is UNIT else tup(*v.args[1:])))
                    v = v.args[0]
                if v is not acc or any(ment(x, set(accs)) for x in ins):
                    break
                kv.append((g, tuple(ins[::-1])))
            else:
                kv = [c for c in kv if c[1]]
                if all(x.op == "arr" for _, xs in kv for x in xs):
                    q = self.fuse(base, k, mergecases([(g, tuple(x.args[0] for x in xs)) for g, xs in kv]))
                else:
                    q = mk("flat", base, tuple(sorted(kv, key=skey)))
                if init.op == "mapof":
                    return mk("mapof", self.models.unshuffle(seq_concat(init.args[0], q)))
                # inserted into a map of the surrounding loop
                return mk("mapext", init, self.models.unshuffle(q))
        own = mk("accv", 0)
        if not any(ment(v, others) or any(ment(c, others) for c, _ in g) for g, v in news):
            m = {acc: own}
            cs = cases_([(subst(g, m), subst(v, m)) for g, v in news])
            return mk("fold", base, init, cs)
        # joint fold
        m = {a: mk("accv", i) for i, a in enumerate(accs)}
        cs = []
        for i in contidx:
            cs.append((subst(tuple(sorted(pruned[i], key=skey)), m), tuple(subst(self.get_leaf(outs[i][1], kk), m) for kk in keys if kk[0] == "m")))
        return mk("foldj", base, j, tuple(inits), cases_(cs))

    def fuse(self, base, k, cases):
        e = el(base, k)
        if k != 0:
            # inside a nested traversal of the same sequence the outer
            # element is free in the summary; rename only our own binder
            m = {e: el(base, 0)}
            if any(el(base, 0) in subterms(x) for x in [c for c in cases]):
                return mk("compk", base, k, tuple(sorted(cases, key=skey)))
            cases = [(subst(g, m), subst(y, m)) for g, y in cases]
        return comp(base, cases)


def width(n):
    n = n.lower().lstrip("ui")
    return {"size": 32, "8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(n, 64)


def normg(g, e, base):
    """Rename the bound element of a guard set to binder level 0."""
    if e.args[1] == 0 or any(el(base, 0) in subterms(c) for c, _ in g):
        return tuple(g)
    return tuple(sorted((subst(g, {e: el(base, 0)})), key=skey))


def mergecases(cases):
    """Join cases with equal yields that differ in one complementary literal."""
    cs = [(tuple(sorted(set(g), key=skey)), y) for g, y in cases]
    ch = True
    while ch:
        ch = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                if cs[i][1] == cs[j][1]:
                    a, b = set(cs[i][0]), set(cs[j][0])
                    d = a ^ b
                    if len(d) == 2:
                        x, y = tuple(d)
                        if x[0] is y[0] and x[1] != y[1]:
                            cs[i] = (tuple(sorted(a & b, key=skey)), cs[i][1])
                            del cs[j]
                            ch = True
                            break
                    elif not d:
                        del cs[j]
                        ch = True
                        break
            if ch:
                break
    return cs


def decision_order(cases):
    """The cases with their guards ordered so that they branch as a decision
    tree does: what all of a group decide comes first."""
    if len(cases) < 3:
        return cases
    out = {}

    def rec(ids, left, done):
        atoms = set.intersection(*[{c for c, _ in left[i]} for i in ids])
        atoms = [a for a in atoms if len({p for i in ids for c, p in left[i] if c is a}) == 2]
        if len(ids) < 2 or not atoms:
            for i in ids:
                out[i] = tuple(done) + tuple(sorted(left[i], key=skey))
            return
        a = min(atoms, key=skey)
        for p in (True, False):
            sub = [i for i in ids if (a, p) in left[i]]
            if sub:
                rec(sub, {i: [x for x in left[i] if x != (a, p)] for i in sub}, done + [(a, p)])

    rec(list(range(len(cases))), {i: list(g) for i, (g, _) in enumerate(cases)}, [])
    return [(out[i], ys) for i, (_, ys) in enumerate(cases)]


def prune(paths):
    """Drop, per path, the literals whose alternatives all abort the pass."""
    res = [[] for _ in paths]

    def rec(ids, d):
        ids2 = [i for i in ids if len(paths[i][0]) > d]
        if not ids2:
            return
        groups = {}
        for i in ids2:
            groups.setdefault(paths[i][0][d], []).append(i)
        for lit, g in groups.items():
            others = [i for l2, g2 in groups.items() if l2 is not lit and l2 != lit for i in g2]
            # an assertion: the alternatives exist and none of them continues
            if others and not any(paths[i][1] for i in others) and any(paths[i][1] for i in g):
                pass
            else:
                for i in g:
                    res[i].append(lit)
            rec(g, d + 1)

    rec(list(range(len(paths))), 0)
    return [tuple(x for x in r if not by_find(*x)) for r in res]


def by_find(c, p):
    """A literal that holds of an element because it is how it was found."""
    for f in subterms(c):
        if f.op == "find" and len(f.args) == 2:
            m = {el(f.args[0], 0): f}
            if any(q == p and subst(g, m) is c for g, q in f.args[1]):
                return True
    return False
