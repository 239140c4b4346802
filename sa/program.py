"""The dumped program: types, monomorphised instances, control-flow facts."""
import json
import re

from . import terms
from .terms import *


class Inst:
    __slots__ = ("id", "name", "deff", "crate", "kind", "args", "file", "line", "body", "_loops", "_live", "prog")

    def __repr__(self):
        return self.name


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.insts = {}
        self.by_def = {}
        for x in d["insts"]:
            i = Inst()
            i.prog = self
            i.id, i.name, i.deff, i.crate, i.kind = x["id"], x["name"], x["def"], x["crate"], x["kind"]
            i.args, i.file, i.line = x["args"], x["file"], x["line"]
            i.body = x.get("body")
            i._loops = None
            i._live = None
            self.insts[i.id] = i
            self.by_def.setdefault(i.deff, []).append(i)
        self.roots = {n: self.insts[i] for n, i in d["roots"]}
        self.generic = d["generic"]
        # generic functions at types their bounds choose
        self.picked = {n: self.insts[i] for n, i in d["picked"]}
        self._tn = {}
        for t in self.types:
            if t["k"] == "adt":
                n = norm_name(t["name"])
                t["name"] = n
                for v in t["v"]:
                    if t["x"]:
                        terms.FIELDS[(n, v["n"])] = tuple(f[0] for f in v["f"])
                # a user tuple struct around a Vec: same value as the Vec
                if n.startswith("ibcx") and not t["enum"] and t["x"] and len(t["v"]) == 1:
                    f = t["v"][0]["f"]
                    if len(f) == 1 and f[0][0] == "0" and self.types[f[0][1]]["k"] == "adt" and norm_name(self.types[f[0][1]]["name"]) == "std::vec::Vec":
                        VECNEW.add(n)
                if t["enum"]:
                    terms.VARIANTS[n] = tuple(v["n"] for v in t["v"])

    def tname(self, i):
        """Readable type name, generics included."""
        if i is None:
            return "?"
        if isinstance(i, dict):
            return str(i.get("c"))
        r = self._tn.get(i)
        if r is not None:
            return r
        self._tn[i] = "..."
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            a = [self.tname(x) for x in t["args"]]
            r = t["name"] + ("<" + ",".join(a) + ">" if a else "")
        elif k in ("ref", "ptr"):
            r = "&" + ("mut " if t["m"] else "") + self.tname(t["e"])
        elif k == "slice":
            r = "[" + self.tname(t["e"]) + "]"
        elif k == "array":
            r = "[" + self.tname(t["e"]) + ";" + str(t["n"]) + "]"
        elif k == "tuple":
            r = "(" + ",".join(self.tname(x) for x in t["f"]) + ")"
        elif k in ("int", "uint", "float"):
            r = {"int": "i", "uint": "u", "float": "f"}[k] + t["n"].lower().lstrip("iuf")
        elif k == "closure":
            r = "closure:" + t["name"]
        elif k == "fndef":
            r = "fn:" + t["name"]
        elif k == "dyn":
            r = "dyn " + t["name"]
        else:
            r = k
        self._tn[i] = r
        return r

    def strip_ref(self, i):
        while i is not None and self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["e"]
        return i

    def is_box_name(self, t):
        return t["k"] == "adt" and (t.get("box") or t["name"] in TRANSPARENT)

    def is_box(self, i):
        t = self.types[i]
        return t["k"] == "adt" and (t.get("box") or t["name"] in TRANSPARENT)


VECNEW = set()  # user newtypes of a Vec

TRANSPARENT = {
    "std::boxed::Box",
    "std::ptr::Unique",
    "std::ptr::NonNull",
    "std::mem::ManuallyDrop",
    "std::mem::MaybeUninit",
    "std::mem::MaybeDangling",
    "std::rc::Rc",
    "std::sync::Arc",
}


def norm_name(n):
    n = re.sub(r"^(core|alloc)::", "std::", n)
    return n


# -------------------------------------------------- control-flow analyses
def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "assert":
        return [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


def loops_of(inst):
    """Natural loops: header -> set of blocks (irreducible graphs rejected)."""
    if inst._loops is not None:
        return inst._loops
    blocks = inst.body["blocks"]
    n = len(blocks)
    succ = [successors(b["t"]) for b in blocks]
    # reachable + DFS order
    order, seen, st = [], set(), [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while pos[x] > pos[y]:
                        x = idom[x]
                    while pos[y] > pos[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in succ[b]:
            if pos[s] <= pos[b]:
                if not dominates(s, b):
                    raise Exception("irreducible loop in " + inst.name)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    inst._loops = loops
    return loops


def _place_use(p, use):
    use.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == "i":
            use.add(e[1])


def _op_use(o, use):
    if o[0] in ("c", "m"):
        _place_use(o[1], use)


def _rv_use(r, use, borrowed):
    k = r[0]
    if k == "use":
        _op_use(r[1], use)
    elif k == "ref":
        _place_use(r[1], use)
        if r[2] != "shr":
            borrowed.add(r[1][0])
    elif k == "agg":
        for o in r[2]:
            _op_use(o, use)
    elif k in ("bin", "cbin"):
        _op_use(r[2], use)
        _op_use(r[3], use)
    elif k in ("cast", "un"):
        _op_use(r[2], use)
    elif k in ("discr", "len"):
        _place_use(r[1], use)
    elif k == "repeat":
        _op_use(r[1], use)


def live_in(inst):
    """Locals live on entry to each block (mutably borrowed locals are
    treated as live wherever they may have been initialised)."""
    if inst._live is not None:
        return inst._live
    blocks = inst.body["blocks"]
    n = len(blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    borrowed = set()
    for i, b in enumerate(blocks):
        u, d = use[i], dfn[i]

        def rd(f):
            x = set()
            f(x)
            u.update(x - d)

        for s in b["s"]:
            if isinstance(s, str):
                continue
            pl, rv = s
            rd(lambda x: _rv_use(rv, x, borrowed))
            if pl[1]:
                rd(lambda x: _place_use(pl, x))
            else:
                d.add(pl[0])
        t = b["t"]
        if t[0] == "switch":
            rd(lambda x: _op_use(t[1], x))
        elif t[0] == "assert":
            rd(lambda x: _op_use(t[1], x))
        elif t[0] == "call":
            rd(lambda x: _op_use(t[1], x))
            for a in t[2]:
                rd(lambda x, a=a: _op_use(a, x))
            if t[3][1]:
                rd(lambda x: _place_use(t[3], x))
            else:
                d.add(t[3][0])
        elif t[0] == "ret":
            rd(lambda x: x.add(0))
    li = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in successors(blocks[i]["t"]):
                o |= li[s]
            x = use[i] | (o - dfn[i])
            if x != li[i]:
                li[i] = x
                ch = True
    inst._live = (li, borrowed)
    return inst._live
