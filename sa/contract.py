"""Summaries of a contract's entry points, per message variant."""
import copy
import json
import os
import sys

from . import terms
from .engine import Engine, Unsupported, decide, new_state
from .program import Program
from .terms import *

sys.setrecursionlimit(50000)
from . import build
DUMP = os.environ.get("IBCX_DUMP") or os.path.join(build.BUILD, "dump")
RESP = "cosmwasm_std::Response"


def const_only(t):
    return not has_op(t, ("sym", "ld", "qry"))


class Trace:
    """One class of executions: guards that hold, effects, result."""

    def __init__(self, st, ret, msg):
        self.st = st
        self.ret = ret
        self.lits = st.lits
        self.eff = st.eff
        self.sto = st.sto
        self.ok = ret.op == "adt" and ret.args[1] == "Ok"
        self.err = ret.op == "adt" and ret.args[1] == "Err"
        self.val = ret.args[2] if self.ok else None
        self.path, self.payload = self.variant(msg) if msg is not None else ((), None)

    def variant(self, msg):
        path = []
        x, y = msg, msg
        while True:
            v = None
            for c, p in self.lits:
                if p and c.op == "is" and c.args[0] is x and c.args[1] not in ("Some", "None"):
                    v = c.args[1]
            if v is None:
                return tuple(path), y
            path.append(v)
            y = as_variant(x, v)
            x = fld(y, "0")

    @property
    def name(self):
        return ".".join(self.path)

    def equated(self, old, new):
        """the same executions, with a term written as another they make equal to it"""
        t = copy.copy(self)
        m = {old: new}
        t.st = self.st.copy()
        for c, p in list(self.st.facts.items()):
            t.st.facts.setdefault(subst(c, m), p)
        t.ret = subst(self.ret, m)
        t.lits = [(subst(c, m), p) for c, p in self.lits]
        t.eff = [subst(x, m) for x in self.eff]
        t.val = t.ret.args[2] if t.ok else None
        return t

    def holds(self, c):
        """does the condition follow from the guards of the trace?"""
        return decide(self.st, c)

    def arg(self, n):
        return fld(self.payload, n)

    # ---------------------------------------------------------- response
    def response(self, field):
        if self.val is None or self.val.op != "adt" or self.val.args[0] != RESP:
            return None
        return fld(self.val, field)

    def messages(self):
        """ordered messages: list of ("one", submsg) / ("many", seq term)"""
        m = self.response("messages")
        if m is None:
            return None
        return flat_seq(m)

    def saves(self, ns):
        return [e for e in self.eff if e.op in ("save", "del") and e.args[0] == ns]

    def final(self, ns, key=UNIT):
        """last value written to a cell on this trace (None: not written)"""
        r = None
        for e in self.eff:
            if e.op == "save" and e.args[0] == ns and e.args[1] is key:
                r = e.args[2]
            elif e.op == "del" and e.args[0] == ns and e.args[1] is key:
                r = "del"
        return r


def flat_seq(m):
    if m.op == "arr":
        return [("one", x) for x in m.args]
    if m.op == "concat":
        r = []
        for x in m.args:
            r.extend(flat_seq(x))
        return r
    return [("many", m)]


class Entry:
    def __init__(self, name, traces, panics, eng, inst):
        self.name, self.traces, self.panics, self.eng, self.inst = name, traces, panics, eng, inst

    def ok(self, *path):
        return [t for t in self.traces if t.ok and t.path[: len(path)] == path]

    def variants(self):
        r = []
        for t in self.traces:
            if t.path not in r:
                r.append(t.path)
        return r


class Contract:
    def __init__(self, crate):
        self.crate = crate
        self.p = Program(os.path.join(DUMP, crate + ".json"))
        self._e = {}
        self.opaque = {}
        self.analysed = {}
        self.calls = self.loops = self.steps = self.traces = 0

    def roots(self, suffix):
        return [n for n in self.p.roots if n == suffix or n.endswith("::" + suffix)]

    def run(self, name, args=None, boxmut=False):
        """Analyse a root function; its parameters become symbols named
        after their position in the entry-point signature."""
        k = (name, args if args is None else tuple(args), boxmut)
        if k in self._e:
            return self._e[k]
        full = name if name in self.p.roots or name in self.p.picked else self.crate + "::" + name
        inst = self.p.roots.get(full) or self.p.picked.get(full)
        if inst is None:
            self._e[k] = None
            return None
        eng = Engine(self.p)
        eng.boxmut = boxmut
        st = new_state()
        vals = []
        msg = None
        short = full.rsplit("::", 1)[1]
        for i in range(inst.body["argc"]):
            ty = inst.body["locals"][i + 1]
            t = self.p.types[ty]
            nm = self.symname(ty, i, inst)
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = sym(nm)
            if t["k"] == "ref" and t["m"] and self.p.types[t["e"]]["k"] != "dyn":
                st.mem[("in", i)] = v
                v = mk("ref", ("in", i), (), ())
            vals.append(v)
            if nm == "msg":
                msg = v
        outs = eng.exec_fn(inst, vals, st)
        e = Entry(full, [Trace(s, eng.deref_full(s, r), msg) for s, r in outs], eng.panic_log, eng, inst)
        self._e[k] = e
        for q, n in eng.opaque.items():
            self.opaque[q] = self.opaque.get(q, 0) + n
        self.analysed.update(eng.analysed)
        self.calls += eng.calls
        self.loops += eng.loops
        self.steps += eng.steps
        self.traces += len(outs)
        return e

    def symname(self, ty, i, inst):
        n = self.p.tname(self.p.strip_ref(ty)).split("<")[0].rsplit("::", 1)[-1]
        m = {"DepsMut": "deps", "Deps": "deps", "Env": "env", "MessageInfo": "info", "Reply": "msg", "ExecuteMsg": "msg", "QueryMsg": "msg", "InstantiateMsg": "msg", "MigrateMsg": "msg"}
        if n in m:
            return m[n]
        for nm, pl in inst.body["names"]:
            if not pl[1] and pl[0] == i + 1:
                return nm
        return "arg%d" % i

    def entries(self):
        """the wasm entry points present in the crate"""
        r = {}
        for n in ("instantiate", "execute", "query", "migrate", "reply", "sudo"):
            e = self.run("contract::" + n)
            if e is not None:
                r[n] = e
        return r


# -------------------------------------------------------------- reading
def abbrev(ts, limit=60):
    """Compact listing of terms with shared big subterms named."""
    count = {}

    def walk(x):
        if isinstance(x, T):
            count[x] = count.get(x, 0) + 1
            if count[x] == 1:
                for a in x.args:
                    walk(a)
        elif isinstance(x, tuple):
            for a in x:
                walk(a)

    for t in ts:
        walk(t)
    names = {}
    defs = []

    def rec(x):
        if isinstance(x, T):
            if x in names:
                return
            for a in x.args:
                rec(a)
            if count[x] > 1 and len(show(subst(x, names))) > limit and x.op not in ("adt",):
                n = sym("$%d" % (len(defs) + 1))
                y = mk(x.op, *[_ab(a, names) for a in x.args])
                defs.append((n, y))
                names[x] = n
        elif isinstance(x, tuple):
            for a in x:
                rec(a)

    for t in ts:
        rec(t)
    return [_ab(t, names) for t in ts], defs


def _ab(x, names):
    if isinstance(x, T):
        if x in names:
            return names[x]
        return mk(x.op, *[_ab(a, names) for a in x.args])
    if isinstance(x, tuple):
        return tuple(_ab(a, names) for a in x)
    return x
