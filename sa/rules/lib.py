"""Vocabulary shared by the rules: symbols, storage, messages, equality."""
from .. import terms
from ..terms import *
from ..models import mulfloor

RESP = "cosmwasm_std::Response"
MSG = sym("msg")
INFO = sym("info")
ENV = sym("env")
SENDER = fld(INFO, "sender")
FUNDS = fld(INFO, "funds")
NOW = mk("seconds", fld(fld(ENV, "block"), "time"))
SELF = fld(fld(ENV, "contract"), "address")


def LD(ns, key=UNIT):
    return mk("ld", ns, key)


def HAS(ns, key=UNIT):
    return mk("has", ns, key)


def F(x, path):
    """x.path; a component starting with ':' selects an enum variant."""
    for p in path.split("."):
        if p.startswith(":"):
            x = as_variant(x, p[1:])
        else:
            x = fld(x, p)
    return x


def SOME(x):
    return variant_payload(x, "Some")


def is_some(x):
    return is_variant(x, "Some", OPT)


# ------------------------------------------------------------- equality
def eqmap(t):
    """Representatives of the equality facts of a trace."""
    m = getattr(t, "_eqm", None)
    if m is None:
        par = {}

        def root(x):
            while x in par:
                x = par[x]
            return x

        for c, p in t.lits:
            if p and c.op == "eq":
                a, b = root(c.args[0]), root(c.args[1])
                if a is b:
                    continue
                if contains(a, b):
                    a, b = b, a
                elif not contains(b, a):
                    # keep constants, then storage, as representatives
                    a, b = sorted((a, b), key=lambda x: (not is_const(x), not has_op(x, ("ld",)), x.op != "sym", skey(x)))
                if contains(a, b):
                    continue
                par[b] = a
        m = {x: root(x) for x in par}
        t._eqm = m
        t._eqmemo = {}
    return m


def canon(t, x):
    m = eqmap(t)
    if not m or x is None or not isinstance(x, T):
        return x
    r = t._eqmemo.get(x)
    if r is None:
        r = x
        for _ in range(4):
            n = subst(r, m)
            if n is r:
                break
            r = n
        t._eqmemo[x] = r
    return r


def same(t, a, b):
    """Equal in every execution of the trace."""
    if a is b:
        return True
    if a is None or b is None or not isinstance(a, T) or not isinstance(b, T):
        return False
    a, b = canon(t, a), canon(t, b)
    if a is b:
        return True
    if t.holds(eq(a, b)) is True:
        return True
    a, b = norm_opt(t, a), norm_opt(t, b)
    if a is b:
        return True
    if a.op == "adt" and b.op == "adt" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
        return all(same(t, x, y) for x, y in zip(a.args[2:], b.args[2:]))
    for x, y in ((a, b), (b, a)):
        # a rebuilt struct / option equals the original field by field
        if x.op == "adt" and y.op != "adt":
            if x.args[0] == OPT:
                if x.args[1] == "None":
                    return t.holds(is_some(y)) is False
                return t.holds(is_some(y)) is True and same(t, x.args[2], SOME(y))
            names = FIELDS.get((x.args[0], x.args[1])) or [str(i) for i in range(len(x.args) - 2)]
            if not names:
                return t.holds(is_variant(y, x.args[1], x.args[0])) is True
            return all(same(t, v, fld(y, n)) for n, v in zip(names, x.args[2:]))
        if x.op == "tuple" and y.op != "tuple" and x.args:
            return all(same(t, v, fld(y, str(i))) for i, v in enumerate(x.args))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return all(same(t, x, y) for x, y in zip(a.args, b.args))
    if a.op == "arr" and b.op == "arr" and len(a.args) == len(b.args):
        return all(same(t, x, y) for x, y in zip(a.args, b.args))
    return False


def norm_opt(t, x):
    return x


def optcase(t, x):
    """'Some' / 'None' / None (unknown)"""
    if x.op == "adt" and x.args[0] == OPT:
        return x.args[1]
    r = t.holds(is_some(x))
    return None if r is None else ("Some" if r else "None")


# -------------------------------------------------------------- messages
class M:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return "M(%s)" % ", ".join("%s=%s" % (k, brief(v, 80) if isinstance(v, (T, tuple)) else v) for k, v in self.__dict__.items() if k != "sub")


def decode(kind, sub):
    """A SubMsg term -> M(kind, ...)."""
    if kind == "many" or sub.op != "adt":
        return M(kind="many", term=sub, sub=sub, reply="?", id=None)
    reply = fld(sub, "reply_on")
    ro = reply.args[1] if reply.op == "adt" else "?"
    sid = fld(sub, "id")
    msg = fld(sub, "msg")
    base = dict(sub=sub, reply=ro, id=sid)
    if msg.op == "adt":
        v = msg.args[1]
        if v == "Bank":
            b = fld(msg, "0")
            if b.op == "adt" and b.args[1] == "Send":
                return M(kind="send", to=fld(b, "to_address"), coins=fld(b, "amount"), **base)
            if b.op == "adt" and b.args[1] == "Burn":
                return M(kind="bankburn", coins=fld(b, "amount"), **base)
        if v == "Stargate":
            val = fld(msg, "value")
            url = fld(msg, "type_url")
            u = url.args[0] if url.op == "str" else "?"
            body = None
            if val.op == "app" and val.args[0].endswith("to_proto_bytes"):
                body = val.args[1]
            return M(kind="proto", url=u, body=body, **base)
        if v == "Wasm":
            w = fld(msg, "0")
            if w.op == "adt" and w.args[1] == "Execute":
                mm = fld(w, "msg")
                body = mm.args[-1] if mm.op in ("json", "to_json", "app") else mm
                return M(kind="wasm", to=fld(w, "contract_addr"), body=body, funds=fld(w, "funds"), **base)
    return M(kind="other", term=msg, **base)


def messages(t):
    ms = t.messages()
    if ms is None:
        return None
    return [decode(k, m) for k, m in ms]


def coins1(coins):
    """(denom, amount) of a one-coin list"""
    if coins.op == "arr" and len(coins.args) == 1:
        c = coins.args[0]
        return fld(c, "denom"), fld(c, "amount")
    return None


# ------------------------------------------------------------ decimals
ONE = None


def frames(c, e, x):
    """function on whose behalf an effect was performed"""
    p = e.eng.origin.get(x)
    return " -> ".join(p) if p else None


def variant_name(t):
    return t.name or "(any)"


def ok_traces(c, e, *path):
    ts = e.ok(*path)
    return ts


BAD_EFFECTS = ("opaque_storage", "lostwrite")


def sane(c, e, where=""):
    """No trace may contain storage effects the analysis cannot attribute."""
    for t in e.traces:
        if t.err:
            continue
        for x in t.eff:
            if x.op in BAD_EFFECTS or any_sub(x, lambda y: y.op in BAD_EFFECTS):
                c.fail("unattributed-write", e.name + " " + variant_name(t), "a storage write the analysis cannot attribute to a cell: " + brief(x, 200), t, frames(c, e, x))
        if not t.ok:
            c.fail("unknown-result", e.name + " " + variant_name(t), "a trace whose result is neither Ok nor Err", t)


def writes(t, ns):
    """(kind, key, value) of the writes to a namespace, in order"""
    r = []
    for x in t.eff:
        r.extend(_w(x, ns))
    return r


def _w(x, ns):
    if x.op in ("save", "del") and x.args[0] == ns:
        return [(x.op, x.args[1], x.args[2] if x.op == "save" else None, x)]
    if x.op in ("foreach",) and any_sub(x, lambda y: y.op in ("save", "del") and y.args[0] == ns):
        return [("foreach", None, x, x)]
    return []


def written(t):
    """namespaces written on a trace"""
    r = []
    for x in t.eff:
        for y in subterms(x):
            if y.op in ("save", "del"):
                if y.args[0] not in r:
                    r.append(y.args[0])
    return r


def field_changed(t, ns, path, key=UNIT):
    """does the final value of a cell differ from its initial one in a field?"""
    v = t.final(ns, key)
    if v is None:
        return False
    if v == "del":
        return True
    return not same(t, F(v, path), F(LD(ns, key), path))


def getf(v, name):
    return fld(v, name)
