"""Properties of the TypeScript SDK against the contracts it speaks to."""
import json
import os
import subprocess

from .. import wire
from . import iface
from .iface import API, APIS, CORE, DROP, PERI
from .lib import *

FACE = {CORE: "Core", DROP: "Airdrop", PERI: "Periphery"}
ENTRY = {"InstantiateMsg": "instantiate", "ExecuteMsg": "execute", "QueryMsg": "query", "MigrateMsg": "migrate"}
THIS, ARGC = ["this"], "Client"


def sdk(c):
    if not hasattr(c, "ts"):
        from ..build import REPO

        src = os.path.join(REPO, "ts/sdk/src/contracts")
        js = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ts/read.js")
        r = subprocess.run(["node", js, src] + [FACE[x] for x in FACE], capture_output=True, text=True, timeout=300)
        try:
            c.ts = json.loads(r.stdout)
        except ValueError:
            c.ts = {"types": {}, "classes": {}, "hooks": {}, "errors": ["the sources could not be read: %s" % (r.stderr or r.stdout)[-300:]]}
        n = sum(len(x["methods"]) for x in c.ts["classes"].values())
        c.notes.append("read from ts/sdk/src/contracts: %d methods of %d classes, %d hooks, %d types" % (n, len(c.ts["classes"]), len(c.ts["hooks"]), sum(map(len, c.ts["types"].values()))))
        for e in c.ts["errors"]:
            c.fail("unreadable", "ts/sdk", str(e)[:300])
    return c.ts


def camel(n):
    p = n.split("_")
    return p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])


def norm(t):
    """a TypeScript type as a structure on the wire"""
    k = t[0]
    if k in ("str", "num", "bool", "null"):
        return (k,)
    if k == "lit":
        return ("lit", t[1])
    if k == "or":
        return wire.union(*[norm(x) for x in t[1] if x[0] != "undef"])
    if k == "arr":
        return ("arr", norm(t[1]))
    if k == "tup":
        return ("tup", tuple(norm(x) for x in t[1]))
    if k == "obj":
        return wire.obj([(n, norm(x), bool(o)) for n, x, o in t[1]])
    raise wire.Unknown(json.dumps(t)[:120])


def norm_or_fail(c, t, where):
    try:
        return norm(t)
    except wire.Unknown as e:
        c.fail("unreadable", where, "the type is not one that can be read: %s" % e)
        return None


# ------------------------------------------------------------------- I04
def i04(c, tier):
    ts = sdk(c)
    for crate, face in FACE.items():
        types = ts["types"].get(face, {})
        for name, entry in ENTRY.items():
            w = "%s.%s" % (face, name)
            ty = iface.msgtype(c, crate, entry)
            if ty is None:
                c.ob("no-entry", w, name == "MigrateMsg" or name not in types, "the contract takes no such message")
                continue
            if not c.ob("described", w, name in types, "the SDK does not describe the message"):
                continue
            have, want = norm_or_fail(c, types[name], w), iface.structure(c, crate, ty)
            if have and want:
                d = wire.differs(have, want)
                c.ob("message-as-taken", w, d is None, "not the message the contract takes: %s" % d)
        # what the queries answer
        q = ts["classes"].get(face + "QueryClient", {}).get("methods", {})
        decl = iface.declared(c, APIS[crate])
        c.floor("vacuity", "%s answers" % face, len(decl), {CORE: 10, DROP: 8, PERI: 4}[crate])
        for n, ty in sorted(decl.items()):
            w = "%s.%s" % (face, camel(n))
            if not c.ob("query-offered", w, camel(n) in q, "the SDK does not offer the query"):
                continue
            r = q[camel(n)].get("returns")
            if not c.ob("promise", w, r and r[0] == "promise", "the SDK does not say what the query answers"):
                continue
            have, want = norm_or_fail(c, r[1], w), iface.structure(c, API, ty)
            if have and want:
                d = wire.differs(have, want)
                c.ob("answer-as-given", w, d is None, "not the answer the contract gives: %s" % d)


# ------------------------------------------------------------------- I06
def get(x, *ns):
    for n in ns:
        x = ["get", x, n]
    return x


def payloads(c, crate, entry):
    """wire name of a message -> structure of its payload"""
    ty = iface.msgtype(c, crate, entry)
    s = iface.structure(c, crate, ty) if ty is not None else None
    if s is None:
        return {}
    return {x[1][0][0]: x[1][0][1] for x in (s[1] if s[0] == "or" else (s,)) if x[0] == "obj" and len(x[1]) == 1}


def message(x, name, pay, m):
    """is the expression the message of that name, carrying what the caller gave in
    its first argument?  (what is wrong or None, whether an argument is taken)"""
    if x[0] != "obj" or [f[0] for f in x[1]] != [name]:
        return "sends another message: %s" % json.dumps(x)[:120], False
    b = x[1][0][1]
    if pay == ("obj", ()):
        return (None if b == ["obj", []] else "the message carries something"), False
    ps = m["params"]
    if not ps:
        return "the caller cannot give the message's fields", False
    if b == ["arg", 0]:
        have, why = None, None
        try:
            have = norm(ps[0]["type"])
        except wire.Unknown as e:
            return "the argument's type cannot be read: %s" % e, True
        d = wire.differs(loose(have), loose(pay))
        return (d and "the caller gives something else: %s" % d), True
    if pay[0] != "obj" or b[0] != "obj":
        return "the message does not carry what the caller gave", True
    fs = {f: (t, o) for f, t, o in pay[1]}
    if sorted(f[0] for f in b[1]) != sorted(fs):
        return "fields %s are carried instead of %s" % (sorted(f[0] for f in b[1]), sorted(fs)), True
    src = {}
    for f, v in b[1]:
        if v[0] != "get" or v[1] != ["arg", 0]:
            return "%s does not carry what the caller gave" % f, True
        src[f] = v[2]
    if any(v != camel(f) for f, v in src.items()):
        return "the caller's %s" % ", ".join("%s is sent as %s" % (v, f) for f, v in src.items() if v != camel(f)), True
    t = ps[0]["type"]
    if t[0] != "obj":
        return "the argument's type cannot be read", True
    given = {n: (x, o) for n, x, o in t[1]}
    for f, (ty, o) in fs.items():
        if src[f] not in given:
            return "the caller cannot give %s" % f, True
        gx, go = given[src[f]]
        if bool(go) != bool(o):
            return "%s may be left out on one side only" % f, True
        try:
            d = wire.differs(loose(norm(gx)), loose(ty), f)
        except wire.Unknown as e:
            return "the type of %s cannot be read: %s" % (f, e), True
        if d:
            return "the caller gives something else: %s" % d, True
    return None, True


def loose(t):
    return wire.nonnull(t) if t[0] == "or" else t


def extra(m, k, kinds):
    """the caller's remaining arguments are what the chain's client takes, in order"""
    ps = m["params"][k:]
    if len(ps) != len(kinds):
        return "takes %d further arguments" % len(ps)
    for p, kind in zip(ps, kinds):
        if kind == "fee":
            if p["dflt"] != '"auto"':
                return "the fee is not estimated unless given"
        elif kind == "memo":
            if p["type"] not in (["or", [["undef"], ["str"]]], ["str"]) or p["dflt"]:
                return "the memo is not an optional text"
        elif kind == "funds":
            try:
                z = loose(norm(p["type"]))
            except wire.Unknown:
                z = None
            if z not in (("arr", wire.COIN), None) or p["dflt"]:
                return "the funds are not a list of coins"
        if not p["optional"] and not p["dflt"]:
            return "an optional argument is required"
    return None


def holds_args(c, cls, x, names, sup=None):
    """the object keeps what it was made with"""
    f = x["fields"]
    for n in names:
        w = f.get(n)
        ok = w == ["arg", x["ctor"].index(n)] if n in x["ctor"] else False
        c.ob("kept", "%s.%s" % (cls, n), ok, "the object does not keep the %s it was made with" % n)
    if sup is not None:
        want = [["arg", x["ctor"].index(n)] if n in x["ctor"] else None for n in sup]
        c.ob("parent", cls, f.get("super") == want, "the query client is not made with the same client and contract")
    for n, v in f.items():
        if n in names or n not in x["methods"]:
            continue
        c.ob("bound", "%s.%s" % (cls, n), v == ["call", get(THIS, n, "bind"), [THIS]], "a method is replaced by something else")


def method(c, cls, x, n):
    m = x["methods"].get(camel(n))
    if not c.ob("offered", "%s.%s" % (cls, camel(n)), m is not None, "the SDK does not offer %s" % n):
        return None
    if not c.ob("readable", "%s.%s" % (cls, camel(n)), "result" in m, "the method could not be read: %s" % m.get("error")):
        return None
    return m


def i06(c, tier):
    ts = sdk(c)
    for crate, face in FACE.items():
        ex, qs = payloads(c, crate, "execute"), payloads(c, crate, "query")
        c.floor("vacuity", "%s messages" % face, len(ex), {CORE: 5, DROP: 4, PERI: 5}[crate])
        c.floor("vacuity", "%s queries" % face, len(qs), {CORE: 10, DROP: 8, PERI: 4}[crate])
        K = ts["classes"]
        missing = [k for k in ("QueryClient", "Client", "MessageComposer") if face + k not in K]
        if not c.ob("clients", face, not missing, "the SDK has no %s" % missing):
            continue
        cls = face + "QueryClient"
        x = K[cls]
        holds_args(c, cls, x, ("client", "contractAddress"))
        for n, pay in sorted(qs.items()):
            m = method(c, cls, x, n)
            if m is None:
                continue
            w = "%s.%s" % (cls, camel(n))
            r = m["result"]
            ok = r[0] == "call" and r[1] == get(THIS, "client", "queryContractSmart") and len(r[2]) == 2 and r[2][0] == get(THIS, "contractAddress")
            if c.ob("asks-contract", w, ok, "does not ask the contract: %s" % json.dumps(r)[:200]):
                d, a = message(r[2][1], n, pay, m)
                c.ob("asks-it", w, d is None, str(d))
                c.ob("arguments", w, len(m["params"]) == (1 if a else 0), "takes arguments it does not send")
        cls = face + "Client"
        x = K[cls]
        c.ob("extends", cls, x["extends"] == face + "QueryClient", "does not offer the queries")
        holds_args(c, cls, x, ("client", "sender", "contractAddress"), ("client", "contractAddress"))
        for n, pay in sorted(ex.items()):
            m = method(c, cls, x, n)
            if m is None:
                continue
            w = "%s.%s" % (cls, camel(n))
            r = m["result"]
            ok = r[0] == "call" and r[1] == get(THIS, "client", "execute") and len(r[2]) == 6 and r[2][:2] == [get(THIS, "sender"), get(THIS, "contractAddress")]
            if c.ob("tells-contract", w, ok, "does not send the message to the contract: %s" % json.dumps(r)[:200]):
                d, a = message(r[2][2], n, pay, m)
                c.ob("sends-it", w, d is None, str(d))
                k = 1 if a else 0
                c.ob("fee-memo-funds", w, r[2][3:] == [["arg", k + i] for i in range(3)], "fee, memo and funds are not those given")
                d = extra(m, k, ("fee", "memo", "funds"))
                c.ob("arguments", w, d is None, str(d))
        cls = face + "MessageComposer"
        x = K[cls]
        holds_args(c, cls, x, ("sender", "contractAddress"))
        for n, pay in sorted(ex.items()):
            m = method(c, cls, x, n)
            if m is None:
                continue
            w = "%s.%s" % (cls, camel(n))
            r = m["result"]
            v = dict((f[0], f[1]) for f in r[1]) if r[0] == "obj" else {}
            ok = set(v) == {"typeUrl", "value"} and v["typeUrl"] == ["str", "/cosmwasm.wasm.v1.MsgExecuteContract"]
            z = v.get("value")
            if z and z[0] == "call" and z[1] == get(["global", "MsgExecuteContract"], "fromPartial") and len(z[2]) == 1 and z[2][0][0] == "obj":
                z = dict((f[0], f[1]) for f in z[2][0][1])
            else:
                z, ok = {}, False
            ok = ok and set(z) == {"sender", "contract", "msg", "funds"} and z["sender"] == get(THIS, "sender") and z["contract"] == get(THIS, "contractAddress")
            if c.ob("composes-execute", w, ok, "not an execution of the contract by the sender: %s" % json.dumps(r)[:200]):
                b = z["msg"]
                u = b[2][0] if b[0] == "call" and b[1] == ["global", "toUtf8"] and len(b[2]) == 1 else None
                u = u[2][0] if u and u[0] == "call" and u[1] == get(["global", "JSON"], "stringify") and len(u[2]) == 1 else None
                if c.ob("encoded", w, u is not None, "the message is not written as JSON"):
                    d, a = message(u, n, pay, m)
                    c.ob("composes-it", w, d is None, str(d))
                    k = 1 if a else 0
                    c.ob("funds", w, z["funds"] == ["arg", k], "the funds are not those given")
                    d = extra(m, k, ("funds",))
                    c.ob("arguments", w, d is None, str(d))
        hooks(c, face, qs, ts, K[face + "QueryClient"])


def hooks(c, face, qs, ts, client):
    keys = {}
    for n, pay in sorted(qs.items()):
        up = camel(n)[0].upper() + camel(n)[1:]
        w = "use%s%sQuery" % (face, up)
        h = ts["hooks"].get(w)
        if not c.ob("hook-offered", w, h is not None and "result" in h, "the SDK does not offer the hook (%s)" % (h or {}).get("error")):
            continue
        r = h["result"]
        a0 = ["arg", 0]
        ok = r[0] == "call" and r[1] == ["global", "useQuery"] and len(r[2]) == 3 and r[2][2] == get(a0, "options") and r[2][0][0] == "arr" and r[2][1][0] == "fn"
        if not c.ob("hook-queries", w, ok, "not a query of the contract"):
            continue
        m = client["methods"].get(camel(n))
        if m is None:
            continue
        key = r[2][0][1]
        takes = bool(m["params"])
        whole = key and key[0][0] == "str" and get(a0, "client", "contractAddress") in key
        if takes:
            # the arguments, as a whole or each of them
            parts = [get(a0, "args", f) for f in m["params"][0]["fields"] or ()]
            strd = [["call", get(["global", "JSON"], "stringify"), [x]] for x in parts]
            whole = whole and (["call", get(["global", "JSON"], "stringify"), [get(a0, "args")]] in key or get(a0, "args") in key or bool(parts) and all(x in key or y in key for x, y in zip(parts, strd)))
        c.ob("hook-key", w, whole, "two different questions share one cached answer: %s" % json.dumps(key)[:200])
        k0 = json.dumps(key[0]) if key else ""
        c.ob("hook-key-own", w, k0 not in keys, "shares its cached answers with %s" % keys.get(k0))
        keys[k0] = w
        want = get(a0, "client", camel(n))
        f = r[2][1][1]
        ok = f[0] == "call" and f[1] == want
        if not c.ob("hook-asks", w, ok, "asks something else: %s" % json.dumps(f)[:160]):
            continue
        if not takes:
            c.ob("hook-arguments", w, f[2] == [], "gives arguments the query does not take")
            continue
        fields = m["params"][0]["fields"]
        if f[2] == [get(a0, "args")]:
            continue
        ok = len(f[2]) == 1 and f[2][0][0] == "obj"
        got = {y[0]: y[1] for y in f[2][0][1]} if ok else {}
        ok = ok and fields is not None and set(got) == set(fields) and all(v == get(a0, "args", y) for y, v in got.items())
        c.ob("hook-arguments", w, ok, "does not hand on what the caller asked: %s" % json.dumps(f[2])[:200])
