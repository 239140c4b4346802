"""How Rust types are written on the wire (serde_json as derived), as
structures that can be compared with other descriptions of the same messages."""
import json
import os
import re

STR, NUM, BOOL, NULL = ("str",), ("num",), ("bool",), ("null",)
LEAF = {
    "std::string::String": STR,
    "cosmwasm_std::Addr": STR,
    "cosmwasm_std::Binary": STR,
    "cosmwasm_std::Uint64": STR,
    "cosmwasm_std::Uint128": STR,
    "cosmwasm_std::Uint256": STR,
    "cosmwasm_std::Int128": STR,
    "cosmwasm_std::Decimal": STR,
    "cosmwasm_std::Decimal256": STR,
    "cosmwasm_std::Timestamp": STR,
}
COIN = ("obj", (("amount", STR, False), ("denom", STR, False)))


class Unknown(Exception):
    pass


def union(*xs):
    out = []
    for x in xs:
        out.extend(x[1] if x[0] == "or" else [x])
    out = sorted(set(out))
    return out[0] if len(out) == 1 else ("or", tuple(out))


def nonnull(x):
    if x[0] == "or":
        return union(*[y for y in x[1] if y != NULL])
    return x


def obj(fields):
    """fields: (name, type, optional); a field that may be left out may be null"""
    return ("obj", tuple(sorted((n, union(nonnull(t), NULL) if o else t, o) for n, t, o in fields)))


def snake(n):
    return "".join(("_" if i and ch.isupper() else "") + ch.lower() for i, ch in enumerate(n))


def renamed(rule, n, field):
    if rule is None:
        return n
    if rule == "snake_case":
        return n if field else snake(n)
    if rule == "lowercase":
        return n if field else n.lower()
    if rule == "kebab-case":
        return n.replace("_", "-") if field else snake(n).replace("_", "-")
    if rule == "camelCase":
        p = re.split("_", n) if field else None
        return p[0] + "".join(x.capitalize() for x in p[1:]) if field else n[0].lower() + n[1:]
    raise Unknown("rename_all=" + rule)


def attrs(a):
    r = {}
    for x in a:
        k, _, v = x.partition("=")
        r[k] = v
    for k in r:
        if k not in ("rename", "rename_all", "deny_unknown_fields", "crate", "default", "skip_serializing_if", "rename_all_fields"):
            raise Unknown("serde attribute " + k)
    return r


class Wire:
    def __init__(self, dump, crates):
        self.adts = {}
        self.derived = set()
        for c in crates:
            d = json.load(open(os.path.join(dump, c + ".json")))
            self.adts.update(d["wire"])
            for n in d["generic"]:
                m = re.search(r"_::<impl .*(De|S)erialize(?:<'de>)? for (?:%s::)?(.*?)>::(de)?serialize$" % c, n)
                if m:
                    self.derived.add((c + "::" + m.group(2), "De" if m.group(1) == "De" else "S"))

    def of(self, p, i):
        """the structure of type number i of program p"""
        t = p.types[i]
        k = t["k"]
        if k in ("ref", "ptr"):
            return self.of(p, t["e"])
        if k == "str":
            return STR
        if k == "bool":
            return BOOL
        if k in ("int", "uint"):
            return STR if "128" in str(t["n"]) else NUM
        if k == "tuple":
            return ("tup", tuple(self.of(p, x) for x in t["f"])) if t["f"] else NULL
        if k in ("slice", "array"):
            return ("arr", self.of(p, t["e"]))
        if k != "adt":
            raise Unknown(p.tname(i))
        n = t["name"]
        if n in LEAF:
            return LEAF[n]
        if n == "cosmwasm_std::Coin":
            return COIN
        if n == "cosmwasm_std::Empty":
            return ("obj", ())
        if n == "std::option::Option":
            return union(self.of(p, t["args"][0]), NULL)
        if n in ("std::vec::Vec", "std::collections::BTreeSet", "std::collections::VecDeque"):
            return ("arr", self.of(p, t["args"][0]))
        if n in ("std::boxed::Box", "std::borrow::Cow"):
            return self.of(p, t["args"][-1])
        if n in ("std::collections::BTreeMap", "std::collections::HashMap"):
            return ("map", self.of(p, t["args"][0]), self.of(p, t["args"][1]))
        if n not in self.adts:
            raise Unknown(n)
        w = self.adts[n]
        short = n
        if (short, "S") not in self.derived and (short, "De") not in self.derived:
            raise Unknown("serialization of %s is not derived" % n)
        a = attrs(w["a"])
        if not w["enum"]:
            v = t["v"][0]
            return self.body(p, v, w["v"][v["n"]], a.get("rename_all"))
        out = []
        for v in t["v"]:
            wv = w["v"][v["n"]]
            va = attrs(wv["a"])
            name = va.get("rename") or renamed(a.get("rename_all"), v["n"], False)
            if wv["k"] == "unit":
                out.append(("lit", name))
            else:
                out.append(obj([(name, self.body(p, v, wv, va.get("rename_all") or a.get("rename_all_fields")), False)]))
        return union(*out)

    def body(self, p, v, wv, rule):
        if wv["k"] == "unit":
            return NULL
        if wv["k"] == "tuple":
            fs = [self.of(p, ty) for _, ty in v["f"]]
            return fs[0] if len(fs) == 1 else ("tup", tuple(fs))
        out = []
        for f, ty in v["f"]:
            fa = attrs(wv["f"][f])
            t = self.of(p, ty)
            o = p.types[ty]["k"] == "adt" and p.types[ty]["name"] == "std::option::Option" or "default" in fa
            out.append((fa.get("rename") or renamed(rule, f, True), t, o))
        return obj(out)

    def variants(self, p, i):
        """wire name -> variant name of an enum"""
        t = p.types[i]
        w = self.adts[t["name"]]
        a = attrs(w["a"])
        return {attrs(w["v"][v["n"]]["a"]).get("rename") or renamed(a.get("rename_all"), v["n"], False): v["n"] for v in t["v"]}


def show(t):
    k = t[0]
    if k == "lit":
        return '"%s"' % t[1]
    if k == "or":
        return " | ".join(map(show, t[1]))
    if k == "arr":
        return "(%s)[]" % show(t[1])
    if k == "tup":
        return "[%s]" % ", ".join(map(show, t[1]))
    if k == "obj":
        return "{%s}" % ", ".join("%s%s: %s" % (n, "?" if o else "", show(nonnull(x) if o else x)) for n, x, o in t[1])
    if k == "map":
        return "{[%s]: %s}" % (show(t[1]), show(t[2]))
    return k


def differs(a, b, at=""):
    """where two structures differ first: a text, or None"""
    if a == b:
        return None
    if a[0] == b[0] == "obj":
        fa, fb = {x[0]: x for x in a[1]}, {x[0]: x for x in b[1]}
        for n in sorted(set(fa) | set(fb)):
            if n not in fa or n not in fb:
                return "%s.%s is only on one side" % (at, n)
            if fa[n][2] != fb[n][2]:
                return "%s.%s may be left out on one side only" % (at, n)
            d = differs(fa[n][1], fb[n][1], "%s.%s" % (at, n))
            if d:
                return d
    if a[0] == b[0] == "arr":
        return differs(a[1], b[1], at + "[]")
    if a[0] == "or" and b[0] == "or":
        xs, ys = set(a[1]) - set(b[1]), set(b[1]) - set(a[1])
        if len(xs) == len(ys) == 1:
            return differs(xs.pop(), ys.pop(), at)
        return "%s: %s" % (at, "; ".join(show(z)[:120] for z in sorted(xs | ys)[:3]))
    return "%s: %s against %s" % (at, show(a)[:120], show(b)[:120])
