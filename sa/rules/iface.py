"""Properties of the interface package and of what it promises to callers."""
import re

from .. import wire
from . import drop
from .core3 import answer
from .lib import *
from .peri import payload_of

CORE, DROP, PERI, API = "ibcx_core", "ibcx_airdrop", "ibcx_periphery", "ibcx_interface"
LISTS = {CORE: {"ListTradeInfo": 12}, DROP: {"ListLabels": 12, "ListClaims": 24, "ListAirdrops": 48}}


# ------------------------------------------------------------------- I01
def request(t):
    """the part of the query that holds start_after, limit and order"""
    lims = {y.args[0] for l, _ in t.lits for y in subterms(l) if y.op == "fld" and y.args[1] == "limit" and contains(y, MSG)}
    return next(iter(lims)) if len(lims) == 1 else None


def i01(c, tier):
    for crate, names in LISTS.items():
        q = c.entry(crate, "contract::query")
        if not q:
            continue
        sane(c, q)
        n = {}
        full = {}
        for t in q.traces:
            if not t.ok:
                continue
            x = answer(t)
            if x is None or not any(z.op == "range" for z in subterms(x)):
                continue
            k = variant_name(t)
            w = "%s %s" % (crate, k)
            n[k] = n.get(k, 0) + 1
            o = request(t)
            if not c.ob("request-known", w, o is not None, "the listing does not depend on the page asked for", t):
                continue
            r = drop.page(t, x, o)
            c.ob("page", w, r is None, r or "", t)
            c.ob("page-whole", w, whole(x), "records are left out of the page, or listed twice", t)
            if optcase(t, fld(o, "limit")) == "Some" and admits(t, SOME(fld(o, "limit")), 30):
                full[k] = True
        for k, least in names.items():
            c.floor("vacuity", "%s %s" % (crate, k), n.get(k, 0), least)
            c.ob("largest-page", "%s %s" % (crate, k), full.get(k, False), "a page of 30 is refused")


def whole(x):
    """every record of the range up to the limit is listed, once"""
    while x.op == "adt" and len(x.args) == 3 and not x.args[1:2] == ("Ok",):
        x = x.args[2]
    seen = False
    while True:
        if x.op == "range":
            return seen
        if x.op == "take":
            seen = True
            x = x.args[0]
        elif x.op == "comp":
            if any(len(ys) != 1 for _, ys in x.args[1]) or not exhaustive([dict(g) for g, _ in x.args[1]]):
                return False
            x = x.args[0]
        else:
            return False


def exhaustive(gs):
    """every element falls under one of the guards"""
    if any(not g for g in gs):
        return True
    if not gs:
        return False
    k = sorted(gs[0], key=skey)[0]
    vs = VARIANTS_OF(k)
    if vs:
        # one guard per variant
        x = k.args[0]
        for v in vs:
            rest = []
            for g in gs:
                lits = {c: p for c, p in g.items() if c.op == "is" and c.args[0] is x}
                if any((c.args[1] == v) != p for c, p in lits.items()):
                    continue
                rest.append({c: p for c, p in g.items() if c not in lits})
            if not exhaustive(rest):
                return False
        return True
    return all(exhaustive([{c: q for c, q in g.items() if c is not k} for g in gs if g.get(k, p) == p]) for p in (True, False))


def VARIANTS_OF(k):
    if k.op != "is":
        return None
    for vs in terms.VARIANTS.values():
        if k.args[1] in vs:
            return vs
    return None


def admits(t, x, n):
    """the trace's conditions on x alone hold for n"""
    for l, p in t.lits:
        if contains(l, x):
            v = subst(l, {x: I(n)})
            if v.op == "bool" and v.args[0] != p:
                return False
            if v.op == "lt" and all(a.op == "int" for a in v.args) and (v.args[0].args[0] < v.args[1].args[0]) != p:
                return False
    return True


# ------------------------------------------------------------------- I02
APIS = {CORE: "core", DROP: "airdrop", PERI: "periphery"}
CRATES = ("ibcx_interface", "ibcx_core", "ibcx_airdrop", "ibcx_periphery", "ibcx_pool", "ibcx_utils")


def wires(c):
    if not hasattr(c, "wire"):
        from ..contract import DUMP

        c.wire = wire.Wire(DUMP, CRATES)
    return c.wire


def structure(c, crate, ty):
    """the structure of a type on the wire, or None (reported)"""
    p = c.contract(crate).p
    try:
        return wires(c).of(p, ty)
    except wire.Unknown as e:
        c.fail("unreadable", "%s %s" % (crate, p.tname(ty)), "how it is written on the wire is not known: %s" % e)
        return None


def declared(c, api):
    """wire name of a query -> type of the answer declared for it"""
    p = c.contract(API).p
    r = {}
    for n, inst in p.roots.items():
        if n.endswith("::response_schemas_impl") and n.startswith("<%s::%s::QueryMsg as " % (API, api)):
            seq = []

            def walk(x):
                if isinstance(x, dict):
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    if len(x) == 3 and x[0] == "k":
                        seq.append((x[1], x[2]))
                    for y in x:
                        walk(y)

            walk(inst.body["blocks"])
            name = None
            for ty, v in seq:
                t = p.types[ty]
                if t["k"] == "fndef":
                    if "schema_for" in t["name"] and name is not None:
                        r[name] = t["args"][0]
                        name = None
                elif isinstance(v, dict) and isinstance(v.get("ref"), dict) and "s" in v["ref"]:
                    name = v["ref"]["s"]
    return r


def msgtype(c, crate, entry):
    p = c.contract(crate).p
    inst = p.roots.get("%s::contract::%s" % (crate, entry))
    if inst is None:
        return None
    return inst.body["locals"][inst.body["argc"]]


def answers(c, crate):
    """variant of the query -> types its answers have"""
    q = c.entry(crate, "contract::query")
    r = {}
    if not q:
        return r
    sane(c, q)
    for t in q.traces:
        if t.ok and t.path:
            r.setdefault(t.path[0], set()).update(q.eng.jsonty.get(t.val) or {None})
    return r


def i02(c, tier):
    for crate, api in APIS.items():
        ty = msgtype(c, crate, "query")
        if ty is None:
            c.fail("missing-entry", crate, "no query entry point")
            continue
        p = c.contract(crate).p
        decl = declared(c, api)
        got = answers(c, crate)
        try:
            vs = wires(c).variants(p, ty)
        except (wire.Unknown, KeyError) as e:
            c.fail("unreadable", crate, "the queries' names on the wire are not known: %s" % e)
            continue
        c.floor("vacuity", "%s queries" % crate, len(vs), {CORE: 10, DROP: 8, PERI: 4}[crate])
        for n, v in vs.items():
            w = "%s %s" % (crate, v)
            if not c.ob("declared", w, n in decl, "the interface declares no answer for %s" % n):
                continue
            if not c.ob("answered", w, got.get(v), "the query has no answer"):
                continue
            want = structure(c, API, decl[n])
            for z in sorted(got[v], key=str):
                if not c.ob("answer-known", w, z is not None, "the type of the answer is not known"):
                    continue
                have = structure(c, crate, z)
                if want and have:
                    d = wire.differs(have, want)
                    c.ob("answer-as-declared", w, d is None, "the answer (%s) is not what the interface declares: %s" % (p.tname(z), d))


# ------------------------------------------------------------------- I03
COMMA = I(44)


def part(text, first):
    parts = mk("app", "split", text, COMMA)
    return idx(parts, I(0)) if first else mk("idxend", parts, 1)


def one_each(x):
    """(sequence, element) of a sequence built with one element per element"""
    if x.op == "comp" and len(x.args[1]) == 1 and not x.args[1][0][0] and len(x.args[1][0][1]) == 1:
        return x.args[0], x.args[1][0][1][0]
    return None, None


def inner(x):
    """the list in a one-field wrapper, whether or not it is one"""
    while x.op == "adt" and len(x.args) == 3:
        x = x.args[2]
    return x


def is_hop(h, pool, denom):
    return h is not None and h.op == "adt" and len(h.args) == 4 and fld(h, "pool_id") is pool and plain(h.args[3]) is denom


def plain(x):
    while x.op == "to_string" or x.op == "app" and str(x.args[0]).split("::")[-1] in ("to_string", "to_owned"):
        x = x.args[-1]
    return x


def is_swap_info(x, v):
    """the route written as v, read"""
    if x.op == "adt" and x.args[2].op == "tuple":
        key, routes = x.args[2].args
    elif x.op == "adt" and len(x.args) == 4:
        key, routes = x.args[2:]
    else:
        return "the route is not read into a key and hops"
    key = inner(key)
    if key.op != "tuple" or key.args != (part(fld(v, "key"), True), part(fld(v, "key"), False)):
        return "the pair of the key is not read as written: %s" % brief(key, 200)
    s, h = one_each(inner(routes))
    if s is not fld(v, "routes"):
        return "the hops are not read one by one, in order"
    e = el(s, 0)
    n = payload_of(fld(h, "pool_id")) or fld(h, "pool_id") if h.op == "adt" else None
    if n is None or n.op != "app" or n.args[-1] is not part(e, True) or str(n.args[0]).split("::")[-1] not in ("parse", "from_str"):
        return "the pool of a hop is not the number before the comma"
    if plain(h.args[3]) is not part(e, False):
        return "the denom of a hop is not the text after the comma"
    return None


def api(c, cond):
    p = c.contract(API).p
    return [n for n in p.roots if cond(n)]


def i03(c, tier):
    X = c.contract(API)
    n = 0
    for root in api(c, lambda r: re.search(r"convert::From<.*SwapInfoCompact>>::from$", r)):
        for t in X.run(root).traces:
            n += 1
            r = is_swap_info(t.ret, sym("v") if contains(t.ret, sym("v")) else arg1(X, root))
            c.ob("compact-route", "SwapInfoCompact", r is None, r or "", t)
    c.floor("vacuity", "compact route", n, 1)
    n = 0
    for root in api(c, lambda r: re.search(r"convert::From<.*SwapInfosCompact> ?(for .*)?>+::from$", r)):
        for t in X.run(root).traces:
            n += 1
            s, h = one_each(inner(t.ret))
            v = arg1(X, root)
            ok = s is not None and (s is v or s is fld(v, "0"))
            r = is_swap_info(h, el(s, 0)) if ok else "the routes are not read one by one, in order"
            c.ob("compact-routes", "SwapInfosCompact", r is None, r or "", t)
    c.floor("vacuity", "compact routes", n, 1)
    n = 0
    for root in api(c, lambda r: r.endswith("::extract_pool_ids")):
        for t in X.run(root).traces:
            n += 1
            c.ob("pool-ids", "extract_pool_ids", is_ids(t.ret, arg1(X, root)), "not the pools of every hop, each once, in ascending order", t)
    # routes as the chain's messages take them
    for kind in ("SwapAmountInRoute", "SwapAmountOutRoute"):
        k = 0
        for root in api(c, lambda r: "SwapRoutes> for std::vec::Vec<" in r and r.endswith(kind + ">>::from")):
            for t in X.run(root).traces:
                k += 1
                v = arg1(X, root)
                s, h = one_each(inner(t.ret))
                e = el(s, 0) if s is not None else None
                c.ob("hops-handed-on", kind, s in (v, fld(v, "0")) and is_hop(h, fld(e, "pool_id"), fld(e, "token_denom")) and h.args[0].endswith("::" + kind), "the hops are not handed on one by one, in order", t)
        c.floor("vacuity", kind, k, 1)
    k = 0
    for root in api(c, lambda r: "SwapRoutes as std::convert::From<" in r):
        for t in X.run(root).traces:
            k += 1
            v = arg1(X, root)
            x = inner(t.ret)
            ok = x is v
            if not ok:
                s, h = one_each(x)
                ok = s is v and is_hop(h, fld(el(s, 0), "0"), fld(el(s, 0), "1"))
            c.ob("routes-from-hops", root.split("From<")[-1][:60], ok, "the hops are not taken one by one, in order", t)
    c.floor("vacuity", "routes from hops", k, 2)
    # the ends of a route
    for root in api(c, lambda r: re.search(r"types::SwapRoutes::\w*_(first|last)$", r)):
        for t in X.run(root).traces:
            me = arg1(X, root)
            e = idx(me, I(0)) if root.endswith("first") else mk("idxend", me, 1)
            c.ob("ends", root.split("::")[-1], t.ret in (fld(e, "token_denom"), subst(fld(e, "token_denom"), {me: fld(me, "0")})), "not the denom of the route's first or last hop", t)
    # swap messages: direction, hops, coin and limit
    for out in (False, True):
        w = "msg_swap_exact_" + ("out" if out else "in")
        k = 0
        for root in api(c, lambda r: r.endswith("SwapRoutes::" + w)):
            for t in X.run(root).traces:
                k += 1
                r = is_swap(t.ret, out)
                c.ob("swap-message", w, r is None, r or "", t)
        c.floor("vacuity", w, k, 1)
        w = "sim_swap_exact_" + ("out" if out else "in")
        k = 0
        for root in api(c, lambda r: r.endswith("SwapRoutes::" + w)):
            for t in X.run(root).traces:
                if t.err:
                    continue
                k += 1
                r = is_estimate(t.ret, out)
                c.ob("estimate", w, r is None, r or "", t)
        c.floor("vacuity", w, k, 1)
    c.floor("vacuity", "pool ids", n, 1)


def arg1(X, root):
    inst = X.p.roots[root]
    return sym(X.symname(inst.body["locals"][1], 0, inst))


def is_ids(x, infos):
    once = asc = False
    while True:
        if x.op == "sorted":
            asc = True
        elif x.op == "mapof":
            once = True
        else:
            break
        x = x.args[0]
    if asc and each_new_hop(x, infos):
        return True
    return once and asc and each_hop(x, infos)


def each_new_hop(x, infos):
    """the pools of every hop of every route, put down when not there yet"""
    seen = mk("accv", 0)
    if x.op != "fold" or x.args[1] not in (mk("arr"), (mk("arr"),)):
        return False
    cases = x.args[2]
    if x.args[0] is infos:
        if len(cases) != 1 or cases[0][0]:
            return False
        v = cases[0][1]
        x = v[0] if isinstance(v, tuple) and len(v) == 1 else v
        if not isinstance(x, T) or x.op != "fold" or x.args[1] not in (seen, (seen,)):
            return False
        cases = x.args[2]
        s = F(el(infos, 0), "0.1")
    elif x.args[0].op == "flat" and x.args[0].args == (infos, (((), (F(el(infos, 0), "0.1"),)),)):
        s = x.args[0]
    else:
        return False
    if inner(x.args[0]) is not s:
        return False
    y = fld(el(x.args[0], 0), "pool_id")
    there = exists(seen, [(eq(el(seen, 0), y), True)])
    for g, v in cases:
        v = v[0] if isinstance(v, tuple) and len(v) == 1 else v
        if (there, True) in g and len(g) == 1 and v is seen:
            continue
        if (there, False) in g and len(g) == 1 and v is seq_concat(seen, mk("arr", y)):
            continue
        return False
    return len(cases) == 2


def each_hop(x, infos):
    """the pool of every hop of every route"""
    if x.op == "comp":
        # over all hops of all routes, flattened first
        s, y = one_each(x)
        if s is None or s.op != "flat":
            return False
        if y is not fld(el(s, 0), "pool_id"):
            return False
        b = s.args[0]
        return b is infos and s.args[1] == (((), (F(el(infos, 0), "0.1"),)),)
    if x.op != "flat" or x.args[0] is not infos or len(x.args[1]) != 1 or x.args[1][0][0] or len(x.args[1][0][1]) != 1:
        return False
    s, y = one_each(x.args[1][0][1][0])
    return s is not None and inner(s) is F(el(infos, 0), "0.1") and y is fld(el(s, 0), "pool_id")


def is_routes(x, out):
    me = sym("self")
    s, h = one_each(x)
    if s not in (me, fld(me, "0")):
        return False
    e = el(s, 0)
    return is_hop(h, fld(e, "pool_id"), fld(e, "token_denom")) and h.args[0].endswith("::SwapAmountOutRoute" if out else "::SwapAmountInRoute")


def is_swap(m, out):
    d = "token_out" if out else "token_in"
    lim = "token_in_max" if out else "token_out_min"
    if m.op != "adt" or m.args[1] != "Stargate":
        return "not a message to the chain"
    url, val = fld(m, "type_url"), fld(m, "value")
    if url is not S("/osmosis.poolmanager.v1beta1.MsgSwapExactAmount" + ("Out" if out else "In")):
        return "not an exact-%s swap" % ("output" if out else "input")
    if val.op != "app" or not str(val.args[0]).endswith("to_proto_bytes"):
        return "the message is not encoded"
    b = val.args[1]
    tok = fld(b, d)
    if plain(fld(b, "sender")) is not sym("sender"):
        return "the sender is not the one given"
    if not is_routes(fld(b, "routes"), out):
        return "the hops are not the route's own, in order"
    if tok.op != "adt" or tok.args[1] != "Some" or plain(fld(tok.args[2], "denom")) is not sym(d) or plain(fld(tok.args[2], "amount")) is not sym(d + "_amount"):
        return "the coin is not the one given"
    if plain(fld(b, lim + "_amount")) is not sym(lim):
        return "the limit is not the one given"
    return None


def is_estimate(x, out):
    d = "token_out" if out else "token_in"
    if x.op == "adt" and x.args[1] == "Ok":
        x = x.args[2]
    y = payload_of(x) or x
    if y.op != "app" or str(y.args[0]).split("::")[-1] not in ("parse", "from_str"):
        return "the estimate is not the chain's answer"
    f = y.args[-1]
    if f.op != "fld" or f.args[1] != ("token_in_amount" if out else "token_out_amount"):
        return "the estimate is not the amount the chain answers"
    me = sym("self")
    rs = list(dict.fromkeys(z for z in subterms(f) if z.op == "comp"))
    if len(rs) != 1 or not is_routes(rs[0], out):
        return "the chain is not asked about the route's own hops, in order"
    if not any(z in (fld(idx(me, I(0)), "pool_id"), fld(idx(fld(me, "0"), I(0)), "pool_id")) for z in subterms(f)):
        return "the chain is not asked under the first hop's pool"
    if not any(plain(z) is sym(d) and z is not sym(d) for z in subterms(f)):
        return "the chain is not asked about the coin given"
    want = "EstimateSwapExactAmountOut" if out else "EstimateSwapExactAmountIn"
    alt = "estimate_swap_exact_amount_out" if out else "estimate_swap_exact_amount_in"
    if not any(z.op == "str" and z.args[0].endswith("/" + want) or z.op == "app" and str(z.args[0]).endswith("::" + alt) for z in subterms(f)):
        return "not an exact-%s estimate" % ("output" if out else "input")
    return None


# ------------------------------------------------------------------- I05
HELPERS = (("IbcCore", "core", CORE), ("IbcPeriphery", "periphery", PERI))


def named(p, name):
    return next((i for i in range(len(p.types)) if p.tname(i) == name), None)


def i05(c, tier):
    X = c.contract(API)
    p = X.p
    for helper, api, crate in HELPERS:
        decl = declared(c, api)
        calls = asks = 0
        fns = [n for n in list(p.roots) + list(p.picked) if re.search(r"helpers::(\w+::)*%s::\w+$" % helper, n)]
        for f in sorted(fns):
            m = f.split("::")[-1]
            w = "%s::%s" % (helper, m)
            e = X.run(f)
            me = (sym("self"), fld(sym("self"), "0"))
            for t in e.traces:
                if t.err:
                    continue
                q = t.ret if t.ret.op == "qry" else t.val if t.ok else t.ret
                q = payload_of(q) if q is not None and payload_of(q) is not None else q
                if q.op == "qry":
                    asks += 1
                    if c.ob("asks-the-contract", w, len(q.args) == 3 and smart(q.args[2]) is not None, "not a query of the contract", t):
                        to, msg = smart(q.args[2])
                        if m not in decl and msg.op == "sym":
                            # passes on the query it is given: judged where it is called
                            asks -= 1
                            c.ob("asks-the-contract", w, plain(to) in me, "the contract asked is not the one named", t)
                            continue
                        c.ob("asks-the-contract", w, plain(to) in me, "the contract asked is not the one named", t)
                        asked(c, w, crate, api, decl, m, msg, q.args[1], t)
                elif m == "addr":
                    c.ob("address", w, t.ret in me, "not the address of the contract", t)
                elif q.op == "adt" and q.args[1] in ("Wasm", "Execute"):
                    calls += 1
                    x = fld(q, "0") if q.args[1] == "Wasm" else q
                    ok = x.op == "adt" and x.args[1] == "Execute"
                    if not c.ob("calls-the-contract", w, ok and plain(fld(x, "contract_addr")) in me, "not a call of the contract named", t):
                        continue
                    b = fld(x, "msg")
                    c.ob("passes-the-message", w, b.op == "json" and b.args[-1] is sym("msg"), "the message is not the one given", t)
                    for z in e.eng.jsonty.get(b) or {None}:
                        have = structure(c, API, z) if z is not None else None
                        want = structure(c, crate, msgtype(c, crate, "execute"))
                        c.ob("message-of-the-contract", w, have is not None and wire.differs(have, want) is None, "the messages it takes are not those of the contract", t)
                    f_ = fld(x, "funds")

                    takes = "funds" in [nm for nm, pl in e.inst.body["names"] if not pl[1] and pl[0] <= e.inst.body["argc"]]
                    c.ob("passes-the-funds", w, f_ is sym("funds") if takes else f_.op == "arr" and not f_.args, "the coins are not the ones given", t)
                else:
                    c.ob("readable", w, False, "what the helper does is not known", t)
        c.floor("vacuity", helper + " calls", calls, 2)
        if helper == "IbcCore":
            c.floor("vacuity", helper + " queries", asks, 5)


def smart(r):
    """(contract, message) of a smart query"""
    if r.op == "adt" and r.args[1] == "Wasm":
        r = fld(r, "0")
    if r.op != "adt" or r.args[1] != "Smart" or fld(r, "msg").op != "json":
        return None
    return fld(r, "contract_addr"), fld(r, "msg").args[-1]


def asked(c, w, crate, api, decl, method, msg, answer, t):
    p = c.contract(API).p
    if not c.ob("query-known", w, msg.op == "adt", "the query asked is not known", t):
        return
    ty = named(p, msg.args[0])
    have = structure(c, API, ty) if ty is not None else None
    want = structure(c, crate, msgtype(c, crate, "query"))
    c.ob("query-of-the-contract", w, have is not None and want is not None and wire.differs(have, want) is None, "not a query of the contract", t)
    if ty is None:
        return
    names = {v: k for k, v in wires(c).variants(p, ty).items()}
    name = names.get(msg.args[1])
    c.ob("query-named", w, name == method, "%s asks %s" % (method, name), t)
    v = next(v for v in p.types[ty]["v"] if v["n"] == msg.args[1])
    for f, _ in v["f"]:
        c.ob("query-arguments", w, optsame(t, fld(msg, f), sym(f)), "the field %s is not the argument given" % f, t)
    z = named(p, answer.args[0]) if answer.op == "str" else None
    have = structure(c, API, z) if z is not None else None
    want = structure(c, API, decl[name]) if name in decl else None
    c.ob("answer-read-as-declared", w, have is not None and want is not None and wire.differs(have, want) is None, "the answer is not read as the type declared for it", t)


def optsame(t, a, b):
    return same(t, a, b) or optcase(t, b) is not None and same(t, a, norm_opt(t, b))
