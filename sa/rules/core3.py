"""Properties of the index token contract (ibcx-core): queries and storage
layout."""
from .core2 import *
from .core import CRATE, Refund, refund_rules


def answer(t):
    """the answer of a query trace"""
    r = t.ret
    if r.op == "adt" and r.args[1] == "Ok":
        v = r.args[2]
        if v.op == "json":
            return v.args[0]
    return None


def queried_times(t):
    """the times a query is answered for: the one given, else now; both when
    the answer does not depend on which"""
    o = t.arg("time")
    k = optcase(t, o)
    return [SOME(o)] if k == "Some" else [NOW] if k == "None" else [SOME(o), NOW]


def now_units(t, now):
    """the value the units have at `now`, as (case, check(U))"""
    s = streaming_state(t, now)
    if s == "active":
        return lambda U: accrued_units(t, U, now)
    if s in ("idle", "off"):
        return lambda U: same(t, U, UNITS)
    return lambda U: False


def spent_ok(t, s, U, A):
    """s = per unit the requirement max(1, floor(unit * A))"""
    base = root_of(U)
    u = elem(U, base)
    if u is None or s.op != "comp" or s.args[0] is not base:
        return False
    req = mulfloor(A, fld(u, "1"))
    zs = small(req)
    seen = set()
    for g, ys in s.args[1]:
        if len(ys) != 1 or fld(ys[0], "denom") is not fld(u, "0"):
            return False
        a = fld(ys[0], "amount")
        if not g and a.op == "max" and set(a.args) == {req, I(1)}:
            seen |= {True, False}
        elif len(g) == 1 and (g[0] in zs) and a in (I(1), add(req, I(1)) if g[0][0] is zs[0][0] else I(1)):
            seen.add(True)
        elif len(g) == 1 and (g[0][0], not g[0][1]) in zs and a is req:
            seen.add(False)
        else:
            return False
    atoms = {x for g, _ in s.args[1] for x, _ in g}
    return seen == {True, False} and len(atoms) <= 1


# ------------------------------------------------------------------ C20
def c20(c, tier):
    q = c.entry(CRATE, "contract::query")
    if not q:
        return
    for t in q.traces:
        if t.ok:
            c.ob("queries-write-nothing", variant_name(t), not t.eff, "a query has effects", t)

    def qs(v, n=1):
        ts = [t for t in q.ok(v)]
        c.floor("vacuity", v, len(ts), n)
        r = []
        for t in ts:
            x = answer(t)
            if c.ob("answer-known", v, x is not None, "the answer is not known", t):
                r.append((t, x))
        return r

    def timed(v, n):
        r = []
        st = {}
        for t, x in qs(v, n):
            for now in queried_times(t):
                if v != "GetConfig":
                    s = streaming_state(t, now)
                    st[s] = st.get(s, 0) + 1
                    if not c.ob("accrual-decided", v, s is not None, "whether fees accrue up to the queried time is not decided", t):
                        continue
                r.append((t, x, now))
        if v != "GetConfig":
            for s in ("active", "idle", "off"):
                c.floor("vacuity", "%s %s" % (v, s), st.get(s, 0), 1)
        return r

    for t, x in qs("GetTotalSupply"):
        c.ob("total-supply", "GetTotalSupply", same(t, x, TS), "reports %s" % brief(x, 200), t)
    for t, x in qs("GetBalance"):
        good = x.op == "fld" and x.args[1] == "amount" and any_sub(x, lambda y: y.op == "qry" and y.args[0] == "query_balance" and y.args[2:] == (t.arg("account"), DENOM))
        c.ob("balance", "GetBalance", good, "does not report the account's balance of the index denom", t)
    for t, x, now in timed("GetConfig", 4):
        w = "GetConfig"
        for f, o in (("gov", GOV), ("index_denom", DENOM), ("reserve_denom", RDENOM)):
            c.ob("config-" + f, w, same(t, fld(x, f), o), "does not report the recorded %s" % f, t)
        k = t.holds(HAS("pending_gov"))
        pg = fld(x, "pending_gov")
        c.ob("config-pending", w, (k is True and optcase(t, pg) == "Some" and same(t, SOME(pg), LD("pending_gov"))) or (k is False and optcase(t, pg) == "None"), "does not report the nominee", t)
        p, ex = F(x, "paused.paused"), F(x, "paused.expires_at")
        on, ek = t.holds(PAUSED), optcase(t, EXPIRES)
        live = t.holds(lt(now, SOME(EXPIRES))) if ek == "Some" else None
        if on is not False and ek == "Some" and live is False:
            good = (p is FALSE or t.holds(p) is False) and optcase(t, ex) == "None"
        elif on is False:
            good = p is FALSE or same(t, p, PAUSED)
        else:
            good = (ek == "None" or live is True) and (p is TRUE or same(t, p, PAUSED)) and same(t, ex, EXPIRES)
        c.ob("config-pause", w, good, "does not report the pause in force at the queried time", t)
    for t, x, now in timed("GetFee", 6):
        w = "GetFee"
        for f in FEE_POLICY:
            c.ob("fee-" + f, w, same(t, fld(x, f), F(FEE, f)), "does not report the recorded %s" % f, t)
        s, o = streaming_state(t, now), fld(x, "streaming_fee")
        if s == "off":
            c.ob("fee-streaming", w, optcase(t, o) == "None", "reports a streaming fee where there is none", t)
            continue
        if not c.ob("fee-streaming", w, optcase(t, o) == "Some", "does not report the streaming fee", t):
            continue
        o = SOME(o)
        c.ob("fee-streaming", w, same(t, fld(o, "rate"), RATE) and same(t, fld(o, "freeze"), FROZEN), "misreports rate or freeze", t)
        if s == "active":
            good = accrued_list(t, fld(o, "collected"), now) and same(t, fld(o, "last_collected_at"), now)
        else:
            good = same(t, fld(o, "collected"), COLLECTED) and same(t, fld(o, "last_collected_at"), LAST)
        c.ob("fee-accrued", w, good, "does not report the fees accrued up to the queried time", t)
    for t, x, now in timed("GetPortfolio", 6):
        w = "GetPortfolio"
        U = fld(x, "units")
        c.ob("portfolio-units", w, now_units(t, now)(U), "does not report the units at the queried time", t)
        c.ob("portfolio-supply", w, same(t, fld(x, "total_supply"), TS), "does not report the recorded supply", t)
        c.ob("portfolio-assets", w, pays_units(t, fld(x, "assets"), TS, U), "assets are not unit x supply, rounded down", t)
    for t, x in qs("GetRebalance", 2):
        r = fld(x, "rebalance")
        k = t.holds(ONREB)
        good = (k is False and optcase(t, r) == "None") or (k is True and optcase(t, r) == "Some" and all(same(t, fld(SOME(r), f), fld(REB, f)) for f in ("manager", "deflation", "inflation")))
        c.ob("rebalance", "GetRebalance", good, "does not report the rebalance in progress", t)
    for t, x in qs("GetTradeInfo", 2):
        r = fld(x, "trade_info")
        key = tup(t.arg("denom_in"), t.arg("denom_out"))
        k = t.holds(HAS("trade_infos", key))
        ti = LD("trade_infos", key)
        good = (k is False and optcase(t, r) == "None") or (k is True and optcase(t, r) == "Some" and trade_info(t, SOME(r), key.args[0], key.args[1], ti))
        c.ob("trade-info", "GetTradeInfo", good, "does not report what is recorded for the pair", t)
    for t, x in qs("ListTradeInfo", 4):
        w = "ListTradeInfo"
        base = x
        src = None
        if x.op == "comp" and len(x.args[1]) == 1 and not x.args[1][0][0] and len(x.args[1][0][1]) == 1:
            y = x.args[1][0][1][0]
            e = el(x.args[0], 0)
            kv = variant_payload(e, "Ok") if variant_payload(e, "Ok") in subterms(y) else e
            src = [z for z in subterms(x) if z.op == "range"]
            src = src[0] if len(src) == 1 else None
            good = src is not None and src.args[0] is mk("prefix", "trade_infos", UNIT, t.arg("denom_in")) and trade_info(t, y, t.arg("denom_in"), fld(kv, "0"), fld(kv, "1"))
        else:
            good = False
        c.ob("list-trade-info", w, good, "does not list the pairs recorded for the denom", t)
    for t, x, now in timed("SimulateBurn", 6):
        w = "SimulateBurn"
        A = t.arg("amount")
        k = optcase(t, F(FEE, "burn_fee"))
        fe = fee_value(t, SOME(F(FEE, "burn_fee")), A, False) if k == "Some" else ZERO
        if not c.ob("burn-fee-decided", w, k is not None, "the fee case is not decided", t):
            continue
        Bn = sub(A, fe)
        c.ob("simulated-burn", w, same(t, fld(x, "burn_amount"), Bn), "the simulated burn is not the amount less the burn fee", t)
        c.ob("simulated-redemption", w, any(pays_units(t, fld(x, "redeem_amount"), Bn, U) for U in unit_cands(t, now)), "the simulated redemption is not what a burn would pay", t)
    some = 0
    for t, x, now in timed("SimulateMint", 12):
        w = "SimulateMint"
        A = t.arg("amount")
        k = optcase(t, F(FEE, "mint_fee"))
        if not c.ob("mint-fee-decided", w, k is not None, "the fee case is not decided", t):
            continue
        fe = fee_value(t, SOME(F(FEE, "mint_fee")), A, True) if k == "Some" else ZERO
        c.ob("simulated-mint", w, same(t, fld(x, "mint_amount"), sub(A, fe)), "the simulated mint is not the amount less the mint fee", t)
        us = unit_cands(t, now)
        sp = fld(x, "fund_spent")
        if not c.ob("simulated-spending", w, any(spent_ok(t, sp, U, A) for U in us), "the simulated spending is not what a mint requires: " + brief(sp, 300), t):
            continue
        kf = optcase(t, t.arg("funds"))
        rs = [r for r in (Refund(t, fld(x, "refund_amount"), U) for U in us) if r.kf is not None and r.u is not None]
        f0 = SOME(t.arg("funds")) if kf == "Some" else sp if kf == "None" else None
        if not c.ob("simulated-refund", w, f0 is not None and bool(rs) and rs[0].init is f0, "the simulated refund is not the funds (default: the spending) less the spending", t):
            continue
        if kf == "Some":
            some += 1
            refund_rules(c, t, w, rs[0], A, f0)
    c.floor("vacuity", "SimulateMint with funds", some, 6)


def unit_cands(t, now):
    """spellings of the units at `now`"""
    s = streaming_state(t, now)
    if s != "active":
        return [UNITS]
    u = el(UNITS, 0)
    r = []
    for f in fee_units(fld(u, "1"), now):
        r.append(mk("comp", UNITS, (((), (tup(fld(u, "0"), sub(fld(u, "1"), f)),)),)))
    return r


def trade_info(t, x, d_in, d_out, ti):
    return same(t, fld(x, "denom_in"), d_in) and same(t, fld(x, "denom_out"), d_out) and all(
        same(t, fld(x, f), fld(ti, f)) for f in ("routes", "cooldown", "max_trade_amount", "last_traded_at"))


# ------------------------------------------------------------------ C21
CELLS = {
    "ibcx_core": ["config", "pending_gov", "fee", "total_supply", "index_units", "rebalances", "reserve_units", "trade_infos", "contract_info"],
    "ibcx_airdrop": ["airdrops", "latest_airdrop", "labels", "claim_logs", "contract_info"],
    "ibcx_periphery": ["context", "contract_info"],
}


def layout(c, crate):
    """every cell has one kind and one value type over all entry points, and
    all the cells the rules speak of are distinct and in use"""
    cells = {}
    for nm, en in c.contract(crate).entries().items():
        for ns, tys in getattr(en.eng, "cells", {}).items():
            for ty in tys:
                cells.setdefault(ns, {}).setdefault(ty, set()).add(nm)
    for ns, tys in sorted(cells.items()):
        if ns == "contract_info":
            continue
        c.ob("one-type-per-key", "%s %s" % (crate, ns), len(tys) == 1, "the storage key %s is shared by records of different types: %s" % (ns, "; ".join(sorted(tys))))
        c.ob("known-key", "%s %s" % (crate, ns), not ns.startswith("?"), "a storage access whose key is not a constant: " + ns)
    for ns in CELLS[crate]:
        c.ob("record-has-own-key", "%s %s" % (crate, ns), ns in cells or ns == "contract_info", "no record is kept under the storage key %s any more: deployed state would not be found, or two records share a key" % ns)
    return cells


def c21(c, tier):
    layout(c, CRATE)


# ------------------------------------------------------------------ C29
def addr_given(t, x, given):
    return same(t, x, given) and validated(t, given)


def c29(c, tier):
    """accepted settings are recorded exactly as they were given"""
    n = 0

    def rec(t, w, ns, given, key=UNIT, kept=()):
        """the record ends as given; `kept` fields stay; nothing else is in it"""
        nonlocal n
        v, old = t.final(ns, key), LD(ns, key)
        if v is None and w != "instantiate":
            v = old
        if not c.ob("recorded-as-given", w, saved(v), "no record '%s' is left under its key" % ns, t):
            return
        for f, x in given.items():
            n += 1
            c.ob("recorded-as-given", w, x(fld(v, f)) if callable(x) else same(t, fld(v, f), x), "%s.%s is recorded as %s, not as given" % (ns, f, brief(fld(v, f), 160)), t)
        for f in kept:
            n += 1
            c.ob("recorded-as-given", w, same(t, fld(v, f), fld(old, f)), "%s.%s changes to %s" % (ns, f, brief(fld(v, f), 160)), t)

    def fees(t, g):
        o = fld(g, "streaming_fee")

        def streaming(v):
            k = optcase(t, o)
            if k != "Some":
                return optcase(t, v) == k == "None"
            if optcase(t, v) != "Some":
                return False
            s = SOME(v)
            col = fld(s, "collected")
            return (
                all(same(t, fld(s, f), fld(SOME(o), f)) for f in ("rate", "freeze"))
                and (col is mk("arr") or (col.op == "arr" and not col.args))
                and same(t, fld(s, "last_collected_at"), NOW)
            )

        return dict(collector=lambda v: addr_given(t, v, fld(g, "collector")), mint_fee=fld(g, "mint_fee"), burn_fee=fld(g, "burn_fee"), streaming_fee=streaming)

    e = c.entry(CRATE, "contract::instantiate")
    if e:
        sane(c, e)
        for t in e.ok():
            w = "instantiate"
            rec(t, w, "fee", fees(t, F(MSG, "fee")))
            rec(t, w, "config", {
                "gov": lambda v: addr_given(t, v, F(MSG, "gov")),
                "reserve_denom": F(MSG, "reserve_denom"),
                "paused": lambda v: t.holds(fld(v, "paused")) is False or fld(v, "paused") is FALSE,
            })
            v = t.final("total_supply")
            c.ob("recorded-as-given", w, saved(v) and same(t, v, I(0)), "the supply of a new token is not zero", t)
            v = t.final("index_units")
            c.ob("recorded-as-given", w, saved(v) and same(t, v, F(MSG, "index_units")), "the basket is recorded as " + brief(v, 200), t)
            n += 2
            for ns in ("pending_gov", "rebalances"):
                c.ob("recorded-as-given", w, not saved(t.final(ns)), "a new token starts with a '%s'" % ns, t)
            ms = messages(t) or []
            c.ob("recorded-as-given", w, len(ms) == 1 and ms[0].kind == "proto" and ms[0].body is not None and same(t, fld(ms[0].body, "subdenom"), F(MSG, "index_denom")), "the token is not created under the name given", t)
    e = execute(c)
    if not e:
        return
    P = F(MSG, ":Gov.0")
    for t in ok(c, e, "Gov", "UpdateFeeStrategy"):
        rec(t, "execute Gov.UpdateFeeStrategy", "fee", fees(t, F(P, ":UpdateFeeStrategy.0")))
    for t in ok(c, e, "Gov", "UpdateReserveDenom"):
        rec(t, "execute Gov.UpdateReserveDenom", "config", {"reserve_denom": F(P, ":UpdateReserveDenom.0")}, kept=("gov", "paused", "index_denom"))
    for t in ok(c, e, "Gov", "UpdateGov"):
        v = t.final("pending_gov")
        n += 1
        c.ob("recorded-as-given", "execute Gov.UpdateGov", saved(v) and addr_given(t, v, F(P, ":UpdateGov.0")), "the nominee is recorded as " + brief(v, 160), t)
    for t in ok(c, e, "Gov", "UpdateRebalanceManager"):
        rec(t, "execute Gov.UpdateRebalanceManager", "rebalances", {"manager": lambda v: opt_addr_ok(t, v, F(P, ":UpdateRebalanceManager.0"))}, kept=("deflation", "inflation"))
    for t in ok(c, e, "Gov", "Pause"):
        rec(t, "execute Gov.Pause", "config", {"paused": lambda v: same(t, fld(v, "paused"), TRUE) and same(t, fld(v, "expires_at"), F(P, ":Pause.expires_at"))}, kept=("gov", "reserve_denom", "index_denom"))
    for t in ok(c, e, "Gov", "UpdateTradeInfo"):
        m = F(P, ":UpdateTradeInfo")
        ws = [(k, key) for k, key, v, x in writes(t, "trade_infos")]
        w = "execute Gov.UpdateTradeInfo"
        r = fld(m, "routes")
        if not c.ob("recorded-as-given", w, len(ws) == 1 and ws[0][0] == "save", "not exactly one pair is registered", t):
            continue
        key = ws[0][1]
        n += 1
        c.ob("recorded-as-given", w, same(t, fld(key, "0"), fld(m, "denom")), "the pair is registered for %s" % brief(key, 160), t)
        rec(t, w, "trade_infos", {
            "routes": r, "cooldown": fld(m, "cooldown"), "max_trade_amount": fld(m, "max_trade_amount"),
            "last_traded_at": lambda v: optcase(t, v) == "None",
        }, key=key)
    c.floor("vacuity", "settings", n, 60)
