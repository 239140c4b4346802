"""Events: what a message reports about itself is what it did.

The attributes of every successful trace are read as a map; each one that
names a party, a denom, an amount or a setting has to be the term the trace
itself pays, records or was given."""
from ..models import mulfloor
from . import core, core2, drop, peri
from .core import DENOM, EXPIRES, FEE, ONREB, RDENOM, REB, RSV, TS, UNITS, arg_addr
from .lib import *


def attributes(t):
    """{key: value} of the response; None when it is not a plain list"""
    a = fld(t.val, "attributes")
    if a.op != "arr":
        return None
    r = {}
    for x in a.args:
        k, v = fld(x, "key"), fld(x, "value")
        if k.op != "str" or k.args[0] in r:
            return None
        r[k.args[0]] = v
    return r


def text(x):
    """the value written out as text"""
    return x.args[0] if x.op == "to_string" else x


def said(t, v, x):
    """v is x as text"""
    if callable(x):
        return x(v)
    if isinstance(x, str):
        return v.op == "str" and v.args[0] == x
    return x is not None and same(t, text(v), text(x))


def reports(c, t, w, want, n):
    a = attributes(t)
    if not c.ob("events-known", w, a is not None, "the attributes of the response are not known, or one key is given twice", t):
        return
    for k, x in want.items():
        n[0] += 1
        if k not in a:
            c.ob("reported-truly", w, False, "does not report '%s'" % k, t)
            continue
        c.ob("reported-truly", w, said(t, a[k], x), "reports %s as '%s'" % (brief(a[k], 160), k), t)


def opt_text(t, o, none):
    """an optional text, or the word for none"""
    k = optcase(t, o)
    return none if k == "None" else SOME(o) if k == "Some" else None


def c35(c, tier):
    e = core.execute(c)
    if not e:
        return
    n = [0]
    P = F(MSG, ":Gov.0")

    def ev(path, method, more):
        for t in core.ok(c, e, *path):
            w = "execute " + variant_name(t)
            d = {"method": method, "executor": SENDER}
            d.update(more(t))
            reports(c, t, w, d, n)

    def trade(kind):
        def f(t):
            d = t.arg("target_denom")
            r = {"denom": d}
            res = t.holds(eq(RDENOM, d))
            if res:
                r["is_reserve"] = "true"
                ex, cur, pos = core2.keyed_get(UNITS, d)
                if kind == "Deflate":
                    moved = sub(cur, core2.keyed_get(F(REB, "deflation"), d)[1])
                else:
                    moved = core2.keyed_get(RSV, d)[1]
                r["amount_in"] = r["amount_out"] = mulfloor(TS, moved)
            elif res is False:
                r["is_reserve"] = "false"
                m = core2.swap_msg(t)
                if m is not None:
                    if kind == "Deflate":
                        pc = core.proto_coin(m.body, "token_out")
                        r["amount_in"], r["amount_out"] = core2.unstr(fld(m.body, "token_in_max_amount")), pc and pc[1]
                    else:
                        pc = core.proto_coin(m.body, "token_in")
                        r["amount_in"], r["amount_out"] = pc and pc[1], core2.unstr(fld(m.body, "token_out_min_amount"))
            return r

        return f

    def burned(t):
        s = t.final("total_supply")
        return {"redeem_to": arg_addr(t, t.arg("redeem_to"), SENDER), "amount": sub(TS, s) if core.saved(s) else None}

    m = lambda v: F(P, ":" + v)
    ev(("Mint",), "mint", lambda t: {"receiver": arg_addr(t, t.arg("receiver"), SENDER), "refund_to": arg_addr(t, t.arg("refund_to"), SENDER), "amount": t.arg("amount")})
    ev(("Burn",), "burn", burned)
    ev(("Realize",), "realize", lambda t: {})
    ev(("Gov", "Pause"), "gov::pause", lambda t: {"expires_at": opt_text(t, fld(m("Pause"), "expires_at"), "never")})
    ev(("Gov", "Release"), "gov::release", lambda t: {})
    ev(("Gov", "UpdateGov"), "gov::update_gov", lambda t: {"pending_gov": fld(m("UpdateGov"), "0")})
    ev(("Gov", "AcceptGov"), "gov::accept_gov", lambda t: {"gov": LD("pending_gov")})
    ev(("Gov", "RevokeGov"), "gov::revoke_gov", lambda t: {"pending_gov": LD("pending_gov")})
    ev(("Gov", "UpdateFeeStrategy"), "gov::update_fee", lambda t: {})
    ev(("Gov", "UpdateRebalanceManager"), "gov::update_rebalance_manager", lambda t: {"new_manager": opt_text(t, fld(m("UpdateRebalanceManager"), "0"), "none")})
    ev(("Gov", "UpdateReserveDenom"), "gov::update_reserve_denom", lambda t: {"new_denom": fld(m("UpdateReserveDenom"), "0")})

    def info(t):
        ks = [key for k, key, v, x in writes(t, "trade_infos")]
        x = m("UpdateTradeInfo")
        return {
            "denom_in": fld(x, "denom"), "denom_out": fld(ks[0], "1") if len(ks) == 1 else None, "cooldown": fld(x, "cooldown"),
            "max_trade_amount": fld(x, "max_trade_amount"), "routes": lambda v: contains(v, fld(x, "routes")),
        }

    ev(("Gov", "UpdateTradeInfo"), "gov::update_trade_info", info)
    ev(("Rebalance", "Init"), "rebalance::init", lambda t: {"manager": opt_text(t, t.arg("manager"), "none")})
    ev(("Rebalance", "Finalize"), "rebalance::finalize", lambda t: {"finalized_at": fld(fld(ENV, "block"), "height")})
    for k in ("Deflate", "Inflate"):
        ev(("Rebalance", "Trade", k), k.lower(), trade(k))
    r = c.entry(core.CRATE, "contract::reply")
    if r:
        for t in r.ok():
            v = t.final("config")
            reports(c, t, "reply", {"method": "reply_instantiate", "new_denom": fld(v, "index_denom") if core.saved(v) else None}, n)
    r = c.entry(core.CRATE, "contract::instantiate")
    if r:
        for t in r.ok():
            reports(c, t, "instantiate", {"method": "instantiate"}, n)
    c.floor("vacuity", "attributes", n[0], 100)


def a15(c, tier):
    e = drop.execute(c)
    if not e:
        return
    n = [0]
    for op in ("Fund", "Close"):
        for t in drop.ok(c, e, op, n=4):
            r = drop.record(c, t)
            if r is None:
                continue
            d = {"action" if op == "Fund" else "method": op.lower(), "executor": SENDER, "airdrop_type": r.kind.lower(), "airdrop_id": r.id}
            if op == "Fund":
                d["amount"] = sub(r.n("total_amount"), r.o("total_amount"))
            else:
                d["redeemed"] = sub(r.o("total_amount"), r.o("total_claimed"))
            reports(c, t, drop.W(t), d, n)
    for k in drop.KINDS:
        for t in drop.ok(c, e, "Claim", k, n=4):
            r = drop.record(c, t)
            if r is None:
                continue
            d = {
                "action": "claim", "executor": SENDER, "airdrop_type": k.lower(), "airdrop_id": r.id,
                "claimer": arg_addr(t, t.arg("account"), SENDER), "amount": sub(r.n("total_claimed"), r.o("total_claimed")),
            }
            if k == "Bearer":
                d["signer"] = r.o("signer")
            reports(c, t, drop.W(t), d, n)
        for t in drop.ok(c, e, "Register", k, n=2):
            ws = [(key, v) for kd, key, v, _ in writes(t, "airdrops") if kd == "save"]
            if not c.ob("one-record", drop.W(t), len(ws) == 1, "does not add exactly one record", t):
                continue
            new = F(ws[0][1], ":%s.0" % k)
            ls = [key for kd, key, v, _ in writes(t, "labels")]
            d = {"action": "register", "executor": SENDER, "id": ws[0][0], "type": k.lower(), "merkle_root": fld(new, "merkle_root"), "total_amount": fld(new, "total_amount"), "label": "" if not ls else ls[0] if len(ls) == 1 else None}
            if k == "Bearer":
                d["signer"] = fld(new, "signer")
            reports(c, t, drop.W(t), d, n)
    c.floor("vacuity", "attributes", n[0], 60)


METHODS = {"MintExactAmountIn": "mint_exact_amount_in", "MintExactAmountOut": "mint_exact_amount_out", "BurnExactAmountIn": "burn_exact_amount_in", "BurnExactAmountOut": "burn_exact_amount_out"}


def p12(c, tier):
    e = peri.execute(c)
    if not e:
        return
    n = [0]
    paid = fld(mk("idx", FUNDS, I(0)), "amount")

    def coin(t, den, x):
        """'<amount><denom>'"""
        return lambda v: den is not None and x is not None and same(t, fld(text(v), "denom"), den) and same(t, fld(text(v), "amount"), x)

    for t in core.ok(c, e, "FinishOperation"):
        ms = [m for m in messages(t) or [] if m.kind == "send"]
        pc = coins1(ms[0].coins) if len(ms) == 1 else None
        reports(c, t, peri.W(t), {
            "method": "finish_operation", "refund_to": ms[0].to if ms else None, "refund_asset": t.arg("refund_asset"),
            "amount": pc[1] if pc else None,
        }, n)
    for op in peri.OPS:
        for t in core.ok(c, e, op):
            o = peri.Op(t)
            d = {"method": METHODS[op], "executor": SENDER}
            if op == "MintExactAmountIn":
                ms = o.calls("Mint")
                d["input"] = coin(t, o.traded, paid)
                d["min_output"] = coin(t, o.index, o.net(fld(ms[0].body, "amount")) if len(ms) == 1 else None)
            elif op == "MintExactAmountOut":
                x = t.arg("output_amount")
                d["max_input"] = coin(t, o.traded, paid)
                d["output"] = coin(t, o.index, o.net(x))
                # (what is left of the payment after the simulated cost)
                d["refund"] = lambda v: o.total(sub(paid, text(v)), o.each(x))
            elif op == "BurnExactAmountIn":
                d["input_amount"] = coin(t, o.index, paid)
                d["min_output_amount"] = coin(t, o.traded, t.arg("min_output_amount"))
            else:
                d["max_input"] = coin(t, o.index, paid)
                d["output"] = coin(t, o.traded, o.want)
            reports(c, t, peri.W(t), d, n)
    c.floor("vacuity", "attributes", n[0], 25)
