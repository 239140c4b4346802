"""Properties of the index token contract (ibcx-core): authority, pause,
rebalance phases, minting, burning."""
from .. import terms
from .lib import *
from .logic import no_element
from .shapes import *

CRATE = "ibcx_core"
CFG, FEE, TS, UNITS, RSV, REB, PEND = (LD(n) for n in ("config", "fee", "total_supply", "index_units", "reserve_units", "rebalances", "pending_gov"))
GOV = F(CFG, "gov")
DENOM = F(CFG, "index_denom")
RDENOM = F(CFG, "reserve_denom")
ONREB = HAS("rebalances")
SF = SOME(F(FEE, "streaming_fee"))
PAUSED = F(CFG, "paused.paused")
EXPIRES = F(CFG, "paused.expires_at")
MANAGER = F(REB, "manager")
COLLECTOR = F(FEE, "collector")

MINTURL = "/osmosis.tokenfactory.v1beta1.MsgMint"
BURNURL = "/osmosis.tokenfactory.v1beta1.MsgBurn"
CREATEURL = "/osmosis.tokenfactory.v1beta1.MsgCreateDenom"


def W(t):
    return "execute " + variant_name(t)


def execute(c):
    e = c.entry(CRATE, "contract::execute")
    if e is None:
        return None
    sane(c, e)
    return e


def ok(c, e, *path):
    ts = e.ok(*path)
    c.floor("vacuity", "execute " + ".".join(path), len(ts), 1)
    return ts


def saved(v):
    return v is not None and v != "del"


def paused_now(t):
    """True / False / None: is the contract effectively paused on entry?"""
    p = t.holds(PAUSED)
    if p is False:
        return False
    s = optcase(t, EXPIRES)
    if s == "Some":
        live = t.holds(lt(NOW, SOME(EXPIRES)))
        if live is False:
            return False
        return True if (p and live) else None
    if s == "None":
        return True if p else None
    return None


def arg_addr(t, o, default):
    """address resolved from an optional textual argument"""
    k = optcase(t, o)
    if k == "Some":
        return SOME(o)
    if k == "None":
        return default
    return None


def validated(t, x):
    return t.holds(mk("valid_addr", x)) is True


def opt_addr_ok(t, m, a):
    """option m is the validated address of option a, or both are absent"""
    k = optcase(t, a)
    if k == "None":
        return optcase(t, m) == "None"
    return k == "Some" and optcase(t, m) == "Some" and same(t, SOME(m), SOME(a)) and validated(t, SOME(a))


def units_after(t):
    v = t.final("index_units")
    return UNITS if v is None else v


def only_changes(t, ns, fields, key=UNIT):
    v = t.final(ns, key)
    if v is None:
        return True
    if v == "del":
        return False
    old = LD(ns, key)
    if v.op != "adt":
        return v is old
    names = FIELDS.get((v.args[0], v.args[1]), ())
    return all(f in fields or same(t, fld(v, f), fld(old, f)) for f in names)


# ------------------------------------------------------------------ C01
GOV_OPS = [
    ("Gov", "Pause"), ("Gov", "Release"), ("Gov", "UpdateGov"), ("Gov", "RevokeGov"), ("Gov", "UpdateFeeStrategy"),
    ("Gov", "UpdateRebalanceManager"), ("Gov", "UpdateReserveDenom"), ("Gov", "UpdateTradeInfo"), ("Rebalance", "Init"),
]
FEE_POLICY = ["collector", "mint_fee", "burn_fee"]


def is_gov(t):
    return t.holds(eq(SENDER, GOV)) is True


def fee_policy_changed(t):
    v = t.final("fee")
    if v is None:
        return None
    if v == "del":
        return "fee"
    for f in FEE_POLICY:
        if not same(t, fld(v, f), F(FEE, f)):
            return f
    o, n = F(FEE, "streaming_fee"), fld(v, "streaming_fee")
    if same(t, o, n):
        return None
    if optcase(t, o) != optcase(t, n) or optcase(t, n) is None:
        return "streaming_fee"
    if optcase(t, n) == "Some" and not same(t, fld(SOME(n), "rate"), F(SF, "rate")):
        return "streaming_fee rate"
    return None


def routes_changed(t):
    for k, key, v, x in writes(t, "trade_infos"):
        if k != "save":
            return True
        for f in ("routes", "cooldown", "max_trade_amount"):
            if not same(t, fld(v, f), fld(LD("trade_infos", key), f)):
                return True
    return False


def c01(c, tier):
    e = execute(c)
    if not e:
        return
    for path in GOV_OPS:
        for t in ok(c, e, *path):
            c.ob("governance-sender", W(t), is_gov(t), "succeeds on a trace that does not establish that the sender is the recorded governance", t)
    for t in e.traces:
        if not t.ok:
            continue
        fp = fee_policy_changed(t)
        for what, chg in (
            ("pause state", field_changed(t, "config", "paused")),
            ("reserve denom", field_changed(t, "config", "reserve_denom")),
            ("fee policy", fp is not None),
            ("pending governance", bool(writes(t, "pending_gov")) and t.path != ("Gov", "AcceptGov")),
            ("trade routes or limits", routes_changed(t)),
            ("rebalance plan or manager", any(w[0] != "del" for w in writes(t, "rebalances"))),
        ):
            if chg:
                c.ob("governed-state", W(t) + " changes " + what, is_gov(t), "changes the %s %s without establishing that the sender is the recorded governance" % (what, "(%s)" % fp if what == "fee policy" else ""), t)


# ------------------------------------------------------------------ C02
def c02(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Gov", "AcceptGov"):
        v = t.final("config")
        c.ob("accept-by-nominee", W(t), t.holds(eq(SENDER, PEND)) is True, "accepting governance does not require the sender to be the recorded nominee", t)
        c.ob("accept-installs-nominee", W(t), saved(v) and same(t, fld(v, "gov"), PEND), "accepting governance does not make the nominee the governance", t)
        c.ob("accept-consumes", W(t), t.final("pending_gov") == "del", "accepting governance leaves the nomination in place", t)
        c.ob("accept-only", W(t), only_changes(t, "config", ("gov",)) and set(written(t)) <= {"config", "pending_gov"}, "accepting governance changes something else", t)
    for t in ok(c, e, "Gov", "UpdateGov"):
        v = t.final("pending_gov")
        c.ob("nominate-by-governance", W(t), is_gov(t), "nomination without the governance being the sender", t)
        c.ob("nominate-only-once", W(t), t.holds(HAS("pending_gov")) is False, "a nomination succeeds while another is outstanding", t)
        c.ob("nominate-records", W(t), saved(v) and same(t, v, t.arg("0")) and validated(t, t.arg("0")), "the recorded nominee is not the validated address given", t)
    for t in ok(c, e, "Gov", "RevokeGov"):
        c.ob("revoke-by-governance", W(t), is_gov(t), "revocation without the governance being the sender", t)
        c.ob("revoke-clears", W(t), t.final("pending_gov") == "del", "revocation leaves the nomination in place", t)
    for nm, en in c.contract(CRATE).entries().items():
        if nm in ("instantiate", "query"):
            continue
        for t in en.traces:
            if not t.ok:
                continue
            w = nm + " " + variant_name(t)
            if t.path != ("Gov", "AcceptGov") or nm != "execute":
                c.ob("only-accept-changes-gov", w, not field_changed(t, "config", "gov"), "changes the governance outside acceptance by the nominee", t)
            if nm != "execute" or t.path not in (("Gov", "AcceptGov"), ("Gov", "UpdateGov"), ("Gov", "RevokeGov")):
                c.ob("nomination-untouched", w, not writes(t, "pending_gov"), "writes the pending nomination", t)
    i = c.entry(CRATE, "contract::instantiate")
    if i:
        for t in i.ok():
            v = t.final("config")
            c.ob("initial-governance", "instantiate", saved(v) and same(t, fld(v, "gov"), F(MSG, "gov")) and validated(t, F(MSG, "gov")), "the initial governance is not the validated address given", t)
            c.ob("no-initial-nomination", "instantiate", not writes(t, "pending_gov"), "instantiation records a nominee", t)


# ------------------------------------------------------------------ C03
def c03(c, tier):
    e = execute(c)
    if not e:
        return
    for path in (("Rebalance", "Trade", "Deflate"), ("Rebalance", "Trade", "Inflate"), ("Rebalance", "Finalize")):
        free = 0
        for t in ok(c, e, *path):
            c.ob("during-rebalance", W(t), t.holds(ONREB) is True, "succeeds without a rebalance being in progress", t)
            k = optcase(t, MANAGER)
            c.ob("by-manager", W(t), k == "None" or (k == "Some" and t.holds(eq(SENDER, SOME(MANAGER))) is True), "succeeds although a manager may be appointed and the sender is not known to be it", t)
            if k == "None" and not any(contains(l, SENDER) for l, p in t.lits):
                free += 1
        c.ob("open-without-manager", "execute " + ".".join(path), free > 0, "with no manager appointed the operation still restricts its sender")
    for t in e.traces:
        if t.ok and t.path not in (("Rebalance", "Init"), ("Gov", "UpdateRebalanceManager"), ("Rebalance", "Finalize")):
            c.ob("manager-untouched", W(t), not writes(t, "rebalances"), "writes the rebalance record", t)
    for t in ok(c, e, "Gov", "UpdateRebalanceManager"):
        v = t.final("rebalances")
        good = saved(v) and same(t, fld(v, "deflation"), F(REB, "deflation")) and same(t, fld(v, "inflation"), F(REB, "inflation"))
        c.ob("manager-update-keeps-plan", W(t), good, "replacing the manager changes the plan", t)
        c.ob("manager-update-value", W(t), saved(v) and opt_addr_ok(t, fld(v, "manager"), t.arg("0")), "the recorded manager is not the validated address given (or none)", t)
    for t in ok(c, e, "Rebalance", "Init"):
        v = t.final("rebalances")
        c.ob("init-manager", W(t), saved(v) and opt_addr_ok(t, fld(v, "manager"), t.arg("manager")), "the recorded manager is not the validated address given (or none)", t)


# ------------------------------------------------------------------ C04
def err_is(t, name):
    """does an error trace return the given ContractError variant?"""
    return any_sub(t.ret, lambda y: y.op == "adt" and y.args[0].endswith("ContractError") and y.args[1] == name)


def c04(c, tier):
    e = execute(c)
    if not e:
        return
    for v in ("Mint", "Burn"):
        for t in ok(c, e, v):
            c.ob("gated", W(t), paused_now(t) is False, "succeeds on a trace that does not exclude an unexpired pause", t)
    for t in ok(c, e, "Gov", "Pause"):
        c.ob("pause-not-nested", W(t), paused_now(t) is False, "a pause succeeds while one is in force", t)
        a = t.arg("expires_at")
        k = optcase(t, a)
        c.ob("pause-future-expiry", W(t), k == "None" or (k == "Some" and t.holds(lt(NOW, SOME(a))) is True), "a pause with an expiry that is not in the future succeeds", t)
        v = t.final("config")
        good = saved(v) and fld(fld(v, "paused"), "paused") is TRUE and same(t, fld(fld(v, "paused"), "expires_at"), a)
        c.ob("pause-records", W(t), good, "the recorded pause is not the one requested", t)
        c.ob("pause-only", W(t), only_changes(t, "config", ("paused",)) and set(written(t)) <= {"config"}, "pausing changes something else", t)
    for t in ok(c, e, "Gov", "Release"):
        c.ob("release-needs-pause", W(t), paused_now(t) is True, "a release succeeds while no pause is in force", t)
        v = t.final("config")
        c.ob("release-clears", W(t), saved(v) and fld(fld(v, "paused"), "paused") is FALSE, "release leaves the contract paused", t)
        c.ob("release-only", W(t), only_changes(t, "config", ("paused",)) and set(written(t)) <= {"config"}, "releasing changes something else", t)
    n = 0
    for t in e.traces:
        if t.err and err_is(t, "Paused"):
            n += 1
            c.ob("expired-pause-is-no-pause", W(t), paused_now(t) is True, "refused as paused although no unexpired pause is established", t)
        if t.err and err_is(t, "NotPaused"):
            n += 1
            c.ob("release-allowed", W(t), paused_now(t) is False, "refused as not paused although a pause may be in force", t)
        if t.ok and t.path not in (("Gov", "Pause"), ("Gov", "Release")):
            c.ob("pause-state-untouched", W(t), not field_changed(t, "config", "paused"), "changes the pause state", t)
    c.floor("pause-errors", "execute", n, 3)
    i = c.entry(CRATE, "contract::instantiate")
    for t in i.ok() if i else ():
        v = t.final("config")
        c.ob("starts-unpaused", "instantiate", saved(v) and fld(fld(v, "paused"), "paused") is FALSE, "a new index starts paused", t)


# ------------------------------------------------------------------ C05
def c05(c, tier):
    e = execute(c)
    if not e:
        return
    for path in (("Mint",), ("Burn",), ("Gov", "UpdateFeeStrategy"), ("Gov", "UpdateReserveDenom"), ("Rebalance", "Init")):
        for t in ok(c, e, *path):
            c.ob("not-during-rebalance", W(t), t.holds(ONREB) is False, "succeeds while a rebalance may be in progress", t)
    for t in ok(c, e, "Gov", "UpdateRebalanceManager"):
        c.ob("only-during-rebalance", W(t), t.holds(ONREB) is True, "succeeds although no rebalance may be in progress", t)
    for t in e.traces:
        if not t.ok:
            continue
        r = t.holds(ONREB)
        if writes(t, "total_supply"):
            c.ob("supply-fixed-during-rebalance", W(t), r is False, "changes the recorded supply while a rebalance may be in progress", t)
        if field_changed(t, "config", "reserve_denom"):
            c.ob("reserve-fixed-during-rebalance", W(t), r is False, "changes the reserve denom while a rebalance may be in progress", t)
        if fee_policy_changed(t):
            c.ob("fees-fixed-during-rebalance", W(t), r is False, "changes the fee policy while a rebalance may be in progress", t)
        if writes(t, "reserve_units") and t.path != ("Rebalance", "Init"):
            c.ob("reserve-units-only-during-rebalance", W(t), r is True, "writes the reserve units although no rebalance may be in progress", t)
        if any(w[0] == "del" for w in writes(t, "rebalances")):
            c.ob("ends-only-by-finalize", W(t), t.path == ("Rebalance", "Finalize") and r is True, "ends a rebalance other than through finalization", t)


# ------------------------------------------------------------------ C06
def proto_coin(body, f="amount"):
    """(denom, amount term) of an optional proto coin field"""
    o = fld(body, f)
    if o.op != "adt" or o.args[1] != "Some":
        return None
    cn = SOME(o)
    a = fld(cn, "amount")
    if a.op == "to_string":
        a = a.args[0]
    return fld(cn, "denom"), a


def small(f):
    """The splits by which a branch can tell that max(f, 1) is 1: (atom,
    polarity under which it is)."""
    return ((eq(f, I(0)), True), (lt(I(1), f, True, True), False))


def fee_value(t, rate, amount, least1):
    f = mulfloor(amount, rate)
    if least1:
        for atom, one in small(f):
            z = t.holds(atom)
            if z is not None:
                return I(1) if z is one else f
        return mk("max", *sorted((f, I(1)), key=skey))
    return f


def is_index_send(t, m):
    if m.kind != "send":
        return False
    x = coins1(m.coins)
    return x is not None and same(t, x[0], DENOM)


def c06(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Mint"):
        A = t.arg("amount")
        w = W(t)
        v = t.final("total_supply")
        c.ob("supply-grows-by-amount", w, saved(v) and same(t, v, add(TS, A)), "the recorded supply does not grow by exactly the minted amount", t)
        ms = messages(t) or []
        mint = [i for i, m in enumerate(ms) if m.kind == "proto" and m.url == MINTURL]
        if not c.ob("one-mint", w, len(mint) == 1, "%d mint messages" % len(mint), t):
            continue
        b = ms[mint[0]].body
        pc = proto_coin(b)
        good = pc is not None and same(t, pc[0], DENOM) and same(t, pc[1], A)
        c.ob("mints-amount", w, good, "the tokens minted are not exactly the requested amount of the index denom", t)
        c.ob("mints-to-self", w, same(t, fld(b, "sender"), SELF) and same(t, fld(b, "mint_to_address"), SELF), "tokens are not minted by and to the contract", t)
        sends = [(i, m) for i, m in enumerate(ms) if is_index_send(t, m)]
        rec = arg_addr(t, t.arg("receiver"), SENDER)
        k = optcase(t, F(FEE, "mint_fee"))
        want = []
        if k == "Some":
            fe = fee_value(t, SOME(F(FEE, "mint_fee")), A, True)
            want = [(COLLECTOR, fe), (rec, sub(A, fe))]
        elif k == "None":
            want = [(rec, A)]
        c.ob("mint-fee-decided", w, k is not None, "the fee case is not decided", t)
        left = list(want)
        for i, m in sends:
            d, a = coins1(m.coins)
            hit = [x for x in left if x[0] is not None and same(t, m.to, x[0]) and same(t, a, x[1])]
            c.ob("distribution", w, bool(hit), "index tokens sent to %s: %s, which is neither the mint fee for the collector nor the remainder for the receiver" % (brief(m.to, 120), brief(a, 200)), t)
            if hit:
                left.remove(hit[0])
            c.ob("mint-before-send", w, i > mint[0], "index tokens are sent before they are minted", t)
        c.ob("fully-distributed", w, not left, "not sent: " + "; ".join("%s to %s" % (brief(a, 200), brief(r, 100) if r is not None else "?") for r, a in left), t)
        c.ob("nothing-else", w, all(m.kind == "send" or i == mint[0] for i, m in enumerate(ms)), "unexpected messages", t)
        c.ob("fail-together", w, all(m.reply == "Never" for m in ms), "a failing message would not revert the mint", t)
    for t in e.traces:
        if t.ok and t.path not in (("Mint",), ("Burn",)):
            c.ob("supply-only-by-mint-and-burn", W(t), not writes(t, "total_supply"), "changes the recorded supply", t)
            for m in messages(t) or []:
                c.ob("no-token-creation", W(t), not (m.kind == "proto" and m.url in (MINTURL, BURNURL)), "mints or burns tokens", t)


# ------------------------------------------------------------------ C07
def received(t, den):
    """amounts of the single coin of the given denom sent along"""
    cands = []
    one = t.holds(eq(I(1), mk("len", FUNDS)))
    x = idx(FUNDS, I(0))
    if one and t.holds(eq(fld(x, "denom"), den)) is True:
        cands.append(fld(x, "amount"))
    f = mk("find", FUNDS, ((eq(fld(el(FUNDS, 0), "denom"), den), True),))
    if one and t.holds(mk("exists", FUNDS, f.args[1])) is True:
        cands.append(fld(f, "amount"))
    return cands


def pays_units(t, coins, amount, U=None):
    """coins = for each unit (d, u) of the current units: Coin{d, floor(u*amount)}"""
    U = units_after(t) if U is None else U
    coins = strip_sort(coins)
    base = root_of(U)
    u = elem(U, base)
    x = elem(coins, base)
    if u is None or x is None:
        return False
    return fld(x, "denom") is fld(u, "0") and same(t, fld(x, "amount"), mulfloor(amount, fld(u, "1")))


def c07(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Burn"):
        w = W(t)
        rs = received(t, DENOM)
        if not c.ob("exact-payment", w, bool(rs), "a burn succeeds without requiring exactly one coin, of the index denom", t):
            continue
        k = optcase(t, F(FEE, "burn_fee"))
        c.ob("burn-fee-decided", w, k is not None, "the fee case is not decided", t)
        v = t.final("total_supply")
        ms = messages(t) or []
        for R in rs:
            fe = fee_value(t, SOME(F(FEE, "burn_fee")), R, False) if k == "Some" else I(0)
            Bn = sub(R, fe)
            if saved(v) and same(t, v, sub(TS, Bn)):
                break
        c.ob("supply-shrinks-by-burn", w, saved(v) and same(t, v, sub(TS, Bn)), "the recorded supply does not shrink by exactly the amount burned (received less fee)", t)
        burn = [m for m in ms if m.kind == "proto" and m.url == BURNURL]
        if c.ob("one-burn", w, len(burn) == 1, "%d burn messages" % len(burn), t):
            b = burn[0].body
            pc = proto_coin(b)
            c.ob("burns-amount", w, pc is not None and same(t, pc[0], DENOM) and same(t, pc[1], Bn), "the tokens burned are not exactly the received amount less the fee", t)
            c.ob("burns-own", w, same(t, fld(b, "sender"), SELF) and same(t, fld(b, "burn_from_address"), SELF), "tokens are not burned from the contract", t)
        feesend = [m for m in ms if is_index_send(t, m)]
        if k == "Some":
            good = len(feesend) == 1 and same(t, feesend[0].to, COLLECTOR) and same(t, coins1(feesend[0].coins)[1], fe)
        else:
            good = not feesend
        c.ob("burn-fee", w, good, "the fee sent to the collector is not exactly the burn fee", t)
        red = [m for m in ms if m.kind == "send" and not is_index_send(t, m)]
        to = arg_addr(t, t.arg("redeem_to"), SENDER)
        if c.ob("one-redemption", w, len(red) == 1, "%d redemption payments" % len(red), t):
            c.ob("redeems-to", w, to is not None and same(t, red[0].to, to), "redemption goes to %s" % brief(red[0].to, 200), t)
            c.ob("redeems-pro-rata", w, pays_units(t, red[0].coins, Bn), "the redemption is not each current unit times the burned amount", t)
        c.ob("nothing-else", w, all(m.kind == "send" or (m.kind == "proto" and m.url == BURNURL) for m in ms), "unexpected messages", t)
        c.ob("fail-together", w, all(m.reply == "Never" for m in ms), "a failing message would not revert the burn", t)


# ------------------------------------------------------------------ C08
def project(s):
    """A joint fold restricted to one accumulator, when the others do not
    influence it."""
    if s.op == "foldj":
        base, j, inits, cases = s.args
        a = mk("accv", j)
        out = []
        if len({vs[j] for g, vs in cases}) == 1:
            # every continuing path does the same to this accumulator
            v = cases[0][1][j]
            if not any(x.op == "accv" and x is not a for x in subterms(v)):
                return mk("fold", base, inits[j], (((), subst(v, {a: mk("accv", 0)})),))
        for g, vs in cases:
            v = vs[j]
            for x in subterms((g, v)) if False else set().union(subterms(v), *[subterms(c0) for c0, p0 in g]):
                if x.op == "accv" and x is not a:
                    return s
            m = {a: mk("accv", 0)}
            out.append((tuple((subst(c0, m), p0) for c0, p0 in g), subst(v, m)))
        return mk("fold", base, inits[j], tuple(sorted(set(out), key=skey)))
    return s


def keyed_same(ex, base, key):
    """ex = exists(units, {unit denom = key})"""
    s, g = ex.args
    if len(g) != 1 or not g[0][1] or g[0][0].op != "eq":
        return False
    if root_of(s) is not base and s is not base:
        return False
    return set(g[0][0].args) == {fld(el(s, 0), "0"), key}


def refuses_foreign(t, base, u, FUNDS=FUNDS):
    """every coin of the funds belongs to the basket"""
    x = el(FUNDS, 0)
    for c0, p in t.lits:
        # (a) for every coin there is a unit with its denom
        if not p and c0.op == "exists" and c0.args[0] is FUNDS:
            g = c0.args[1]
            if len(g) == 1 and not g[0][1] and g[0][0].op == "exists" and keyed_same(g[0][0], base, fld(x, "denom")):
                return True
        # (b) denoms are crossed off one by one and none is left
        if p and c0.op == "eq" and I(0) in c0.args:
            o = c0.args[1] if c0.args[0] is I(0) else c0.args[0]
            if o.op == "len" and crossed_off(o.args[0], base, u, FUNDS):
                return True
        if not p and c0.op == "exists":
            s, g = c0.args
            if len(g) == 1 and g[0][1] and g[0][0] is is_some(el(s, 0)) and crossed(s, base, u, FUNDS):
                return True
            if len(g) == 1 and not g[0][1] and g[0][0] is el(s, 0) and crossed(s, base, u, FUNDS, TRUE):
                return True
    return False


def crossed_off(s, base, u, FUNDS):
    """s lists the denoms sent that no unit has claimed"""
    if s.op == "comp" and len(s.args[1]) == 1:
        b = s.args[0]
        g, ys = s.args[1][0]
        if len(ys) == 1 and g == ((is_some(el(b, 0)), True),):
            return crossed(b, base, u, FUNDS)
        return False
    if s.op in ("fold", "foldj"):
        s = project(s)
        return s.op == "fold" and removed(s, base, u, FUNDS)
    return False


def crossed(b, base, u, FUNDS, mark=NONE):
    """b = list of Some(denom) of the funds, with None put at the position of
    each unit's denom; or a list of flags, one per coin, set at the position"""
    if b.op == "fold":
        inits, cases, j = (b.args[1],), [(g, (v,)) for g, v in b.args[2]], 0
        bb = b.args[0]
    elif b.op == "foldj":
        bb, j, inits, cases = b.args
    else:
        return False
    if bb is not base:
        return False
    i = inits[j]
    start = some(fld(el(FUNDS, 0), "denom")) if mark is NONE else FALSE
    if i.op != "comp" or i.args[0] is not FUNDS or i.args[1] != (((), (start,)),):
        return False
    a = mk("accv", j)
    for g, vs in cases:
        v = vs[j]
        if v.op != "upd" or v.args[0] is not a or v.args[2] is not mark:
            return False
        ps = v.args[1]
        if ps.op != "pos" or len(ps.args[1]) != 1:
            return False
        cnd, p = ps.args[1][0]
        src = ps.args[0]
        if not p or cnd.op != "eq" or set(cnd.args) != {fld(el(src, 0), "denom"), fld(u, "0")}:
            return False
        if src is not FUNDS and not (src.op == "accv" and inits[src.args[0]] is FUNDS):
            return False
    return bool(cases)


def removed(s, base, u, FUNDS):
    """s = the denoms of the funds with every unit's denom filtered out"""
    if s.args[0] is not base:
        return False
    i = s.args[1]
    d = fld(el(FUNDS, 0), "denom")
    if i.op != "comp" or i.args[0] is not FUNDS or i.args[1] != (((), (d,)),):
        return False
    a = mk("accv", 0)
    x = el(a, 0)
    return all(v is mk("comp", a, ((((eq(x, fld(u, "0")), False),), (x,)),)) for g, v in s.args[2])


class Refund:
    """The refund of a mint: funds less one deduction per unit."""

    def __init__(self, t, coins, U=None):
        self.coins = coins
        self.filtered = False
        inner = coins
        if coins.op == "comp" and len(coins.args[1]) == 1:
            b = coins.args[0]
            g, ys = coins.args[1][0]
            x = el(b, 0)
            if ys == (x,) and set(g) <= {(eq(fld(x, "amount"), I(0)), False)}:
                inner, self.filtered = b, bool(g)
        self.inner = inner
        self.kf = keyed_fold(project(inner), "denom", "amount")
        if self.kf is not None:
            self.base, self.init, self.steps = self.kf
            self.u = elem(units_after(t) if U is None else U, self.base)
            self.acc = mk("accat", self.base, (), inner)
            self.mg = ((eq(fld(el(self.acc, 0), "denom"), fld(self.u, "0")), True),) if self.u is not None else None


def mint_refund(c, t):
    ms = messages(t) or []
    ref = [m for m in ms if m.kind in ("send", "many") and not is_index_send(t, m)]
    if not c.ob("one-refund", W(t), len(ref) == 1 and ref[0].kind == "send", "%d refund payments" % len(ref), t):
        return None, None
    r = Refund(t, ref[0].coins)
    if not c.ob("refund-shape", W(t), r.kf is not None and r.init is FUNDS, "the refund is not the funds sent less one deduction per unit: " + brief(ref[0].coins, 300), t):
        return None, None
    if not c.ob("refund-over-current-units", W(t), r.u is not None, "the deductions do not follow the current units", t):
        return None, None
    return ref[0], r


def c08(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Mint"):
        w = W(t)
        A = t.arg("amount")
        m, r = mint_refund(c, t)
        if r is None:
            continue
        to = arg_addr(t, t.arg("refund_to"), SENDER)
        c.ob("refund-to", w, to is not None and same(t, m.to, to), "refund goes to %s" % brief(m.to, 200), t)
        refund_rules(c, t, w, r, A, FUNDS)


def refund_rules(c, t, w, r, A, FUNDS):
    """the refund r is `FUNDS` less the requirement for A tokens, and the
    trace refuses funds that miss an asset, hold too little or too many"""
    c.ob("refund-drops-zero", w, r.filtered, "zero amounts are not dropped from the refund", t)
    u, base, acc = r.u, r.base, r.acc
    req = mulfloor(A, fld(u, "1"))
    seen = []
    split = set()
    for s in r.steps:
        if s.present is not True:
            if s.new is not None or s.rest == ():
                c.ob("deduct-absent", w, False, "an asset missing from the funds is not refused", t)
            continue
        c.ob("deduct-key", w, s.key is fld(u, "0"), "the deduction is keyed by %s" % (show(s.key) if s.key else None), t)
        how = [(a, one) for a, one in small(req) if (a, True) in s.rest or (a, False) in s.rest][:1]
        split.update(how)
        zero = bool(how) and how[0] in s.rest
        want = I(1) if zero else req
        c.ob("deduct-amount", w, sub(I(0), s.delta) is want, "deducts %s where the requirement is %s" % (brief(sub(I(0), s.delta), 200), brief(want, 200)), t)
        seen.append(zero)
    c.ob("deduct-all", w, True in seen and False in seen, "not every unit leads to a deduction", t)
    have = mk("exists", acc, r.mg)
    have0 = mk("exists", FUNDS, ((eq(fld(el(FUNDS, 0), "denom"), fld(u, "0")), True),))
    if not c.ob("deduct-split", w, len(split) == 1, "the deductions do not tell a requirement of zero apart", t):
        return
    (atom, one), = split
    for z in (True, False):
        zg = (atom, z is one)
        miss = no_element(t, base, ((have, False), zg)) or no_element(t, base, ((have0, False), zg))
        c.ob("requires-every-asset", w, miss, "a mint succeeds although an asset of the basket is missing from the funds", t)
        f = mk("find", acc, r.mg)
        short = (lt(fld(f, "amount"), I(1) if z else req, True, True), True)
        c.ob("requires-enough", w, no_element(t, base, ((have, True), zg, short)), "a mint succeeds although the funds hold less than required of an asset", t)
    c.ob("refuses-foreign", w, refuses_foreign(t, base, u, FUNDS), "a mint succeeds although the funds hold an asset outside the basket", t)
