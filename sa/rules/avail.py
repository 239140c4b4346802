"""Availability: a message is refused (by an error or by an abort) only for
one of the stated reasons.

Every refusing trace of a message is taken on its own: its guards must
contradict the good case (sender, phase, payment, addresses and records as
they should be), or contain a stated reason.  A refusal whose guards are all
compatible with the good case, and name no reason, is reported."""
from ..contract import Trace
from ..engine import assume, decide, new_state
from . import core, core2, drop, peri
from .core import CFG, COLLECTOR, DENOM, EXPIRES, FEE, GOV, MANAGER, ONREB, PAUSED, RDENOM, REB, RSV, SF, TS, UNITS
from .lib import *

ZERO = I(0)


class Abort:
    """an aborting trace"""

    ok = err = False
    eff = ()

    def __init__(self, lits, why):
        self.lits, self.ret, self.why = tuple(lits), mk("str", "abort: %s" % (why,)), why
        self.path, self.payload = Trace.variant(self, MSG)

    @property
    def name(self):
        return ".".join(self.path)


def refusals(e):
    for t in e.traces:
        if not t.ok:
            yield t
    for lits, why in e.panics:
        yield Abort(lits, why)


def norm(c, p):
    while c.op == "not":
        c, p = c.args[0], not p
    return c, p


def failed(c, p):
    """a result that is an error, an optional that is none"""
    return c.op == "is" and (c.args[1] in ("Ok", "Some")) != p


def misses(c, p):
    """a condition that fails, rather than one that finds"""
    return failed(c, p) or (c.op in ("ovf", "lt") and p) or (c.op == "exists" and not p)


def inner(a, q, base, reason, each):
    """a condition on some element of `base` that is a reason"""
    if reason(a, q) or (each and each(a, q, base)):
        return True
    if a.op == "exists" and q and isinstance(a.args[1], tuple):
        return any(inner(*norm(b, r), a.args[0], reason, each) for b, r in a.args[1])
    return False


def justified(lits, world, reason, each=None, passing=()):
    """do the guards contradict the world or name a reason?  (`each` judges
    the conditions some element of a list is refused for; what also holds when
    the message is accepted is no reason to refuse it.)"""
    st = new_state()
    for c, p in world:
        if not assume(st, c, p):
            return True
    late = []
    for c, p in lits:
        c, p = norm(c, p)
        known = (c, p) in passing
        if not known and reason(c, p):
            return True
        d = decide(st, c)
        if d is not None:
            if d != p:
                return True
            continue
        if not known and c.op == "exists" and p and isinstance(c.args[1], tuple):
            late.append(c)
        if not assume(st, c, p):
            return True
    for c in late:
        # some element has all of these conditions
        for a, q in c.args[1]:
            a, q = norm(a, q)
            if inner(a, q, c.args[0], reason, each) or decide(st, a) == (not q):
                return True
    # no condition of the trace may be missed for its order
    for c, p in lits:
        if decide(st, c) == (not p):
            return True
    return False


def deciding(t):
    for c, p in reversed(t.lits):
        return ("" if p else "not ") + brief(c, 160)
    return "no condition"


def accepted(c, rule, e, path, worlds, reason, n=1, least=1, each=None):
    """every refusal of `path` is justified in each of the worlds"""
    w = e.name.rsplit("::", 1)[1] + " " + ".".join(path)
    ts = [t for t in refusals(e) if t.path[: len(path)] == path]
    c.floor("vacuity", w, len(ts), n)
    ok = [t for t in e.traces if t.ok and t.path[: len(path)] == path]
    passing = {norm(*l) for t in ok for l in t.lits}
    for t in ts:
        for world in worlds(t) if callable(worlds) else worlds:
            good = justified(t.lits, world, reason, each, passing)
            if not c.ob(rule, w, good, "refused with %s for a reason that is not stated: %s" % (brief(t.ret, 120), deciding(t)), t):
                break
    c.floor("vacuity", w + " accepted", len(ok), least)


# ------------------------------------------------------------------ core
ALWAYS = ("config", "fee", "total_supply", "index_units")


def core_reason(c, p):
    """what the core may always refuse for: numbers out of range, a record
    that every instance has, a clock that runs backwards, and what cannot be
    (a rate of a fee above one)"""
    if c.op == "has" and not p and c.args[0] in ALWAYS:
        return True
    if c.op == "ovf" and p:
        return True
    if c.op == "lt" and p:
        a, b = c.args
        if a is NOW and b is F(SF, "last_collected_at"):
            return True
        # the compounded rate is below one, or takes more than there is
        if a.op == "pow" or (is_const(b) and has_op(a, ("pow",)) and not has_op(a, ("decmul",))):
            return True
        if b.op == "decmul" and any_sub(b, lambda y: y.op == "pow"):
            return True
        # part of an amount above the amount
        if b.op == "mulfloor" and a in b.args and any_sub(b, lambda y: y in (F(FEE, "mint_fee"), F(FEE, "burn_fee"))):
            return True
    return False


def unpaused():
    return [[(PAUSED, False)], [(PAUSED, True), (is_some(EXPIRES), True), (lt(NOW, SOME(EXPIRES)), False)]]


def in_force():
    return [[(PAUSED, True), (is_some(EXPIRES), False)], [(PAUSED, True), (is_some(EXPIRES), True), (lt(NOW, SOME(EXPIRES)), True)]]


def paid(denom):
    x = mk("idx", FUNDS, I(0))
    return [(eq(I(1), mk("len", FUNDS)), True), (eq(fld(x, "denom"), denom), True), (eq(ZERO, fld(x, "amount")), False)]


def valid(x):
    return (mk("valid_addr", x), True)


def both(ws, *more):
    return [w + list(more) for w in ws]


PAID = fld(mk("idx", FUNDS, I(0)), "amount")


def only_of(x, leaves):
    """x mentions nothing but the leaves"""
    return not any_sub(x, lambda y: y.op in ("ld", "sym") and y not in leaves and not any(contains(l, y) for l in leaves))


def c30(c, tier):
    e = core.execute(c)
    if not e:
        return

    def reason(a, p):
        # more than all that exists
        return core_reason(a, p) or (a.op == "lt" and p and a.args[0] is TS and only_of(a.args[1], (PAID, F(FEE, "burn_fee"))))

    to = F(MSG, ":Burn.redeem_to")
    accepted(c, "burn-accepted", e, ("Burn",), both(unpaused(), (ONREB, False), valid(SOME(to)), *paid(DENOM)), reason, 20, 4)


def left_over(a, p, base):
    """a denom of the funds no unit has crossed off"""
    if base.op not in ("fold", "foldj"):
        return False
    return (p and a is is_some(el(base, 0))) or (not p and a is el(base, 0))


def c31(c, tier):
    e = core.execute(c)
    if not e:
        return
    A = F(MSG, ":Mint.amount")

    def reason(a, p):
        # a coin is left over that no unit needs
        return core_reason(a, p) or (a.op == "eq" and not p and ZERO in a.args and any(x.op == "len" and contains(x, FUNDS) for x in a.args))

    def each(a, p, base):
        # a coin a unit needs is missing or short
        if not contains(base, UNITS):
            return False
        if left_over(a, p, base):
            return True
        if not contains(a, FUNDS):
            return False
        if a.op == "lt":
            return p and contains(a.args[0], FUNDS) and not (is_const(a.args[1]) and a.args[1] is not I(1))
        if a.op == "exists":
            return not p
        return a.op == "eq" and p and ZERO in a.args

    accepted(
        c, "mint-accepted", e, ("Mint",),
        both(unpaused(), (ONREB, False), valid(SOME(F(MSG, ":Mint.receiver"))), valid(SOME(F(MSG, ":Mint.refund_to"))), (eq(ZERO, A), False)),
        reason, 20, 4, each)


def c32(c, tier):
    e = core.execute(c)
    if not e:
        return
    G = (eq(SENDER, GOV), True)
    P = F(MSG, ":Gov.0")

    def gov(v, worlds, n, reason=core_reason):
        accepted(c, "governance-accepted", e, ("Gov", v), worlds, reason, n)

    x = F(P, ":Pause.expires_at")
    gov("Pause", both(unpaused(), G, (lt(NOW, SOME(x)), True)), 3)
    gov("Release", both(in_force(), G), 3)
    gov("UpdateGov", [[G, valid(F(P, ":UpdateGov.0")), (HAS("pending_gov"), False)]], 3)
    gov("AcceptGov", [[(HAS("pending_gov"), True), (eq(SENDER, LD("pending_gov")), True)]], 2)
    gov("RevokeGov", [[(HAS("pending_gov"), True), G]], 2)
    gov("UpdateRebalanceManager", [[G, (ONREB, True), valid(SOME(F(P, ":UpdateRebalanceManager.0")))]], 3)
    gov("UpdateReserveDenom", [[G, (ONREB, False)]], 2)
    gov("UpdateTradeInfo", [[G, (eq(ZERO, mk("len", fld(F(P, ":UpdateTradeInfo.routes"), "0"))), False), (eq(ZERO, mk("len", F(P, ":UpdateTradeInfo.routes"))), False)]], 2)
    f = F(P, ":UpdateFeeStrategy.0")
    rates = []
    for r in (SOME(fld(f, "mint_fee")), SOME(fld(f, "burn_fee")), fld(SOME(fld(f, "streaming_fee")), "rate")):
        rates += [(eq(ZERO, r), False), (lt(r, I(1)), True)]
    rates.append((lt(core2.MAXRATE, r), False))
    gov("UpdateFeeStrategy", [[G, (ONREB, False), valid(fld(f, "collector"))] + rates], 10)
    accepted(c, "realize-accepted", e, ("Realize",), [[(eq(SENDER, COLLECTOR), True)]], core_reason, 4)


def c33(c, tier):
    e = core.execute(c)
    if not e:
        return
    P = F(MSG, ":Rebalance.0")
    manager = lambda: [[(ONREB, True), (is_some(MANAGER), False)], [(ONREB, True), (is_some(MANAGER), True), (eq(SENDER, SOME(MANAGER)), True)]]
    D, N = F(P, ":Init.deflation"), F(P, ":Init.inflation")

    def plan(a, p):
        if core_reason(a, p):
            return True
        if a.op != "eq":
            return False
        if p:
            return ZERO in a.args and any(x.op == "len" and x.args[0] in (D, N) for x in a.args)
        # fewer different denoms than entries
        for x, y in (a.args, a.args[::-1]):
            if x.op == "maplen" or any_sub(x, lambda z: z.op == "len" and z.args[0].op in ("mapof", "mapext", "foldj", "fold")):
                n = I(0)
                for l in (D, N):
                    if contains(x, l):
                        n = add(n, mk("len", l))
                if y is n and n is not I(0):
                    return True
        return False

    def planned(a, p, base):
        if not (contains(base, D) or contains(base, N)):
            return False
        if a.op == "lt":
            # a target above the present unit
            return p and not has_op(a.args[1], ("mulfloor", "lin")) and contains(a.args[1], D) and (contains(a.args[0], UNITS))
        if a.op == "eq":
            # a weight of zero; a denom named twice
            return p and (ZERO in a.args or all(contains(x, D) or contains(x, N) for x in a.args))
        if a.op == "exists":
            # a denom that is not in the basket
            return not p and contains(a, UNITS)
        return a.op == "mapin" and p

    accepted(c, "plan-accepted", e, ("Rebalance", "Init"), [[(eq(SENDER, GOV), True), (ONREB, False), valid(SOME(F(P, ":Init.manager")))]], plan, 20, 1, planned)

    T = F(P, ":Trade.0")
    for kind in ("Deflate", "Inflate"):
        m = F(T, ":" + kind)
        key = tup(fld(m, "target_denom"), RDENOM) if kind == "Deflate" else tup(RDENOM, fld(m, "target_denom"))
        ti = LD("trade_infos", key)
        amount = fld(m, "amount_out" if kind == "Deflate" else "amount_in")
        limit = fld(m, "max_amount_in" if kind == "Deflate" else "min_amount_out")
        last = SOME(fld(ti, "last_traded_at"))
        quote = lambda x: x.op == "parse" or x.op == "qry" or has_op(x, ("qry",)) or any_sub(x, lambda y: y.op == "app" and ("estimate" in y.args[0] or "raw_query" in y.args[0]))

        def held(x):
            # what may be spent: a unit, a gap, or its worth
            return (contains(x, UNITS) or contains(x, RSV)) and not contains(x, amount) and not quote(x)

        def trade(a, p, ti=ti, key=key, amount=amount, limit=limit, last=last, kind=kind):
            if core_reason(a, p):
                return True
            if a.op == "has":
                return not p and a.args[0] in ("reserve_units", "trade_infos") and (a.args[0] == "reserve_units" or a.args[1] is key)
            if a.op == "is":
                # the chain does not answer, or not with a number
                return quote(a.args[0]) and failed(a, p)
            if a.op == "eq":
                # nothing exists; no route
                return p and ZERO in a.args and (TS in a.args or any(x.op == "len" and contains(x, ti) for x in a.args))
            if a.op == "exists":
                # not part of the plan
                return not p and a.args[0] in (UNITS, RSV, F(REB, "deflation")) and (contains(a, fld(m, "target_denom")) or contains(a, RDENOM))
            if a.op != "lt" or not p:
                return False
            x, y = a.args
            if x is NOW:
                return contains(y, last) and contains(y, fld(ti, "cooldown"))
            if contains(x, NOW):
                return contains(x, last) and y is fld(ti, "cooldown")
            if x is fld(ti, "max_trade_amount"):
                return y is amount
            if limit in a.args:
                o = x if y is limit else y
                return quote(o) and (o is y) == (kind == "Deflate")
            # more than there is to spend
            return held(x) and (y is amount or quote(y) or held(y) or contains(y, F(REB, "deflation")) or (y.op == "ratio" and (y.args[0] is amount or quote(y.args[0]))))

        def shared(a, p, base):
            # the split of a gain over the weights: out of range, or weights
            # that do not add up
            return contains(base, F(REB, "inflation")) and p and (a.op == "lt" or (a.op == "eq" and ZERO in a.args))

        # (targets that are, and that are not, the reserve denom)
        same_denom = eq(RDENOM, fld(m, "target_denom"))
        accepted(c, "trade-accepted", e, ("Rebalance", "Trade", kind), [w + [(same_denom, b)] for w in manager() for b in (True, False)], trade, 20, 2, shared)

    def final(a, p):
        return core_reason(a, p) or (a.op == "has" and not p and a.args[0] == "reserve_units")

    def unmet(a, p, base):
        d = F(REB, "deflation")
        if base is RSV:
            return a.op == "eq" and not p and ZERO in a.args
        if base is not d:
            return False
        if a.op == "exists":
            return not p and contains(a, UNITS)  # a denom that is not in the basket
        return a.op == "lt" and p and a.args[0] is fld(el(d, 0), "1") and contains(a.args[1], UNITS)

    accepted(c, "finalize-accepted", e, ("Rebalance", "Finalize"), manager(), final, 8, 1, unmet)


# --------------------------------------------------------------- airdrop
def hexes(x):
    return (mk("hexok", x), True), (mk("hexlen", x, I(32)), True)


def a13(c, tier):
    e = drop.execute(c)
    if not e:
        return

    def common(a, p):
        return (a.op == "ovf" and p) or (a.op == "has" and not p and a.args[0] == "latest_airdrop")

    def bad_hex(a, p, base):
        return a.op in ("hexlen", "hexok") and not p

    for op, n in (("Fund", 4), ("Close", 3)):
        spec = F(MSG, ":%s.0" % op)
        for named in ("Id", "Label"):
            i = F(spec, ":Id.0") if named == "Id" else LD("labels", F(spec, ":Label.0"))
            for k in drop.KINDS:
                old = F(LD("airdrops", i), ":%s.0" % k)
                w = [(HAS("airdrops", i), True), (is_variant(LD("airdrops", i), k), True), (eq(SENDER, fld(old, "creator")), True), (is_some(fld(old, "closed_at")), False)]
                if named == "Label":
                    w.append((HAS("labels", F(spec, ":Label.0")), True))
                if op == "Fund":
                    w += paid(fld(old, "denom"))
                else:
                    w.append((lt(fld(old, "total_amount"), fld(old, "total_claimed")), False))
                accepted(c, "fund-close-accepted", e, (op, named), [w], common, n)
    for k in drop.KINDS:
        m = F(MSG, ":Claim.0.:%s" % k)
        spec = fld(m, "airdrop")
        A = fld(m, "amount")
        for named in ("Id", "Label"):
            i = F(spec, ":Id.0") if named == "Id" else LD("labels", F(spec, ":Label.0"))
            r = LD("airdrops", i)
            old = F(r, ":%s.0" % k)
            w = [(is_variant(spec, named), True), (HAS("airdrops", i), True), (is_variant(r, k), True), (is_some(fld(old, "closed_at")), False), valid(SOME(fld(m, "account")))]
            if named == "Label":
                w.append((HAS("labels", F(spec, ":Label.0")), True))
            if k == "Bearer":
                w += [(HAS("claim_logs", tup(i, fld(m, "claim_hash"))), False), (mk("hexok", fld(m, "claim_sign")), True)]
            else:
                w += [(HAS("claim_logs", tup(i, x)), False) for x in (SENDER, SOME(fld(m, "account")))]
            w.append((mk("hexlen", fld(old, "merkle_root"), I(32)), True))
            funded = fld(old, "total_amount")
            total = add(fld(old, "total_claimed"), A)
            # never more claimed than there was (A03)
            w.append((lt(funded, fld(old, "total_claimed")), False))

            def reason(a, p, A=A, old=old, funded=funded, total=total, m=m):
                if common(a, p):
                    return True
                if a.op == "lt":
                    # more than what is left
                    return p and (a.args == (funded, total) or a.args == (sub(funded, fld(old, "total_claimed")), A))
                if a.op == "eq":
                    # the proof does not lead to the root
                    return not p and any(contains(x, fld(old, "merkle_root")) for x in a.args) and any(contains(x, fld(m, "merkle_proof")) for x in a.args)
                if a.op == "is":
                    return not p and sig(a.args[0]) and a.args[1] == "Ok"
                return not p and sig(a)

            def sig(x, k=k, old=old):
                while x.op in ("fld", "as"):
                    x = x.args[0]
                return k == "Bearer" and any_sub(x, lambda y: y.op == "app" and "secp256k1_verify" in str(y.args[0])) and contains(x, fld(old, "signer_pub"))

            accepted(c, "claim-accepted", e, ("Claim", k), [w], reason, 20, 2, bad_hex)
    for k in drop.KINDS:
        m = F(MSG, ":Register.0.:%s" % k)
        label = SOME(fld(m, "label"))
        w = paid(fld(m, "denom")) + [(mk("hexlen", fld(m, "merkle_root"), I(32)), True)]
        if k == "Bearer":
            w += [(mk("hexok", fld(m, "signer_pub")), True), (mk("hexok", fld(m, "signer_sig")), True)]

        def reason(a, p, m=m, k=k):
            if common(a, p):
                return True
            if a.op == "has":
                return p and a.args[0] == "labels" and contains(a.args[1], SOME(fld(m, "label")))
            if k == "Bearer" and not p:
                # the key is none, or did not sign
                x = a.args[0] if a.op in ("is", "valid_addr") else a
                return contains(x, fld(m, "signer_pub")) and any_sub(x, lambda y: y.op == "app")
            return False

        accepted(c, "register-accepted", e, ("Register", k), [w], reason, 6)


# ------------------------------------------------------------- periphery
PAYMENT = fld(mk("idx", FUNDS, I(0)), "amount")


def chain(x):
    return any_sub(x, lambda y: y.op == "qry" or (y.op == "app" and not str(y.args[0]).endswith("to_string")))


def constant(x):
    """the constant part of a sum"""
    if is_const(x):
        return x.args[0]
    return x.args[0] if x.op == "lin" else 0


def found(x):
    """an amount found by simulating, nothing added to it"""
    return (chain(x) or contains(x, PAYMENT)) and x.op in ("sumover", "mulfloor", "accat", "foldj", "lin", "iff") and constant(x) <= 0


def exceeded(x, y, limits):
    """x < y: is a payment below what is needed, an amount below the least
    asked for, a fee above the whole, or a step of the search out of range?"""
    if is_const(x) and constant(x) == 1:
        return y.op == "fld" and chain(y)
    if x is PAYMENT:
        return found(y) and not (y.op == "lin" and len(y.args[1]) > 1)
    least = y if y in limits else None
    if least is None and y.op == "mulfloor" and y.args[0] in limits:
        # the same before the fee
        r = y.args[1]
        least = y if r.op == "decdiv" and is_const(r.args[0]) and constant(r.args[0]) == 1 else None
    if least is not None:
        return x not in limits and x is not PAYMENT and constant(x) >= 0 and chain(x)
    if x in limits or x is PAYMENT:
        return False
    if x.op == "lin" and sub(x, y).op == "int":
        return constant(sub(x, y)) > 0  # more is added than fits
    if is_const(y):
        # less than what is taken off at the end of the search
        return found(x) and not (x.op == "mulfloor" and x.args[0] is PAYMENT)
    # part of a difference above the greater side
    return y.op == "mulfloor" and any(r.op == "dec" and d.op == "lin" and contains(d, x) for d, r in (y.args, y.args[::-1]))


def counts(x):
    """a counter of the rounds of a loop"""
    if x.op != "wv":
        return False
    inits, phis, cases = x.args[0].args
    i = x.args[1]
    return inits[i].op == "int" and bool(cases) and all(sub(n[i], phis[i]).op == "int" for _, n in cases)


def partial(m):
    """a table that leaves some of its source out"""
    return any_sub(m, lambda y: y.op in ("take", "subslice"))


def p_reason(c, e, op, limits):
    m = F(MSG, ":" + op)
    si = fld(m, "swap_info")

    def reason(a, p):
        if a.op == "ovf":
            return p
        if a.op in ("lt", "eq") and any(counts(x) for x in a.args):
            # all the rounds of the search are over
            return True
        if a.op in ("is", "starts_with"):
            # a query, a pool or a number that cannot be read
            return (a.op == "starts_with" or failed(a, p)) and (chain(a.args[0]) or contains(a, si))
        if a.op == "lt":
            # strictly beyond a limit
            return p and exceeded(a.args[0], a.args[1], limits)
        if a.op == "exists":
            # no route, no pool, no answer in all the steps of the search
            return not p and (a.args[0].op == "rangei" or contains(a, si)) and not any(misses(*norm(b, r)) for b, r in a.args[1])
        return a.op == "mapin" and not p and not partial(a.args[0])

    def each(a, p, base):
        if a.op == "ovf":
            return p
        if a.op == "lt":
            return p and base.op != "rangei"
        if a.op == "eq":
            return p and ZERO in a.args
        if a.op in ("exists", "mapin"):
            return not p and base.op != "rangei" and not partial(a.args[0])
        return a.op in ("is", "starts_with") and (chain(a) or contains(a, si))

    return reason, each


def undivided(t):
    """nothing to divide by: a core whose assets are worth nothing, or whose
    fee is the whole"""
    if any_sub(t.ret, lambda y: y.op == "errv" and y.args[0] in ("div", "ratio")) or isinstance(t, Abort):
        return [(a, False) for a, q in (norm(*l) for l in t.lits) if a.op == "eq" and q and ZERO in a.args and chain(a)]
    return []


def p10(c, tier):
    e = peri.execute(c)
    if not e:
        return
    for op in peri.OPS:
        m = F(MSG, ":" + op)
        denom = fld(m, "input_asset") if op.startswith("Mint") else None
        reason, each = p_reason(c, e, op, [fld(m, "min_output_amount")])
        w = [valid(fld(m, "core_addr"))]
        x = mk("idx", FUNDS, I(0))
        w += [(eq(I(1), mk("len", FUNDS)), True), (eq(ZERO, fld(x, "amount")), False)]

        def worlds(t, w=w, op=op, denom=denom):
            w = w + undivided(t)
            if denom is not None:
                return [w + [(eq(fld(x, "denom"), denom), True)]]
            q = {y for l, _ in t.lits for y in subterms(l) if y.op == "fld" and y.args[1] == "index_denom"}
            return [w + [(eq(fld(x, "denom"), y), True) for y in sorted(q, key=brief)]]

        accepted(c, "trade-accepted", e, (op,), worlds, reason, 12, 2, each)
    f = F(MSG, ":FinishOperation")
    accepted(c, "finish-accepted", e, ("FinishOperation",), [[(eq(SENDER, SELF), True), valid(fld(f, "refund_to"))]], lambda a, p: failed(a, p) and a.args[0].op == "qry", 3)


def p13(c, tier):
    e = c.entry(peri.CRATE, "contract::query")
    if not e:
        return
    names = sorted({t.path[0] for t in e.traces if t.path})
    c.floor("vacuity", "queries", len(names), 4)
    for op in names:
        m = F(MSG, ":" + op)
        reason, each = p_reason(c, e, op, [])
        accepted(c, "query-answered", e, (op,), lambda t, m=m: [[valid(fld(m, "core_addr"))] + undivided(t)], reason, 6, 1, each)


# --------------------------------------------------------------- queries
def stored(a, p):
    """a record that cannot be read back: it was not written by this contract"""
    return a.op == "exists" and p and any_sub(a.args[0], lambda y: y.op == "range") and all(b.op == "is" and b.args[1] in ("Ok", "Err") for b, _ in (norm(*x) for x in a.args[1]))


def oversize(a, p):
    """more records asked for than the most a page may have"""
    return a.op == "lt" and p and is_const(a.args[0]) and any(x.op == "fld" and contains(x, MSG) for x in subterms(a.args[1]))


def c34(c, tier):
    e = c.entry(core.CRATE, "contract::query")
    if not e:
        return
    Q = {}
    for t in e.traces:
        Q.setdefault(t.path[:1], []).append(t)
    names = sorted(k[0] for k in Q if k)
    c.floor("vacuity", "queries", len(names), 10)
    listing = [n for n in names if any(any_sub(t.ret, lambda y: y.op == "range") for t in Q[(n,)] if t.ok)]
    for n in names:
        m = F(MSG, ":" + n)
        at = fld(m, "time")
        amount = fld(m, "amount")

        def reason(a, p, m=m, at=at, amount=amount, n=n):
            if core_reason(a, p) or stored(a, p) or (n in listing and oversize(a, p)):
                return True
            if a.op == "is":
                # the bank does not answer
                return a.args[0].op == "qry" and failed(a, p)
            if a.op == "lt" and p:
                # a time before the last settlement; more than there is
                return (a.args[0] is SOME(at) and a.args[1] is F(SF, "last_collected_at")) or (n == "SimulateBurn" and a.args[0] is TS and only_of(a.args[1], (amount, F(FEE, "burn_fee"))))
            if n == "SimulateMint" and a.op == "eq":
                # nothing to mint; a coin is left over that no unit needs
                return (p and set(a.args) == {ZERO, amount}) or (not p and ZERO in a.args and any(x.op == "len" for x in a.args))
            return False

        def each(a, p, base, n=n, m=m):
            if n != "SimulateMint" or not contains(base, UNITS):
                return False
            if left_over(a, p, base):
                return True
            if a.op == "lt":
                return p and not (is_const(a.args[1]) and a.args[1] is not I(1))
            if a.op == "exists":
                return not p
            return a.op == "eq" and p and ZERO in a.args

        accepted(c, "query-answered", e, (n,), [[]], reason, 0, 1, each)


def a14(c, tier):
    e = c.entry(drop.CRATE, "contract::query")
    if not e:
        return
    names = sorted({t.path[0] for t in e.traces if t.path})
    c.floor("vacuity", "queries", len(names), 7)
    for n in names:
        m = F(MSG, ":" + n)

        def reason(a, p, m=m, n=n):
            if drop.slashless(a, p) or stored(a, p) or (n.startswith("List") and oversize(a, p)) or (a.op == "ovf" and p):
                return True
            if a.op == "has":
                # the airdrop, label or claim asked for does not exist
                return not p and a.args[0] in ("airdrops", "labels", "claim_logs", "latest_airdrop") and (a.args[0] == "latest_airdrop" or contains(a.args[1], m))
            if a.op == "valid_addr":
                return not p and contains(a.args[0], m)
            if n == "VerifyClaim":
                k = [F(m, "claim.:" + x) for x in drop.KINDS]
                if a.op == "is":
                    # of the other kind; no account; a signature that is none
                    return (a.args[1] in drop.KINDS and a.args[0].op == "ld") or (a.args[1] == "Some" and not p and a.args[0] in [fld(x, "account") for x in k]) or (a.args[1] == "Ok" and not p and contains(a, fld(k[1], "claim_sign"))) or (a.args[1] == "Ok" and not p and contains(a, fld(k[0], "claim_sign")))
                if a.op in ("hexok", "hexlen"):
                    return not p
            return False

        def each(a, p, base):
            # a label whose record is gone, or without a slash; a proof that is
            # no hex text
            return drop.slashless(a, p) or (a.op == "has" and not p and a.args[0] == "airdrops") or (a.op in ("hexok", "hexlen") and not p)

        accepted(c, "query-answered", e, (n,), [[]], reason, 0, 1, each)
