"""Properties of the index token contract (ibcx-core): streaming fees,
rebalancing, addresses, versions, denom, messages."""
from .core import *
from .core import CRATE

SETTLING = [("Mint",), ("Burn",), ("Realize",), ("Rebalance", "Init"), ("Gov", "UpdateFeeStrategy")]
LAST = F(SF, "last_collected_at")
FROZEN = F(SF, "freeze")
RATE = F(SF, "rate")
COLLECTED = F(SF, "collected")
ZERO = I(0)
SWAPOUT = "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut"
SWAPIN = "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn"


def streaming_state(t, now=NOW):
    """off: no streaming fee; idle: frozen or settled this very second;
    active: time has passed unsettled; None: the trace does not decide."""
    k = optcase(t, F(FEE, "streaming_fee"))
    if k == "None":
        return "off"
    if k != "Some":
        return None
    fr = t.holds(FROZEN)
    sm = t.holds(eq(now, LAST))
    if fr is True or sm is True:
        return "idle"
    if fr is False and sm is False:
        return "active"
    return None


def fee_units(unit, now=NOW):
    """the part of a unit that accrues as fee up to now (either spelling of
    the elapsed time)"""
    r = []
    d = sub(now, LAST)
    for x in (mk("narrow", "u32", d), d):
        r.append(mul(unit, sub(mk("pow", add(RATE, I(1)), x), I(1)), "decmul"))
    return r


def accrued_units(t, U, now=NOW):
    """U = the units less the accrued fee, unit by unit"""
    x = elem(U, UNITS)
    if x is None:
        return False
    u = el(UNITS, 0)
    return same(t, fld(x, "0"), fld(u, "0")) and any(fld(x, "1") is sub(fld(u, "1"), f) for f in fee_units(fld(u, "1"), now))


def accrued_list(t, L, now=NOW, base=COLLECTED):
    """L = the fees collected before plus floor(supply * fee unit) per unit"""
    kf = keyed_fold(project(L), "denom", "amount")
    if kf is None:
        return False
    b, init, steps = kf
    if b is not UNITS or not same(t, init, base):
        return False
    u = el(UNITS, 0)
    want = [mulfloor(TS, f) for f in fee_units(fld(u, "1"), now)]
    seen = set()
    for s in steps:
        if s.key is not fld(u, "0") or s.rest or s.delta not in want:
            return False
        seen.add(s.present)
    return seen == {True, False}


def drop_zero(x):
    """undo a filter that only drops coins with amount zero"""
    if x.op == "comp" and len(x.args[1]) == 1:
        g, ys = x.args[1][0]
        b = x.args[0]
        e0 = el(b, 0)
        if ys == (e0,) and set(g) <= {(eq(fld(e0, "amount"), ZERO), False)}:
            return b
    return x


def accrued_fate(t):
    """Where the fees accrued up to now end up on this trace:
    [("kept"|"sent"|"empty", list)]"""
    r = []
    v = t.final("fee")
    if v is None:
        r.append(("kept", COLLECTED))
    elif v != "del":
        s = fld(v, "streaming_fee")
        if optcase(t, s) == "Some":
            c0 = fld(SOME(s), "collected")
            if c0 is not arr():
                r.append(("kept", c0))
    for m in messages(t) or []:
        if m.kind == "send" and not is_index_send(t, m) and same(t, m.to, COLLECTOR) and t.path not in (("Mint",), ("Burn",)):
            r.append(("sent", drop_zero(m.coins)))
    for l, p in t.lits:
        if p and l.op == "eq" and ZERO in l.args:
            o = l.args[1] if l.args[0] is ZERO else l.args[0]
            if o.op == "len":
                x = drop_zero(o.args[0])
                if x is COLLECTED or (x.op in ("fold", "foldj") and any_sub(x, lambda y: y is COLLECTED)):
                    r.append(("empty", x))
        if not p and l.op == "exists":
            x, g = l.args
            if set(g) <= {(eq(fld(el(x, 0), "amount"), ZERO), False)} and (x is COLLECTED or (x.op in ("fold", "foldj") and any_sub(x, lambda y: y is COLLECTED))):
                r.append(("empty", x))
    return r


# ------------------------------------------------------------------ C09
def c09(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Mint"):
        A = t.arg("amount")
        m, r = mint_refund(c, t)
        if r is None:
            continue
        u = r.u
        exact = mk("mulfloor", A, fld(u, "1"))
        up = False
        for s in r.steps:
            if s.present is True and s.delta is not None:
                d = sub(ZERO, s.delta)
                zero = (eq(ZERO, exact), True) in s.rest
                if d is I(1) and zero:
                    continue  # less than one base unit is charged as one
                up = d.op in ("mulceil",) and d.args == (A, fld(u, "1"))
                if not up:
                    break
        c.ob("deposit-rounds-up", W(t), up, "the deposit required per asset is unit x amount rounded down, so an asset enters below its backing", t)
    for t in ok(c, e, "Burn"):
        ms = messages(t) or []
        red = [m for m in ms if m.kind == "send" and not is_index_send(t, m)]
        burn = [m for m in ms if m.kind == "proto" and m.url == BURNURL]
        good = False
        if len(red) == 1 and len(burn) == 1:
            pc = proto_coin(burn[0].body)
            good = pc is not None and pays_units(t, red[0].coins, pc[1])
        c.ob("redemption-rounds-down", W(t), good, "a redemption is not bounded by unit x burned amount rounded down", t)
    for path in SETTLING:
        for t in ok(c, e, *path):
            if streaming_state(t) != "active":
                continue
            L = [x for k, x in accrued_fate(t) if k != "kept" or path != ("Realize",)]
            c.ob("accrual-rounds-down", W(t), any(accrued_list(t, x) for x in L), "the collected fee is not bounded by supply x unit reduction rounded down", t)


# ------------------------------------------------------------------ C10
def c10(c, tier):
    e = execute(c)
    if not e:
        return
    act = {}
    for path in SETTLING:
        for t in ok(c, e, *path):
            s = streaming_state(t)
            act[s] = act.get(s, 0) + 1
            U = units_after(t)
            if not c.ob("settlement-decided", W(t), s is not None, "whether streaming fees accrue is not decided", t):
                continue
            if s == "active":
                c.ob("settles", W(t), accrued_units(t, U), "succeeds without charging the units for the time since the last settlement: " + brief(U, 300), t)
                c.ob("no-time-reversal", W(t), t.holds(lt(NOW, LAST)) is not True, "settles over negative time", t)
                v = t.final("fee")
                st = fld(v, "streaming_fee") if saved(v) else None
                if path != ("Gov", "UpdateFeeStrategy"):
                    c.ob("clock", W(t), st is not None and optcase(t, st) == "Some" and same(t, fld(SOME(st), "last_collected_at"), NOW), "the settlement is not recorded: the same time would be charged again", t)
            else:
                c.ob("no-charge", W(t), same(t, U, UNITS), "charges the units although no fee accrues", t)
                v = t.final("fee")
                if s == "idle" and path != ("Gov", "UpdateFeeStrategy"):
                    c.ob("clock-kept", W(t), not field_changed(t, "fee", "streaming_fee") or same(t, fld(SOME(fld(v, "streaming_fee")), "last_collected_at"), LAST), "moves the settlement clock without charging", t)
    for s in ("active", "idle", "off"):
        c.floor("vacuity", "execute " + s, act.get(s, 0), 5)
    for t in ok(c, e, "Gov", "UpdateFeeStrategy"):
        v = t.final("fee")
        st = fld(v, "streaming_fee") if saved(v) else None
        k = optcase(t, st) if st is not None else None
        c.ob("new-fee-starts-now", W(t), k == "None" or (k == "Some" and (same(t, fld(SOME(st), "last_collected_at"), NOW)) and fld(SOME(st), "collected") is arr()), "a new streaming fee does not start from now with nothing collected", t)
    for t in e.traces:
        if not t.ok or t.path in SETTLING:
            continue
        v = t.final("fee")
        if v is None:
            continue
        old, new = F(FEE, "streaming_fee"), fld(v, "streaming_fee") if saved(v) else None
        good = new is not None and (same(t, old, new) or (optcase(t, old) == "Some" == optcase(t, new) and same(t, fld(SOME(new), "collected"), COLLECTED) and (t.path == ("Rebalance", "Finalize") or same(t, fld(SOME(new), "last_collected_at"), LAST))))
        c.ob("accrual-untouched", W(t), good, "changes the accrued fees or the settlement clock without settling", t)
    for t in e.traces:
        if t.ok and t.path not in SETTLING and t.path[0] != "Rebalance":
            c.ob("units-untouched", W(t), same(t, units_after(t), UNITS), "changes the index units", t)
    i = c.entry(CRATE, "contract::instantiate")
    for t in i.ok() if i else ():
        v = t.final("fee")
        st = fld(v, "streaming_fee") if saved(v) else None
        k = optcase(t, st) if st is not None else None
        c.ob("starts-now", "instantiate", k == "None" or (k == "Some" and same(t, fld(SOME(st), "last_collected_at"), NOW) and fld(SOME(st), "collected") is arr()), "the initial streaming fee does not start from now with nothing collected", t)


# ------------------------------------------------------------------ C11
def c11(c, tier):
    e = execute(c)
    if not e:
        return
    n = 0
    for path in SETTLING:
        for t in ok(c, e, *path):
            s = streaming_state(t)
            fates = accrued_fate(t)
            if s == "active":
                n += 1
                c.ob("credits-what-units-lose", W(t), len(fates) == 1 and accrued_list(t, fates[0][1]) and accrued_units(t, units_after(t)), "the fees credited are not, per unit, supply x the amount the unit loses", t)
            elif s == "idle":
                c.ob("credits-nothing", W(t), len(fates) == 1 and same(t, fates[0][1], COLLECTED), "credits fees although no unit is charged", t)
            else:
                c.ob("credits-nothing", W(t), s == "off" and not [f for f in fates if f[0] == "kept" and f[1] is not COLLECTED], "credits fees without a streaming fee", t)
    c.floor("vacuity", "execute", n, 5)


# ------------------------------------------------------------------ C12
def c12(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Realize"):
        c.ob("by-collector", W(t), t.holds(eq(SENDER, COLLECTOR)) is True, "fees are realized for a sender not known to be the collector", t)
        v = t.final("fee")
        c.ob("only-accrual-changes", W(t), saved(v) and all(same(t, fld(v, f), F(FEE, f)) for f in FEE_POLICY) and set(written(t)) <= {"fee", "index_units"}, "realizing changes something else", t)
    for path in SETTLING:
        for t in ok(c, e, *path):
            s = streaming_state(t)
            if s == "off":
                pays = [m for m in messages(t) or [] if path in (("Realize",), ("Gov", "UpdateFeeStrategy"))]
                c.ob("nothing-to-pay", W(t), not pays, "pays fees although none are collected", t)
                continue
            fates = accrued_fate(t)
            want = "sent" if path in (("Realize",), ("Gov", "UpdateFeeStrategy")) else "kept"
            kinds = [k for k, x in fates]
            good = len(fates) == 1 and (kinds[0] == want or (want == "sent" and kinds[0] == "empty"))
            c.ob("accrued-fees-" + want, W(t), good, "the accrued fees are not %s exactly once (%s)" % ("kept on record" if want == "kept" else "paid to the recorded collector and cleared", kinds), t)
            if good and s == "idle":
                c.ob("all-of-it", W(t), same(t, fates[0][1], COLLECTED), "a part of the collected fees is lost or invented", t)
            if good and s == "active":
                kf = keyed_fold(project(fates[0][1]), "denom", "amount")
                c.ob("all-of-it", W(t), kf is not None and same(t, kf[1], COLLECTED), "a part of the collected fees is lost or invented", t)
            if path in (("Realize",), ("Gov", "UpdateFeeStrategy")):
                ms = messages(t) or []
                c.ob("pays-nothing-else", W(t), len(ms) <= 1 and all(m.kind == "send" and same(t, m.to, COLLECTOR) for m in ms), "pays somebody else", t)
    for t in e.traces:
        if not t.ok or t.path in SETTLING:
            continue
        v = t.final("fee")
        if v is None:
            continue
        k = optcase(t, F(FEE, "streaming_fee"))
        n = fld(v, "streaming_fee") if saved(v) else None
        c.ob("accrued-fees-kept", W(t), n is not None and (same(t, n, F(FEE, "streaming_fee")) or (k == "Some" and optcase(t, n) == "Some" and same(t, fld(SOME(n), "collected"), COLLECTED))), "the accrued fees are changed", t)


# ------------------------------------------------------------------ C13
def freeze_after(t):
    """(case, freeze value) of the streaming fee after the trace"""
    v = t.final("fee")
    if v is None:
        return optcase(t, F(FEE, "streaming_fee")), FROZEN, LAST
    if v == "del":
        return None, None, None
    s = fld(v, "streaming_fee")
    k = optcase(t, s)
    return k, (fld(SOME(s), "freeze") if k == "Some" else None), (fld(SOME(s), "last_collected_at") if k == "Some" else None)


def c13(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Rebalance", "Init"):
        k, f, l = freeze_after(t)
        c.ob("init-freezes", W(t), k == "None" or (k == "Some" and f is not None and (f is TRUE or t.holds(f) is True)), "a rebalance starts with the streaming fee still running", t)
    for t in ok(c, e, "Rebalance", "Finalize"):
        k, f, l = freeze_after(t)
        c.ob("finalize-unfreezes", W(t), k == "None" or (k == "Some" and f is not None and (f is FALSE or t.holds(f) is False)), "a rebalance ends with the streaming fee still frozen", t)
        c.ob("finalize-restarts-clock", W(t), k == "None" or (k == "Some" and same(t, l, NOW)), "the time spent rebalancing is charged afterwards", t)
        c.ob("finalize-keeps-accrued", W(t), k == optcase(t, F(FEE, "streaming_fee")) and only_changes(t, "fee", ("streaming_fee",)), "finalizing changes the fee policy", t)
    for t in e.traces:
        if not t.ok or t.path in (("Rebalance", "Init"), ("Rebalance", "Finalize"), ("Gov", "UpdateFeeStrategy")):
            continue
        v = t.final("fee")
        if v is None:
            continue
        k, f, l = freeze_after(t)
        c.ob("freeze-untouched", W(t), k == "None" == optcase(t, F(FEE, "streaming_fee")) or (k == "Some" and same(t, f, FROZEN)), "changes whether the streaming fee is frozen", t)
    for t in ok(c, e, "Gov", "UpdateFeeStrategy"):
        c.ob("not-while-rebalancing", W(t), t.holds(ONREB) is False, "may unfreeze the streaming fee while a rebalance is in progress", t)


# ------------------------------------------------------------------ C14
MAXRATE = mk("dec", 21979553000)


def rate_ok(t, o, cap):
    k = optcase(t, o)
    if k == "None":
        return True
    if k != "Some":
        return False
    r = SOME(o) if not cap else fld(SOME(o), "rate")
    if r.op in ("dec", "int"):
        q = r.args[0] * (10**18 if r.op == "int" else 1)
        return 0 < q <= (MAXRATE.args[0] if cap else 10**18 - 1)
    pos = t.holds(eq(r, ZERO)) is False or t.holds(lt(ZERO, r)) is True
    below = t.holds(lt(r, I(1))) is True
    capped = t.holds(lt(MAXRATE, r)) is False or t.holds(lt(r, MAXRATE)) is True
    return pos and (capped if cap else below)


def c14(c, tier):
    e = execute(c)
    i = c.entry(CRATE, "contract::instantiate")
    if not e or not i:
        return
    n = 0
    some = 0
    for nm, ts in (("execute", e.traces), ("instantiate", i.traces)):
        for t in ts:
            if not t.ok:
                continue
            v = t.final("fee")
            if v is None:
                continue
            w = nm + (" " + variant_name(t) if nm == "execute" else "")
            if not saved(v):
                c.ob("fee-record-kept", w, False, "deletes the fee record", t)
                continue
            for f in ("mint_fee", "burn_fee", "streaming_fee"):
                if nm == "execute":
                    o, x = F(FEE, f), fld(v, f)
                    if same(t, o, x):
                        continue
                    if f == "streaming_fee" and optcase(t, o) == "Some" == optcase(t, x) and same(t, fld(SOME(x), "rate"), RATE):
                        continue
                n += 1
                some += optcase(t, fld(v, f)) == "Some"
                c.ob("rate-bounds", w + " " + f, rate_ok(t, fld(v, f), f == "streaming_fee"), "a fee rate is stored that is not known to lie within its bounds", t)
    c.floor("vacuity", "fee updates", n, 20)
    c.floor("vacuity", "fee updates with a rate", some, 20)


# ------------------------------------------------------------------ C15
def uniq_keys(t, seq, field, others=()):
    """No two elements of seq (then none shared with `others`) agree in
    `field`."""
    f0 = fld(el(seq, 0), field)
    for l, p in t.lits:
        if p or l.op != "exists" or l.args[0] is not seq or len(l.args[1]) != 1:
            continue
        g, pol = l.args[1][0]
        if not pol:
            continue
        if g.op == "mapin" and g.args[1] is f0 and g.args[0].op == "accat" and g.args[0].args[0] is seq and g.args[0].args[1] == ():
            src = key_sources(g.args[0].args[2], field)
            if src and src[-1] is seq and set(others) <= set(src[:-1]):
                return True
        # a list of names already seen
        if g.op == "exists" and g.args[0].op == "accat" and g.args[0].args[0] is seq and len(g.args[1]) == 1:
            h, q = g.args[1][0]
            src = name_sources(g.args[0].args[2], field)
            if q and h.op == "eq" and f0 in h.args and el(g.args[0], 0) in h.args and g.args[0].args[1] == () and src and src[-1] is seq and set(others) <= set(src[:-1]):
                return True
    # each is compared with those before it
    for l, p in t.lits:
        if p or l.op != "exists" or len(l.args[1]) != 1:
            continue
        b = l.args[0]
        g, pol = l.args[1][0]
        if not pol or g.op != "exists" or g.args[0].op != "slice" or g.args[0].args[0] is not b or len(g.args[1]) != 1:
            continue
        r = g.args[0].args[1]
        h, q = g.args[1][0]
        ends = r.op == "adt" and ((r.args[1] == "RangeTo" and fld(r, "end") is mk("ix", b, 0)) or (r.args[1] == "Range" and fld(r, "start") is ZERO and fld(r, "end") is mk("ix", b, 0)))
        after = r.op == "adt" and r.args[1] == "RangeFrom" and fld(r, "start") is add(mk("ix", b, 0), I(1))
        if q and (ends or after) and h is eq(fld(el(b, 0), field), fld(el(g.args[0], 0), field)):
            if {seq} | set(others) <= set(b.args if b.op == "concat" else (b,)):
                return True
    if uniq_by_count(t, (seq,) + tuple(others), field):
        return True
    if others and uniq_keys(t, seq, field):
        if all(disjoint(t, seq, o, field) for o in others):
            return True
    return False


def name_sources(src, field):
    """the sequences whose elements' `field` src lists, in order"""
    if src.op == "concat":
        r = []
        for x in src.args:
            y = name_sources(x, field)
            if y is None:
                return None
            r += y
        return r
    if src is arr():
        return []
    if src.op == "comp":
        b = src.args[0]
        return [b] if src is comp(b, [((), (fld(el(b, 0), field),))]) else None
    if src.op != "fold":
        return None
    b = src.args[0]
    if not src.args[2] or not all(v is seq_concat(mk("accv", 0), arr(fld(el(b, 0), field))) for _, v in src.args[2]):
        return None
    r = name_sources(src.args[1], field)
    return None if r is None else r + [b]


def uniq_by_count(t, seqs, field):
    """The set of the fields has as many members as the sequences have"""
    total = ZERO
    parts = set()
    for s in seqs:
        total = add(total, mk("len", s))
        parts.add(comp(s, [((), (fld(el(s, 0), field),))]))
    for l, p in t.lits:
        if p and l.op == "eq" and total in l.args:
            m = l.args[1] if l.args[0] is total else l.args[0]
            if m.op == "maplen" and m.args[0].op == "mapof":
                x = m.args[0].args[0]
                xs = x.args if x.op == "concat" else (x,)
                if len(xs) == len(parts) and set(xs) == parts:
                    return True
    return False


def disjoint(t, a, b, field):
    for x, y in ((a, b), (b, a)):
        g = eq(fld(el(x, 0), field), fld(el(y, 0), field))
        if t.holds(mk("exists", x, ((mk("exists", y, ((g, True),)), True),))) is False:
            return True
    # one pass over both sequences
    for l, p in t.lits:
        if not p and l.op == "exists" and l.args[0] in (a, b) and len(l.args[1]) == 1:
            g, pol = l.args[1][0]
            o = b if l.args[0] is a else a
            if pol and g.op == "exists" and g.args[0] is o and len(g.args[1]) == 1 and g.args[1][0][1] and g.args[1][0][0].op == "eq":
                if set(g.args[1][0][0].args) == {fld(el(a, 0), field), fld(el(b, 0), field)}:
                    return True
            if pol and g.op == "mapin" and g.args[1] is fld(el(l.args[0], 0), field):
                f = g.args[0]
                if f.op == "accat":
                    f = f.args[2]
                if o in (key_sources(f, field) or ()):
                    return True
    return False


def key_sources(m, field):
    """the sequences of whose elements `field` makes up the keys of m, in the
    order they were added; None when other keys were"""
    if m.op != "mapof":
        return None
    x = m.args[0]
    out = []
    for p in x.args if x.op == "concat" else (x,):
        if p is arr():
            continue
        if p.op != "comp" or len(p.args[1]) != 1 or p.args[1][0][0] or len(p.args[1][0][1]) != 1:
            return None
        y, f = p.args[1][0][1][0], fld(el(p.args[0], 0), field)
        if y is not f and not (y.op == "tuple" and y.args[0] is f):
            return None
        out.append(p.args[0])
    return out


def c15(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Rebalance", "Init"):
        w = W(t)
        D, N = t.arg("deflation"), t.arg("inflation")
        v = t.final("rebalances")
        c.ob("plan-recorded", w, saved(v) and same(t, fld(v, "deflation"), D) and same(t, fld(v, "inflation"), N), "the recorded plan is not the plan given", t)
        for nm, s in (("deflation", D), ("inflation", N)):
            c.ob("plan-not-empty", w + " " + nm, t.holds(eq(ZERO, mk("len", s))) is False, "an empty %s is accepted" % nm, t)
            c.ob("plan-no-duplicates", w + " " + nm, uniq_keys(t, s, "0"), "a %s naming a denom twice is accepted" % nm, t)
        c.ob("plan-no-overlap", w, uniq_keys(t, N, "0", (D,)) or uniq_keys(t, D, "0", (N,)) or disjoint(t, D, N, "0"), "a denom both deflated and inflated is accepted", t)
        c.ob("weights-positive", w, no_element(t, N, ((eq(fld(el(N, 0), "1"), ZERO), True),)), "a zero inflation weight is accepted", t)
        U = units_after(t)
        cands = [U]
        for l, p in t.lits:
            for y in subterms(l):
                if y.op == "accat" and y.args[0] is D and y.args[1] == () and popped(y.args[2], D, U):
                    cands.append(y)
        c.ob("targets-held", w, any(held(t, D, X) for X in cands), "a deflation of a denom the index does not hold is accepted", t)
        c.ob("targets-below-units", w, any(below(t, D, X) for X in cands), "a deflation target above the current unit is accepted", t)
        r = t.final("reserve_units")
        c.ob("reserve-starts-empty", w, saved(r) and r is arr(), "a rebalance starts with reserve units", t)
        c.ob("sends-nothing", w, not messages(t), "starting a rebalance sends messages", t)


def popped(f, D, U):
    """f = U with the denoms of D removed one after another"""
    f = project(f)
    if f.op != "fold" or f.args[0] is not D or f.args[1] is not U:
        return False
    return all(v.op == "removed" and v.args[0] is mk("accv", 0) for g, v in f.args[2])


def matchg(D, X):
    return ((eq(fld(el(D, 0), "0"), fld(el(X, 0), "0")), True),)


def held(t, D, X):
    return no_element(t, D, ((mk("exists", X, matchg(D, X)), False),))


def below(t, D, X):
    g = matchg(D, X)
    return no_element(t, D, ((mk("exists", X, g), True), (lt(fld(mk("find", X, g), "1"), fld(el(D, 0), "1")), True)))


# ------------------------------------------------------------------ C16
def c16(c, tier):
    e = execute(c)
    if not e:
        return
    D = F(REB, "deflation")
    for t in ok(c, e, "Rebalance", "Finalize"):
        w = W(t)
        g = matchg(D, UNITS)
        cur = fld(mk("find", UNITS, g), "1")
        c.ob("deflation-complete", w, no_element(t, D, ((mk("exists", UNITS, g), True), (lt(fld(el(D, 0), "1"), cur), True))), "succeeds although a unit may still be above its target", t)
        c.ob("reserve-spent", w, no_element(t, RSV, ((eq(fld(el(RSV, 0), "1"), ZERO), False),)), "succeeds although reserve units may be left", t)
        v = t.final("index_units")
        x = el(UNITS, 0)
        c.ob("prunes-zero-units", w, saved(v) and v is mk("comp", UNITS, ((((eq(fld(x, "1"), ZERO), False),), (x,)),)), "the units after finalization are not the current ones without the zeros", t)
        c.ob("clears-rebalance", w, t.final("rebalances") == "del", "the rebalance stays on record", t)
        r = t.final("reserve_units")
        c.ob("clears-reserve", w, r == "del" or r is arr(), "reserve units stay on record", t)
        c.ob("changes-nothing-else", w, set(written(t)) <= {"fee", "index_units", "rebalances", "reserve_units"} and not messages(t), "finalizing does something else", t)


# ------------------------------------------------------------- C17 - C19
def info_key(t, kind):
    d = t.arg("target_denom")
    return tup(d, RDENOM) if kind == "Deflate" else tup(RDENOM, d)


def trades(c, e, kind):
    """(trace, is_reserve) of a trade variant"""
    r = []
    for t in ok(c, e, "Rebalance", "Trade", kind):
        x = t.holds(eq(RDENOM, t.arg("target_denom")))
        if c.ob("reserve-case-decided", W(t), x is not None, "whether the target is the reserve denom is not decided", t):
            # (trading the reserve denom itself: its two names are one denom)
            r.append((t.equated(RDENOM, t.arg("target_denom")) if x else t, x))
    c.floor("vacuity", kind + " swap", sum(1 for t, x in r if not x), 1)
    c.floor("vacuity", kind + " reserve", sum(1 for t, x in r if x), 1)
    return r


def keyed_get(seq, key):
    """value stored under a denom in a list of units"""
    g = ((eq(fld(el(seq, 0), "0"), key), True),)
    return mk("exists", seq, g), fld(mk("find", seq, g), "1"), mk("pos", seq, g)


def unit_change(t, v, base, key):
    """v = base with the unit stored under key changed -> (present, new)"""
    ex, cur, pos = keyed_get(base, key)
    if v is base or same(t, v, base):
        return t.holds(ex), cur
    if v.op == "upd" and v.args[0] is base and same(t, v.args[1], pos):
        x = v.args[2]
        if same(t, fld(x, "0"), key) or fld(x, "0") is fld(mk("find", base, ex.args[1]), "0"):
            return True, fld(x, "1")
    if v.op == "concat" and len(v.args) == 2 and v.args[0] is base and v.args[1].op == "arr" and len(v.args[1].args) == 1:
        x = v.args[1].args[0]
        if same(t, fld(x, "0"), key) and t.holds(ex) is False:
            return False, fld(x, "1")
    return None


def swap_msg(t):
    ms = messages(t) or []
    if len(ms) == 1 and ms[0].kind == "proto" and ms[0].url in (SWAPIN, SWAPOUT):
        return ms[0]
    return None


def unstr(x):
    return x.args[0] if x.op == "to_string" else x


def c17(c, tier):
    e = execute(c)
    if not e:
        return
    D = F(REB, "deflation")
    for kind in ("Deflate", "Inflate"):
        for t, res in trades(c, e, kind):
            if res:
                continue
            w = W(t)
            key = info_key(t, kind)
            ti = LD("trade_infos", key)
            amount = t.arg("amount_out" if kind == "Deflate" else "amount_in")
            last = fld(ti, "last_traded_at")
            k = optcase(t, last)
            cd = fld(ti, "cooldown")
            cool = k == "None" or (k == "Some" and (
                t.holds(lt(NOW, add(SOME(last), cd))) is False or t.holds(lt(sub(NOW, SOME(last)), cd)) is False or t.holds(lt(add(SOME(last), cd), NOW)) is True))
            c.ob("cooldown", w, cool, "a trade is possible before the cooldown of its pair has passed", t)
            c.ob("max-trade", w, t.holds(lt(fld(ti, "max_trade_amount"), amount)) is False or t.holds(lt(amount, fld(ti, "max_trade_amount"))) is True, "a trade above the pair's limit is possible", t)
            m = swap_msg(t)
            if not c.ob("one-swap", w, m is not None, "a trade does not perform exactly one swap", t):
                continue
            b = m.body
            if kind == "Deflate":
                spend = unstr(fld(b, "token_in_max_amount"))
                lim = t.arg("max_amount_in")
                c.ob("slippage", w, same(t, spend, lim) or t.holds(lt(lim, spend)) is False or t.holds(lt(spend, lim)) is True, "a swap may spend more than the maximum given", t)
                ex, cur, pos = keyed_get(UNITS, t.arg("target_denom"))
                ex2, tgt, pos2 = keyed_get(D, t.arg("target_denom"))
                gap = mulfloor(TS, sub(cur, tgt))
                c.ob("planned-target", w, t.holds(ex2) is True, "a denom that the plan does not deflate is sold", t)
                c.ob("not-below-target", w, t.holds(lt(gap, spend)) is False or t.holds(lt(spend, gap)) is True, "a deflation may sell more than what exceeds the target", t)
                c.ob("exact-out", w, m.url == SWAPOUT, "a deflation is not an exact-output swap", t)
            else:
                get = unstr(fld(b, "token_out_min_amount"))
                lim = t.arg("min_amount_out")
                c.ob("slippage", w, same(t, get, lim) or t.holds(lt(get, lim)) is False or t.holds(lt(lim, get)) is True, "a swap may return less than the minimum given", t)
                ex, cur, pos = keyed_get(RSV, t.arg("target_denom"))
                have = mulfloor(TS, cur)
                c.ob("planned-target", w, t.holds(ex) is True, "a denom without reserve units is bought", t)
                c.ob("within-reserve", w, t.holds(lt(have, amount)) is False or t.holds(lt(amount, have)) is True, "an inflation may spend more than the reserve units of its target", t)
                c.ob("exact-in", w, m.url == SWAPIN, "an inflation is not an exact-input swap", t)


def spread(t, v, gain):
    """v = the reserve units plus shares of `gain` per inflation weight,
    never more than `gain` in total"""
    N = F(REB, "inflation")
    w = fld(el(N, 0), "1")
    if v.op != "foldj" or v.args[0] is not N:
        return "not a distribution over the inflation weights: " + brief(v, 200)
    base, j, inits, cases = v.args
    if not same(t, inits[j], RSV):
        return "does not start from the reserve units"
    rem = [i for i, x in enumerate(inits) if i != j and same(t, x, gain)]
    if not rem:
        return "does not distribute the gain"
    tot = [i for i, x in enumerate(inits) if x.op == "sumover" and x.args[0] is N and x.args[1] == (((), (w,)),)]
    if not tot:
        return "the weights are not summed"
    r, s = rem[0], tot[0]
    share = mk("decdiv", mul(mk("accv", r), w, "decmul"), mk("accv", s))
    pres = set()
    for g, vs in cases:
        st = keyed_step(mk("accv", j), g, vs[j], "0", "1")
        if st is None or st.key is not fld(el(N, 0), "0") or st.rest:
            return "does not credit each inflated denom"
        if st.delta is not share:
            return "the share of a denom is not remaining gain x weight / remaining weight: " + brief(st.delta, 200)
        if vs[r] is not sub(mk("accv", r), share) or vs[s] is not sub(mk("accv", s), w):
            return "the remaining gain or weight is not reduced by each share"
        pres.add(st.present)
    if pres != {True, False}:
        return "a denom is skipped"
    return None


def c18(c, tier):
    e = execute(c)
    if not e:
        return
    D = F(REB, "deflation")
    for kind in ("Deflate", "Inflate"):
        for t, res in trades(c, e, kind):
            w = W(t)
            d = t.arg("target_denom")
            U, R = t.final("index_units"), t.final("reserve_units")
            if not c.ob("records", w, saved(U) and saved(R), "index units and reserve units are not both updated", t):
                continue
            ex, cur, pos = keyed_get(UNITS, d)
            uc = unit_change(t, U, UNITS, d)
            if not c.ob("only-target-unit", w, uc is not None, "the index units change otherwise than in the target denom: " + brief(U, 200), t):
                continue
            m = None if res else swap_msg(t)
            if res:
                c.ob("reserve-needs-no-swap", w, not messages(t), "moving the reserve denom sends messages", t)
            elif not c.ob("one-swap", w, m is not None, "a trade does not perform exactly one swap", t):
                continue
            if m is not None:
                c.ob("swap-by-contract", w, same(t, fld(m.body, "sender"), SELF), "the swap is not on behalf of the contract", t)
            if kind == "Deflate":
                if res:
                    ex2, tgt, pos2 = keyed_get(D, d)
                    gain = sub(cur, tgt)
                    c.ob("unit-debit", w, uc[0] is True and same(t, uc[1], tgt), "the reserve denom's unit is not reduced to its target", t)
                else:
                    spend = unstr(fld(m.body, "token_in_max_amount"))
                    pc = proto_coin(m.body, "token_out")
                    good = pc is not None and same(t, pc[0], RDENOM) and same(t, pc[1], t.arg("amount_out"))
                    c.ob("buys-reserve", w, good, "a deflation does not buy the requested amount of the reserve denom", t)
                    tgt = keyed_get(D, d)[1]
                    whole = all_open(t, spend, mulfloor(TS, sub(cur, tgt)))
                    left = sub(cur, mk("ratio", spend, TS)) if whole is not True else tgt
                    c.ob("unit-debit", w, uc[0] is True and (same(t, uc[1], left) or same(t, uc[1], sub(cur, mk("ratio", spend, TS)))), "the unit is not reduced by the swap's spending limit per token", t)
                    gain = mk("ratio", t.arg("amount_out"), TS)
                why = spread(t, R, gain)
                c.ob("reserve-credit", w, why is None, "the reserve units: %s" % why, t)
            else:
                exr, curr, posr = keyed_get(RSV, d)
                rc = unit_change(t, R, RSV, d)
                if not c.ob("only-target-reserve", w, rc is not None and rc[0] is True, "the reserve units change otherwise than in the target denom", t):
                    continue
                base = cur if t.holds(ex) is True else ZERO if t.holds(ex) is False else None
                if res:
                    spent = got = curr
                else:
                    pc = proto_coin(m.body, "token_in")
                    good = pc is not None and same(t, pc[0], RDENOM) and same(t, pc[1], t.arg("amount_in"))
                    c.ob("sells-reserve", w, good, "an inflation does not sell the requested amount of the reserve denom", t)
                    spent = mk("ratio", t.arg("amount_in"), TS)
                    if all_open(t, t.arg("amount_in"), mulfloor(TS, curr)) is True and same(t, rc[1], ZERO):
                        spent = curr
                    got = mk("ratio", unstr(fld(m.body, "token_out_min_amount")), TS)
                c.ob("reserve-debit", w, same(t, rc[1], sub(curr, spent)), "the reserve unit is not reduced by what is spent per token", t)
                c.ob("unit-credit", w, base is not None and same(t, uc[1], add(base, got)), "the unit does not grow by the swap's guaranteed output per token", t)
            c.ob("changes-nothing-else", w, set(written(t)) <= {"index_units", "reserve_units"} | (set() if res else {"trade_infos"}), "a trade changes something else", t)


def all_open(t, amount, whole):
    """is all that is open traded?"""
    if same(t, amount, whole):
        return True
    for a, b in ((amount, whole), (whole, amount)):
        if t.holds(lt(a, b)) is True:
            return False
    if t.holds(lt(amount, whole)) is False and t.holds(lt(whole, amount)) is False:
        return True
    return t.holds(eq(amount, whole))


def c27(c, tier):
    """trading all that is open of an asset closes it exactly"""
    e = execute(c)
    if not e:
        return
    D = F(REB, "deflation")
    seen = set()
    for kind in ("Deflate", "Inflate"):
        for t, res in trades(c, e, kind):
            w = W(t)
            d = t.arg("target_denom")
            ns, seq = ("index_units", UNITS) if kind == "Deflate" else ("reserve_units", RSV)
            v = t.final(ns)
            ch = unit_change(t, v, seq, d) if saved(v) else None
            if not c.ob("only-target-unit", w, ch is not None and ch[0] is True, "the %s change otherwise than in the target denom" % ns.replace("_", " "), t):
                continue
            ex, cur, pos = keyed_get(seq, d)
            goal = keyed_get(D, d)[1] if kind == "Deflate" else ZERO
            if res:
                whole = True
            else:
                m = swap_msg(t)
                if not c.ob("one-swap", w, m is not None, "a trade does not perform exactly one swap", t):
                    continue
                if kind == "Deflate":
                    amount = unstr(fld(m.body, "token_in_max_amount"))
                else:
                    pc = proto_coin(m.body, "token_in")
                    amount = pc and pc[1]
                whole = all_open(t, amount, mulfloor(TS, sub(cur, goal)))
            seen.add((kind, res, whole))
            c.ob("whole-closes", w, whole is False or same(t, ch[1], goal), "trading all that is open leaves %s instead of %s" % (brief(ch[1], 200), brief(goal, 120)), t)
    for kind in ("Deflate", "Inflate"):
        c.floor("vacuity", kind + " of all that is open", len([s for s in seen if s[0] == kind and s[2] is not False]), 2)


def c19(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Gov", "UpdateTradeInfo"):
        ws = writes(t, "trade_infos")
        R = t.arg("routes")
        if not c.ob("registers-one", W(t), len(ws) == 1 and ws[0][0] == "save", "not exactly one pair is registered", t):
            continue
        k, key, v, x = ws[0]
        last = fld(mk("idxend", R, 1), "token_denom")
        alts = [last]
        for y in subterms(key):
            if y.op == "fld" and y.args[1] == "token_denom" and y.args[0].op in ("idx", "idxend") and y.args[0].args[0] is R:
                a = y.args[0]
                if a.op == "idx" and a.args[1] is sub(mk("len", R), I(1)):
                    alts.append(y)
        denom = fld(t.payload, "denom") if t.payload is not None else None
        c.ob("key-is-the-routes-pair", W(t), key.op == "tuple" and same(t, key.args[0], denom) and any(same(t, key.args[1], a) for a in alts), "routes are registered under a pair other than (denom, the denom their last hop ends in): " + brief(key, 200), t)
        c.ob("registers-as-given", W(t), all(same(t, fld(v, f), t.arg(f)) for f in ("routes", "cooldown", "max_trade_amount")), "routes or limits are not recorded as given", t)
    for kind in ("Deflate", "Inflate"):
        for t, res in trades(c, e, kind):
            if res:
                c.ob("no-routes-for-reserve", W(t), not writes(t, "trade_infos"), "moving the reserve denom changes trade routes", t)
                continue
            key = info_key(t, kind)
            ti = LD("trade_infos", key)
            w = W(t)
            c.ob("registered-pair", w, t.holds(HAS("trade_infos", key)) is True, "a trade succeeds without routes registered for its pair", t)
            ws = writes(t, "trade_infos")
            good = len(ws) == 1 and ws[0][0] == "save" and same(t, ws[0][1], key)
            if c.ob("stamps-own-pair", w, good, "a trade does not stamp exactly its own pair", t):
                v = ws[0][2]
                la = fld(v, "last_traded_at")
                c.ob("stamp", w, optcase(t, la) == "Some" and same(t, SOME(la), NOW) and all(same(t, fld(v, f), fld(ti, f)) for f in ("routes", "cooldown", "max_trade_amount")), "a trade does not record its time, or changes the routes or limits", t)
            m = swap_msg(t)
            if not c.ob("one-swap", w, m is not None, "a trade does not perform exactly one swap", t):
                continue
            R = fld(ti, "routes")
            mr = fld(m.body, "routes")
            x = elem(mr, R)
            f = "token_in_denom" if kind == "Deflate" else "token_out_denom"
            c.ob("uses-registered-routes", w, x is not None and same(t, fld(x, "pool_id"), fld(el(R, 0), "pool_id")) and same(t, fld(x, f), fld(el(R, 0), "token_denom")), "the swap does not follow the pair's registered routes: " + brief(mr, 200), t)
    for t in e.traces:
        if t.ok and t.path != ("Gov", "UpdateTradeInfo") and t.path[:2] != ("Rebalance", "Trade"):
            c.ob("routes-untouched", W(t), not writes(t, "trade_infos"), "writes trade routes", t)


# ------------------------------------------------------------- C22 - C26
def msg_text(x):
    """does the address come from caller-supplied text?"""
    return contains(x, MSG)


def addr_ok(t, x):
    if x is SENDER or x is SELF or validated(t, x):
        return True
    # an address on record; text made from one need not be an address
    while x.op in ("fld", "as"):
        x = x.args[0]
    return x.op in ("ld", "find", "el")


def all_entries(c):
    return [(nm, en) for nm, en in c.contract(CRATE).entries().items() if nm != "query"]


ADDRFIELDS = {"config": ["gov"], "fee": ["collector"], "rebalances": ["manager?"], "pending_gov": [""]}


def c22(c, tier):
    n = 0
    for nm, en in all_entries(c):
        for t in en.traces:
            if not t.ok:
                continue
            w = nm + " " + variant_name(t)
            for m in messages(t) or []:
                if m.kind in ("send", "wasm"):
                    n += 1
                    c.ob("recipient-validated", w, addr_ok(t, canon(t, m.to)) or addr_ok(t, m.to), "sends to %s, which is caller-supplied and not validated" % brief(m.to, 150), t)
            for ns, fs in ADDRFIELDS.items():
                v = t.final(ns)
                if not saved(v):
                    continue
                for f in fs:
                    x = v if not f else fld(v, f.rstrip("?"))
                    if f.endswith("?"):
                        if optcase(t, x) == "None":
                            continue
                        x = SOME(x)
                    n += 1
                    c.ob("stored-address-validated", w + " " + ns, addr_ok(t, x), "stores the address %s, which is caller-supplied and not validated" % brief(x, 150), t)
    c.floor("vacuity", "addresses", n, 60)


def version_ok(t, crate_name, c, w):
    ci = LD("contract_info")
    v = t.final("contract_info")
    if not c.ob("records-version", w, saved(v), "a migration does not record the version", t):
        return
    force = F(MSG, "force")
    k = optcase(t, force)
    forced = k == "Some" and t.holds(SOME(force)) is True
    unforced = k == "None" or (k == "Some" and t.holds(SOME(force)) is False)
    c.ob("force-decided", w, forced or unforced, "whether the migration is forced is not decided", t)
    new = fld(v, "version")
    c.ob("records-own-name", w, fld(v, "contract") is S(crate_name), "records another contract's name", t)
    if not forced:
        c.ob("same-contract", w, t.holds(eq(fld(ci, "contract"), S(crate_name))) is True, "migrates from a contract of another name", t)
        po, pn = SOME_OK(mk("parse", fld(ci, "version"))), SOME_OK(mk("parse", new))
        newer = False
        for l, p in t.lits:
            if p and l.op in ("lt", "slt") and contains(l.args[0], fld(ci, "version")) and contains(l.args[1], new):
                newer = True
            if not p and l.op in ("lt", "slt") and contains(l.args[1], fld(ci, "version")) and contains(l.args[0], new):
                # new >= old is not enough unless equality is excluded
                newer = newer or t.holds(eq(l.args[0], l.args[1])) is False
        c.ob("newer-version", w, newer, "migrates although the recorded version is not known to be older", t)
    c.ob("changes-nothing-else", w, set(written(t)) <= {"contract_info"} and not messages(t), "a migration changes other state", t)


def SOME_OK(x):
    return variant_payload(x, "Ok")


def c23(c, tier, crate=CRATE, name="ibcx-core"):
    m = c.entry(crate, "contract::migrate")
    i = c.entry(crate, "contract::instantiate")
    if not m or not i:
        return
    n = 0
    for t in m.ok():
        n += 1
        version_ok(t, name, c, crate + " migrate")
    c.floor("vacuity", crate + " migrate", n, 2)
    for t in i.ok():
        v = t.final("contract_info")
        c.ob("initial-version", crate + " instantiate", saved(v) and fld(v, "contract") is S(name), "instantiation does not record the contract's name and version", t)
    for nm, en in c.contract(crate).entries().items():
        if nm in ("execute", "reply"):
            for t in en.traces:
                if t.ok:
                    c.ob("version-only-by-migration", crate + " " + nm, not writes(t, "contract_info"), "changes the recorded version", t)


CREATE = "/osmosis.tokenfactory.v1beta1.MsgCreateDenom"


def c24(c, tier):
    i = c.entry(CRATE, "contract::instantiate")
    r = c.entry(CRATE, "contract::reply")
    e = execute(c)
    if not (i and r and e):
        return
    ids = set()
    for t in i.ok():
        ms = messages(t) or []
        w = "instantiate"
        good = len(ms) == 1 and ms[0].kind == "proto" and ms[0].url == CREATE
        if c.ob("creates-denom", w, good, "instantiation does not create exactly one denom", t):
            m = ms[0]
            c.ob("denom-as-asked", w, same(t, fld(m.body, "sender"), SELF) and same(t, fld(m.body, "subdenom"), F(MSG, "index_denom")), "the denom created is not the contract's own with the subdenom given", t)
            c.ob("reply-on-success", w, m.reply == "Success", "the denom creation is not answered exactly on success", t)
            ids.add(m.id)
        v = t.final("config")
        c.ob("unset-until-created", w, saved(v) and not contains(fld(v, "index_denom"), MSG), "the index denom is set before the denom exists", t)
        ts = t.final("total_supply")
        c.ob("starts-without-supply", w, ts is ZERO, "a new index starts with a supply", t)
        u = t.final("index_units")
        c.ob("starts-with-given-units", w, saved(u) and same(t, u, F(MSG, "index_units")), "the initial units are not those given", t)
        c.ob("initial-units-distinct", w, uniq_keys(t, F(MSG, "index_units"), "0"), "initial units naming a denom twice are accepted", t)
    c.floor("vacuity", "reply", len(r.ok()), 1)
    for t in r.ok():
        w = "reply"
        c.ob("own-reply", w, any(t.holds(eq(F(MSG, "id"), x)) is True for x in ids), "accepts a reply to something else than the denom creation", t)
        v = t.final("config")
        good = False
        if saved(v):
            d = fld(v, "index_denom")
            good = d.op == "fld" and d.args[1] == "new_token_denom" and contains(d, F(MSG, "result")) and t.holds(is_variant(F(MSG, "result"), "Ok", "cosmwasm_std::SubMsgResult")) is True
        c.ob("records-created-denom", w, good, "the index denom recorded is not the one reported by the denom creation", t)
        c.ob("reply-changes-nothing-else", w, only_changes(t, "config", ("index_denom",)) and set(written(t)) <= {"config"} and not messages(t), "the reply changes something else", t)
    for t in e.traces:
        if t.ok:
            c.ob("denom-fixed", W(t), not field_changed(t, "config", "index_denom"), "changes the index denom", t)


def c25(c, tier, crate=CRATE):
    n = 0
    for nm, en in c.contract(crate).entries().items():
        if nm == "query":
            continue
        for t in en.traces:
            if not t.ok:
                continue
            ms = messages(t)
            w = "%s %s %s" % (crate, nm, variant_name(t))
            if not c.ob("messages-known", w, ms is not None, "the messages of a result are not known", t):
                continue
            for m in ms:
                n += 1
                if m.kind == "many":
                    c.ob("messages-revert-together", w, not any_sub(m.term, lambda y: y.op == "adt" and y.args[0] == "cosmwasm_std::ReplyOn" and y.args[1] in ("Always", "Error")), "a failing message may be tolerated", t)
                else:
                    c.ob("messages-revert-together", w, m.reply in ("Never", "Success"), "a message is sent with reply_on %s: its failure would not revert the operation" % m.reply, t)
    c.floor("vacuity", crate, n, 1)


ALLOWED = {
    ("Mint",): "mint", ("Burn",): "burn", ("Realize",): "fee", ("Gov", "UpdateFeeStrategy"): "fee",
    ("Rebalance", "Trade", "Deflate"): "swap", ("Rebalance", "Trade", "Inflate"): "swap",
}


def c26(c, tier):
    e = execute(c)
    if not e:
        return
    n = 0
    for t in e.traces:
        if not t.ok:
            continue
        k = ALLOWED.get(t.path)
        w = W(t)
        for m in messages(t) or []:
            n += 1
            why = None
            if m.kind == "proto" and m.url in (MINTURL, BURNURL):
                why = None if k == ("mint" if m.url == MINTURL else "burn") else "token creation outside mint or burn"
            elif m.kind == "proto" and m.url in (SWAPIN, SWAPOUT):
                if k != "swap":
                    why = "a swap outside a rebalance trade"
                elif t.holds(ONREB) is not True or not same(t, fld(m.body, "sender"), SELF):
                    why = "a swap outside a rebalance, or not by the contract"
            elif m.kind == "send":
                if k is None or k == "swap":
                    why = "a payment to %s" % brief(m.to, 120)
                elif k in ("mint", "burn") and is_index_send(t, m):
                    pass  # amounts: C06, C07
                elif k == "mint":
                    r = Refund(t, m.coins)
                    if not (r.kf is not None and r.init is FUNDS and all(s.delta is ZERO or negative(s.delta) for s in r.steps)):
                        why = "a payment that is not a part of the funds sent along"
                elif k == "burn":
                    b = [x for x in messages(t) if x.kind == "proto" and x.url == BURNURL]
                    pc = proto_coin(b[0].body) if len(b) == 1 else None
                    if pc is None or not pays_units(t, m.coins, pc[1]):
                        why = "a payment that is not the redemption of the burned amount"
                elif k == "fee":
                    x = drop_zero(m.coins)
                    if not (same(t, m.to, COLLECTOR) and (same(t, x, COLLECTED) or accrued_list(t, x))):
                        why = "a payment that is not the collected fees for the recorded collector"
            else:
                why = "a message of an unexpected kind (%s)" % m.kind
            c.ob("assets-leave-only-as-promised", w, why is None, str(why), t)
    c.floor("vacuity", "execute messages", n, 50)
    for nm in ("reply", "migrate"):
        en = c.entry(CRATE, "contract::" + nm)
        for t in en.ok() if en else ():
            c.ob("sends-nothing", nm, not messages(t), "sends messages", t)


def negative(d):
    """a linear term with only negative parts"""
    if d.op == "int":
        return d.args[0] <= 0
    return d.op == "lin" and d.args[0] <= 0 and all(k < 0 for m, k in d.args[1])
