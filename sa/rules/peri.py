"""Properties of the periphery contract (ibcx-periphery)."""
from . import core2
from .core3 import answer
from .core2 import SWAPIN, SWAPOUT, unstr
from .lib import *
from .logic import none_of, refuted
from .shapes import strip_sort, elem

CRATE = "ibcx_periphery"
COMMA = I(44)
OPS = ("MintExactAmountIn", "MintExactAmountOut", "BurnExactAmountIn", "BurnExactAmountOut")
SIMS = tuple("Simulate" + o for o in OPS)
PAID = fld(mk("idx", FUNDS, I(0)), "amount")
PAID_DENOM = fld(mk("idx", FUNDS, I(0)), "denom")
U128MAX = I((1 << 128) - 1)


def W(t):
    return ("query " if t.path and t.path[0].startswith("Simulate") else "execute ") + variant_name(t)


def execute(c):
    e = c.entry(CRATE, "contract::execute")
    if e is not None:
        sane(c, e)
    return e


def query(c):
    return c.entry(CRATE, "contract::query")


def ops(c, *names, n=2):
    """the Ok traces of the four trades"""
    e = execute(c)
    if not e:
        return
    for o in names or OPS:
        ts = e.ok(o)
        c.floor("vacuity", "execute " + o, len(ts), n)
        for t in ts:
            yield Op(t)


def sims(c, *names, n=2):
    q = query(c)
    if not q:
        return
    for o in names or SIMS:
        ts = q.ok(o)
        c.floor("vacuity", "query " + o, len(ts), n)
        for t in ts:
            yield Op(t)


class Op:
    """a trade or its simulation: the terms its rules speak of"""

    def __init__(self, t):
        self.t = t
        self.name = t.path[0].replace("Simulate", "")
        self.sim = t.path[0] != self.name
        self.mint = self.name.startswith("Mint")
        self.w = W(t)
        self.core = t.arg("core_addr")
        self.si = t.arg("swap_info")
        self.q = core_queries(t)
        a = "input_asset" if self.mint else "output_asset"
        x = t.arg(a)
        self.coin = self.name == "BurnExactAmountOut" or (self.sim and self.name == "MintExactAmountIn")
        self.traded = fld(x, "denom") if self.coin else x
        self.want = fld(x, "amount") if self.coin else None
        self.units = self.answer("GetPortfolio", "units")
        self.index = self.answer("GetConfig", "index_denom")
        self.fee = self.answer("GetFee", "mint_fee" if self.mint else "burn_fee")

    def answer(self, what, field):
        q = self.q.get(what)
        return None if q is None else fld(variant_payload(q, "Ok"), field)

    @property
    def unit(self):
        """the generic unit"""
        return el(self.units, 0)

    def net(self, x):
        """x less the core's fee, rounded down (None: undecided)"""
        if self.fee is None:
            return None
        k = optcase(self.t, self.fee)
        if k == "None":
            return x
        return mulfloor(x, sub(ONE_, SOME(self.fee))) if k == "Some" else None

    def gross(self, x):
        """the amount whose net is x"""
        if self.fee is None:
            return None
        k = optcase(self.t, self.fee)
        if k == "None":
            return x
        return mulfloor(x, mk("decdiv", ONE_, sub(ONE_, SOME(self.fee)))) if k == "Some" else None

    # ---------------------------------------------------------- messages
    def parts(self):
        """[("one", M)] / [("many", base, [(guards, M)])], in order"""
        ms = self.t.messages()
        if ms is None:
            return None
        r = []
        for k, x in ms:
            if k == "one":
                r.append(("one", decode(k, x)))
            elif x.op == "comp":
                r.append(("many", x.args[0], [(guards(g) or (), decode("one", y)) for g, ys in x.args[1] for y in ys]))
            else:
                return None
        return r

    def swaps(self):
        """(base, cases) of the swaps, if the messages have the right form"""
        for p in self.parts() or ():
            if p[0] == "many":
                return p[1], p[2]
        return None

    def calls(self, v):
        """the calls of the named core's message v"""
        r = []
        for p in self.parts() or ():
            if p[0] == "one" and p[1].kind == "wasm" and same(self.t, p[1].to, self.core) and p[1].body.op == "adt" and p[1].body.args[:2] == ("ibcx_interface::core::ExecuteMsg", v):
                r.append(p[1])
        return r

    # ------------------------------------------------------------- cases
    def goal(self, g, *more):
        return tuple(g) + tuple(more) + tuple((c, p) for c, p in self.t.lits)

    def never(self, g, *more):
        """no unit satisfies the guards"""
        gg = guards(g)
        if gg is None:
            return True
        return refuted(self.goal(gg, *more), none_of(self.t, self.units))

    def is_traded(self, p):
        return (eq(fld(self.unit, "0"), self.traded), p)

    def splits(self, cases):
        """does every unit of another denom than the traded one meet a case of
        `cases`, and no other?"""
        all_ = refuted(self.goal((), self.is_traded(False)), none_of(self.t, self.units) + [g for g, _ in cases])
        none = all(self.never(g, self.is_traded(True)) for g, _ in cases)
        return all_, none

    # ------------------------------------------------------------ routes
    def found(self, x):
        """are x the routes given for the unit and the traded denom, in their
        direction?"""
        f = x.args[0] if x.op == "fld" and x.args[1] == "routes" else None
        if f is None or f.op != "find" or f.args[0] is not self.si or len(f.args[1]) != 2:
            return False
        first, last = (self.traded, fld(self.unit, "0")) if self.mint else (fld(self.unit, "0"), self.traded)
        key = mk("app", "split", fld(el(self.si, 0), "key"), COMMA)
        got = set()
        for c, p in f.args[1]:
            if not p or c.op != "eq":
                return False
            for a, b in (c.args, c.args[::-1]):
                if same(self.t, b, first) and a in FIRST(key):
                    got.add("first")
                if same(self.t, b, last) and a in LAST(key):
                    got.add("last")
        return got == {"first", "last"}

    def hop(self, routes):
        """(pool id, denom) of the generic hop of the routes"""
        s = mk("app", "split", el(routes, 0), COMMA)
        return variant_payload(mk("app", "parse", S("u64"), mk("idx", s, I(0))), "Ok"), LAST(s)

    def simulated(self, x, amount):
        """x = the amount that swapping the unit along its route takes (mint)
        or gives (burn), pool by pool; returns the routes, or None"""
        if x.op != "foldj" or len(x.args[3]) != 1:
            return None
        base, i, inits, cases = x.args
        fw = base.args[0] if base.op == "rev" else base
        if not self.found(fw) or (base.op == "rev") != self.mint:
            return None
        g, step = cases[0]
        if g:
            return None
        d = [k for k, v in enumerate(inits) if same(self.t, v, fld(self.unit, "0"))]
        if len(inits) != 2 or len(d) != 1 or d[0] == i or not same(self.t, inits[i], amount):
            return None
        d = d[0]
        pid, denoms = self.hop(base)
        if step[d] not in denoms:
            return None
        v = step[i]
        y = payload_of(v)
        if y is None or y.op != "app":
            return None
        have = mk_coin(mk("accv", d), mk("accv", i))
        a = y.args[1:]
        fn = str(y.args[0])
        if len(a) != 6:
            return None
        pool = a[0]
        if not self.pool(pool, pid) or not spread_of(a[5], pool):
            return None
        if self.mint:
            ok = fn.endswith("swap_exact_amount_out") and a[2] is step[d] and a[3] is U128MAX and a[4] is have
        else:
            ok = fn.endswith("swap_exact_amount_in") and a[2] is have and a[3] is step[d] and a[4] is I(0)
        return fw if ok else None

    def pool(self, x, pid):
        """is x the pool queried under this id?"""
        if x.op == "mapget" and x.args[1] is pid and x.args[0].op == "mapof":
            ps = x.args[0].args[0]
            if ps.op != "comp":
                return False
            for g, ys in ps.args[1]:
                for y in ys:
                    k, v = fld(y, "0"), fld(y, "1")
                    if not (k.op == "app" and str(k.args[0]).endswith("get_id") and k.args[-1] is v):
                        return False
            return True
        if x.op == "find" and x.args[0].op == "comp" and len(x.args[1]) == 1:
            c, p = x.args[1][0]
            if not p or c.op != "eq":
                return False
            for a, b in (c.args, c.args[::-1]):
                if b is pid and a.op == "app" and str(a.args[0]).endswith("get_id") and a.args[-1] is el(x.args[0], 0):
                    return True
        return False

    def total(self, x, amount, failing=True):
        """x = what all units together take or give: what the swap of a unit
        is simulated to, the amount itself for the traded denom"""
        if x.op != "sumover" or x.args[0] is not self.units:
            return False
        sw = []
        for g, v in x.args[1]:
            g = guards(g)
            if g is None:
                continue
            v = v[0] if isinstance(v, tuple) else v
            if self.never(g, self.is_traded(True)):
                if self.simulated(v, amount) is None:
                    return False
                sw.append((g, v))
            elif self.never(g, self.is_traded(False)):
                if not same(self.t, v, amount):
                    return False
                sw.append((g, v))
            else:
                return False
        if not failing:
            # in a round that goes on nothing has failed
            sw = [([(l, p) for l, p in g if l.op not in ("exists", "is", "ovf", "mapin")], v) for g, v in sw]
        return refuted(self.goal(()), none_of(self.t, self.units) + [g for g, _ in sw])

    def unit_coins(self, x, amount, ordered=False):
        """x = floor(amount x unit) of every unit, as coins"""
        y = x
        if ordered:
            if not (x.op == "sortedby" and len(x.args[1]) == 1 and not x.args[1][0][0] and by_denom(x.args[1][0][1])) and x.op != "sorted":
                return False
        y = strip_sort(x)
        e = elem(y, self.units)
        return e is not None and same(self.t, fld(e, "denom"), fld(self.unit, "0")) and same(self.t, fld(e, "amount"), self.each(amount))

    def each(self, amount):
        return mulfloor(amount, fld(self.unit, "1"))


def FIRST(s):
    return (mk("idx", s, I(0)), variant_payload(mk("first", s), "Some"))


def LAST(s):
    return (mk("idxend", s, 1), mk("idx", s, I(1)))


def by_denom(c):
    c = c[0] if isinstance(c, tuple) else c
    return c.op == "cmp" and c.args[0] is fld(mk("cmpl"), "denom") and c.args[1] is fld(mk("cmpr"), "denom")


def payload_of(v):
    """x with v = the Ok payload of x"""
    if v.op == "fld" and v.args[0].op == "as" and v.args[0].args[1] == "Ok":
        return v.args[0].args[0]
    return None


def spread_of(x, pool):
    y = payload_of(x)
    return y is not None and y.op == "app" and str(y.args[0]).endswith("get_spread_factor") and y.args[-1] is pool


def mk_coin(d, a):
    return mk("adt", COIN, "Coin", d, a)


COIN = "cosmwasm_std::Coin"
ONE_ = I(1)


def core_queries(t):
    """the answers of the core that a trace uses: {message: qry term};
    "?": queries of another contract, another time or the wrong answer type"""
    r = {}
    core = t.arg("core_addr")
    for q in all_queries(t):
        b = q.args[2]
        w = wasm_query(b)
        if w is None:
            continue
        to, m = w
        nm = None
        if m.op == "adt" and m.args[0] == "ibcx_interface::core::QueryMsg" and same(t, to, core):
            nm = m.args[1]
            tm = fld(m, "time") if nm in ("GetPortfolio", "GetConfig", "GetFee") else None
            if tm is not None and not (optcase(t, tm) == "None" or (optcase(t, tm) == "Some" and same(t, SOME(tm), NOW))):
                nm = None
            if nm and not tyname(q).endswith("::%sResponse" % nm):
                nm = None
        r.setdefault(nm or "?", q)
    return r


def all_queries(t):
    seen = []
    for x in [t.ret] + [c for c, _ in t.lits]:
        for y in subterms(x):
            if y.op == "qry" and y not in seen and tyname(y) != "cosmwasm_std::Coin":
                seen.append(y)
    return seen


def tyname(q):
    x = q.args[1]
    return x.args[0] if isinstance(x, T) else str(x)


def wasm_query(b):
    """(contract, message) of a smart query"""
    if b.op == "adt" and b.args[1] == "Wasm":
        s = fld(b, "0")
        if s.op == "adt" and s.args[1] == "Smart":
            m = fld(s, "msg")
            return fld(s, "contract_addr"), (m.args[-1] if m.op in ("json", "to_json", "app") else m)
    return None


# ------------------------------------------------------------------- P01
def p01(c, tier):
    e = execute(c)
    if not e:
        return
    ts = e.ok("FinishOperation")
    c.floor("vacuity", "execute FinishOperation", len(ts), 1)
    for t in ts:
        w = W(t)
        ms = messages(t) or []
        c.ob("own-call-only", w, same(t, SENDER, SELF), "finishing an operation succeeds for another caller than the contract itself: anybody could take the balance", t)
        if not c.ob("one-payment", w, len(ms) == 1 and ms[0].kind == "send", "finishing an operation does not make exactly one payment", t):
            continue
        m = ms[0]
        c.ob("paid-to-refund-address", w, same(t, m.to, t.arg("refund_to")), "the balance is not paid to the refund address", t)
        c.ob("refund-address-valid", w, t.holds(mk("valid_addr", t.arg("refund_to"))) is True, "the refund address is not validated", t)
        x = m.coins.args[0] if m.coins.op == "arr" and len(m.coins.args) == 1 else None
        good = False
        if x is not None:
            for q in subterms(x):
                if q.op == "qry" and tyname(q) == "cosmwasm_std::Coin" and len(q.args) >= 4 and same(t, q.args[2], SELF) and same(t, q.args[3], t.arg("refund_asset")):
                    b = variant_payload(q, "Ok")
                    good = same(t, fld(x, "amount"), fld(b, "amount")) and (same(t, fld(x, "denom"), fld(b, "denom")) or same(t, fld(x, "denom"), t.arg("refund_asset")))
        c.ob("whole-balance", w, good, "the payment is not the contract's whole balance of the refund asset", t)


# ------------------------------------------------------------------- P02
def finishes(o):
    """the calls of the contract itself, with their position"""
    r = []
    ps = o.parts() or []
    for i, p in enumerate(ps):
        if p[0] == "one" and p[1].kind == "wasm" and same(o.t, p[1].to, SELF):
            r.append((i, p[1]))
    return r


def p02(c, tier):
    for o in ops(c):
        t, w = o.t, o.w
        ps = o.parts()
        if not c.ob("messages-known", w, ps is not None, "the messages of an operation are not known", t):
            continue
        fs = finishes(o)
        want = [o.traded] + ([o.index] if o.name == "BurnExactAmountOut" else [])
        left = list(want)
        for i, m in fs:
            b = m.body
            ok = b.op == "adt" and b.args[0].endswith("periphery::ExecuteMsg") and b.args[1] == "FinishOperation"
            c.ob("finish-message", w, ok, "the contract calls itself with something else than finishing the operation", t)
            if not ok:
                continue
            c.ob("rest-to-sender", w, same(t, fld(b, "refund_to"), SENDER), "what is left is not returned to the sender", t)
            a = fld(b, "refund_asset")
            for x in left:
                if x is not None and same(t, a, x):
                    left.remove(x)
                    break
            after = [p for p in ps[i + 1:] if not (p[0] == "one" and p[1].kind == "wasm" and same(t, p[1].to, SELF))]
            c.ob("finish-last", w, not after, "the rest is returned before the operation is complete", t)
        c.ob("rest-returned", w, not left, "the rest of %s is not returned" % ("the traded asset" if left[:1] == want[:1] else "the index tokens"), t)
        if o.mint:
            for m in o.calls("Mint"):
                for f, what in (("receiver", "minted tokens"), ("refund_to", "refunds of the mint")):
                    x = fld(m.body, f)
                    c.ob("mint-for-sender", w, optcase(t, x) == "Some" and same(t, SOME(x), SENDER), "the %s do not go to the sender" % what, t)
        else:
            for m in o.calls("Burn"):
                x = fld(m.body, "redeem_to")
                c.ob("redeemed-to-contract", w, optcase(t, x) == "None" or (optcase(t, x) == "Some" and same(t, SOME(x), SELF)), "redeemed assets do not come back to be swapped", t)


# ------------------------------------------------------------------- P03
def p03(c, tier):
    for o in ops(c):
        t, w = o.t, o.w
        d = o.traded if o.mint else o.index
        c.ob("one-coin", w, t.holds(eq(I(1), mk("len", FUNDS))) is True, "an operation succeeds without exactly one coin attached", t)
        c.ob("denom-paid", w, d is not None and same(t, PAID_DENOM, d), "the coin attached is not of the asset to be %s" % ("spent" if o.mint else "burned"), t)
        c.ob("non-zero", w, t.holds(eq(PAID, I(0))) is False or t.holds(lt(I(0), PAID)) is True, "an operation succeeds with a zero payment", t)


# ------------------------------------------------------------------- P04
def p04(c, tier):
    for o in ops(c):
        t, w = o.t, o.w
        ps = o.parts()
        if not c.ob("messages-known", w, ps is not None, "the messages of an operation are not known", t):
            continue
        kinds = []
        for p in ps:
            if p[0] == "many":
                kinds.append("swaps" if p[2] and all(m.kind == "proto" and m.url in (SWAPIN, SWAPOUT) for _, m in p[2]) else "?")
            elif p[1].kind == "wasm" and p[1] and same(t, p[1].to, SELF):
                kinds.append("finish")
            elif p[1].kind == "wasm" and same(t, p[1].to, o.core) and p[1].body.op == "adt" and p[1].body.args[0] == "ibcx_interface::core::ExecuteMsg":
                kinds.append(p[1].body.args[1])
            else:
                kinds.append("?")
        want = ["swaps", "Mint"] if o.mint else ["Burn", "swaps"]
        core = [k for k in kinds if k != "finish"]
        if not c.ob("steps-in-order", w, core == want, "the steps of the operation are %s, not %s" % (", ".join(core), ", ".join(want)), t):
            continue
        base, cases = o.swaps()
        c.ob("swaps-over-units", w, base is o.units, "the swaps are not made for the units of the core's portfolio", t)
        if base is not o.units:
            continue
        all_, none = o.splits(cases)
        c.ob("every-other-unit-swapped", w, all_, "a unit of another denom than the traded one may be left without its swap", t)
        c.ob("traded-denom-not-swapped", w, none, "a swap of the traded asset into itself", t)
        for g, m in cases:
            b = m.body
            c.ob("swap-kind", w, m.url == (SWAPOUT if o.mint else SWAPIN), "a swap of the wrong kind (exact input or exact output)", t)
            c.ob("swap-by-contract", w, same(t, fld(b, "sender"), SELF), "a swap is not made by the contract", t)
            co = fld(b, "token_out" if o.mint else "token_in")
            c.ob("swap-of-unit", w, optcase(t, co) == "Some" and same(t, fld(SOME(co), "denom"), fld(o.unit, "0")), "a swap does not trade its unit's denom", t)
            c.ob("swap-route", w, route_msg(o, fld(b, "routes")), "a swap does not take the route given for its pair, hop by hop in order", t)


def route_msg(o, x):
    """the message's hops are the given ones, in the given order"""
    e = None
    if x.op == "comp" and len(x.args[1]) == 1 and not x.args[1][0][0] and len(x.args[1][0][1]) == 1:
        e = x.args[1][0][1][0]
    if e is None or not o.found(x.args[0]):
        return False
    pid, denoms = o.hop(x.args[0])
    return e.op == "adt" and fld(e, "pool_id") is pid and fld(e, "token_in_denom" if o.mint else "token_out_denom") in denoms


# ------------------------------------------------------------------- P05
def core_call(c, o):
    m = o.calls("Mint" if o.mint else "Burn")
    if c.ob("core-called", o.w, len(m) == 1, "the named core is not called exactly once", o.t):
        return m[0]
    return None


def burned(o, m):
    """the amount of index tokens sent to be burned"""
    x = coins1(m.funds)
    if x is not None and o.index is not None and same(o.t, x[0], o.index):
        return x[1]
    return None


def p05(c, tier):
    for o in list(ops(c)) + list(sims(c)):
        t, w = o.t, o.w
        c.ob("only-the-named-core-now", w, "?" not in o.q, "asks another contract, for another time, or misreads the answer", t)
        c.ob("core-address-valid", w, t.holds(mk("valid_addr", o.core)) is True, "the address of the core is not validated", t)
        if not c.ob("asks-portfolio-and-fee", w, o.units is not None and o.fee is not None, "does not work from the core's current units and fee", t):
            continue
        if o.sim:
            continue
        m = core_call(c, o)
        sw = o.swaps()
        if m is None or sw is None or sw[0] is not o.units:
            c.ob("swaps-known", w, False, "the swaps are not known", t)
            continue
        if o.mint:
            amount = fld(m.body, "amount")
            c.ob("mint-funded-exactly", w, o.unit_coins(m.funds, amount, ordered=True), "the mint is not funded with floor(amount x unit) of every unit, sorted by denom", t)
            if o.name == "MintExactAmountOut":
                c.ob("mint-as-asked", w, same(t, amount, t.arg("output_amount")), "mints another amount than asked for", t)
            got = amount
        else:
            b = burned(o, m)
            if not c.ob("burns-index-tokens", w, b is not None, "does not send index tokens to be burned", t):
                continue
            if o.name == "BurnExactAmountIn":
                c.ob("burns-all-paid", w, same(t, b, PAID), "does not burn exactly the tokens paid", t)
            got = o.net(b)
            if not c.ob("fee-decided", w, got is not None, "whether a burn fee applies is not decided", t):
                continue
        for g, s in sw[1]:
            co = SOME(fld(s.body, "token_out" if o.mint else "token_in"))
            c.ob("swap-amount", w, same(t, unstr(fld(co, "amount")), o.each(got)), "a swap does not %s" % ("obtain exactly what the mint needs of its unit" if o.mint else "sell exactly what the burn redeems of its unit"), t)


# ------------------------------------------------------------------- P06
def p06(c, tier):
    for o in ops(c):
        t, w = o.t, o.w
        m = core_call(c, o)
        sw = o.swaps()
        if m is None or sw is None or sw[0] is not o.units or not sw[1]:
            c.ob("swaps-known", w, False, "the swaps are not known", t)
            continue
        if o.mint:
            base = fld(m.body, "amount")
        else:
            b = burned(o, m)
            base = o.net(b) if b is not None else None
        if not c.ob("amount-known", w, base is not None, "the amount minted or burned is not known", t):
            continue
        amount = o.each(base)
        tot = None
        for g, s in sw[1]:
            x = unstr(fld(s.body, "token_in_max_amount" if o.mint else "token_out_min_amount"))
            r = scaled(x)
            if not c.ob("limit-proportional", w, r is not None, "the limit of a swap is not its simulated amount scaled by limit over total", t):
                continue
            sim, lim, tt = r
            c.ob("limit-simulated", w, o.simulated(sim, amount) is not None, "the limit of a swap does not come from simulating its own route and amount", t)
            if tt is not None:
                c.ob("limit-total", w, o.total(tt, amount), "the limit of a swap is not scaled by the total of all units", t)
                tot = tt
                c.ob("limit-of-trade", w, same(t, lim, limit_of(o, tt)), "the limit of a swap is not taken from the limit of the whole trade", t)
            else:
                c.ob("limit-of-trade", w, o.name == "BurnExactAmountOut", "the limit of a swap is not taken from the limit of the whole trade", t)
        if o.name == "MintExactAmountOut":
            c.ob("within-payment", w, tot is not None and (t.holds(lt(PAID, tot)) is False), "mints although the simulated cost exceeds the payment", t)
        elif o.name == "MintExactAmountIn":
            n = o.net(base)
            mn = t.arg("min_output_amount")
            c.ob("minimum-received", w, n is not None and (t.holds(lt(n, mn)) is False or same(t, n, mn)), "mints although less than the minimum is left after the mint fee", t)
        elif o.name == "BurnExactAmountIn":
            c.ob("minimum-received", w, tot is not None and t.holds(lt(tot, t.arg("min_output_amount"))) is False, "burns although the simulated output is below the minimum", t)
        else:
            c.ob("within-payment", w, t.holds(lt(PAID, b)) is False, "burns more than was paid", t)


def limit_of(o, tot):
    if o.name == "MintExactAmountOut":
        return PAID
    if o.name == "MintExactAmountIn":
        return add(tot, I(10000))
    if o.name == "BurnExactAmountIn":
        return o.t.arg("min_output_amount")
    return tot


def scaled(x):
    """(value, limit, total) with x = floor(value x limit/total)"""
    if x.op == "mulfloor":
        for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
            if b.op == "ratio":
                return a, b.args[0], b.args[1]
    if x.op == "foldj":
        return x, None, None
    return None


# ------------------------------------------------------------------- P07
def p07(c, tier):
    for o in sims(c):
        t, w = o.t, o.w
        a = answer(t)
        if not c.ob("answer-known", w, a is not None and a.op == "adt", "the answer is not known", t) or o.units is None:
            continue
        res = fld(a, "swap_result_amount")
        c.ob("result-denom", w, same(t, fld(res, "denom"), o.traded), "the result is not in the traded denom", t)
        out = fld(a, "mint_amount" if o.mint else "burn_amount")
        lst = fld(a, "mint_spend_amount" if o.mint else "burn_redeem_amount")
        if o.name == "MintExactAmountOut":
            x = t.arg("output_amount")
            c.ob("net-of-mint-fee", w, o.net(x) is not None and same(t, out, o.net(x)), "the amount minted is not quoted net of the mint fee", t)
            c.ob("units-quoted", w, o.unit_coins(lst, x), "the assets needed are not quoted for the full amount", t)
            c.ob("result-simulated", w, o.total(fld(res, "amount"), o.each(x)), "the input quoted is not the simulated cost of the full amount", t)
        elif o.name == "BurnExactAmountIn":
            x = o.net(t.arg("input_amount"))
            c.ob("net-of-burn-fee", w, x is not None and same(t, out, x), "the amount burned is not quoted net of the burn fee", t)
            if x is None:
                continue
            c.ob("units-quoted", w, o.unit_coins(lst, x), "the redemptions are not quoted net of the burn fee", t)
            c.ob("result-simulated", w, o.total(fld(res, "amount"), o.each(x)), "the output quoted is not the simulated proceeds net of the burn fee", t)
        else:
            # the amount found by the search is what the result is simulated for
            est = estimate(o, fld(res, "amount"))
            if not c.ob("result-simulated", w, est is not None, "the result is not the simulation of the amount searched for", t):
                continue
            if o.mint:
                x = sub(est, I(100))
                c.ob("net-of-mint-fee", w, o.net(x) is not None and same(t, out, o.net(x)), "the amount minted is not quoted net of the mint fee", t)
            else:
                x = est
                c.ob("gross-of-burn-fee", w, o.gross(x) is not None and same(t, out, o.gross(x)), "the amount to burn is not quoted before the burn fee", t)
            c.ob("units-quoted", w, o.unit_coins(lst, x), "the assets are not quoted for the amount minted or redeemed", t)


def estimate(o, tot):
    """the amount whose units `tot` simulates"""
    if tot.op != "sumover" or tot.args[0] is not o.units:
        return None
    for x in subterms(tot):
        if x.op == "mulfloor":
            for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if b is fld(o.unit, "1") and o.total(tot, x):
                    return a
    return None


# ------------------------------------------------------------------- P08
def p08(c, tier):
    core2.c23(c, tier, CRATE, "ibcx-periphery")
    for nm, en in c.contract(CRATE).entries().items():
        n = 0
        for t in en.traces:
            if t.ok:
                n += 1
                c.ob("keeps-nothing", "%s %s" % (nm, variant_name(t)), set(written(t)) <= {"contract_info"}, "keeps state: " + ", ".join(written(t)), t)
        c.floor("vacuity", nm, n, 1)


# ------------------------------------------------------------------- P09
def p09(c, tier):
    core2.c25(c, tier, CRATE)


# ------------------------------------------------------------------ P11
def p11(c, tier):
    """minting trades take the mint fee into account and never the burn fee,
    burning trades the other way around"""
    for root, pre in (("contract::execute", ""), ("contract::query", "Simulate")):
        e = c.entry(CRATE, root)
        if not e:
            continue
        for op in OPS:
            own, other = ("mint_fee", "burn_fee") if op.startswith("Mint") else ("burn_fee", "mint_fee")
            w = root.rsplit("::", 1)[1] + " " + pre + op
            ts = [t for t in e.ok() if t.path[:1] == (pre + op,)]
            c.floor("vacuity", w, len(ts), 2)
            used = 0
            for t in ts:
                rates = [y for x in (t.ret,) + tuple(l for l, _ in t.lits) + tuple(t.eff) for y in subterms(x) if y.op == "fld" and y.args[1] in (own, other) and has_op(y.args[0], ("qry",))]
                bad = [y for y in rates if y.args[1] == other]
                used += any(y.args[1] == own for y in rates)
                c.ob("fee-of-its-kind", w, not bad, "what the trade does depends on the %s" % other.replace("_", " "), t)
            c.ob("own-fee-considered", w, used == len(ts) or used >= 2, "the %s has no part in the outcome" % own.replace("_", " "))
