"""Properties of the pool simulation (ibcx-pool) and its mathematics
(ibcx-math)."""
from ..real import atom, const, real
from .lib import *
from .logic import refuted, none_of, no_element
from .peri import Op, U128MAX, all_queries, mk_coin, payload_of

CRATE = "ibcx_pool"
ME = sym("self")
ZERO = I(0)
TRAIT = "ibcx_pool::OsmosisPool"


def impls(c, method):
    """{pool type: root} of a method of the pool trait"""
    r = {}
    for n in c.contract(CRATE).p.roots:
        if n.startswith("<") and n.endswith(" as %s>::%s" % (TRAIT, method)):
            r[n[1:].split(" as ")[0]] = n
    return r


def simulator(c, method, **kw):
    ns = [n for n in c.contract(CRATE).p.roots if n.endswith("::" + method) and "Simulator" in n]
    if len(ns) != 1:
        c.fail("missing-entry", method, "the simulator has no method %s" % method)
        return None
    return c.contract(CRATE).run(ns[0], **kw)


def weighted(c):
    return [k for k in impls(c, "get_id") if "::weighted::" in k]


def after(t, i=0):
    """the receiver after a &mut self call"""
    return t.st.mem.get(("in", i))


def asset(denom):
    s = fld(ME, "pool_assets")
    return mk("find", s, ((eq(fld(fld(el(s, 0), "token"), "denom"), denom), True),))


def bal(denom):
    return fld(fld(asset(denom), "token"), "amount")


# ------------------------------------------------------------- M01, M02
SWAPS = (("swap_exact_amount_in", False), ("swap_exact_amount_out", True))


class Swap:
    def __init__(self, t, out):
        self.t, self.out = t, out
        coin = sym("output_amount" if out else "input_amount")
        self.given = fld(coin, "amount")
        self.d_in = sym("input_denom") if out else fld(coin, "denom")
        self.d_out = fld(coin, "denom") if out else sym("output_denom")
        self.result = t.val
        self.w = "weighted " + ("swap_exact_amount_out" if out else "swap_exact_amount_in")

    def formula(self):
        """base and exponent of the power, the amount as a function of it"""
        bi, bo = real(bal(self.d_in)), real(bal(self.d_out))
        wi, wo = real(fld(asset(self.d_in), "weight")), real(fld(asset(self.d_out), "weight"))
        keep = const(1) - real(sym("spread_factor"))
        x = real(self.given)
        if self.out:
            return bo / (bo - x), wo / wi, lambda p: bi * (p - const(1)) / keep
        return bi / (bi + x * keep), wi / wo, lambda p: bo * (const(1) - p)


def swaps(c):
    for m, out in SWAPS:
        n = 0
        for ty in weighted(c):
            e = c.contract(CRATE).run(impls(c, m)[ty])
            for t in e.traces:
                if t.ok:
                    n += 1
                    yield Swap(t, out)
        c.floor("vacuity", "weighted " + m, n, 1)


def pow_leaf(base, exp, P):
    def leaf(x):
        y = payload_of(x)
        if y is not None and y.op == "app" and y.args[0] == "pow":
            if real(y.args[1]).same(base) and real(y.args[2]).same(exp):
                return atom(P)
        return None

    return leaf


WHOLE = ("to_uint_ceil", "to_uint_floor", "mulceil", "mulfloor", "muldiv", "idiv", "divceil", "ceil", "floor")
CEILS = ("to_uint_ceil", "mulceil", "divceil", "ceil")


def m01(c, tier):
    P = sym("the power")
    for s in swaps(c):
        t, r = s.t, s.result
        b, e, f = s.formula()
        top = r
        up = r.op in ("to_uint_ceil", "mulceil")
        down = r.op in ("to_uint_floor", "mulfloor")
        c.ob("rounded-for-the-pool", s.w, up if s.out else down, "the amount %s is not rounded %s" % (("taken in", "up") if s.out else ("given out", "down")), t)
        inner = [x for a in r.args if isinstance(a, T) for x in subterms(a)]
        c.ob("inner-rounding", s.w, s.out or not any(x.op in CEILS for x in inner), "an amount on the way to the output is rounded up", t)
        rounded = [x for x in inner if x.op in WHOLE]
        after_fee = real(s.given) * (const(1) - real(sym("spread_factor")))
        c.ob("whole-units", s.w, all(not s.out and real(x).same(after_fee) for x in rounded), "an amount on the way is rounded to whole units", t)
        leaf = pow_leaf(b, e, P)
        v = const(1)
        if r.op in ("to_uint_ceil", "to_uint_floor"):
            v = real(r.args[0], leaf)
        else:
            v = real(r, leaf)
        want = f(atom(P))
        ok = v.same(want)
        if not ok and v.same(const(-1) * want):
            # the power is exactly one: both are zero
            ps = {x for x in subterms(r) if payload_of(x) is not None and payload_of(x).op == "app" and payload_of(x).args[0] == "pow"}
            ok = bool(ps) and all(t.holds(lt(x, I(1))) is False and t.holds(lt(I(1), x)) is False for x in ps)
        c.ob("invariant-formula", s.w, ok, "the amount is not what the pool's weighted invariant gives for this trade after its spread factor", t)


def m02(c, tier):
    n = 0
    for s in swaps(c):
        t = s.t
        new = after(t)
        old = fld(ME, "pool_assets")
        if not c.ob("balances-known", s.w, new is not None, "what a swap does to its pool is not known", t):
            continue
        x = fld(new, "pool_assets")
        amount_in, amount_out = (s.result, s.given) if s.out else (s.given, s.result)
        verdict = moved(t, x, old, s, amount_in, amount_out)
        c.ob("balances-moved", s.w, verdict is None, "the pool's balances after a swap: %s" % verdict, t)
        for f in ("id", "pool_params", "total_weight"):
            c.ob("pool-otherwise-same", s.w, same(t, fld(new, f), fld(ME, f)), "a swap changes the pool's %s" % f, t)
    for m, inn in (("estimate_token_given_index_in", True), ("estimate_token_given_index_out", False)):
        e = simulator(c, m, boxmut=True)
        if e is None:
            continue
        ts = [t for t in e.traces if t.ok]
        c.floor("vacuity", m, len(ts), 1)
        for t in ts:
            carried(c, t, m)


def moved(t, x, old, s, amount_in, amount_out):
    """None, or what is wrong with the pool's assets x"""
    e = el(old, 0)
    den = fld(fld(e, "token"), "denom")
    now = fld(fld(e, "token"), "amount")
    is_in, is_out = eq(den, s.d_in), eq(den, s.d_out)
    want = ((s.d_in, is_in, add(now, amount_in), add(bal(s.d_in), amount_in)), (s.d_out, is_out, sub(now, amount_out), sub(bal(s.d_out), amount_out)))
    cases = []
    if x.op == "comp" and x.args[0] is old:
        cases = [(g, ys) for g, ys in x.args[1]]
    else:
        # changed one by one
        seen = set()
        y = x
        while y.op == "upd":
            i = y.args[1]
            k = [d for d, q, _, _ in want if i.op == "pos" and (i.args[0] is old or i.args[0] is y.args[0]) and i.args[1] == ((subst(q, {old: i.args[0]}), True),)]
            if len(k) != 1 or k[0] in seen:
                return "an asset is changed that is not known to be one of the two traded"
            seen.add(k[0])
            v = fld(fld(y.args[2], "token"), "amount")
            w = [z for z in want if z[0] is k[0]][0]
            if not (same(t, v, w[3]) or same(t, v, subst(w[2], {e: mk("find", old, ((w[1], True),))}))):
                return "a traded asset's balance does not move by the amount traded"
            y = y.args[0]
        if y is not old or len(seen) != 2:
            return "not both traded assets change"
        return None
    for d, q, a, b in want:
        if not any((q, True) in g for g, _ in cases):
            return "a traded asset keeps its balance"
    for g, ys in cases:
        if len(ys) != 1:
            return "an asset is dropped or repeated"
        y = ys[0]
        if not same(t, fld(y, "weight"), fld(e, "weight")):
            return "an asset's weight changes"
        if not (same(t, fld(fld(y, "token"), "denom"), den) or any(p and q.op == "eq" and set(q.args) == {den, fld(fld(y, "token"), "denom")} for q, p in g)):
            return "an asset's denom changes"
        v = fld(fld(y, "token"), "amount")
        ci, co = (dict(g).get(is_in), dict(g).get(is_out))
        if ci and co:
            continue
        if ci:
            ok = same(t, v, want[0][2]) or same(t, v, want[0][3])
        elif co:
            ok = same(t, v, want[1][2]) or same(t, v, want[1][3])
        elif ci is False and co is False:
            ok = same(t, v, now)
        else:
            return "it is not known which asset changes"
        if not ok:
            return "a balance does not move by the amount traded"
    if not refuted((), [g for g, _ in cases]):
        return "an asset is dropped"
    return None


def swap_calls(x):
    return {y for y in subterms(x) if y.op == "app" and str(y.args[0]).startswith(TRAIT + "::swap_exact")}


def carried(c, t, where):
    """The pools a swap is simulated on are those left by the swaps before it
    in the same estimate, the first on the pools as they were given."""
    n = 0
    hops = set()
    for x in subterms(t.ret):
        if x.op in ("foldj", "fold") and swap_calls(x) and any(y.op == "accv" or y.op == "el" for y in subterms(x)):
            hops.add(x)
    for h in hops:
        cases = h.args[-1]
        for g, step in cases:
            step = step if isinstance(step, tuple) else (step,)
            inits = h.args[2] if h.op == "foldj" else (h.args[1],)
            if any(k.op in ("foldj", "fold") and swap_calls(k) for v in step for k in subterms(v)):
                continue  # an outer loop
            calls = set().union(*[swap_calls(v) for v in step])
            for y in calls:
                n += 1
                k = [i for i, v in enumerate(step) if any(z.op == "mut" and z.args[0] == y.args[0] and z.args[1] == 0 and z.args[2] is y.args[1] for z in subterms(v))]
                c.ob("pool-keeps-its-trades", where, len(k) == 1 and contains(y.args[1], mk("accv", k[0])), "a swap is simulated on a copy of its pool and then forgotten: the next swap sees the pool before it", t)
                if len(k) != 1:
                    continue
                outer(c, t, where, h, k[0], inits[k[0]])
    c.floor("vacuity", where + " hops", n, 1)


def outer(c, t, where, h, k, init):
    """the state enters the loop over the hops from the loop over the units"""
    good = False
    started = None
    if init.op == "accv":
        m = init.args[0]
        mine = mk("foldj", h.args[0], k, h.args[2], h.args[3]) if h.op == "foldj" else h
        for o in subterms(t.ret):
            if o.op not in ("foldj", "fold") or o is h or not contains(o.args[-1], h.args[0]) and not any(contains(v, h) for _, v in _steps(o)):
                continue
            oi = o.args[2] if o.op == "foldj" else (o.args[1],)
            if m >= len(oi):
                continue
            steps = [s for _, s in _steps_full(o) if any(contains(v, mine) or contains(v, h) for v in s)]
            if steps and all(s[m] is mine for s in steps):
                rest = [s for _, s in _steps_full(o) if s not in steps]
                if all(s[m] is mk("accv", m) for s in rest):
                    good = True
                    started = oi[m]
    c.ob("trades-carried-to-next-unit", where, good, "the swaps simulated for one unit are forgotten before the next unit is estimated", t)
    if good:
        c.ob("starts-from-given-pools", where, contains(started, fld(ME, "pools")) and not any(x.op == "mut" for x in subterms(started)), "an estimate does not start from the pools as given", t)


def _steps_full(o):
    return [(g, v if isinstance(v, tuple) else (v,)) for g, v in o.args[-1]]


def _steps(o):
    return [(g, x) for g, v in _steps_full(o) for x in v]


# ------------------------------------------------------------------- M03
def m03(c, tier):
    n = 0
    for m, f in (("get_id", "id"), ("get_spread_factor", None)):
        for ty, root in sorted(impls(c, m).items()):
            e = c.contract(CRATE).run(root)
            w = "%s %s" % (ty.split("::")[-2], m)
            for t in e.traces:
                if t.err:
                    continue
                n += 1
                v = t.val if t.ok and m != "get_id" else t.ret
                if m == "get_id":
                    ok = is_parse(v, fld(ME, "id"))
                else:
                    ok = same(t, v, F(ME, "pool_params.swap_fee")) or is_parse(v, fld(ME, "spread_factor"))
                c.ob("of-the-pool-itself", w, ok, "%s is not the pool's own" % m, t)
    c.floor("vacuity", "pools", n, 6)
    # pools whose mathematics the chain does are quoted by the chain, under
    # their own id and for exactly the trade asked
    k = 0
    for m, out in SWAPS:
        for ty, root in sorted(impls(c, m).items()):
            if ty in weighted(c):
                continue
            w = "%s %s" % (ty.split("::")[-2], m)
            for t in c.contract(CRATE).run(root).traces:
                if not t.ok:
                    continue
                k += 1
                q = quote(t, out)
                c.ob("quoted-by-the-chain", w, q is not None, "a quote is not the chain's estimate for this pool and trade", t)
    c.floor("vacuity", "chain quotes", k, 4)


def is_parse(v, s):
    y = payload_of(v) or v
    if y.op != "app":
        return False
    return str(y.args[0]).split("::")[-1] in ("parse", "from_str") and y.args[-1] is s


def quote(t, out):
    """the estimate the chain is asked for, when the result is its answer"""
    y = payload_of(t.val)
    if y is None or y.op != "app" or not str(y.args[0]).endswith("parse"):
        return None
    f = y.args[-1]
    if f.op != "fld" or f.args[1] != ("token_in_amount" if out else "token_out_amount"):
        return None
    me = [z for z in subterms(f) if payload_of(z) is not None and is_parse(z, fld(ME, "id"))]
    routes = [z for z in subterms(f) if z.op == "arr" and len(z.args) == 1 and z.args[0].op == "adt" and str(z.args[0].args[0]).endswith(("SwapAmountInRoute", "SwapAmountOutRoute"))]
    routes = list(dict.fromkeys(routes))
    coin = sym("output_amount" if out else "input_amount")
    if len(set(me)) != 1 or len(routes) != 1:
        return None
    r = routes[0].args[0]
    kind = "SwapAmountOutRoute" if out else "SwapAmountInRoute"
    ok = str(r.args[0]).endswith(kind) and fld(r, "pool_id") is me[0] and fld(r, "token_in_denom" if out else "token_out_denom") is sym("input_denom" if out else "output_denom")
    ts = [z for z in subterms(f) if z.op in ("to_string", "app") and (z.op == "to_string" or str(z.args[0]).endswith("to_string")) and z.args[-1] is coin]
    if not ok or not ts:
        return None
    if out:
        reqs = set(z for z in subterms(f) if z.op == "adt" and str(z.args[0]).endswith("EstimateSwapExactAmountOutRequest"))
        if len(reqs) != 1:
            return None
        q = reqs.pop()
        ok = fld(q, "pool_id") is me[0] and fld(q, "routes") is routes[0] and fld(q, "token_out") in ts
        paths = [z for z in subterms(f) if z.op == "adt" and z.args[1] == "Stargate"]
        ok = ok and all(fld(z, "path") is S("/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut") for z in paths)
        return q if ok else None
    cl = [z for z in subterms(f) if z.op == "app" and str(z.args[0]).endswith("estimate_swap_exact_amount_in")]
    if len(set(cl)) != 1:
        return None
    a = cl[0].args
    return cl[0] if a[2] is me[0] and a[3] in ts and a[4] is routes[0] else None


# ------------------------------------------------------------------- M04
class Sim(Op):
    """an estimate of the simulator, in the terms of the trades"""

    def __init__(self, t, w, mint, traded):
        self.t, self.w, self.mint, self.traded = t, w, mint, traded
        self.units = fld(ME, "index_units")
        self.si = fld(ME, "swap_info")

    def found(self, x):
        f = None
        if x.op == "fld" and x.args[1] == "1":
            f = x.args[0]
            f = f.args[0] if f.op == "fld" and f.args[1] == "0" else None
        if f is None or f.op != "find" or f.args[0] is not self.si or len(f.args[1]) != 2:
            return False
        first, last = (self.traded, fld(self.unit, "0")) if self.mint else (fld(self.unit, "0"), self.traded)
        key = F(el(self.si, 0), "0.0.0")
        got = set()
        for c, p in f.args[1]:
            if not p or c.op != "eq":
                return False
            for a, b in (c.args, c.args[::-1]):
                if same(self.t, b, first) and a is fld(key, "0"):
                    got.add("first")
                if same(self.t, b, last) and a is fld(key, "1"):
                    got.add("last")
        return got == {"first", "last"}

    def hop(self, routes):
        return fld(el(routes, 0), "pool_id"), (fld(el(routes, 0), "token_denom"),)

    def steps(self, x, amount):
        """x lists, for every unit in order, the coin, the simulated amount
        and the routes"""
        if x.op != "comp" or x.args[0] is not self.units:
            return False
        sw = []
        d, m = ("amount_out", "sim_amount_in") if self.mint else ("amount_in", "sim_amount_out")
        for g, ys in x.args[1]:
            g = guards(g)
            if g is None:
                continue
            if len(ys) != 1:
                return False
            y = ys[0]
            co = fld(y, d)
            if not same(self.t, fld(co, "amount"), self.each(amount)):
                return False
            if not (same(self.t, fld(co, "denom"), fld(self.unit, "0")) or same(self.t, fld(co, "denom"), self.traded) and self.never(g, self.is_traded(False))):
                return False
            r = fld(y, "routes")
            if self.never(g, self.is_traded(True)):
                if self.simulated(fld(y, m), self.each(amount)) is None or r.op != "adt" or r.args[1] != "Some":
                    return False
                fw = fld(r, "0") if r.op == "adt" else SOME(r)
                fw = r.args[2]
                if fw.op == "rev":
                    fw = fw.args[0]
                if not self.found(fw):
                    return False
            elif self.never(g, self.is_traded(False)):
                if not same(self.t, fld(y, m), self.each(amount)) or r.op != "adt" or r.args[1] != "None":
                    return False
            else:
                return False
            sw.append(g)
        return refuted(self.goal(()), none_of(self.t, self.units) + sw)

    def whole(self, x, amount):
        return self.total(x, self.each(amount))


def m04(c, tier):
    for m, mint, amt, den, tot in (
        ("estimate_input_for_index", True, "index_out", "input_denom", "total_input"),
        ("estimate_output_for_index", False, "index_in", "output_denom", "total_output"),
    ):
        e = simulator(c, m)
        if e is None:
            continue
        ts = [t for t in e.traces if t.ok]
        c.floor("vacuity", m, len(ts), 1)
        for t in ts:
            o = Sim(t, m, mint, sym(den))
            a = sym(amt)
            c.ob("amount-echoed", m, same(t, fld(t.val, amt), a), "the estimate is not for the amount asked", t)
            c.ob("total-of-all-units", m, o.whole(fld(t.val, tot), a), "the estimate is not the sum over all units of what each one's route, pool by pool, takes or gives", t)
            c.ob("step-per-unit", m, o.steps(fld(t.val, "sim_routes"), a), "the steps of the estimate are not one per unit, with its amount and its route", t)


# ------------------------------------------------------------------- M06
SEARCH = (
    ("search_efficient_amount_for_input", True, "desired_input", "max_token_in", "est_min_token_out"),
    ("search_efficient_amount_for_output", False, "desired_output", "max_token_out", "est_min_token_in"),
)
GAP = 5000
ROUNDS = 256


def m06(c, tier):
    for m, mint, coin, tot, est in SEARCH:
        e = simulator(c, m)
        if e is None:
            continue
        ts = [t for t in e.traces if t.ok]
        c.floor("vacuity", m, len(ts), 1)
        for t in ts:
            want = fld(sym(coin), "amount")
            o = Sim(t, m, mint, fld(sym(coin), "denom"))
            total, a = fld(t.val, tot), fld(t.val, est)
            c.ob("total-of-the-amount", m, o.whole(total, a), "the total returned is not the estimate for the amount returned", t)
            c.ob("steps-of-the-amount", m, o.steps(fld(t.val, "sim_routes"), a), "the steps returned are not those of the amount returned", t)
            c.ob("not-above-desired", m, below(t, total, want), "the search may return a total above the one desired", t)
            c.ob("close-to-desired", m, near(t, total, want), "the search may return a total %d or more below the one desired" % GAP, t)
            c.ob("search-bounded", m, bounded(t), "the search is not known to end after %d rounds" % ROUNDS, t)
        c.ob("gives-up-with-error", m, any(t.err and any_sub(t.ret, lambda z: z.op == "adt" and z.args[1] == "MaxLoopExceeded") for t in e.traces), "a search that finds nothing does not end in an error")


def below(t, total, want):
    """total <= want"""
    if t.holds(lt(want, total)) is False:
        return True
    # one <= floor(want / total), and the like
    return t.holds(lt(mk("ratio", want, total), I(1))) is False


def near(t, total, want):
    d = sub(want, total)
    for l, p in t.lits:
        if l.op == "lt":
            a, b = l.args
            if p and same(t, a, d) and b.op == "int" and b.args[0] <= GAP:
                return True
            if not p and same(t, b, d) and a.op == "int" and a.args[0] < GAP:
                return True
            if p and same(t, a, want) and same(t, sub(b, total), I(0)) is False and sub(b, total).op == "int" and sub(b, total).args[0] <= GAP:
                return True
    return False


def bounded(t):
    """every round of the search is one of a fixed number"""
    rs = {x for x in subterms(t.ret) if x.op in ("rangei", "while")}
    for x in rs:
        if x.op == "while":
            if not counted(x):
                return False
            continue
        lo, hi = [y for y in x.args if isinstance(y, T)][-2:]
        if lo.op != "int" or hi.op != "int":
            return False
        n = hi.args[0] - lo.args[0] + (1 if "Inclusive" in str(x.args[0]) else 0)
        if n > ROUNDS:
            return False
    return bool(rs)


def counted(loop):
    """does some counter of the loop end it after ROUNDS rounds?"""
    inits, phis, cases = loop.args
    for j, (c, v) in enumerate(zip(inits, phis)):
        if c.op != "int" or not cases:
            continue
        worst = 0
        for lits, steps in cases:
            d = sub(steps[j], v)
            if d.op != "int" or d.args[0] == 0:
                break
            up = d.args[0] > 0
            n = None
            for l, p in lits:
                if l.op == "lt" and l.args[1 if p != up else 0] is v:
                    b = l.args[0 if p != up else 1]
                    if b.op == "int":
                        # p: counter < b (up) or b < counter; else <= or >=
                        n = abs(b.args[0] - c.args[0]) + (0 if p else 1)
                elif l.op == "eq" and not p and v in l.args and abs(d.args[0]) == 1:
                    b = [x for x in l.args if x is not v]
                    if b and b[0].op == "int" and (b[0].args[0] - c.args[0]) * d.args[0] >= 0:
                        n = abs(b[0].args[0] - c.args[0])
            if n is None:
                break
            worst = max(worst, n)
        else:
            if worst <= ROUNDS:
                return True
    return False


# ------------------------------------------------------------------- M09
def held(x):
    """something a loop keeps from round to round: (loop, its place in it,
    start values, rounds as (guards, new values), what names a place)"""
    if x.op == "accat" and x.args[2].op == "foldj":
        base, j, inits, cases = x.args[2].args
        return (base, inits, cases), j, inits, cases, lambda i: mk("accv", i)
    if x.op == "accat" and x.args[2].op == "fold":
        base, init, cases = x.args[2].args
        return (base, (init,), cases), 0, (init,), [(g, (v,)) for g, v in cases], lambda i: mk("accv", 0)
    if x.op == "wv":
        inits, phis, cases = x.args[0].args
        return x.args[0], x.args[1], inits, cases, lambda i: phis[i]
    return None


def scaled(x, want):
    """x = a * want / b: -> (a, b)"""
    if x.op == "mulfloor":
        for a, r in (x.args, x.args[::-1]):
            if r.op in ("ratio", "decdiv") and r.args[0] is want:
                return a, r.args[1]
    if x.op == "muldiv":
        for a, w in (x.args[:2], x.args[1::-1]):
            if w is want:
                return a, x.args[2]
    return None


def proportional(c, t, m, o, a, want):
    """the amount found is the last one scaled, as are all before it"""
    if not c.ob("scaled-by-total", m, scaled(a, want) is not None, "the amount tried is not the last one times the desired total over its own", t):
        return None
    x, y = scaled(a, want)
    hx, hy = held(x), held(y)
    if not c.ob("last-amount-and-total", m, hx is not None and hy is not None and hx[0] == hy[0], "what is scaled is not the amount and the total of the round before", t):
        return None
    _, i, inits, cases, var = hx
    j = hy[1]
    step = subst(a, {x: var(i), y: var(j)})
    for g, new in cases:
        c.ob("same-in-every-round", m, same(t, new[i], step), "a round goes on from an amount that is not the last one scaled: %s" % brief(new[i]), t)
        c.ob("total-of-the-round", m, o.total(new[j], o.each(step), False), "a round goes on from a total that is not that of its amount", t)
    start = inits[i]
    given = [SOME(sym(n)) for n in ("init_output_amount", "init_input_amount")]
    k = [l.args[0] for l, p in t.lits if p and l.op == "is" and l.args[1] == "Some" and SOME(l.args[0]) in given]
    c.ob("start-given", m, start is SOME(k[0]) if k else start.op == "int" and start.args[0] > 0, "the search does not start from the amount given: %s" % brief(start), t)
    c.ob("total-of-the-start", m, o.whole(inits[j], start), "the search does not start from the total of its first amount", t)
    return hx[0]


def within(g, p, want):
    """does it follow from a total at most the desired one and less than GAP
    below it?  (the total is what is compared)"""
    if g.op != "lt":
        return False
    a, b = g.args
    if not p and a is want:
        # want < total
        return True
    d = sub(want, b) if contains(a, want) else None
    if p and contains(a, want) and b.op == "int":
        return b.args[0] >= GAP and a.op == "lin"
    if not p and a.op == "int" and contains(b, want):
        return a.args[0] >= GAP - 1 and b.op == "lin"
    if p and a is want and b.op == "lin":
        return b.args[0] >= GAP
    return False


def harmless(g, p):
    return g.op in ("ovf", "exists", "is", "mapin") or (g.op == "eq" and not p and ZERO in g.args)


def m09(c, tier):
    for m, mint, coin, tot, est in SEARCH:
        e = simulator(c, m)
        if e is None:
            continue
        want = fld(sym(coin), "amount")
        n = 0
        for t in e.traces:
            o = Sim(t, m, mint, fld(sym(coin), "denom"))
            if t.ok:
                n += 1
                proportional(c, t, m, o, fld(t.val, est), want)
            elif t.err and any_sub(t.ret, lambda y: y.op == "adt" and y.args[1] == "MaxLoopExceeded"):
                # no round was close enough
                took = [(l, p) for l, p in t.lits if not p and l.op == "exists" and any(g.op == "lt" and contains(g, want) for g, _ in l.args[1])]
                took = [l for l, p in took if all(within(g, q, want) or harmless(g, q) for g, q in l.args[1])]
                loops = [x.args[0] for l, _ in t.lits for x in subterms(l) if x.op == "wv"]
                c.ob("first-close-enough", m, bool(took) or bool(loops) and all(passed(L, want) for L in loops), "a round whose total is close enough may be passed over", t)
        c.floor("vacuity", m, n, 1)


def passed(loop, want):
    """every round that is not the last fails to be close enough"""
    return all(any((g.op == "lt" and contains(g, want) and within(g, not p, want)) for g, p in lits) for lits, _ in loop.args[2])


# ------------------------------------------------------------------- M05
PRECISION = 10**-8


def m05(c, tier):
    ns = [n for n in c.contract("ibcx_math").p.roots if n.endswith("::pow") and "::pow::" in n or n == "ibcx_math::pow"]
    if not c.floor("vacuity", "ibcx_math::pow", len(ns), 1):
        return
    e = c.contract("ibcx_math").run(ns[0])
    B, X = sym("base"), sym("exp")
    ts = [t for t in e.traces if t.ok]
    c.floor("vacuity", "pow", len(ts), 4)
    fl = mk("to_uint_floor", X)
    frac = real(X) - atom(fl)
    seen = set()
    for t in ts:
        w = "pow"
        c.ob("domain", w, t.holds(eq(B, I(0))) is False and t.holds(lt(B, I(2))) is True, "a power is computed for a base that is zero or not below two", t)
        if t.holds(eq(X, I(1))) is True or t.val is B:
            c.ob("power-one", w, t.val is B and t.holds(eq(X, I(1))) is True, "the first power is not the base", t)
            seen.add("one")
            continue
        fs = factors(t.val)
        whole = part = None
        rest = []
        loops = {}
        for f in fs:
            if f.op == "wv":
                loops.setdefault(f.args[0], []).append(f.args[1])
            elif f is not I(1):
                rest.append(f)
        for L, ks in loops.items():
            if integer_loop(t, L, ks, B, fl):
                whole = L
            elif len(ks) == 1 and series_loop(t, L, ks[0], B, frac):
                part = L
                c.ob("series-precision", w, precise(t, L, frac), "the series may end before its terms are below 10^-8", t)
            else:
                rest.append(L)
        if not c.ob("power-parts", w, not rest, "the power is not made of the base's integer power and the binomial series of the rest", t):
            continue
        if whole is None:
            c.ob("integer-part", w, t.holds(eq(fl, I(0))) is True, "the integer part of the exponent is left out", t)
        if part is None:
            c.ob("fractional-part", w, any(p and l.op == "eq" and I(0) in l.args and real(l.args[1] if l.args[0] is I(0) else l.args[0]).same(frac) for l, p in t.lits), "the fractional part of the exponent is left out", t)
        seen.add((whole is not None, part is not None))
    c.floor("vacuity", "kinds of exponents", len(seen), 4)


def factors(v):
    if v.op == "decmul":
        return [f for a in v.args for f in factors(a)]
    return [v]


def integer_loop(t, L, ks, B, n0):
    """do the loop's values ks multiply to B^n0 when it ends?  By induction
    over the rounds, with accumulator * base^counter unchanged."""
    inits, hvs, cases = L.args
    n = [i for i, v in enumerate(inits) if v is n0]
    b = [i for i, v in enumerate(inits) if v is B]
    a = [i for i, v in enumerate(inits) if v is I(1) and i in ks]
    if len(n) != 1 or len(b) != 1 or len(a) != 1:
        return False
    n, b, a = n[0], b[0], a[0]
    hn, hb, ha = hvs[n], hvs[b], hvs[a]
    for g, new in cases:
        g = dict(g)
        f = sorted(factors(new[a]), key=skey)
        plus = f == sorted([ha, hb], key=skey)
        kept = new[a] is ha
        if new[n] is sub(hn, I(1)):
            ok = plus and new[b] is hb
        elif new[n] is mk("idiv", hn, I(2)):
            odd = parity(g, hn)
            sq = sorted(factors(new[b]), key=skey) == [hb, hb]
            ok = sq and (plus if odd else kept if odd is False else False)
        else:
            ok = False
        if not ok:
            return False
    wn = mk("wv", L, n)
    if sorted(ks) == sorted([a, b]):
        # ends with one factor left: the counter is one
        low = t.holds(lt(I(1), wn)) is False or t.holds(eq(wn, I(1))) is True
        pos = t.holds(eq(n0, I(0))) is False and all(keeps_positive(dict(g), hn, new[n]) for g, new in cases)
        return low and pos
    if ks == [a]:
        return t.holds(eq(wn, I(0))) is True
    return False


def parity(g, hn):
    for c, p in g.items():
        if c.op == "eq":
            for x, y in (c.args, c.args[::-1]):
                if x.op == "irem" and x.args == (hn, I(2)) and y.op == "int":
                    if y is I(0):
                        return not p
                    if y is I(1):
                        return p
    return None


def keeps_positive(g, hn, new):
    """a counter above one stays at least one"""
    return g.get(lt(I(1), hn)) is True or g.get(eq(hn, I(1))) is False and new is sub(hn, I(1)) or any(p is False and c.op == "lt" and c.args[0] is hn and c.args[1].op == "int" and c.args[1].args[0] >= 2 for c, p in g.items())


def shape(L, k):
    """(term, sum, sign, counter) positions of a series loop"""
    inits, hvs, cases = L.args
    sign = [i for i, v in enumerate(inits) if v.op == "bool"]
    count = [i for i in range(len(inits)) if inits[i] is I(1) and all(new[i] is add(hvs[i], I(1)) for _, new in cases)]
    if len(sign) != 1 or len(count) != 1:
        return None
    term = [i for i in range(len(inits)) if i not in (k, sign[0], count[0])]
    if len(term) != 1 or inits[k] is not I(1) or inits[term[0]] is not I(1) or inits[sign[0]] is not FALSE:
        return None
    return term[0], k, sign[0], count[0]


def series_loop(t, L, k, B, frac):
    """is the loop's value k the sum of the binomial series of B^frac?  Each
    round: term' = term * (frac - (i - 1)) * (B - 1) / i, with its sign."""
    s = shape(L, k)
    if s is None or not L.args[2]:
        return False
    term, total, sign, count = s
    hvs = L.args[1]
    i = real(hvs[count])
    ratio_ = (frac - (i - const(1))) * (real(B) - const(1)) / i
    for g, new in L.args[2]:
        gd = dict(g)
        gd.update({c: p for c, p in t.lits if c not in gd})
        s0 = gd.get(hvs[sign])
        s1 = sign_of(new[sign], gd)
        if s0 is None or s1 is None:
            # the sign does not matter when the term is unchanged
            return False
        if vanishes(gd, B, frac, i):
            continue
        v = real(new[term])
        want = real(hvs[term]) * ratio_
        if s0 != s1:
            want = const(-1) * want
        if not v.same(want):
            return False
        step = const(-1) * v if s1 else v
        if not real(new[total]).same(real(hvs[total]) + step):
            return False
    return True


def sign_of(x, g):
    """the boolean x under the guards"""
    if x.op == "bool":
        return x.args[0]
    if x in g:
        return g[x]
    if x.op == "lt" and (g.get(lt(x.args[1], x.args[0])) is True or g.get(eq(*x.args)) is True):
        return False
    if x.op == "not":
        r = sign_of(x.args[0], g)
        return None if r is None else not r
    if x.op == "iff":
        a, b = (sign_of(y, g) for y in x.args)
        return None if a is None or b is None else a == b
    return None


def vanishes(g, B, frac, i):
    """the guards make the base one, or the exponent the counter less one"""

    def equal(d):
        lo = hi = False
        for c, p in g.items():
            if c.op == "lt" and p is False:
                x = real(c.args[0]) - real(c.args[1])
                lo = lo or x.same(d)
                hi = hi or x.same(const(-1) * d)
        return lo and hi

    return equal(real(B) - const(1)) or equal(frac - (i - const(1)))


def precise(t, L, frac):
    ks = [i for i, v in enumerate(L.args[0])]
    for l, p in t.lits:
        if p and l.op == "lt" and l.args[0].op == "wv" and l.args[0].args[0] is L:
            n = real(l.args[1]).number()
            if n is not None and 0 < n <= PRECISION * 1.0000001:
                return True
        if p and l.op == "eq" and I(0) in l.args:
            x = l.args[1] if l.args[0] is I(0) else l.args[0]
            if any(y.op == "wv" and y.args[0] is L for y in subterms(x)):
                return True
    return False


# ------------------------------------------------------------------- M07
HEAD = '{"pool":{"@type":"/osmosis.%s.v1beta1.Pool","address":"'
KINDS = {"weighted": HEAD % "gamm", "stable": HEAD % "gamm.poolmodels.stableswap", "concentrated": HEAD % "concentratedliquidity"}


def nm(x):
    """the last name of an application"""
    return str(x.args[0]).split("::")[-1] if x.op == "app" else None


def bits(text):
    return "".join(format(b, "08b") for b in text.encode())


def b64bits(text):
    abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    if any(ch not in abc for ch in text):
        return None
    return "".join(format(abc.index(ch), "06b") for ch in text)


def begins(g, payload, head):
    """whether the guard holds of a payload that begins with head; None when
    it says nothing of how the payload begins"""
    if nm(g) != "starts_with":
        return None
    x, y = g.args[1:3]
    if y.op != "str":
        return None
    if nm(x) == "to_base64" and x.args[1] is payload:
        want = b64bits(y.args[0])
    elif x is payload or payload in x.args or any(z is payload for z in subterms(x)) and "utf8" in show(x):
        want = bits(y.args[0])
    else:
        return None
    have = bits(head)
    if want is None:
        return None
    n = min(len(want), len(have))
    if want[:n] != have[:n]:
        return False
    return True if len(want) <= len(have) else None


def m07(c, tier):
    ns = [n for n in c.contract(CRATE).p.roots if n.endswith("::query_pools")]
    if not c.floor("vacuity", "query_pools", len(ns), 1):
        return
    e = c.contract(CRATE).run(ns[0])
    ids = sym("pool_ids")
    n = 0
    for t in e.traces:
        if not t.ok:
            continue
        n += 1
        w = "query_pools"
        x = t.val
        if not c.ob("one-per-id", w, x.op == "comp" and x.args[0] is ids, "the pools returned are not taken in order from the ids asked", t):
            continue
        reqs = {y for y in subterms(x) if y.op == "adt" and y.args[1] == "Stargate"}
        q = [y for y in reqs]
        pr = {y for r in q for y in subterms(r) if y.op == "adt" and str(y.args[0]).endswith("PoolRequest")}
        ok = len(q) == 1 and fld(q[0], "path") is S("/osmosis.poolmanager.v1beta1.Query/Pool") and len(pr) == 1 and fld(list(pr)[0], "pool_id") is el(ids, 0)
        if not c.ob("asked-by-id", w, ok, "the chain is not asked for the pool with the id given", t):
            continue
        for kind, head in KINDS.items():
            hit = [(g, ys) for g, ys in x.args[1] if possible(g, head)]
            ok = len(hit) == 1 and len(hit[0][1]) == 1 and decoded(hit[0][0], hit[0][1][0], kind, head)
            # an answer that cannot be read is not passed over
            ok = ok and all(nm(k) == "starts_with" or no_element(t, ids, tuple((a, b) for a, b in hit[0][0] if a is not k) + ((k, not v),)) for k, v in hit[0][0])
            c.ob("decoded-as-its-kind", w + " " + kind, ok, "a %s pool the chain returns is not read as one" % kind, t)
    c.floor("vacuity", "query_pools traces", n, 1)


def possible(g, head):
    ps = {z.args[1] for k, _ in g for z in subterms(k) if nm(z) == "to_base64"} or {z for k, _ in g if nm(k) == "starts_with" for z in subterms(k.args[1])}
    return not any(begins(k, z, head) is (not v) for k, v in g for z in ps)


def decoded(g, y, kind, head):
    """y is the pool read from the answer, as the kind named"""
    if y.op != "fld" or y.args[1] != "pool":
        return False
    f = payload_of(y.args[0])
    if f is None or nm(f) != "from_json":
        return False
    ty = f.args[1].args[0] if isinstance(f.args[1], T) else str(f.args[1])
    if "::%s::" % kind not in ty:
        return False
    # the guards tell this kind
    return any(v and begins(k, f.args[2], head) is True for k, v in g) and all(begins(k, f.args[2], head) in (v, None) for k, v in g)


# ------------------------------------------------------------------- M08
ESTIMATE = (
    ("estimate_index_for_input", True, "desired_input", "max", "max_token_in", "est_min_token_out", "min_index_amount"),
    ("estimate_index_for_output", False, "desired_output", "min", "max_token_out", "est_min_token_in", "max_index_amount"),
)


def m08(c, tier):
    for m, mint, coin, first, tot, est, lim in ESTIMATE:
        e = simulator(c, m)
        if e is None:
            continue
        ts = [t for t in e.traces if t.ok]
        kinds = set()
        for t in ts:
            want = fld(sym(coin), "amount")
            o = Sim(t, m, mint, fld(sym(coin), "denom"))
            r = fld(t.val, first)
            total, a = fld(r, tot), fld(r, est)
            c.ob("found-by-search", m, o.whole(total, a) and o.steps(fld(r, "sim_routes"), a) and below(t, total, want) and near(t, total, want), "the amount found is not the search's: near and not above the one desired, with its own total and steps", t)
            x = fld(t.val, "est")
            L = sym(lim)
            has = t.holds(is_some(L))
            kinds.add(has)
            if has is False:
                c.ob("no-limit-no-revision", m, x.op == "adt" and x.args[1] == "None", "an amount is revised though no limit is given", t)
                continue
            if not c.ob("revised-for-limit", m, has is True and x.op == "adt" and x.args[1] == "Some", "a limit is given but nothing is revised for it", t):
                continue
            y = x.args[2]
            ry, ty = fld(y, est), fld(y, tot)
            c.ob("revised-total-and-steps", m, o.whole(ty, ry) and o.steps(fld(y, "sim_routes"), ry), "the revised total and steps are not those of the revised amount", t)
            lo, hi = (SOME(L), a) if mint else (a, SOME(L))
            c.ob("found-within-limit", m, t.holds(lt(hi, lo)) is False, "an amount %s is accepted" % ("below the minimum" if mint else "above the maximum"), t)
            c.ob("revised-towards-limit", m, towards(t, ry, a, SOME(L), mint), "the revised amount is not the given part (a third unless stated) of the way from the amount found to the limit", t)
        c.floor("vacuity", m, len(kinds), 2)


def towards(t, y, a, limit, mint):
    gap = sub(a, limit) if mint else sub(limit, a)
    has = t.holds(is_some(sym("err_tolerance")))
    k = SOME(sym("err_tolerance")) if has is True else mk("dec", 10**18 // 3) if has is False else None
    if k is None:
        return False
    step = mulfloor(gap, k)
    return same(t, y, sub(a, step) if mint else add(a, step))
