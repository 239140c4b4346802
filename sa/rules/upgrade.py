"""Setting up, upgrading, and outcomes that are the same on every node."""
from .. import wire
from . import core, core2, drop, iface, peri
from .avail import accepted, failed, norm, valid
from .core import FEE, TS  # noqa: F401
from .lib import *

STR, NUM = wire.STR, wire.NUM
O = wire.obj


def req(**fs):
    return [(n, t, False) for n, t in fs.items()]


def opt(**fs):
    return [(n, t, True) for n, t in fs.items()]


PAIRS = ("arr", ("tup", (STR, STR)))
COINS = ("arr", wire.COIN)
AIRDROP = req(creator=STR, denom=STR, merkle_root=STR, total_amount=STR, total_claimed=STR, created_at=NUM) + opt(label=STR, closed_at=NUM)

# what the deployed contracts have written: kind of cell, key, value
DEPLOYED = {
    core.CRATE: {
        "config": ("item", "", O(req(gov=STR, paused=O(req(paused=wire.BOOL) + opt(expires_at=NUM)), index_denom=STR, reserve_denom=STR))),
        "pending_gov": ("item", "", STR),
        "fee": ("item", "", O(req(collector=STR) + opt(mint_fee=STR, burn_fee=STR, streaming_fee=O(req(rate=STR, collected=COINS, freeze=wire.BOOL, last_collected_at=NUM))))),
        "total_supply": ("item", "", STR),
        "index_units": ("item", "", PAIRS),
        "reserve_units": ("item", "", PAIRS),
        "rebalances": ("item", "", O(req(deflation=PAIRS, inflation=PAIRS) + opt(manager=STR))),
        "trade_infos": ("map", "text,text", O(req(routes=("arr", O(req(pool_id=NUM, token_denom=STR))), cooldown=NUM, max_trade_amount=STR) + opt(last_traded_at=NUM))),
    },
    drop.CRATE: {
        "airdrops": ("map", "u64", wire.union(O(req(open=O(AIRDROP))), O(req(bearer=O(AIRDROP + req(signer=STR, signer_pub=STR)))))),
        "latest_airdrop": ("item", "", NUM),
        "labels": ("map", "text", NUM),
        "claim_logs": ("map", "u64,text", STR),
    },
}


def unreadable(old, new, at=""):
    """why what was written as `old` is not read as `new`: a text, or None"""
    if old == new:
        return None
    olds = old[1] if old[0] == "or" else (old,)
    news = new[1] if new[0] == "or" else (new,)
    if len(olds) > 1 or len(news) > 1:
        for o in olds:
            tries = [unreadable(o, n, at) for n in news]
            if None not in tries:
                near = [w for n, w in zip(news, tries) if n[0] == o[0] == "obj" and {f[0] for f in n[1]} & {f[0] for f in o[1]}]
                return near[0] if near else "%s: %s" % (at, wire.show(o)[:120])
        return None
    if old[0] == new[0] == "obj":
        fo, fn = {x[0]: x for x in old[1]}, {x[0]: x for x in new[1]}
        for n in sorted(fo):
            if n not in fn:
                return "%s.%s is not known any more" % (at, n)
            if fo[n][2] and not fn[n][2]:
                return "%s.%s may have been left out" % (at, n)
            w = unreadable(fo[n][1], fn[n][1], "%s.%s" % (at, n))
            if w:
                return w
        for n in sorted(fn):
            if n not in fo and not fn[n][2]:
                return "%s.%s was never written" % (at, n)
        return None
    if old[0] == new[0] == "arr":
        return unreadable(old[1], new[1], at + "[]")
    if old[0] == new[0] == "tup" and len(old[1]) == len(new[1]):
        for i, (a, b) in enumerate(zip(old[1], new[1])):
            w = unreadable(a, b, "%s.%d" % (at, i))
            if w:
                return w
        return None
    return "%s: %s was written, %s is read" % (at, wire.show(old)[:120], wire.show(new)[:120])


def keytext(p, ty):
    """how a key is encoded"""
    t = p.types[p.strip_ref(ty)]
    if t["k"] == "tuple":
        return ",".join(keytext(p, x) for x in t["f"])
    if t["k"] == "str" or (t["k"] == "adt" and t["name"] in ("std::string::String", "cosmwasm_std::Addr")):
        return "text"
    if t["k"] in ("int", "uint"):
        return p.tname(p.strip_ref(ty))
    return p.tname(ty)


def stored(c, crate):
    con = c.contract(crate)
    p = con.p
    seen = set()
    for nm, en in con.entries().items():
        for ns, tys in sorted(getattr(en.eng, "cellty", {}).items()):
            if ns not in DEPLOYED[crate]:
                continue
            kind, key, value = DEPLOYED[crate][ns]
            for ty in sorted(tys):
                t = p.types[ty]
                if t["k"] != "adt" or not t["name"].startswith("cw_storage_plus"):
                    c.fail("unreadable", "%s %s" % (crate, ns), "how the record is kept is not known: %s" % p.tname(ty))
                    continue
                seen.add(ns)
                w = "%s %s of %s" % (nm, ns, p.tname(ty))
                item = t["name"].rsplit("::", 1)[1] == "Item"
                if not c.ob("kind-of-cell", w, item == (kind == "item"), "records written by the deployed contract are not found: one record and a map of records are kept under different keys"):
                    continue
                if not item:
                    c.ob("key-encoding", w, keytext(p, t["args"][0]) == key, "the keys of the deployed contract's records are %s, not %s" % (key, keytext(p, t["args"][0])))
                st = iface.structure(c, crate, t["args"][0 if item else 1])
                if st is not None:
                    bad = unreadable(value, st)
                    c.ob("record-readable", w, bad is None, "a record written by the deployed contract cannot be read: %s" % bad)
    for ns in DEPLOYED[crate]:
        c.ob("record-kept", "%s %s" % (crate, ns), ns in seen, "nothing reads or writes the records kept under %s any more" % ns)


def c37(c, tier):
    stored(c, core.CRATE)


def a16(c, tier):
    stored(c, drop.CRATE)


# --------------------------------------------------- setting up, upgrading
def parsed(x):
    return any_sub(x, lambda z: z.op == "parse" or (z.op == "app" and str(z.args[0]).endswith("parse")))


def upgrade(c, crate, name):
    m = c.entry(crate, "contract::migrate")
    if not m:
        return
    force = F(MSG, "force")
    old = LD("contract_info")
    accepted(c, "migration-forced", m, (), [[(is_some(force), True), (SOME(force), True)]], lambda a, p: False, 3, 1)

    def reason(a, p):
        if a.op == "has":
            return not p and a.args[0] == "contract_info"
        if a.op == "eq":
            # another contract
            return not p and set(a.args) == {fld(old, "contract"), S(name)}
        if a.op == "is":
            # a version that is none
            return failed(a, p) and parsed(a.args[0])
        if a.op == "slt":
            # not older
            x, y = a.args
            if not parsed(x) or not parsed(y):
                return False
            return (not p and contains(x, fld(old, "version")) and not contains(y, old)) or (p and contains(y, fld(old, "version")) and not contains(x, old))
        return False

    accepted(c, "migration-accepted", m, (), [[]], reason, 3, 1)


def setup(c, crate, world, reason=lambda a, p: False, n=0):
    i = c.entry(crate, "contract::instantiate")
    if i:
        accepted(c, "instantiation-accepted", i, (), [world], reason, n, 1)


def rates(f):
    w = []
    for r in (SOME(fld(f, "mint_fee")), SOME(fld(f, "burn_fee")), fld(SOME(fld(f, "streaming_fee")), "rate")):
        w += [(eq(ZERO, r), False), (lt(r, I(1)), True)]
    w.append((lt(core2.MAXRATE, r), False))
    return w


def c38(c, tier):
    f = F(MSG, "fee")
    units = F(MSG, "index_units")

    def reason(a, p):
        # a denom named twice: fewer different ones than entries
        if a.op == "eq" and not p:
            return any(x.op == "len" and contains(x, units) for x in a.args) and any(x.op in ("maplen", "len") and contains(x, units) for x in a.args)
        if a.op == "exists" and p:
            return contains(a, units) and not any_sub(a, lambda y: y.op == "lt")
        return a.op == "lt" and p and all(contains(x, units) and x.op in ("len", "maplen") for x in a.args)

    setup(c, core.CRATE, [valid(F(MSG, "gov")), valid(fld(f, "collector"))] + rates(f), reason, 6)
    upgrade(c, core.CRATE, "ibcx-core")
    r = c.entry(core.CRATE, "contract::reply")
    if not r:
        return
    result = F(MSG, "result")
    ids = {x for t in r.ok() for l, p in t.lits if p and l.op == "eq" and F(MSG, "id") in l.args for x in l.args if x.op == "int"}
    data = fld(variant_payload(result, "Ok"), "data")
    for x in ids:
        w = [(eq(F(MSG, "id"), x), True), (is_variant(result, "Ok", "cosmwasm_std::SubMsgResult"), True), (is_some(data), True), (HAS("config"), True)]
        accepted(c, "reply-accepted", r, (), [w], lambda a, p: failed(a, p) and contains(a, SOME(data)), 2, 1)
    c.floor("vacuity", "reply", len(ids), 1)


def a17(c, tier):
    setup(c, drop.CRATE, [])
    upgrade(c, drop.CRATE, "ibcx-airdrop")


def p14(c, tier):
    setup(c, peri.CRATE, [])
    upgrade(c, peri.CRATE, "ibcx-periphery")


ZERO = I(0)


# ------------------------------------------------------------- determinism
ANYORDER = {"sorted", "exists", "sumover", "len", "maplen", "mapof", "mapin"}


def unordered(xs):
    """the first part of an outcome that follows the order of a hash table"""
    seen = set()
    todo = list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not hasattr(x, "op") or x in seen:
            continue
        seen.add(x)
        if x.op == "shuffled":
            return x
        if x.op in ANYORDER and x.args and hasattr(x.args[0], "op") and x.args[0].op in ("shuffled", "comp"):
            # what is asked of each element does not depend on its place
            base = x.args[0].args[0]
            todo.extend(x.args[1:])
            if x.args[0].op == "comp":
                while hasattr(base, "op") and base.op == "shuffled":
                    base = base.args[0]
                todo.extend(x.args[0].args[1:])
            todo.append(base)
            continue
        todo.extend(x.args)
    return None


def i07(c, tier):
    n = 0
    for crate in (core.CRATE, drop.CRATE, peri.CRATE):
        con = c.contract(crate)
        for nm, en in con.entries().items():
            for t in en.traces:
                n += 1
                parts = [t.ret] + [l for l, _ in t.lits] + list(t.eff)
                bad = unordered(parts)
                c.ob("follows-hash-order", "%s %s %s" % (crate, nm, ".".join(map(str, t.path))), bad is None, "the outcome follows the order of a hash table, which differs from node to node: %s" % (bad is not None and show(bad)[:200]), t)
        p = con.p
        for i in p.insts.values():
            if i.deff in con.analysed and i.body is not None:
                fl = sorted({p.tname(y) for y in i.body["locals"] if p.types[p.strip_ref(y)]["k"] == "float"})
                c.ob("floating-point", "%s %s" % (crate, i.deff), not fl, "computes with %s: the chain refuses code with floating point numbers" % fl)
    c.floor("vacuity", "outcomes", n, 150)
