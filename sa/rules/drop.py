"""Properties of the airdrop contract (ibcx-airdrop)."""
from . import core2, core3
from .core3 import answer
from .core import saved, arg_addr, validated
from .lib import *
from .logic import no_element

CRATE = "ibcx_airdrop"
ZERO = I(0)
HEIGHT = fld(fld(ENV, "block"), "height")
OPEN = ["creator", "denom", "total_amount", "total_claimed", "merkle_root", "label", "created_at", "closed_at"]
BEARER = OPEN + ["signer", "signer_pub"]
KINDS = {"Open": OPEN, "Bearer": BEARER}
NEXT = LD("latest_airdrop")


def W(t):
    return "execute " + variant_name(t)


def execute(c):
    e = c.entry(CRATE, "contract::execute")
    if e is not None:
        sane(c, e)
    return e


def ok(c, e, *path, n=1):
    ts = e.ok(*path)
    c.floor("vacuity", e.name.rsplit("::", 1)[1] + " " + ".".join(path), len(ts), n)
    return ts


def isv(t, x, v):
    return t.holds(is_variant(x, v)) is True


def aid(t, spec):
    """the airdrop a specifier names"""
    if isv(t, spec, "Id"):
        return F(spec, ":Id.0")
    if isv(t, spec, "Label"):
        return LD("labels", F(spec, ":Label.0"))
    return None


class Rec:
    """the airdrop record an operation works on"""

    def __init__(self, t, spec):
        self.id = aid(t, spec)
        self.kind = self.old = None
        if self.id is None:
            return
        r = LD("airdrops", self.id)
        for k in KINDS:
            if isv(t, r, k):
                self.kind = k
                self.old = F(r, ":%s.0" % k)
        self.has = t.holds(HAS("airdrops", self.id)) is True
        v = t.final("airdrops", self.id)
        if v is None:
            for kd, key, val, _ in writes(t, "airdrops"):
                if kd == "save" and same(t, key, self.id):
                    v = val
        self.new = None
        self.newkind = None
        if saved(v):
            self.newkind = v.args[1] if v.op == "adt" else self.kind if same(t, v, r) else None
            self.new = F(v, ":%s.0" % self.newkind) if self.newkind else None

    def o(self, f):
        return fld(self.old, f)

    def n(self, f):
        return fld(self.new if self.new is not None else self.old, f)

    def kept(self, t, *but):
        """fields other than `but` that change"""
        if self.new is None:
            return []
        if self.newkind != self.kind:
            return ["kind"]
        return [f for f in KINDS[self.kind] if f not in but and not same(t, self.n(f), self.o(f))]

    def open(self, t):
        return optcase(t, self.o("closed_at")) == "None"


def spec_of(t):
    p = t.path[0]
    if p in ("Fund", "Close"):
        return F(MSG, ":%s.0" % p)
    return t.arg("airdrop")


def record(c, t):
    """the record of a claim, fund or close"""
    r = Rec(t, spec_of(t))
    if c.ob("record-known", W(t), r.id is not None and r.old is not None and r.has, "works on an airdrop that is not known to exist", t):
        return r
    return None


def claims(c, e):
    for k in KINDS:
        for t in ok(c, e, "Claim", k, n=4):
            r = record(c, t)
            if r is None:
                continue
            claimer = arg_addr(t, t.arg("account"), SENDER)
            if not c.ob("claimer-decided", W(t), claimer is not None, "who claims is not decided", t):
                continue
            yield t, k, r, claimer, (claimer if k == "Open" else t.arg("claim_hash")), t.arg("amount")


def log_writes(t):
    return writes(t, "claim_logs")


def entries(c):
    return [(nm, en) for nm, en in c.contract(CRATE).entries().items() if nm != "query"]


def others(c, *paths):
    """Ok traces of the other operations"""
    for nm, en in entries(c):
        for t in en.traces:
            if t.ok and not (nm == "execute" and any(t.path[:len(p)] == p for p in paths)):
                yield nm + " " + variant_name(t), t


# ------------------------------------------------------------- hash terms
def sha(x):
    return mk("digest", "Sha256VarCore", x)


def strcat(*xs):
    return mk("strcat", *xs)


def is_sha(t, x, pred):
    """x = sha256(y) with pred(y)"""
    return x.op == "digest" and x.args[0] == "Sha256VarCore" and pred(x.args[1])


def cat_is(t, x, *parts):
    """x is the concatenation of the parts, in order"""
    if x.op != "strcat":
        return len(parts) == 1 and same(t, x, parts[0])
    return len(x.args) == len(parts) and all(same(t, a, b) for a, b in zip(x.args, parts))


def pair_step(cases, p):
    """every step hashes the accumulator and the proof element in ascending
    order"""
    a = mk("accv", 0)
    both = {"sorted": False, "lt": False, "ge": False}
    for g, v in cases:
        if v.op != "digest" or v.args[0] != "Sha256VarCore":
            return False
        x = v.args[1]
        ys = list(x.args) if x.op in ("bconcat", "concat") else [x.args[1]] if x.op == "app" and x.args[0] == "concat" else []
        if len(ys) == 1 and ys[0].op == "sorted" and ys[0].args[0].op == "arr" and set(ys[0].args[0].args) == {a, p}:
            if g:
                return False
            both["sorted"] = True
            continue
        if len(ys) == 1 and ys[0].op == "arr":
            ys = list(ys[0].args)
        if len(ys) != 2 or set(ys) != {a, p}:
            return False
        if ys[0].op in ("min", "max") or len(g) != 1 or g[0][0].op not in ("lt", "slt"):
            return False
        l, r = g[0][0].args[:2]
        if {l, r} != {a, p}:
            return False
        lo = l if g[0][1] else r
        if ys[0] is not lo:
            return False
        both["lt" if g[0][1] else "ge"] = True
    return both["sorted"] or (both["lt"] and both["ge"])


def merkle(t, proof, key, amount, root):
    """literals saying that folding the proof from the leaf gives the root:
    [(atom, polarity)]"""
    r = []
    for c, p in t.lits:
        if c.op != "eq":
            continue
        for x, y in (c.args, c.args[::-1]):
            if not (y.op in ("unhex",) and same(t, y.args[0], root)):
                continue
            if x.op == "fold" and x.args[0] is proof and is_sha(t, x.args[1], lambda z: cat_is(t, z, key, S(":"), mk("to_string", amount))) and pair_step(x.args[2], mk("unhex", el(proof, 0))):
                r.append((c, p))
    return r


def signed(t, digest_pred, sig, pub):
    """polarities of the literals that verify the signature"""
    r = []
    for c, p in t.lits:
        if c.op != "fld" and c.op != "vfld":
            pass
        a = app_of(c)
        if a is None:
            continue
        d, s, k = a
        if digest_pred(d) and same(t, s, sig) and same(t, k, pub):
            r.append(p)
    return r


def app_of(c):
    for x in subterms(c):
        if x.op == "app" and str(x.args[0]).endswith("secp256k1_verify") and c is variant_payload(x, "Ok"):
            return x.args[-3:]
    return None


def claim_digest(t, h, claimer, amount):
    return lambda d: is_sha(t, d, lambda z: cat_is(t, z, h, S("/"), claimer, S("/"), mk("to_string", amount)))


# ------------------------------------------------------------------ A01
def a01(c, tier):
    e = execute(c)
    if not e:
        return
    for t, k, r, claimer, key, amount in claims(c, e):
        lk = tup(r.id, key)
        c.ob("not-claimed-before", W(t), any(t.holds(HAS("claim_logs", x)) is False for x in keys_like(t, lk)), "a claim succeeds without establishing that its key has not been claimed before", t)
        ws = log_writes(t)
        c.ob("claim-recorded", W(t), bool(ws) and all(w[0] == "save" and same(t, w[1], lk) for w in ws), "a claim does not record exactly its own key", t)
        if k == "Open" and optcase(t, t.arg("account")) == "Some":
            c.ob("account-validated", W(t), validated(t, SOME(t.arg("account"))), "the account is not validated: two spellings could claim twice", t)
    n = 0
    for w, t in others(c, ("Claim",)):
        n += 1
        c.ob("claim-log-permanent", w, not log_writes(t), "the record of claims is changed outside a claim", t)
    c.floor("vacuity", "other operations", n, 12)


def keys_like(t, k):
    """keys that the trace tested and that equal k"""
    r = [k]
    for c, p in t.lits:
        if c.op == "has" and c.args[0] == "claim_logs" and same(t, c.args[1], k):
            r.append(c.args[1])
    return r


# ------------------------------------------------------------------ A02
def a02(c, tier):
    e = execute(c)
    if not e:
        return
    for t, k, r, claimer, key, amount in claims(c, e):
        c.ob("claim-kind", W(t), r.kind == k, "a claim of one kind succeeds on an airdrop of the other kind", t)
        ms = merkle(t, t.arg("merkle_proof"), key, amount, r.o("merkle_root"))
        c.ob("merkle-proof", W(t), any(p for _, p in ms), "a claim succeeds without a Merkle proof of its key and amount against the airdrop's root", t)
        if k == "Bearer":
            ok_ = r.kind == "Bearer" and any(signed(t, claim_digest(t, key, claimer, amount), mk("unhex", t.arg("claim_sign")), r.o("signer_pub")))
            c.ob("signature", W(t), ok_, "a bearer claim succeeds without the airdrop signer's signature over hash, claimer and amount", t)


# ------------------------------------------------------------------ A03
def a03(c, tier):
    e = execute(c)
    if not e:
        return
    for t, k, r, claimer, key, amount in claims(c, e):
        w = W(t)
        ms = messages(t) or []
        if ms or t.holds(eq(ZERO, amount)) is not True:
            x = coins1(ms[0].coins) if len(ms) == 1 and ms[0].kind == "send" else None
            c.ob("claim-pays", w, x is not None and same(t, ms[0].to, claimer) and same(t, x[0], r.o("denom")) and same(t, x[1], amount), "a claim does not pay exactly the amount in the airdrop's denom to the claimer", t)
        c.ob("claim-counted", w, r.new is not None and r.kind == r.newkind and same(t, r.n("total_claimed"), add(r.o("total_claimed"), amount)), "the claimed amount is not added to the total claimed", t)
        c.ob("claim-covered", w, covered(t, r, amount), "a claim succeeds without establishing that the total claimed stays within the funds", t)
        ws = log_writes(t)
        c.ob("claim-logged-amount", w, len(ws) == 1 and ws[0][2] is not None and same(t, ws[0][2], amount), "the claim log does not record the amount paid", t)
    for w, t in others(c, ("Claim",)):
        if t.path[:1] == ("Close",):
            continue
        c.ob("no-other-payment", w, messages(t) == [], "sends messages outside claim and close", t)
    for k in ("Fund", "Close"):
        for t in ok(c, e, k, n=4):
            r = record(c, t)
            if r:
                c.ob("claimed-only-by-claims", W(t), not r.kept(t, "total_amount", "closed_at"), "changes the total claimed", t)
    for t in ok(c, e, "Register", n=4):
        v = registered(t)
        c.ob("claimed-starts-at-zero", W(t), v is not None and fld(v[1], "total_claimed") is ZERO, "a new airdrop does not start with nothing claimed", t)


def covered(t, r, amount):
    TA, TC = r.o("total_amount"), r.o("total_claimed")
    return (t.holds(lt(TA, add(TC, amount))) is False or t.holds(lt(sub(TA, TC), amount)) is False or t.holds(lt(sub(TA, amount), TC)) is False
            or t.holds(lt(add(TC, amount), TA)) is True
            or (t.holds(lt(TA, TC)) is True and t.holds(lt(ZERO, amount)) is False))  # nothing left, and nothing taken


def registered(t):
    """(kind, record) saved by a registration"""
    ws = writes(t, "airdrops")
    if len(ws) != 1 or ws[0][0] != "save" or ws[0][2].op != "adt" or not same(t, ws[0][1], NEXT):
        return None
    v = ws[0][2]
    return v.args[1], F(v, ":%s.0" % v.args[1])


# ------------------------------------------------------------------ A04
def a04(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Close", n=4):
        r = record(c, t)
        if not r:
            continue
        w = W(t)
        c.ob("close-by-creator", w, t.holds(eq(SENDER, r.o("creator"))) is True, "an airdrop is closed without its creator being the sender", t)
        c.ob("close-once", w, r.open(t), "an airdrop is closed that is not known to be open", t)
        rem = sub(r.o("total_amount"), r.o("total_claimed"))
        ms = messages(t) or []
        if ms or t.holds(eq(ZERO, rem)) is not True:
            x = coins1(ms[0].coins) if len(ms) == 1 and ms[0].kind == "send" else None
            c.ob("close-pays-rest", w, x is not None and (same(t, ms[0].to, r.o("creator")) or same(t, ms[0].to, SENDER)) and same(t, x[0], r.o("denom")) and same(t, x[1], rem), "closing does not pay exactly the unclaimed rest to the creator", t)
        c.ob("close-recorded", w, r.new is not None and optcase(t, r.n("closed_at")) == "Some" and same(t, SOME(r.n("closed_at")), HEIGHT), "closing is not recorded at the current height", t)
        c.ob("close-changes-nothing-else", w, not r.kept(t, "closed_at") and set(written(t)) <= {"airdrops"}, "closing changes something else: " + ", ".join(r.kept(t, "closed_at")), t)
    for p in ("Claim", "Fund"):
        for t in ok(c, e, p, n=4):
            r = record(c, t)
            if r:
                c.ob("closed-is-final", W(t), r.open(t), "a closed airdrop can still be claimed or funded", t)
                c.ob("never-reopened", W(t), r.new is None or optcase(t, r.n("closed_at")) == "None", "the closing mark is changed outside closing", t)


# ------------------------------------------------------------------ A05
def paid(t, denom, x):
    """x is the amount of the only coin sent, which is of the denom"""
    c0 = idx(FUNDS, I(0))
    return t.holds(eq(seq_len(FUNDS), I(1))) is True and t.holds(eq(fld(c0, "denom"), denom)) is True and same(t, x, fld(c0, "amount"))


def a05(c, tier):
    e = execute(c)
    if not e:
        return
    for t in ok(c, e, "Fund", n=4):
        r = record(c, t)
        if not r:
            continue
        w = W(t)
        c.ob("fund-by-creator", w, t.holds(eq(SENDER, r.o("creator"))) is True, "an airdrop is funded by someone other than its creator", t)
        c.ob("fund-adds-payment", w, r.new is not None and paid(t, r.o("denom"), sub(r.n("total_amount"), r.o("total_amount"))), "the total does not grow by exactly the one coin sent in the airdrop's denom", t)
        c.ob("fund-changes-nothing-else", w, not r.kept(t, "total_amount") and set(written(t)) <= {"airdrops"}, "funding changes something else", t)


# ------------------------------------------------------------------ A06
def osmo_addr(pub):
    """predicate: the bech32 address of a public key"""
    def p(x):
        ks = [y for y in subterms(x) if y.op == "app" and str(y.args[0]).endswith("encode")]
        if len(ks) != 1 or x is not variant_payload(ks[0], "Ok"):
            return False
        k = ks[0]
        if len(k.args) != 4 or k.args[1] is not S("osmo") or k.args[3].op != "adt" or k.args[3].args[1] != "Bech32":
            return False
        b = k.args[2]
        return b.op == "app" and str(b.args[0]).endswith("to_base32") and b.args[1] is mk("digest", "Ripemd160Core", sha(pub))
    return p


def a06(c, tier):
    e = execute(c)
    if not e:
        return
    for k in KINDS:
        for t in ok(c, e, "Register", k, n=2):
            w = W(t)
            v = registered(t)
            if not c.ob("registered-under-next-id", w, v is not None and v[0] == k, "a registration does not save one airdrop of its kind under the next id", t):
                continue
            v = v[1]
            n = t.final("latest_airdrop")
            c.ob("id-advances", w, saved(n) and same(t, n, add(NEXT, I(1))), "the next id does not advance by one", t)
            for f, x in (("creator", SENDER), ("denom", t.arg("denom")), ("merkle_root", t.arg("merkle_root")), ("created_at", HEIGHT)):
                c.ob("registered-" + f, w, same(t, fld(v, f), x), "the %s recorded is not the one given" % f, t)
            c.ob("registered-open", w, optcase(t, fld(v, "closed_at")) == "None", "a new airdrop is closed", t)
            c.ob("registered-funding", w, paid(t, t.arg("denom"), fld(v, "total_amount")), "the total is not exactly the one coin sent in the airdrop's denom", t)
            c.ob("root-length", w, t.holds(mk("hexlen", t.arg("merkle_root"), I(32))) is True or t.holds(mk("hexlen", t.arg("merkle_root"), 32)) is True, "the Merkle root is not known to be 32 bytes of hex", t)
            lab = t.arg("label")
            ws = writes(t, "labels")
            kk = optcase(t, lab)
            if kk == "None":
                c.ob("label-absent", w, not ws and optcase(t, fld(v, "label")) == "None", "a label is recorded though none was given", t)
            else:
                key = strcat(SENDER, S("/"), SOME(lab))
                good = kk == "Some" and len(ws) == 1 and ws[0][0] == "save" and cat_is(t, ws[0][1], SENDER, S("/"), SOME(lab)) and same(t, ws[0][2], NEXT)
                c.ob("label-namespaced", w, good, "the label does not name the new airdrop in its creator's namespace", t)
                c.ob("label-unique", w, good and t.holds(HAS("labels", ws[0][1])) is False, "a label that is already taken can be registered again", t)
                l = fld(v, "label")
                c.ob("label-recorded", w, optcase(t, l) == "Some" and cat_is(t, SOME(l), SENDER, S("/"), SOME(lab)), "the airdrop does not record its label", t)
            if k == "Bearer":
                pub = mk("unhex", t.arg("signer_pub"))
                c.ob("signer-key", w, same(t, fld(v, "signer_pub"), pub), "the recorded key is not the one given", t)
                isaddr = osmo_addr(pub)
                c.ob("signer-address", w, isaddr(fld(v, "signer")), "the recorded signer is not the address of the key", t)
                c.ob("signer-proven", w, any(signed(t, lambda d: is_sha(t, d, isaddr), mk("unhex", t.arg("signer_sig")), pub)), "the signer's signature over its address is not verified", t)
    for w, t in others(c, ("Register",)):
        if w.startswith("instantiate"):
            c.ob("ids-start-at-zero", w, t.final("latest_airdrop") is ZERO, "ids do not start at zero", t)
            continue
        c.ob("ids-only-by-register", w, not writes(t, "latest_airdrop"), "changes the next id", t)
        c.ob("labels-only-by-register", w, not writes(t, "labels"), "changes a label", t)


# ------------------------------------------------------------------ A07
def a07(c, tier):
    q = c.entry(CRATE, "contract::query")
    if not q:
        return
    seen = {}
    for t in ok(c, q, "VerifyClaim", n=12):
        x = answer(t)
        p = t.arg("claim")
        k = "Open" if isv(t, p, "Open") else "Bearer" if isv(t, p, "Bearer") else None
        w = "query VerifyClaim.%s" % k
        if not c.ob("answer-known", w, x is not None and k is not None, "the answer is not known", t):
            continue
        v = fld(x, "valid")
        p = as_variant(p, k)
        r = Rec(t, fld(p, "airdrop"))
        if not c.ob("record-known", w, r.old is not None and r.kind == k, "answers about an airdrop of another kind", t):
            continue
        acc = SOME(fld(p, "account"))
        key = acc if k == "Open" else fld(p, "claim_hash")
        amount, proof, root = fld(p, "amount"), fld(p, "merkle_proof"), r.o("merkle_root")
        closed = optcase(t, r.o("closed_at"))
        ms = [pol for _, pol in merkle(t, proof, key, amount, root)]
        sg = signed(t, claim_digest(t, key, acc, amount), mk("unhex", fld(p, "claim_sign")), r.o("signer_pub")) if k == "Bearer" else [True]
        bad = t.holds(v) is not True and v is not TRUE
        if v is TRUE or (not bad):
            seen[(k, True)] = seen.get((k, True), 0) + 1
            c.ob("valid-is-claimable", w, closed == "None" and True in ms and True in sg, "answers that a claim is valid without checking what the claim would check", t)
            c.ob("valid-has-no-reason", w, optcase(t, fld(x, "reason")) == "None", "gives a reason against a valid claim", t)
        elif v is FALSE or t.holds(v) is False:
            seen[(k, False)] = seen.get((k, False), 0) + 1
            malformed = False
            for a, pol in t.lits:
                if a.op == "exists" and a.args[0] is proof and pol and any(g.op == "hexlen" and not gp for g, gp in a.args[1]):
                    malformed = True
                if a.op == "hexlen" and same(t, a.args[0], root) and not pol:
                    malformed = True
                if a.op == "is" and a.args[1] == "Ok" and not pol and has_op(a, ("digest",)):
                    malformed = True
            c.ob("invalid-is-unclaimable", w, closed == "Some" or False in ms or False in sg or malformed, "answers that a claim is invalid which would pass verification", t)
        else:
            c.ob("answer-decided", w, False, "the answer is not decided", t)
    for k in KINDS:
        c.floor("vacuity", "valid %s" % k, seen.get((k, True), 0), 2)
        c.floor("vacuity", "invalid %s" % k, seen.get((k, False), 0), 4)


# ------------------------------------------------------------------ A08
def a08(c, tier):
    e = execute(c)
    if not e:
        return
    mutable = {"Claim": ["total_claimed"], "Fund": ["total_amount"], "Close": ["closed_at"]}
    n = 0
    for nm, en in entries(c):
        for t in en.traces:
            if not t.ok:
                continue
            w = nm + " " + variant_name(t)
            ws = writes(t, "airdrops")
            p = t.path[0] if t.path else ""
            c.ob("records-never-deleted", w, all(x[0] == "save" for x in ws), "an airdrop record is removed", t)
            if nm != "execute" or p not in ("Register", "Claim", "Fund", "Close"):
                c.ob("records-written-by-operations", w, not ws, "writes airdrop records", t)
                continue
            n += 1
            if p == "Register":
                c.ob("new-record-fresh", w, all(same(t, x[1], NEXT) for x in ws), "a registration writes under an id that may be in use", t)
                continue
            r = Rec(t, spec_of(t))
            if not c.ob("record-known", w, r.old is not None and r.has, "works on an airdrop that is not known to exist", t):
                continue
            c.ob("own-record-only", w, all(same(t, x[1], r.id) for x in ws), "writes the record of another airdrop", t)
            ch = r.kept(t, *mutable[p])
            c.ob("terms-fixed", w, not ch and (not ws or r.new is not None), "changes the airdrop's " + ", ".join(ch), t)
    c.floor("vacuity", "operations", n, 16)


# ------------------------------------------------------------------ A09
def page(t, x, option):
    """A page of a range: (range term, element, cases) or an error string"""
    src = [z for z in subterms(x) if z.op == "range"]
    if len(src) != 1:
        return "the listing does not read one range of records"
    r = src[0]
    st, lim, order = fld(option, "start_after"), fld(option, "limit"), fld(option, "order")
    takes = [z for z in subterms(x) if z.op == "take"]
    if len(takes) != 1:
        return "the listing is not limited"
    n = takes[0].args[1]
    kl = optcase(t, lim)
    if kl == "None":
        if n is not I(10):
            return "the default page is not 10"
    elif kl == "Some":
        if not same(t, n, SOME(lim)) or t.holds(lt(I(30), SOME(lim))) is not False:
            return "a page may exceed 30 or differ from the size asked for"
    else:
        return "the limit case is not decided"
    lo, hi, o = r.args[2], r.args[3], r.args[4]
    ko = optcase(t, order)
    if ko == "None":
        desc = False
    elif ko == "Some":
        d, a = (t.holds(is_variant(SOME(order), v)) for v in ("Desc", "Asc"))
        desc = True if d or a is False else False if a or d is False else None
    else:
        desc = None
    if desc is None:
        return "the order case is not decided"
    if o.op != "adt" or o.args[1] != ("Descending" if desc else "Ascending"):
        return "the order is not the one asked for"
    a, b = (hi, lo) if desc else (lo, hi)
    if optcase(t, b) != "None":
        return "the far end of the listing is bounded"
    ks = optcase(t, st)
    if ks == "None":
        if optcase(t, a) != "None":
            return "the listing does not start at the beginning"
    elif ks == "Some":
        if optcase(t, a) != "Some":
            return "the listing ignores where to continue"
        v = SOME(a)
        if not (v.op == "app" and v.args[0].endswith("exclusive") and same(t, v.args[1], SOME(st))) and not (v.op == "adt" and v.args[1] == "Exclusive" and contains(v, SOME(st))):
            return "the listing does not continue after the given key"
    else:
        return "the start case is not decided"
    return None


def rng(x):
    return [z for z in subterms(x) if z.op == "range"][0]


def listing(x):
    """cases of the element-wise map of a listing: [(guards, value)], and the
    generic key/value pair"""
    if x.op != "comp":
        return None, None
    b = x.args[0]
    e = el(b, 0)
    pay = variant_payload(e, "Ok")
    out = []
    for g, ys in x.args[1]:
        if len(ys) != 1:
            return None, None
        out.append((g, ys[0]))
    used = any(contains(y, pay) for _, y in out)
    return out, (pay if used else e)


def airdrop_resp(t, g, y, id_, rec):
    """y reports the airdrop `rec` with that id"""
    ty = y.args[1] if y.op == "adt" else None
    if ty not in KINDS:
        return False
    if (is_variant(rec, ty), True) not in g and t.holds(is_variant(rec, ty)) is not True:
        return False
    r = F(rec, ":%s.0" % ty)
    for f in KINDS[ty]:
        v = fld(r, f)
        if f == "signer_pub":
            v = mk("hex", v)
        if not same(t, fld(y, f), v):
            return False
    return same(t, fld(y, "id"), id_)


def label_parts(t, y, label):
    """creator and label of the answer are the recorded key up to and after its first slash"""
    cr, lb = fld(y, "creator"), fld(y, "label")
    sl = I(47)

    def call(z, n):
        return z.op == n or (z.op == "app" and str(z.args[0]).rsplit("::", 1)[-1] == n)

    def over(z, n):
        return z.op == "app" and str(z.args[0]).rsplit("::", 1)[-1] == n and z.args[1] is label and z.args[-1] in (sl, S("/"))

    def parts(z):
        return over(z, "split")

    def splitn(z):
        return over(z, "splitn") and z.args[2] is I(2)

    def some(z, n):
        # payload of an optional
        return z.op == "fld" and z.args[1] == "0" and z.args[0].op == "as" and z.args[0].args[1] == "Some" and n(z.args[0].args[0])

    def once(z, i):
        return z.op == "fld" and z.args[1] == i and some(z.args[0], lambda o: over(o, "split_once"))

    def at(z):
        return some(z, lambda o: over(o, "find"))

    def nxt(z, n):
        if not call(z, "next"):
            return False
        z = z.args[-1]
        for _ in range(n):
            if z.op != "mut":
                return False
            z = z.args[-1]
        return splitn(z)

    def end(z, f, n):
        return z.op == "slice" and z.args[0] is label and z.args[1].op == "adt" and f == z.args[1].args[0].rsplit("::", 1)[-1] and n(fld(z.args[1], {"RangeTo": "end", "RangeFrom": "start"}[f]))

    def first(z):
        return (z.op == "idx" and (parts(z.args[0]) or splitn(z.args[0])) and z.args[1] in (0, I(0))) or once(z, "0") or some(z, lambda o: nxt(o, 0)) or end(z, "RangeTo", at)

    def tail(z):
        if z.op == "tail" or call(z, "tail"):
            return parts(z.args[-1])
        a = z.args[1:] if z.op == "app" else z.args
        if call(z, "skip"):
            return parts(a[0]) and a[1] in (1, I(1))
        if call(z, "subslice"):
            return parts(a[0]) and tuple(a[1:3]) in ((1, 0), (I(1), I(0)))
        if call(z, "slice"):
            return parts(a[0]) and a[1].op == "adt" and a[1].args[0].endswith("RangeFrom") and fld(a[1], "start") is I(1)
        return False

    def rest(z):
        if call(z, "join"):
            a = z.args[1:] if z.op == "app" else z.args
            return tail(a[0]) and a[1] is S("/")
        if some(z, lambda o: call(o, "strip_prefix") and o.args[-2] is label and cat_is(t, o.args[-1], cr, S("/"))):
            return True
        return (z.op == "idx" and ((splitn(z.args[0]) and z.args[1] in (1, I(1))) or (z.args[0].op == "tail" and splitn(z.args[0].args[0]) and z.args[1] in (0, I(0))))) or once(z, "1") or some(z, lambda o: nxt(o, 1)) or end(z, "RangeFrom", lambda s: same(t, s, add(at_of(s), I(1))))

    def at_of(s):
        return next((z for z in subterms(s) if at(z)), UNIT)

    return first(cr) and rest(lb)


def slashless(l, v, label=None):
    """a condition no recorded label meets: every one holds a slash"""
    x = l.args[0] if l.args else UNIT

    def over(z, *names):
        return isinstance(z, T) and z.op == "app" and str(z.args[0]).rsplit("::", 1)[-1] in names and (label is None or z.args[1] is label) and z.args[-1] in (I(47), S("/"))

    if l.op == "is" and ((v is False and l.args[1] == "Some") or (v is True and l.args[1] == "None")):
        return over(x, "split_once", "find", "rfind") or (over(x, "strip_prefix") or (isinstance(x, T) and x.op == "app" and str(x.args[0]).rsplit("::", 1)[-1] in ("strip_prefix", "next") and any_sub(x, lambda z: z.op == "app" and (label is None or contains(z, label)))))
    n = [z for y in l.args if isinstance(y, T) for z in subterms(y) if z.op == "len" and over(z.args[0], "split", "splitn")]
    if len(n) != 1:
        return False
    n = n[0]
    if l.op == "eq" and v is True:
        return any(eq(n, I(k)) is l or eq(I(0), sub(n, I(k))) is l for k in (0, 1))
    if l.op == "lt":
        return (v is True and any(lt(n, I(k)) is l for k in (1, 2))) or (v is False and any(lt(I(k), n) is l for k in (0, 1)))
    return False


def label_known(t, label):
    return not any(slashless(l, v, label) for l, v in t.lits)


def a09(c, tier):
    q = c.entry(CRATE, "contract::query")
    if not q:
        return
    sane(c, q)
    for t in q.traces:
        if t.ok:
            c.ob("queries-write-nothing", variant_name(t), not t.eff, "a query has effects", t)
    for t in ok(c, q, "GetAirdrop", n=4):
        x = answer(t)
        i = aid(t, t.arg("id"))
        c.ob("get-airdrop", "GetAirdrop", x is not None and i is not None and airdrop_resp(t, (), x, i, LD("airdrops", i)), "does not report the recorded airdrop", t)
    for t in ok(c, q, "LatestAirdropId"):
        x = answer(t)
        c.ob("latest-id", "LatestAirdropId", x is not None and (same(t, x, NEXT) or (x.op == "adt" and same(t, fld(x, "0"), NEXT))), "does not report the next id", t)
    for t in ok(c, q, "GetClaim", n=2):
        x, i = answer(t), aid(t, t.arg("airdrop"))
        k = t.arg("claim_key")
        good = x is not None and i is not None and same(t, fld(x, "id"), i) and same(t, fld(x, "claim_key"), k) and same(t, fld(x, "amount"), LD("claim_logs", tup(i, k)))
        c.ob("get-claim", "GetClaim", good and t.holds(HAS("airdrops", i)) is True, "does not report the recorded claim", t)
    for t in ok(c, q, "GetLabel"):
        x = answer(t)
        l = t.arg("label")
        if not label_known(t, l):
            continue
        c.ob("get-label", "GetLabel", x is not None and same(t, fld(x, "airdrop_id"), LD("labels", l)) and label_parts(t, x, l), "does not report what the label names", t)

    def unwrap(x):
        return fld(x, "0") if x is not None and x.op == "adt" else x

    for t in ok(c, q, "ListLabels", n=12):
        x = unwrap(answer(t))
        cs, kv = listing(x) if x is not None else (None, None)
        good = cs is not None and len(cs) == 1 and not cs[0][0]
        good = good and rng(x).args[0].args[0] == "labels" and rng(x).args[0].args[2] is UNIT and same(t, fld(cs[0][1], "airdrop_id"), fld(kv, "1")) and label_parts(t, cs[0][1], fld(kv, "0"))
        c.ob("list-labels", "ListLabels", good, "does not list the recorded labels", t)
    for t in ok(c, q, "ListClaims", n=24):
        x, i = unwrap(answer(t)), aid(t, t.arg("airdrop"))
        cs, kv = listing(x) if x is not None else (None, None)
        good = i is not None and cs is not None and len(cs) == 1 and not cs[0][0]
        if good:
            y, pre = cs[0][1], rng(x).args[0]
            good = pre.args[0] == "claim_logs" and same(t, pre.args[2], i) and same(t, fld(y, "id"), i) and same(t, fld(y, "claim_key"), fld(kv, "0")) and same(t, fld(y, "amount"), fld(kv, "1"))
        c.ob("list-claims", "ListClaims", good, "does not list the airdrop's recorded claims", t)
    seen = {}
    for t in ok(c, q, "ListAirdrops", n=48):
        x = unwrap(answer(t))
        o = t.arg("option")
        k = [v for v in ("ByID", "ByType", "ByLabel", "ByCreator") if isv(t, o, v)]
        cs, kv = listing(x) if x is not None else (None, None)
        if not c.ob("list-airdrops-known", "ListAirdrops", len(k) == 1 and cs is not None, "the listing is not known", t):
            continue
        k = k[0]
        seen[k] = seen.get(k, 0) + 1
        op = as_variant(o, k)
        pre = rng(x).args[0]
        if k == "ByLabel":
            src = pre.args[0] == "labels" and pre.args[2] is UNIT
            i = fld(kv, "1")
            rec = LD("airdrops", i)
        else:
            i, rec = fld(kv, "0"), fld(kv, "1")
            ix = pre.args[1]
            if k == "ByID":
                src = pre.args[0] == "airdrops" and pre.args[2] is UNIT
            elif ix.op != "app" or ix.args[0] != "MultiIndex":
                src = False
            elif k == "ByType":
                typ = "Open" if isv(t, fld(op, "typ"), "Open") else "Bearer" if isv(t, fld(op, "typ"), "Bearer") else None
                src = typ is not None and index_cases(ix) == {"Open": S("open"), "Bearer": S("bearer")} and pre.args[2] is S(typ.lower())
            else:
                v = sym("idx.value")
                src = index_cases(ix) == {a: F(v, ":%s.0.creator" % a) for a in KINDS} and same(t, pre.args[2], fld(op, "creator")) and validated(t, fld(op, "creator"))
        c.ob("list-source", "ListAirdrops " + k, src, "does not list the airdrops asked for", t)
        c.ob("list-airdrops", "ListAirdrops " + k, {y.args[1] for _, y in cs if y.op == "adt"} == set(KINDS) and all(airdrop_resp(t, g, y, i, rec) for g, y in cs), "does not report the recorded airdrops", t)
    for k in ("ByID", "ByType", "ByLabel", "ByCreator"):
        c.floor("vacuity", "ListAirdrops " + k, seen.get(k, 0), 12)


def index_cases(ix):
    """an index function as {kind: key}"""
    f = ix.args[1]
    if f.op != "itab":
        return None
    v = sym("idx.value")
    r = {}
    for g, (y,) in f.args[0]:
        ks = [k for k in KINDS if (is_variant(v, k), True) in g]
        if len(ks) != 1 or len(g) != 1:
            # a key that does not depend on the kind
            return {k: y for k in KINDS} if not g else None
        r[ks[0]] = y
    return r


# ------------------------------------------------------------- A10 - A12
def a10(c, tier):
    core2.c23(c, tier, CRATE, "ibcx-airdrop")


def a11(c, tier):
    core3.layout(c, CRATE)
    q = c.entry(CRATE, "contract::query")
    if not q:
        return
    ix = {}
    for t in q.traces:
        for x in subterms(t.ret):
            if x.op == "app" and x.args[0] == "MultiIndex":
                ix.setdefault(x, t)
    names = {}
    for x, t in ix.items():
        ns, nm = x.args[2], x.args[3]
        c.ob("index-of-records", "index " + show(nm), ns is S("airdrops"), "an index refers to records under another key", t)
        c.ob("index-has-own-key", "index " + show(nm), names.setdefault(nm, x) is x, "two indexes share a storage key", t)
        c.ob("index-key-distinct", "index " + show(nm), nm.op == "str" and nm.args[0] not in core3.CELLS[CRATE], "an index shares the key of a record", t)
    c.floor("vacuity", "indexes", len(ix), 2)


def a12(c, tier):
    core2.c25(c, tier, CRATE)
