"""Transfer functions for the standard library and the CosmWasm libraries.

Every function here has a documented, fixed meaning that the analysed code
relies on; anything not listed (and without a dumped body) becomes an opaque,
named application of its arguments.
"""
import re

from . import terms
from .program import VECNEW
from .terms import *

EXACT = {}
REGEX = []


def model(*names):
    def d(f):
        for n in names:
            if n.startswith("re:"):
                REGEX.append((re.compile(n[3:]), f))
            else:
                EXACT[n] = f
        return f

    return d


_cache = {}


def lookup(c):
    k = (c.name, c.rname)
    if k in _cache:
        return _cache[k]
    r = None
    for n in (c.rname, c.name):
        if n in EXACT:
            r = EXACT[n]
            break
    if r is None:
        for n in (c.rname, c.name):
            for rx, f in REGEX:
                if rx.search(n):
                    r = f
                    break
            if r is not None:
                break
    _cache[k] = r
    return r


STRINGY = ("std::string::String", "str", "cosmwasm_std::Addr", "std::borrow::Cow<str>", "[u8]", "std::vec::Vec<u8>", "cosmwasm_std::Binary")


UINTS = ("cosmwasm_std::Uint64", "cosmwasm_std::Uint128", "cosmwasm_std::Uint256", "cosmwasm_std::Uint512")


def tyn(eng, ty):
    ty = eng.p.strip_ref(ty)
    return eng.p.tname(ty) if ty is not None else "?"


def cat(eng, ty):
    n = tyn(eng, ty)
    if n in ("cosmwasm_std::Decimal", "cosmwasm_std::Decimal256"):
        return "dec"
    if n in UINTS or re.match(r"^u(8|16|32|64|128|size)$", n) or n.startswith("bnum") and "<" not in n.replace("bnum::BUint<", ""):
        return "uint"
    if re.match(r"^i(8|16|32|64|128|size)$", n) or n in ("cosmwasm_std::Int64", "cosmwasm_std::Int128", "cosmwasm_std::Int256"):
        return "int"
    if n in STRINGY:
        return "str"
    if n == "bool":
        return "bool"
    return "?"


def D(eng, st, v):
    return eng.deref(st, v)


def DF(eng, st, v):
    return eng.deref_full(st, v)


def result_of(eng, st, fail, okv, errv):
    out = []
    for s, p in eng.fork(st, fail):
        out.append((s, err(errv) if p else ok(okv)))
    return out


def option_of(eng, st, fail, v):
    return [(s, NONE if p else some(v)) for s, p in eng.fork(st, fail)]


def no_panic(eng, st, bad, v, why):
    out = []
    for s, p in eng.fork(st, bad):
        if p:
            eng.panic(s, why)
        else:
            out.append((s, v))
    return out


# ------------------------------------------------------------- identities
@model(
    "std::clone::Clone::clone",
    "std::borrow::ToOwned::to_owned",
    "std::convert::AsRef::as_ref",
    "std::borrow::Borrow::borrow",
    "std::hint::must_use",
    "std::boxed::Box::<T>::new",
    "re:^std::boxed::Box::<.*>::(new|pin|from)$",
    "re:Addr::(as_str|into_string|as_bytes|to_string|as_ref)$",
    "re:string::String::(as_str|as_bytes|into_bytes|as_mut_str|into_boxed_str)$",
    "re:str::<impl str>::(as_bytes|to_owned|to_string|into_string)$",
    "re:vec::Vec::<.*>::(as_slice|into_boxed_slice)$",
    "re:slice::<impl \\[T\\]>::(to_vec|into_vec)$",
    "re:Binary::(as_slice|to_vec)$",
    "re:GenericArray::<.*>::as_slice$",
    "re:Uint(64|128|256)::(new|u128|u64|from_uint128)$",
    "re:Uint512::(from_uint256|from_uint128|new)$",
    "re:Option::<&T>::(cloned|copied)$",
    "re:Option::<T>::(as_ref|as_deref)$",
    "re:Result::<T, E>::as_ref$",
    "re:DepsMut::<'a, C>::(as_ref|branch)$",
    "re:Iterator>::by_ref$",
    "std::iter::Iterator::by_ref",
    "std::iter::Iterator::fuse",
    "std::iter::Iterator::cloned",
    "std::iter::Iterator::copied",
    "re:Cow<.*>::into_owned$",
    "std::convert::identity",
    "re:QuerierWrapper::<'a, C>::new$",
)
def ident(eng, st, c):
    a = c.args[0]
    if c.name.endswith("::as_mut"):
        return None
    a = D(eng, st, a) if a.op == "ref" and not c.name.endswith("branch") and not c.name.endswith("by_ref") else a
    return [(st, a)]


@model("std::ops::Deref::deref")
def deref(eng, st, c):
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    return [(st, D(eng, st, c.args[0]))]


@model("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut")
def deref_mut(eng, st, c):
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    return [(st, c.args[0])]


@model("cosmwasm_std::Addr::unchecked")
def addr_unchecked(eng, st, c):
    return [(st, D(eng, st, c.args[0]))]


@model("cosmwasm_std::Uint128", "cosmwasm_std::Uint64", "cosmwasm_std::Decimal")
def newtype_ctor(eng, st, c):
    return [(st, c.args[0])]


@model("re:^(cosmwasm_std::)?(Uint128|Uint64|Uint256|Decimal|Decimal256)::zero$", "re:Uint128::zero$", "re:Decimal(256)?::zero$", "re:Uint(64|256)::zero$")
def zero(eng, st, c):
    return [(st, I(0))]


@model("re:Uint(64|128|256)::one$", "re:Decimal(256)?::one$")
def one(eng, st, c):
    return [(st, I(1))]


@model("re:Uint(64|128|256)::is_zero$", "re:Decimal(256)?::is_zero$")
def is_zero(eng, st, c):
    return [(st, eq(D(eng, st, c.args[0]), I(0)))]


@model("std::default::Default::default")
def default(eng, st, c):
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    k = cat(eng, c.rty)
    n = tyn(eng, c.rty)
    if k in ("uint", "dec", "int"):
        return [(st, I(0))]
    if k == "bool":
        return [(st, FALSE)]
    if n == "std::string::String":
        return [(st, S(""))]
    if n.startswith("std::vec::Vec"):
        return [(st, arr())]
    if n.startswith("std::option::Option"):
        return [(st, NONE)]
    if re.match(r"std::collections::(BTree|Hash)(Map|Set)\b", n):
        return [(st, EMPTYMAP)]
    m = HASHER.search(n)
    if m:
        return [(st, mk("hctx", m.group(0)))]
    return None


def norm_user(d):
    return d.lstrip("<&").startswith("ibcx")


@model("std::string::ToString::to_string")
def to_string(eng, st, c):
    if c.inst is not None and c.inst.body is not None and norm_user(c.inst.deff):
        return None  # the repository's own conversion
    v = DF(eng, st, c.args[0])
    if cat(eng, c.argtys[0]) == "str" or v.op == "str":
        return [(st, v)]
    if v.op == "int" and cat(eng, c.argtys[0]) == "uint":
        return [(st, S(str(v.args[0])))]
    return [(st, mk("to_string", v))]


@model("std::str::FromStr::from_str", "re:str::<impl str>::parse$")
def from_str(eng, st, c):
    v = D(eng, st, c.args[0])
    rt = eng.p.types[c.rty]
    t = tyn(eng, rt["args"][0])
    if v.op == "to_string":
        return [(st, ok(v.args[0]))]
    if v.op == "str" and cat(eng, rt["args"][0]) in ("uint", "dec"):
        try:
            from fractions import Fraction

            q = Fraction(v.args[0])
            if q.denominator == 1:
                return [(st, ok(I(int(q))))]
            a = q * 10**18
            if a.denominator == 1 and cat(eng, rt["args"][0]) == "dec":
                return [(st, ok(mk("dec", int(a))))]
        except ValueError:
            pass
    return [(st, mk("app", "parse", S(t), v))]


@model("std::convert::Into::into", "std::convert::From::from")
def into(eng, st, c):
    if c.inst is not None and c.inst.body is not None and c.name.endswith("into"):
        # <T as Into<U>>::into is From::from; find what it resolves to
        body = c.inst.body
        for b in body["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k":
                td = eng.p.types[t[1][1]]
                if td["k"] == "fndef" and td["name"].endswith("From::from"):
                    from .engine import Call
                    from .program import norm_name

                    cc = Call()
                    cc.name = norm_name(td["name"])
                    cc.inst = eng.p.insts.get(td["inst"]) if td["inst"] is not None else None
                    cc.rname = norm_name(cc.inst.deff) if cc.inst else cc.name
                    cc.args, cc.argtys, cc.rty = c.args, c.argtys, c.rty
                    cc.where, cc.gargs = c.where, td["args"]
                    return eng.dispatch(st, cc)
        return None
    if c.inst is not None and c.inst.body is not None and c.inst.crate.startswith("ibcx"):
        return None
    v = c.args[0]
    src, dst = cat(eng, c.argtys[0]), cat(eng, c.rty)
    sn, dn = tyn(eng, c.argtys[0]), tyn(eng, c.rty)
    if sn == dn:
        return [(st, D(eng, st, v))]
    if src == "str" and dst == "str":
        return [(st, D(eng, st, v))]
    dv = DF(eng, st, v)
    if dv.op == "digest" and dv.args[0] in DIGEST_LEN and dn.replace(" ", "") == "[u8;%d]" % DIGEST_LEN[dv.args[0]]:
        return [(st, dv)]
    if src == "uint" and dst == "uint" or src == "dec" and dst == "dec":
        return [(st, D(eng, st, v))]
    if src == "bool" and dst == "uint":
        return [(st, mk("b2i", v))]
    if dn.startswith("std::vec::Vec") and (sn.startswith("[") or sn.startswith("std::vec")):
        return [(st, D(eng, st, v))]
    if dn.startswith("std::boxed::Box") or dn.startswith("std::option::Option"):
        if dn.startswith("std::option"):
            return [(st, some(v))]
        return [(st, v)]
    if c.inst is not None and c.inst.body is not None:
        return None
    return [(st, mk("app", "into", S(dn), DF(eng, st, v)))]


DIGEST_LEN = {"Sha256VarCore": 32, "Ripemd160Core": 20}


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def try_into(eng, st, c):
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    rt = eng.p.types[c.rty]
    if rt["k"] == "adt" and rt["name"] == RES:
        src, dst = cat(eng, c.argtys[0]), cat(eng, rt["args"][0])
        v = DF(eng, st, c.args[0])
        if (src == dst and src in ("uint", "dec", "str")) or (src, dst) in (("dec", "dec"),):
            f = mk("toobig", S(tyn(eng, rt["args"][0])), v)
            if v.op == "int":
                return [(st, ok(v))]
            return result_of(eng, st, f, v, mk("errv", "conv"))
        m = re.match(r"\[u8; ?(\d+)\]$", tyn(eng, rt["args"][0]))
        if m and v.op == "digest" and DIGEST_LEN.get(v.args[0]) == int(m.group(1)):
            return [(st, ok(v))]
    if c.name.endswith("try_into") and c.inst is not None and c.inst.body is not None:
        return None
    return [(st, mk("app", "try_into", S(eng.p.tname(c.rty)), DF(eng, st, c.args[0])))]


# ------------------------------------------------------------- comparison
@model("std::cmp::PartialEq::eq")
def p_eq(eng, st, c):
    return [(st, eq(DF(eng, st, c.args[0]), DF(eng, st, c.args[1])))]


@model("std::cmp::PartialEq::ne")
def p_ne(eng, st, c):
    return [(st, not_(eq(DF(eng, st, c.args[0]), DF(eng, st, c.args[1]))))]


def _cmp(f):
    def g(eng, st, c):
        a, b = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
        k = cat(eng, c.argtys[0])
        return [(st, f(a, b, (k in ("uint", "dec"), k == "uint")))]

    return g


EXACT["std::cmp::PartialOrd::lt"] = _cmp(lambda a, b, u: lt(a, b, *u))
EXACT["std::cmp::PartialOrd::gt"] = _cmp(lambda a, b, u: lt(b, a, *u))
EXACT["std::cmp::PartialOrd::le"] = _cmp(lambda a, b, u: not_(lt(b, a, *u)))
EXACT["std::cmp::PartialOrd::ge"] = _cmp(lambda a, b, u: not_(lt(a, b, *u)))

ORD = "std::cmp::Ordering"


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def ord_cmp(eng, st, c):
    a, b = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
    if cat(eng, c.argtys[0]) not in ("uint", "dec", "int"):
        r = mk("cmp", a, b)
        return [(st, r if c.name.endswith("Ord::cmp") else some(r))]
    k = cat(eng, c.argtys[0])
    u = (k in ("uint", "dec"), k == "uint")
    out = []
    for s, p in eng.fork(st, lt(a, b, *u)):
        if p:
            out.append((s, adt(ORD, "Less")))
        else:
            for s2, q in eng.fork(s, eq(a, b)):
                out.append((s2, adt(ORD, "Equal" if q else "Greater")))
    if c.name.endswith("partial_cmp"):
        out = [(s, some(v)) for s, v in out]
    return out


@model("std::cmp::Ord::max", "std::cmp::max")
def ord_max(eng, st, c):
    a, b = c.args
    k = cat(eng, c.argtys[0])
    u = (k in ("uint", "dec"), k == "uint")
    return [(s, b if p else a) for s, p in eng.fork(st, lt(a, b, *u))]


@model("std::cmp::Ord::min", "std::cmp::min")
def ord_min(eng, st, c):
    a, b = c.args
    k = cat(eng, c.argtys[0])
    u = (k in ("uint", "dec"), k == "uint")
    return [(s, a if p else b) for s, p in eng.fork(st, lt(a, b, *u))]


@model("std::cmp::Ord::clamp")
def ord_clamp(eng, st, c):
    x, lo, hi = c.args
    out = []
    for s, p in eng.fork(st, lt(x, lo, cat(eng, c.argtys[0]) in ("uint", "dec"))):
        if p:
            out.append((s, lo))
        else:
            for s2, q in eng.fork(s, lt(hi, x, cat(eng, c.argtys[0]) in ("uint", "dec"))):
                out.append((s2, hi if q else x))
    return out


# -------------------------------------------------------------- arithmetic
def ovf(kind, a, b):
    if a.op == "int" and b.op == "int":
        return FALSE
    if kind == "add" and (a is I(0) or b is I(0)):
        return FALSE
    return mk("ovf", kind, *(sorted((a, b), key=skey) if kind != "sub" else (a, b)))


def prod(eng, a, b, ca, cb):
    """-> (term, kind)"""
    if ca == "dec" and cb == "dec":
        if a is I(1):
            return b
        if b is I(1):
            return a
        if a is I(0) or b is I(0):
            return I(0)
        return mul(a, b, "decmul")
    if ca == "dec" or cb == "dec":
        u, d = (a, b) if cb == "dec" else (b, a)
        return mulfloor(u, d)
    return mul(a, b, "mul")


def mulfloor(u, d):
    if d is I(1):
        return u
    if u is I(0) or d is I(0):
        return I(0)
    return mk("mulfloor", u, d)


terms.SIMP["mulfloor"] = lambda u, d: mulfloor(u, d)


def quot(eng, a, b, ca, cb):
    if ca == "dec" and cb == "dec":
        return mk("decdiv", a, b) if b is not I(1) else a
    if ca == "dec" and cb == "uint":
        return mk("decdivint", a, b) if b is not I(1) else a
    if a.op == "int" and b.op == "int" and b.args[0]:
        return I(a.args[0] // b.args[0])
    if b is I(1):
        return a
    return mk("idiv", a, b)


def _bin(eng, st, c):
    a, b = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
    ca, cb = cat(eng, c.argtys[0]), cat(eng, c.argtys[1])
    return a, b, ca, cb


def arith(eng, st, op, a, b, ca, cb):
    """Panicking arithmetic -> [(state, value)]"""
    if op == "add":
        return no_panic(eng, st, ovf("add", a, b), add(a, b), "overflow")
    if op == "sub":
        return no_panic(eng, st, lt(a, b, True, ca == "uint") if ca != "int" else ovf("sub", a, b), sub(a, b), "underflow")
    if op == "mul":
        return no_panic(eng, st, ovf("mul", a, b), prod(eng, a, b, ca, cb), "overflow")
    if op == "div":
        return no_panic(eng, st, eq(b, I(0)), quot(eng, a, b, ca, cb), "division by zero")
    if op == "rem":
        r = I(a.args[0] % b.args[0]) if a.op == b.op == "int" and b.args[0] else mk("irem", a, b)
        return no_panic(eng, st, eq(b, I(0)), r, "division by zero")


def _op(op):
    def f(eng, st, c):
        if c.inst is not None and c.inst.crate.startswith("ibcx"):
            return None
        a, b, ca, cb = _bin(eng, st, c)
        if ca == "?" or cb == "?":
            return None
        if ca == "str":
            return [(st, strcat(a, b))]
        return arith(eng, st, op, a, b, ca, cb)

    return f


def _opa(op):
    def f(eng, st, c):
        if c.inst is not None and c.inst.crate.startswith("ibcx"):
            return None
        ptr = c.args[0]
        a, b, ca, cb = _bin(eng, st, c)
        if ca == "str":
            eng.write(st, ptr, strcat(a, b))
            return [(st, UNIT)]
        out = []
        for s, v in arith(eng, st, op, a, b, ca, cb):
            eng.write(s, ptr, v, "op-assign")
            out.append((s, UNIT))
        return out

    return f


for _n, _o in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    EXACT[f"std::ops::{_n}::{_o}"] = _op(_o)
    EXACT[f"std::ops::{_n}Assign::{_o}_assign"] = _opa(_o)


@model("re:(Uint(64|128|256)|Decimal(256)?)::checked_(add|sub|mul|div|rem)$", "re:num::<impl [ui]\\w+>::checked_(add|sub|mul|div|rem)$")
def checked(eng, st, c):
    a, b, ca, cb = _bin(eng, st, c)
    op = c.rname.rsplit("checked_", 1)[1]
    isopt = tyn(eng, c.rty).startswith("std::option")
    bad = {
        "add": lambda: ovf("add", a, b),
        "sub": lambda: lt(a, b, True, ca == "uint") if ca != "int" else ovf("sub", a, b),
        "mul": lambda: ovf("mul", a, b),
        "div": lambda: eq(b, I(0)),
        "rem": lambda: eq(b, I(0)),
    }[op]()
    val = {
        "add": lambda: add(a, b),
        "sub": lambda: sub(a, b),
        "mul": lambda: prod(eng, a, b, ca, cb),
        "div": lambda: quot(eng, a, b, ca, cb),
        "rem": lambda: mk("irem", a, b),
    }[op]()
    if isopt:
        return option_of(eng, st, bad, val)
    return result_of(eng, st, bad, val, mk("errv", op))


@model("re:(Uint(64|128|256)|Decimal(256)?)::saturating_sub$", "re:num::<impl u\\w+>::saturating_sub$")
def sat_sub(eng, st, c):
    a, b, ca, cb = _bin(eng, st, c)
    return [(s, I(0) if p else sub(a, b)) for s, p in eng.fork(st, lt(a, b))]


@model("re:(Uint(64|128|256)|Decimal(256)?)::saturating_(add|mul)$", "re:num::<impl u\\w+>::saturating_(add|mul)$")
def sat_add(eng, st, c):
    a, b, ca, cb = _bin(eng, st, c)
    op = c.rname.rsplit("_", 1)[1]
    v = add(a, b) if op == "add" else prod(eng, a, b, ca, cb)
    return [(s, mk("saturated") if p else v) for s, p in eng.fork(st, ovf(op, a, b))]


@model("re:(Uint(64|128|256)|Decimal(256)?)::wrapping_(add|sub|mul)$", "re:num::<impl u\\w+>::wrapping_(add|sub|mul)$")
def wrap(eng, st, c):
    a, b, ca, cb = _bin(eng, st, c)
    return [(st, mk("wrapping", c.rname.rsplit("_", 1)[1], a, b))]


@model("re:(Uint(64|128|256)|Decimal(256)?)::abs_diff$", "re:num::<impl u\\w+>::abs_diff$")
def abs_diff(eng, st, c):
    a, b, ca, cb = _bin(eng, st, c)
    return [(s, sub(b, a) if p else sub(a, b)) for s, p in eng.fork(st, lt(a, b))]


@model("re:Uint(64|128|256)::(multiply_ratio|checked_multiply_ratio)$")
def mul_ratio(eng, st, c):
    u, a, b = [DF(eng, st, x) for x in c.args]
    v = mk("mulratio", u, a, b) if a is not b else u
    v = muldiv(u, a, b)
    if "checked" in c.rname:
        return result_of(eng, st, eq(b, I(0)), v, mk("errv", "ratio"))
    return no_panic(eng, st, eq(b, I(0)), v, "ratio by zero")


def muldiv(u, a, b):
    """floor(u*a/b)"""
    x, y = sorted((u, a), key=skey)
    return mk("muldiv", x, y, b)


@model("re:Uint(64|128|256)::(mul_ceil|mul_floor|div_ceil|div_floor|checked_mul_floor|checked_mul_ceil|checked_div_floor|checked_div_ceil)$")
def mul_dir(eng, st, c):
    n = c.rname.rsplit("::", 1)[1]
    chk = n.startswith("checked_")
    n = n.replace("checked_", "")
    a, b = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
    v = mulfloor(a, b) if n == "mul_floor" else mk(n.replace("_", ""), a, b)
    return [(st, ok(v) if chk else v)]


@model("re:Decimal(256)?::(from_ratio|checked_from_ratio)$")
def from_ratio(eng, st, c):
    a, b = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
    v = ratio(a, b)
    if "checked" in c.rname:
        return result_of(eng, st, eq(b, I(0)), v, mk("errv", "ratio"))
    return no_panic(eng, st, eq(b, I(0)), v, "ratio by zero")


def ratio(a, b):
    if a.op == "int" and b.op == "int" and b.args[0]:
        q = a.args[0] * 10**18 // b.args[0]
        return I(q // 10**18) if q % 10**18 == 0 else mk("dec", q)
    if b is I(1):
        return a
    return mk("ratio", a, b)


terms.SIMP["ratio"] = ratio


E18 = I(10**18)


@model("re:Decimal(256)?::(raw|new)$")
def dec_raw(eng, st, c):
    v = DF(eng, st, c.args[0])
    if v.op == "app" and v.args[0] == "atomics":
        return [(st, v.args[1])]
    return [(st, ratio(v, E18))]


@model("re:Decimal(256)?::atomics$")
def dec_atomics(eng, st, c):
    v = DF(eng, st, c.args[0])
    if v.op == "ratio" and v.args[1] is E18:
        return [(st, v.args[0])]
    if v.op == "int":
        return [(st, I(v.args[0] * 10**18))]
    if v.op == "dec":
        return [(st, I(v.args[0]))]
    return [(st, mk("app", "atomics", v))]


@model("re:Decimal(256)?::(percent|permille)$")
def percent(eng, st, c):
    v = c.args[0]
    d = 100 if c.rname.endswith("percent") else 1000
    return [(st, ratio(v, I(d)))]


@model("re:Decimal(256)?::(checked_pow|pow)$", "re:Uint(64|128|256)::(checked_pow|pow)$", "re:num::<impl u\\w+>::(checked_pow|pow)$")
def powm(eng, st, c):
    a, b = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
    v = mk("pow", a, b)
    if b is I(0):
        v = I(1)
    if b is I(1):
        v = a
    if "checked" in c.rname:
        if tyn(eng, c.rty).startswith("std::option"):
            return option_of(eng, st, mk("ovf", "pow", a, b), v)
        return result_of(eng, st, mk("ovf", "pow", a, b), v, mk("errv", "pow"))
    return [(st, v)]


@model("re:Decimal(256)?::(to_uint_floor|to_uint_ceil|floor|ceil|sqrt|to_uint_trunc)$", "re:Decimal(256)?::(checked_ceil|checked_floor)$")
def dround(eng, st, c):
    n = c.rname.rsplit("::", 1)[1]
    a = DF(eng, st, c.args[0])
    if n == "to_uint_trunc":
        n = "to_uint_floor"
    v = mk(n.replace("checked_", ""), a)
    return [(st, ok(v) if n.startswith("checked") else v)]


@model("re:Timestamp::(seconds)$")
def ts_seconds(eng, st, c):
    a = DF(eng, st, c.args[0])
    if a.op == "from_seconds":
        return [(st, a.args[0])]
    return [(st, mk("seconds", a))]


@model("re:Timestamp::from_seconds$")
def ts_from(eng, st, c):
    return [(st, mk("from_seconds", c.args[0]))]


@model("re:Timestamp::(nanos|from_nanos)$")
def ts_nanos(eng, st, c):
    return [(st, DF(eng, st, c.args[0]))]


@model("re:Timestamp::(plus_seconds|minus_seconds|plus_nanos|plus_days|plus_hours|plus_minutes)$")
def ts_plus(eng, st, c):
    return [(st, mk(c.rname.rsplit("::", 1)[1], DF(eng, st, c.args[0]), c.args[1]))]


# ----------------------------------------------------------------- strings
@model("re:fmt::Arguments::<.*>::new$")
def fmt_args(eng, st, c):
    return [(st, mk("fmtargs", *[DF(eng, st, a) for a in c.args]))]


@model("re:fmt::Arguments::<.*>::(from_str|from_str_nonconst|new_const)$")
def fmt_const(eng, st, c):
    return [(st, mk("fmtargs", DF(eng, st, c.args[0])))]


@model("re:fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex)$")
def fmt_arg(eng, st, c):
    v = DF(eng, st, c.args[0])
    if c.rname.endswith("display"):
        if cat(eng, c.argtys[0]) == "str":
            return [(st, v)]
        return [(st, mk("to_string", v) if v.op != "int" else S(str(v.args[0])))]
    return [(st, mk("debugfmt", v))]


def fmt_pieces(t):
    """Decode the compiled format template: -> list of str pieces / None per
    argument, or None when it is not the simple `{}` form."""
    if t.op == "str":
        return [t.args[0]]
    if t.op != "bytes":
        return None
    b = t.args[0]
    out, i = [], 0
    try:
        while i < len(b):
            n = b[i]
            if n == 0:
                return out
            if n < 0x80:
                out.append(bytes(b[i + 1 : i + 1 + n]).decode())
                i += 1 + n
            elif n == 0x80:
                ln = b[i + 1] | b[i + 2] << 8
                out.append(bytes(b[i + 3 : i + 3 + ln]).decode())
                i += 3 + ln
            elif n == 0xC0:
                out.append(None)
                i += 1
            else:
                return None
    except Exception:
        return None
    return out


@model("std::fmt::format", "re:fmt::format$")
def fmt_format(eng, st, c):
    a = DF(eng, st, c.args[0])
    if a.op == "fmtargs":
        if len(a.args) == 1:
            p = fmt_pieces(a.args[0])
            if p is not None and len(p) == 1:
                return [(st, S(p[0]))]
        if len(a.args) == 2 and a.args[1].op == "arr":
            p = fmt_pieces(a.args[0])
            if p is not None and p.count(None) == len(a.args[1].args):
                it = iter(a.args[1].args)
                return [(st, strcat(*[S(x) if x is not None else next(it) for x in p]))]
    return [(st, mk("app", "format", a))]


def strcat(*xs):
    out = []
    for x in xs:
        if x.op == "strcat":
            out.extend(x.args)
        else:
            out.append(x)
    r = []
    for x in out:
        if x.op == "str" and r and r[-1].op == "str":
            r[-1] = S(r[-1].args[0] + x.args[0])
        elif x.op == "str" and x.args[0] == "":
            continue
        else:
            r.append(x)
    if not r:
        return S("")
    return r[0] if len(r) == 1 else mk("strcat", *r)


terms.SIMP["strcat"] = strcat


@model("re:string::String::push(_str)?$")
def string_push(eng, st, c):
    v = DF(eng, st, c.args[0])
    x = DF(eng, st, c.args[1])
    if c.rname.endswith("push"):
        x = S(chr(x.args[0])) if x.op == "int" else mk("app", "char", x)
    eng.write(st, c.args[0], strcat(v, x))
    return [(st, UNIT)]


@model("re:str::<impl str>::is_empty$", "re:string::String::is_empty$", "re:Vec::<T, A>::is_empty$", "re:slice::<impl \\[T\\]>::is_empty$")
def is_empty(eng, st, c):
    return [(st, eq(seq_len(DF(eng, st, c.args[0])), I(0)))]


@model("re:str::<impl str>::len$", "re:string::String::len$", "re:Vec::<T, A>::len$", "re:slice::<impl \\[T\\]>::len$", "re:Binary::len$")
def length(eng, st, c):
    return [(st, seq_len(DF(eng, st, c.args[0])))]


@model("re:str::<impl str>::(starts_with|ends_with|contains|trim_end_matches|trim_start_matches|trim|to_lowercase|to_uppercase|split|rsplit|splitn|rsplitn|split_once|rsplit_once|strip_prefix|strip_suffix)$")
def strfn(eng, st, c):
    n = c.rname.rsplit("::", 1)[1]
    v = [DF(eng, st, a) for a in c.args]
    if n in ("starts_with", "ends_with") and v[1].op == "int":
        v[1] = S(chr(v[1].args[0]))
    if "split" in n:
        if v[-1].op == "str" and len(v[-1].args[0]) == 1:
            v[-1] = I(ord(v[-1].args[0]))
        parts = mk("app", "split", v[0], v[-1])
        if n != "split" and v[-1] is not I(44) or n.endswith("n") and v[1] is not I(2):
            return [(st, mk("app", n, *v) if n.endswith("once") else mk("it", mk("app", n, *v), ()))]
        # texts split at a comma are pairs: splitting once is splitting
        # (terms.idx reads the second part as the last)
        if n.endswith("once"):
            r = tup(idx(parts, I(0)), idx(parts, I(1)))
            return [(s, NONE if p else some(r)) for s, p in eng.fork(st, eq(seq_len(parts), I(1)))]
        return [(st, to_iter(parts if n[0] == "s" else mk("rev", parts)))]
    if n in ("starts_with", "ends_with"):
        f = getattr(str, n.replace("_", ""))
        x = v[0]
        if x.op == "strcat":
            x = x.args[0 if n == "starts_with" else -1]
        if x.op == v[1].op == "str" and (x is v[0] or len(x.args[0]) >= len(v[1].args[0])):
            return [(st, B(f(x.args[0], v[1].args[0])))]
    return [(st, mk("app", n, *v))]


# ------------------------------------------------------------ option/result
@model("std::ops::Try::branch")
def try_branch(eng, st, c):
    v = D(eng, st, c.args[0])
    t = eng.p.types[eng.p.strip_ref(c.argtys[0])]
    CF = "std::ops::ControlFlow"
    if t["k"] != "adt" or t["name"] not in (OPT, RES):
        return None
    out = []
    for s, n in eng.fork_variant(st, v, t["name"]):
        if n == "Ok":
            out.append((s, adt(CF, "Continue", variant_payload(v, "Ok"))))
        elif n == "Err":
            out.append((s, adt(CF, "Break", err(variant_payload(v, "Err")))))
        elif n == "Some":
            out.append((s, adt(CF, "Continue", variant_payload(v, "Some"))))
        else:
            out.append((s, adt(CF, "Break", NONE)))
    return out


@model("std::ops::FromResidual::from_residual")
def from_residual(eng, st, c):
    v = c.args[0]
    if v.op == "adt" and v.args[1] == "Err":
        src = eng.p.types[c.argtys[0]]["args"][1] if c.argtys[0] is not None else None
        dst = eng.p.types[c.rty]
        if dst["name"] == RES:
            e = v.args[2]
            if src is not None and tyn(eng, src) != tyn(eng, dst["args"][1]):
                e = mk("errinto", S(tyn(eng, dst["args"][1])), DF(eng, st, e))
            return [(st, err(e))]
        if dst["name"] == OPT:
            return [(st, NONE)]
    if v is NONE or (v.op == "adt" and v.args[1] == "None"):
        return [(st, NONE)]
    return None


@model("re:panicking::", "re:option::(expect_failed|unwrap_failed)$", "re:result::unwrap_failed", "re:slice_index_fail")
def panics(eng, st, c):
    eng.panic(st, c.rname)
    return []


@model("re:Option::<T>::(unwrap|expect)$", "re:Result::<T, E>::(unwrap|expect)$")
def unwrap(eng, st, c):
    v = D(eng, st, c.args[0])
    ty = OPT if "Option" in c.rname else RES
    good = "Some" if ty == OPT else "Ok"
    out = []
    for s, n in eng.fork_variant(st, v, ty):
        if n == good:
            out.append((s, variant_payload(v, good)))
        else:
            eng.panic(s, "unwrap")
    return out


@model("re:Option::<T>::as_mut$")
def opt_as_mut(eng, st, c):
    p = c.args[0]
    v = D(eng, st, p)
    out = []
    for s, n in eng.fork_variant(st, v, OPT):
        if n == "Some":
            if p.op == "ref":
                ty = eng.p.strip_ref(c.argtys[0])
                pe = ("f", 0, "0", "Some", False)
                out.append((s, some(mk("ref", p.args[0], p.args[1] + (pe,), p.args[2] + (ty,)))))
            else:
                out.append((s, some(variant_payload(v, "Some"))))
        else:
            out.append((s, NONE))
    return out


@model("re:Option::<T>::take$")
def opt_take(eng, st, c):
    v = D(eng, st, c.args[0])
    eng.write(st, c.args[0], NONE, "take")
    return [(st, v)]


@model("std::mem::take")
def mem_take(eng, st, c):
    v = D(eng, st, c.args[0])
    n = tyn(eng, c.argtys[0])
    d = NONE if n.startswith(OPT) else arr() if "Vec" in n else S("") if "String" in n else I(0) if cat(eng, c.argtys[0]) in ("uint", "dec") else FALSE if n == "bool" else None
    if d is None:
        return None
    eng.write(st, c.args[0], d, "take")
    return [(st, v)]


@model("std::mem::replace")
def mem_replace(eng, st, c):
    v = D(eng, st, c.args[0])
    eng.write(st, c.args[0], c.args[1], "replace")
    return [(st, v)]


@model("std::mem::swap")
def mem_swap(eng, st, c):
    a, b = D(eng, st, c.args[0]), D(eng, st, c.args[1])
    eng.write(st, c.args[0], b, "swap")
    eng.write(st, c.args[1], a, "swap")
    return [(st, UNIT)]


@model("std::mem::drop", "std::mem::forget")
def mem_drop(eng, st, c):
    return [(st, UNIT)]


# ----------------------------------------------------------------- calling
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def call_fn(eng, st, c):
    f = c.args[0]
    t = c.args[1]
    if t.op != "tuple":
        return None
    return eng.call_value(st, f, list(t.args), c)


def call_shim(eng, st, c):
    return None


# -------------------------------------------------------------------- vecs
@model("re:vec::Vec::<T>::(new|with_capacity)$", "re:string::String::(new|with_capacity)$")
def vec_new(eng, st, c):
    return [(st, S("") if "String" in c.rname else arr())]


@model("re:boxed::Box::<T>::new_uninit$")
def box_uninit(eng, st, c):
    return [(st, mk("ref", newcell(eng, st, UNINIT), (), ()))]


@model("re:box_assume_init_into_vec_unsafe$", "re:Box::<.*>::assume_init$")
def box_init(eng, st, c):
    return [(st, D(eng, st, c.args[0]))]


@model("re:write_box_via_move$", "re:Box::<.*>::write$")
def box_write(eng, st, c):
    return [(st, c.args[1])]


@model("re:vec::Vec::<T, A>::push$")
def vec_push(eng, st, c):
    v = D(eng, st, c.args[0])
    eng.write(st, c.args[0], seq_concat(v, arr(c.args[1])), "push")
    return [(st, UNIT)]


@model("re:vec::Vec::<T, A>::(append)$")
def vec_append(eng, st, c):
    v, w = D(eng, st, c.args[0]), D(eng, st, c.args[1])
    eng.write(st, c.args[0], seq_concat(v, w), "append")
    eng.write(st, c.args[1], arr(), "append")
    return [(st, UNIT)]


@model("re:vec::Vec::<T, A>::extend_from_slice$")
def vec_extend_slice(eng, st, c):
    v, w = D(eng, st, c.args[0]), DF(eng, st, c.args[1])
    eng.write(st, c.args[0], seq_concat(v, w), "extend")
    return [(st, UNIT)]


@model("re:vec::Vec::<T, A>::insert$")
def vec_insert(eng, st, c):
    v = D(eng, st, c.args[0])
    if c.args[1] is I(0):
        r = seq_concat(arr(c.args[2]), v)
    else:
        r = mk("insert", v, c.args[1], c.args[2])
    eng.write(st, c.args[0], r, "insert")
    return [(st, UNIT)]


@model("std::iter::Extend::extend")
def vec_extend(eng, st, c):
    ptr = c.args[0]
    it = to_iter(as_seq(eng, c, 1, D(eng, st, c.args[1])))
    n = tyn(eng, c.argtys[0])
    if not n.startswith("std::vec"):
        return None

    def step(s, e):
        eng.write(s, ptr, seq_concat(D(eng, s, ptr), arr(e)), "extend")
        return [("cont", s, None)]

    d, b = eng.iterate(st, it, step)
    return [(s, UNIT) for s in d]


@model("re:vec::Vec::<T, A>::remove$", "re:vec::Vec::<T, A>::swap_remove$")
def vec_remove(eng, st, c):
    v = D(eng, st, c.args[0])
    i = c.args[1]
    x = idx(v, i)
    if v.op == "arr" and i.op == "int":
        r = arr(*(v.args[: i.args[0]] + v.args[i.args[0] + 1 :]))
    else:
        r = mk("removed", v, i)
    eng.write(st, c.args[0], r, "remove")
    return [(st, x)]


@model("re:vec::Vec::<T, A>::(pop)$")
def vec_pop(eng, st, c):
    v = D(eng, st, c.args[0])
    if v.op == "arr":
        if not v.args:
            return [(st, NONE)]
        eng.write(st, c.args[0], arr(*v.args[:-1]), "pop")
        return [(st, some(v.args[-1]))]
    out = []
    for s, p in eng.fork(st, eq(seq_len(v), I(0))):
        if p:
            out.append((s, NONE))
        else:
            eng.write(s, c.args[0], mk("butlast", v), "pop")
            out.append((s, some(idxend(v, 1))))
    return out


@model("re:vec::Vec::<T, A>::(clear|truncate)$")
def vec_clear(eng, st, c):
    eng.write(st, c.args[0], arr() if c.rname.endswith("clear") else mk("truncate", D(eng, st, c.args[0]), c.args[1]), "clear")
    return [(st, UNIT)]


@model("re:vec::Vec::<T, A>::retain$")
def vec_retain(eng, st, c):
    ptr = c.args[0]
    v = D(eng, st, ptr)
    cell = newcell(eng, st, arr())

    def step(s, e):
        r = []
        for s2, b in eng.call_value(s, c.args[1], [e]):
            for s3, p in eng.fork(s2, b):
                if p:
                    s3.mem[cell] = seq_concat(s3.mem[cell], arr(e))
                r.append(("cont", s3, None))
        return r

    d, b = eng.iterate(st, to_iter(v), step)
    out = []
    for s in d:
        eng.write(s, ptr, s.mem.pop(cell), "retain")
        out.append((s, UNIT))
    return out


@model("re:slice::<impl \\[T\\]>::(sort|sort_unstable)$")
def vec_sort(eng, st, c):
    eng.write(st, c.args[0], mk("sorted", unshuffle(D(eng, st, c.args[0]))), "sort")
    return [(st, UNIT)]


@model("re:slice::<impl \\[T\\]>::(sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key)$")
def vec_sort_by(eng, st, c):
    v = D(eng, st, c.args[0])
    # describe the order by what the comparator does on two generic elements
    x, y = mk("cmpl"), mk("cmpr")
    key = "by_key" in c.rname
    rs = eng.call_value(st.copy(), c.args[1], [x] if key else [x, y])
    if key and len(rs) == 1:
        r = rs[0][1]
        rs = [(rs[0][0], mk("cmp", r, subst(r, {x: y})))]
    o = tuple(sorted(((tuple(s.lits[len(st.lits):]), r) for s, r in rs), key=skey))
    eng.write(st, c.args[0], mk("sortedby", v, o), "sort")
    return [(st, UNIT)]


@model("re:slice::<impl \\[T\\]>::reverse$")
def vec_reverse(eng, st, c):
    v = D(eng, st, c.args[0])
    eng.write(st, c.args[0], rev(v), "reverse")
    return [(st, UNIT)]


def rev(v):
    if v.op == "arr":
        return arr(*v.args[::-1])
    if v.op == "rev":
        return v.args[0]
    if v.op == "comp" and len(v.args[1]) == 1 and not v.args[1][0][0] and len(v.args[1][0][1]) == 1:
        b = v.args[0]
        rb = rev(b)
        return comp(rb, [((), (subst(v.args[1][0][1][0], {el(b, 0): el(rb, 0)}),))])
    return mk("rev", v)


@model("re:slice::<impl \\[T\\]>::concat$")
def s_concat(eng, st, c):
    v = DF(eng, st, c.args[0])
    if v.op == "arr":
        if tyn(eng, c.rty).endswith("string::String"):
            return [(st, strcat(*v.args))]
        return [(st, mk("bconcat", *v.args))]
    return [(st, mk("app", "concat", v))]


@model("re:slice::<impl \\[T\\]>::join$")
def s_join(eng, st, c):
    v, sep = DF(eng, st, c.args[0]), DF(eng, st, c.args[1])
    if v.op == "arr":
        xs = []
        for i, x in enumerate(v.args):
            if i:
                xs.append(sep)
            xs.append(x)
        return [(st, strcat(*xs))]
    return [(st, mk("app", "join", v, sep))]


@model("re:slice::<impl \\[T\\]>::(first|last)$")
def s_first(eng, st, c):
    v = D(eng, st, c.args[0])
    f = c.rname.endswith("first")
    out = []
    for s, p in eng.fork(st, eq(seq_len(v), I(0))):
        if p:
            out.append((s, NONE))
        else:
            if f:
                x = idx(v, I(0))
            else:
                x = v.args[-1] if v.op == "arr" else idxend(v, 1)
            out.append((s, some(x)))
    return out


@model("re:slice::<impl \\[T\\]>::get$")
def s_get(eng, st, c):
    v, i = D(eng, st, c.args[0]), c.args[1]
    if cat(eng, c.argtys[1]) != "uint":
        return None
    if i.op == "pos" and i.args[0] is v:
        return [(st, some(idx(v, i)))]
    return [(s, some(idx(v, i)) if p else NONE) for s, p in eng.fork(st, lt(i, seq_len(v), True, True))]


@model("re:slice::<impl \\[T\\]>::get_mut$")
def s_get_mut(eng, st, c):
    p = c.args[0]
    v, i = D(eng, st, p), c.args[1]
    ptr = mk("ref", p.args[0], p.args[1] + (("i", i),), p.args[2] + (None,)) if p.op == "ref" else idx(v, i)
    if i.op == "pos" and i.args[0] is v:
        return [(st, some(ptr))]
    return [(s, some(ptr) if q else NONE) for s, q in eng.fork(st, lt(i, seq_len(v), True, True))]


RANGES = {"std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeFull", "std::ops::RangeInclusive"}


@model("std::ops::Index::index")
def index(eng, st, c):
    v, i = D(eng, st, c.args[0]), c.args[1]
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    if i.op == "adt" and i.args[0] in RANGES:
        return [(st, mk("slice", v, i))]
    if cat(eng, c.argtys[1]) == "uint":
        return [(st, idx(v, i))]
    return [(st, mk("mapget", v, DF(eng, st, i)))]


@model("std::ops::IndexMut::index_mut")
def index_mut(eng, st, c):
    p, i = c.args
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    if p.op == "ref" and cat(eng, c.argtys[1]) == "uint":
        return [(st, mk("ref", p.args[0], p.args[1] + (("i", i),), p.args[2] + (None,)))]
    return None


@model("re:slice::<impl \\[T\\]>::contains$")
def s_contains(eng, st, c):
    v, x = D(eng, st, c.args[0]), DF(eng, st, c.args[1])
    return any_like(eng, st, to_iter(v), lambda s, e: [(s, eq(e, x))])


@model("re:slice::<impl \\[T\\]>::split_at$", "re:slice::<impl \\[T\\]>::(windows|chunks|split_first|split_last)$")
def s_split(eng, st, c):
    return [(st, mk("app", c.rname.rsplit("::", 1)[1], *[DF(eng, st, a) for a in c.args]))]


# --------------------------------------------------------------- iterators
_ncell = [0]


def newcell(eng, st, v):
    eng.frame += 1
    cell = (eng.frame, "tmp")
    st.mem[cell] = v
    return cell


def to_iter(v):
    if v.op == "it":
        return v
    if v.op == "adt" and v.args[0].startswith("ibcx") and len(v.args) == 3 and v.args[0] not in terms.VARIANTS:
        # a newtype over a sequence: its IntoIterator yields the sequence
        v = v.args[2]
    return mk("it", v, ())


HASHED = re.compile(r"^(?:std::collections::|hashbrown::)?(?:hash::\w+::|hash_map::|hash_set::)?Hash(?:Set|Map)\b|^std::collections::Hash(?:Set|Map)\b")


def shuffle(eng, ty, v):
    """a hash table is passed through in an order that differs from run to run"""
    if ty is not None and v.op not in ("it", "ref") and HASHED.search(eng.p.tname(eng.p.strip_ref(ty))):
        return mk("shuffled", v)
    return v


def unshuffle(v):
    """where the order does not matter any more"""
    while True:
        x = any_op(v, "shuffled")
        if x is None:
            return v
        v = subst(v, {x: x.args[0]})


def any_op(v, op):
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, terms.T) or x in seen:
            continue
        seen.add(x)
        if x.op == op and not any_in(x.args[0], op):
            return x
        todo.extend(x.args)
    return None


def any_in(v, op):
    return any_op(v, op) is not None


@model("std::iter::IntoIterator::into_iter", "re:slice::<impl \\[T\\]>::iter$", "re:array::<impl \\[T; N\\]>::iter$", "re:Option::<T>::(iter|into_iter)$")
def into_iter(eng, st, c):
    if c.inst is not None and c.inst.crate.startswith("ibcx"):
        return None
    a = c.args[0]
    if a.op == "ref":
        t = eng.p.types[c.argtys[0]]
        v = D(eng, st, a)
        if v.op == "it":
            return [(st, a)]
        if t["k"] == "ref" and t["m"] and c.name.endswith("into_iter"):
            return iter_mut(eng, st, c)
        a = v
    if a.op == "adt" and a.args[0] in ("std::ops::Range", "std::ops::RangeInclusive"):
        lo, hi = fld(a, "start"), fld(a, "end")
        if a.args[0] == "std::ops::RangeInclusive":
            # up to and with the last: one more than up to it
            lo, hi = a.args[2], add(a.args[3], I(1))
            return [(st, mk("it", mk("rangei", "Range", lo, hi), ()))]
        if hi.op == "len" and lo.op == "int" and lo.args[0] == 0:
            # the positions of a sequence, in order
            s = hi.args[0]
            return [(st, mk("it", comp(s, [((), (mk("ix", s, 0),))]), ()))]
        return [(st, mk("it", mk("rangei", *a.args[1:]), ()))]
    if "BTreeSet" in eng.p.tname(eng.p.strip_ref(c.argtys[0])) and a.op in ("mapof", "mapins", "foldj", "fold"):
        a = mk("sorted", a)
    return [(st, to_iter(shuffle(eng, c.argtys[0], a)))]


@model("re:vec::from_elem$")
def from_elem(eng, st, c):
    """vec![v; n]"""
    v, n = D(eng, st, c.args[0]), c.args[1]
    if n.op == "int" and n.args[0] <= 16:
        return [(st, arr(*[v] * n.args[0]))]
    if n.op == "len":
        return [(st, comp(n.args[0], [((), (v,))]))]
    return None


@model("re:BTreeSet::<T(, A)?>::iter$")
def set_iter(eng, st, c):
    return [(st, to_iter(mk("sorted", D(eng, st, c.args[0]))))]


@model("re:Vec::<T(, A)?>::dedup$")
def vec_dedup(eng, st, c):
    v = D(eng, st, c.args[0])
    if v.op != "sorted":
        return None
    eng.write(st, c.args[0], mk("sorted", mk("mapof", v.args[0])), "dedup")
    return [(st, UNIT)]


@model("re:slice::<impl \\[T\\]>::iter_mut$")
def iter_mut(eng, st, c):
    p = c.args[0]
    if p.op != "ref":
        return None
    v = D(eng, st, p)
    if v.op == "arr":
        return [(st, mk("it", arr(*[mk("ref", p.args[0], p.args[1] + (("i", I(i)),), p.args[2] + (None,)) for i in range(len(v.args))]), ()))]
    return [(st, mk("it", mk("mutseq", p), ()))]


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def it_next(eng, st, c):
    p = c.args[0]
    v = D(eng, st, p)
    if v.op != "it":
        return None
    src, stages = v.args
    if stages:
        raise_unsup("next() on a lazy iterator")
    if c.name.endswith("next_back"):
        src = rev(src)
    if src.op == "arr":
        if not src.args:
            return [(st, NONE)]
        rest = arr(*src.args[1:])
        eng.write(st, p, mk("it", rev(rest) if c.name.endswith("next_back") else rest, ()), "next")
        return [(st, some(src.args[0]))]
    if src.op == "consumed":
        raise_unsup("iterator advanced inside its own loop")
    out = []
    for s, e in eng.fork(st, eq(seq_len(src), I(0))):
        if e:
            out.append((s, NONE))
        else:
            eng.write(s, p, mk("it", mk("tail", src), ()), "next")
            out.append((s, some(idx(src, I(0)))))
    return out


def raise_unsup(m):
    from .engine import Unsupported

    raise Unsupported(m)


def _stage(kind):
    def f(eng, st, c):
        a = c.args[0]
        a = D(eng, st, a) if a.op == "ref" else a
        it = to_iter(a)
        stg = (kind, c.args[1]) if len(c.args) > 1 else (kind, None)
        if kind in ("flatten", "flat_map"):
            stg = stg + (flat_kind(eng, c),)
        return [(st, mk("it", it.args[0], it.args[1] + (stg,)))]

    return f


def flat_kind(eng, c):
    """Element type that is flattened (Option / Result / other)."""
    n = eng.p.tname(c.rty) if c.rty is not None else ""
    # Flatten<I> : look at the item through the argument's type text
    if c.name.endswith("flat_map") and len(c.gargs) >= 2:
        # gargs: Self, U, F
        u = tyn(eng, c.gargs[1]) if not isinstance(c.gargs[1], dict) else ""
        return OPT if u.startswith(OPT) else RES if u.startswith(RES) else "seq"
    m = item_type(eng, c.argtys[0])
    return OPT if m.startswith(OPT) else RES if m.startswith(RES) else "seq"


def item_type(eng, ty):
    """Item type name of an iterator type (best effort, from its generics)."""
    ty = eng.p.strip_ref(ty)
    t = eng.p.types[ty]
    if t["k"] != "adt":
        return ""
    n = t["name"]
    if n in ("std::vec::IntoIter", "std::slice::Iter", "std::array::IntoIter", "std::option::IntoIter"):
        return eng.p.tname(t["args"][0])
    if n == "std::iter::Map":
        f = eng.p.types[t["args"][1]]
        if f["k"] == "closure" and f["inst"] is not None:
            i = eng.p.insts[f["inst"]]
            if i.body:
                return eng.p.tname(i.body["locals"][0])
        if f["k"] == "fndef" and f["inst"] is not None:
            i = eng.p.insts[f["inst"]]
            if i.body:
                return eng.p.tname(i.body["locals"][0])
        return ""
    if n in ("std::iter::Filter", "std::iter::Take", "std::iter::Skip", "std::iter::Rev", "std::iter::Cloned", "std::iter::Copied", "std::iter::Peekable"):
        return item_type(eng, t["args"][0])
    return ""


for _n in ("map", "filter", "filter_map", "flatten", "flat_map", "inspect"):
    EXACT["std::iter::Iterator::" + _n] = _stage(_n)


def materialise(eng, st, it):
    """Evaluate the lazy stages into a sequence term -> [(state, seq)]"""
    it = to_iter(it)
    if not it.args[1]:
        return [(st, it.args[0])]
    cell = newcell(eng, st, arr())

    def step(s, e):
        s.mem[cell] = seq_concat(s.mem[cell], arr(e))
        return [("cont", s, None)]

    d, b = eng.iterate(st, it, step)
    return [(s, s.mem.pop(cell)) for s in d]


@model("std::iter::Iterator::take", "std::iter::Iterator::skip", "std::iter::Iterator::step_by")
def it_take(eng, st, c):
    n = c.name.rsplit("::", 1)[1]
    a = D(eng, st, c.args[0])
    it = to_iter(a)
    # stages that neither drop nor add elements commute with take/skip
    if all(s[0] in ("map", "okwrap", "inspect") for s in it.args[1]):
        src = it.args[0]
        if src.op == "arr" and c.args[1].op == "int" and n != "step_by":
            k = c.args[1].args[0]
            return [(st, mk("it", arr(*(src.args[:k] if n == "take" else src.args[k:])), it.args[1]))]
        return [(st, mk("it", mk(n, src, c.args[1]), it.args[1]))]
    return [(s, mk("it", mk(n, v, c.args[1]), ())) for s, v in materialise(eng, st, it)]


@model("std::iter::Iterator::rev")
def it_rev(eng, st, c):
    it = to_iter(D(eng, st, c.args[0]))
    if it.args[0].op == "rangei":
        return [(st, mk("it", mk("rev", it.args[0]), it.args[1]))]
    if all(s[0] in ("map", "okwrap") for s in it.args[1]):
        return [(st, mk("it", rev(it.args[0]), it.args[1]))]
    return [(s, mk("it", rev(v), ())) for s, v in materialise(eng, st, it)]


@model("std::iter::Iterator::enumerate")
def it_enum(eng, st, c):
    out = []
    for s, v in materialise(eng, st, D(eng, st, c.args[0])):
        if v.op == "arr":
            out.append((s, mk("it", arr(*[tup(I(i), x) for i, x in enumerate(v.args)]), ())))
        elif v.op == "concat" and v.args[0].op == "arr" and len(v.args) == 2:
            n = len(v.args[0].args)
            b = v.args[1]
            out.append((s, mk("it", mk("chain", arr(*[tup(I(i), x) for i, x in enumerate(v.args[0].args)]), comp(b, [((), (tup(add(mk("ix", b, 0), I(n)), el(b, 0)),))])), ())))
        else:
            out.append((s, mk("it", comp(v, [((), (tup(mk("ix", v, 0), el(v, 0)),))]), ())))
    return out


@model("std::iter::Iterator::zip", "std::iter::zip")
def it_zip(eng, st, c):
    out = []
    for s, a in materialise(eng, st, D(eng, st, c.args[0])):
        for s2, b in materialise(eng, s, as_seq(eng, c, 1, D(eng, s, c.args[1]))):
            out.append((s2, mk("it", zipseq(a, b), ())))
    return out


def single(v):
    """(base, yield) of a one-to-one sequence."""
    if v.op == "comp" and len(v.args[1]) == 1 and not v.args[1][0][0] and len(v.args[1][0][1]) == 1:
        return v.args[0], v.args[1][0][1][0]
    if v.op in ("comp", "concat", "arr"):
        return None
    return v, el(v, 0)


def zipseq(a, b):
    if a.op == "arr" and b.op == "arr":
        return arr(*[tup(x, y) for x, y in zip(a.args, b.args)])
    x, y = single(a), single(b)
    if x and y and x[0] is y[0]:
        return comp(x[0], [((), (tup(x[1], y[1]),))])
    return mk("zip", a, b)


@model("std::iter::Iterator::chain")
def it_chain(eng, st, c):
    out = []
    b0 = as_seq(eng, c, 1, D(eng, st, c.args[1]))
    for s, a in materialise(eng, st, D(eng, st, c.args[0])):
        for s2, b in materialise(eng, s, b0):
            out.append((s2, mk("it", seq_concat(optseq(a), optseq(b)), ())))
    return out


def as_seq(eng, c, i, v):
    """Argument passed where an IntoIterator of a user newtype is expected."""
    v = shuffle(eng, c.argtys[i], v)
    if v.op == "adt" or v.op == "it":
        return v
    t = eng.p.types[eng.p.strip_ref(c.argtys[i])] if c.argtys[i] is not None else {"k": "?"}
    if t["k"] == "adt" and t["name"] in VECNEW:
        return v
    if t["k"] == "adt" and t["name"].startswith("ibcx") and not t["enum"] and t["x"] and len(t["v"][0]["f"]) == 1:
        return fld(v, t["v"][0]["f"][0][0])
    return v


def optseq(v):
    if v.op == "adt" and v.args[0] == OPT:
        return arr(*v.args[2:])
    return v


@model("std::iter::Iterator::peekable")
def it_peek(eng, st, c):
    return [(st, c.args[0])]


@model("re:(std|core)::array::<impl \\[T; N\\]>::map$", "re:(std|core)::array::.*; N\\]>::map$")
def array_map(eng, st, c):
    v = eng.deref_full(st, c.args[0])
    if v.op != "arr":
        return None
    out = [(st, ())]
    for x in v.args:
        out = [(s2, acc + (r,)) for s, acc in out for s2, r in eng.call_value(s, c.args[1], [x])]
    return [(s, arr(*acc)) for s, acc in out]


@model("std::iter::once")
def it_once(eng, st, c):
    return [(st, mk("it", arr(c.args[0]), ()))]


@model("std::iter::empty")
def it_empty(eng, st, c):
    return [(st, mk("it", arr(), ()))]


def consume(eng, st, it, init, step):
    """step(state, cell, e) -> [("cont"|"brk", state, payload)];
    -> (done: [(state, acc)], brks)"""
    cell = newcell(eng, st, init)
    d, b = eng.iterate(st, to_iter(it), lambda s, e: step(s, cell, e))
    done = []
    for s in d:
        done.append((s, s.mem.pop(cell)))
    for s, pl in b:
        s.mem.pop(cell, None)
    return done, b


@model("std::iter::Iterator::collect", "re:FromIterator>::from_iter$", "std::iter::FromIterator::from_iter")
def collect(eng, st, c):
    a = c.args[0]
    a = D(eng, st, a) if a.op == "ref" else a
    ty = eng.p.strip_ref(c.rty)
    return collect_ty(eng, st, a, ty)


def collect_ty(eng, st, a, ty):
    t = eng.p.types[ty]
    n = t["name"] if t["k"] == "adt" else "?"
    if n in (RES, OPT):
        good, bad = ("Ok", "Err") if n == RES else ("Some", "None")
        inner = t["args"][0]
        it = eng.p.types[inner]
        def step(s, cell, e):
            r = []
            for s2, v in eng.fork_variant(s, e, n):
                if v == good:
                    s2.mem[cell] = seq_concat(s2.mem[cell], arr(variant_payload(e, good)))
                    r.append(("cont", s2, None))
                else:
                    r.append(("brk", s2, variant_payload(e, "Err") if n == RES else UNIT))
            return r

        done, brks = consume(eng, st, a, arr(), step)
        out = [(s, err(pl) if n == RES else NONE) for s, pl in brks]
        for s, v in done:
            if it["k"] == "adt" and ("Map" in it["name"] or "Set" in it["name"]):
                v = mk("mapof", unshuffle(v))
            elif it["k"] == "adt" and it["name"].startswith("ibcx"):
                raise_unsup("collect into " + it["name"])
            out.append((s, ok(v) if n == RES else some(v)))
        return out

    def step(s, cell, e):
        s.mem[cell] = seq_concat(s.mem[cell], arr(e))
        return [("cont", s, None)]

    done, brks = consume(eng, st, a, arr(), step)
    if "Map" in n or "Set" in n:
        return [(s, mk("mapof", unshuffle(v))) for s, v in done]
    if n == "std::string::String":
        return [(s, mk("app", "concat", v)) for s, v in done]
    return done


@model("std::iter::Iterator::sum")
def it_sum(eng, st, c):
    t = eng.p.types[c.rty]

    if t["k"] == "adt" and t["name"] in (RES, OPT):
        n = t["name"]
        good = "Ok" if n == RES else "Some"

        def stepr(s, cell, e):
            r = []
            for s2, v in eng.fork_variant(s, e, n):
                if v == good:
                    s2.mem[cell] = add(s2.mem[cell], variant_payload(e, good))
                    r.append(("cont", s2, None))
                else:
                    r.append(("brk", s2, variant_payload(e, "Err") if n == RES else UNIT))
            return r

        done, brks = consume(eng, st, D(eng, st, c.args[0]), I(0), stepr)
        return [(s, ok(v) if n == RES else some(v)) for s, v in done] + [(s, err(p) if n == RES else NONE) for s, p in brks]

    def step(s, cell, e):
        s.mem[cell] = add(s.mem[cell], DF(eng, s, e))
        return [("cont", s, None)]

    return consume(eng, st, D(eng, st, c.args[0]), I(0), step)[0]


@model("std::iter::Iterator::count")
def it_count(eng, st, c):
    return [(s, seq_len(v)) for s, v in materialise(eng, st, D(eng, st, c.args[0]))]


@model("std::iter::Iterator::last")
def it_last(eng, st, c):
    out = []
    for s, v in materialise(eng, st, D(eng, st, c.args[0])):
        for s2, p in eng.fork(s, eq(seq_len(v), I(0))):
            out.append((s2, NONE if p else some(v.args[-1] if v.op == "arr" else idxend(v, 1))))
    return out


@model("std::iter::Iterator::fold")
def it_fold(eng, st, c):
    f = c.args[2]
    ptr = callable_ptr(eng, st, f)

    def step(s, cell, e):
        r = []
        for s2, v in eng.call_value(s, ptr, [s.mem[cell], e]):
            s2.mem[cell] = v
            r.append(("cont", s2, None))
        return r

    return consume(eng, st, D(eng, st, c.args[0]), c.args[1], step)[0]


def callable_ptr(eng, st, f):
    """FnMut closures keep their captured state across calls."""
    return f


@model("std::iter::Iterator::try_fold")
def it_try_fold(eng, st, c):
    f = c.args[2]
    n = eng.p.types[c.rty]["name"]
    good = "Ok" if n == RES else "Some"
    if n not in (RES, OPT):
        return None

    def step(s, cell, e):
        r = []
        for s2, v in eng.call_value(s, f, [s.mem[cell], e]):
            for s3, k in eng.fork_variant(s2, v, n):
                if k == good:
                    s3.mem[cell] = variant_payload(v, good)
                    r.append(("cont", s3, None))
                else:
                    r.append(("brk", s3, variant_payload(v, "Err") if n == RES else UNIT))
        return r

    done, brks = consume(eng, st, D(eng, st, c.args[0]), c.args[1], step)
    return [(s, ok(v) if n == RES else some(v)) for s, v in done] + [(s, err(p) if n == RES else NONE) for s, p in brks]


@model("std::iter::Iterator::for_each")
def it_for_each(eng, st, c):
    def step(s, cell, e):
        return [("cont", s2, None) for s2, _ in eng.call_value(s, c.args[1], [e])]

    return [(s, UNIT) for s, v in consume(eng, st, D(eng, st, c.args[0]), UNIT, step)[0]]


@model("std::iter::Iterator::try_for_each")
def it_try_for_each(eng, st, c):
    n = eng.p.types[c.rty]["name"]
    good = "Ok" if n == RES else "Some"

    def step(s, cell, e):
        r = []
        for s2, v in eng.call_value(s, c.args[1], [e]):
            for s3, k in eng.fork_variant(s2, v, n):
                if k == good:
                    r.append(("cont", s3, None))
                else:
                    r.append(("brk", s3, variant_payload(v, "Err") if n == RES else UNIT))
        return r

    done, brks = consume(eng, st, D(eng, st, c.args[0]), UNIT, step)
    return [(s, ok(UNIT) if n == RES else some(UNIT)) for s, v in done] + [(s, err(p) if n == RES else NONE) for s, p in brks]


def any_like(eng, st, it, pred, result=(TRUE, FALSE)):
    def step(s, cell, e):
        r = []
        for s2, v in pred(s, e):
            for s3, p in eng.fork(s2, v):
                r.append(("brk", s3, None) if p else ("cont", s3, None))
        return r

    done, brks = consume(eng, st, it, UNIT, step)
    return [(s, result[1]) for s, v in done] + [(s, result[0]) for s, p in brks]


@model("std::iter::Iterator::any")
def it_any(eng, st, c):
    return any_like(eng, st, D(eng, st, c.args[0]), lambda s, e: eng.call_value(s, c.args[1], [e]))


@model("std::iter::Iterator::all")
def it_all(eng, st, c):
    return any_like(eng, st, D(eng, st, c.args[0]), lambda s, e: [(s2, not_(v)) for s2, v in eng.call_value(s, c.args[1], [e])], (FALSE, TRUE))


@model("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def it_find(eng, st, c):
    n = c.name.rsplit("::", 1)[1]
    it = to_iter(D(eng, st, c.args[0]))
    if it.args[0].op == "mutseq" and n == "find":
        if it.args[1]:
            raise_unsup("find on an adapted mutable iterator")
        p = it.args[0].args[0]
        out = []
        for s, r in _position(eng, st, D(eng, st, p), c):
            if r is NONE:
                out.append((s, NONE))
            else:
                i = SOMEP(r)
                out.append((s, some(mk("ref", p.args[0], p.args[1] + (("i", i),), p.args[2] + (None,)))))
        return out
    if n == "position" and it.args[0].op == "mutseq":
        it = mk("it", D(eng, st, it.args[0].args[0]), it.args[1])
    if n == "position":
        out = []
        for s, v in materialise(eng, st, it):
            out.extend(_position(eng, s, v, c))
        return out

    def step(s, cell, e):
        r = []
        for s2, v in eng.call_value(s, c.args[1], [e]):
            if n == "find":
                for s3, p in eng.fork(s2, v):
                    r.append(("brk", s3, e) if p else ("cont", s3, None))
            else:
                for s3, k in eng.fork_variant(s2, v, OPT):
                    r.append(("brk", s3, variant_payload(v, "Some")) if k == "Some" else ("cont", s3, None))
        return r

    done, brks = consume(eng, st, it, UNIT, step)
    return [(s, NONE) for s, v in done] + [(s, some(p)) for s, p in brks]


def SOMEP(r):
    return variant_payload(r, "Some")


def _position(eng, st, seq, c):
    if seq.op == "arr":
        pairs = arr(*[tup(I(i), x) for i, x in enumerate(seq.args)])
    else:
        pairs = comp(seq, [((), (tup(mk("ix", seq, 0), el(seq, 0)),))])

    def step(s, cell, e):
        r = []
        for s2, v in eng.call_value(s, c.args[1], [fld(e, "1")]):
            for s3, p in eng.fork(s2, v):
                r.append(("brk", s3, fld(e, "0")) if p else ("cont", s3, None))
        return r

    done, brks = consume(eng, st, mk("it", pairs, ()), UNIT, step)
    return [(s, NONE) for s, v in done] + [(s, some(p)) for s, p in brks]


@model("std::iter::Iterator::unzip", "std::iter::Iterator::partition")
def it_unzip(eng, st, c):
    if c.name.endswith("partition"):
        def step(s, cell, e):
            r = []
            for s2, v in eng.call_value(s, c.args[1], [e]):
                for s3, p in eng.fork(s2, v):
                    a, b = s3.mem[cell].args
                    s3.mem[cell] = tup(seq_concat(a, arr(e)), b) if p else tup(a, seq_concat(b, arr(e)))
                    r.append(("cont", s3, None))
            return r
    else:
        def step(s, cell, e):
            a, b = s.mem[cell].args
            s.mem[cell] = tup(seq_concat(a, arr(fld(e, "0"))), seq_concat(b, arr(fld(e, "1"))))
            return [("cont", s, None)]

    return consume(eng, st, D(eng, st, c.args[0]), tup(arr(), arr()), step)[0]


@model("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::product", "std::iter::Iterator::reduce")
def it_max(eng, st, c):
    n = c.name.rsplit("::", 1)[1]
    return [(s, mk("app", "iter_" + n, v, *[DF(eng, s, a) for a in c.args[1:]])) for s, v in materialise(eng, st, D(eng, st, c.args[0]))]


# --------------------------------------------------------------- maps (std)
# map(ins(k1,v1), ins(k2,v2), ..) on top of a base: mapins(base, k, v)
EMPTYMAP = mk("mapof", arr())


@model("re:(BTreeMap|HashMap|BTreeSet|HashSet)::<.*>::(new|with_capacity|default)$")
def map_new(eng, st, c):
    return [(st, EMPTYMAP)]


def isset(c):
    return "Set::" in c.rname


def mapin(m, k):
    """membership of a key"""
    if m.op == "mapof" and m.args[0].op == "arr":
        return or_(*[eq(fld(x, "0") if x.op == "tuple" else x, k) for x in m.args[0].args])
    if m.op == "mapins":
        return or_(eq(m.args[1], k), mapin(m.args[0], k))
    return mk("mapin", m, k)


terms.SIMP["mapin"] = mapin


def mapget(m, k):
    if m.op == "mapins":
        e = eq(m.args[1], k)
        if e is TRUE:
            return m.args[2]
        if e is FALSE:
            return mapget(m.args[0], k)
    return mk("mapget", m, k)


terms.SIMP["mapget"] = mapget


@model("re:(BTreeMap|HashMap|BTreeSet|HashSet)::<.*>::insert$")
def map_insert(eng, st, c):
    m, k = D(eng, st, c.args[0]), DF(eng, st, c.args[1])
    v = UNIT if isset(c) else c.args[2]
    out = []
    for s, p in eng.fork(st, mapin(m, k)):
        eng.write(s, c.args[0], mk("mapins", m, k, v), "insert")
        if isset(c):
            out.append((s, B(not p)))
        else:
            out.append((s, some(mapget(m, k)) if p else NONE))
    return out


@model("re:(BTreeMap|HashMap|BTreeSet|HashSet)::<.*>::(contains_key|contains)$")
def map_contains(eng, st, c):
    return [(st, mapin(D(eng, st, c.args[0]), DF(eng, st, c.args[1])))]


@model("re:(BTreeMap|HashMap)::<.*>::(get|get_mut)$")
def map_get(eng, st, c):
    p = c.args[0]
    m, k = D(eng, st, p), DF(eng, st, c.args[1])
    out = []
    for s, q in eng.fork(st, mapin(m, k)):
        if not q:
            out.append((s, NONE))
        elif c.rname.endswith("get_mut") and p.op == "ref":
            out.append((s, some(mk("ref", p.args[0], p.args[1] + (("mk", k),), p.args[2] + (None,)))))
        else:
            out.append((s, some(mapget(m, k))))
    return out


@model("re:(BTreeMap|HashMap|BTreeSet|HashSet)::<.*>::(len|is_empty)$")
def map_len(eng, st, c):
    n = mk("maplen", D(eng, st, c.args[0]))
    return [(st, n if c.rname.endswith("len") else eq(n, I(0)))]


@model("re:(BTreeMap|HashMap|BTreeSet|HashSet)::<.*>::(iter|keys|values|into_keys|into_values)$")
def map_iter(eng, st, c):
    v = D(eng, st, c.args[0])
    if c.rname.endswith("::iter") and HASHED.search(eng.p.tname(eng.p.strip_ref(c.argtys[0]))):
        return [(st, to_iter(shuffle(eng, c.argtys[0], v)))]
    return [(st, mk("it", shuffle(eng, c.argtys[0], mk("map" + c.rname.rsplit("::", 1)[1], v)), ()))]


# ------------------------------------------------------------------ hashing
def bcat(*xs):
    out = []
    for x in xs:
        if x.op == "bconcat":
            out.extend(x.args)
        else:
            out.append(x)
    return out[0] if len(out) == 1 else mk("bconcat", *out)


HASHER = re.compile(r"Sha256VarCore|Ripemd\d+Core|Keccak\w+|Sha\w+Core|Blake\w+")


def hash_name(eng, c):
    for g in c.gargs or ():
        n = eng.p.tname(g) if not isinstance(g, dict) else ""
        m = HASHER.search(n)
        if m:
            return m.group(0)
    return "hash"


@model("re:Digest(>)?::(new|default)$")
def dig_new(eng, st, c):
    return [(st, mk("hctx", hash_name(eng, c)))]


@model("re:Digest(>)?::update$")
def dig_update(eng, st, c):
    h = D(eng, st, c.args[0])
    if h.op != "hctx":
        return None
    eng.write(st, c.args[0], mk("hctx", *h.args, DF(eng, st, c.args[1])), "update")
    return [(st, UNIT)]


@model("re:Digest(>)?::(chain|chain_update)$")
def dig_chain(eng, st, c):
    h = D(eng, st, c.args[0])
    if h.op != "hctx":
        return None
    return [(st, mk("hctx", *h.args, DF(eng, st, c.args[1])))]


@model("re:Digest(>)?::finalize$")
def dig_final(eng, st, c):
    h = D(eng, st, c.args[0])
    if h.op != "hctx":
        return None
    return [(st, mk("digest", h.args[0], bcat(*h.args[1:])))]


@model("re:Digest(>)?::digest$")
def dig_digest(eng, st, c):
    return [(st, mk("digest", hash_name(eng, c), bcat(DF(eng, st, c.args[0]))))]


@model("hex::decode")
def hex_decode(eng, st, c):
    v = DF(eng, st, c.args[0])
    return result_of(eng, st, not_(mk("hexok", v)), mk("unhex", v), mk("errv", "hex"))


@model("hex::decode_to_slice")
def hex_to_slice(eng, st, c):
    v = DF(eng, st, c.args[0])
    buf = D(eng, st, c.args[1])
    n = seq_len(buf)
    out = []
    for s, p in eng.fork(st, mk("hexlen", v, n)):
        if p:
            eng.write(s, c.args[1], mk("unhex", v), "decode")
            out.append((s, ok(UNIT)))
        else:
            out.append((s, err(mk("errv", "hex"))))
    return out


@model("hex::encode")
def hex_encode(eng, st, c):
    v = DF(eng, st, c.args[0])
    return [(st, v.args[0] if v.op == "unhex" else mk("hex", v))]


# ----------------------------------------------------------------- storage
def ns_of(t):
    """The namespace string of a cw-storage-plus container value."""
    if t.op == "adt" and t.args[0].endswith("IndexedMap"):
        x = t.args[2]
        return x.args[0] if x.op == "str" else show(x)
    for x in t.args[2:] if t.op == "adt" else (t,):
        if x.op == "bytes":
            return bytes(x.args[0]).decode("latin1")
        if x.op == "str":
            return x.args[0]
        r = ns_of(x) if isinstance(x, T) and x.op == "adt" else None
        if r is not None:
            return r
    return None


NODEL = mk("deleted")


def sto_read(eng, st, ns, key):
    w = st.sto.get(ns)
    if w is not None and w.op == "writes":
        for x in reversed(w.args):
            if x.op == "w":
                if x.args[0] is key:
                    return ("val", x.args[1])
                if is_const(x.args[0]) and is_const(key):
                    continue
            return ("unk", w)
        return ("base", None)
    if w is not None:
        return ("unk", w)
    return ("base", None)


def ldterm(ns, key, ver=None):
    return mk("ld", ns, key) if ver is None else mk("ld", ns, key, ver)


def hasterm(ns, key, ver=None):
    return mk("has", ns, key) if ver is None else mk("has", ns, key, ver)


def sto_lookup(eng, st, ns, key):
    """-> [(state, value or None)]"""
    k, v = sto_read(eng, st, ns, key)
    if k == "val":
        return [(st, None if v is NODEL else v)]
    ver = v if k == "unk" else None
    return [(s, ldterm(ns, key, ver) if p else None) for s, p in eng.fork(st, hasterm(ns, key, ver))]


def sto_write(eng, st, ns, key, val):
    w = st.sto.get(ns)
    ws = w.args if w is not None and w.op == "writes" else (() if w is None else (w,))
    st.sto[ns] = mk("writes", *(ws + (mk("w", key, val),)))
    e = mk("del", ns, key) if val is NODEL else mk("save", ns, key, val)
    eng.origin.setdefault(e, eng.callpath())
    st.eff = st.eff + (e,)


def is_storage(v):
    return v.op == "sym" or v.op == "fld"


def container(eng, st, c):
    v = DF(eng, st, c.args[0])
    ns = ns_of(v)
    if ns is None:
        ns = "?" + show(v)[:60]
    ty = c.rname.split("::")
    item = any(x.startswith("Item") for x in ty)
    if not hasattr(eng, "cells"):
        eng.cells = {}
    eng.cells.setdefault(ns, set()).add(re.sub(r"'[a-z_]+,?\s*", "", tyn(eng, c.argtys[0])))
    if not hasattr(eng, "cellty"):
        eng.cellty = {}
    eng.cellty.setdefault(ns, set()).add(eng.p.strip_ref(c.argtys[0]))
    return ns, item


NF = mk("errv", "not_found")


@model("re:cw_storage_plus::(item::)?Item::<.*>::(load|may_load|save|remove|update|exists|may_load)$", "re:cw_storage_plus::(map::|indexed_map::|snapshot::)?(Map|IndexedMap|SnapshotMap)::<.*>::(load|may_load|save|remove|update|has|replace)$")
def storage_op(eng, st, c):
    ns, item = container(eng, st, c)
    op = c.rname.rsplit("::", 1)[1]
    key = UNIT if item else DF(eng, st, c.args[2])
    rest = c.args[2:] if item else c.args[3:]
    return storage_do(eng, st, op, ns, key, item, rest, c)


def storage_do(eng, st, op, ns, key, item, rest, c):
    eng.storage_ops = getattr(eng, "storage_ops", 0) + 1
    if op == "load":
        return [(s, ok(v) if v is not None else err(mk("errv", "not_found", S(ns)))) for s, v in sto_lookup(eng, st, ns, key)]
    if op == "may_load":
        return [(s, ok(some(v) if v is not None else NONE)) for s, v in sto_lookup(eng, st, ns, key)]
    if op in ("has", "exists"):
        return [(s, B(v is not None)) for s, v in sto_lookup(eng, st, ns, key)]
    if op == "save":
        sto_write(eng, st, ns, key, DF(eng, st, rest[0]))
        return [(st, ok(UNIT))]
    if op == "remove":
        sto_write(eng, st, ns, key, NODEL)
        return [(st, ok(UNIT) if "IndexedMap" in c.rname else UNIT)]
    if op == "update":
        out = []
        for s, v in sto_lookup(eng, st, ns, key):
            if item:
                if v is None:
                    out.append((s, err(mk("errv", "not_found", S(ns)))))
                    continue
                arg = v
            else:
                arg = some(v) if v is not None else NONE
            for s2, r in eng.call_value(s, rest[0], [arg]):
                for s3, k in eng.fork_variant(s2, r, RES):
                    if k == "Ok":
                        nv = DF(eng, s3, variant_payload(r, "Ok"))
                        sto_write(eng, s3, ns, key, nv)
                        out.append((s3, ok(nv)))
                    else:
                        out.append((s3, err(variant_payload(r, "Err"))))
        return out
    return None


@model("re:cw_storage_plus::(map::|indexed_map::)?(Map|IndexedMap)::<.*>::key$")
def map_key(eng, st, c):
    ns, item = container(eng, st, c)
    return [(st, mk("adt", "cw_storage_plus::Path", "Path", S(ns), DF(eng, st, c.args[1])))]


terms.FIELDS[("cw_storage_plus::Path", "Path")] = ("storage_key", "data")


@model("re:cw_storage_plus::(path::)?Path::<.*>::(load|may_load|save|remove|update|has)$")
def path_op(eng, st, c):
    p = eng.deref_full(st, c.args[0])
    if p.op != "adt" or p.args[1] != "Path":
        return None
    ns, key = p.args[2].args[0], p.args[3]
    op = c.rname.rsplit("::", 1)[1]
    return storage_do(eng, st, op, ns, key, False, c.args[2:], c)


@model("re:cw_storage_plus::.*IndexedMap::<.*>::new$")
def imap_new(eng, st, c):
    return [(st, mk("adt", "cw_storage_plus::IndexedMap", "IndexedMap", DF(eng, st, c.args[0]), UNIT, DF(eng, st, c.args[1])))]


terms.FIELDS[("cw_storage_plus::IndexedMap", "IndexedMap")] = ("pk_namespace", "primary", "idx")


@model("re:cw_storage_plus::.*MultiIndex::<.*>::new$", "re:cw_storage_plus::.*UniqueIndex::<.*>::new$")
def midx_new(eng, st, c):
    """the index function is evaluated on a generic record: the index is the
    table (guards -> index key)"""
    k = "MultiIndex" if "MultiIndex" in c.rname else "UniqueIndex"
    n = 2 if k == "MultiIndex" else 1
    a = [sym("idx.pk"), sym("idx.value")][2 - n:]
    cs = []
    st0 = st.copy()
    for s, r in eng.call_value(st0, c.args[0], a, c):
        g = tuple((x, p) for x, p in s.lits if (x, p) not in st.lits)
        cs.append((g, (eng.deref_full(s, r),)))
    f = mk("itab", tuple(sorted(cs, key=skey)))
    return [(st, mk("app", k, f, *[DF(eng, st, a) for a in c.args[1:]]))]


@model("re:cw_storage_plus::.*(Map|IndexedMap|MultiIndex)::<.*>::(prefix|sub_prefix)$")
def map_prefix(eng, st, c):
    v = DF(eng, st, c.args[0])
    ns = ns_of(v)
    return [(st, mk("prefix", ns if ns is not None else show(v), v if v.op == "app" else UNIT, DF(eng, st, c.args[1])))]


@model("re:cw_storage_plus::.*(Map|IndexedMap|MultiIndex|Prefix)::<.*>::(range|keys|prefix_range|range_raw|keys_raw)$")
def map_range(eng, st, c):
    v = DF(eng, st, c.args[0])
    if v.op != "prefix":
        ns = ns_of(v)
        v = mk("prefix", ns if ns is not None else show(v), v if v.op == "app" else UNIT, UNIT)
    a = [DF(eng, st, x) for x in c.args[2:]]
    seq = mk("range", v, st.sto.get(v.args[0], UNIT), *a)
    if c.rname.endswith("keys"):
        seq = mk("keysof", seq)
    return [(st, mk("it", comp(seq, [((), (ok(el(seq, 0)),))]), ()))]


@model("re:cw_storage_plus::.*Bound::<.*>::(exclusive|inclusive)$")
def bound(eng, st, c):
    return [(st, mk("app", "Bound::" + c.rname.rsplit("::", 1)[1], DF(eng, st, c.args[0])))]


# --------------------------------------------------------------- cosmwasm
@model("cosmwasm_std::Api::addr_validate", "re:Api>::addr_validate$")
def addr_validate(eng, st, c):
    v = DF(eng, st, c.args[1])
    return result_of(eng, st, not_(mk("valid_addr", v)), v, mk("errv", "addr"))


@model("cosmwasm_std::to_json_binary", "cosmwasm_std::to_binary", "cosmwasm_std::to_json_vec", "cosmwasm_std::to_vec", "re:^cosmwasm_std::(serde::)?to_(json_)?(binary|vec|string)$")
def to_json(eng, st, c):
    x = mk("json", DF(eng, st, c.args[0]))
    eng.jsonty.setdefault(x, set()).add(eng.p.strip_ref(c.argtys[0]))
    return [(st, ok(x))]


@model("re:^cosmwasm_std::(serde::)?from_(json|binary|slice)$")
def from_json(eng, st, c):
    v = DF(eng, st, c.args[0])
    if v.op == "json":
        return [(st, ok(v.args[0]))]
    rt = eng.p.types[c.rty]
    return [(st, mk("app", "from_json", S(tyn(eng, rt["args"][0])), v))]


@model("re:^cosmwasm_std::QuerierWrapper::<'a, C>::(query_balance|query_supply|query_wasm_smart|query_wasm_raw|query_all_balances|query)$")
def query(eng, st, c):
    n = c.rname.rsplit("::", 1)[1]
    eng.queries = getattr(eng, "queries", 0) + 1
    rt = eng.p.types[c.rty]
    args = [DF(eng, st, a) for a in c.args[1:]]
    if n == "query_wasm_smart":
        n, args = "query", [adt("cosmwasm_std::QueryRequest", "Wasm", adt("cosmwasm_std::WasmQuery", "Smart", args[0], mk("json", args[1])))]
    return [(st, mk("qry", n, S(tyn(eng, rt["args"][0])), *args))]


@model("ibcx_math::pow::pow", "ibcx_math::pow")
def math_pow(eng, st, c):
    # judged by itself (M05)
    if eng.p.crate == "ibcx_math":
        return None
    return [(st, mk("app", "pow", *[DF(eng, st, a) for a in c.args]))]
