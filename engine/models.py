"""Summaries of the std / soroban-sdk functions the contracts call."""
from .terms import *

MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ident(c):
    return c.st, c.I.deref(c.st, c.a[0])


# ------------------------------------------------------------------ core traits
model("core::clone::Clone::clone", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref", "core::ops::deref::Deref::deref",
      "alloc::borrow::ToOwned::to_owned", "core::hint::must_use", "core::hint::black_box")(lambda c: (c.st, c.I.resolve(c.st, c.a[0]) if c.a[0].op == "ref" else c.a[0]))

NUMS = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}


def numty(s):
    s = s.lstrip("&").strip()
    return s in NUMS or s.endswith("soroban_decimal::decimal::Decimal") or s.endswith("soroban_decimal::decimal256::Decimal256") or s.endswith("soroban_decimal::Decimal") or s.endswith("::U256") or s.endswith("::I256")


def deref_all(c, i):
    return c.I.resolve(c.st, c.a[i])


def derived(c):
    fn = c.I.prog.fns.get(c.co["key"])
    return fn is None or fn.expn or fn.crate in c.I.opaque_crates


def argnum(c):
    return numty(c.T[c.co["ga"][0]]["s"]) if c.co["ga"] else False


def boolty(c):
    return c.co["ga"] and c.T[c.co["ga"][0]]["s"].lstrip("&") == "bool"


@model("core::cmp::PartialEq::eq")
def m_eq(c):
    if not derived(c):
        return NotImplemented
    a, b = deref_all(c, 0), deref_all(c, 1)
    if boolty(c):
        x, y = tobool(a), tobool(b)
        return c.ret(ite(x, y, bnot(y)))
    return c.ret(eqn(a, b) if argnum(c) else eq(a, b))


@model("core::cmp::PartialEq::ne")
def m_ne(c):
    if not derived(c):
        return NotImplemented
    a, b = deref_all(c, 0), deref_all(c, 1)
    if boolty(c):
        x, y = tobool(a), tobool(b)
        return c.ret(ite(x, bnot(y), y))
    return c.ret(bnot(eqn(a, b) if argnum(c) else eq(a, b)))


def _cmp(f):
    def m(c):
        if not derived(c):
            return NotImplemented
        u = c.co["ga"] and c.T[c.co["ga"][0]]["s"].lstrip("&") in UNS
        return c.ret(f(ult if u else lt, deref_all(c, 0), deref_all(c, 1)))
    return m


MODELS["core::cmp::PartialOrd::lt"] = _cmp(lambda lt, a, b: lt(a, b))
MODELS["core::cmp::PartialOrd::le"] = _cmp(lambda lt, a, b: bnot(lt(b, a)))
MODELS["core::cmp::PartialOrd::gt"] = _cmp(lambda lt, a, b: lt(b, a))
MODELS["core::cmp::PartialOrd::ge"] = _cmp(lambda lt, a, b: bnot(lt(a, b)))


@model("core::cmp::Ord::cmp")
def m_cmp(c):
    if not derived(c):
        return NotImplemented
    return c.ret(c.I.ordering(deref_all(c, 0), deref_all(c, 1), argnum(c)))


@model("core::cmp::PartialOrd::partial_cmp")
def m_pcmp(c):
    if not derived(c):
        return NotImplemented
    return c.ret(some(c.I.ordering(deref_all(c, 0), deref_all(c, 1), argnum(c))))


@model("core::cmp::Ord::min", "core::cmp::min")
def m_min(c):
    return c.ret(ite(le(c.v(0), c.v(1)), c.v(0), c.v(1)))


@model("core::cmp::Ord::max", "core::cmp::max")
def m_max(c):
    return c.ret(ite(le(c.v(0), c.v(1)), c.v(1), c.v(0)))


@model("core::cmp::Ord::clamp")
def m_clamp(c):
    x, lo, hi = c.v(0), c.v(1), c.v(2)
    if not guard(c, le(lo, hi), "clamp with bounds out of order"):
        return None
    return c.ret(ite(lt(x, lo), lo, ite(lt(hi, x), hi, x)))


def selfnum(c):
    ga = [c.T[x]["s"] for x in c.co["ga"]]
    return all(numty(x) for x in ga) if ga else False


def _arith(f, decimal_ok):
    def m(c):
        ga = [c.T[x]["s"].lstrip("&") for x in c.co["ga"]]
        if ga and all(g in NUMS for g in ga):
            return c.ret(f(c.v(0), c.v(1)))
        if ga and decimal_ok and all("soroban_decimal" in g for g in ga):
            return c.ret(f(c.v(0), c.v(1)))
        return NotImplemented
    return m


MODELS["core::ops::arith::Add::add"] = _arith(padd, True)
MODELS["core::ops::arith::Sub::sub"] = _arith(psub, True)
MODELS["core::ops::arith::Mul::mul"] = _arith(pmul, False)
MODELS["core::ops::arith::Div::div"] = _arith(pdiv, False)
MODELS["core::ops::arith::Rem::rem"] = _arith(prem, False)
model("soroban_sdk::num::U256::add", "soroban_sdk::num::I256::add")(lambda c: c.ret(padd(c.v(0), c.v(1))))
model("soroban_sdk::num::U256::sub", "soroban_sdk::num::I256::sub")(lambda c: c.ret(psub(c.v(0), c.v(1))))
model("soroban_sdk::num::U256::mul", "soroban_sdk::num::I256::mul")(lambda c: c.ret(pmul(c.v(0), c.v(1))))
model("soroban_sdk::num::U256::div", "soroban_sdk::num::I256::div")(lambda c: c.ret(pdiv(c.v(0), c.v(1))))
model("soroban_sdk::num::U256::from_u128")(lambda c: c.ret(c.v(1)))
model("soroban_sdk::num::U256::from_u32")(lambda c: c.ret(c.v(1)))
model("soroban_sdk::num::U256::to_u128")(lambda c: c.ret(mk("call", "U256::to_u128", c.v(0))))


def _assign(f):
    def m(c):
        ga = [c.T[x]["s"].lstrip("&") for x in c.co["ga"]]
        if ga and all(g in NUMS for g in ga) and c.a[0].op in ("ref", "ite"):
            c.I.writeref(c.st, c.a[0], (), f(c.v(0), c.v(1)))
            return c.ret(UNIT)
        return NotImplemented
    return m


MODELS["core::ops::arith::AddAssign::add_assign"] = _assign(padd)
MODELS["core::ops::arith::SubAssign::sub_assign"] = _assign(psub)
MODELS["core::ops::bit::Not::not"] = lambda c: c.ret(bnot(tobool(c.v(0))))
MODELS["core::ops::arith::Neg::neg"] = lambda c: c.ret(pneg(c.v(0))) if c.co["ga"] and c.T[c.co["ga"][0]]["s"].lstrip("&") in NUMS else NotImplemented

INTW = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0)}


def conv(c, src, dst, v):
    if src["s"] == dst["s"]:
        return v
    if dst["k"] == "adt" and dst["d"] == OPT and not (src["k"] == "adt" and src["d"] == OPT):
        return some(v)
    if (src["s"] in INTW or src["s"] == "bool") and (dst["s"] in INTW or dst["s"] == "usize"):
        return v
    return None


@model("core::convert::Into::into", "core::convert::From::from")
def m_into(c):
    fn = c.I.prog.fns.get(c.co["key"])
    if c.co["decl"].endswith("Into::into"):
        src, dst = c.T[c.co["ga"][0]], c.T[c.co["ga"][1]]
    else:
        dst, src = c.T[c.co["ga"][0]], c.T[c.co["ga"][1]]
    if fn is not None and fn.crate not in c.I.opaque_crates:
        return NotImplemented
    r = conv(c, src, dst, c.v(0))
    if r is None:
        # a local From impl reached through the blanket Into
        if c.co["decl"].endswith("Into::into"):
            for f in c.I.prog.fns.values():
                if f.name == "from" and f.trait and "From" in f.trait and f.self is not None and f.T[f.self]["s"] == dst["s"] and f.crate not in c.I.opaque_crates \
                        and f.T[f.body["locals"][1]]["s"] == src["s"]:
                    return c.I.inline(c.fr, c.st, f, [c.a[0]], c.site)
        r = mk("call", "into<%s>" % dst["s"], c.v(0))
    return c.ret(r)


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def m_try(c):
    if c.co["decl"].endswith("try_into"):
        src, dst = c.T[c.co["ga"][0]], c.T[c.co["ga"][1]]
    else:
        dst, src = c.T[c.co["ga"][0]], c.T[c.co["ga"][1]]
    s, d = src["s"], dst["s"]
    if s in INTW and d in INTW:
        v = c.v(0)
        (sb, ss), (db, ds) = INTW[s], INTW[d]
        lo = 0 if not ds else -(1 << (db - 1))
        hi = (1 << (db - (1 if ds else 0))) - 1
        cond = TRUE
        if ss and not ds or (ss and sb > db):
            cond = band(cond, le(I(lo), v))
        if sb - (1 if ss else 0) > db - (1 if ds else 0):
            cond = band(cond, le(v, I(hi)))
        return c.ret(ite(cond, ok(v), err(mk("agg", "TryFromIntError", None, ()))))
    return NotImplemented


# ------------------------------------------------------------------ panics
@model("soroban_sdk::env::Env::panic_with_error")
def m_pwe(c):
    c.I.emit("panic", c.fr, c.st, c.site, what="error", code=c.v(1))
    return None


# ------------------------------------------------------------------ Option / Result / bool
def guard(c, cond, what):
    """continue only under cond"""
    bad = band(c.st.pc, bnot(cond))
    if bad is not FALSE:
        s = c.st.copy()
        s.pc = bad
        c.I.emit("panic", c.fr, s, c.site, what=what)
    c.st.pc = band(c.st.pc, cond)
    return c.st.pc is not FALSE and c.I.feasible(c.st.pc)


@model("core::option::Option::<T>::unwrap", "core::option::Option::<T>::expect", "<core::option::Option<T> as soroban_sdk::unwrap::UnwrapOptimized>::unwrap_optimized", "core::option::Option::<T>::unwrap_unchecked")
def o_unwrap(c):
    o = c.v(0)
    if not guard(c, is_some(o), "unwrap on None"):
        return None
    return c.ret(payload(o))


@model("core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect", "<core::result::Result<T, E> as soroban_sdk::unwrap::UnwrapOptimized>::unwrap_optimized")
def r_unwrap(c):
    o = c.v(0)
    if not guard(c, isv(o, RES, "Ok"), "unwrap on Err"):
        return None
    return c.ret(vfield(o, "Ok", "0"))


def gate(c, cond, f, g):
    """merge f(state under cond) and g(state under !cond); each returns (state, value) or None"""
    outs = []
    for cd, h in ((cond, f), (bnot(cond), g)):
        pc = band(c.st.pc, cd)
        if pc is FALSE or not c.I.feasible(pc):
            continue
        s = c.st.copy()
        s.pc = pc
        r = h(s)
        if r is not None:
            s2, v = r
            s2.vars[(0, -1)] = v
            outs.append(s2)
    m = c.I.merge(outs)
    if m is None:
        return None
    return m, m.vars.pop((0, -1))


@model("core::option::Option::<T>::unwrap_or")
def o_unwrap_or(c):
    o = c.v(0)
    return c.ret(ite(is_some(o), payload(o), c.v(1)))


def default_of(ty):
    s = ty["s"]
    if s in NUMS:
        return FALSE
    if s == "bool":
        return FALSE
    if ty["k"] == "adt" and ty["d"] == OPT:
        return NONE
    return None


@model("core::option::Option::<T>::unwrap_or_default")
def o_unwrap_or_default(c):
    o = c.v(0)
    d = default_of(c.T[c.co["ga"][0]])
    if d is None:
        s = c.T[c.co["ga"][0]]["s"]
        for f in c.I.prog.fns.values():
            if f.name == "default" and f.trait and f.trait.endswith("Default") and f.self is not None and f.T[f.self]["s"] == s and f.crate not in c.I.opaque_crates:
                return gate(c, is_some(o), lambda st: (st, payload(o)), lambda st: c.I.inline(c.fr, st, f, [], c.site))
        d = mk("call", "default<%s>" % s)
    return c.ret(ite(is_some(o), payload(o), d))


@model("core::default::Default::default")
def m_default(c):
    if c.co["key"] in c.I.prog.fns:
        return NotImplemented
    d = default_of(c.T[c.co["ga"][0]])
    return c.ret(d) if d is not None else NotImplemented


@model("core::option::Option::<T>::unwrap_or_else")
def o_unwrap_or_else(c):
    o = c.v(0)
    return gate(c, is_some(o), lambda s: (s, payload(o)), lambda s: c.I.apply(c.fr, s, c.a[1], [], c.site))


@model("core::result::Result::<T, E>::unwrap_or_else")
def r_unwrap_or_else(c):
    o = c.v(0)
    return gate(c, isv(o, RES, "Ok"), lambda s: (s, vfield(o, "Ok", "0")), lambda s: c.I.apply(c.fr, s, c.a[1], [vfield(o, "Err", "0")], c.site))


@model("core::result::Result::<T, E>::unwrap_or")
def r_unwrap_or(c):
    o = c.v(0)
    return c.ret(ite(isv(o, RES, "Ok"), vfield(o, "Ok", "0"), c.v(1)))


@model("core::result::Result::<T, E>::unwrap_or_default")
def r_unwrap_or_default(c):
    o = c.v(0)
    d = default_of(c.T[c.co["ga"][0]])
    return c.ret(ite(isv(o, RES, "Ok"), vfield(o, "Ok", "0"), d if d is not None else mk("call", "default")))


model("core::option::Option::<T>::is_some")(lambda c: c.ret(is_some(c.v(0))))
model("core::option::Option::<T>::is_none")(lambda c: c.ret(bnot(is_some(c.v(0)))))
model("core::result::Result::<T, E>::is_ok")(lambda c: c.ret(isv(c.v(0), RES, "Ok")))
model("core::result::Result::<T, E>::is_err")(lambda c: c.ret(bnot(isv(c.v(0), RES, "Ok"))))
model("core::result::Result::<T, E>::ok")(lambda c: c.ret(ite(isv(c.v(0), RES, "Ok"), some(vfield(c.v(0), "Ok", "0")), NONE)))
model("core::option::Option::<T>::as_ref", "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied", "core::option::Option::<T>::as_deref")(lambda c: c.ret(c.v(0)))


@model("core::option::Option::<T>::map")
def o_map(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[1], [x], c.site), some, NONE)


@model("core::option::Option::<T>::and_then")
def o_and_then(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[1], [x], c.site), lambda v: v, NONE)


@model("core::option::Option::<T>::is_some_and")
def o_is_some_and(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[1], [x], c.site), lambda v: v, FALSE)


@model("core::option::Option::<T>::is_none_or")
def o_is_none_or(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[1], [x], c.site), lambda v: v, TRUE)


@model("core::option::Option::<T>::map_or")
def o_map_or(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[2], [x], c.site), lambda v: v, c.v(1))


@model("core::option::Option::<T>::map_or_else")
def o_map_or_else(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[2], [x], c.site), lambda v: v, lambda s: c.I.apply(c.fr, s, c.a[1], [], c.site))


@model("core::option::Option::<T>::ok_or", )
def o_ok_or(c):
    o = c.v(0)
    return c.ret(ite(is_some(o), ok(payload(o)), err(c.v(1))))


@model("core::option::Option::<T>::ok_or_else")
def o_ok_or_else(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: (s, x), ok, lambda s: (lambda r: None if r is None else (r[0], err(r[1])))(c.I.apply(c.fr, s, c.a[1], [], c.site)))


@model("core::option::Option::<T>::or")
def o_or(c):
    o = c.v(0)
    return c.ret(ite(is_some(o), o, c.v(1)))


@model("core::option::Option::<T>::or_else")
def o_or_else(c):
    o = c.v(0)
    return gate(c, is_some(o), lambda s: (s, o), lambda s: c.I.apply(c.fr, s, c.a[1], [], c.site))


@model("core::option::Option::<T>::filter")
def o_filter(c):
    o = c.v(0)
    r = c.I.opt_map(c.fr, c.st, o, lambda s, x: c.I.apply(c.fr, s, c.a[1], [x], c.site), lambda v: ite(tobool(v), some(payload(o)), NONE), NONE)
    return r


@model("core::result::Result::<T, E>::map")
def r_map(c):
    o = c.v(0)
    okc = isv(o, RES, "Ok")
    e = err(vfield(o, "Err", "0"))
    return gate(c, okc, lambda s: (lambda r: None if r is None else (r[0], ok(r[1])))(c.I.apply(c.fr, s, c.a[1], [vfield(o, "Ok", "0")], c.site)), lambda s: (s, e))


@model("core::result::Result::<T, E>::map_err")
def r_map_err(c):
    o = c.v(0)
    okc = isv(o, RES, "Ok")
    return gate(c, okc, lambda s: (s, ok(vfield(o, "Ok", "0"))), lambda s: (lambda r: None if r is None else (r[0], err(r[1])))(c.I.apply(c.fr, s, c.a[1], [vfield(o, "Err", "0")], c.site)))


@model("core::bool::<impl bool>::then")
def b_then(c):
    return gate(c, tobool(c.v(0)), lambda s: (lambda r: None if r is None else (r[0], some(r[1])))(c.I.apply(c.fr, s, c.a[1], [], c.site)), lambda s: (s, NONE))


@model("core::bool::<impl bool>::then_some")
def b_then_some(c):
    return c.ret(ite(tobool(c.v(0)), some(c.v(1)), NONE))


CF = "core::ops::control_flow::ControlFlow"


@model("core::ops::try_trait::Try::branch")
def m_branch(c):
    o = c.v(0)
    ty = c.aT[c.at[0]]
    if ty["k"] == "adt" and ty["d"] == OPT:
        return c.ret(ite(is_some(o), mk("agg", CF, "Continue", ("0",), payload(o)), mk("agg", CF, "Break", ("0",), NONE)))
    return c.ret(ite(isv(o, RES, "Ok"), mk("agg", CF, "Continue", ("0",), vfield(o, "Ok", "0")), mk("agg", CF, "Break", ("0",), err(vfield(o, "Err", "0")))))


@model("core::ops::try_trait::FromResidual::from_residual")
def m_from_res(c):
    return c.ret(c.v(0))


# ------------------------------------------------------------------ integers


def _checked(f, op):
    def m(c):
        a, b = c.v(0), c.v(1)
        r = f(a, b)
        u = "impl u" in c.co["path"]
        if op == "sub" and u:
            return c.ret(ite(lt(a, b), NONE, some(r)))
        if op in ("div", "rem"):
            return c.ret(ite(eqn(b, FALSE), NONE, some(r)))
        return c.ret(ite(atom(mk("fits", r, c.co["path"])), some(r), NONE))
    return m


def _pow(c):
    a, b = c.v(0), c.v(1)
    if is_int(a) and is_int(b):
        return c.ret(I(a.args[0] ** b.args[0]))
    if is_int(b) and 0 <= b.args[0] <= 6:
        r = TRUE
        for _ in range(b.args[0]):
            r = pmul(r, a)
        return c.ret(r)
    return c.ret(mk("pow", a, b))


for ty in NUMS:
    for n, f in (("sub", psub), ("add", padd), ("mul", pmul), ("div", pdiv), ("rem", prem)):
        MODELS["core::num::<impl %s>::checked_%s" % (ty, n)] = _checked(f, n)
    MODELS["core::num::<impl %s>::pow" % ty] = _pow
    MODELS["<%s as num_integer::roots::Roots>::sqrt" % ty] = lambda c: c.ret(mk("sqrt", c.v(0)))
    MODELS["core::num::<impl %s>::isqrt" % ty] = lambda c: c.ret(mk("sqrt", c.v(0)))
    MODELS["core::num::<impl %s>::abs_diff" % ty] = lambda c: c.ret(ite(lt(c.v(0), c.v(1)), psub(c.v(1), c.v(0)), psub(c.v(0), c.v(1))))
    if ty[0] == "i":
        MODELS["core::num::<impl %s>::is_positive" % ty] = lambda c: c.ret(lt(FALSE, c.v(0)))
        MODELS["core::num::<impl %s>::is_negative" % ty] = lambda c: c.ret(lt(c.v(0), FALSE))
        MODELS["core::num::<impl %s>::unsigned_abs" % ty] = lambda c: c.ret(ite(lt(c.v(0), FALSE), pneg(c.v(0)), c.v(0)))
    if ty[0] == "u":
        MODELS["core::num::<impl %s>::saturating_sub" % ty] = lambda c: c.ret(ite(lt(c.v(0), c.v(1)), FALSE, psub(c.v(0), c.v(1))))
MODELS["soroban_sdk::num::U256::pow"] = _pow


@model("core::num::<impl i128>::abs")
def m_abs(c):
    v = c.v(0)
    return c.ret(ite(lt(v, FALSE), pneg(v), v))


@model("core::ops::range::RangeInclusive::<Idx>::new")
def r_new(c):
    return c.ret(mk("agg", "RangeInclusive", None, ("start", "end"), c.v(0), c.v(1)))


@model("core::ops::range::RangeInclusive::<Idx>::contains")
def r_contains(c):
    r, x = c.v(0), c.v(1)
    return c.ret(band(le(field(r, "start"), x), le(x, field(r, "end"))))


@model("core::ops::range::Range::<Idx>::contains")
def r_contains2(c):
    r, x = c.v(0), c.v(1)
    return c.ret(band(le(field(r, "start"), x), lt(x, field(r, "end"))))


# ------------------------------------------------------------------ logging / formatting: no effect
model("soroban_sdk::env::Env::logs")(lambda c: c.ret(mk("logs")))
model("soroban_sdk::logs::Logs::add", "soroban_sdk::logs::Logs::log", "std::io::stdio::_eprint", "std::io::stdio::_print")(lambda c: c.ret(UNIT))
for n in ("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::from_str", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display",
          "alloc::fmt::format"):
    MODELS[n] = lambda c: c.ret(mk("fmt"))

# ------------------------------------------------------------------ sdk values
@model("soroban_sdk::env::IntoVal::into_val")
def into_val(c):
    from .interp import elements
    v = c.v(0)
    if c.at and c.at[0] is not None:
        i = c.at[0]
        while c.aT[i]["k"] == "ref":
            i = c.aT[i]["t"]
        t = c.aT[i]
        es = elements(v) if t["k"] != "tuple" else (list(v.args[3:]) if v.op == "agg" and v.args[0] == "tuple" else None)
        if t["k"] == "tuple" and es and len(es) == len(t["a"]):
            for x, k in zip(es, t["a"]):
                c.I.note(x, c.aT, k)
        elif t["k"] == "adt" and t["a"] and es:
            for x in es:
                c.I.note(x, c.aT, t["a"][0])
        else:
            c.I.note(v, c.aT, i)
    return c.ret(v)


model("soroban_sdk::env::Env::current_contract_address")(lambda c: c.ret(SELF))
model("soroban_sdk::env::Env::ledger")(lambda c: c.ret(mk("ledger")))
model("soroban_sdk::ledger::Ledger::timestamp")(lambda c: c.ret(mk("timestamp")))
model("soroban_sdk::ledger::Ledger::sequence")(lambda c: c.ret(mk("seq")))
model("soroban_sdk::env::Env::crypto")(lambda c: c.ret(mk("crypto")))
model("soroban_sdk::vec::Vec::<T>::env", "soroban_sdk::address::Address::env", "soroban_sdk::string::String::env", "soroban_sdk::bytes::Bytes::env", "soroban_sdk::map::Map::<K, V>::env")(lambda c: c.ret(ENV))


@model("soroban_sdk::symbol::Symbol::new")
def s_new(c):
    v = c.v(1)
    return c.ret(mk("sym", v.args[0]) if v.op == "str" else mk("call", "Symbol::new", v))


@model("soroban_sdk::symbol::Symbol::short")
def s_short(c):
    v = c.v(0)
    return c.ret(mk("sym", v.args[0]) if v.op == "str" else mk("call", "Symbol::new", v))


@model("soroban_sdk::string::String::from_str", "soroban_sdk::string::String::from_slice")
def str_from(c):
    v = c.v(1)
    return c.ret(v if v.op == "str" else mk("call", "String::from_str", v))


# ------------------------------------------------------------------ sdk Vec
@model("soroban_sdk::vec::Vec::<T>::from_array", "soroban_sdk::vec::Vec::<T>::from_slice")
def v_from(c):
    a = c.v(1)
    if a.op == "agg" and a.args[0] == "array":
        return c.ret(mk("vec", *a.args[3:]))
    return c.ret(mk("call", "Vec::from_array", a))


model("soroban_sdk::vec::Vec::<T>::new")(lambda c: c.ret(mk("vec")))
model("soroban_sdk::vec::Vec::<T>::len")(lambda c: c.ret(vlen(c.v(0))))
model("soroban_sdk::vec::Vec::<T>::is_empty")(lambda c: c.ret(eqn(vlen(c.v(0)), FALSE)))


@model("soroban_sdk::vec::Vec::<T>::push_back")
def v_push(c):
    c.I.writeref(c.st, c.a[0], (), _vpush(c.v(0), c.v(1)))
    return c.ret(UNIT)


model("soroban_sdk::vec::Vec::<T>::get")(lambda c: c.ret(vget(c.v(0), c.v(1))))
model("soroban_sdk::vec::Vec::<T>::get_unchecked")(lambda c: c.ret(payload(vget(c.v(0), c.v(1)))))
model("soroban_sdk::vec::Vec::<T>::first")(lambda c: c.ret(vget(c.v(0), FALSE)))
model("soroban_sdk::vec::Vec::<T>::first_unchecked")(lambda c: c.ret(payload(vget(c.v(0), FALSE))))
model("soroban_sdk::vec::Vec::<T>::last")(lambda c: c.ret(vget(c.v(0), psub(vlen(c.v(0)), TRUE))))
model("soroban_sdk::vec::Vec::<T>::last_unchecked")(lambda c: c.ret(payload(vget(c.v(0), psub(vlen(c.v(0)), TRUE)))))


@model("soroban_sdk::vec::Vec::<T>::contains")
def v_contains(c):
    v, x = c.v(0), c.v(1)
    n = 1 + bvn(x)
    return c.ret(mk_any(v, eq(mk("bv", n), x), n))


@model("core::slice::<impl [T]>::contains")
def s_contains(c):
    v, x = c.v(0), c.v(1)
    if v.op != "agg" or v.args[0] != "array":
        return NotImplemented
    r = FALSE
    for y in v.args[3:]:
        r = bor(r, eq(y, x))
    return c.ret(r)


@model("soroban_sdk::vec::Vec::<T>::first_index_of")
def v_first_index(c):
    v, x = c.v(0), c.v(1)
    n = 1 + bvn(x)
    return c.ret(leafmap(v, lambda l: mk_find("position", l, eq(mk("bv", n), x), n)))


@model("core::array::<impl [T; N]>::map")
def arr_map(c):
    v = c.v(0)
    if not (v.op == "agg" and v.args[0] == "array"):
        return NotImplemented
    st, out = c.st, []
    for x in v.args[3:]:
        r = c.I.apply(c.fr, st, c.a[1], [x], c.site)
        if r is None:
            return None
        st = r[0]
        out.append(r[1])
    return st, mk("agg", "array", None, v.args[2], *out)


@model("soroban_sdk::vec::Vec::<T>::remove")
def v_remove(c):
    v, i = c.v(0), c.v(1)
    c.I.writeref(c.st, c.a[0], (), leafmap(v, lambda l: mk("vremove", l, i)))
    return c.ret(ite(lt(i, vlen(v)), some(UNIT), NONE))


@model("soroban_sdk::vec::Vec::<T>::remove_unchecked")
def v_remove_unchecked(c):
    v, i = c.v(0), c.v(1)
    c.I.writeref(c.st, c.a[0], (), leafmap(v, lambda l: mk("vremove", l, i)))
    return c.ret(UNIT)


@model("soroban_sdk::vec::Vec::<T>::set")
def v_set(c):
    v, i, x = c.v(0), c.v(1), c.v(2)
    c.I.writeref(c.st, c.a[0], (), leafmap(v, lambda l: mk("vset", l, i, x)))
    return c.ret(UNIT)


def _vpush(v, x):
    return leafmap(v, lambda l: mk("vec", *(l.args + (x,))) if l.op == "vec" else mk("vpush", l, x))


@model("soroban_sdk::vec::Vec::<T>::append")
def v_append(c):
    v, x = c.v(0), c.v(1)
    n = mk("vappend", v, x)
    if x.op == "vec":
        n = v
        for y in x.args:
            n = _vpush(n, y)
    c.I.writeref(c.st, c.a[0], (), n)
    return c.ret(UNIT)


@model("soroban_sdk::vec::Vec::<T>::extend_from_array", "soroban_sdk::vec::Vec::<T>::extend_from_slice")
def v_extend(c):
    v, x = c.v(0), c.v(1)
    if not (x.op == "agg" and x.args[0] == "array"):
        return NotImplemented
    for y in x.args[3:]:
        v = _vpush(v, y)
    c.I.writeref(c.st, c.a[0], (), v)
    return c.ret(UNIT)


@model("soroban_sdk::vec::Vec::<T>::insert")
def v_insert(c):
    v, i, x = c.v(0), c.v(1), c.v(2)
    if eqn(i, vlen(v)) is not TRUE:
        return NotImplemented
    c.I.writeref(c.st, c.a[0], (), _vpush(v, x))
    return c.ret(UNIT)


def v_pop(c):
    v = c.v(0)
    n = psub(vlen(v), TRUE)
    c.I.writeref(c.st, c.a[0], (), leafmap(v, lambda l: mk("vec", *l.args[:-1]) if l.op == "vec" else l.args[0] if l.op == "vpush" else ite(eqn(vlen(l), FALSE), l, mk("vremove", l, n))))
    return vget(v, n)


model("soroban_sdk::vec::Vec::<T>::pop_back")(lambda c: c.ret(v_pop(c)))
model("soroban_sdk::vec::Vec::<T>::pop_back_unchecked")(lambda c: c.ret(payload(v_pop(c))))
# the fallible forms fail on a value of the wrong type only, where the plain ones trap
model("soroban_sdk::vec::Vec::<T>::try_get")(lambda c: c.ret(ok(vget(c.v(0), c.v(1)))))
model("soroban_sdk::vec::Vec::<T>::try_first")(lambda c: c.ret(ok(vget(c.v(0), FALSE))))
model("soroban_sdk::vec::Vec::<T>::try_last")(lambda c: c.ret(ok(vget(c.v(0), psub(vlen(c.v(0)), TRUE)))))
model("soroban_sdk::map::Map::<K, V>::try_get")(lambda c: c.ret(ok(mget(c.v(0), c.v(1)))))


@model("soroban_sdk::map::Map::<K, V>::from_array")
def m_from(c):
    a = c.v(1)
    if not (a.op == "agg" and a.args[0] == "array"):
        return NotImplemented
    m = mk("map")
    for y in a.args[3:]:
        m = mk("mset", m, field(y, "0"), field(y, "1"))
    return c.ret(m)


model("soroban_sdk::vec::Vec::<T>::iter", "core::slice::<impl [T]>::iter")(lambda c: c.ret(mk("vec", *c.v(0).args[3:]) if c.v(0).op == "agg" and c.v(0).args[0] == "array" else c.v(0)))


# ------------------------------------------------------------------ sdk Map
model("soroban_sdk::map::Map::<K, V>::new")(lambda c: c.ret(mk("map")))
model("soroban_sdk::map::Map::<K, V>::get")(lambda c: c.ret(mget(c.v(0), c.v(1))))
model("soroban_sdk::map::Map::<K, V>::keys")(lambda c: c.ret(mkeys(c.v(0))))
model("soroban_sdk::map::Map::<K, V>::values")(lambda c: c.ret(mk("it", "mvals", c.v(0))))
model("soroban_sdk::map::Map::<K, V>::iter")(lambda c: c.ret(mk("it", "mapiter", c.v(0))))
model("soroban_sdk::map::Map::<K, V>::len")(lambda c: c.ret(vlen(mkeys(c.v(0)))))
model("soroban_sdk::map::Map::<K, V>::is_empty")(lambda c: c.ret(eqn(vlen(mkeys(c.v(0))), FALSE)))
model("soroban_sdk::map::Map::<K, V>::get_unchecked")(lambda c: c.ret(payload(mget(c.v(0), c.v(1)))))
model("soroban_sdk::map::Map::<K, V>::contains_key")(lambda c: c.ret(is_some(mget(c.v(0), c.v(1)))))


@model("soroban_sdk::map::Map::<K, V>::set")
def m_set(c):
    m, k, x = c.v(0), c.v(1), c.v(2)
    c.I.writeref(c.st, c.a[0], (), leafmap(m, lambda l: mk("mset", l, k, x)))
    return c.ret(UNIT)


# ------------------------------------------------------------------ bytes / deploy
@model("soroban_sdk::bytes::Bytes::append")
def b_append(c):
    v, x = c.v(0), c.v(1)
    c.I.writeref(c.st, c.a[0], (), mk("bappend", v, x))
    return c.ret(UNIT)


model("soroban_sdk::bytes::Bytes::new")(lambda c: c.ret(mk("bytes")))
model("soroban_sdk::env::Env::deployer")(lambda c: c.ret(mk("deployer")))
model("soroban_sdk::deploy::Deployer::with_current_contract")(lambda c: c.ret(mk("deployer_at", SELF, c.v(1))))
model("soroban_sdk::deploy::Deployer::with_address")(lambda c: c.ret(mk("deployer_at", c.v(1), c.v(2))))


@model("soroban_sdk::deploy::Deployer::update_current_contract_wasm")
def d_upd(c):
    c.I.emit("upgrade", c.fr, c.st, c.site, hash=c.v(1))
    return c.ret(UNIT)


@model("soroban_sdk::deploy::DeployerWithAddress::deploy_v2", "soroban_sdk::deploy::DeployerWithAddress::deploy")
def d_deploy(c):
    args = c.v(2) if len(c.a) > 2 else UNIT
    a = mk("deployed", c.v(0), c.v(1), args)
    c.I.emit("deploy", c.fr, c.st, c.site, at=c.v(0), hash=c.v(1), args=args, addr=a)
    return c.ret(a)


# ------------------------------------------------------------------ storage
model("soroban_sdk::env::Env::storage")(lambda c: c.ret(mk("storage")))
model("soroban_sdk::storage::Storage::persistent")(lambda c: c.ret(mk("cls", "persistent")))
model("soroban_sdk::storage::Storage::instance")(lambda c: c.ret(mk("cls", "instance")))
model("soroban_sdk::storage::Storage::temporary")(lambda c: c.ret(mk("cls", "temporary")))


def tys(c, i):
    return c.T[c.co["ga"][i]]["s"] if i < len(c.co["ga"]) else "?"


def regty(cls, k, ty):
    f = (cls, family(k))
    if "?" not in f[1] and GETTY.setdefault(f, ty) != ty:
        GETTY[f] = "?"


def st_get(c):
    cls = c.co["path"].split("::")[-2].lower()
    k = c.v(1)
    regty(cls, k, tys(c, 1))
    c.I.emit("get", c.fr, c.st, c.site, cls=cls, key=k, kty=tys(c, 0), vty=tys(c, 1))
    return c.ret(c.I.load(c.st, cls, k))


def st_has(c):
    cls = c.co["path"].split("::")[-2].lower()
    k = c.v(1)
    c.I.emit("has", c.fr, c.st, c.site, cls=cls, key=k, kty=tys(c, 0))
    return c.ret(is_some(c.I.load(c.st, cls, k)))


def st_set(c):
    cls = c.co["path"].split("::")[-2].lower()
    k, v = c.v(1), c.v(2)
    regty(cls, k, tys(c, 1))
    old = c.I.load(c.st, cls, k)
    c.I.emit("set", c.fr, c.st, c.site, cls=cls, key=k, val=v, old=old, kty=tys(c, 0), vty=tys(c, 1))
    c.I.store_(c.st, cls, k, some(v))
    return c.ret(UNIT)


def st_remove(c):
    cls = c.co["path"].split("::")[-2].lower()
    k = c.v(1)
    c.I.emit("remove", c.fr, c.st, c.site, cls=cls, key=k, kty=tys(c, 0))
    c.I.store_(c.st, cls, k, NONE)
    return c.ret(UNIT)


def st_ttl(c):
    cls = c.co["path"].split("::")[-2].lower()
    if cls == "instance":
        c.I.emit("ttl", c.fr, c.st, c.site, cls=cls, key=UNIT, lo=c.v(1), hi=c.v(2))
    else:
        c.I.emit("ttl", c.fr, c.st, c.site, cls=cls, key=c.v(1), lo=c.v(2), hi=c.v(3))
    return c.ret(UNIT)


def st_update(c):
    cls = c.co["path"].split("::")[-2].lower()
    k = c.v(1)
    old = c.I.load(c.st, cls, k)
    r = c.I.apply(c.fr, c.st, c.a[2], [old], c.site)
    if r is None:
        return None
    s, v = r
    c.I.emit("set", c.fr, s, c.site, cls=cls, key=k, val=v, old=old, kty=tys(c, 0), vty="?")
    c.I.store_(s, cls, k, some(v))
    return s, v


for S in ("Persistent", "Instance", "Temporary"):
    b = "soroban_sdk::storage::%s::" % S
    MODELS[b + "get"] = st_get
    MODELS[b + "has"] = st_has
    MODELS[b + "set"] = st_set
    MODELS[b + "remove"] = st_remove
    MODELS[b + "extend_ttl"] = st_ttl
    MODELS[b + "update"] = st_update


@model("soroban_token_sdk::metadata::Metadata::set_metadata")
def md_set(c):
    k = mk("sym", "METADATA")
    old = c.I.load(c.st, "instance", k)
    c.I.emit("set", c.fr, c.st, c.site, cls="instance", key=k, val=c.v(1), old=old, kty="Symbol", vty="TokenMetadata")
    c.I.store_(c.st, "instance", k, some(c.v(1)))
    return c.ret(UNIT)


@model("soroban_token_sdk::metadata::Metadata::get_metadata")
def md_get(c):
    k = mk("sym", "METADATA")
    c.I.emit("get", c.fr, c.st, c.site, cls="instance", key=k, kty="Symbol", vty="TokenMetadata")
    o = c.I.load(c.st, "instance", k)
    c.st.pc = band(c.st.pc, is_some(o))
    return c.ret(payload(o))


# ------------------------------------------------------------------ effects
@model("soroban_sdk::address::Address::require_auth")
def a_auth(c):
    c.I.emit("auth", c.fr, c.st, c.site, who=c.v(0))
    return c.ret(UNIT)


@model("soroban_sdk::address::Address::require_auth_for_args")
def a_auth2(c):
    c.I.emit("auth", c.fr, c.st, c.site, who=c.v(0), forargs=c.v(1))
    return c.ret(UNIT)


@model("soroban_sdk::env::Env::authorize_as_current_contract")
def a_cur(c):
    c.I.emit("authorize_as", c.fr, c.st, c.site, args=[c.v(1)])
    return c.ret(UNIT)


@model("soroban_sdk::events::Events::publish")
def ev_pub(c):
    c.I.emit("event", c.fr, c.st, c.site, topics=c.v(1), data=c.v(2))
    return c.ret(UNIT)


def sdk_event(c):
    """the token standard's events (soroban_token_sdk): name and parties as topics, the rest as data"""
    n = c.co["name"]
    parties = {"approve": 2, "transfer": 2, "mint": 2, "clawback": 2, "set_authorized": 2, "set_admin": 1, "burn": 1}.get(n)
    if parties is None:
        return NotImplemented
    a = [c.v(i) for i in range(1, len(c.a))]
    data = a[parties:]
    c.I.emit("event", c.fr, c.st, c.site, topics=tup(mk("sym", n), *a[:parties]),
             data=data[0] if len(data) == 1 else tup(*data))
    return c.ret(UNIT)


PREFIX.append(("soroban_token_sdk::event::Events::", sdk_event))
model("soroban_sdk::env::Env::events")(lambda c: c.ret(mk("events")))


def is_read(m):
    from .interp import READ_PREFIX
    return m.op == "sym" and m.args[0].startswith(READ_PREFIX)


def ext_call(I_, fr, st, site, addr, method, args, rty=None, tried=False, rref=""):
    if args.op == "agg" and args.args[0] == "tuple":
        args = mk("vec", *args.args[3:])
    if args is UNIT:
        args = mk("vec")
    al = list(args.args) if args.op == "vec" else [mk("spread", args)]
    mut = not is_read(method)
    if mut:
        st.epoch = mk("ep", st.epoch, addr, method, *al)
    if rty and method.op == "sym" and EXTTY.setdefault(method.args[0], rty) != rty:
        EXTTY[method.args[0]] = "?"
    r = mk("ext", addr, method, st.epoch, *al)
    I_.emit("call", fr, st, site, addr=addr, method=method, args=al, mut=mut, ret=r, rty=rty, rref=rref,
            aref=",".join(I_.valty.get(x, "") for x in al))
    return st, r


@model("soroban_sdk::env::Env::invoke_contract")
def e_invoke(c):
    rty = c.T[c.co["ga"][0]]["s"] if c.co["ga"] else None
    return ext_call(c.I, c.fr, c.st, c.site, c.v(1), c.v(2), c.v(3), rty, rref=c.I.prog.tref(c.T, c.co["ga"][0]) if rty else "")


@model("soroban_sdk::env::Env::try_invoke_contract")
def e_tinvoke(c):
    s, r = ext_call(c.I, c.fr, c.st, c.site, c.v(1), c.v(2), c.v(3), None, True)
    return s, mk("call", "try_result", r)


def tok_client(c):
    """soroban_sdk::token::{Client,StellarAssetClient} (generated in the sdk)"""
    n = c.co["name"]
    if n == "new":
        return c.ret(mk("agg", "sdk_token_client", None, ("address",), c.v(1)))
    a = c.v(0)
    return ext_call(c.I, c.fr, c.st, c.site, field(a, "address"), mk("sym", n), mk("vec", *[c.v(i) for i in range(1, len(c.a))]))


PREFIX.append(("soroban_sdk::token::TokenClient", tok_client))
PREFIX.append(("soroban_sdk::token::StellarAssetClient", tok_client))

# ------------------------------------------------------------------ iteration
@model("core::iter::traits::collect::IntoIterator::into_iter")
def it_into(c):
    t = c.aT[c.at[0]] if c.at else None
    while t and t["k"] == "ref":
        t = c.aT[t["t"]]
    if t and t["s"].startswith("soroban_sdk::map::Map<"):
        return c.ret(mk("it", "mapiter", c.v(0)))
    v = c.v(0)
    if t and t["s"].startswith("core::option::Option<"):
        return c.ret(ite(is_some(v), mk("vec", payload(v)), mk("vec")))
    return c.ret(mk("vec", *v.args[3:]) if v.op == "agg" and v.args[0] == "array" else v)


@model("core::iter::traits::iterator::Iterator::next")
def it_next(c):
    it = c.v(0)
    r = c.a[0]
    if r.op == "ref" and not c.I.loop_owned(r.args[0]):
        return c.I.next_once(c, it)
    return c.I.next_elem(c.fr, c.st, it, c.site)


for n, k in (("map", "map"), ("enumerate", "enum"), ("zip", "zip"), ("filter", "filter"), ("filter_map", "filter_map"), ("skip_while", "skip_while"), ("take_while", "take_while"),
             ("skip", "skip"), ("take", "take"), ("step_by", "step_by"), ("rev", "rev"), ("map_while", "map_while"), ("flat_map", "flat_map"),
             ("inspect", "inspect")):
    model("core::iter::traits::iterator::Iterator::" + n)(
        lambda c, k=k: c.ret(mk("it", k, c.v(0), *([c.a[1] if k in ("map", "filter", "filter_map", "skip_while", "take_while", "map_while", "flat_map", "inspect") else c.v(1)] if len(c.a) > 1 else []))))

@model("core::iter::traits::iterator::Iterator::flatten")
def it_flatten(c):
    t = c.aT[c.at[0]]["s"] if c.at else ""
    return c.ret(mk("it", "flatten" if "Option<" in t else "flatten?", c.v(0)))


@model("core::iter::traits::iterator::Iterator::chain")
def it_chain(c):
    a, b = c.v(0), c.v(1)
    if a.op == "vec" and b.op == "vec":
        return c.ret(mk("vec", *(a.args + b.args)))
    if all(x.op not in ("it", "ite", "agg") for x in (a, b)):
        return c.ret(mk("vcat", a, b))
    return c.ret(mk("it", "chain", a, b))


for n in ("cloned", "copied", "peekable", "fuse", "by_ref"):
    model("core::iter::traits::iterator::Iterator::" + n)(lambda c: c.ret(c.v(0)))
model("core::iter::traits::double_ended::DoubleEndedIterator::rev")(lambda c: c.ret(mk("it", "rev", c.v(0))))


class Impure(Exception):
    """a predicate that changes variables or storage of its surroundings"""


def altered(a, b):
    return a.epoch is not b.epoch or any(b.vars.get(k, v) is not v for k, v in a.vars.items()) or \
        len(b.store) != len(a.store) or any(b.store.get(k, v) is not v for k, v in a.store.items())


def search_loop(c, n):
    """any, all, find, find_map whose predicate has effects: the traversal written out, left at the first element that decides it"""
    f = c.a[1]
    if f.op == "clos":
        f = c.I.newtemp(c.st, f)
    out = (0, -1)

    def step(s, x):
        r = c.I.apply(c.fr, s, f, [x], c.site)
        if r is None:
            return []
        s, v = r
        q = is_some(v) if n == "find_map" else tobool(v)
        if n == "all":
            q = bnot(q)
        e = s.copy()
        e.pc, s.pc = band(s.pc, q), band(s.pc, bnot(q))
        res = {"any": TRUE, "all": FALSE, "find_map": v}.get(n) or some(x)
        return ([("next", s, None)] if s.pc is not FALSE else []) + ([("exit", e, FALSE if n == "all" else res)] if e.pc is not FALSE else [])
    LP, exits = c.I.synth_loop(c.fr, c.st, c.v(0), c.site, step, n)
    ss = []
    for (k, v), s in exits:
        s.vars[out] = v if k == "exit" else {"any": FALSE, "all": TRUE}.get(n, NONE)
        ss.append(s)
    m = c.I.merge(ss)
    if m is None:
        return None
    return m, m.vars.pop(out)


def pred_on_generic(c, it, f, what):
    """value of the predicate on a generic element: (loop, base sequence, element value, condition) with the element unbound"""
    LP = c.I.loop_term(c.fr, c.site, [it], what, c.site)
    c.I.loopstk.append(LP)
    c.I.headstk.append(c.st)
    try:
        s = c.st.copy()
        c.I.skips.pop(LP, None)
        c.I.seqs.pop(LP, None)
        c.I.gates.pop(LP, None)
        r = c.I.next_elem(c.fr, s, it, c.site)
        if r is None:
            return LP, None, UNDEF, FALSE
        s, o = r
        s.pc = band(s.pc, is_some(o))
        x = payload(o)
        if s.pc is FALSE:
            return LP, None, x, FALSE
        if f is None:
            return LP, c.I.single_seq(LP), x, constrain(s.pc, c.st.pc)
        h = s.copy()
        r = c.I.apply(c.fr, s, f, [x], c.site)
        if r is None:
            return LP, c.I.single_seq(LP), x, FALSE
        s, v = r
        if altered(h, s):
            raise Impure()
        return LP, c.I.single_seq(LP), x, (constrain(s.pc, c.st.pc), v)
    finally:
        c.I.loopstk.pop()
        c.I.headstk.pop()


def _pred_consume(n):
    def m(c):
        it = c.v(0)
        mark, cmark = len(c.I.events), len(c.I.casts)
        try:
            LP, xs, x, r = pred_on_generic(c, it, c.a[1], n)
        except Impure:
            if n not in ("any", "all", "find", "find_map"):
                from .interp import Unsupported
                raise Unsupported("%s with a predicate that has effects" % n)
            del c.I.events[mark:]
            del c.I.casts[cmark:]
            return search_loop(c, n)
        if r is FALSE:
            return c.ret({"any": FALSE, "all": TRUE}.get(n, NONE))
        pc, v = r
        if xs is None:
            # not a simple traversal: stays opaque
            if n in ("any", "all"):
                q = tobool(v)
                a = mk("any?", it, bnot(q) if n == "all" else q)
                return c.ret(bnot(atom(a)) if n == "all" else atom(a))
            return c.ret(mk(n + "?", it, v))
        H = mk("hasnext", LP, xs, "")
        if n in ("find_map", "max_by_key", "min_by_key", "rposition"):
            q = is_some(v) if n == "find_map" else None
            if q is None:
                return c.ret(mk(n + "?", it, v))
        else:
            q = tobool(v)
        pc = rewrite(pc, {H.id: TRUE})
        if n == "all":
            # not all  ==  some element reached falsifies it
            q = bnot(q)
        q = band(pc, q)
        B = c.I.binder(LP, xs, [q])
        qb = B(q)
        any_ = mk_any(xs, qb, B.n)
        if n == "any":
            return c.ret(any_)
        if n == "all":
            return c.ret(bnot(any_))
        sq = mk("it", "rev", xs) if c.I.reved(LP, xs) else xs
        F = c.I.found(LP, xs, sq, qb, B.n)
        if n == "position":
            if c.I.skips.get(LP, FALSE) is not FALSE or sq is not xs:
                return c.ret(ite(any_, some(mk("posf", it, sq, qb)), NONE))
            return c.ret(ite(any_, some(F(mk("index", LP, xs))), NONE))
        return c.ret(ite(any_, some(F(x)) if n == "find" else some(F(payload(v))), NONE))
    return m


for n in ("any", "all", "find", "position", "find_map", "max_by_key", "min_by_key"):
    MODELS["core::iter::traits::iterator::Iterator::" + n] = _pred_consume(n)


@model("core::iter::traits::iterator::Iterator::for_each")
def it_for_each(c):
    it = c.v(0)
    f = c.a[1]
    if f.op == "clos":
        f = c.I.newtemp(c.st, f)

    def step(s, x):
        r = c.I.apply(c.fr, s, f, [x], c.site)
        return [] if r is None else [("next", r[0], None)]
    LP, exits = c.I.synth_loop(c.fr, c.st, it, c.site, step, "for_each")
    m = c.I.merge([s for (k, s) in exits])
    return None if m is None else (m, UNIT)


@model("core::iter::traits::iterator::Iterator::fold", "core::iter::traits::iterator::Iterator::sum", "core::iter::traits::iterator::Iterator::product",
       "core::iter::traits::iterator::Iterator::count")
def it_fold(c):
    it = c.v(0)
    c.I.nframe += 1
    acc = (-c.I.nframe, 0)
    n = c.co["name"]
    c.st.vars[acc] = c.v(1) if n == "fold" else (TRUE if n == "product" else FALSE)
    f = c.a[2] if n == "fold" else None
    if f is not None and f.op == "clos":
        f = c.I.newtemp(c.st, f)

    def step(s, x):
        if f is None:
            s.vars[acc] = padd(s.vars[acc], c.I.resolve(s, x)) if n == "sum" else padd(s.vars[acc], TRUE) if n == "count" else pmul(s.vars[acc], c.I.resolve(s, x))
            return [("next", s, None)]
        r = c.I.apply(c.fr, s, f, [s.vars[acc], x], c.site)
        if r is None:
            return []
        s2, v = r
        s2.vars[acc] = v
        return [("next", s2, None)]
    LP, exits = c.I.synth_loop(c.fr, c.st, it, c.site, step, "fold", [c.st.vars[acc]])
    m = c.I.merge([s for (k, s) in exits])
    if m is None:
        return None
    return m, m.vars.pop(acc)


@model("core::iter::traits::iterator::Iterator::try_fold", "core::iter::traits::iterator::Iterator::try_for_each")
def it_try_fold(c):
    it = c.v(0)
    c.I.nframe += 1
    acc = (-c.I.nframe, 0)
    isf = c.co["name"] == "try_fold"
    c.st.vars[acc] = c.v(1) if isf else UNIT
    f = c.a[2] if isf else c.a[1]
    if f.op == "clos":
        f = c.I.newtemp(c.st, f)

    def step(s, x):
        r = c.I.apply(c.fr, s, f, ([s.vars[acc]] if isf else []) + [x], c.site)
        if r is None:
            return []
        s2, v = r
        okc = isv(v, RES, "Ok") if "Result" in str(c.rty and c.T[c.rty]["s"]) else is_some(v)
        pl = vfield(v, "Ok", "0") if "Result" in str(c.rty and c.T[c.rty]["s"]) else payload(v)
        out = []
        s3 = s2.copy()
        s3.pc = band(s2.pc, okc)
        s3.vars[acc] = pl
        if s3.pc is not FALSE:
            out.append(("next", s3, None))
        s2.pc = band(s2.pc, bnot(okc))
        if s2.pc is not FALSE:
            out.append(("exit", s2, v))
        return out
    isres = "Result" in str(c.rty and c.T[c.rty]["s"])
    LP, exits = c.I.synth_loop(c.fr, c.st, it, c.site, step, "try_fold", [c.st.vars[acc]])
    ss = []
    for (k, v), s in exits:
        s.vars[(0, -1)] = v if k == "exit" else (ok(s.vars[acc]) if isres else some(s.vars[acc]))
        ss.append(s)
    m = c.I.merge(ss)
    if m is None:
        return None
    m.vars.pop(acc, None)
    return m, m.vars.pop((0, -1))


model("core::iter::traits::iterator::Iterator::last")(lambda c: c.ret(mk("vget", c.v(0), mk("last"))))
MODELS["core::ops::function::FnOnce::call_once"] = MODELS["core::ops::function::Fn::call"] = MODELS["core::ops::function::FnMut::call_mut"] = \
    lambda c: c.I.apply(c.fr, c.st, c.a[0], c.I.untuple(c.st, c.a[1]), c.site)


@model("core::mem::replace")
def mem_replace(c):
    old = c.v(0)
    c.I.writeref(c.st, c.a[0], (), c.v(1))
    return c.ret(old)


@model("core::mem::swap")
def mem_swap(c):
    a, b = c.v(0), c.v(1)
    c.I.writeref(c.st, c.a[0], (), b)
    c.I.writeref(c.st, c.a[1], (), a)
    return c.ret(UNIT)


model("core::mem::drop")(lambda c: c.ret(UNIT))


# ------------------------------------------------------------ the rest of Option, Result and Ordering
def _wrapped(w, r):
    return None if r is None else (r[0], w(r[1]))


@model("core::option::Option::<T>::and")
def o_and(c):
    return c.ret(ite(is_some(c.v(0)), c.v(1), NONE))


@model("core::option::Option::<T>::xor")
def o_xor(c):
    a, b = c.v(0), c.v(1)
    return c.ret(ite(is_some(a), ite(is_some(b), NONE, a), b))


@model("core::option::Option::<T>::zip")
def o_zip(c):
    a, b = c.v(0), c.v(1)
    return c.ret(ite(band(is_some(a), is_some(b)), some(tup(payload(a), payload(b))), NONE))


@model("core::option::Option::<core::option::Option<T>>::flatten")
def o_flatten(c):
    return c.ret(ite(is_some(c.v(0)), payload(c.v(0)), NONE))


@model("core::option::Option::<T>::take")
def o_take(c):
    v = c.v(0)
    c.I.writeref(c.st, c.a[0], (), NONE)
    return c.ret(v)


@model("core::option::Option::<T>::replace")
def o_replace(c):
    v = c.v(0)
    c.I.writeref(c.st, c.a[0], (), some(c.v(1)))
    return c.ret(v)


@model("core::option::Option::<T>::inspect")
def o_inspect(c):
    o = c.v(0)
    return c.I.opt_map(c.fr, c.st, o, lambda s, x: _wrapped(lambda _: x, c.I.apply(c.fr, s, c.a[1], [x], c.site)), some, NONE)


@model("core::option::Option::<core::result::Result<T, E>>::transpose")
def o_transpose(c):
    o = c.v(0)
    r = payload(o)
    return c.ret(ite(is_some(o), ite(isv(r, RES, "Ok"), ok(some(vfield(r, "Ok", "0"))), err(vfield(r, "Err", "0"))), ok(NONE)))


def _res(good, bad):
    """a consumer of a Result by what it does with a value / an error; each (c, state, payload) -> (state, value)"""
    def m(c):
        o = c.v(0)
        return gate(c, isv(o, RES, "Ok"), lambda s: good(c, s, vfield(o, "Ok", "0")), lambda s: bad(c, s, vfield(o, "Err", "0")))
    return m


def _call(i):
    return lambda c, s, x: c.I.apply(c.fr, s, c.a[i], [x], c.site)


_RT = "core::result::Result::<T, E>::"
MODELS[_RT + "and_then"] = _res(_call(1), lambda c, s, e: (s, err(e)))
MODELS[_RT + "or_else"] = _res(lambda c, s, x: (s, ok(x)), _call(1))
MODELS[_RT + "map_or"] = _res(_call(2), lambda c, s, e: (s, c.v(1)))
MODELS[_RT + "map_or_else"] = _res(_call(2), _call(1))
MODELS[_RT + "is_ok_and"] = _res(_call(1), lambda c, s, e: (s, FALSE))
MODELS[_RT + "is_err_and"] = _res(lambda c, s, x: (s, FALSE), _call(1))
MODELS[_RT + "and"] = _res(lambda c, s, x: (s, c.v(1)), lambda c, s, e: (s, err(e)))
MODELS[_RT + "or"] = _res(lambda c, s, x: (s, ok(x)), lambda c, s, e: (s, c.v(1)))
MODELS[_RT + "inspect"] = _res(lambda c, s, x: _wrapped(lambda _: ok(x), _call(1)(c, s, x)), lambda c, s, e: (s, err(e)))
MODELS[_RT + "inspect_err"] = _res(lambda c, s, x: (s, ok(x)), lambda c, s, e: _wrapped(lambda _: err(e), _call(1)(c, s, e)))
model(_RT + "err")(lambda c: c.ret(ite(isv(c.v(0), RES, "Ok"), NONE, some(vfield(c.v(0), "Err", "0")))))
model(_RT + "as_ref", "core::result::Result::<&T, E>::cloned", "core::result::Result::<&T, E>::copied")(lambda c: c.ret(c.v(0)))


@model(_RT + "unwrap_err", _RT + "expect_err")
def r_unwrap_err(c):
    o = c.v(0)
    if not guard(c, bnot(isv(o, RES, "Ok")), "unwrap_err on Ok"):
        return None
    return c.ret(vfield(o, "Err", "0"))


_ORDG = "core::cmp::Ordering"
for _n, _vs in (("is_lt", ("Less",)), ("is_le", ("Less", "Equal")), ("is_gt", ("Greater",)), ("is_ge", ("Greater", "Equal")), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater"))):
    MODELS[_ORDG + "::" + _n] = (lambda vs: lambda c: c.ret(leafmap(c.v(0), lambda l: _oneof(l, vs))))(_vs)


def _oneof(l, vs):
    if len(vs) == 2:
        return bnot(isv(l, _ORDG, next(v for v in ("Less", "Equal", "Greater") if v not in vs)))
    return isv(l, _ORDG, vs[0])


def _ordering(v):
    return mk("agg", _ORDG, v, ())


@model(_ORDG + "::reverse")
def ord_reverse(c):
    o = c.v(0)
    return c.ret(ite(isv(o, _ORDG, "Less"), _ordering("Greater"), ite(isv(o, _ORDG, "Equal"), _ordering("Equal"), _ordering("Less"))))


@model(_ORDG + "::then")
def ord_then(c):
    return c.ret(ite(isv(c.v(0), _ORDG, "Equal"), c.v(1), c.v(0)))


@model("core::mem::take")
def mem_take(c):
    d = default_of(c.T[c.co["ga"][0]])
    if d is None:
        return NotImplemented
    old = c.v(0)
    c.I.writeref(c.st, c.a[0], (), d)
    return c.ret(old)


for _ty in NUMS:
    MODELS["core::num::<impl %s>::signum" % _ty] = lambda c: c.ret(ite(lt(c.v(0), FALSE), I(-1), ite(eqn(c.v(0), FALSE), FALSE, I(1))))
    if _ty[0] == "u":
        MODELS["core::num::<impl %s>::div_ceil" % _ty] = lambda c: c.ret(pdiv(psub(padd(c.v(0), c.v(1)), I(1)), c.v(1))) if guard(c, bnot(eqn(c.v(1), FALSE)), "division by zero") else None
        MODELS["core::num::<impl %s>::div_euclid" % _ty] = lambda c: c.ret(pdiv(c.v(0), c.v(1))) if guard(c, bnot(eqn(c.v(1), FALSE)), "division by zero") else None
        MODELS["core::num::<impl %s>::rem_euclid" % _ty] = lambda c: c.ret(prem(c.v(0), c.v(1))) if guard(c, bnot(eqn(c.v(1), FALSE)), "division by zero") else None


# one element, or none, as a traversal
model("core::iter::sources::once::once")(lambda c: c.ret(mk("vec", c.v(0))))
model("core::iter::sources::empty::empty")(lambda c: c.ret(mk("vec")))
model("core::option::Option::<T>::iter")(lambda c: c.ret(ite(is_some(c.v(0)), mk("vec", payload(c.v(0))), mk("vec"))))
