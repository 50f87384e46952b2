"""The decimal package: fixed-point arithmetic in units of 10^-18."""
from engine import interp
from engine.core import *
from engine.core import DECIMAL
from engine.spec import *
from engine.terms import *

_D = "soroban_decimal::decimal::Decimal"
ONE = 10 ** 18


def plain(t):
    """value-preserving integer conversions erased"""
    memo = {}
    def rec(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("into<") and len(x.args) == 2:
            r = rec(x.args[1])
        elif x.op == "poly":
            r = rebuild(x, [[([rec(tm._all[i]) for i in m], c) for m, c in x.args[0]]])
        elif not any(isinstance(a, T) for a in x.args):
            r = x
        else:
            r = rebuild(x, [rec(a) if isinstance(a, T) else a for a in x.args])
        memo[x.id] = r
        return r
    return rec(t)


def library(w, name, trait=None, of=None):
    """the function `name` of Decimal: inherent, or of an implementation of `trait` whose type arguments end with `of`"""
    c = []
    for f in w.prog.fns.values():
        if f.crate == "soroban_decimal" and f.kind == "fn" and f.name == name and "256" not in f.path and "::{" not in f.path:
            if trait is None and f.trait is None and f.path.endswith("::Decimal::" + name):
                c.append(f)
            elif trait is not None and f.trait == trait and ("<i128>>" in f.path) == (of == "i128") and ("for i128" in f.path) == (of == "for"):
                c.append(f)
    if len(c) != 1:
        raise Missing("soroban_decimal: %s %s %s" % (name, trait or "", of or ""))
    return c[0]


_A = "core::ops::arith::"
S, O = "self", "other"
# name, trait, which, parameters (decimals in capitals), value, condition for returning
SPECS = [
    ("one", None, None, [], lambda: I(ONE), None), ("zero", None, None, [], lambda: I(0), None),
    ("new", None, None, "x", lambda x: x, None), ("raw", None, None, "x", lambda x: x, None),
    ("percent", None, None, "x", lambda x: pmul(I(10 ** 16), x), None), ("permille", None, None, "x", lambda x: pmul(I(10 ** 15), x), None), ("bps", None, None, "x", lambda x: pmul(I(10 ** 14), x), None),
    ("atomics", None, None, "X", lambda x: x, None), ("is_zero", None, None, "X", lambda x: eqn(x, I(0)), None),
    ("abs", None, None, "X", lambda x: ite(lt(x, I(0)), pneg(x), x), None),
    ("inv", None, None, "X", lambda x: ite(eqn(x, I(0)), NONE, some(pdiv(I(ONE * ONE), x))), None),
    ("from_ratio", None, None, "xy", lambda x, y: pdiv(pmul(x, I(ONE)), y), lambda x, y: bnot(eqn(y, I(0)))),
    ("add", _A + "Add", None, "XY", padd, None), ("sub", _A + "Sub", None, "XY", psub, None),
    ("mul", _A + "Mul", None, "XY", lambda x, y: pdiv(pmul(x, y), I(ONE)), None),
    ("mul", _A + "Mul", "i128", "Xy", lambda x, y: pdiv(pmul(x, y), I(ONE)), None),
    ("mul", _A + "Mul", "for", "xY", lambda x, y: pdiv(pmul(x, y), I(ONE)), None),
    ("div", _A + "Div", None, "XY", lambda x, y: pdiv(pmul(x, I(ONE)), y), lambda x, y: bnot(eqn(y, I(0)))),
    ("div", _A + "Div", "i128", "Xy", lambda x, y: pdiv(x, y), None),
    ("eq", "core::cmp::PartialEq", None, "XY", eqn, None),
]


def value(t):
    """the integer a decimal consists of"""
    return leafmap(t, lambda l: field(l, "0") if l.op == "agg" and l.args[0] == _D else agg(l.args[0], l.args[1], l.args[2], [value(x) for x in l.args[3:]]) if l.op == "agg" else l)


@rule("P31")
def p31(ck):
    w = ck.w
    ck.rule("formula", "every operation is the exact integer formula on the 10^-18 units: products and quotients multiply before they divide, and are cut off once")
    ck.rule("returns", "an operation fails only for a zero divisor (or when a number does not fit)")
    ck.rule("order", "comparisons compare the number of units")
    ck.rule("assumed", "every decimal operation the contracts call is among those checked, with the formula the other checks use")
    done = {}
    for name, trait, of, ps, f, pc in SPECS:
        fn = library(w, name, trait, of)
        ck.analysed.add(("soroban_decimal", fn.path))
        s = interp.analyse(w.prog, "soroban_decimal", name, fn, opaque_crates=())
        n = "%s%s" % (name, "" if trait is None else " (%s)" % fn.path.split("core::")[-1])
        args = []
        for (an, ty), p in zip(s.params, ps):
            a = mk("param", an)
            args.append(field(a, "0") if p.isupper() else a)
        if len(s.params) != len(ps):
            raise Missing("soroban_decimal: parameters of %s" % name)
        got, cond = plain(s.ret), plain(s.pc)
        sub = {mk("param", an).id: None for (an, _), p in zip(s.params, ps) if p.isupper()}
        got = leafmap(got, lambda l: field(l, "0") if l.id in sub else l)
        got, want = value(got), f(*args)
        ck.ob("formula", n, same(cond, got, want), "gives %s, expected %s" % (show(norm(got))[:500], show(norm(want))[:300]), fn.span, fn.path)
        must = TRUE if pc is None else pc(*args)
        ck.ob("returns", n, entails(must, cond), "fails unless %s" % show(cond)[:300], fn.span, fn.path)
        done[(name, trait, of)] = f
    # from_atomics, by number of places
    fn = library(w, "from_atomics")
    s = interp.analyse(w.prog, "soroban_decimal", "from_atomics", fn, opaque_crates=())
    a, p = [mk("param", n) for n, _ in s.params]
    for k in list(range(0, 19)) + [20]:
        got = value(rewrite(norm(s.ret), {p.id: I(k)}))
        want = pmul(a, I(10 ** (18 - k))) if k <= 18 else pdiv(a, I(10 ** (k - 18)))
        ck.ob("formula", "from_atomics with %d places" % k, same(TRUE, got, want), "gives %s, expected %s" % (show(norm(got))[:300], show(want)), fn.span, fn.path)
    fn = library(w, "to_i128_with_precision")
    s = interp.analyse(w.prog, "soroban_decimal", "to_i128_with_precision", fn, opaque_crates=())
    x, p = [mk("param", n) for n, _ in s.params]
    for k in (0, 6, 7, 18):
        got = rewrite(norm(plain(s.ret)), {p.id: I(k)})
        want = pdiv(field(x, "0"), I(10 ** (18 - k)))
        ck.ob("formula", "to_i128_with_precision of %d places" % k, same(TRUE, got, want), "gives %s, expected %s" % (show(norm(got))[:300], show(want)), fn.span, fn.path)
    # comparisons
    fn = library(w, "partial_cmp", "core::cmp::PartialOrd")
    s = interp.analyse(w.prog, "soroban_decimal", "partial_cmp", fn, opaque_crates=())
    a, b = [field(mk("param", n), "0") for n, _ in s.params]
    o = payload(s.ret)
    for v, want in (("Less", lt(a, b)), ("Equal", eqn(a, b)), ("Greater", lt(b, a))):
        got = isv(o, "core::cmp::Ordering", v)
        ck.ob("order", "%s" % v, same(TRUE, got, want) and entails(s.pc, is_some(s.ret)), "holds exactly if %s" % show(norm(got))[:300], fn.span, fn.path)
    over_ = [f for f in w.prog.fns.values() if f.crate == "soroban_decimal" and "decimal::Decimal " in f.path and f.name in ("lt", "le", "gt", "ge", "ne", "max", "min", "clamp")]
    ck.ob("order", "no operator replaces its derivation from the comparison", not over_, "own definition of %s" % [f.name for f in over_], over_[0].span if over_ else None)
    # what the contracts use
    used = {}
    for s in w.all():
        for p in s.stats.get("opaque", ()):
            if p.startswith(("soroban_decimal::", "<soroban_decimal::")) or " soroban_decimal::" in p:
                used.setdefault(p, sname(s))
    for p, at in sorted(used.items()):
        nm = p.split("::")[-1]
        if nm in ("to_string", "from_atomics"):
            continue
        tr = next((t for t in ("Mul", "Div", "Add", "Sub") if "arith::%s" % t in p), None)
        of = "i128" if "<i128>>" in p else "for" if "for i128" in p else None
        k = (nm, tr and _A + tr, of)
        f = DECIMAL.get(p)
        ok = k in done
        if ok and f is not None:
            n = len(next(x for x in SPECS if x[:3] == k)[3])
            xs = [mk("param", c) for c in "xy"[:n]]
            ok = same(TRUE, f(*xs), done[k](*xs))
        ck.ob("assumed", p.split("decimal::")[-1], ok and f is not None, "used by %s but not covered by a checked formula" % at)
    ck.floor("formula", 40)
    ck.floor("returns", 20)
    ck.floor("order", 4)
    ck.floor("assumed", 8)
