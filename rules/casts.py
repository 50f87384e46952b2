"""Conversions between integer types keep the number."""
from engine.core import *
from engine.interp import INTS
from engine.spec import *
from engine.terms import *
from engine import terms as tm
from rules.stake import Stake


def span_of(ty):
    b, s = INTS[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def declared(s, t):
    if t.op == "param":
        for n, ty in s.params:
            if t.args[0] == n:
                return ty if isinstance(ty, str) else ty.get("s")
    return tm.tyof(t)


class Range:
    """bounds of a term: from the declared types of what it is made of, the path condition, and facts about recorded amounts"""
    def __init__(self, s, h, nonneg, facts, S):
        self.s, self.h, self.nn, self.facts, self.S, self.memo = s, h, nonneg, facts, S, {}

    def of(self, t):
        if t.id not in self.memo:
            self.memo[t.id] = (None, None)
            lo, hi = self.known(t, *self.raw(t))
            if t.id in self.facts:
                a, b = self.facts[t.id]
                lo, hi = a if lo is None else max(a, lo), b if hi is None else min(b, hi)
            self.memo[t.id] = lo, hi
        return self.memo[t.id]

    def part(self, t):
        """upper bound of a stake's part of a recorded reward: a stake is at most the total staked that was recorded with the reward, and a reward is
        a sum of amounts a token moved"""
        n, d = t.args
        if self.S is None or n.op != "poly" or len(n.args[0]) != 1:
            return None
        (m, c), = n.args[0]
        xs = [tm._all[i] for i in m]
        d = payload(d) if d.op in ("mget",) else d
        tot = [x for x in subterms(d) if x is self.S.staked]
        if c == 1 and len(xs) == 2 and tot and d.op != "poly":
            st = [x for x in xs if recorded_stake(x)]
            rw = [x for x in xs if x not in st and tm.family(self.S.hist_key[1]) in {tm.family(y.args[1]) for y in subterms(x) if y.op == "get"}]
            if len(st) == 1 and len(rw) == 1:
                return (1 << 127) - 1
        return None

    def modulus(self, t):
        """b if t is the remainder of a division by b"""
        if t.op == "poly":
            for m, c in t.args[0]:
                for d in [tm._all[i] for i in m if tm._all[i].op == "div"]:
                    rest = psub(t, tm.mk("poly", ((m, c),)))
                    k = list(m)
                    k.remove(d.id)
                    if rest is d.args[0] and c == -1 and len(k) == 1 and tm._all[k[0]] is d.args[1] or t is prem(*d.args):
                        return d.args[1]
        return None

    def ramp(self, t):
        """bounds of x + q*r/d by those of x and x + q, where q is not negative and r does not exceed d"""
        if t.op != "poly":
            return None
        ps = {}
        for a in atoms_of(self.h).values():
            if a.op == "lt":
                ps[a.args[0].id] = a.args[0]
                ps[psub(I(0), a.args[0]).id] = psub(I(0), a.args[0])
        for m, c in t.args[0]:
            if len(m) == 1 and tm._all[m[0]].op == "div" and c in (1, -1):
                d = tm._all[m[0]]
                n, k = d.args
                for q in ps.values():
                    if not entails(self.h, le(I(0), q)):
                        continue
                    for r in ps.values():
                        if n is pmul(q, r) and entails(self.h, band(le(I(0), r), le(r, k))):
                            x = psub(t, tm.mk("poly", ((m, c),)))
                            (a, b), (e, f) = self.of(x), self.of(padd(x, pmul(I(c), q)))
                            return (e, b) if c < 0 else (a, f)
        return None

    def known(self, t, lo, hi):
        if t.op != "int" and (lo is None or lo < 0) and (t in self.nn or entails(self.h, le(I(0), t))):
            lo = 0
        return lo, hi

    def raw(self, t):
        if t.op == "int":
            return t.args[0], t.args[0]
        if t.op in ("index", "bvi", "len", "position", "seq"):
            return 0, (1 << 32) - 1
        if t.op == "vf" and t.args[0].op == "position":
            return 0, (1 << 32) - 1
        if t.op == "timestamp":
            return 0, (1 << 64) - 1
        if t.op == "cast":
            return self.of(t.args[2])
        if t.op == "poly":
            lo = hi = 0
            for m, c in t.args[0]:
                a, b = c, c
                for i in m:
                    x, y = self.of(tm._all[i])
                    ps = [None if p is None or q is None else p * q for p in (a, b) for q in (x, y)]
                    if None in ps:
                        if a is not None and a >= 0 and x is not None and x >= 0:
                            a, b = a * x, None
                        elif b is not None and b <= 0 and x is not None and x >= 0:
                            a, b = None, b * x
                        else:
                            a = b = None
                    else:
                        a, b = min(ps), max(ps)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return lo, hi
        if t.op == "div":
            (a, b), (c, d) = self.of(t.args[0]), self.of(t.args[1])
            p = self.part(t)
            if p is not None:
                return 0, p
            if a is not None and a >= 0 and c is not None and c >= 0:
                return 0, None if b is None else b // max(c, 1)
            return None, None
        if t.op == "ite":
            ls = []
            for c, l in leaves(t):
                h = band(self.h, c)
                if l is not UNDEF and sat(h) is not None:
                    ls.append(Range(self.s, h, self.nn, self.facts, self.S).of(l))
            lo = None if not ls or any(l is None for l, _ in ls) else min(l for l, _ in ls)
            hi = None if not ls or any(x is None for _, x in ls) else max(x for _, x in ls)
            return lo, hi
        if t.op == "sum":
            lo, hi = Range(self.s, TRUE, self.nn, self.facts, self.S).of(t.args[1])
            return (0 if lo is not None and lo >= 0 else None), None
        ty = declared(self.s, t)
        if ty in INTS:
            return span_of(ty)
        return None, None


# a product of an integer and a Decimal multiplies before it divides by 10^18, and the product has to fit an i128
MULMAX = ((1 << 127) - 1) // 10 ** 18
MOVES = ("transfer", "transfer_from", "burn", "burn_from", "mint")


def decimal_products(t):
    """bounds of the products of an integer and a decimal among what t is computed from"""
    out = {}
    for x in subterms(t):
        if x.op == "call" and isinstance(x.args[0], str) and "soroban_decimal" in x.args[0] and "::Mul" in x.args[0] and x.args[0].endswith("mul"):
            out[norm(x).id] = (-MULMAX, MULMAX)
    return out


def recorded_stake(t):
    """the amount of a recorded stake (positive: P13)"""
    return t.op == "f" and t.args[1] == "stake" and tm.tyof(t) == "i128"


def cases(v, h, n):
    """(condition, value) for each way the gates inside v can go (up to n of them)"""
    g = next((x for x in subterms(v) if x.op == "ite" and n), None)
    if g is None:
        return [(h, v)]
    out = []
    for c, x in ((atom(g.args[0]), g.args[1]), (bnot(atom(g.args[0])), g.args[2])):
        k = band(h, c)
        if sat(k) is not None:
            out += cases(rewrite(v, {g.id: x}), k, n - 1)
    return out


def fits(s, e, raw, v, h, S, moved):
    """whether conversion e keeps v, and what is known about its size"""
    nn = {t for t in subterms(v) if recorded_stake(t) or s.crate == STAKE and t is S.total}
    for x in moved:
        # a token refuses to move a negative amount
        if entails(h, norm(ctx(s, x))):
            if x.args[-1] is mk("cast", e.from_, e.to, raw):
                nn.add("moved")
            nn.add(norm(x.args[-1]))
    r = Range(s, h, nn, decimal_products(raw), S if s.crate == STAKE else None)
    lo, hi = r.of(v)
    b = r.modulus(v) if not INTS[e.from_][1] else None
    if b is not None and r.of(b)[1] is not None:
        lo, hi = 0, max(r.of(b)[1] - 1, 0)
    b = r.ramp(v)
    if b is not None:
        lo = lo if b[0] is None else b[0] if lo is None else max(b[0], lo)
        hi = hi if b[1] is None else b[1] if hi is None else min(b[1], hi)
    x = raw
    while x.op == "cast" and x.args[0] in INTS:
        # what an earlier conversion (which has to keep it as well) made of a number of another type
        a, b = span_of(x.args[0])
        lo, hi = a if lo is None else max(a, lo), b if hi is None else min(b, hi)
        x = x.args[2]
    (fl, fh), (tl, th) = span_of(e.from_), span_of(e.to)
    lo = fl if lo is None else max(lo, fl)
    hi = fh if hi is None else min(hi, fh)
    good = (tl <= lo or entails(h, le(I(tl), v))) and (hi <= th or entails(h, le(v, I(th))) or ("moved" in nn and hi <= 2 * th + 1))
    return good, lo, hi


def aside(s, e, raw, v, h, S, moved):
    """where the number is moved later on some paths only: on those, and on the others.  Reinterpreting a sign is one to one, so a comparison of the
    result with zero says the same of the number"""
    for x in moved:
        k = norm(ctx(s, x))
        ps = [band(h, k), band(h, bnot(k))]
        if sat(ps[0]) is not None and all(sat(p) is None or fits(s, e, raw, v, p, S, moved)[0] or any(entails(p, t(v, FALSE)) for t in (eq, eqn)) for p in ps):
            return True
    return False


@rule("P29")
def p29(ck):
    ck.rule("keep", "a conversion to a narrower or differently signed integer type is reached only with a number the target type can hold")
    w = ck.w
    S = Stake(ck)
    ss = [ck.S(*k) for k in sorted(w.entry)]
    # kernels and library functions, on their own
    used = {p for s in ss for p in s.stats.get("opaque", ())}
    for f in [f for c in w.ROLES for r in w.ROLES[c] for f in [w.role_fn(c, r)]] + sorted([f for f in w.prog.fns.values() if f.path in used and f.crate in ("soroban_decimal", "curve")], key=lambda f: f.path):
        ss.append(interp.analyse(w.prog, f.crate, f.name, f, opaque_crates=()))
        ck.analysed.add((f.crate, f.path))
    for s in ss:
        for e in s.casts:
            h0 = norm(ctx(s, e))
            if sat(h0) is None:
                continue
            ok, why = True, ""
            moved = [x for x in calls(s) if any(x.method is sym(m) for m in MOVES) and x.args and set(x.loops) <= set(e.loops)]
            for c, raw in leaves(e.val):
                h = band(h0, norm(c))
                if raw is UNDEF or sat(h) is None:
                    continue
                v = simp(norm(raw), h)
                good, lo, hi = fits(s, e, raw, v, h, S, moved)
                if not good and INTS[e.from_][0] == INTS[e.to][0]:
                    good = aside(s, e, raw, v, h, S, moved)
                if not good and not all(fits(s, e, raw, x, k, S, moved)[0] for k, x in cases(v, h, 4)):
                    ok, why = False, "%s lies between %s and %s, as far as can be told" % (show(v)[:300], lo, hi)
            ck.ob("keep", "%s: %s to %s" % (sname(s), e.from_, e.to), ok, why, e.site, e.fn)
    ck.floor("keep", 1)
