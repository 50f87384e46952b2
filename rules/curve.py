"""The curve package: evaluation, validation and combination of vesting and reward curves."""
from engine import interp
from engine.core import *
from engine.spec import *
from engine.terms import *

_C, _S, _P = "curve::Curve", "curve::SaturatingLinear", "curve::PiecewiseLinear"
SELF_ = mk("param", "self")


def curve(v, x):
    return agg(_C, v, ("0",), [x])


def fn_of(ck, path, given=None, opaque=()):
    fn = ck.w.prog.by_path(path)
    if fn is None:
        raise Missing("function %s" % path)
    ck.analysed.add(("curve", path))
    s = interp.analyse(ck.w.prog, "curve", path, fn, given=given, opaque_crates=(), opaque_fns={p: p for p in opaque})
    s.crate, s.name = "curve", path
    return s


class F:
    """obligations about one function of the package"""

    def __init__(self, ck, path, given=None, opaque=(), label=""):
        self.ck, self.s = ck, fn_of(ck, path, given, opaque)
        self.n = path.replace("curve::", "") + label
        self.names = [n for n, _ in self.s.params]

    def arg(self, i):
        return mk("param", self.names[i])

    def ret(self, rid, text, *vals, h=TRUE):
        h = band(self.s.pc, h)
        ok = any(same(h, self.s.ret, v) for v in vals)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok and h is not FALSE, "gives %s, expected %s" % (show(norm(constrain(self.s.ret, h)))[:700], show(norm(vals[0]))[:500]), fn=self.s.fn.path, site=self.s.fn.span)
        return ok

    def pred(self, rid, text, p, *vals, h=TRUE):
        h = band(self.s.pc, h)
        ok = any(same(h, p, v) for v in vals)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "holds exactly if %s, expected %s" % (show(norm(constrain(p, h)))[:700], show(norm(vals[0]))[:500]), fn=self.s.fn.path, site=self.s.fn.span)
        return ok

    def live(self, rid, text, p):
        ok = entails(p, self.s.pc)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "can fail: e.g. %s" % showw(prove(p, self.s.pc)[1]), fn=self.s.fn.path, site=self.s.fn.span)


def interpolated(x0, y0, x1, y1, x):
    up = padd(y0, pdiv(pmul(psub(y1, y0), psub(x, x0)), psub(x1, x0)))
    down = psub(y0, pdiv(pmul(psub(y0, y1), psub(x, x0)), psub(x1, x0)))
    return ite(lt(y0, y1), up, down)


def line(c, x):
    f = [field(c, n) for n in ("min_x", "min_y", "max_x", "max_y")]
    return ite(lt(x, f[0]), f[1], ite(lt(f[2], x), f[3], interpolated(f[0], f[1], f[2], f[3], x)))


def between(st, x):
    """value between two steps: (first index i whose time is (not) beyond x; with i >= 1, for every way of saying so)"""
    b = mk("bv", 1)
    r = []
    for hit in (lt(x, field(b, "time")), le(x, field(b, "time"))):
        for q in (band(le(I(1), mk("bvi", 1)), hit), hit):
            p = payload(mk_find("position", st, q, 1))
            nx, pv = payload(mk_find("find", st, q, 1)), payload(vget(st, psub(p, I(1))))
            r.append((mk_any(st, q, 1), interpolated(field(pv, "time"), field(pv, "value"), field(nx, "time"), field(nx, "value"), x)))
    return r


def prev(st, f, n=1):
    return field(payload(vget(st, psub(mk("bvi", n), I(1)))), f)


def ordered(st):
    b, i = mk("bv", 1), mk("bvi", 1)
    t = field(b, "time")
    a = mk_any(st, le(t, ite(eqn(i, I(0)), I(0), prev(st, "time"))), 1)
    c = mk_any(st, band(le(I(1), i), le(t, prev(st, "time"))), 1)
    return [band(lt(I(0), vlen(st)), bnot(a)), band(lt(I(0), vlen(st)), band(bnot(c), lt(I(0), field(payload(vget(st, I(0))), "time"))))]


def good(t):
    return isv(t, "core::result::Result", "Ok")


def monotone(ck, F_, st, h, okc, up):
    """okc (the condition for acceptance, under h) is: no element lies on the wrong side of the one before"""
    b, i = mk("bv", 1), mk("bvi", 1)

    def wrong(p, v):
        return lt(v, p) if up else lt(p, v)
    direct = bnot(mk_any(st, band(le(I(1), i), wrong(prev(st, "value"), field(b, "value"))), 1))
    if same(h, okc, direct):
        return True
    # what the hypothesis already decides
    for a in atoms_of(okc).values():
        if not any(x.op == "fold" for x in subterms(a)):
            okc = rewrite(okc, {a.id: TRUE if entails(h, atom(a)) else FALSE if entails(h, bnot(atom(a))) else a})
    folds = [x for x in subterms(okc) if x.op == "fold"]
    folds = [x for x in folds if not any(y is not x and any(z is x for z in subterms(y)) for y in folds)]
    for f in folds:
        it, init, step, n = f.args
        if not same(h, it, st):
            continue
        acc, e, k = mk("acc", n), mk("bv", n), mk("bvi", n)
        P = lambda v: rewrite(okc, {f.id: v})
        if any(x.op == "fold" for x in subterms(P(acc))):
            continue
        # a component of the state that is always the value of the element before
        last = None
        for path in ([], ["0"], ["1"], ["2"]):
            g = lambda v: v if not path else field(v, path[0])
            try:
                if same(h, g(init), field(payload(vget(st, I(0))), "value")) and same(band(h, le(I(1), k)), g(step), field(e, "value")):
                    last = g(acc)
                    break
            except Exception:
                continue
        if last is None:
            last = prev(st, "value", n)
        if not same(h, P(init), TRUE):
            continue
        if same(band(h, lt(k, I(1))), P(step), P(acc)) and same(band(h, le(I(1), k)), P(step), band(P(acc), bnot(wrong(last, field(e, "value"))))):
            return True
    return False


def uses(t, v):
    return any(x is v for x in subterms(t))


def permutes(t, acc):
    """t is acc with elements exchanged"""
    if t is acc:
        return True
    if t.op == "ite":
        return permutes(t.args[1], acc) and permutes(t.args[2], acc)
    if t.op == "vset" and t.args[0].op == "vset":
        (x, p, a), (q, b) = t.args[0].args, t.args[1:]
        at = lambda v, i: payload(vget(v, i))
        return permutes(x, acc) and {same(TRUE, a, at(x, q)), same(TRUE, b, at(x, p))} == {True}
    if t.op == "fold":
        it, init, step, n = t.args
        return not uses(it, acc) and not uses(step, acc) and permutes(init, acc) and permutes(step, mk("acc", n))
    return False


def ranges(it, lo, hi):
    """the traversal is lo..hi"""
    n = 1 + max(bvn(lo), bvn(hi))
    return it.op == "it" and it.args[0] == "upto" and same(TRUE, it, mk("it", "upto", lo, mk_first(lo, bnot(lt(mk("bv", n), hi)), n)))


def sorts(t):
    """t exchanges the elements of a sequence until they are in increasing order: the sequence, or None"""
    if t.op != "fold":
        return None
    it, z, step, n = t.args
    if step.op != "fold" or step.args[1] is not mk("acc", n) or not permutes(step, mk("acc", n)):
        return None
    L = vlen(z)
    it2, _, st2, m = step.args
    i, j, acc = mk("bv", n), mk("bv", m), mk("acc", m)
    at = lambda k: payload(vget(acc, k))
    if it is z:
        i = mk("bvi", n)
    elif not any(ranges(it, I(0), psub(L, I(k))) for k in (0, 1)):
        return None

    def exchanges(p, q):
        """puts positions p < q in order"""
        sw = mk("vset", mk("vset", acc, p, at(q)), q, at(p))
        ws = mk("vset", mk("vset", acc, q, at(p)), p, at(q))
        return any(same(TRUE, st2, ite(g(at(q), at(p)), w, acc)) for g in (lt, le) for w in (sw, ws))
    one = I(1)
    # neighbours; each round settles one more element at the end
    for d in (0, 1):
        if exchanges(padd(j, I(d - 1)), padd(j, I(d))) and any(ranges(it2, I(1 - d), h) for h in (psub(psub(L, I(d)), i), psub(L, I(d)))):
            return z
    # each position against all later ones
    if exchanges(i, j) and ranges(it2, padd(i, one), L):
        return z
    return None


def has(v, x, n, e):
    """x is among the elements of v"""
    return mk_any(v, e(mk("bv", n), x), n)


def times_of(t, mus):
    """the sequences of steps whose times, in order and without repetition, are the elements of t (None: not established)
    A rearrangement without a closed form is trusted to sort; what it rearranges has to be the times of both."""
    if t.op == "mkeys":
        t = t.args[0]
        r = []
        while t.op == "fold":
            it, init, step, n = t.args
            if step.op != "mset" or step.args[0] is not mk("acc", n) or step.args[1] is not field(mk("bv", n), "time"):
                return None
            r.append(it)
            t = init
        return r if t is mk("map") else None
    if t.op == "mu" and t in mus and mus[t][1] is not None:
        return next((r for r in (collected(x) for x in subterms(mus[t][1]) if x.op == "fold") if r), None)
    if t.op != "fold" or t.args[1] is not mk("vec"):
        return None
    z, _, step, n = t.args
    b, i, acc = mk("bv", n), mk("bvi", n), mk("acc", n)
    had = []
    for e in (eq, eqn):
        for v, k in ((z, i), (acc, vlen(acc))):
            x = vget(v, psub(k, I(1)))
            had += [band(c, e(payload(x), b)) for c in (le(I(1), k), is_some(x))]
        had.append(has(acc, b, n + 1, e))
    if not any(same(TRUE, step, ite(h, acc, mk("vpush", acc, b))) for h in had):
        return None
    if z.op != "mu":
        z = sorts(z)
    while z is not None and z.op == "mu" and z in mus:
        z = mus[z][0]
    return collected(z)


def collected(z):
    """the sequences of steps whose times are the elements of z (each once, or at least once)"""
    r = []
    while z is not None and z.op == "fold":
        it, init, step, n = z.args
        acc, time = mk("acc", n), field(mk("bv", n), "time")
        add = mk("vpush", acc, time)
        if step is not add and not any(same(TRUE, step, ite(has(acc, time, n + 1, e), acc, add)) for e in (eq, eqn)):
            return None
        r.append(it)
        z = init
    return r if z is mk("vec") else None


@rule("P30")
def p30(ck):
    ck.rule("value", "a curve's value at a time: the constant; the line between the two points and its end values outside; the line between the neighbouring steps, and the first and last step's value outside")
    ck.rule("valid", "validation accepts exactly the curves whose points are in increasing order (and, where asked, whose values never move the wrong way)")
    ck.rule("shape", "number of steps, end, range and end values are those of the curve; constructors keep their arguments")
    ck.rule("combine", "a combined curve is the sum of both curves at every one of its points")
    V = ("Constant", "SaturatingLinear", "PiecewiseLinear")
    cst, sl, pl = [vfield(SELF_, v, "0") for v in V]
    is_ = {v: isv(SELF_, _C, v) for v in V}
    st = field(pl, "steps")
    f = F(ck, _C + "::value")
    x = f.arg(1)
    f.ret("value", "constant", cst, h=is_["Constant"])
    f.ret("value", "saturating line", line(sl, x), h=is_["SaturatingLinear"])
    first, last = payload(vget(st, I(0))), payload(vget(st, psub(vlen(st), I(1))))
    low, high = le(x, field(first, "time")), le(field(last, "time"), x)
    f.ret("value", "piecewise, up to the first step", field(first, "value"), h=band(is_["PiecewiseLinear"], low))
    f.ret("value", "piecewise, from the last step on", field(last, "value"), h=band(is_["PiecewiseLinear"], band(bnot(low), high)))
    h = band(f.s.pc, band(is_["PiecewiseLinear"], band(bnot(low), bnot(high))))
    got = simp(f.s.ret, h)
    ok = any(same(band(h, a), got, v) and same(band(h, bnot(a)), got, field(last, "value")) for a, v in between(st, x))
    ck.ob("value", "%s: piecewise, between two steps" % f.n, ok, "is %s" % show(norm(got))[:900], f.s.fn.span, f.s.fn.path)
    f.live("value", "constant curves and lines have a value at every time", bor(is_["Constant"], is_["SaturatingLinear"]))
    f.live("value", "every piecewise curve with steps has a value at every time", band(is_["PiecewiseLinear"], band(lt(I(0), vlen(st)), band(is_some(vget(st, I(0))), is_some(vget(st, psub(vlen(st), I(1))))))))
    # shape
    f = F(ck, _C + "::size")
    f.ret("shape", "number of points", ite(is_["Constant"], I(1), ite(is_["SaturatingLinear"], I(2), vlen(st))))
    f = F(ck, _C + "::end")
    f.ret("shape", "a constant never ends", NONE, h=is_["Constant"])
    f.ret("shape", "a line ends at its second point", some(field(sl, "max_x")), h=is_["SaturatingLinear"])
    f.ret("shape", "a piecewise curve ends at its last step", some(field(payload(vget(st, psub(vlen(st), I(1)))), "time")), h=band(is_["PiecewiseLinear"], is_some(vget(st, psub(vlen(st), I(1))))))
    f = F(ck, _P + "::end_value")
    ss = field(SELF_, "steps")
    f.ret("shape", "value of the last step", some(field(payload(vget(ss, psub(vlen(ss), I(1)))), "value")), h=is_some(vget(ss, psub(vlen(ss), I(1)))))
    f = F(ck, _P + "::first_value")
    f.ret("shape", "value of the first step", some(field(payload(vget(ss, I(0))), "value")), h=is_some(vget(ss, I(0))))
    f = F(ck, _C + "::range")
    lo, hi = (field(f.s.ret, n) for n in ("0", "1"))
    b, acc = field(mk("bv", 1), "value"), mk("acc", 1)
    for t, got, sgn, start in (("lowest", lo, 0, 2 ** 128 - 1), ("highest", hi, 1, 0)):
        better = lambda p, q: lt(q, p) if sgn else lt(p, q)
        f.pred("shape", "%s value, constant" % t, got, cst, h=is_["Constant"])
        p, q = field(sl, "min_y"), field(sl, "max_y")
        f.pred("shape", "%s value, line" % t, got, ite(better(p, q), p, q), h=is_["SaturatingLinear"])
        f.pred("shape", "%s value, piecewise" % t, got, mk_fold(st, I(start), ite(better(b, acc), b, acc), 1), mk_fold(st, I(start), ite(better(acc, b), acc, b), 1), h=is_["PiecewiseLinear"])
    f = F(ck, _C + "::saturating_linear")
    a0, a1 = f.arg(0), f.arg(1)
    f.ret("shape", "line through the points given", curve("SaturatingLinear", struct("curve", min_x=field(a0, "0"), min_y=field(a0, "1"), max_x=field(a1, "0"), max_y=field(a1, "1"))))
    f = F(ck, _C + "::constant")
    f.ret("shape", "the constant given", curve("Constant", f.arg(0)))
    # validation
    for name, up in (("validate", None), ("validate_monotonic_increasing", True), ("validate_monotonic_decreasing", False)):
        f = F(ck, _C + "::" + name)
        g = good(f.s.ret)
        f.pred("valid", "every constant is accepted", g, TRUE, h=is_["Constant"])
        p = lt(field(sl, "min_x"), field(sl, "max_x"))
        if up is not None:
            d = psub(field(sl, "max_y"), field(sl, "min_y"))
            p = band(p, le(I(0), d) if up else le(d, I(0)))
        f.pred("valid", "lines", g, p, h=is_["SaturatingLinear"])
        o = ordered(st)
        h = band(f.s.pc, is_["PiecewiseLinear"])
        if up is None:
            f.pred("valid", "piecewise curves", g, *o, h=is_["PiecewiseLinear"])
        else:
            bad = [v for v in o if entails(h, bimp(g, v))]
            ck.ob("valid", "%s: accepts only ordered steps" % f.n, bool(bad), "accepts %s" % show(norm(constrain(g, h)))[:500], f.s.fn.span, f.s.fn.path)
            ok = any(monotone(ck, f, st, band(h, v), g, up) for v in o)
            ck.ob("valid", "%s: accepts exactly the ordered steps whose values never %s" % (f.n, "fall" if up else "rise"), ok, "accepts %s" % show(norm(constrain(g, h)))[:1200], f.s.fn.span, f.s.fn.path)
    f = F(ck, _C + "::validate_complexity")
    f.pred("valid", "accepted exactly up to the maximal number of points", good(f.s.ret), le(ite(is_["Constant"], I(1), ite(is_["SaturatingLinear"], I(2), vlen(st))), f.arg(1)))
    # combination
    comb, val = _P + "::combine", _P + "::value"
    q = [mk("param", "other"), mk("param", "that")]

    def shape(v, p):
        return curve(v, p)
    for v in V:
        for u in V:
            if u != "Constant" and v != "Constant":
                continue
            a, c = mk("param", "p"), mk("param", "q")
            f = F(ck, _C + "::combine", given={0: curve(v, a), 1: curve(u, c)}, opaque=(comb, val), label="(%s, %s)" % (v, u))
            k, o, w_ = (a, c, u) if v == "Constant" else (c, a, v)
            if w_ == "Constant":
                want = curve("Constant", padd(a, c))
            elif w_ == "SaturatingLinear":
                want = curve(w_, struct("curve", min_x=field(o, "min_x"), min_y=padd(k, field(o, "min_y")), max_x=field(o, "max_x"), max_y=padd(k, field(o, "max_y"))))
            else:
                e = mk("bv", 1)
                want = curve(w_, struct("curve", steps=mk_fold(field(o, "steps"), mk("vec"), mk("vpush", mk("acc", 1), struct("curve", time=field(e, "time"), value=padd(k, field(e, "value")))), 1)))
            f.ret("combine", "the other curve moved up by the constant", want)
            f.live("combine", "every such combination exists", TRUE)
    for v in V[1:]:
        for u in V[1:]:
            a, c = mk("param", "p"), mk("param", "q")
            f = F(ck, _C + "::combine", given={0: curve(v, a), 1: curve(u, c)}, opaque=(comb, val), label="(%s, %s)" % (v, u))

            def points(w_, t):
                if w_ == "PiecewiseLinear":
                    return t
                return struct("curve", steps=mk("vec", *[struct("curve", time=field(t, m + "_x"), value=field(t, m + "_y")) for m in ("min", "max")]))
            x, y = points(v, a), points(u, c)
            f.ret("combine", "both as steps, combined", curve("PiecewiseLinear", mk("call", comb, x, y)), curve("PiecewiseLinear", mk("call", comb, y, x)))
    f = F(ck, comb, opaque=(val,))
    out = field(f.s.ret, "steps")
    o = f.arg(1)
    ok = False
    for t in ([out] if out.op == "fold" else []):
        it, init, step, n = t.args
        e = mk("bv", n)
        b, at = e, e
        pt = struct("curve", time=at, value=padd(mk("call", val, SELF_, at), mk("call", val, o, at)))
        ok = same(f.s.pc, init, mk("vec")) and same(f.s.pc, step, mk("vpush", mk("acc", n), pt))
        at = norm(it)
        src = times_of(at, f.s.mus)
        ck.ob("combine", "%s: the points are at the times of both curves, in order, each once" % f.n, src is not None and sorted(x.id for x in src) == sorted(x.id for x in (field(SELF_, "steps"), field(o, "steps"))),
              "times are %s" % show(norm(it))[:900], f.s.fn.span, f.s.fn.path)
    ck.ob("combine", "%s: every point is the sum of both curves at its time" % f.n, ok, "points are %s" % show(norm(out))[:700], f.s.fn.span, f.s.fn.path)
    ck.floor("value", 7)
    ck.floor("valid", 12)
    ck.floor("shape", 14)
    ck.floor("combine", 16)
