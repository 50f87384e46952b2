"""Functional specifications of entry points: guards, token movements, calls, final storage, return value.
Everything is compared as a value (gated normal form), never as text."""
from .core import *
from .terms import *


class X:
    """an expected call: of method `m` at address `addr` with `args`, whenever cond holds, in `loops`"""

    def __init__(self, name, addr, m, args, cond=TRUE, loops=(), many=False):
        self.name, self.addr, self.m, self.args, self.cond, self.loops, self.many = name, addr, m, args, cond, tuple(loops), many


def transfer(name, token, frm, to, amount, cond=TRUE, loops=()):
    return X(name, token, "transfer", [frm, to, amount], cond, loops)


def sname(s):
    return "%s::%s" % (s.crate, s.name)


def plumbing(pc, h=TRUE):
    """state that was saved is present, and numbers are within the range of their types (unless h says otherwise)"""
    r = TRUE
    for a in atoms_of(norm(pc)).values():
        c = None
        if a.op == "isv" and (a.args[0].op == "get" or (a.args[0].op == "call" and a.args[0].args[0].endswith("to_u128"))):
            c = atom(a)
        elif a.op == "fits":
            c = atom(a)
        elif a.op == "lt" and a.args[1] == 0 and not comparison(a.args[0]):
            c = bnot(atom(a))
        elif a.op == "lt" and a.args[1] >= 1 << 63:
            c = atom(a)
        elif a.op == "lt" and a.args[1] <= -(1 << 63) + 1:
            c = bnot(atom(a))
        if c is not None and (h is TRUE or not prove(h, bnot(c))[0]):
            r = band(r, c)
    return r


def comparison(p):
    """two values given or recorded, one against the other"""
    ms = list(tm.as_poly(p).items())
    return len({k > 0 for _, k in ms}) == 2 and all(len(m) == 1 and m[0].op in ("param", "get", "f", "vf", "timestamp", "seq", "vlen", "ext", "bv") for m, _ in ms if m)


def unloop(t, LP):
    """what was read during the traversal LP, as the storage stood at that moment"""
    sub = {x.id: mk("get", x.args[0], x.args[1], FALSE) for x in subterms(t) if x.op == "get" and x.args[2] is LP}
    while sub:
        t = rewrite(t, sub)
        sub = {x.id: mk("get", x.args[0], x.args[1], FALSE) for x in subterms(t) if x.op == "get" and x.args[2] is LP}
    return t


def parts(m, a, b):
    """a carried value, and the fields it is made of"""
    r = [(m, a, b)]
    if a.op == "agg" and a.args[1] is None:
        for f in a.args[2]:
            r += parts(field(m, f), field(a, f), field(b, f))
    return r


def quiet(t):
    """t without the moment at which other contracts were called"""
    sub = {x.id: mk("ext", x.args[0], x.args[1], FALSE, *x.args[3:]) for x in subterms(t) if x.op == "ext" and x.args[2] is not FALSE}
    while sub:
        t = rewrite(t, sub)
        sub = {x.id: mk("ext", x.args[0], x.args[1], FALSE, *x.args[3:]) for x in subterms(t) if x.op == "ext" and x.args[2] is not FALSE}
    return t


class Spec:
    def __init__(self, ck, crate, name):
        self.ck = ck
        self.s = ck.S(crate, name)
        self.a = Args(self.s)
        self.n = sname(self.s)
        self.pc = self.s.pc
        for n, ty in self.s.params:  # unsigned
            if ty in ("u32", "u64", "u128"):
                self.pc = band(self.pc, le(I(0), mk("param", n)))
        self.inv = TRUE              # an invariant established elsewhere
        self.view = lambda t: t      # normalisation applied to both sides of a comparison
        if self.pc is FALSE:
            raise Missing("%s never returns normally" % self.n)

    # -- pre/guards
    def guard(self, rid, text, pred, h=None):
        """at every successful return, pred holds"""
        h = self.pc if h is None else h
        ok = entails(h, pred)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "" if ok else "not enforced; counterexample %s" % showw(prove(h, pred)[1]), fn=self.s.fn.path, site=self.s.fn.span)

    def auth(self, rid, who, text, cond=TRUE):
        """who authorised the call (whenever cond)"""
        p = auth_pred(self.s, who)
        ok = entails(band(self.pc, cond), p)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "no require_auth of %s dominates the return" % show(who), fn=self.s.fn.path, site=self.s.fn.span)

    def total(self, rid, text, pred):
        """the call is rejected only for the reasons in pred (and failures of the machine: missing state, values out of range)"""
        h = band(norm(pred), norm(self.inv))
        h = band(h, plumbing(self.pc, h))
        c = norm(self.s.pc)
        if prove(h, FALSE)[0]:
            self.ck.ob(rid, "%s: %s" % (self.n, text), False, "the stated conditions contradict each other", fn=self.s.fn.path, site=self.s.fn.span)
            return
        try:
            ok = prove(h, c)[0] or split_cases([h, c], lambda ts: prove(band(ts[0], plumbing(ts[1], ts[0])), ts[1])[0])
        except tm.Budget:
            ok = False
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "" if ok else "rejected although every stated condition holds; e.g. %s" % showw(prove(h, c)[1], 30), fn=self.s.fn.path, site=self.s.fn.span)

    # -- calls
    def calls(self, rid, expected, only=None, exact=True):
        """the mutating cross-contract calls are exactly `expected` (those selected by predicate `only`)"""
        s, ck = self.s, self.ck
        acts = [e for e in calls(s, mut=True) if only is None or only(e)]
        hit = {}
        for e in acts:
            h = band(ctx(s, e), self.inv)
            if h is FALSE:
                continue
            m = None
            why = ""
            for x in expected:
                if e.method is not sym(x.m) or len(e.args) != len(x.args):
                    continue
                if x.loops is not None and tuple(e.loops) != x.loops and len(e.loops) != len(x.loops):
                    continue
                hx = self.view(norm(h))
                if x.cond is not TRUE and not entails(hx, self.view(norm(x.cond))):
                    why += " [%s: condition not implied]" % x.name
                    continue
                bad = None
                for what, p, q in [("callee", e.addr, x.addr)] + [("argument %d" % i, p, q) for i, (p, q) in enumerate(zip(e.args, x.args))]:
                    if q is not None and not same(hx, self.view(norm(p)), self.view(norm(q))):
                        bad = "%s is %s, expected %s" % (what, show(norm(p))[:300], show(norm(q))[:300])
                        break
                if bad is None:
                    m = x
                    break
                why += " [%s: %s]" % (x.name, bad)
            if m is None:
                if exact:
                    ck.ob(rid, "%s: call of %s" % (self.n, show(e.method)), False, "is not one of the allowed effects%s" % why, e.site, e.fn)
                continue
            hit.setdefault(m.name, []).append((e, h))
        for x in expected:
            es = hit.get(x.name, [])
            cov = FALSE
            for e, h in es:
                cov = bor(cov, forget_loops(e.pc, e.loops) if not x.loops else e.pc)
            if x.loops:
                ok = bool(es)
            else:
                ok = bool(es) and entails(band(self.pc, x.cond), cov)
            ck.ob(rid, "%s: %s" % (self.n, x.name), ok, "%s of %s does not happen exactly as specified%s" % (x.m, show(x.addr)[:80], "" if es else " (no matching call)"), fn=s.fn.path, site=s.fn.span)
            if not x.many:
                for i in range(len(es)):
                    for j in range(i):
                        if band(es[i][1], es[j][1]) is not FALSE and sat(band(es[i][1], es[j][1])) is not None:
                            ck.ob(rid, "%s: %s" % (self.n, x.name), False, "happens more than once", es[i][0].site, es[i][0].fn)

    def each(self, rid, text, seq, addr, m, args, cond=None):
        """for every element x of seq (with cond(x)) there is exactly one call m at addr(x) with args(x), and no other call of m"""
        def pairs(e, x, i):
            return [("callee", e.addr, addr(x, i))] + [("argument %d" % k, p, q) for k, (p, q) in enumerate(zip(e.args, args(x, i)))]
        self._each(rid, text, seq, calls(self.s, m, True), "call of %s" % m, pairs, cond)

    def each_set(self, rid, text, seq, slot, val, cond=None):
        """for every element x of seq (with cond(x)) exactly one location slot(x) is written, with val(x), and nothing else in a loop"""
        def pairs(e, x, i):
            g = slot_of(slot(x, i))
            r = [("storage", sym(e.cls), sym(g.args[0])), ("key", e.key, g.args[1])]
            return r + ([("value", e.val, val(x, i))] if e.kind == "set" else [("operation", sym("removal"), sym("write"))])
        self._each(rid, text, seq, [e for e in sets(self.s) if e.loops], "write", pairs, cond)

    def _each(self, rid, text, seq, events, what, pairs, cond):
        s, ck = self.s, self.ck
        found, why = [], "no such %s in a loop over the sequence" % what
        for e in events:
            h = band(ctx(s, e), self.inv)
            if h is FALSE:
                continue
            bad = None
            if len(e.loops) != 1:
                bad = "is not made once per element"
            else:
                LP = e.loops[0]
                now = lambda t: unloop(norm(t), LP)
                d = list(s.seqs.get(LP, {}))
                u = interp.ungate(norm(seq))
                if len(d) != 1 or not u or not same(h, d[0], u[0]):
                    bad = "is made while traversing %s" % [show(x)[:100] for x in d]
                elif LP not in s.whole:
                    bad = "the traversal can stop early"
                else:
                    x, i = mk("elem", LP, d[0], ""), mk("index", LP, d[0])
                    for w, p, q in pairs(e, x, i):
                        if q is not None and not same(now(h), self.view(now(p)), self.view(norm(q))):
                            bad = "%s is %s, expected %s" % (w, show(now(p))[:700], show(norm(q))[:700])
                            break
                    reach = band(self.pc, band(s.gates.get(LP, TRUE), band(atom(mk("hasnext", LP, d[0], "")), s.loopq.get(LP, TRUE))))
                    if cond is not None:
                        c = cond(x, i)
                        reach = band(reach, c)
                        if bad is None and not entails(h, c):
                            bad = "is made for other elements too"
                    found.append((e, reach, LP))
            if bad:
                ck.ob(rid, "%s: %s" % (self.n, text), False, "%s %s" % (what, bad), e.site, e.fn)
                return
        cov = FALSE
        # traversals of the same sequence on different paths meet the same elements
        one = lambda t, LP: t if LP is found[0][2] else rewrite(t, {LP.id: found[0][2]})
        for e, _, LP in found:
            pc = one(e.pc, LP)
            if band(cov, pc) is not FALSE and sat(band(cov, pc)) is not None:
                ck.ob(rid, "%s: %s" % (self.n, text), False, "happens more than once per element", e.site, e.fn)
                return
            cov = bor(cov, pc)
        ok = bool(found) and all(entails(one(r, LP), cov) for _, r, LP in found)
        ck.ob(rid, "%s: %s" % (self.n, text), ok, "some elements are skipped" if found else why, fn=s.fn.path, site=s.fn.span)

    def recur(self, seq, states):
        """the values carried through one traversal of seq that start as init and become step(x, i, carried) at every element:
        states is a list of (name, init, step); returns (loop, {name: value}) or None"""
        r = self.recurs(seq, states)
        return r[0] if r else None

    def recurs(self, seq, states):
        """every traversal that does so (there may be several, on different paths)"""
        s = self.s
        out = []
        u = interp.ungate(norm(seq))
        for LP, d in s.seqs.items():
            d = list(d)
            if len(d) != 1 or not u or LP not in s.whole or not same(self.pc, d[0], u[0]):
                continue
            x, i = mk("elem", LP, d[0], ""), mk("index", LP, d[0])
            h = band(band(self.pc, s.gates.get(LP, TRUE)), band(atom(mk("hasnext", LP, d[0], "")), s.loopq.get(LP, TRUE)))
            if sat(h) is None:
                continue
            cand = []
            for m, (a, b) in s.mus.items():
                if m.args[0] is LP:
                    cand += parts(m, a, b)
            def ok(p, q):
                return same(h, self.view(norm(p)), self.view(norm(q)))
            pick = [[k for k in cand if ok(k[1], init)] for _, init, _ in states]

            def search(n, c):
                if n == len(states):
                    env = {nm: k[0] for (nm, _, _), k in zip(states, c)}
                    if all(ok(k[2], st(x, i, env)) for (_, _, st), k in zip(states, c)):
                        return env
                    return None
                for k in pick[n]:
                    r = search(n + 1, c + [k])
                    if r is not None:
                        return r
            r = search(0, [])
            if r is not None:
                out.append((LP, r))
        return out

    def chain(self, seq, states):
        """the same values at the end of the traversal in closed form: each a fold over seq, in which another of the values is its own fold over the
        elements before"""
        steps = {nm: (init, step) for nm, init, step in states}

        def val(nm, xs, n):
            init, step = steps[nm]

            class C(dict):
                def __missing__(c, k):
                    return mk("acc", n) if k == nm else val(k, mk("it", "take", seq, mk("bvi", n)), n + 1)
            return mk_fold(xs, init, step(mk("bv", n), mk("bvi", n), C()), n)
        return {nm: val(nm, seq, 50) for nm in steps}

    # -- storage
    def final(self, rid, text, slot, val, h=None):
        got = self.view(post(self.s, slot))
        h = self.pc if h is None else h
        val = self.view(val)
        ok = same(self.view(norm(h)), got, val)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "final value is %s, expected %s" % (show(norm(got))[:400], show(norm(val))[:400]), fn=self.s.fn.path, site=self.s.fn.span)
        return ok

    def frame(self, rid, slots):
        """no storage location other than `slots` changes"""
        ids = {slot_of(x).args[:2] if slot_of(x) is not None else None for x in slots}
        ok = True
        for e in sets(self.s):
            k = (e.cls, e.key)
            if k in ids:
                continue
            old = mk("get", e.cls, e.key, FALSE)
            h = ctx(self.s, e)
            if h is FALSE:
                continue
            if e.kind == "set" and same(h, e.val, payload(old)) and entails(h, is_some(old)):
                continue   # writes back what was there
            hit = False
            for x in slots:
                g = slot_of(x)
                if g is not None and g.args[0] == e.cls and same(h, g.args[1], e.key):
                    hit = True
            if hit:
                continue
            ok = False
            self.ck.ob(rid, "%s: writes only its own state" % self.n, False, "writes storage %s[%s]" % (e.cls, show(e.key)[:100]), e.site, e.fn)
        if ok:
            self.ck.ob(rid, "%s: writes only its own state" % self.n, True)

    def ret(self, rid, text, val, h=None):
        h = self.pc if h is None else h
        ok = self.s.ret is not None and same(h, self.s.ret, val)
        self.ck.ob(rid, "%s: %s" % (self.n, text), ok, "returns %s, expected %s" % (show(norm(self.s.ret))[:500] if self.s.ret else None, show(norm(val))[:500]), fn=self.s.fn.path, site=self.s.fn.span)

    def no_other(self, rid, kinds=("upgrade", "deploy", "authorize_as")):
        bad = [e for e in self.s.events if e.kind in kinds]
        self.ck.ob(rid, "%s: no code upgrade or deployment" % self.n, not bad, "%s" % [e.kind for e in bad], bad[0].site if bad else None)


def flags(s):
    """storage a first initialisation finds empty"""
    return {x for x in subterms(s.pc) if x.op == "get" and x.args[2] is FALSE and x.args[:2] in s.store}
