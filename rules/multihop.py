"""Multihop: chained swaps and their simulation."""
from engine.core import *
from engine.spec import *
from engine.terms import *


def linked(ops, a, b):
    """every operation but the first takes its `b` from the `a` of the one before"""
    prev = payload(mk("vget", ops, psub(mk("bvi", 1), I(1))))
    return bnot(mk_any(ops, band(bnot(lt(mk("bvi", 1), I(1))), bnot(eq(field(prev, a), field(mk("bv", 1), b)))), 1))


def pool(w, op):
    return mk("ext", w.init_slot(MULTIHOP, "factory"), sym("query_for_pool_by_token_pair"), FALSE, field(op, "offer_asset"), field(op, "ask_asset"))


@rule("P22")
def p22(ck):
    ck.rule("guards", "the recipient authorised the swap, and only empty and unconnected lists are rejected")
    ck.rule("chain", "every operation is one swap in the pool the factory lists for its pair, on behalf of the recipient, with its own minimum and the caller's limits")
    ck.rule("amounts", "the first operation offers the amount given, each later one exactly what the one before returned")
    ck.rule("rest", "nothing else is called or stored")
    w = ck.w
    sp = Spec(ck, MULTIHOP, "swap")
    sp.view = quiet
    a = sp.a
    ops = a.operations
    ok = band(lt(I(0), vlen(ops)), linked(ops, "ask_asset", "offer_asset"))
    sp.auth("guards", a.recipient, "authorised by the recipient")
    sp.guard("guards", "not empty", lt(I(0), vlen(ops)))
    sp.guard("guards", "connected", ok)
    sp.total("guards", "connected swaps are accepted", ok)

    def args(x, n):
        return [a.recipient, field(x, "offer_asset"), n, field(x, "ask_asset_min_amount"), a.max_spread_bps, a.deadline, a.max_allowed_fee_bps]
    r = sp.recurs(ops, [("next", a.amount, lambda x, i, c: mk("ext", pool(w, x), sym("swap"), FALSE, *args(x, c["next"])))])
    ck.ob("amounts", "%s: amounts are chained" % sp.n, bool(r), "no value starts as the amount given and becomes the result of each operation's swap; carried: %s" % [(show(norm(i))[:100], show(norm(st))[:400]) for m, (i, st) in sp.s.mus.items()], sp.s.fn.span, sp.s.fn.path)
    if r:
        nxt = {LP: c["next"] for LP, c in r}
        sp.each("chain", "one swap for each operation", ops, lambda x, i: pool(w, x), "swap", lambda x, i: args(x, nxt.get(x.args[0], UNDEF)))
    more = [e for e in calls(sp.s, mut=True) if e.method is not sym("swap")] + [e for e in calls(sp.s, mut=True) if not e.loops]
    ck.ob("rest", "%s: no other calls" % sp.n, not more, "calls %s" % [show(e.method) for e in more], more[0].site if more else None)
    sp.frame("rest", [])
    sp.no_other("rest")
    ck.floor("guards", 4)
    ck.floor("amounts", 1)
    ck.floor("chain", 1)
    ck.floor("rest", 3)


@rule("P23")
def p23(ck):
    ck.rule("forward", "a simulated swap chains the pools' own quotes exactly as the swap chains the swaps, and reports the last result and each step's commission and spread")
    ck.rule("reverse", "a simulated reverse swap chains the pools' own reverse quotes from the last operation's wanted amount back, and reports the amount to offer and each step's commission and spread")
    ck.rule("accept", "only empty and unconnected lists are rejected")
    w = ck.w
    for name, rid, a1, a2, out in (("simulate_swap", "forward", "ask_asset", "offer_asset", "ask_amount"), ("simulate_reverse_swap", "reverse", "offer_asset", "ask_asset", "offer_amount")):
        sp = Spec(ck, MULTIHOP, name)
        sp.view = quiet
        a, s = sp.a, sp.s
        ops = a.operations
        ok = band(lt(I(0), vlen(ops)), linked(ops, a1, a2))
        sp.guard("accept", "not empty", lt(I(0), vlen(ops)))
        sp.guard("accept", "connected", ok)
        sp.total("accept", "connected operations are accepted", ok)
        xyk = None
        for t in [y for m, (i, st) in s.mus.items() for y in subterms(st)]:
            if t.op == "isv" and t.args[0] is a.pool_type:
                xyk = atom(t) if t.args[1] == "Xyk" else bnot(atom(t))
        if xyk is None:
            xyk = isv(a.pool_type, [p for p, d in tm.ADTS.items() if d["enum"] and sorted(v["n"] for v in d["variants"]) == ["Stable", "Xyk"]][0], "Xyk")

        def quote(x, n):
            # the stable pool is asked for its reverse quote by the token offered, the other one by the token wanted
            by = field(x, "offer_asset") if rid == "forward" else ite(xyk, field(x, "ask_asset"), field(x, "offer_asset"))
            return leafmap(by, lambda b: mk("ext", pool(w, x), sym(name), FALSE, b, n))
        part = lambda x, n, f: leafmap(quote(x, n), lambda q: field(q, f))
        label = lambda x: mk("ext", field(x, a2), sym("symbol"), FALSE)
        pair = lambda p, q: mk("agg", "tuple", None, ("0", "1"), p, q)
        nxt = lambda x, i, c: part(x, c["next"], out)
        base = [("next", a.amount, nxt),
                ("commissions", mk("vec"), lambda x, i, c: mk("vpush", c["commissions"], leafmap(quote(x, c["next"]), lambda q: pair(label(x), field(q, "commission_amount"))))),
                ("spreads", mk("vec"), lambda x, i, c: mk("vpush", c["spreads"], part(x, c["next"], "spread_amount")))]
        full = base + [("last", I(0), nxt)]
        rs = [r[1] for r in (sp.recur(ops, full), sp.recur(ops, base)) if r] + [sp.chain(ops, full)]

        def agrees(f, k):
            return any(k in c and same(s.pc, field(s.ret, f), c[k]) for c in rs)
        ck.ob(rid, "%s: reports the last amount" % sp.n, agrees(out, "next") or agrees(out, "last"), "returns %s" % show(norm(field(s.ret, out)))[:500], s.fn.span, s.fn.path)
        for f, k in (("commission_amounts", "commissions"), ("spread_amount", "spreads")):
            ck.ob(rid, "%s: reports the %s" % (sp.n, k), agrees(f, k), "returns %s" % show(norm(field(s.ret, f)))[:500], s.fn.span, s.fn.path)
    ck.floor("forward", 3)
    ck.floor("reverse", 3)
    ck.floor("accept", 6)
