"""The share token: balances, allowances, metadata."""
from engine.core import *
from engine.spec import *
from engine.terms import *


def query(w, c, name, **by):
    """what query `name` returns for the given arguments"""
    a = Args(w.S(c, name))
    return subst(w.q(c, name), {getattr(a, k): v for k, v in by.items()})


@rule("P25")
def p25(ck):
    w = ck.w
    ck.rule("move", "a transfer takes exactly the amount from the payer and gives exactly it to the payee; a burn takes exactly the amount; a mint adds exactly the amount; no other balance changes")
    ck.rule("covered", "no movement exceeds the payer's balance or is negative")
    ck.rule("allowance", "a third party spends only within an unexpired allowance, which shrinks by exactly the amount; approving stores exactly the amount and expiry")
    ck.rule("consent", "the payer (or, for delegated calls, the spender) authorised the call")
    ck.rule("rest", "nothing else in storage changes, and a covered, non-negative movement is not rejected")
    ck.rule("metadata", "name, symbol and decimals are those given at construction, decimals at most 18, and no call changes them")
    bal = lambda x: query(w, TOKEN, "balance", id=x)
    allow = lambda f, sp: query(w, TOKEN, "allowance", **{"from": f, "spender": sp})
    for n in ("mint", "transfer", "transfer_from", "burn", "burn_from"):
        sp = Spec(ck, TOKEN, n)
        a = sp.a
        frm, to, amt, spender = getattr(a, "from", None), getattr(a, "to", None), a.amount, getattr(a, "spender", None)
        ok = le(I(0), amt)
        sp.guard("covered", "the amount is not negative", ok)
        slots = []
        both_ = eq(frm, to) if frm is not None and to is not None else FALSE
        if frm is not None:
            sp.guard("covered", "the payer holds the amount", le(amt, bal(frm)))
            ok = band(ok, le(amt, bal(frm)))
            sp.final("move", "the payer pays", bal(frm), ite(both_, bal(frm), psub(bal(frm), amt)))
            slots.append(slot(w, bal(frm)))
        if to is not None:
            sp.final("move", "the payee receives", bal(to), ite(both_, bal(to), padd(bal(to), amt)))
            slots.append(slot(w, bal(to)))
        if spender is not None:
            al = allow(frm, spender)
            sp.auth("consent", spender, "authorised by the spender")
            sp.guard("allowance", "within the allowance", le(amt, al))
            ok = band(ok, le(amt, al))
            sp.final("allowance", "the allowance shrinks by the amount", al, psub(al, amt), band(sp.pc, lt(I(0), amt)))
            sp.final("allowance", "a zero movement leaves the allowance", al, al, band(sp.pc, eqn(amt, I(0))))
            slots.append(slot(w, al))
        elif frm is not None:
            sp.auth("consent", frm, "authorised by the payer")
        sp.frame("rest", slots)
        sp.total("rest", "not rejected when covered", ok)
        sp.calls("rest", [])
    sp = Spec(ck, TOKEN, "approve")
    a = sp.a
    al = allow(getattr(a, "from"), a.spender)
    sp.auth("consent", getattr(a, "from"), "authorised by the owner")
    sp.guard("allowance", "not negative", le(I(0), a.amount))
    sp.guard("allowance", "a positive allowance is not already expired", bor(le(a.amount, I(0)), le(mk("seq"), a.expiration_ledger)))
    sp.final("allowance", "the approved amount", al, a.amount, band(sp.pc, le(mk("seq"), a.expiration_ledger)))
    sp.final("allowance", "an expired allowance is worth nothing", al, I(0), band(sp.pc, lt(a.expiration_ledger, mk("seq"))))
    sp.frame("rest", [slot(w, al)])
    sp.total("rest", "valid approvals succeed", band(le(I(0), a.amount), bor(le(a.amount, I(0)), le(mk("seq"), a.expiration_ledger))))
    for t, q in (("balance", w.q(TOKEN, "balance")), ("allowance", w.q(TOKEN, "allowance"))):
        g = slot(w, q).args[0]
        s = ck.S(TOKEN, t)
        ck.ob("allowance" if t == "allowance" else "move", "%s: nothing where nothing is recorded" % t, same(bnot(is_some(g)), q, I(0)), "is %s" % show(simp(q, bnot(is_some(g))))[:300], s.fn.span, s.fn.path)
    # metadata
    c = ck.S(TOKEN, "__constructor")
    a = Args(c)
    ck.ob("metadata", "decimals at most 18", c.pc is not FALSE and entails(c.pc, le(a.decimal, I(18))), "more than 18 decimals are accepted", c.fn.span, c.fn.path)
    loc = None
    for (cls, key), v in c.store.items():
        p = simp(payload(v), c.pc)
        if p.op == "agg" and any(x is a.symbol for x in p.args[3:]):
            loc = (cls, key, p)
    if loc is None:
        raise Missing("storage location of the token's metadata")
    byv = {x.id: n for n, x in zip(loc[2].args[2], loc[2].args[3:])}
    for n, p in (("decimals", "decimal"), ("name", "name"), ("symbol", "symbol")):
        s = ck.S(TOKEN, n)
        fld = byv.get(getattr(a, p).id)
        direct = fld is not None and (s.ret is field(payload(mk("get", loc[0], loc[1], FALSE)), fld) )
        ck.ob("metadata", "%s reports the constructor's value" % n, direct, "returns %s" % show(s.ret)[:200], s.fn.span, s.fn.path)
    for s in w.of(TOKEN):
        for e in sets(s):
            if s.name != "__constructor":
                ck.ob("metadata", "%s does not change the metadata" % sname(s), not (e.cls == loc[0] and (e.key is loc[1] or e.key.op != "agg")), "writes the metadata", e.site, e.fn)
    ck.floor("move", 7)
    ck.floor("covered", 9)
    ck.floor("allowance", 9)
    ck.floor("consent", 5)
    ck.floor("rest", 12)
    ck.floor("metadata", 5)


def slot(w, t):
    for x in subterms(t):
        if x.op == "get":
            return payload(mk("get", x.args[0], x.args[1], FALSE))
    raise Missing("storage location of %s" % show(t))
