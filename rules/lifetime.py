"""Lifetime of what the ledger stores: nothing a contract still needs is left to be archived."""
from engine.core import *
from engine.spec import *
from engine.terms import *

DAY = 17280
INSTANCE, RECORD = (6 * DAY, 7 * DAY), (29 * DAY, 30 * DAY)
EXEMPT = {TOKEN: ("decimals", "name", "symbol")}


@rule("P27")
def p27(ck):
    ck.rule("instance", "every successful call, other than initialisation, code replacement and the token's fixed metadata, keeps the contract itself alive for at least six days")
    ck.rule("record", "every persistent record a successful call reads or writes stays alive for at least twenty-nine days")
    ck.rule("allowance", "an allowance stays alive up to the ledger it was granted until, and no longer")
    ck.rule("window", "an extension never asks for a threshold beyond its target: the host refuses it and the call that made it fails")
    w = ck.w
    for c in CONTRACTS:
        for s in w.of(c):
            ck.analysed.add((c, s.name))
            if s.pc is FALSE:
                continue
            ttl = [e for e in s.events if e.kind == "ttl"]
            seen = set()
            for e in ttl:
                h = ctx(s, e)
                k = (e.site, e.lo, e.hi, h)
                if h is FALSE or k in seen:
                    continue
                seen.add(k)
                ck.ob("window", "%s: %s" % (sname(s), e.cls), entails(h, le(e.lo, e.hi)), "extends a lifetime with a threshold beyond the target", e.site, e.fn)
            if s.name not in INIT[c] and s.name not in EXEMPT.get(c, ()) and not [e for e in s.events if e.kind == "upgrade"]:
                cov = FALSE
                for e in ttl:
                    if e.cls == "instance" and enough(s, e, INSTANCE):
                        cov = bor(cov, forget_loops(e.pc, e.loops))
                ck.ob("instance", sname(s), entails(s.pc, cov), "can return without extending the contract's own lifetime", s.fn.span, s.fn.path)
            seen = set()
            for e in s.events:
                if e.kind not in ("get", "set") or e.cls not in ("persistent", "temporary"):
                    continue
                h = ctx(s, e)
                if e.kind == "get":
                    h = band(h, is_some(mk("get", e.cls, e.key, FALSE)))
                k = (e.kind, e.cls, e.key, h)
                if k in seen or h is FALSE:
                    continue
                seen.add(k)
                if e.cls == "temporary":
                    if e.kind == "set":
                        allowance(ck, s, e, h, ttl)
                    continue
                cov = FALSE
                for t in ttl:
                    if t.cls == e.cls and enough(s, t, RECORD):
                        if t.key is e.key or same(h, t.key, e.key):
                            cov = bor(cov, t.pc)
                ck.ob("record", "%s: %s" % (sname(s), show(e.key)[:60]), entails(h, cov) or entails(h, forget(cov, ttl)), "can return after it %s this record without extending its lifetime" % ("reads" if e.kind == "get" else "writes"), e.site, e.fn)
    ck.floor("instance", 72)
    ck.floor("record", 130)
    ck.floor("allowance", 1)
    ck.floor("window", 120)


def forget(c, ttl):
    for t in ttl:
        if t.loops:
            c = forget_loops(c, t.loops)
    return c


def enough(s, e, b):
    h = ctx(s, e)
    return h is not FALSE and entails(h, band(band(le(I(b[0]), e.lo), le(I(b[1]), e.hi)), le(e.lo, e.hi)))


def allowance(ck, s, e, h, ttl):
    """whenever something is left to spend, the record lives exactly until the ledger it names"""
    until, left = field(e.val, "expiration_ledger"), field(e.val, "amount")
    cov, bad = FALSE, None
    for t in ttl:
        if t.cls != e.cls or not (t.key is e.key or same(h, t.key, e.key)):
            continue
        g = band(h, t.pc)
        if sat(g) is None:
            continue
        life = psub(until, mk("seq"))
        if same(g, t.lo, life) and same(g, t.hi, life):
            cov = bor(cov, t.pc)
        else:
            bad = t
    h = band(h, band(lt(I(0), left), lt(mk("seq"), until)))
    ck.ob("allowance", "%s: %s" % (sname(s), show(e.key)[:40]), bad is None and entails(h, cov), "the allowance does not live until it expires", (bad or e).site, e.fn)
