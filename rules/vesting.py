"""Vesting: schedules, claims, minter."""
from engine.core import *
from engine.spec import *
from engine.terms import *

_CV = "curve::Curve::"
_PL = "curve::PiecewiseLinear::"


def curve(c, v):
    return vfield(c, v, "0")


def kind(c, v):
    return isv(c, "curve::Curve", v)


def starts(c):
    """what a curve starts from (P30 checks the curve's own functions)"""
    return ite(kind(c, "SaturatingLinear"), field(curve(c, "SaturatingLinear"), "min_y"), payload(mk("call", _PL + "first_value", curve(c, "PiecewiseLinear"))))


def ends(c):
    return ite(kind(c, "SaturatingLinear"), field(curve(c, "SaturatingLinear"), "max_y"), payload(mk("call", _PL + "end_value", curve(c, "PiecewiseLinear"))))


class Vest:
    def __init__(self, ck):
        w = self.w = ck.w
        self.admin = w.init_slot(VESTING, "admin")
        self.token = field(w.init_slot(VESTING, "vesting_token"), "address")
        self.complexity = w.init_slot(VESTING, "max_vesting_complexity")

    def info(self, u, i):
        a = Args(self.w.S(VESTING, "query_vesting_info"))
        return subst(self.w.q(VESTING, "query_vesting_info"), {a.address: u, a.index: i})


@rule("P17")
def p17(ck):
    ck.rule("guards", "only non-empty lists of schedules for distinct recipients, with decreasing, non-constant curves that end at zero and are simple enough, are accepted, and from the administrator only")
    ck.rule("fund", "exactly the sum of the starting values of all the schedules moves from the administrator into the contract, in one transfer")
    ck.rule("record", "every schedule is recorded, unclaimed, for its recipient, at the first index that recipient has free; no other record changes")
    V = Vest(ck)
    sp = Spec(ck, VESTING, "create_vesting_schedules")
    vs = sp.a.vesting_schedules
    sp.auth("guards", V.admin, "authorised by the administrator")
    b = mk("bv", 1)
    c = field(b, "curve")
    sp.guard("guards", "at least one schedule", lt(I(0), vlen(vs)))
    dup = mk_any(vs, mk_any(mk("it", "take", vs, mk("bvi", 2)), eq(field(mk("bv", 1), "recipient"), field(mk("bv", 2), "recipient")), 1), 2)
    sp.guard("guards", "distinct recipients", bnot(dup))
    conds = [("decreasing curves", isv(mk("call", _CV + "validate_monotonic_decreasing", c), "core::result::Result", "Ok")), ("no constant curve", bnot(kind(c, "Constant"))),
             ("curves end at zero", bimp(bnot(kind(c, "Constant")), eqn(ends(c), I(0)))), ("curves are simple enough", lt(mk("call", _CV + "size", c), V.complexity))]
    every = TRUE
    for n, q in conds:
        every = band(every, q)
        sp.guard("guards", n, bnot(mk_any(vs, bnot(q), 1)))
    total = mk_sum(vs, starts(c), 1)
    ext = mk("ext", V.token, sym("balance"), FALSE, V.admin)
    known = bnot(mk_any(vs, band(kind(c, "PiecewiseLinear"), bor(bnot(is_some(mk("call", _PL + "first_value", curve(c, "PiecewiseLinear")))), bnot(is_some(mk("call", _PL + "end_value", curve(c, "PiecewiseLinear")))))), 1))
    sp.total("guards", "valid lists the administrator can pay for are accepted", band(band(band(lt(I(0), vlen(vs)), bnot(dup)), known), band(bnot(mk_any(vs, bnot(every), 1)), le(total, ext))))
    sp.calls("fund", [transfer("moves the sum into the contract", V.token, V.admin, SELF, total)])

    def free(u):
        return mk_first(I(0), bnot(is_some(slot_of(V.info(u, mk("bv", 1))))), 1)
    rec = lambda x: struct(VESTING, balance=starts(field(x, "curve")), recipient=field(x, "recipient"), schedule=field(x, "curve"))
    sp.each_set("record", "one record per schedule", vs, lambda x, i: V.info(field(x, "recipient"), free(field(x, "recipient"))), lambda x, i: rec(x))
    more = [e for e in sets(sp.s) if not e.loops]
    ck.ob("record", "%s: writes nothing else" % sp.n, not more, "also writes %s" % [show(e.key) for e in more], more[0].site if more else None)
    ck.floor("guards", 8)
    ck.floor("fund", 1)
    ck.floor("record", 2)


@rule("P18")
def p18(ck):
    ck.rule("pay", "a claim pays the claimant exactly what the claimant's schedule has released so far and was not yet paid, and nothing else moves")
    ck.rule("record", "the record then holds exactly what is still locked; schedule, recipient, and all other records stay; no other call changes an existing record")
    ck.rule("guards", "the claimant authorised the claim, and it is rejected only if there is no such schedule or nothing to claim")
    ck.rule("report", "the queries report the records and exactly the amount a claim would pay")
    w = ck.w
    V = Vest(ck)
    sp = Spec(ck, VESTING, "claim")
    u, i = sp.a.sender, sp.a.index
    r = V.info(u, i)
    bal = field(r, "balance")
    locked = mk("call", _CV + "value", field(r, "schedule"), mk("timestamp"))
    sp.auth("guards", u, "authorised by the claimant")
    sp.guard("guards", "there is something to claim", lt(locked, bal))
    sp.total("guards", "accepted whenever there is something to claim", lt(locked, bal))
    sp.calls("pay", [transfer("pays what was released", V.token, SELF, u, psub(bal, locked))])
    sp.final("record", "what is locked remains", bal, locked)
    for f in ("recipient", "schedule"):
        sp.final("record", "%s stays" % f, field(r, f), field(r, f))
    sp.frame("record", [r])
    g = slot_of(r)
    for s in w.of(VESTING):
        if s.name in ("claim", "create_vesting_schedules"):
            continue
        bad = [e for e in sets(s) if e.cls == g.args[0] and e.key.op == "agg" and g.args[1].op == "agg" and e.key.args[:2] == g.args[1].args[:2]]
        ck.ob("record", "%s: keeps the records" % sname(s), not bad, "writes %s" % [show(e.key) for e in bad], bad[0].site if bad else s.fn.span, s.fn.path)
    q = ck.S(VESTING, "query_available_to_claim")
    a = Args(q)
    r = V.info(a.address, a.index)
    ck.ob("report", "%s: equals what a claim pays" % sname(q), same(q.pc, q.ret, psub(field(r, "balance"), mk("call", _CV + "value", field(r, "schedule"), mk("timestamp")))), "returns %s" % show(norm(q.ret))[:300], q.fn.span, q.fn.path)
    q = ck.S(VESTING, "query_all_vesting_info")
    a = Args(q)
    n = mk_first(I(0), bnot(is_some(slot_of(V.info(a.address, mk("bv", 1))))), 1)
    want = mk_fold(mk("it", "upto", I(0), n), mk("vec"), mk("vpush", mk("acc", 1), V.info(a.address, mk("bv", 1))), 1)
    ck.ob("report", "%s: lists every record" % sname(q), same(q.pc, q.ret, want), "returns %s" % show(norm(q.ret))[:300], q.fn.span, q.fn.path)
    for n, who in (("query_balance", None), ("query_vesting_contract_balance", SELF)):
        q = ck.S(VESTING, n)
        who = who or Args(q).address
        ck.ob("report", "%s: the token's balance" % sname(q), same(q.pc, q.ret, mk("ext", V.token, sym("balance"), FALSE, who)), "returns %s" % show(norm(q.ret))[:300], q.fn.span, q.fn.path)
    ck.floor("pay", 1)
    ck.floor("record", 10)
    ck.floor("guards", 3)
    ck.floor("report", 4)


@rule("P19")
def p19(ck):
    ck.rule("mint", "minting creates exactly the amount, for the vesting contract itself, only for the minter and within the remaining capacity, which shrinks by exactly the amount")
    ck.rule("minter", "only the minter (the administrator while there is none) names another minter, who takes over the remaining capacity; only the administrator sets the capacity")
    ck.rule("burn", "a burn destroys exactly the amount of the caller's own tokens")
    ck.rule("rest", "nothing else in storage changes, and valid calls are not rejected")
    V = Vest(ck)
    w = ck.w
    minter = w.q(VESTING, "query_minter")
    m = slot_of(minter)
    who, cap = field(minter, "address"), field(minter, "mint_capacity")
    has = is_some(m)
    sp = Spec(ck, VESTING, "mint")
    u, n = sp.a.sender, sp.a.amount
    sp.auth("mint", u, "authorised by the caller")
    ok = band(band(has, eq(u, who)), band(lt(I(0), n), le(n, cap)))
    sp.guard("mint", "by the minter, a positive amount within the capacity", ok)
    sp.total("rest", "valid mints are accepted", ok)
    sp.calls("mint", [X("mints to itself", V.token, "mint", [SELF, n])])
    sp.final("mint", "the capacity shrinks by the amount", cap, psub(cap, n))
    sp.final("mint", "the minter stays", who, who)
    sp.frame("rest", [minter])
    sp = Spec(ck, VESTING, "update_minter")
    u, x = sp.a.sender, sp.a.new_minter
    sp.auth("minter", u, "authorised by the caller")
    ok = ite(has, eq(u, who), eq(u, V.admin))
    sp.guard("minter", "by the minter, or the administrator while there is none", ok)
    sp.total("rest", "valid changes of minter are accepted", ok)
    sp.final("minter", "the new minter is recorded", who, x)
    sp.final("minter", "the capacity carries over", cap, ite(has, cap, I(0)))
    sp.frame("rest", [minter])
    sp.calls("rest", [])
    sp = Spec(ck, VESTING, "update_minter_capacity")
    u, n = sp.a.sender, sp.a.new_capacity
    sp.auth("minter", u, "authorised by the caller")
    ok = band(has, eq(u, V.admin))
    sp.guard("minter", "by the administrator, for an existing minter", ok)
    sp.total("rest", "valid changes of the capacity are accepted", ok)
    sp.final("minter", "the capacity is as asked", cap, n)
    sp.final("minter", "the minter stays", who, who)
    sp.frame("rest", [minter])
    sp.calls("rest", [])
    sp = Spec(ck, VESTING, "burn")
    u, n = sp.a.sender, sp.a.amount
    sp.auth("burn", u, "authorised by the caller")
    sp.guard("burn", "a positive amount", lt(I(0), n))
    sp.total("rest", "valid burns are accepted", lt(I(0), n))
    sp.calls("burn", [X("burns the caller's tokens", V.token, "burn", [u, n])])
    sp.frame("rest", [])
    for s in w.of(VESTING):
        if s.name in ("mint", "update_minter", "update_minter_capacity", "initialize_with_minter"):
            continue
        bad = [e for e in sets(s) if (e.cls, e.key) == m.args[:2]]
        ck.ob("rest", "%s: keeps the minter" % sname(s), not bad, "writes the minter", bad[0].site if bad else s.fn.span, s.fn.path)
    sp = Spec(ck, VESTING, "initialize_with_minter")
    sp.final("minter", "the first minter and capacity are as given", minter, sp.a.minter_info)
    ck.floor("mint", 5)
    ck.floor("minter", 9)
    ck.floor("burn", 3)
    ck.floor("rest", 16)
