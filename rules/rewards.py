"""Reward distribution (stake_rewards): accounting of points, withdrawals and funding."""
from engine.core import *
from engine.spec import *
from engine.terms import *

_CV = "curve::Curve::"
SHIFT, PER_POWER, DAY, FULL, YEAR = 32, 1000, 86400, 60, 31536000


class Rewards:
    def __init__(self, ck):
        w = self.w = ck.w
        i = lambda p: w.init_slot(SREW, p)
        self.token, self.staking, self.min_bond, self.min_reward, self.limit, self.admin = i("reward_token"), i("staking_contract"), i("min_bond"), i("min_reward"), i("max_complexity"), i("admin")
        s = ck.S(SREW, "query_distributed_reward")
        t = subst(w.q(SREW, "query_distributed_reward"), {Args(s).asset: self.token})
        if t.op != "f" or slot_of(t) is None:
            raise Missing("storage of the distribution")
        self.dist = payload(slot_of(t))
        self.total = t
        self.curve = self.adj = None
        for (cls, key), v in ck.S(SREW, "initialize").store.items():
            key = subst(key, {Args(ck.S(SREW, "initialize")).reward_token: self.token})
            if payload(v).op == "agg" and payload(v).args[:2] == ("curve::Curve", "Constant"):
                self.curve = payload(mk("get", cls, key, FALSE))
        q = ck.S(SREW, "query_withdrawable_reward")
        for x in subterms(q.ret):
            if x.op == "get" and any(y is Args(q).user for y in subterms(x.args[1])):
                self.adj = (x, Args(q).user)
        if self.curve is None or self.adj is None:
            raise Missing("storage of the reward curve and of the users' adjustments")

    def D(self, f):
        return field(self.dist, f)

    def A(self, u, f):
        g = subst(self.adj[0], {self.adj[1]: u})
        return ite(is_some(g), field(payload(g), f), I(0))

    def power(self, x):
        return ite(lt(x, self.min_bond), I(0), pdiv(x, I(PER_POWER)))

    def pending(self, u, stakes):
        """what u can withdraw now"""
        points = padd(pmul(self.D("shares_per_point"), self.power(field(stakes, "total_stake"))), self.A(u, "shares_correction"))
        accrued = psub(mk("bop", "Shr", points, I(SHIFT)), self.A(u, "withdrawn_rewards"))
        b = mk("bv", 1)
        days = pdiv(psub(mk("timestamp"), field(b, "stake_timestamp")), I(DAY))
        got = mk_sum(field(stakes, "stakes"), pmul(ite(lt(days, I(FULL)), days, I(FULL)), field(b, "stake")), 1)
        full = pmul(I(FULL), mk_sum(field(stakes, "stakes"), field(b, "stake"), 1))
        mult = ite(eqn(full, I(0)), I(0), pdiv(pmul(got, I(ONE18)), full))
        return pdiv(pmul(accrued, mult), I(ONE18))


def keeps(sp, rid, R, u, D=(), A=()):
    for f in ("shares_per_point", "shares_leftover", "distributed_total", "withdrawable_total"):
        if f not in D:
            sp.final(rid, "%s stays" % f, R.D(f), R.D(f))
    if u is not None:
        for f in ("shares_correction", "withdrawn_rewards"):
            if f not in A:
                sp.final(rid, "the user's %s stay" % f, R.A(u, f), R.A(u, f))


@rule("P16")
def p16(ck):
    ck.rule("distribute", "a distribution shares out exactly what the contract holds, is not yet owed and not locked by the funding curve, carrying the indivisible rest over to the next")
    ck.rule("withdraw", "a withdrawal pays the user exactly the reported reward and records exactly that as withdrawn and no longer owed")
    ck.rule("power", "when a user's stake changes the correction keeps what was already accrued, to the last share, unchanged")
    ck.rule("fund", "funding takes exactly the amount from the administrator and adds its linear unlocking between start and end to the curve, or replaces a curve that has ended")
    ck.rule("report", "queries report exactly the withdrawable reward, the total distributed, and what is left undistributed")
    ck.rule("frame", "nothing else is stored or called")
    R = Rewards(ck)
    w = ck.w
    bal = mk("ext", R.token, sym("balance"), FALSE, SELF)
    # withdrawal
    sp = Spec(ck, SREW, "withdraw_rewards")
    u, st = sp.a.sender, sp.a.stakes
    p = R.pending(u, st)
    sp.calls("withdraw", [transfer("pays the pending reward", R.token, SELF, u, p, bnot(eqn(p, I(0))))])
    sp.final("withdraw", "recorded as withdrawn", R.A(u, "withdrawn_rewards"), padd(R.A(u, "withdrawn_rewards"), p))
    sp.final("withdraw", "no longer owed", R.D("withdrawable_total"), psub(R.D("withdrawable_total"), p))
    keeps(sp, "withdraw", R, u, ["withdrawable_total"], ["withdrawn_rewards"])
    sp.frame("frame", [R.dist, payload(subst(R.adj[0], {R.adj[1]: u}))])
    sp.auth("withdraw", R.staking, "called by the staking contract")
    nonneg = lambda stakes: bnot(mk_any(field(stakes, "stakes"), lt(field(mk("bv", 1), "stake"), I(0)), 1))
    sp.total("withdraw", "not rejected", band(nonneg(st), le(I(0), p)))
    sp = Spec(ck, SREW, "query_withdrawable_reward")
    p = R.pending(sp.a.user, sp.a.stakes)
    ck.ob("report", "%s: the reward a withdrawal pays" % sp.n, same(sp.pc, field(sp.s.ret, "reward_amount"), p), "reports %s, expected %s" % (show(norm(field(sp.s.ret, "reward_amount")))[:900], show(norm(p))[:900]), sp.s.fn.span, sp.s.fn.path)
    ck.ob("report", "%s: of the reward token" % sp.n, same(sp.pc, field(sp.s.ret, "reward_address"), R.token), "reports %s" % show(norm(field(sp.s.ret, "reward_address")))[:300], sp.s.fn.span, sp.s.fn.path)
    q = ck.S(SREW, "query_undistributed_reward")
    a = Args(q)
    want = subst(psub(bal, R.D("withdrawable_total")), {R.token: a.asset})
    ck.ob("report", "%s: what is not owed" % sname(q), same(q.pc, q.ret, want), "reports %s" % show(norm(q.ret))[:300], q.fn.span, q.fn.path)
    # the yearly projection
    sp = Spec(ck, SREW, "query_annualized_reward")
    now, end = mk("timestamp"), mk("call", _CV + "end", R.curve)
    left = psub(payload(end), now)
    val = lambda t: mk("call", _CV + "value", R.curve, t)
    has = band(is_some(slot_of(R.curve)), band(is_some(end), lt(now, payload(end))))
    year = psub(val(now), val(padd(now, I(YEAR))))
    got = norm(field(sp.s.ret, "amount"))
    asset = field(sp.s.ret, "asset")
    pw = R.power(sp.a.total_staked_amount)
    out = {x.args[1].id: x for x in subterms(got) if x.op == "call" and str(x.args[0]).endswith("Decimal::to_string")}
    ok = False
    for x in out.values():
        sh = lambda y: mk("call", x.args[0], pdiv(y, pmul(pw, R.D("shares_per_point"))))
        z = mk("str", "0")
        for k in (pmul(I(ONE18), year), mk("call", "soroban_decimal::decimal::Decimal::from_atomics", year, I(0))):
            cases = [(band(has, le(I(YEAR), left)), k), (band(has, lt(left, I(YEAR))), pdiv(pmul(I(YEAR * ONE18), val(now)), left)), (bnot(has), I(0))]
            ok = ok or all(same(band(sp.pc, h), got, ite(eqn(pw, I(0)), z, sh(y))) for h, y in cases)
    ck.ob("report", "%s: what unlocks within a year, per staking point" % sp.n, ok, "reports %s" % show(got)[:1500], sp.s.fn.span, sp.s.fn.path)
    ck.ob("report", "%s: of the reward token" % sp.n, same(sp.pc, asset, R.token), "reports %s" % show(norm(asset))[:300], sp.s.fn.span, sp.s.fn.path)
    # distribution
    sp = Spec(ck, SREW, "distribute_rewards")
    sp.auth("distribute", R.staking, "called by the staking contract")
    pw = R.power(sp.a.total_staked_amount)
    amount = psub(psub(bal, R.D("withdrawable_total")), mk("call", _CV + "value", R.curve, mk("timestamp")))
    some = bnot(eqn(pw, I(0)))
    points = padd(mk("bop", "Shl", amount, I(SHIFT)), R.D("shares_leftover"))
    go = band(some, bnot(eqn(amount, I(0))))
    sp.final("distribute", "each point's worth", R.D("shares_per_point"), ite(go, padd(R.D("shares_per_point"), pdiv(points, pw)), R.D("shares_per_point")))
    sp.final("distribute", "the rest carries over", R.D("shares_leftover"), ite(go, prem(points, pw), R.D("shares_leftover")))
    for f in ("distributed_total", "withdrawable_total"):
        sp.final("distribute", "%s grows by the amount" % f, R.D(f), ite(some, padd(R.D(f), amount), R.D(f)))
    sp.total("distribute", "not rejected", le(I(0), sp.a.total_staked_amount))
    sp.calls("frame", [])
    sp.frame("frame", [R.dist])
    # changes of stake
    for name in ("add_user", "calculate_bond", "calculate_unbond"):
        sp = Spec(ck, SREW, name)
        a = sp.a
        u = a.user if name == "add_user" else a.sender
        total = field(a.stakes, "total_stake")
        lst = field(a.stakes, "stakes")
        last = payload(mk("vget", lst, psub(vlen(lst), I(1))))
        before, after = {"add_user": (I(0), R.power(total)), "calculate_bond": (R.power(total), R.power(padd(total, field(last, "stake")))),
                         "calculate_unbond": (R.power(total), R.power(psub(total, a.removed_stake) if name == "calculate_unbond" else total))}[name]
        sp.auth("power", R.staking, "called by the staking contract")
        claim = lambda pw, corr: padd(pmul(R.D("shares_per_point"), pw), corr)
        sp.total("power", "not rejected", {"add_user": TRUE, "calculate_bond": is_some(mk("vget", lst, psub(vlen(lst), I(1)))), "calculate_unbond": band(nonneg(a.stakes), le(I(0), R.pending(u, a.stakes)))}[name])
        new = post(sp.s, R.A(u, "shares_correction"))
        ok = same(sp.pc, claim(after, new), claim(before, R.A(u, "shares_correction")))
        ck.ob("power", "%s: keeps what is accrued" % sp.n, ok, "the correction becomes %s" % show(norm(new))[:900], sp.s.fn.span, sp.s.fn.path)
        if name != "calculate_unbond":
            keeps(sp, "power", R, u, (), ["shares_correction"])
            sp.calls("frame", [])
            sp.frame("frame", [payload(subst(R.adj[0], {R.adj[1]: u}))])
            continue
        sp.auth("power", u, "authorised by the user")
        p = R.pending(u, a.stakes)
        sp.calls("withdraw", [transfer("pays the pending reward", R.token, SELF, u, p, bnot(eqn(p, I(0))))])
        sp.final("withdraw", "recorded as withdrawn", R.A(u, "withdrawn_rewards"), padd(R.A(u, "withdrawn_rewards"), p))
        sp.final("withdraw", "no longer owed", R.D("withdrawable_total"), psub(R.D("withdrawable_total"), p))
        keeps(sp, "withdraw", R, None, ["withdrawable_total"])
        sp.frame("frame", [R.dist, payload(subst(R.adj[0], {R.adj[1]: u}))])
    # funding
    sp = Spec(ck, SREW, "fund_distribution")
    a = sp.a
    n, start = a.token_amount, a.start_time
    sp.auth("fund", R.admin, "authorised by the administrator")
    sp.auth("fund", R.staking, "called by the staking contract")
    sp.guard("fund", "does not start in the past", le(mk("timestamp"), start))
    sp.guard("fund", "at least the minimum reward", le(R.min_reward, n))
    sp.calls("fund", [transfer("takes the amount from the administrator", R.token, R.admin, SELF, n)])
    tup = lambda x, y: mk("agg", "tuple", None, ("0", "1"), x, y)
    lin = mk("call", _CV + "saturating_linear", tup(start, n), tup(padd(start, a.distribution_duration), I(0)))
    end = mk("call", _CV + "end", R.curve)
    over = band(is_some(end), lt(payload(end), mk("timestamp")))
    both = mk("call", _CV + "combine", R.curve, lin)
    sp.final("fund", "the curve unlocks the amount as well", R.curve, ite(over, lin, both))
    sp.guard("fund", "combined curves stay simple enough", bor(over, isv(mk("call", _CV + "validate_complexity", both, R.limit), "core::result::Result", "Ok")))
    rg = mk("call", _CV + "range", lin)
    simple = bor(over, isv(mk("call", _CV + "validate_complexity", both, R.limit), "core::result::Result", "Ok"))
    sp.total("fund", "not rejected otherwise", band(band(le(mk("timestamp"), start), band(le(R.min_reward, n), le(I(0), n))), band(simple, band(eqn(field(rg, "0"), I(0)), eqn(field(rg, "1"), n)))))
    sp.frame("frame", [R.curve])
    for s in w.of(SREW):
        if s.name in ("initialize", "withdraw_rewards", "calculate_unbond", "distribute_rewards"):
            continue
        bad = [e for e in sets(s) if (e.cls, e.key) == slot_of(R.dist).args[:2]]
        ck.ob("frame", "%s: keeps the distribution" % sname(s), not bad, "writes the distribution", bad[0].site if bad else s.fn.span, s.fn.path)
    ck.floor("distribute", 5)
    ck.floor("withdraw", 8)
    ck.floor("power", 15)
    ck.floor("fund", 7)
    ck.floor("report", 5)
    ck.floor("frame", 10)
