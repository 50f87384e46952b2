"""Staking: bonding, reward funding and reward withdrawal."""
from engine.core import *
from engine.spec import *
from engine.terms import *

DAY, FULL = 86400, 60


class Stake:
    """anchors: what the queries report, and the storage it comes from"""

    def __init__(self, ck):
        w = self.w = ck.w
        self.lp, self.min_bond = w.init_slot(STAKE, "lp_token"), w.init_slot(STAKE, "min_bond")
        self.mgr, self.owner = w.init_slot(STAKE, "manager"), w.init_slot(STAKE, "owner")
        self.total = w.q(STAKE, "query_total_staked")
        c = ck.S(STAKE, "create_distribution_flow")
        a = Args(c)
        self.dist = self.hist_key = None
        for (cls, key), v in c.store.items():
            old = mk("get", cls, key, FALSE)
            if any(x is a.asset for x in subterms(key)):
                self.hist_key = (cls, key, a.asset)
            else:
                self.dist = ite(is_some(old), payload(old), mk("vec"))
        if self.dist is None or self.hist_key is None:
            raise Missing("storage of the distributions and their histories")
        self.staked = None
        for (cls, key), v in ck.S(STAKE, "initialize").store.items():
            if payload(v) is mk("map"):
                self.staked = payload(mk("get", cls, key, FALSE))
        if self.staked is None:
            raise Missing("storage of the history of total stakes")

    def of(self, u, f):
        return subst(self.w.q(STAKE, "query_staked", f), {Args(self.w.S(STAKE, "query_staked")).address: u})

    def hist(self, asset):
        cls, key, p = self.hist_key
        return payload(mk("get", cls, subst(key, {p: asset}), FALSE))

    def pending(self, u, asset):
        """reward of u in asset at the current time"""
        H, T, k, st = self.hist(asset), self.staked, mk("bv", 2), mk("bv", 1)
        o = mget(T, k)
        share = pdiv(pmul(field(st, "stake"), mk("mval", H, k)), payload(o))
        since = psub(k, field(st, "stake_timestamp"))
        days = ite(lt(since, I(0)), I(0), pdiv(since, I(DAY)))
        mult = ite(le(I(FULL), days), I(ONE18), pdiv(pmul(days, I(ONE18)), I(FULL)))
        inner = mk_sum(self.of(u, "stakes"), pdiv(pmul(share, mult), I(ONE18)), 1)
        due = band(band(lt(self.of(u, "last_reward_time"), k), le(k, mk("timestamp"))), band(is_some(o), bnot(eqn(payload(o), I(0)))))
        return mk_sum(mkeys(H), ite(due, inner, I(0)), 2)

    def slot(self, t):
        for x in subterms(t):
            if x.op == "get":
                return payload(mk("get", x.args[0], x.args[1], FALSE))
        raise Missing("storage location of %s" % show(t)[:200])


@rule("P13")
def p13(ck):
    ck.rule("bond", "bonding takes exactly the amount of the pool's shares from the staker and records one new stake of that amount at the current time")
    ck.rule("unbond", "unbonding removes exactly one stake of that amount and time of the staker's own and returns exactly that many shares to the staker")
    ck.rule("totals", "the staker's total and the contract's total change by exactly the amount bonded or unbonded")
    ck.rule("bounds", "only amounts below the minimum bond and stakes that do not exist are rejected")
    ck.rule("consent", "the staker authorised the call")
    ck.rule("others", "nothing else about any staker changes, in these calls or any other; a new staker starts with nothing")
    S = Stake(ck)
    sp = Spec(ck, STAKE, "bond")
    u, n = sp.a.sender, sp.a.tokens
    sp.auth("consent", u, "authorised by the staker")
    sp.guard("bounds", "at least the minimum bond", le(S.min_bond, n))
    sp.total("bounds", "bonds of at least the minimum are accepted", le(S.min_bond, n))
    sp.calls("bond", [transfer("takes the shares", S.lp, u, SELF, n)])
    sp.final("bond", "the new stake is recorded", S.of(u, "stakes"), pushed(S.of(u, "stakes"), struct(STAKE, stake=n, stake_timestamp=mk("timestamp"))))
    sp.final("totals", "the staker's total grows by the amount", S.of(u, "total_stake"), padd(S.of(u, "total_stake"), n))
    sp.final("totals", "the contract's total grows by the amount", S.total, padd(S.total, n))
    sp.final("others", "the time of the last withdrawal stays", S.of(u, "last_reward_time"), S.of(u, "last_reward_time"))
    sp.frame("others", [S.slot(S.of(u, "stakes")), S.total])
    sp = Spec(ck, STAKE, "unbond")
    u, n, t = sp.a.sender, sp.a.stake_amount, sp.a.stake_timestamp
    st = S.of(u, "stakes")
    q = band(eqn(field(mk("bv", 1), "stake"), n), eqn(field(mk("bv", 1), "stake_timestamp"), t))
    sp.auth("consent", u, "authorised by the staker")
    sp.guard("bounds", "such a stake exists", mk_any(st, q, 1))
    sp.total("bounds", "existing stakes can always be unbonded", mk_any(st, q, 1))
    sp.calls("unbond", [transfer("returns the shares", S.lp, SELF, u, n)])
    sp.final("unbond", "the stake is removed", st, over(st, lambda l: mk("vremove", l, payload(mk_find("position", l, q, 1)))))
    sp.final("totals", "the staker's total shrinks by the amount", S.of(u, "total_stake"), psub(S.of(u, "total_stake"), n))
    sp.final("totals", "the contract's total shrinks by the amount", S.total, psub(S.total, n))
    sp.final("others", "the time of the last withdrawal stays", S.of(u, "last_reward_time"), S.of(u, "last_reward_time"))
    sp.frame("others", [S.slot(st), S.total])
    me = S.slot(st)
    for s in ck.w.of(STAKE):
        if s.name in ("bond", "unbond"):
            continue
        for e in sets(s):
            if e.key.op == "param" or (e.key.op == slot_of(me).args[1].op and e.key.op != "agg"):
                if e.key.op == "sym" and e.key is not slot_of(me).args[1]:
                    continue
                x = subst(slot_of(me), {u: e.key})
                h = ctx(s, e)
                new = e.val if e.kind == "set" else mk("none")
                for f in ("stakes", "total_stake"):
                    v = rewrite(S.of(e.key, f), {mk("get", e.cls, e.key, FALSE).id: some(new)})
                    ck.ob("others", "%s: %s of a staker stays" % (sname(s), f), s.name == "initialize" or same(h, v, S.of(e.key, f)), "becomes %s" % show(v)[:200], e.site, e.fn)
            g = slot_of(S.total)
            if (e.cls, e.key) == g.args[:2]:
                ck.ob("others", "%s: the contract's total stays" % sname(s), s.name == "initialize" and e.kind == "set" and same(ctx(s, e), e.val, I(0)), "becomes %s" % show(e.val)[:200] if e.kind == "set" else "removed", e.site, e.fn)
    none = {mk("get", slot_of(me).args[0], u, FALSE).id: NONE}
    for f, v in (("stakes", mk("vec")), ("total_stake", I(0)), ("last_reward_time", I(0))):
        ck.ob("others", "a new staker's %s" % f, rewrite(S.of(u, f), none) is v, "is %s" % show(rewrite(S.of(u, f), none)))
    ck.floor("bond", 2)
    ck.floor("unbond", 2)
    ck.floor("totals", 4)
    ck.floor("bounds", 4)
    ck.floor("consent", 2)
    ck.floor("others", 9)


@rule("P14")
def p14(ck):
    ck.rule("create", "a reward asset is registered once, by the manager or the owner, and starts with an empty history")
    ck.rule("fund", "funding moves exactly the amount from the funder into the contract and adds exactly it to the asset's reward of that moment, together with the total staked then; no earlier entry changes")
    ck.rule("bounds", "only callers other than manager and owner, registered (unregistered) assets are rejected")
    ck.rule("others", "nothing else in storage changes, and no other call touches the histories or the list of rewards")
    S = Stake(ck)
    now = mk("timestamp")
    boss = lambda u: bor(eq(u, S.mgr), eq(u, S.owner))
    has = lambda x: mk_any(S.dist, eq(mk("bv", 1), x), 1)
    sp = Spec(ck, STAKE, "create_distribution_flow")
    u, x = sp.a.sender, sp.a.asset
    sp.auth("bounds", u, "authorised by the caller")
    sp.guard("bounds", "by manager or owner", boss(u))
    sp.guard("create", "not registered before", bnot(has(x)))
    sp.total("bounds", "manager and owner can register a new asset", band(boss(u), bnot(has(x))))
    sp.final("create", "appended to the list", S.dist, pushed(S.dist, x))
    sp.final("create", "empty history", S.hist(x), mk("map"))
    sp.calls("create", [])
    sp.frame("others", [S.slot(S.dist), S.hist(x)])
    sp = Spec(ck, STAKE, "distribute_rewards")
    u, x, n = sp.a.sender, sp.a.reward_token, sp.a.amount
    sp.auth("bounds", u, "authorised by the funder")
    sp.guard("bounds", "by manager or owner", boss(u))
    sp.guard("bounds", "the asset is registered", has(x))
    sp.total("bounds", "manager and owner can fund a registered asset", band(band(boss(u), has(x)), le(I(0), n)))
    sp.calls("fund", [transfer("takes the amount", x, u, SELF, n)])
    old = mget(S.hist(x), now)
    sp.final("fund", "the asset's reward of this moment grows by the amount", S.hist(x), mapset(S.hist(x), now, padd(ite(is_some(old), payload(old), I(0)), n)))
    sp.final("fund", "the total staked is recorded", S.staked, mapset(S.staked, now, S.total))
    sp.frame("others", [S.hist(x), S.staked])
    keys = {slot_of(S.slot(S.dist)).args[:2]: "the list of rewards", slot_of(S.staked).args[:2]: "the history of totals"}
    hk = S.hist_key[1]
    for s in ck.w.of(STAKE):
        if s.name in ("create_distribution_flow", "distribute_rewards", "initialize"):
            continue
        bad = None
        for e in sets(s):
            if (e.cls, e.key) in keys or (e.key.op == "agg" and e.key.args[:2] == hk.args[:2]):
                bad = e
        ck.ob("others", "%s: keeps lists and histories" % sname(s), bad is None, "writes %s" % (show(bad.key) if bad else ""), bad.site if bad else None, s.fn.path)
    ck.floor("create", 3)
    ck.floor("fund", 3)
    ck.floor("bounds", 7)
    ck.floor("others", 9)


@rule("P15")
def p15(ck):
    ck.rule("pay", "a withdrawal pays, for every registered asset, exactly the pending reward of the staker from the contract to the staker")
    ck.rule("mark", "a withdrawal moves the staker's mark to the current time and changes nothing else, so the same reward is not paid twice; no other call moves it")
    ck.rule("report", "the reported rewards list every registered asset with exactly the amount a withdrawal would pay now")
    ck.rule("bounds", "a withdrawal is never rejected")
    S = Stake(ck)
    sp = Spec(ck, STAKE, "withdraw_rewards")
    u = sp.a.sender
    sp.each("pay", "pays the pending reward of every asset", S.dist, lambda x, i: x, "transfer", lambda x, i: [SELF, u, S.pending(u, x)])
    other = [e for e in calls(sp.s, mut=True) if e.method is not sym("transfer")]
    ck.ob("pay", "%s: moves nothing else" % sp.n, not other, "also calls %s" % [show(e.method) for e in other], other[0].site if other else None)
    sp.final("mark", "marked as withdrawn now", S.of(u, "last_reward_time"), mk("timestamp"))
    for f in ("stakes", "total_stake"):
        sp.final("mark", "%s stay" % f, S.of(u, f), S.of(u, f))
    sp.frame("mark", [S.slot(S.of(u, "stakes"))])
    for n in ("bond", "unbond"):
        o = Spec(ck, STAKE, n)
        o.final("mark", "rewards not yet withdrawn stay due", S.of(o.a.sender, "last_reward_time"), S.of(o.a.sender, "last_reward_time"))
    H = lambda x: is_some(slot_of(S.hist(x)))
    sp.total("bounds", "not rejected", bnot(mk_any(S.dist, bnot(H(mk("bv", 1))), 1)))
    sp = Spec(ck, STAKE, "query_withdrawable_rewards")
    u = sp.a.user
    got = field(sp.s.ret, "rewards")
    x = mk("bv", 3)
    item = struct(STAKE, reward_address=x, reward_amount=S.pending(u, x))
    want = over(S.dist, lambda l: l if l.op == "vec" else mk_fold(l, mk("vec"), mk("vpush", mk("acc", 3), item), 3))
    ok = same(sp.pc, got, want)
    ck.ob("report", "%s: equals the amounts a withdrawal pays" % sp.n, ok, "reports %s, expected %s" % (show(norm(got))[:1500], show(norm(want))[:1500]), sp.s.fn.span, sp.s.fn.path)
    ck.floor("pay", 2)
    ck.floor("mark", 4)
    ck.floor("report", 1)
    ck.floor("bounds", 1)
