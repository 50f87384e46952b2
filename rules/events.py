"""What the contracts publish about themselves: every event says what the call did."""
from engine.core import *
from engine.spec import *
from engine.terms import *
from .pool import Pool
from .factory import once
from .rewards import Rewards
from .stake import Stake as Staking


def label(t):
    """the fixed part of an event's topics: its leading texts"""
    if t.op == "agg" and t.args[0] == "tuple":
        out = []
        for x in t.args[3:]:
            if x.op in ("sym", "str"):
                out.append(x.args[0])
            else:
                break
        return tuple(out)
    return ()


def parties(t):
    return t.args[3 + len(label(t)):] if t.op == "agg" else ()


class Pub:
    def __init__(self, ck, sp):
        self.ck, self.sp, self.s = ck, sp, sp.s
        self.ev = [e for e in self.s.events if e.kind == "event" and ctx(self.s, e) is not FALSE]

    def says(self, lab, value, when=TRUE, who=()):
        """exactly one event with these topics, whenever `when`, carrying exactly `value`"""
        sp, ck = self.sp, self.ck
        es = [e for e in self.ev if label(e.topics) == tuple(lab)]
        n = "%s: %s" % (sp.n, " / ".join(lab))
        cov = FALSE
        for e in es:
            h = band(band(ctx(self.s, e), sp.inv), when)
            cov = bor(cov, e.pc)
            if h is FALSE or sat(h) is None:
                continue
            d = arrived(e.data)
            ck.ob("values", n, same(h, d, value), "publishes %s" % show(norm(d))[:600], e.site, e.fn)
            ps = parties(e.topics)
            if who:
                ck.ob("values", n + " (parties)", len(ps) == len(who) and all(same(h, a, b) for a, b in zip(ps, who)), "names %s" % ", ".join(show(x)[:60] for x in ps), e.site, e.fn)
            ck.ob("values", n + " (only then)", entails(band(ctx(self.s, e), sp.inv), when), "is published although it did not happen", e.site, e.fn)
        ck.ob("published", n, entails(band(sp.pc, when), cov), "can succeed without publishing it", self.s.fn.span, self.s.fn.path)
        ck.ob("published", n + " (once)", once(es) and not any(e.loops for e in es), "can publish it more than once", es[0].site if es else self.s.fn.span, self.s.fn.path)


@rule("P34")
def p34(ck):
    ck.rule("published", "every successful call that moves tokens or changes what is recorded publishes its events, each once")
    ck.rule("values", "the parties, tokens and amounts in an event are exactly those of the call, and it is published only when that happened")
    w = ck.w
    pub = lambda c, n, sp=None: Pub(ck, sp or Spec(ck, c, n))
    for c in (POOL, STABLE):
        P = Pool(w, c)
        p = pub(c, "initialize")
        ti = field(p.sp.a.lp_init_info, "token_init_info")
        p.says(("initialize", "XYK LP token_a"), field(ti, "token_a"))
        p.says(("initialize", "XYK LP token_b"), field(ti, "token_b"))
        p = pub(c, "provide_liquidity", P.spec(ck, "provide_liquidity"))
        p.says(("provide_liquidity", "sender"), p.sp.a.sender)
        for n, t in (("a", P.ta), ("b", P.tb)):
            p.says(("provide_liquidity", "token_" + n), t)
            p.says(("provide_liquidity", "token_%s-amount" % n), moved(p.sp, t, p.sp.a.sender, SELF))
        p = pub(c, "withdraw_liquidity", P.spec(ck, "withdraw_liquidity"))
        p.says(("withdraw_liquidity", "sender"), p.sp.a.sender)
        p.says(("withdraw_liquidity", "shares_amount"), p.sp.a.share_amount)
        for n, t in (("a", P.ta), ("b", P.tb)):
            p.says(("withdraw_liquidity", "return_amount_" + n), moved(p.sp, t, SELF, p.sp.a.sender))
        p = pub(c, "swap", P.spec(ck, "swap"))
        a = p.sp.a
        p.says(("swap", "sender"), a.sender)
        p.says(("swap", "sell_token"), a.offer_asset)
        p.says(("swap", "offer_amount"), a.offer_amount)
        if c == POOL:
            p.says(("swap", "actual received amount"), a.offer_amount)
            p.says(("swap", "referral_fee_amount"), FALSE)
        p.says(("swap", "buy_token"), ite(eq(P.ta, a.offer_asset), P.tb, P.ta))
        p.says(("swap", "return_amount"), p.s.ret)
        q = Args(w.S(c, "simulate_swap"))
        spread = subst(w.q(c, "simulate_swap", "spread_amount"), {q.offer_asset: a.offer_asset, q.offer_amount: a.offer_amount})
        p.says(("swap", "spread_amount"), spread)
    p = pub(FACTORY, "create_liquidity_pool")
    p.says(("create", "liquidity_pool"), p.s.ret)
    p = pub(FACTORY, "initialize")
    p.says(("initialize", "LP factory contract"), p.sp.a.admin)
    p = pub(MULTIHOP, "initialize")
    p.says(("initialize", "Multihop factory with admin: "), p.sp.a.admin)
    # staking
    S = Staking(ck)
    for n, amt in (("bond", "tokens"), ("unbond", "stake_amount")):
        p = pub(STAKE, n)
        p.says((n, "user"), p.sp.a.sender)
        p.says((n, "token"), w.init_slot(STAKE, "lp_token"))
        p.says((n, "amount"), getattr(p.sp.a, amt))
    p = pub(STAKE, "initialize")
    p.says(("initialize", "LP Share token staking contract"), p.sp.a.lp_token)
    p = pub(STAKE, "create_distribution_flow")
    p.says(("create_distribution_flow", "asset"), p.sp.a.asset)
    p = pub(STAKE, "distribute_rewards")
    p.says(("distribute_rewards", "asset"), p.sp.a.reward_token)
    p = pub(STAKE, "withdraw_rewards")
    p.says(("withdraw_rewards", "user"), p.sp.a.sender)
    each(ck, p, ("withdraw_rewards", "reward_token"))
    # one reward asset
    R = Rewards(ck)
    p = pub(SREW, "initialize")
    p.says(("initialize", "StakingRewards rewards distribution contract"), UNIT)
    p.says(("create_distribution_flow", "asset"), p.sp.a.reward_token)
    p = pub(SREW, "add_user")
    p.says(("stake_rewards", "add_user"), p.sp.a.user)
    p = pub(SREW, "calculate_bond")
    p.says(("calculate_bond", "user"), p.sp.a.sender)
    for n in ("withdraw_rewards", "calculate_unbond"):
        p = pub(SREW, n)
        u = p.sp.a.sender
        reward = R.pending(u, p.sp.a.stakes)
        paid = bnot(eqn(reward, I(0)))
        if n == "withdraw_rewards":
            p.says(("withdraw_rewards", "user"), u)
        else:
            p.says(("withdraw_rewards", "user"), u, paid)
            p.says(("calculate_unbond", "user"), u)
        p.says(("withdraw_rewards", "reward_token"), R.token, paid)
        p.says(("withdraw_rewards", "reward_amount"), reward, paid)
    p = pub(SREW, "distribute_rewards")
    bal = mk("ext", R.token, sym("balance"), FALSE, SELF)
    amount = psub(psub(bal, R.D("withdrawable_total")), mk("call", "curve::Curve::value", R.curve, mk("timestamp")))
    some = band(bnot(eqn(R.power(p.sp.a.total_staked_amount), I(0))), bnot(eqn(amount, I(0))))
    p.says(("distribute_rewards", "asset"), R.token, some)
    p.says(("distribute_rewards", "amount"), amount, some)
    p = pub(SREW, "fund_distribution")
    a = p.sp.a
    p.says(("fund_reward_distribution", "asset"), R.token)
    p.says(("fund_reward_distribution", "amount"), a.token_amount)
    p.says(("fund_reward_distribution", "start_time"), a.start_time)
    p.says(("fund_reward_distribution", "end_time"), padd(a.start_time, a.distribution_duration))
    # trader
    p = pub(TRADER, "initialize")
    a = p.sp.a
    for n, v in (("admin: ", a.admin), ("contract name: ", a.contract_name), ("pairs: ", a.pair_addresses), ("PHO token: ", a.output_token)):
        p.says(("Trader: Initialize", n), v)
    p = pub(TRADER, "trade_token")
    p.says(("Trader: Trade Token", "user: "), p.sp.a.sender)
    p.says(("Trader: Trade Token", "offer asset: "), p.sp.a.token_to_swap)
    got = [e for e in calls(p.s, "swap") if ctx(p.s, e) is not FALSE]
    ck.need("values", p.sp.n, len(got) == 1, "makes %d swaps" % len(got))
    if len(got) == 1:
        p.says(("Trader: Trade Token", "amount received: "), got[0].ret)
    # vesting
    for n in ("initialize", "initialize_with_minter"):
        p = pub(VESTING, n)
        p.says(("Initialize", "Vesting contract with admin: "), p.sp.a.admin)
    p = pub(VESTING, "claim")
    p.says(("Claim", "Claimed tokens: "), moved(p.sp, field(w.init_slot(VESTING, "vesting_token"), "address"), SELF, p.sp.a.sender))
    p = pub(VESTING, "mint")
    p.says(("Mint", "sender: "), p.sp.a.sender)
    p.says(("Mint", "Minted tokens: "), p.sp.a.amount)
    p = pub(VESTING, "burn")
    p.says(("Burn", "Burned from: "), p.sp.a.sender)
    p.says(("Burn", "Burned tokens: "), p.sp.a.amount)
    p = pub(VESTING, "update_minter")
    p.says(("Update minter", "Updated minter to: "), p.sp.a.new_minter)
    p = pub(VESTING, "update_minter_capacity")
    p.says(("Update minter capacity", "Updated minter capacity to: "), p.sp.a.new_capacity)
    # the token
    admin = w.init_slot(TOKEN, "admin")
    for n in ("transfer", "transfer_from", "burn", "burn_from", "mint", "approve", "set_admin"):
        p = pub(TOKEN, n)
        a = p.sp.a
        frm = getattr(a, "from", None)
        if n in ("transfer", "transfer_from"):
            p.says(("transfer",), a.amount, who=(frm, a.to))
        elif n in ("burn", "burn_from"):
            p.says(("burn",), a.amount, who=(frm,))
        elif n == "mint":
            p.says(("mint",), a.amount, who=(admin, a.to))
        elif n == "approve":
            p.says(("approve",), tup(a.amount, a.expiration_ledger), who=(frm, a.spender))
        else:
            p.says(("set_admin",), a.new_admin, who=(admin,))
    ck.floor("published", 130)
    ck.floor("values", 130)


def arrived(t):
    """the change of the contract's own balance by a transfer to it is the amount transferred"""
    t = expand_balances(t)
    return subst(t, {x: x.args[4] for x in subterms(t) if x.op == "delta" and x.args[1] is sym("transfer") and len(x.args) == 5 and x.args[3] is SELF and x.args[2] is not SELF})


def moved(sp, tok, frm, to):
    """what the call moves of a token from one account to another"""
    t = FALSE
    for m in moves(sp.s):
        h = band(ctx(sp.s, m.e), sp.inv)
        if h is FALSE or m.e.loops or m.kind not in ("transfer", "transfer_from"):
            continue
        if same(h, m.token, tok) and same(h, m.frm, frm) and same(h, m.to, to):
            t = padd(t, ite(forget_loops(m.e.pc, m.e.loops), m.amount, FALSE))
    return t


def each(ck, p, lab):
    """every payment of an asset in the loop over assets is published, naming that asset, and nothing else is"""
    s = p.s
    es = [e for e in p.ev if label(e.topics) == lab]
    pay = [m for m in moves(s) if m.e.loops and ctx(s, m.e) is not FALSE]
    n = "%s: %s" % (p.sp.n, " / ".join(lab))
    ck.ob("published", n, bool(pay) and all(any(e.loops == m.e.loops and entails(ctx(s, m.e), e.pc) for e in es) for m in pay), "can pay an asset without publishing it", pay[0].e.site if pay else s.fn.span, s.fn.path)
    for e in es:
        h = ctx(s, e)
        ck.ob("values", n, any(e.loops == m.e.loops and entails(h, m.e.pc) and same(h, e.data, m.token) for m in pay), "publishes %s" % show(norm(e.data))[:200], e.site, e.fn)
