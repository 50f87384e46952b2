"""Queries: they change nothing and report what is recorded; initialisation records what it was given."""
from engine.core import *
from engine.spec import *
from engine.terms import *

READS = {TOKEN: ("allowance", "balance", "decimals", "name", "symbol")}
# what a query reports of the parameters of initialisation
REPORTS = [(FACTORY, "get_admin", "", "admin"), (FACTORY, "get_config", "admin", "admin"), (FACTORY, "get_config", "lp_wasm_hash", "lp_wasm_hash"),
           (FACTORY, "get_config", "stake_wasm_hash", "stake_wasm_hash"), (FACTORY, "get_config", "token_wasm_hash", "token_wasm_hash"),
           (FACTORY, "get_config", "whitelisted_accounts", "whitelisted_accounts"), (FACTORY, "get_config", "lp_token_decimals", "lp_token_decimals"),
           (STAKE, "query_admin", "", "admin"), (STAKE, "query_config", "config.lp_token", "lp_token"), (STAKE, "query_config", "config.min_bond", "min_bond"),
           (STAKE, "query_config", "config.min_reward", "min_reward"), (STAKE, "query_config", "config.manager", "manager"), (STAKE, "query_config", "config.owner", "owner"),
           (STAKE, "query_config", "config.max_complexity", "max_complexity"),
           (SREW, "query_admin", "", "admin"), (SREW, "query_config", "config.staking_contract", "staking_contract"), (SREW, "query_config", "config.reward_token", "reward_token"),
           (SREW, "query_config", "config.max_complexity", "max_complexity"), (SREW, "query_config", "config.min_reward", "min_reward"), (SREW, "query_config", "config.min_bond", "min_bond"),
           (TRADER, "query_admin_address", "", "admin"), (TRADER, "query_contract_name", "", "contract_name"), (TRADER, "query_trading_pairs", "", "pair_addresses"),
           (TRADER, "query_output_token_info", "address", "output_token"),
           (VESTING, "query_token_info", "", "vesting_token"), (VESTING, "query_minter", "", "minter_info"),
           (TOKEN, "decimals", "", "decimal"), (TOKEN, "name", "", "name"), (TOKEN, "symbol", "", "symbol")]
for _c in (POOL, STABLE):
    for _f, _p in (("total_fee_bps", "swap_fee_bps"), ("fee_recipient", "fee_recipient"), ("max_allowed_slippage_bps", "max_allowed_slippage_bps"), ("max_allowed_spread_bps", "max_allowed_spread_bps"),
                   ("token_a", "token_init_info.token_a"), ("token_b", "token_init_info.token_b")):
        REPORTS.append((_c, "query_config", _f, "lp_init_info." + _p))
    REPORTS.append((_c, "query_pool_info", "asset_a.address", "lp_init_info.token_init_info.token_a"))
    REPORTS.append((_c, "query_pool_info", "asset_b.address", "lp_init_info.token_init_info.token_b"))
    REPORTS.append((_c, "query_pool_info_for_factory", "total_fee_bps", "lp_init_info.swap_fee_bps"))
REPORTS.append((POOL, "query_config", "max_referral_bps", "lp_init_info.max_referral_bps"))


def reader(c, n):
    return n.startswith(("query_", "simulate_", "get_")) or n in READS.get(c, ())


def at(t, p):
    for f in p.split(".") if p else []:
        t = field(t, f)
    return t


def init_value(w, c, p):
    """the parameter path of initialisation, as a term"""
    for n in INIT[c]:
        a = Args(w.S(c, n))
        h, _, r = p.partition(".")
        if hasattr(a, h):
            return w.S(c, n), at(getattr(a, h), r)
    raise Missing("%s: initialisation takes %s" % (c, p))


@rule("P12")
def p12(ck):
    ck.rule("readonly", "no query or simulation writes storage, calls a mutating method, asks for or grants an authorisation, deploys or replaces code")
    ck.rule("report", "each value a query reports is the one recorded when it is called, whoever asks")
    ck.rule("agree", "queries of the same fact agree with each other")
    ck.rule("accept", "a query of recorded state is never rejected")
    w = ck.w
    for c in CONTRACTS:
        for s in w.of(c):
            if not reader(c, s.name):
                continue
            ck.analysed.add((c, s.name))
            bad = [e for e in list(sets(s)) + list(calls(s, mut=True)) + [e for e in s.events if e.kind in ("auth", "authorize_as", "deploy", "upgrade")] if ctx(s, e) is not FALSE]
            ck.ob("readonly", sname(s), not bad, bad and "has an effect (%s)" % bad[0].kind, bad[0].site if bad else s.fn.span, bad[0].fn if bad else s.fn.path)
    ok = set()
    for c, q, f, p in REPORTS:
        s = ck.S(c, q)
        got = at(s.ret, f) if s.ret is not None else NONE
        want = w.init_slot(c, p)
        ck.ob("report", "%s: %s" % (sname(s), f or p), same(s.pc, got, want), "is %s, recorded is %s" % (show(norm(got))[:300], show(norm(want))[:300]), s.fn.span, s.fn.path)
        ok.add((c, q))
    # balances and allowances are tied to their storage by P25, stakes by P13, records of vesting by P18, pools by P21
    for c, q in sorted(ok) + [(POOL, "query_share_token_address"), (STABLE, "query_share_token_address"), (POOL, "query_stake_contract_address"), (STABLE, "query_stake_contract_address"),
                              (POOL, "query_total_issued_lp"), (STABLE, "query_total_issued_lp"), (STAKE, "query_staked"), (STAKE, "query_total_staked"), (SREW, "query_distributed_reward"),
                              (TRADER, "query_balances"), (VESTING, "query_balance"), (VESTING, "query_vesting_contract_balance"), (VESTING, "query_vesting_info"), (VESTING, "query_all_vesting_info"),
                              (FACTORY, "query_pools"), (FACTORY, "query_pool_details"), (FACTORY, "query_all_pools_details"), (TOKEN, "balance"), (TOKEN, "allowance")]:
        Spec(ck, c, q).total("accept", "recorded state is reported", TRUE)
    for c in (POOL, STABLE):
        info = lambda *p: w.q(c, "query_pool_info", *p)
        pairs = [("share token", info("asset_lp_share", "address"), w.q(c, "query_share_token_address")), ("share token", w.q(c, "query_config", "share_token"), w.q(c, "query_share_token_address")),
                 ("share supply", info("asset_lp_share", "amount"), w.q(c, "query_total_issued_lp")),
                 ("stake contract", info("stake_address"), w.q(c, "query_stake_contract_address")), ("stake contract", w.q(c, "query_config", "stake_contract"), w.q(c, "query_stake_contract_address")),
                 ("pool details", w.q(c, "query_pool_info_for_factory", "pool_response"), info()), ("pool address", w.q(c, "query_pool_info_for_factory", "pool_address"), SELF)]
        s = ck.S(c, "query_pool_info")
        for n, x, y in pairs:
            ck.ob("agree", "%s: %s" % (c, n), same(s.pc, x, y), "%s against %s" % (show(norm(x))[:200], show(norm(y))[:200]), s.fn.span, s.fn.path)
        ra, rb = info("asset_a", "amount"), info("asset_b", "amount")
        slots = [slot_of(x) for x in (ra, rb, w.q(c, "query_total_issued_lp"))]
        ck.ob("report", "%s: reserves and supply are recorded apart" % c, None not in slots and len({x.args[:2] for x in slots if x is not None}) == 3, "%s" % [show(x) for x in (ra, rb)], s.fn.span, s.fn.path)
    ext = lambda t, m, *xs: mk("ext", t, sym(m), FALSE, *xs)
    tok = field(w.init_slot(VESTING, "vesting_token"), "address")
    for n, v in (("query_balance", lambda a: ext(tok, "balance", a.address)), ("query_vesting_contract_balance", lambda a: ext(tok, "balance", SELF))):
        sp = Spec(ck, VESTING, n)
        sp.ret("report", "the vesting token's own balance", v(sp.a))
    sp = Spec(ck, SREW, "query_undistributed_reward")
    d = payload(subst(slot_of(w.q(SREW, "query_distributed_reward")), {Args(ck.S(SREW, "query_distributed_reward")).asset: sp.a.asset}))
    sp.ret("report", "what it holds beyond what it owes", psub(ext(sp.a.asset, "balance", SELF), field(d, "withdrawable_total")))
    ck.floor("readonly", 48)
    ck.floor("report", 45)
    ck.floor("agree", 14)
    ck.floor("accept", 35)


@rule("P28")
def p28(ck):
    ck.rule("records", "after initialisation every query reports exactly what initialisation was given")
    ck.rule("empty", "a new contract starts without stakes, rewards, pools or debts")
    ck.rule("frame", "initialisation calls, deploys and authorises nothing but what it sets up")
    ck.rule("accept", "a first initialisation with valid arguments is not rejected")
    w = ck.w
    for c, q, f, p in REPORTS:
        if c in (POOL, STABLE):
            continue     # P35
        s, want = init_value(w, c, p)
        g = at(ck.S(c, q).ret, f)
        ck.ob("records", "%s: %s through %s" % (sname(s), p, q), same(s.pc, post(s, g), want), "is %s, expected %s" % (show(norm(post(s, g)))[:300], show(norm(want))[:300]), s.fn.span, s.fn.path)
    for c, n, p in ((MULTIHOP, "initialize", "admin"), (MULTIHOP, "initialize", "factory"), (VESTING, "initialize", "admin"), (VESTING, "initialize", "max_vesting_complexity"),
                    (VESTING, "initialize_with_minter", "admin"), (VESTING, "initialize_with_minter", "vesting_token"), (VESTING, "initialize_with_minter", "max_vesting_complexity"),
                    (FACTORY, "initialize", "stable_wasm_hash"), (TOKEN, "__constructor", "admin")):
        sp = Spec(ck, c, n)
        sp.final("records", p, w.init_slot(c, p), getattr(sp.a, p))
    # the minter: none unless one was given
    got = w.init_slot(VESTING, "minter_info")
    ck.ob("empty", "%s::initialize: no minter" % VESTING, not [e for e in sets(ck.S(VESTING, "initialize")) if (e.cls, e.key) == slot_of(got).args[:2]], "sets a minter")
    sp = Spec(ck, STAKE, "initialize")
    sp.final("empty", "nothing staked", w.q(STAKE, "query_total_staked"), I(0))
    sp = Spec(ck, FACTORY, "initialize")
    sp.final("empty", "no pools", w.q(FACTORY, "query_pools"), mk("vec"))
    a = sp.a
    mh = simp(post(sp.s, w.q(FACTORY, "get_config", "multihop_address")), sp.pc)
    ck.ob("records", "%s: the router is deployed from the code given" % sp.n, mh.op == "deployed" and same(sp.pc, mh.args[1], a.multihop_wasm_hash), "is %s" % show(norm(mh))[:300], sp.s.fn.span, sp.s.fn.path)
    sp.calls("frame", [X("initialises the router for this factory", mh, "initialize", [a.admin, SELF])])
    sp.guard("accept", "somebody is whitelisted", bnot(eqn(vlen(a.whitelisted_accounts), I(0))))
    sp = Spec(ck, SREW, "initialize")
    a = sp.a
    q = lambda n: subst(w.q(SREW, n), {Args(ck.S(SREW, n)).asset: a.reward_token})
    sp.final("empty", "nothing distributed", q("query_distributed_reward"), I(0))
    d = payload(slot_of(q("query_distributed_reward")))
    for f in ("withdrawable_total", "shares_leftover"):
        sp.final("empty", f, field(d, f), I(0))
    for c in (FACTORY, MULTIHOP, STAKE, SREW, TRADER, VESTING, TOKEN):
        for n in INIT[c]:
            sp = Spec(ck, c, n)
            a, s = sp.a, sp.s
            ok = TRUE
            if c == STAKE:
                ok = band(band(lt(I(0), a.min_bond), lt(I(0), a.min_reward)), bnot(eqn(a.max_complexity, I(0))))
                for t, q in (("minimum bond is positive", lt(I(0), a.min_bond)), ("minimum reward is positive", lt(I(0), a.min_reward)), ("complexity is positive", bnot(eqn(a.max_complexity, I(0))))):
                    sp.guard("accept", t, q)
            if c == FACTORY:
                ok = bnot(eqn(vlen(a.whitelisted_accounts), I(0)))
            if c == TOKEN:
                ok = le(a.decimal, I(18))
                sp.guard("accept", "at most 18 decimals", ok)
            fresh = [g for g in flags(s)]
            for g in fresh:
                ok = band(ok, bnot(is_some(g)))
            sp.total("accept", "a first initialisation is accepted", ok)
            if c != FACTORY:
                sp.calls("frame", [])
                sp.no_other("frame")
    ck.floor("records", 35)
    ck.floor("empty", 6)
    ck.floor("accept", 13)
    ck.floor("frame", 7)
