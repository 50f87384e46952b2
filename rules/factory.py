"""Factory: creation of pools, the pool registry, the whitelist and the code hashes."""
from engine.core import *
from engine.spec import *
from engine.terms import *


class Fact:
    def __init__(self, ck):
        w = self.w = ck.w
        i = lambda p: w.init_slot(FACTORY, p)
        self.admin, self.white, self.dec = i("admin"), i("whitelisted_accounts"), i("lp_token_decimals")
        self.lp, self.stable, self.stake, self.token = i("lp_wasm_hash"), i("stable_wasm_hash"), i("stake_wasm_hash"), i("token_wasm_hash")
        self.pools = w.q(FACTORY, "query_pools")
        self.config = slot_of(self.white)

    def lookup(self, x, y):
        a = Args(self.w.S(FACTORY, "query_for_pool_by_token_pair"))
        return subst(self.w.q(FACTORY, "query_for_pool_by_token_pair"), {a.token_a: x, a.token_b: y})

    def key(self, x, y):
        """where the pool of the pair x, y is registered"""
        a = Args(self.w.S(FACTORY, "query_for_pool_by_token_pair"))
        for t in subterms(self.w.q(FACTORY, "query_for_pool_by_token_pair")):
            if t.op == "get":
                k = subst(t, {a.token_a: x, a.token_b: y})
                if t.args[1].op == "agg" and t.args[1].args[3:] == (a.token_a, a.token_b):
                    return k
        raise Missing("registry of pools by pair")

    def member(self, x):
        return mk_any(self.white, eq(mk("bv", 1), x), 1)


def flat(v):
    """the elements of a list built in place"""
    if v.op == "vpush":
        r = flat(v.args[0])
        return None if r is None else r + [v.args[1]]
    if v.op == "vec":
        return list(v.args)
    if v.op == "agg":
        return list(v.args[3:])
    return None


@rule("P20")
def p20(ck):
    ck.rule("guards", "only whitelisted accounts create pools, for a pair in canonical order, with positive staking limits, basis points in range and an amplification for stable pools; every such request is accepted")
    ck.rule("deploy", "the pool runs the configured code of its kind, at an address determined by the pair alone, so there is at most one pool per pair")
    ck.rule("initialise", "the pool is initialised once, with the configured code hashes and decimals, this factory and exactly the requested settings")
    ck.rule("register", "the new pool is returned, appended to the list of pools and found by its pair in either order; nothing else changes")
    w = ck.w
    F = Fact(ck)
    sp = Spec(ck, FACTORY, "create_liquidity_pool")
    a, s = sp.a, sp.s
    li = a.lp_init_info
    ti, si = field(li, "token_init_info"), field(li, "stake_init_info")
    ta, tb = field(ti, "token_a"), field(ti, "token_b")
    xyk = None
    for t in subterms(sp.pc):
        if t.op == "isv" and t.args[0] is a.pool_type:
            xyk = atom(t) if t.args[1] == "Xyk" else bnot(atom(t))
    ck.need("initialise", sp.n, xyk, "does not distinguish the kinds of pools")
    if xyk is None:
        return
    sp.auth("guards", a.sender, "authorised by the caller")
    ok = TRUE
    gs = [("the caller is whitelisted", F.member(a.sender)), ("the pair is distinct and ordered", lt(ta, tb)),
          ("minimum bond is positive", lt(I(0), field(si, "min_bond"))), ("minimum reward is positive", lt(I(0), field(si, "min_reward"))),
          ("a stable pool has an amplification", bor(xyk, is_some(a.amp)))]
    for f in ("swap_fee_bps", "max_allowed_slippage_bps", "max_allowed_spread_bps", "max_referral_bps"):
        gs.append(("%s is in range" % f, band(le(I(0), field(li, f)), le(field(li, f), I(10000)))))
    extra = []
    for f in (a.default_slippage_bps, a.max_allowed_fee_bps, field(li, "default_slippage_bps")):
        q = band(le(I(0), f), le(f, I(10000)))
        extra.append(q)
    for n, q in gs:
        sp.guard("guards", n, q)
        ok = band(ok, q)
    for q in extra:
        ok = band(ok, q)
    sp.total("guards", "valid requests are accepted", ok)
    pool = simp(s.ret, s.pc)
    code = ite(xyk, F.lp, F.stable)
    good = pool.op == "deployed" and same(s.pc, pool.args[1], code)
    ck.ob("deploy", "%s: runs the configured code" % sp.n, good, "deploys %s" % show(norm(pool))[:400], s.fn.span, s.fn.path)
    at = pool.args[0] if pool.op == "deployed" else pool
    ins = {x for x in subterms(at) if x.op in ("param", "get", "ext", "timestamp", "seq", "prng")}
    used = {t for t in (ta, tb) if any(x is t for x in subterms(at))}
    ck.ob("deploy", "%s: the address depends on the pair alone" % sp.n, at.op == "deployer_at" and at.args[0] is SELF and ins <= {li} and len(used) == 2 and not [x for x in subterms(at) if x.op == "f" and x.args[0] in (li, ti) and x not in (ti, ta, tb)],
          "the address is %s" % show(at)[:400], s.fn.span, s.fn.path)
    nd = [e for e in s.events if e.kind == "deploy"]
    ck.ob("deploy", "%s: deploys one contract" % sp.n, all(e.loops == () or not e.loops for e in nd) and once(nd), "deploys more than one contract", nd[0].site if nd else s.fn.span)
    es = [e for e in calls(s, mut=True) if ctx(s, e) is not FALSE]
    cov = FALSE
    for e in es:
        h = ctx(s, e)
        okc = e.method is sym("initialize") and not e.loops and same(h, e.addr, pool)
        why = "calls %s of %s" % (show(e.method), show(e.addr)[:100])
        if okc:
            v = e.args[0] if len(e.args) == 1 and e.args[0].op == "spread" else None
            lv = [(TRUE, e.args)] if v is None else [(c, flat(l)) for c, l in leaves(v.args[0])]
            common = [F.stake, F.token, li, SELF, F.dec, a.share_token_name, a.share_token_symbol]
            for c, l in lv:
                for k, last in ((xyk, a.default_slippage_bps), (bnot(xyk), payload(a.amp))):
                    hh = band(band(h, c), k)
                    if hh is FALSE or sat(hh) is None:
                        continue
                    want = common + [last, a.max_allowed_fee_bps]
                    if l is None or len(l) != len(want):
                        okc, why = False, "passes %s arguments" % (len(l) if l is not None else "unknown")
                        continue
                    for i, (x, y) in enumerate(zip(l, want)):
                        if not same(hh, x, y):
                            okc, why = False, "argument %d is %s, expected %s" % (i, show(norm(x))[:200], show(norm(y))[:200])
        ck.ob("initialise", "%s: initialises the pool as asked" % sp.n, okc, why, e.site, e.fn)
        cov = bor(cov, e.pc)
    ck.ob("initialise", "%s: exactly once" % sp.n, entails(sp.pc, cov) and once(es), "the pool is not initialised exactly once", s.fn.span, s.fn.path)
    old = lambda x, y: is_some(F.key(x, y))
    sp.final("register", "appended to the list", F.pools, pushed(F.pools, pool))
    sp.final("register", "found by its pair", F.lookup(ta, tb), pool)
    sp.final("register", "found by its pair in reverse", F.lookup(tb, ta), pool, band(sp.pc, bnot(old(tb, ta))))
    sp.frame("register", [F.pools, payload(F.key(ta, tb))])
    x, y = sym("x"), sym("y")
    reg = F.key(x, y)
    for s2 in w.of(FACTORY):
        bad = []
        for e in sets(s2):
            if (e.cls, e.key) == slot_of(F.pools).args[:2] and s2.name not in ("create_liquidity_pool", "initialize"):
                bad.append(e)
            if e.key.op == "agg" and e.key.args[:2] == reg.args[1].args[:2] and s2.name != "create_liquidity_pool":
                bad.append(e)
        if s2.name != "create_liquidity_pool":
            ck.ob("register", "%s: keeps the registry" % sname(s2), not bad, "writes the registry", bad[0].site if bad else s2.fn.span, s2.fn.path)
    ck.floor("guards", 11)
    ck.floor("deploy", 3)
    ck.floor("initialise", 2)
    ck.floor("register", 9)


def once(es):
    for i in range(len(es)):
        for j in range(i):
            if sat(band(es[i].pc, es[j].pc)) is not None:
                return False
    return True


@rule("P21")
def p21(ck):
    ck.rule("whitelist", "after an update an account is whitelisted exactly if it was whitelisted or added, and not removed")
    ck.rule("hashes", "an update of the code hashes sets exactly those given and keeps the others; nothing else in the configuration ever changes")
    ck.rule("report", "queries report the registered pools, each pool's own details, a pair's pool in either order, and every pool the account holds shares of with what all its shares are worth")
    ck.rule("accept", "an administrator's updates, and lookups of registered pairs, are not rejected")
    w = ck.w
    F = Fact(ck)
    sp = Spec(ck, FACTORY, "update_whitelisted_accounts")
    a = sp.a
    x = sym("account")
    isin = lambda l: mk_any(l, eq(mk("bv", 1), x), 1)
    got = isin(post(sp.s, F.white))
    want = band(bor(isin(F.white), isin(a.to_add)), bnot(isin(a.to_remove)))
    ck.ob("whitelist", "%s: exactly those kept and added" % sp.n, entails(band(sp.pc, got), want) and entails(band(sp.pc, want), got), "whitelisted afterwards if %s" % show(norm(got))[:500], sp.s.fn.span, sp.s.fn.path)
    sp.total("accept", "updates by the administrator are accepted", eq(a.sender, F.admin))
    sp.frame("whitelist", [F.config])
    keep(ck, w, sp, F, "whitelist", ["whitelisted_accounts"])
    sp = Spec(ck, FACTORY, "update_wasm_hashes")
    a = sp.a
    for n, t, o in (("pool", F.lp, a.lp_wasm_hash), ("stake", F.stake, a.stake_wasm_hash), ("token", F.token, a.token_wasm_hash)):
        sp.final("hashes", "code of %s" % n, t, ite(is_some(o), payload(o), t))
    sp.frame("hashes", [F.config])
    keep(ck, w, sp, F, "hashes", [F.lp.args[1], F.stake.args[1], F.token.args[1]])
    sp.total("accept", "updates by the administrator are accepted", TRUE)
    sp = Spec(ck, FACTORY, "update")
    sp.final("hashes", "code of stable pools", F.stable, sp.a.new_stable_pool_hash)
    sp.frame("hashes", [F.stable])
    for s in w.of(FACTORY):
        if s.name in ("update", "update_wasm_hashes", "update_whitelisted_accounts", "initialize"):
            continue
        bad = [e for e in sets(s) if (e.cls, e.key) in (F.config.args[:2], slot_of(F.stable).args[:2])]
        ck.ob("hashes", "%s: keeps the configuration" % sname(s), not bad, "writes the configuration", bad[0].site if bad else s.fn.span, s.fn.path)
    q = lambda n: ck.S(FACTORY, n)
    b = mk("bv", 1)
    det = lambda p: mk("ext", p, sym("query_pool_info_for_factory"), FALSE)
    s = q("query_pool_details")
    p = Args(s).pool_address
    ck.ob("report", "%s: the pool's own details" % sname(s), same(s.pc, s.ret, det(p)), "returns %s" % show(s.ret)[:200], s.fn.span, s.fn.path)
    s = q("query_all_pools_details")
    want = mk_fold(F.pools, mk("vec"), mk("vpush", mk("acc", 1), det(b)), 1)
    ck.ob("report", "%s: details of every pool" % sname(s), same(s.pc, s.ret, want), "returns %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
    s = q("query_for_pool_by_token_pair")
    a = Args(s)
    k1, k2 = is_some(F.key(a.token_a, a.token_b)), is_some(F.key(a.token_b, a.token_a))
    one = bnot(band(k1, k2))
    ck.ob("report", "%s: the order of the pair does not matter" % sname(s), same(band(s.pc, one), s.ret, subst(s.ret, {a.token_a: a.token_b, a.token_b: a.token_a})), "returns %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
    sp = Spec(ck, FACTORY, "query_for_pool_by_token_pair")
    sp.total("accept", "registered pairs are found", bor(k1, k2))
    sp = Spec(ck, FACTORY, "query_user_portfolio")
    a = sp.a
    lp, st = portfolio(w, F, a.sender, a.staking)
    got = sp.s.ret
    ck.ob("report", "%s: the worth of all shares held and staked" % sp.n, same(sp.pc, field(got, "lp_portfolio"), lp), "lists %s, expected %s" % (show(norm(field(got, "lp_portfolio")))[:900], show(norm(lp))[:900]), sp.s.fn.span, sp.s.fn.path)
    ck.ob("report", "%s: the stakes, if asked for" % sp.n, same(sp.pc, field(got, "stake_portfolio"), st), "lists %s, expected %s" % (show(norm(field(got, "stake_portfolio")))[:900], show(norm(st))[:900]), sp.s.fn.span, sp.s.fn.path)
    ck.floor("whitelist", 7)
    ck.floor("hashes", 12)
    ck.floor("report", 5)
    ck.floor("accept", 3)


def keep(ck, w, sp, F, rid, but):
    base = payload(F.config)
    for f in payload(w.S(FACTORY, "initialize").store[F.config.args[:2]]).args[2]:
        if f not in but:
            sp.final(rid, "keeps %s" % f, field(base, f), field(base, f))


def portfolio(w, F, who, staking):
    b = mk("bv", 2)
    info = field(mk("ext", b, sym("query_pool_info_for_factory"), FALSE), "pool_response")
    stake = field(info, "stake_address")
    stakes = field(mk("ext", stake, sym("query_staked"), FALSE, who), "stakes")
    held = padd(mk("ext", field(field(info, "asset_lp_share"), "address"), sym("balance"), FALSE, who), mk_sum(stakes, field(mk("bv", 1), "stake"), 1))
    worth = mk("ext", b, sym("query_share"), FALSE, held)
    acc = mk("acc", 2)
    item = struct(FACTORY, assets=mk("agg", "tuple", None, ("0", "1"), field(worth, "0"), field(worth, "1")))
    lp = mk_fold(F.pools, mk("vec"), ite(lt(I(0), held), mk("vpush", acc, item), acc), 2)
    it2 = struct(FACTORY, staking_contract=stake, stakes=stakes)
    st = mk_fold(F.pools, mk("vec"), ite(band(tobool(staking), bnot(eqn(vlen(stakes), I(0)))), mk("vpush", acc, it2), acc), 2)
    return lp, st
