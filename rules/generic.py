"""Properties that range over every entry point of every contract."""
from engine.core import *
from engine.spec import *
from engine.terms import *
from engine.interp import READ_PREFIX

ADMIN_PARAM = {FACTORY: "admin", MULTIHOP: "admin", POOL: "lp_init_info.admin", STABLE: "lp_init_info.admin", STAKE: "admin", SREW: "admin",
               TRADER: "admin", VESTING: "admin", TOKEN: "admin"}

# entry points only the stored administrator may complete
ADMIN_ONLY = [(FACTORY, "update"), (FACTORY, "update_wasm_hashes"), (FACTORY, "update_whitelisted_accounts"), (MULTIHOP, "update"),
              (POOL, "update"), (POOL, "upgrade"), (POOL, "update_config"), (STABLE, "update"), (STABLE, "upgrade"), (STABLE, "update_config"),
              (STAKE, "update"), (SREW, "update"), (SREW, "fund_distribution"), (TRADER, "trade_token"), (TRADER, "transfer"),
              (VESTING, "update"), (VESTING, "create_vesting_schedules"), (VESTING, "update_minter_capacity"), (TOKEN, "set_admin"), (TOKEN, "mint")]

# what governs each contract: parameters of initialisation whose storage location is governance state
GOVERNED = {FACTORY: ["admin", "lp_wasm_hash", "stake_wasm_hash", "token_wasm_hash", "stable_wasm_hash", "whitelisted_accounts", "lp_token_decimals"],
            MULTIHOP: ["admin", "factory"],
            POOL: ["lp_init_info.admin", "lp_init_info.swap_fee_bps", "lp_init_info.fee_recipient", "lp_init_info.max_allowed_slippage_bps", "default_slippage_bps"],
            STABLE: ["lp_init_info.admin", "lp_init_info.swap_fee_bps", "lp_init_info.fee_recipient", "lp_init_info.max_allowed_slippage_bps"],
            STAKE: ["admin", "lp_token", "min_bond", "manager"], SREW: ["admin", "reward_token", "staking_contract"],
            TRADER: ["admin", "pair_addresses", "output_token"], VESTING: ["admin", "vesting_token", "max_vesting_complexity"], TOKEN: ["admin"]}


def admin(w, c):
    return w.init_slot(c, ADMIN_PARAM[c])


@rule("P01")
def p01(ck):
    w = ck.w
    ck.rule("admin-entry", "an administrative entry point returns only if the stored administrator (as of entry) authorised the call")
    ck.rule("upgrade", "every replacement of the contract code is authorised by the stored administrator")
    ck.rule("governance-write", "every write to a governance storage location outside initialisation is authorised by the stored administrator")
    for c, n in ADMIN_ONLY:
        s = ck.S(c, n)
        ad = admin(w, c)
        h = band(s.pc, is_some(slot_of(ad)))
        ok = s.pc is not FALSE and entails(s.pc, auth_pred(s, ad))
        ck.ob("admin-entry", sname(s), ok, "returns normally without require_auth of the stored administrator; e.g. %s" % showw(prove(s.pc, auth_pred(s, ad))[1]), s.fn.span, s.fn.path)
    ck.floor("admin-entry", len(ADMIN_ONLY))
    for c in CONTRACTS:
        ad = admin(w, c)
        gov = {slot_of(w.init_slot(c, p)).args[:2] for p in GOVERNED[c]}
        for s in w.of(c):
            ck.analysed.add((c, s.name))
            if s.name in INIT[c]:
                for e in s.events:
                    if e.kind == "upgrade":
                        ck.ob("upgrade", sname(s), False, "replaces the contract code during initialisation", e.site, e.fn)
                continue
            for e in s.events:
                if e.kind == "upgrade":
                    ck.ob("upgrade", sname(s), entails(ctx(s, e), auth_pred(s, ad, e.loops)), "code replacement not authorised by the stored administrator", e.site, e.fn)
                if e.kind in ("set", "remove") and any(e.cls == g[0] and may_be(w, c, e, g[1]) for g in gov):
                    ck.ob("governance-write", "%s: %s[%s]" % (sname(s), e.cls, show(e.key)[:60]), entails(ctx(s, e), auth_pred(s, ad, e.loops)), "write to governance state not authorised by the stored administrator", e.site, e.fn)
    ck.floor("upgrade", 9)
    ck.floor("governance-write", 8)


def kty(w, c, cls, key):
    """type of the key under which a location is written"""
    for s in w.of(c):
        for e in s.events:
            if e.kind in ("set", "get", "remove") and e.cls == cls and e.key is key:
                return strip_ref(e.kty)
    return None


def strip_ref(t):
    return (t or "").replace("&", "")


def may_be(w, c, e, b):
    a = e.key
    if a is b:
        return True
    if strip_ref(e.d.get("kty")) != kty(w, c, e.cls, b):
        return False
    return eq(a, b) is not FALSE and not (a.op == "agg" and b.op in ("sym", "str")) and not (b.op == "agg" and a.op in ("sym", "str")) \
        and not (a.op == "agg" and b.op == "agg" and (a.args[0], a.args[1]) != (b.args[0], b.args[1])) and a.op != "param"


@rule("P02")
def p02(ck):
    w = ck.w
    ck.rule("once", "after a successful initialisation, the success condition of every initialiser of the contract is unsatisfiable in the resulting storage")
    ck.rule("stays", "no other entry point changes the storage on which that condition depends, nor is the flag kept in temporary storage")
    ck.rule("constructor", "the token is initialised only by its constructor, which the host runs exactly once, at deployment")
    for c in CONTRACTS:
        if c == TOKEN:
            s = ck.S(c, "__constructor")
            ad = slot_of(admin(w, c))
            ok = entails(s.pc, TRUE) and post(s, ad) is not ad
            ck.ob("constructor", sname(s), ok, "does not set the administrator")
            for t in w.of(c):
                if t.name not in ("__constructor", "set_admin"):
                    for e in sets(t):
                        ck.ob("constructor", "%s: %s" % (sname(t), show(e.key)[:40]), not (e.cls == ad.args[0] and e.key is ad.args[1]), "writes the administrator", e.site, e.fn)
            continue
        inits = [ck.S(c, n) for n in INIT[c]]
        flags = set()
        for s in inits:
            for t in inits:
                p = rewrite(t.pc, {g.id: s.store[g.args[:2]] for g in gets(t.pc) if g.args[:2] in s.store})
                ok = p is FALSE or sat(band(s.pc, rename(p, t))) is None
                ck.ob("once", "%s after %s" % (sname(t), sname(s)), ok, "a second initialisation can succeed", t.fn.span, t.fn.path)
            fl = [g for g in gets(s.pc) if g.args[:2] in s.store]
            dec = []
            for g in fl:
                p = rewrite(s.pc, {g.id: s.store[g.args[:2]]})
                if p is FALSE:
                    dec.append(g)
            ck.ob("once", "%s: single deciding flag" % sname(s), bool(dec), "no storage location guards initialisation", s.fn.span, s.fn.path)
            flags |= {g.args[:2] for g in dec if g.args[0] != "temporary"}
            ck.ob("stays", "%s: flag storage class" % sname(s), any(g.args[0] in ("persistent", "instance") for g in dec), "the guard is kept in storage that expires", s.fn.span, s.fn.path)
        for s in w.of(c):
            if s.name in INIT[c]:
                continue
            for e in sets(s):
                if any(e.cls == f[0] and may_be(w, c, e, f[1]) for f in flags):
                    ck.ob("stays", "%s writes %s" % (sname(s), show(e.key)), False, "changes the initialisation flag", e.site, e.fn)
            ck.ob("stays", sname(s), True)
    ck.floor("once", 17)
    ck.floor("constructor", 1)


def gets(t):
    return [x for x in subterms(t) if x.op == "get" and x.args[2] is FALSE]


def rename(p, t):
    """fresh parameters for the second invocation"""
    return rewrite(p, {x.id: mk("param", x.args[0] + "'") for x in subterms(p) if x.op == "param"})


# ------------------------------------------------------------------ authorised spending
# outgoing transfers of the contract's own funds: allowed recipients
def payees(w, s, c):
    """terms that may receive funds the contract itself holds (checked per entry point)"""
    a = Args(s)
    if c in (POOL, STABLE):
        fr = w.init_slot(c, "lp_init_info.fee_recipient")
        return [getattr(a, "sender", None), fr]
    if c == TRADER and s.name == "transfer":
        return None        # the administrator chooses (P24)
    return [getattr(a, "sender", None)]


@rule("P03")
def p03(ck):
    w = ck.w
    ck.rule("debit", "every token movement a contract starts debits either the contract itself or an account that authorised this call")
    ck.rule("swap-for", "every call of another contract that spends on behalf of an account passes an account that authorised this call (or the contract itself)")
    ck.rule("payee", "the contract's own funds go only to the authenticated caller (for stake rewards: the staker named in the call), the configured fee recipient, or where the administrator directs")
    ck.rule("lp-mint", "a contract mints only to itself or to the authenticated caller")
    n = 0
    for c in CONTRACTS:
        for s in w.of(c):
            ck.analysed.add((c, s.name))
            for e in calls(s, mut=True):
                if e.method.op != "sym":
                    ck.ob("swap-for", "%s: %s" % (sname(s), show(e.method)[:40]), False, "calls a method chosen at run time", e.site, e.fn)
            for m in moves(s):
                h = ctx(s, m.e)
                inst = "%s: %s by %s" % (sname(s), m.kind, short_name(m.e))
                if m.frm is not None:
                    p = bor(eq(m.frm, SELF), auth_pred(s, m.frm, m.e.loops))
                    ck.ob("debit", inst, entails(h, p), "debits %s, which did not authorise the call" % show(m.frm)[:100], m.e.site, m.e.fn)
                if m.frm is not None and m.to is not None and not entails(h, bnot(eq(m.frm, SELF))):
                    ps = payees(w, s, c)
                    if ps is None:
                        ok = entails(h, auth_pred(s, admin(w, c), m.e.loops))
                    else:
                        p = eq(m.to, SELF)
                        for x in ps:
                            if x is not None:
                                z = eq(m.to, x)
                                if x.op == "param" and not (c == STAKE and s.name == "withdraw_rewards") and not c == SREW:
                                    z = band(z, auth_pred(s, x, m.e.loops))
                                p = bor(p, z)
                        ok = entails(band(h, eq(m.frm, SELF)), p)
                    ck.ob("payee", inst, ok, "pays the contract's funds to %s" % show(m.to)[:120], m.e.site, m.e.fn)
                if m.kind == "mint":
                    ck.ob("lp-mint", inst, entails(h, bor(eq(m.to, SELF), auth_pred(s, m.to, m.e.loops))), "mints to %s, which did not authorise the call" % show(m.to)[:100], m.e.site, m.e.fn)
            for e in calls(s, "swap", True):
                if e.args:
                    ck.ob("swap-for", "%s: swap by %s" % (sname(s), short_name(e)), entails(ctx(s, e), bor(eq(e.args[0], SELF), auth_pred(s, e.args[0], e.loops))), "swaps on behalf of %s without its authorisation" % show(e.args[0])[:80], e.site, e.fn)
    ck.floor("debit", 20)
    ck.floor("swap-for", 3)
    ck.floor("payee", 10)
    ck.floor("lp-mint", 4)


def short_name(e):
    return e.fn.split("::")[-1] if isinstance(e.fn, str) else "?"


# ------------------------------------------------------------------ deadlines
@rule("P04")
def p04(ck):
    ck.rule("deadline", "the call returns normally only if no deadline was given or the ledger timestamp does not exceed it")
    ck.rule("deadline-forward", "a router that takes a deadline hands exactly that deadline to every pool it calls")
    for c, n in [(POOL, "swap"), (POOL, "provide_liquidity"), (POOL, "withdraw_liquidity"), (STABLE, "swap"), (STABLE, "provide_liquidity"), (STABLE, "withdraw_liquidity")]:
        sp = Spec(ck, c, n)
        d = sp.a.deadline
        sp.guard("deadline", "deadline respected", bor(bnot(is_some(d)), le(mk("timestamp"), payload(d))))
        sp.guard("deadline", "not rejected at or before the deadline", exp_ok(sp, d))
    for c, n in [(MULTIHOP, "swap"), (TRADER, "trade_token")]:
        sp = Spec(ck, c, n)
        d = sp.a.deadline
        k = 0
        for e in calls(sp.s, "swap", True):
            k += 1
            ck.ob("deadline-forward", "%s: swap by %s" % (sp.n, short_name(e)), any(x is d or same(ctx(sp.s, e), x, d) for x in e.args), "does not pass the deadline on", e.site, e.fn)
        ck.need("deadline-forward", sp.n, k, "no swap call")
    ck.floor("deadline", 12)


def exp_ok(sp, d):
    """liveness half: the success condition, maximised over the deadline, is reached whenever the deadline is not in the past"""
    s = sp.s
    none = rewrite(s.pc, {d.id: NONE})
    # success without a deadline implies success with any deadline >= now
    return bimp(band(none, band(is_some(d), le(mk("timestamp"), payload(d)))), s.pc)
