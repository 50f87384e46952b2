"""The two liquidity pools: swaps, quotes, liquidity."""
from engine.core import *
from engine.spec import *
from engine.terms import *

BPS = 10 ** 14


class Pool:
    def __init__(self, w, c):
        self.w, self.c = w, c
        q = lambda *p: w.q(c, "query_pool_info", *p)
        self.ta, self.tb, self.share = q("asset_a", "address"), q("asset_b", "address"), q("asset_lp_share", "address")
        self.ra, self.rb, self.T = q("asset_a", "amount"), q("asset_b", "amount"), q("asset_lp_share", "amount")
        i = lambda n: w.init_slot(c, "lp_init_info." + n)
        self.fee, self.recipient = i("swap_fee_bps"), i("fee_recipient")
        self.slip_max, self.spread_max = i("max_allowed_slippage_bps"), i("max_allowed_spread_bps")
        self.slip_default = w.init_slot(c, "default_slippage_bps" if c == POOL else "lp_init_info.default_slippage_bps")
        self.admin = i("admin")

    def sides(self, asset):
        """(name, condition, offer token, ask token, offer reserve, ask reserve) for both directions of a swap offering `asset`"""
        a = eq(self.ta, asset)
        return [("selling A", a, self.ta, self.tb, self.ra, self.rb), ("selling B", band(bnot(a), eq(self.tb, asset)), self.tb, self.ta, self.rb, self.ra)]

    def spec(self, ck, name):
        """the entry point, given that the pool's two tokens differ (established at initialisation: P35)"""
        sp = Spec(ck, self.c, name)
        sp.inv = bnot(eq(self.ta, self.tb))
        sp.pc = band(sp.pc, sp.inv)
        return sp

    def in_pool(self, asset):
        return bor(eq(self.ta, asset), eq(self.tb, asset))

    # ---- the pricing formulas, as integer arithmetic
    def quote(self, w, off_t, ask_t, ro, ra, amt):
        """(gross return, spread, commission) of a swap"""
        if self.c == POOL:
            gross = psub(ra, pdiv(pmul(ro, ra), padd(ro, amt)))
            spot = pdiv(pmul(amt, ra), ro)
            spread = ite(lt(gross, spot), psub(spot, gross), FALSE)
        else:
            po, pa = precision(w, off_t), precision(w, ask_t)
            y = self.Y(scale(padd(ro, amt), po, I(18)), [scale(ro, po, I(18)), scale(ra, pa, I(18))], pa)
            gross = psub(ra, y)
            par = scale(amt, po, pa)
            spread = ite(lt(gross, par), psub(par, gross), FALSE)
        com = pdiv(pmul(pmul(gross, I(BPS)), self.fee), I(ONE18))
        return gross, spread, com

    def reverse(self, w, off_t, ask_t, ro, ra, ask):
        """(offer amount, spread, commission) to obtain `ask`"""
        inv = pdiv(I(ONE18 * ONE18), psub(I(ONE18), pmul(I(BPS), self.fee)))
        before = pdiv(pmul(ask, inv), I(ONE18))
        if self.c == POOL:
            offer = psub(pdiv(pmul(ro, ra), psub(ra, before)), ro)
            spread = psub(pdiv(pmul(offer, ra), ro), before)
        else:
            po, pa = precision(w, off_t), precision(w, ask_t)
            y = self.Y(scale(psub(ra, before), pa, I(18)), [scale(ro, po, I(18)), scale(ra, pa, I(18))], po)
            offer = psub(y, ro)
            par = scale(ask, pa, po)
            spread = ite(lt(par, offer), psub(offer, par), FALSE)
        return offer, spread, pdiv(pmul(pmul(before, I(BPS)), self.fee), I(ONE18))

    def Y(self, x, xp, prec):
        return mk("call", "stable::Y", amp(self.w), x, mk("agg", "array", None, tuple(str(i) for i in range(len(xp))), *xp), prec)


def agg_array(*xs):
    return mk("agg", "array", None, tuple(str(i) for i in range(len(xs))), *xs)


def amp_slot(w):
    return amp_of(w)


def amp_of(w):
    """storage location of the amplification parameters: the aggregate holding 100*amp"""
    s = w.S(STABLE, "initialize")
    want = pmul(I(100), Args(s).amp)
    for (cls, key), v in s.store.items():
        if find_path(payload(v), want, payload(mk("get", cls, key, FALSE)), s) is not None:
            return payload(mk("get", cls, key, FALSE))
    raise Missing("storage location of the amplification parameters (100 * amp) in %s" % sname(s))


def amp(w):
    return mk("call", "stable::AMP", amp_of(w))


def precision(w, tok):
    """decimals of a token as recorded at initialisation"""
    s = w.S(STABLE, "initialize")
    a = Args(s)
    ta = field(field(a.lp_init_info, "token_init_info"), "token_a")
    dec = mk("ext", ta, sym("decimals"), FALSE)
    for (cls, key), v in s.store.items():
        if any(x is ta for x in subterms(key)):
            return payload(mk("get", cls, subst(key, {ta: tok}), FALSE))
    raise Missing("storage location of the token precisions in %s" % sname(s))


def pow10(n):
    return mk("pow", I(10), n)


def scale(x, frm, to):
    """a raw amount with `frm` decimals expressed with `to` decimals"""
    if frm is to:
        return x
    return ite(lt(frm, to), pmul(x, pow10(psub(to, frm))), pdiv(x, pow10(psub(frm, to))))


def pmin(a, b):
    return ite(le(a, b), a, b)


def both(f):
    for c in (POOL, STABLE):
        f(c)


def swap_parts(p, sp, offer):
    """both directions of the swap, with the amounts each of them settles at"""
    out = []
    for name, cond, off_t, ask_t, ro, ra in p.sides(offer):
        gross, spread, com = p.quote(p.w, off_t, ask_t, ro, ra, sp.a.offer_amount)
        out.append((name, cond, off_t, ask_t, ro, ra, gross, spread, com))
    return out


def by_side(p, offer, x, y):
    return ite(eq(p.ta, offer), x, y)


def swap_terms(p, sp):
    A, B = swap_parts(p, sp, sp.a.offer_asset)
    pick = lambda i: by_side(p, sp.a.offer_asset, A[i], B[i])
    return dict(sell=pick(2), buy=pick(3), ro=pick(4), ra=pick(5), gross=pick(6), spread=pick(7), com=pick(8), ret=psub(pick(6), pick(8)))


def swap_limits(p, sp, t):
    """the conditions a swap must meet"""
    a = sp.a
    sm = a.max_spread_bps
    lim = ite(is_some(sm), payload(sm), p.spread_max)
    ratio = pdiv(pmul(t["spread"], I(ONE18)), t["gross"])
    dl = a.deadline
    return [("the offered amount is positive", lt(I(0), a.offer_amount)),
            ("the offered asset is one of the pool's two tokens", p.in_pool(a.offer_asset)),
            ("the caller's fee ceiling is respected", bor(bnot(is_some(a.max_allowed_fee_bps)), le(p.fee, payload(a.max_allowed_fee_bps)))),
            ("a caller's spread limit lies between zero and the pool's maximum", bor(bnot(is_some(sm)), band(le(I(0), payload(sm)), le(payload(sm), p.spread_max)))),
            ("the spread stays within the caller's limit (the pool's if none is given)", le(ratio, pmul(I(BPS), lim))),
            ("at least the minimum asked for is returned", bor(bnot(is_some(a.ask_asset_min_amount)), le(payload(a.ask_asset_min_amount), t["ret"])))], \
        [bor(bnot(is_some(dl)), le(mk("timestamp"), payload(dl))), bnot(eqn(t["gross"], I(0)))]


@rule("P05")
def p05(ck):
    ck.rule("swap-limit", "every successful swap satisfies the limit, with the pricing formulas substituted for the amounts")
    ck.rule("swap-total", "a swap that satisfies all the limits is not rejected (boundary values included)")
    for c in (POOL, STABLE):
        p = Pool(ck.w, c)
        sp = p.spec(ck, "swap")
        t = swap_terms(p, sp)
        lims, more = swap_limits(p, sp, t)
        for text, pred in lims:
            sp.guard("swap-limit", text, pred)
        allc = TRUE
        for _, x in lims:
            allc = band(allc, x)
        for x in more:
            allc = band(allc, x)
        sp.total("swap-total", "swaps within the limits succeed", allc)
    ck.floor("swap-limit", 12)


@rule("P09")
def p09(ck):
    ck.rule("swap-settle", "the only token movements of a swap are: the offered amount in, the quoted return to the caller, the commission to the fee recipient")
    ck.rule("swap-return", "the swap returns the amount paid out")
    settle(ck, POOL)


def settle(ck, c):
    p = Pool(ck.w, c)
    sp = p.spec(ck, "swap")
    t = swap_terms(p, sp)
    a = sp.a
    sp.calls("swap-settle", [transfer("takes the offered amount", t["sell"], a.sender, SELF, a.offer_amount),
                             transfer("pays the return", t["buy"], SELF, a.sender, t["ret"]),
                             transfer("pays the commission", t["buy"], SELF, p.recipient, t["com"])])
    sp.ret("swap-return", "amount paid out", t["ret"])
    sp.no_other("swap-settle")


@rule("P07")
def p07(ck):
    ck.rule("reserves", "the recorded reserves change by exactly what the pool received and paid")
    ck.rule("frame", "nothing else in storage changes")
    for c in (POOL, STABLE):
        p = Pool(ck.w, c)
        # swap
        sp = p.spec(ck, "swap")
        t = swap_terms(p, sp)
        a = sp.a
        got = mk("delta", t["sell"], sym("transfer"), a.sender, SELF, a.offer_amount)
        for side, r, tok in (("A", p.ra, p.ta), ("B", p.rb, p.tb)):
            sold = by_side(p, a.offer_asset, TRUE, FALSE) if side == "A" else by_side(p, a.offer_asset, FALSE, TRUE)
            exact_reserve(sp, "swap: reserve %s" % side, r, ite(sold, padd(r, got), psub(psub(r, t["ret"]), t["com"])))
        sp.frame("frame", [p.ra, p.rb])
        # liquidity
        for n in ("provide_liquidity",):
            sp = p.spec(ck, n)
            for side, r, tok in (("A", p.ra, p.ta), ("B", p.rb, p.tb)):
                v = post(sp.s, r)
                ok = ends_as_balance(sp, v, tok)
                ck.ob("reserves", "%s: reserve %s" % (sp.n, side), ok, "the reserve recorded is %s, not the pool's balance after the deposit" % show(norm(v))[:300], fn=sp.s.fn.path, site=sp.s.fn.span)
            sp.frame("frame", [p.ra, p.rb, p.T])
        sp = p.spec(ck, "withdraw_liquidity")
        A, B = withdraw_amounts(p, sp)
        exact_reserve(sp, "withdraw: reserve A", p.ra, psub(p.ra, A))
        exact_reserve(sp, "withdraw: reserve B", p.rb, psub(p.rb, B))
        sp.frame("frame", [p.ra, p.rb, p.T])
        # nobody else
        for s in ck.w.of(c):
            if s.name in ("swap", "provide_liquidity", "withdraw_liquidity") or s.name in INIT[c]:
                continue
            ck.analysed.add((c, s.name))
            for e in sets(s):
                hit = any((e.cls, e.key) == slot_of(r).args[:2] for r in (p.ra, p.rb, p.T))
                ck.ob("frame", "%s: %s" % (sname(s), show(e.key)[:60]), not hit, "changes the recorded reserves or share supply", e.site, e.fn)
    ck.floor("reserves", 12)
    ck.floor("frame", 6)


def exact_reserve(sp, text, slot, val):
    got = expand_balances(post(sp.s, slot))
    ok = same(sp.pc, got, val)
    sp.ck.ob("reserves", "%s: %s" % (sp.n, text), ok, "becomes %s, expected %s" % (show(norm(got))[:500], show(norm(val))[:500]), fn=sp.s.fn.path, site=sp.s.fn.span)


def ends_as_balance(sp, v, tok):
    """v is the pool's own balance of tok, read after the last movement of tok"""
    v = simp(norm(v), norm(sp.pc))
    if not (v.op == "ext" and v.args[1] is sym("balance") and v.args[0] is tok and len(v.args) == 4 and v.args[3] is SELF):
        # accept before + delta as well
        return same(sp.pc, expand_balances(v), expand_balances(v)) and v.op == "poly" and False
    seen = expand_balances(v)
    ok = True
    for m in moves(sp.s):
        if same(ctx(sp.s, m.e), m.token, tok):
            d = mk("delta", m.token, m.e.method, *m.e.args)
            ok = ok and any(x is norm(d) or x is d for x in subterms(norm(seen)))
    return ok


def withdraw_amounts(p, sp):
    ratio = pdiv(pmul(sp.a.share_amount, I(ONE18)), p.T)
    return pdiv(pmul(p.ra, ratio), I(ONE18)), pdiv(pmul(p.rb, ratio), I(ONE18))


def greatest(w):
    """the recorded larger of the two token precisions"""
    s = w.S(STABLE, "initialize")
    ti = field(Args(s).lp_init_info, "token_init_info")
    a, b = (mk("ext", field(ti, n), sym("decimals"), FALSE) for n in ("token_a", "token_b"))
    want = norm(ite(le(b, a), a, b))
    for (cls, key), v in s.store.items():
        if same(s.pc, payload(v), want):
            return payload(mk("get", cls, key, FALSE))
    raise Missing("storage location of the larger token precision in %s" % sname(s))


def undec(w, p):
    """a token's decimals are the precision recorded for it"""
    pa, pb = precision(w, p.ta), precision(w, p.tb)

    def f(t):
        sub = {}
        for x in subterms(t):
            if x.op == "ext" and len(x.args) == 3 and x.args[1] is sym("decimals"):
                if x.args[0] is p.ta:
                    sub[x.id] = pa
                elif x.args[0] is p.tb:
                    sub[x.id] = pb
        return rewrite(t, sub) if sub else t
    return lambda t: f(expand_balances(norm(t)))


class Provide:
    """the values a deposit is settled at"""

    def __init__(self, ck, c):
        w = ck.w
        self.p = p = Pool(w, c)
        self.sp = sp = p.spec(ck, "provide_liquidity")
        a = sp.a
        sp.view = undec(w, p) if c == STABLE else expand_balances
        sl = a.custom_slippage_bps
        self.slip = ite(is_some(sl), payload(sl), p.slip_default)
        if c == POOL:
            da, db = payload(a.desired_a), payload(a.desired_b)
            self.given = band(band(is_some(a.desired_a), is_some(a.desired_b)), band(lt(I(0), da), lt(I(0), db)))
            self.empty = band(eqn(p.ra, I(0)), eqn(p.rb, I(0)))
            qa, qb = pdiv(pmul(db, p.ra), p.rb), pdiv(pmul(da, p.rb), p.ra)
            self.A = ite(self.empty, da, ite(lt(da, qa), da, qa))
            self.B = ite(self.empty, db, ite(lt(db, qb), db, qb))
            over = lambda q, d: le(psub(pdiv(pmul(q, I(ONE18)), d), I(ONE18)), pmul(I(BPS), self.slip))
            self.slip_ok = bor(self.empty, band(bor(le(qa, da), over(qa, da)), bor(le(qb, db), over(qb, db))))
            self.mins = lambda m, v: bor(self.empty, bor(bnot(is_some(m)), le(payload(m), v)))
            self.min_le = bor(self.empty, band(self.mins(a.min_a, da), self.mins(a.min_b, db)))
        else:
            self.A, self.B = a.desired_a, a.desired_b
            self.given = band(lt(I(0), self.A), lt(I(0), self.B))
        e = calls_args = None
        self.da = mk("delta", p.ta, sym("transfer"), a.sender, SELF, self.A)
        self.db = mk("delta", p.tb, sym("transfer"), a.sender, SELF, self.B)
        self.newa = self.newb = None
        if c == POOL:
            # reserves become balances: what they become is the basis of the share price
            na, nb = simp(norm(post(sp.s, p.ra)), norm(sp.pc)), simp(norm(post(sp.s, p.rb)), norm(sp.pc))
            self.first = bnot(band(lt(I(0), p.ra), lt(I(0), p.rb)))
            root = mk("sqrt", pmul(self.A, self.B))
            self.root = root
            self.total = ite(self.first, psub(root, I(1000)), pmin(pdiv(pmul(na, p.T), p.ra), pdiv(pmul(nb, p.T), p.rb)))
            self.shares = psub(self.total, p.T)
        else:
            pa, pb = precision(w, p.ta), precision(w, p.tb)
            d = lambda x, y: mk("call", "stable::D", amp(w), agg_array(scale(x, pa, I(18)), scale(y, pb, I(18))))
            got = lambda t, amt: mk("delta", t, sym("transfer"), a.sender, SELF, amt)
            d1 = d(padd(p.ra, got(p.ta, self.A)), padd(p.rb, got(p.tb, self.B)))
            d0 = d(p.ra, p.rb)
            self.first = eqn(p.T, I(0))
            self.shares = ite(self.first, psub(pdiv(d1, pow10(psub(I(18), greatest(w)))), I(1000)),
                              pdiv(pmul(p.T, pdiv(pmul(psub(d1, d0), I(ONE18)), d0)), I(ONE18)))


@rule("P06")
def p06(ck):
    ck.rule("deposit-limit", "every successful deposit meets the limit")
    ck.rule("withdraw-limit", "every successful withdrawal meets the limit")
    ck.rule("liquidity-total", "a deposit or withdrawal that meets the limits is not rejected")
    for c in (POOL, STABLE):
        v = Provide(ck, c)
        sp, p, a = v.sp, v.p, v.sp.a
        sl = a.custom_slippage_bps
        sp.guard("deposit-limit", "both desired amounts are positive", v.given)
        okslip = bor(bnot(is_some(sl)), le(payload(sl), p.slip_max)) if c == POOL else le(v.slip, p.slip_max)
        sp.guard("deposit-limit", "a caller's slippage tolerance does not exceed the pool's maximum", okslip)
        dl = a.deadline
        tot = band(v.given, band(okslip, bor(bnot(is_some(dl)), le(mk("timestamp"), payload(dl)))))
        if c == POOL:
            ma, mb = v.mins(a.min_a, v.A), v.mins(a.min_b, v.B)
            sp.guard("deposit-limit", "at least the minimum of token A is deposited", ma)
            sp.guard("deposit-limit", "at least the minimum of token B is deposited", mb)
            sp.guard("deposit-limit", "the deposit deviates from the pool's ratio by no more than the tolerated slippage", v.slip_ok)
            big = bor(bnot(v.first), lt(I(1000), v.root))
            sp.guard("deposit-limit", "a first deposit is worth more than the minimum liquidity", big)
            pos = lambda o: bor(bnot(is_some(o)), lt(I(0), payload(o)))
            r0 = lambda r: bor(v.empty, bnot(eqn(r, I(0))))
            tot = band(tot, band(band(ma, mb), band(band(v.slip_ok, big), band(band(v.min_le, band(r0(p.ra), r0(p.rb))), band(pos(a.min_a), pos(a.min_b))))))
            sp.total("liquidity-total", "deposits within the limits succeed", tot)
        else:
            m = a.min_shares_to_receive
            amt = minted_to(sp, p, a.sender)
            sp.guard("deposit-limit", "at least the requested number of shares is issued", bor(bnot(is_some(m)), le(payload(m), norm(amt))))
            sp.guard("deposit-limit", "a first deposit issues shares", bor(bnot(v.first), bnot(eqn(norm(amt), I(0)))))
        sp = p.spec(ck, "withdraw_liquidity")
        a = sp.a
        A, B = withdraw_amounts(p, sp)
        conds = [("the shares handed in are positive", lt(I(0), a.share_amount)), ("at least the minimum of token A is paid", le(a.min_a, A)), ("at least the minimum of token B is paid", le(a.min_b, B)),
                 ("nothing can be withdrawn from an empty pool", bnot(eqn(p.T, I(0))))]
        dl = a.deadline
        tot = band(band(lt(I(0), a.min_a), lt(I(0), a.min_b)), bor(bnot(is_some(dl)), le(mk("timestamp"), payload(dl))))
        for t, q in conds:
            sp.guard("withdraw-limit", t, q)
            tot = band(tot, q)
        sp.total("liquidity-total", "withdrawals within the limits succeed", tot)
    ck.floor("deposit-limit", 10)
    ck.floor("withdraw-limit", 8)


def minted_to(sp, p, who):
    for e in calls(sp.s, "mint", True):
        if same(ctx(sp.s, e), e.addr, p.share) and same(ctx(sp.s, e), e.args[0], who):
            return e.args[1]
    raise Missing("%s: mint of shares to the depositor" % sp.n)


@rule("P08")
def p08(ck):
    ck.rule("supply", "the recorded share supply changes by exactly the shares minted minus the shares burned in the same call")
    ck.rule("issue", "shares are minted only by deposits and burned only by withdrawals")
    for c in (POOL, STABLE):
        p = Pool(ck.w, c)
        for s in ck.w.of(c):
            ck.analysed.add((c, s.name))
            d = I(0)
            ms = [m for m in moves(s) if m.kind in ("mint", "burn", "burn_from")]
            for m in ms:
                h = ctx(s, m.e)
                if s.name not in INIT[c]:
                    ck.ob("issue", "%s: %s" % (sname(s), m.kind), same(h, m.token, p.share) and not m.e.loops, "mints or burns %s" % show(m.token)[:80], m.e.site, m.e.fn)
                    ck.ob("issue", "%s: %s" % (sname(s), m.kind), s.name == ("provide_liquidity" if m.kind == "mint" else "withdraw_liquidity"), "shares are minted or burned outside of deposits and withdrawals", m.e.site, m.e.fn)
                    d = padd(d, ite(m.e.pc, m.amount if m.kind == "mint" else pneg(m.amount), I(0)))
            if s.name in INIT[c]:
                ck.ob("supply", "%s: starts at zero" % sname(s), same(s.pc, post(s, p.T), I(0)) and not ms, "the share supply does not start at zero", s.fn.span, s.fn.path)
                continue
            if ms or s.name in ("provide_liquidity", "withdraw_liquidity"):
                sp = p.spec(ck, s.name)
                sp.final("supply", "supply follows mints and burns", p.T, padd(p.T, d))
                ck.ob("issue", "%s: %s" % (sp.n, "mints" if s.name == "provide_liquidity" else "burns"), bool(ms), "no shares are minted or burned", s.fn.span, s.fn.path)
    ck.floor("supply", 6)
    ck.floor("issue", 8)


@rule("P10")
def p10(ck):
    ck.rule("deposit", "a deposit moves exactly the deposit amounts in and mints exactly the proportional shares")
    ck.rule("withdraw", "a withdrawal takes the shares, burns them and pays exactly the proportional amounts of both tokens")
    for c in (POOL, STABLE):
        v = Provide(ck, c)
        sp, p, a = v.sp, v.p, v.sp.a
        xs = [transfer("deposits token A", p.ta, a.sender, SELF, v.A), transfer("deposits token B", p.tb, a.sender, SELF, v.B),
              X("mints the depositor's shares", p.share, "mint", [a.sender, v.shares])]
        if c == POOL:
            xs.append(X("locks the minimum liquidity on the first deposit", p.share, "mint", [SELF, I(1000)], v.first))
        sp.calls("deposit", xs)
        sp.no_other("deposit")
        sp = p.spec(ck, "withdraw_liquidity")
        a = sp.a
        A, B = withdraw_amounts(p, sp)
        sp.calls("withdraw", [transfer("takes the shares", p.share, a.sender, SELF, a.share_amount), X("burns the shares", p.share, "burn", [SELF, a.share_amount]),
                              transfer("pays token A", p.ta, SELF, a.sender, A), transfer("pays token B", p.tb, SELF, a.sender, B)])
        sp.ret("withdraw", "returns the amounts paid", mk("agg", "tuple", None, ("0", "1"), A, B))
        sp.no_other("withdraw")
    ck.floor("deposit", 9)
    ck.floor("withdraw", 12)


@rule("P11")
def p11(ck):
    ck.rule("simulate", "the quote equals the amounts a swap settles at in the same state")
    ck.rule("reverse", "the reverse quote is the stated inversion of the pricing formula with the commission added")
    ck.rule("share", "the share query quotes exactly what a withdrawal pays")
    for c in (POOL, STABLE):
        p = Pool(ck.w, c)
        for n in ("simulate_swap", "simulate_reverse_swap"):
            sp = p.spec(ck, n)
            a = sp.a
            for side, cond, ot, at, ro, ra in (p.sides(a.offer_asset) if hasattr(a, "offer_asset") else [(nm, cd, at_, ot_, ra_, ro_) for nm, cd, ot_, at_, ro_, ra_ in p.sides(a.ask_asset)]):
                h = band(sp.pc, cond)
                if n == "simulate_swap":
                    gross, spread, com = p.quote(ck.w, ot, at, ro, ra, a.offer_amount)
                    want = [("ask_amount", psub(gross, com)), ("commission_amount", com), ("spread_amount", spread), ("total_return", padd(gross, spread))]
                else:
                    offer, spread, com = p.reverse(ck.w, ot, at, ro, ra, a.ask_amount)
                    want = [("offer_amount", offer), ("commission_amount", com), ("spread_amount", spread)]
                for f, v in want:
                    got = field(sp.s.ret, f)
                    ok = h is not FALSE and same(h, got, v)
                    ck.ob("simulate" if n == "simulate_swap" else "reverse", "%s (%s): %s" % (sp.n, side, f), ok, "is %s, expected %s" % (show(norm(simp(got, h)))[:600], show(norm(v))[:600]), sp.s.fn.span, sp.s.fn.path)
        sp = p.spec(ck, "query_share")
        ratio = ite(eqn(p.T, I(0)), I(0), pdiv(pmul(sp.a.amount, I(ONE18)), p.T))
        r = sp.s.ret
        for i, tok, res in (("0", p.ta, p.ra), ("1", p.tb, p.rb)):
            x = field(r, i)
            ck.ob("share", "%s: token %s" % (sp.n, i), same(sp.pc, field(x, "address"), tok), "names %s" % show(field(x, "address"))[:100], sp.s.fn.span, sp.s.fn.path)
            ck.ob("share", "%s: amount %s" % (sp.n, i), same(sp.pc, field(x, "amount"), pdiv(pmul(res, ratio), I(ONE18))), "is %s" % show(norm(field(x, "amount")))[:300], sp.s.fn.span, sp.s.fn.path)
    ck.floor("simulate", 16)
    ck.floor("reverse", 12)
    ck.floor("share", 8)


# ------------------------------------------------------------------ stable pricing
def kernel(w, role):
    from engine import interp
    fn = w.role_fn(STABLE, role)
    s = interp.analyse(w.prog, STABLE, fn.name, fn, opaque_fns={k: v for k, v in w.roles(STABLE).items() if v != role})
    s.crate, s.name = STABLE, role
    return s


def num_mus(s, init):
    return [(m, st) for m, (i, st) in s.mus.items() if same(TRUE, i, init)]


TOL = 10 ** 12


@rule("P32")
def p32(ck):
    w = ck.w
    ck.rule("swap-settle", "a stable swap moves exactly: the offered amount in, the return and the commission out, priced by the curve on amounts scaled with each token's own precision")
    ck.rule("swap-return", "the swap returns the amount paid out")
    ck.rule("invariant", "the invariant iterates Newton's step of the two-asset stableswap equation from the sum of the balances, and only a converged value is returned")
    ck.rule("curve", "the swap curve iterates Newton's step of the stableswap equation solved for one balance, and only a converged value is returned, in the target precision")
    ck.rule("amp", "the amplification moves linearly between its two settings and stays at the second one afterwards")
    settle(ck, STABLE)
    # the invariant
    s = kernel(w, "stable::D")
    n = "invariant"
    am, po = (mk("param", x[0]) for x in s.params)
    x0, x1 = mk("index", po, I(0)), mk("index", po, I(1))
    idx = sorted({t.id: t for t in subterms(norm(s.pc)) if t.op in ("idx", "index", "elem") and any(y is po for y in t.args)}.values(), key=lambda t: show(t))
    if len(idx) != 2:
        raise Missing("%s: the two balances (found %s)" % (n, [show(t) for t in idx]))
    x0, x1 = idx
    S = padd(x0, x1)
    ok = False
    cand = num_mus(s, S)
    for d, st in cand:
        dp = pdiv(pmul(pmul(d, d), d), pmul(I(4), pmul(x0, x1)))
        step = lambda L: pdiv(pmul(padd(pmul(L, S), pmul(I(2), dp)), d), padd(pmul(psub(L, I(1)), d), pmul(I(3), dp)))
        right = [pdiv(pmul(I(2), am), I(100)), pmul(I(2), pdiv(am, I(100)))]
        wrong = pmul(I(2 * ONE18), pdiv(am, I(100)))
        nz = band(s.pc, bnot(eqn(S, I(0))))
        if any(same(TRUE, st, step(L)) for L in right):
            ok, L = True, next(L for L in right if same(TRUE, st, step(L)))
            ck.ob("invariant", "%s: leverage" % n, True)
        elif same(TRUE, st, step(wrong)):
            ok, L = True, wrong
            ck.ob("invariant", "%s: leverage is 2e18*(amp/100)" % n, False, "the leverage is scaled by 10^18 while the other terms of the equation are not: the amplification has no effect on the invariant", s.fn.span, s.fn.path)
        else:
            continue
        ck.ob("invariant", "%s: returns the last step" % n, same(nz, s.ret, step(L)) and same(band(s.pc, eqn(S, I(0))), s.ret, I(0)), "returns %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
        ck.ob("invariant", "%s: only when converged" % n, entails(nz, band(le(psub(d, step(L)), I(TOL)), le(psub(step(L), d), I(TOL)))), "can return a value that has not converged", s.fn.span, s.fn.path)
        break
    ck.ob("invariant", "%s: Newton step" % n, ok, "the iteration is not the Newton step of the stableswap equation; it is %s" % [show(norm(st))[:400] for m, st in s.mus.values()][:2], s.fn.span, s.fn.path)
    bounded(ck, s, "invariant", n)
    # the curve
    s = kernel(w, "stable::Y")
    n = "curve"
    am, x, xp, prec = (mk("param", q[0]) for q in s.params)
    D = mk("call", "stable::D", am, xp)
    ok = False
    for y, st in num_mus(s, D):
        c = pdiv(pmul(I(100), pmul(D, pmul(D, D))), pmul(pmul(I(4), x), pmul(I(2), am)))
        b = padd(x, pdiv(pmul(I(100), D), pmul(I(2), am)))
        step = pdiv(padd(pmul(y, y), c), psub(padd(pmul(I(2), y), b), D))
        if not same(TRUE, st, step):
            continue
        ok = True
        ck.ob("curve", "%s: returns the last step in the target precision" % n, same(band(s.pc, le(prec, I(18))), s.ret, pdiv(step, pow10(psub(I(18), prec)))), "returns %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
        ck.ob("curve", "%s: only when converged" % n, entails(s.pc, band(le(psub(y, step), I(TOL)), le(psub(step, y), I(TOL)))), "can return a value that has not converged", s.fn.span, s.fn.path)
    ck.ob("curve", "%s: Newton step" % n, ok, "the iteration is not the Newton step of the stableswap equation for one balance; it is %s" % [show(norm(st))[:400] for m, st in s.mus.values()][:2], s.fn.span, s.fn.path)
    bounded(ck, s, "curve", n)
    # amplification
    s = kernel(w, "stable::AMP")
    a = mk("param", s.params[0][0])
    at = amp_fields(w)
    ia, it, na, nt = (field(a, f) for f in at)
    now = mk("timestamp")
    el, rg = ite(lt(now, it), I(0), psub(now, it)), ite(lt(nt, it), I(0), psub(nt, it))
    up = padd(ia, pdiv(pmul(psub(na, ia), el), rg))
    dn = psub(ia, pdiv(pmul(psub(ia, na), el), rg))
    ck.ob("amp", "after the change", same(band(s.pc, le(nt, now)), s.ret, na), "is %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
    mid = band(s.pc, band(le(it, now), band(lt(now, nt), le(it, nt))))
    ck.ob("amp", "rising", same(band(mid, lt(ia, na)), s.ret, up), "is %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
    ck.ob("amp", "falling", same(band(mid, lt(na, ia)), s.ret, dn), "is %s" % show(norm(s.ret))[:300], s.fn.span, s.fn.path)
    ck.floor("swap-settle", 4)
    ck.floor("invariant", 4)
    ck.floor("curve", 3)
    ck.floor("amp", 3)


def amp_fields(w):
    """(first value, its time, second value, its time) field names of the amplification parameters, by declaration order of the pairs stored at initialisation"""
    s = w.S(STABLE, "initialize")
    v = s.store[slot_of(amp_of(w)).args[:2]]
    v = payload(v)
    names = list(v.args[2])
    want = pmul(I(100), Args(s).amp)
    vals = [n for n, x in zip(names, v.args[3:]) if same(s.pc, x, want)]
    times = [n for n, x in zip(names, v.args[3:]) if same(s.pc, x, mk("timestamp"))]
    if len(vals) != 2 or len(times) != 2:
        raise Missing("amplification parameters: two values and two times")
    return vals[0], times[0], vals[1], times[1]


def bounded(ck, s, rid, n):
    for l in s.loops:
        hn = [t for t in subterms(s.pc) if t.op == "hasnext" and t.args[0] is l]
        ok = any(t.args[1].op == "agg" and "Range" in str(t.args[1].args[0]) and all(is_int(x) for x in t.args[1].args[3:5]) for t in hn)
        ck.ob(rid, "%s: bounded iteration" % n, ok or counted(s, l), "the iteration has no fixed bound", s.fn.span, s.fn.path)


def counted(s, l):
    """a counter that goes up or down by one from a constant, and a constant it does not pass: beyond it, nothing of the loop succeeds"""
    of = lambda t: [m for m in subterms(t) if m.op == "mu" and m.args[0] is l]
    for m, (init, step) in s.mus.items():
        by = psub(step, m)
        if m.args[0] is not l or not is_int(init) or by not in (TRUE, pneg(TRUE)):
            continue
        for a in atoms_of(s.pc).values():
            if a.op in ("lt", "eq", "eqk") and of(a) and all(x is m for x in of(a)):
                for v in (TRUE, FALSE):
                    beyond = (lambda k: inst_mu(atom(a), m, I(k)) is v)
                    k0, d = init.args[0], by.args[0]
                    stop = next((k for k in range(1000) if beyond(k0 + d * k)), None)
                    if stop is not None and stop > 0 and not beyond(k0) and not of(rewrite(s.pc, {a.id: v})):
                        return True
    return False


def inst_mu(t, m, v):
    return rewrite(t, {m.id: v})


# ------------------------------------------------------------------ initialisation and configuration
INIT_FIELDS = {POOL: ["token_init_info.token_a", "token_init_info.token_b", "swap_fee_bps", "fee_recipient", "max_allowed_slippage_bps", "max_allowed_spread_bps", "max_referral_bps", "admin"],
               STABLE: ["token_init_info.token_a", "token_init_info.token_b", "swap_fee_bps", "fee_recipient", "max_allowed_slippage_bps", "max_allowed_spread_bps", "default_slippage_bps", "admin"]}


def bps_ok(x):
    return band(le(I(0), x), le(x, I(10000)))


@rule("P35")
def p35(ck):
    ck.rule("pool-init", "after initialisation the pool's state is exactly what was asked for: tokens, fees, limits, administrator, empty reserves, its own share token and stake contract")
    for c in (POOL, STABLE):
        w = ck.w
        p = Pool(w, c)
        sp = Spec(ck, c, "initialize")
        a, s = sp.a, sp.s
        li = a.lp_init_info
        ti, si = field(li, "token_init_info"), field(li, "stake_init_info")
        ta, tb = field(ti, "token_a"), field(ti, "token_b")
        sp.guard("pool-init", "the two tokens are distinct and ordered", lt(ta, tb))
        sp.final("pool-init", "token A", p.ta, ta)
        sp.final("pool-init", "token B", p.tb, tb)
        for f in INIT_FIELDS[c][2:]:
            sp.final("pool-init", f, w.init_slot(c, "lp_init_info." + f), field(li, f))
        if c == POOL:
            sp.final("pool-init", "default slippage", p.slip_default, a.default_slippage_bps)
        ok = band(lt(ta, tb), le(field(li, "swap_fee_bps"), a.max_allowed_fee_bps))
        for f in INIT_FIELDS[c][2:]:
            if f.endswith("bps"):
                ok = band(ok, bps_ok(field(li, f)))
        ok = band(ok, bps_ok(a.max_allowed_fee_bps))
        if c == POOL:
            ok = band(ok, bps_ok(a.default_slippage_bps))
        else:
            ok = band(ok, band(lt(I(0), a.amp), le(a.amp, I(1000000))))
        for g in flags(s):
            ok = band(ok, bnot(is_some(g)))
        sp.total("pool-init", "valid requests are accepted", ok)
        for n, x in (("reserve A", p.ra), ("reserve B", p.rb), ("share supply", p.T)):
            sp.final("pool-init", n + " starts at zero", x, I(0))
        dec = a.share_token_decimals if c == POOL else None
        if c == STABLE:
            da, db = (mk("ext", t, sym("decimals"), FALSE) for t in (ta, tb))
            dec = ite(le(da, db), db, da)
            sp.final("pool-init", "precision of token A", precision(w, ta), da, band(sp.pc, bnot(eq(ta, tb))))
            sp.final("pool-init", "precision of token B", precision(w, tb), db)
            sp.final("pool-init", "greater precision", greatest(w), dec)
            sp.guard("pool-init", "the amplification is between 1 and its maximum", band(lt(I(0), a.amp), le(a.amp, I(1000000))))
        lp = simp(post(s, p.share), s.pc)
        okd = lp.op == "deployed" and same(s.pc, lp.args[1], a.token_wasm_hash) and same(s.pc, lp.args[2], mk("agg", "tuple", None, ("0", "1", "2", "3"), SELF, dec, a.share_token_name, a.share_token_symbol))
        ck.ob("pool-init", "%s: share token deployed by the pool" % sp.n, okd, "share token is %s" % show(norm(lp))[:400], s.fn.span, s.fn.path)
        st = simp(post(s, w.q(c, "query_stake_contract_address")), s.pc)
        okd = st.op == "deployed" and same(s.pc, st.args[1], a.stake_wasm_hash) and same(s.pc, post(s, w.q(c, "query_share_token_address")), lp)
        ck.ob("pool-init", "%s: stake contract deployed by the pool" % sp.n, okd, "stake contract is %s" % show(norm(st))[:400], s.fn.span, s.fn.path)
        sp.calls("pool-init", [X("initialises its stake contract", st, "initialize", [field(li, "admin"), lp, field(si, "min_bond"), field(si, "min_reward"), field(si, "manager"), a.factory_addr, field(si, "max_complexity")])])
    ck.floor("pool-init", 30)


@rule("P26")
def p26(ck):
    ck.rule("init-bounds", "initialisation rejects basis points outside 0..=10000 and a swap fee above the allowed maximum")
    ck.rule("update-exact", "a configuration update sets exactly the fields given and keeps all others")
    ck.rule("update-bounds", "an update rejects basis points outside 0..=10000")
    ck.rule("update-total", "an update with valid values by the administrator is not rejected")
    for c in (POOL, STABLE):
        w = ck.w
        p = Pool(w, c)
        sp = Spec(ck, c, "initialize")
        li = sp.a.lp_init_info
        b = TRUE
        for f in INIT_FIELDS[c][2:]:
            if f.endswith("bps"):
                sp.guard("init-bounds", f, bps_ok(field(li, f)))
        sp.guard("init-bounds", "swap fee within the allowed maximum", le(field(li, "swap_fee_bps"), sp.a.max_allowed_fee_bps))
        if c == POOL:
            sp.guard("init-bounds", "default slippage", bps_ok(sp.a.default_slippage_bps))
            up = Spec(ck, c, "upgrade")
            up.guard("update-bounds", "default slippage", bps_ok(up.a.new_default_slippage_bps))
            up.final("update-exact", "default slippage", p.slip_default, up.a.new_default_slippage_bps)
            up.frame("update-exact", [p.slip_default])
        sp = Spec(ck, c, "update_config")
        a, s = sp.a, sp.s
        slot = lambda n: w.init_slot(c, "lp_init_info." + n)
        m = [("new_admin", "admin"), ("total_fee_bps", "swap_fee_bps"), ("fee_recipient", "fee_recipient"), ("max_allowed_slippage_bps",) * 2, ("max_allowed_spread_bps",) * 2]
        if c == POOL:
            m.append(("max_referral_bps",) * 2)
        cfg = slot_of(p.fee)
        upd = {}
        tot = TRUE
        for pn, f in m:
            o = getattr(a, pn)
            t = slot(f)
            want = ite(is_some(o), payload(o), t)
            sp.final("update-exact", pn, t, want)
            if pn.endswith("bps"):
                q = bor(bnot(is_some(o)), bps_ok(payload(o)))
                sp.guard("update-bounds", pn, q)
                tot = band(tot, q)
            upd[t.id] = 1
        for f in config_fields(w, c, cfg):
            t = field(payload(cfg), f)
            if t.id not in upd:
                sp.final("update-exact", "keeps %s" % f, t, t)
        sp.frame("update-exact", [cfg, slot("admin")])
        ad = slot("admin")
        if hasattr(a, "sender"):
            tot = band(tot, eq(a.sender, ad))
        sp.total("update-total", "valid updates succeed", tot)
    ck.floor("init-bounds", 11)
    ck.floor("update-exact", 18)
    ck.floor("update-bounds", 8)


def config_fields(w, c, cfg):
    s = w.S(c, "initialize")
    return list(payload(s.store[cfg.args[:2]]).args[2])
