"""The trader: the administrator's trades and withdrawals."""
from engine.core import *
from engine.spec import *
from engine.terms import *


@rule("P24")
def p24(ck):
    w = ck.w
    ck.rule("trade", "a trade swaps exactly the given amount of one of the pair's tokens (everything held, if no amount is given) on the given pool, on the trader's own behalf and within the limits given")
    ck.rule("withdraw", "a withdrawal transfers exactly the given amount of the given token (the output token by default) from the trader to the recipient")
    ck.rule("bounds", "a spread limit outside 0..=10000 or a token outside the pair is rejected, and nothing else")
    ck.rule("authorise", "the trader authorises nothing but the pool's transfer of the amount traded")
    ck.rule("setup", "initialisation stores the pair, the output token, the name and the administrator as given and requires the administrator's authorisation; afterwards they never change")
    ck.rule("report", "queries report the stored configuration and the trader's own balances")
    q = lambda n, *p: w.q(TRADER, n, *p)
    ad, out = q("query_admin_address"), q("query_output_token_info", "address")
    ta, tb = (field(q("query_trading_pairs"), i) for i in "01")
    sp = Spec(ck, TRADER, "trade_token")
    a = sp.a
    amt = ite(is_some(a.amount), payload(a.amount), mk("ext", a.token_to_swap, sym("balance"), FALSE, SELF))
    sp.calls("trade", [X("swaps", a.liquidity_pool, "swap", [SELF, a.token_to_swap, amt, a.ask_asset_min_amount, a.max_spread_bps, a.deadline, a.max_allowed_fee_bps])])
    sp.frame("trade", [])
    sp.no_other("trade", ("upgrade", "deploy"))
    inp = bor(eq(a.token_to_swap, ta), eq(a.token_to_swap, tb))
    spr = bor(bnot(is_some(a.max_spread_bps)), band(le(I(0), payload(a.max_spread_bps)), le(payload(a.max_spread_bps), I(10000))))
    sp.guard("bounds", "the token is one of the pair", inp)
    sp.guard("bounds", "the spread limit is in range", spr)
    sp.total("bounds", "valid trades by the administrator are not rejected", band(band(inp, spr), eq(a.sender, ad)))
    n = 0
    for s in w.of(TRADER):
        for e in s.events:
            if e.kind != "authorize_as":
                continue
            n += 1
            ok, why = s.name == "trade_token" and authorises(e, ctx(s, e), a, amt)
            ck.ob("authorise", "%s: authorisation" % sname(s), ok, why, e.site, e.fn)
    ck.need("authorise", sp.n, n, "the trader does not authorise the pool to pull what it trades")
    sp = Spec(ck, TRADER, "transfer")
    a = sp.a
    tok = ite(is_some(a.token_address), payload(a.token_address), out)
    sp.calls("withdraw", [transfer("pays out", tok, SELF, a.recipient, a.amount)])
    sp.frame("withdraw", [])
    sp.total("withdraw", "withdrawals by the administrator are not rejected", eq(a.sender, ad))
    sp = Spec(ck, TRADER, "initialize")
    a = sp.a
    sp.auth("setup", a.admin, "authorised by the administrator named")
    for n, t, v in (("administrator", ad, a.admin), ("token A", ta, field(a.pair_addresses, "0")), ("token B", tb, field(a.pair_addresses, "1")), ("output token", out, a.output_token), ("name", q("query_contract_name"), a.contract_name)):
        sp.final("setup", n, t, v)
    for s in w.of(TRADER):
        if s.name not in INIT[TRADER]:
            ck.ob("setup", "%s: keeps the configuration" % sname(s), not sets(s), "writes storage", sets(s)[0].site if sets(s) else s.fn.span)
    b = ck.S(TRADER, "query_balances")
    ext = lambda t, m, *xs: mk("ext", t, sym(m), FALSE, *xs)
    for f, t in (("output_token", out), ("token_a", ta), ("token_b", tb)):
        for g, v in (("symbol", ext(t, "symbol")), ("amount", ext(t, "balance", SELF))):
            got = field(field(b.ret, f), g)
            ck.ob("report", "balance of %s: %s" % (f, g), same(b.pc, got, v), "is %s" % show(got)[:200], b.fn.span, b.fn.path)
    o = ck.S(TRADER, "query_output_token_info")
    for g, m in (("name", "name"), ("symbol", "symbol"), ("decimal", "decimals")):
        got = field(o.ret, g)
        ck.ob("report", "output token: %s" % g, same(o.pc, got, ext(out, m)), "is %s" % show(got)[:200], o.fn.span, o.fn.path)
    ck.floor("trade", 3)
    ck.floor("withdraw", 3)
    ck.floor("bounds", 3)
    ck.floor("authorise", 1)
    ck.floor("setup", 10)
    ck.floor("report", 9)


def authorises(e, h, a, amt):
    """the authorisation covers exactly: the traded token's transfer(self, pool, amount), nothing below it"""
    v = e.args[0]
    if v.op != "vec":
        return False, "authorises a computed list %s" % show(v)[:200]
    for x in v.args:
        if x.op != "agg" or x.args[1] != "Contract":
            return False, "authorises %s" % show(x)[:200]
        inv = payload_of(x)
        cx = field(inv, "context")
        args = field(cx, "args")
        want = [("contract", field(cx, "contract"), a.token_to_swap), ("function", field(cx, "fn_name"), sym("transfer"))]
        xs = list(args.args[3:]) if args.op == "agg" else list(args.args) if args.op == "vec" else None
        if xs is None or len(xs) != 3:
            return False, "arguments are %s" % show(args)[:200]
        want += [("payer", xs[0], SELF), ("payee", xs[1], a.liquidity_pool), ("amount", xs[2], amt), ("nested", field(inv, "sub_invocations"), mk("vec"))]
        for n, p, q in want:
            if not same(h, p, q):
                return False, "%s is %s, expected %s" % (n, show(norm(p))[:200], show(norm(q))[:200])
    return True, ""


def payload_of(x):
    return x.args[3]
