"""Calls by name between the contracts: what the caller hands over and expects is what the callee exports."""
from engine.core import *
from engine.spec import *
from engine.terms import *
from .factory import flat

READS = {"query_pool_info_for_factory": (POOL, STABLE), "query_share": (POOL, STABLE), "query_staked": (STAKE,),
         "balance": (TOKEN,)}


def callees(w, s, e, h):
    """[(contract, when)] the call may reach; None when that cannot be told"""
    m = e.method.args[0] if e.method.op == "sym" else None
    if m in READS:
        return [(c, TRUE) for c in READS[m]]
    if m == "initialize":
        i = lambda p: w.init_slot(FACTORY, p)
        hashes = [(i("lp_wasm_hash"), POOL), (i("stable_wasm_hash"), STABLE), (i("stake_wasm_hash"), STAKE), (i("token_wasm_hash"), TOKEN),
                  (Args(w.S(FACTORY, "initialize")).multihop_wasm_hash, MULTIHOP)]
        out = []
        for c, ad in leaves(e.addr):
            if ad.op != "deployed":
                return None
            for d, hs in leaves(ad.args[1]):
                k = band(c, d)
                if sat(band(h, k)) is None:
                    continue
                who = [x for v, x in hashes if same(band(h, k), hs, v)]
                if len(who) != 1:
                    return None
                out.append((who[0], k))
        return out
    return None


@rule("P33")
def p33(ck):
    ck.rule("name", "every function another contract is asked for by name is one it exports")
    ck.rule("arguments", "it is handed as many arguments as it takes, each represented as the type it takes")
    ck.rule("result", "its answer is read as the type it returns: the same fields and variants, represented alike")
    w = ck.w
    exported = {}
    for c, n, f in w.prog.entries():
        exported.setdefault(c, {})[n] = f
    for c in CONTRACTS:
        for s in w.of(c):
            ck.analysed.add((c, s.name))
            for e in s.events:
                if e.kind != "call" or w.prog.imported(e.fn.split("::Client::<")[0] + "::Client"):
                    continue
                h = ctx(s, e)
                if h is FALSE:
                    continue
                inst = "%s: %s" % (sname(s), show(e.method).strip("'"))
                to = callees(w, s, e, h)
                if to is None:
                    m = e.method.args[0] if e.method.op == "sym" else None
                    ck.ob("name", inst, m is not None and any(m in x for x in exported.values()), "no contract exports %s" % show(e.method), e.site, e.fn)
                    continue
                for k, when in to:
                    m = e.method.args[0]
                    f = exported[k].get(m)
                    ck.ob("name", "%s of %s" % (inst, k), f is not None, "%s exports no %s" % (k, m), e.site, e.fn)
                    if f is None:
                        continue
                    ls = f.body["locals"]
                    tid = lambda i: ls[i] if isinstance(ls[i], int) else ls[i][0]
                    ps = [tid(i) for i in range(1, f.body["argc"] + 1)]
                    while ps and f.T[ps[0]]["s"].lstrip("&").endswith("env::Env"):
                        ps = ps[1:]
                    hk = band(h, when)
                    v = e.args[0] if len(e.args) == 1 and e.args[0].op == "spread" else None
                    for c2, l in [(TRUE, list(e.args))] if v is None else [(x, flat(y)) for x, y in leaves(v.args[0])]:
                        if sat(band(hk, c2)) is None or l is None:
                            continue
                        bad = None if len(l) == len(ps) else "hands over %d arguments where %s::%s takes %d" % (len(l), k, m, len(ps))
                        refs = e.aref.split(",") if v is None else [s.valty.get(x, "") for x in l]
                        for x, r, p in zip(l, refs, ps) if not bad else ():
                            if r in ("", "?"):
                                continue
                            T, i = w.prog.deref(r)
                            d = w.prog.agree(T, i, f.T, p)
                            if d:
                                bad = "%s: %s" % (show(x)[:60], d)
                                break
                        ck.ob("arguments", "%s of %s" % (inst, k), bad is None, bad, e.site, e.fn)
                    if e.rref:
                        T, i = w.prog.deref(e.rref)
                        d = w.prog.agree(T, i, f.T, tid(0))
                        ck.ob("result", "%s of %s" % (inst, k), d is None, "reads the answer as something %s::%s does not return: %s" % (k, m, d), e.site, e.fn)
    ck.floor("name", 8)
    ck.floor("arguments", 8)
    ck.floor("result", 8)
