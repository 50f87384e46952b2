#!/usr/bin/env python3
"""run.py setup | run.py <property>   -- static checks of /repo's current working tree"""
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from engine import build, core  # noqa: E402

for m in sorted(os.listdir(os.path.join(VERIF, "rules"))):
    if m.endswith(".py") and m != "__init__.py":
        importlib.import_module("rules." + m[:-3])


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding:"):
                # finding: property=<id> key=<exact key> :: text
                head, _, text = l.partition(" :: ")
                prop = head.split("property=")[1].split()[0]
                key = head.split("key=", 1)[1]
                out.setdefault(prop, {})[key] = text
    return out


ORDERS = ["0", "2", "1"]     # term orders tried in turn: any run that discharges every obligation is a complete proof
LIMIT = 240


def analyse(prop, d):
    """everything one run of the rules found, as plain data"""
    ck = core.big_stack(lambda: core.run_rules(core.World(d), prop))
    w = ck.w
    ent = sorted(ck.analysed) or sorted(k for k in w._s)
    st = {"blocks": 0, "stmts": 0, "calls": 0, "loops": 0}
    inl, opq = set(), set()
    for k in ent:
        s = w._s.get(k)
        if s is None:
            continue
        for n in st:
            st[n] += s.stats[n]
        inl |= s.stats["inlined"]
        opq |= s.stats["opaque"]
    return {"obs": [list(o[:3]) for o in ck.obs], "bad": [list(b) for b in ck.bad], "rules": ck.rules, "counts": dict(ck.counts), "floors": dict(ck.floors),
            "entries": ["%s::%s" % tuple(k) for k in ent], "stats": st, "inlined": sorted(map(str, inl)), "opaque": sorted(map(str, opq))}


def attempt(prop, d, order):
    """one run under one term order, in a process of its own with a time limit"""
    import subprocess
    env = dict(os.environ, PHX_ORDER=order, PYTHONHASHSEED="0")
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--raw", prop, d], env=env, stdout=subprocess.PIPE, timeout=LIMIT)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode != 0:
        return None
    out = p.stdout.decode()
    i = out.rindex("\n@@RESULT ")
    if "PHX_DEBUG" in os.environ or "PHX_LEAF" in os.environ:
        sys.stdout.write(out[:i])
    return json.loads(out[i + 10:])


def check(prop, tier, seed):
    t0 = time.time()
    print("== %s: static analysis of %s" % (prop, build.REPO), flush=True)
    try:
        d = build.facts()
    except build.BuildError as e:
        print("ERROR: " + str(e))
        return 2
    kn = known().get(prop, {})
    orders = [os.environ["PHX_ORDER"]] if "PHX_ORDER" in os.environ else ORDERS
    best = None
    tried = []
    for o in orders:
        r = attempt(prop, d, o)
        tried.append(o)
        if r is None:
            continue
        r["fresh"] = [b for b in r["bad"] if b[0] not in kn]
        if best is None or len(r["fresh"]) < len(best["fresh"]):
            best = r
        if not r["fresh"] and not (tier == "thorough" and len(tried) < len(orders)):
            break
    if best is None:
        best = {"obs": [], "bad": [], "fresh": [["analysis|no result", "the analysis of this tree did not finish, so nothing is established"]], "rules": {}, "counts": {}, "floors": {},
                "entries": [], "stats": {"blocks": 0, "stmts": 0, "calls": 0, "loops": 0}, "inlined": [], "opaque": []}
    fresh = best["fresh"]
    seen = [(k, m) for k, m in best["bad"] if k in kn]
    ent, st, inl, opq = best["entries"], best["stats"], best["inlined"], best["opaque"]

    class ck:
        obs, rules, counts, floors = best["obs"], best["rules"], best["counts"], best["floors"]
    nob = len(ck.obs)
    good = sum(1 for o in ck.obs if o[2])
    meta = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        j = json.loads(l)
        meta[j["id"]] = j
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static gated-value dataflow over the type-checked MIR of the current tree; no code is run. Each rule below is decided at every instance it matches; an obligation is one instance.",
            "rules": [{"id": r, "text": t, "instances": ck.counts.get(r, 0), "floor": ck.floors.get(r, 0)} for r, t in ck.rules.items()],
            "obligations": nob, "discharged": good,
            "entry_points_analysed": ent,
            "functions_inlined": len(inl), "mir_blocks": st["blocks"], "mir_statements": st["stmts"], "call_sites": st["calls"], "loops_summarised": st["loops"],
            "term_orders_tried": tried, "opaque_callees": opq,
            "instances": ["%s: %s%s" % (r, i, "" if o else "  [VIOLATED]") for r, i, o in ck.obs][:400],
            "known_findings_seen": [k for k, _ in seen],
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("analysed %d entry points (%d blocks, %d call sites, %d functions inlined); %d obligations, %d discharged" % (len(ent), st["blocks"], st["calls"], len(inl), nob, good))
    for k, m in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, m))
    for r, t in ck.rules.items():
        print("  rule %s: %d instances - %s" % (r, ck.counts.get(r, 0), t))
    if fresh:
        rp = os.path.join(VERIF, ".work", "violations-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "violations": [{"key": k, "report": m} for k, m in fresh]}, f, indent=1)
        for k, m in fresh:
            print("  [%s] %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s" % prop)
    return 0


ASSUME = [
    "MIR of the host target built by the pinned nightly rustc from the current sources is representative of the wasm build",
    "the soroban host rolls back every effect of an invocation that panics, and implements storage, authorisation and cross-contract calls as documented",
    "models in engine/models.py of std / soroban-sdk functions; packages/decimal and packages/curve are uninterpreted functions except in the rules that analyse them",
    "cross-contract callees are uninterpreted; entry points named query_*/simulate_*/get_*/balance/... of other contracts are read-only (itself checked for this repository's contracts)",
]


def main():
    a = sys.argv[1:]
    if a[:1] == ["--raw"]:
        r = analyse(a[1], a[2])
        print("\n@@RESULT " + json.dumps(r))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a == ["setup"]:
        d = build.facts()
        print("facts in", d)
        return 0
    if a == ["all"]:
        rc = 0
        for p in sorted(core.REG):
            rc = max(rc, check(p, tier, seed))
        return rc
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
