#!/usr/bin/env python3
"""Mutation sweep: small changes of the contract sources in scratch clones, and which of them no check reports.
   mutate.py list OUT.json          enumerate the mutants of /repo
   mutate.py run OUT.json LOG [N workers] [seed] [count]   run a random sample, one line per mutant"""
import json
import os
import random
import re
import subprocess
import sys
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SWAPS = [("token_a", "token_b"), ("reserve_a", "reserve_b"), ("sender", "recipient"), ("min_a", "min_b"), ("desired_a", "desired_b"), ("from", "to"), ("PERSISTENT", "INSTANCE"),
         ("amount_a", "amount_b"), ("start_time", "end_time"), ("start_point", "end_point"), ("manager", "owner"), ("ask", "offer"), ("sell", "buy"), ("balance_a", "balance_b"),
         ("max_allowed_slippage_bps", "max_allowed_spread_bps"), ("token_in", "token_out"), ("min_x", "max_x"), ("min_y", "max_y"), ("init_amp", "next_amp"), ("init_amp_time", "next_amp_time"),
         ("offer_asset", "ask_asset"), ("pool_balance_a", "pool_balance_b"), ("min_bond", "min_reward"), ("admin", "sender")]
OPS = [(r"(?<=\w\)? )<=(?= )", "<"), (r"(?<=[\w)\]?] )<=(?= )", "<"), (r"(?<=[\w)\]?] )<(?= [\w(&*])", "<="), (r"(?<=[\w)\]?] )>=(?= )", ">"), (r"(?<=[\w)\]?] )>(?= [\w(&*])", ">="), (r"(?<=[\w)\]?] )==(?= )", "!="), (r"(?<=[\w)\]?] )!=(?= )", "=="),
       (r"(?<=[\w)\]?] )\+(?= )", "-"), (r"(?<=[\w)\]?] )-(?= )", "+"), (r"(?<=[\w)\]?] )\*(?= )", "/"), (r"(?<=[\w)\]?] )/(?= )", "*"), (r" \+=(?= )", " -="), (r" -=(?= )", " +="),
       (r"&&", "||"), (r"\|\|(?! *[{\w]*$)", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"if !(?=\w)", "if "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.unwrap_or\(0\)", ".unwrap_or(1)"),
       (r"checked_add\(", "checked_sub("), (r"checked_sub\(", "checked_add("), (r"checked_mul\(", "checked_div("), (r"push_back\(", "push_front("), (r"\.first\(", ".last("), (r"\.last\(", ".first("),
       (r"saturating_sub\(", "saturating_add("), (r"wrapping_add\(", "wrapping_sub("), (r"\bbps\(", "percent("), (r"\.persistent\(\)", ".instance()"), (r"\.instance\(\)", ".persistent()")]
OPS = [o for o in OPS if "\\)? )" not in o[0]]


def sources():
    for top in ("contracts", "packages"):
        for r, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = [d for d in ds if d not in ("target", "tests", "test", "test_snapshots", "testutils")]
            for f in fs:
                p = os.path.join(r, f)
                if f.endswith(".rs") and "/src/" in p and f not in ("tests.rs", "test.rs", "error.rs", "decimal256.rs", "testutils.rs"):
                    yield os.path.relpath(p, REPO)


def mutants():
    out = []
    for f in sources():
        L = open(os.path.join(REPO, f)).read().split("\n")
        end = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l and i + 1 < len(L) and "mod " in L[i + 1] and "{" in L[i + 1]), len(L))
        depth = 0      # inside log!( / publish( / contractmeta
        infn = False
        for i in range(end):
            l = L[i]
            st = l.strip()
            if depth:
                depth += l.count("(") - l.count(")")
                continue
            if not st or st.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "*", "/*")):
                continue
            if re.search(r"\blog!\(|contractmeta!\(|panic_with_error!\(|panic!\(|\.publish\(|\.expect\($", st):
                depth = l.count("(") - l.count(")")
                continue
            if re.match(r"(pub(\(crate\))? )?(fn|trait|impl|struct|enum|const fn|type)\b", st):
                continue
            add = lambda new, kind: out.append({"file": f, "line": i, "old": l, "new": new, "kind": kind})
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if "->" in l[max(0, m.start() - 2):m.end() + 2] or "=>" in l[max(0, m.start() - 1):m.end() + 1]:
                        continue
                    add(l[:m.start()] + rep + l[m.end():], "%s -> %s" % (m.group(0), rep))
            for m in re.finditer(r"(?<![\w.\"'@])\d[\d_]*(?![\w.\"x])", l):
                if '"' in l:
                    continue
                n = int(m.group(0).replace("_", ""))
                for k in (n + 1, n - 1) if n else (1,):
                    add(l[:m.start()] + str(k) + l[m.end():], "%d -> %d" % (n, k))
            for a, b in SWAPS:
                for x, y in ((a, b), (b, a)):
                    for m in re.finditer(r"\b%s\b" % x, l):
                        add(l[:m.start()] + y + l[m.end():], "%s -> %s" % (x, y))
            if re.match(r"^\s+[\w.:&()]+\(.*\);$", l) and not st.startswith(("let ", "return")):
                add(re.sub(r"\S.*", "", l), "statement removed")
            m = re.match(r"^(\s+)(if|while) (?!let)(.*) \{$", l)
            if m:
                add("%s%s !(%s) {" % m.groups(), "condition negated")
                if m.group(2) == "if":
                    add("%sif false && (%s) {" % (m.group(1), m.group(3)), "condition never")
            # arguments swapped within a call
            for m in re.finditer(r"\((&?[\w.]+(?:\(\))?), (&?[\w.]+(?:\(\))?)\)", l):
                add(l[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():], "arguments swapped")
            # multi-line argument lists: this line and the next exchanged
            if re.match(r"^\s+&?[\w.]+(\(\))?,$", l) and i + 1 < end and re.match(r"^\s+&?[\w.]+(\(\))?,$", L[i + 1]):
                out.append({"file": f, "line": i, "old": l, "new": L[i + 1], "old2": L[i + 1], "new2": l, "kind": "neighbouring arguments exchanged"})
    return out


def worker(k, q, r):
    base = "/tmp/mut/w%d" % k
    if not os.path.isdir(base + "/repo"):
        os.makedirs(base, exist_ok=True)
        subprocess.check_call("cp -a /tmp/rp2 %s/repo && cp -a /tmp/w2 %s/w && rm -f %s/w/lock" % (base, base, base), shell=True)
    R = base + "/repo"
    subprocess.check_call("cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % R, shell=True)
    env = dict(os.environ, PHX_REPO=R, PHX_WORK=base + "/w", PHX_ORDER="0", PHX_FAST="1")
    while True:
        m = q.get()
        if m is None:
            return
        p = os.path.join(R, m["file"])
        L = open(p).read().split("\n")
        keep = "\n".join(L)
        assert L[m["line"]] == m["old"]
        L[m["line"]] = m["new"]
        if "new2" in m:
            L[m["line"] + 1] = m["new2"]
        open(p, "w").write("\n".join(L))
        try:
            o = subprocess.run([sys.executable, os.path.abspath(__file__), "one"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600).stdout
            res = o.strip().split("\n")[-1]
        except subprocess.TimeoutExpired:
            res = "TIMEOUT"
        open(p, "w").write(keep)
        r.put((m, res))


def one():
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    import importlib
    from engine import build, core
    for m in sorted(os.listdir(os.path.join(VERIF, "rules"))):
        if m.endswith(".py") and m != "__init__.py":
            importlib.import_module("rules." + m[:-3])
    import run
    kn = run.known()
    try:
        d = build.facts()
    except build.BuildError as e:
        print("NOBUILD")
        return
    res = []

    def go():
        w = core.World(d)
        for p in sorted(core.REG):
            try:
                ck = core.run_rules(w, p)
                bad = [b for b in ck.bad if b[0] not in kn.get(p, {})]
                if bad:
                    res.append("CAUGHT %s %s" % (p, bad[0][0]))
                    return
            except Exception as e:
                res.append("CAUGHT %s exception %s" % (p, str(e)[:80]))
                return
        res.append("SURVIVED")
    core.big_stack(go)
    print("\n" + res[0].replace("\n", " ")[:200])


def main():
    if sys.argv[1] == "list":
        ms = mutants()
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
    elif sys.argv[1] == "one":
        one()
    else:
        ms = json.load(open(sys.argv[2]))
        n = int(sys.argv[4]) if len(sys.argv) > 4 else 7
        random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(ms)
        if len(sys.argv) > 6:
            ms = ms[:int(sys.argv[6])]
        q, r = mp.Queue(), mp.Queue()
        for m in ms:
            q.put(m)
        for _ in range(n):
            q.put(None)
        ps = [mp.Process(target=worker, args=(k, q, r)) for k in range(n)]
        for p in ps:
            p.start()
        with open(sys.argv[3], "a") as f:
            for _ in ms:
                m, res = r.get()
                f.write("%s | %s:%d | %s | %s -> %s\n" % (res, m["file"], m["line"] + 1, m["kind"], m["old"].strip(), m["new"].strip()))
                f.flush()


if __name__ == "__main__":
    main()
