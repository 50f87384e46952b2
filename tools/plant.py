#!/usr/bin/env python3
"""plant.py ID: (author's helper, no check uses it) turns /tmp/bugs/ID.py into seeded/ID/ and confirms it in a scratch copy.

ID.py defines: prop, needs, breaks, edits=[(file, old, new)...], crate, test (Rust source of the demonstration)."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_WORK", "/tmp/rp")
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DIRS = {"phoenix-pool": "contracts/pool", "phoenix-pool-stable": "contracts/pool_stable", "phoenix-multihop": "contracts/multihop", "phoenix-stake": "contracts/stake",
        "phoenix-stake-rewards": "contracts/stake_rewards", "phoenix-factory": "contracts/factory", "phoenix-vesting": "contracts/vesting", "soroban-token-contract": "contracts/token",
        "phoenix": "packages/phoenix", "curve": "packages/curve", "soroban-decimal": "packages/decimal"}
DEMO = r'''#!/bin/bash
# Runs the demonstration next to this script as one more test of %(crate)s, in a scratch copy of the sources.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
rm -rf /tmp/demo-%(id)s; mkdir -p /tmp/demo-%(id)s; trap 'rm -rf /tmp/demo-%(id)s' EXIT
tar --exclude=./target --exclude=./.git -cf - . | tar -C /tmp/demo-%(id)s -xf -
ln -s "$repo/target" /tmp/demo-%(id)s/target
cd /tmp/demo-%(id)s/%(dir)s/src || exit 2
%(place)s
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
cd /tmp/demo-%(id)s && cargo test --offline --locked -p %(crate)s %(feat)s--lib planted_demo 2>&1 | tee /tmp/demo-%(id)s/log
grep -q '^test result: ok. [1-9]' /tmp/demo-%(id)s/log
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def main(id):
    b = runpy.run_path(os.path.join(os.environ.get("PLANT_SPECS", "/tmp/bugs"), id + ".py"))
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
    for f, old, new in b["edits"]:
        s = open(os.path.join(W, f)).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(os.path.join(W, f), "w").write(s.replace(old, new))
    diff = sh("git diff", W).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(b["test"])
    cd = DIRS[b["crate"]]
    if b["crate"] == "soroban-token-contract":
        place = 'cp "$here/demo.rs" planted_demo.rs; echo "#[cfg(test)] mod planted_demo;" >> lib.rs'
    elif cd.startswith("contracts"):
        place = 'cp "$here/demo.rs" tests/planted_demo.rs; echo "mod planted_demo;" >> tests.rs'
    else:
        place = 'cp "$here/demo.rs" planted_demo.rs; echo "#[cfg(test)] mod planted_demo;" >> lib.rs'
    if b["crate"] == "phoenix-stake-rewards" or True:
        pass
    open(d + "/demo.sh", "w").write(DEMO % dict(id=id, crate=b["crate"], dir=cd, place=place, feat=b.get("feat", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    build = "sed 's#cd /repo#cd %s#' /opt/vp/build.sh > /tmp/plant-build.sh && bash /tmp/plant-build.sh" % W
    if "nobuild" not in sys.argv:
        r = sh(build, W)
        if r.returncode: print("BUILD FAILED\n" + r.stderr[-3000:]); return 1
        r = sh("cargo test --workspace --exclude phoenix-trader --features phoenix-vesting/minter --no-fail-fast --offline --locked -- --test-threads 8", W)
        bad = [l for l in r.stdout.split("\n") if l.endswith("... FAILED")]
        print(id, "tests failing with the patch:", bad)
    r = sh("bash %s/demo.sh" % d, W)
    print(id, "demo with patch (must fail):", r.returncode)
    if "-v" in sys.argv or r.returncode == 0: print(r.stdout[-3000:])
    else: print("\n".join(l for l in r.stdout.split("\n") if "panicked" in l or "error" in l or l.startswith("test "))[:1500])
    sh("git checkout -q -- .", W)
    if "nobuild" not in sys.argv:
        sh(build, W)
    r = sh("bash %s/demo.sh" % d, W)
    print(id, "demo without (must be 0):", r.returncode)
    if r.returncode: print(r.stdout[-3000:])
sys.exit(main(sys.argv[1]))
