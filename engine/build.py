"""Build the fact extractor and the facts of /repo's current working tree (offline, incremental)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PHX_REPO", "/repo")
WORK = os.environ.get("PHX_WORK", os.path.join(VERIF, ".work"))
NIGHTLY = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
CRATES = {"curve", "phoenix", "phoenix_factory", "phoenix_multihop", "phoenix_pool", "phoenix_pool_stable", "phoenix_stake",
          "phoenix_stake_rewards", "phoenix_trader", "phoenix_vesting", "soroban_decimal", "soroban_token_contract"}
WASM_PKGS = ["soroban-token-contract", "phoenix-stake-rewards", "phoenix-stake", "phoenix-pool", "phoenix-pool-stable", "phoenix-factory", "phoenix-multihop"]


class BuildError(Exception):
    pass


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(kw)
    return e


def run(cmd, cwd=None, e=None):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(WORK, "phxdriver-" + h)
    if not os.path.exists(out):
        log("building the fact extractor")
        e = env()
        e.pop("RUSTUP_TOOLCHAIN")
        rc, o = run([NIGHTLY + "/bin/rustc", "--edition", "2021", "-O", "-C", "link-args=-Wl,-rpath,%s/lib" % NIGHTLY, src, "-o", out + ".tmp"], cwd=WORK, e=e)
        if rc:
            raise BuildError("fact extractor does not build:\n" + o)
        os.rename(out + ".tmp", out)
    return out


def ethnum():
    """ethnum 1.5.0 relies on a transmute the analysis toolchain rejects; only its signatures matter here"""
    d = os.path.join(WORK, "ethnum")
    if not os.path.exists(os.path.join(d, "lib.rs")):
        s = glob.glob("/root/.cargo/registry/src/*/ethnum-1.5.0/src")
        if not s:
            raise BuildError("ethnum-1.5.0 source not found")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(s[0], d + ".tmp")
        p = os.path.join(d + ".tmp", "error.rs")
        t = open(p).read().replace("unsafe { mem::transmute(()) }", "unsafe { mem::zeroed() }")
        open(p, "w").write(t)
        os.rename(d + ".tmp", d)
    return d


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for top in ("contracts", "packages"):
        for r, ds, f in os.walk(os.path.join(REPO, top)):
            ds[:] = [x for x in ds if x not in ("target", "test_snapshots", ".git")]
            fs += [os.path.join(r, x) for x in f if x.endswith((".rs", ".toml", ".md", ".json", ".lock"))]
    fs += [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(fs):
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + hashlib.sha256(open(f, "rb").read()).digest())
    for f in sorted(glob.glob(os.path.join(VERIF, "driver", "*.rs"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def wasm_missing():
    d = os.path.join(REPO, "target/wasm32-unknown-unknown/release")
    return [p for p in WASM_PKGS if not os.path.exists(os.path.join(d, p.replace("-", "_") + ".wasm"))]


def build_wasm():
    log("building the wasm files the contracts import (release)")
    for p in WASM_PKGS:
        # stale imports are not seen by cargo: force the crates that import other contracts' wasm
        for f in glob.glob(os.path.join(REPO, "target/wasm32-unknown-unknown/release/.fingerprint", p + "-" + "[0-9a-f]" * 16)):
            shutil.rmtree(f, ignore_errors=True)
        rc, o = run(["cargo", "build", "--offline", "--locked", "--release", "--target", "wasm32-unknown-unknown", "-p", p], cwd=REPO, e=env(RUSTC_WRAPPER=""))
        if rc:
            raise BuildError("%s does not build:\n%s" % (p, o[-4000:]))


def extract(out):
    tgt = os.path.join(WORK, "target")
    fp = os.path.join(tgt, "debug/.fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            base = n.rsplit("-", 1)[0]
            if base.startswith("phoenix") or base in ("curve", "soroban-token-contract", "soroban-decimal"):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    e = env(PHX_ROOT=REPO, PHX_FACTS=tmp, PHX_ETHNUM=ethnum(), RUSTC_WRAPPER=driver(), RUSTC=NIGHTLY + "/bin/rustc", CARGO_TARGET_DIR=tgt)
    rc, o = run(["cargo", "check", "--offline", "--locked", "--workspace", "--features", "phoenix-vesting/minter", "--lib"], cwd=REPO, e=e)
    if rc:
        return False, o
    got = {os.path.basename(f).split(".")[0] for f in glob.glob(tmp + "/*.json")}
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return True, got


def facts():
    """directory with the facts of the current tree"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(WORK, "facts-" + tree_hash())
        if not os.path.isdir(out):
            for old in glob.glob(os.path.join(WORK, "facts-*")):
                shutil.rmtree(old, ignore_errors=True)
            if wasm_missing():
                build_wasm()
            log("extracting MIR facts from %s" % REPO)
            ok, o = extract(out)
            if not ok:
                log("first attempt failed; rebuilding the imported wasm files")
                build_wasm()
                ok, o = extract(out)
                if not ok:
                    raise BuildError("/repo does not compile:\n" + o[-6000:])
        have = {os.path.basename(f).split(".")[0] for f in glob.glob(out + "/*.json")}
        # crates are keyed by file name prefix
        miss = [c for c in CRATES if not any(h == c or h.startswith(c + "-") for h in have)]
        if miss:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("no facts extracted for crates: %s" % ", ".join(sorted(miss)))
        return out
