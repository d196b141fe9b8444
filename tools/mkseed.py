#!/usr/bin/env python3
"""Author a seed in a scratch worktree: mkseed.py DEF.py ... where DEF.py sets id, prop, needs, breaks, edits=[(file, old, new)], main (rust source) or script.
Confirms: builds, the existing tests pass, demo passes without and fails with the change. Not used by any check."""
import json, os, shutil, subprocess, sys
R = "/tmp/seedrepo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
if not os.path.exists(R):
    subprocess.run(f"git -C /repo worktree prune; git -C /repo worktree add -f -q --detach {R} HEAD", shell=True, check=True)
sh("git checkout -q --detach main; git checkout -q -- .")
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    out = os.path.join(V, "seeded", d["id"])
    os.makedirs(out, exist_ok=True)
    shutil.copy(os.path.join(V, "tools/seedtpl/demo.sh"), out)
    open(os.path.join(out, "main.rs"), "w").write(d["main"])
    json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    r = sh(f"bash {out}/demo.sh", timeout=400)
    print(d["id"], "unchanged:", r.returncode, r.stdout[-600:] if r.returncode else "", flush=True)
    ok = r.returncode == 0
    for file, old, new in d["edits"]:
        s = open(os.path.join(R, file)).read()
        if s.count(old) != 1:
            print("  EDIT does not match once:", file, s.count(old)); ok = False
        open(os.path.join(R, file), "w").write(s.replace(old, new))
    p = sh("git diff").stdout
    open(os.path.join(out, "patch.diff"), "w").write(p)
    r = sh(f"bash {out}/demo.sh", timeout=400)
    print(d["id"], "changed:", r.returncode, r.stdout[-400:], flush=True)
    ok = ok and r.returncode not in (0, 124) and "error: could not compile" not in r.stdout
    if "--notest" not in os.environ.get("SEED", ""):
        r = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --skip web_proxy::broker::tests --skip dht_large --skip gossip_large", timeout=900)
        fails = [l for l in r.stdout.splitlines() if l.endswith("... FAILED") or l.startswith("error")]
        print(d["id"], "tests:", r.returncode, fails, flush=True)
        ok = ok and r.returncode == 0
    sh("git checkout -q -- .")
    print(d["id"], "OK" if ok else "NOT OK", flush=True)
