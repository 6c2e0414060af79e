#!/usr/bin/env python3
"""seed.py ID: confirm a planted bug in a scratch copy of /repo: it applies, builds, passes the tests, and its demo tells.
   seed.py --checks ID [C01,..]: also run the checks on the scratch copy."""
import os, subprocess, sys, json, shutil
S = "/tmp/srepo"
V = "/verif"
def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout
def reset():
    if not os.path.exists(S):
        sh("cp -a /repo %s" % S)
    sh("cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % S)
def confirm(i, tests=True):
    d = "%s/seeded/%s" % (V, i)
    reset()
    rc, o = sh("bash %s/demo.sh" % d, cwd=S)
    if rc: print(i, "demo fails on the clean tree", o[-800:]); return False
    rc, o = sh("git apply %s/patch.diff" % d, cwd=S)
    if rc: print(i, "does not apply", o); return False
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", LIBCLANG_PATH="/usr/lib/llvm-18/lib")
    rc, o = sh("cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8 --skip test::geotiff_test_data --skip test::ome_tiff", cwd=S, env=env)
    if "error: could not compile" in o or "error[" in o: print(i, "does not build", o[-1500:]); return False
    base = json.load(open("/opt/vp/BASELINE.json"))
    okset = {l[5:].split(" ... ")[0] for l in o.split("\n") if l.startswith("test ") and " ... ok" in l}
    bad = [n for n in base["stable"] if not n.startswith("doc:") and n.split(".rs::", 1)[-1] not in okset]
    bad += [l for l in o.split("\n") if l.startswith("test src/") and l.endswith("FAILED")]
    if bad: print(i, "tests fail", bad[:5]); return False
    rc, o = sh("bash %s/demo.sh" % d, cwd=S)
    if rc == 0: print(i, "demo passes with the patch"); return False
    print(i, "confirmed;", o.strip().split("\n")[-1][:200])
    return True
def checks(i, cs):
    reset(); sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=S)
    for c in cs:
        rc, o = sh("python3 %s/va/run.py %s" % (V, c), env=dict(os.environ, VERIF_REPO=S))
        v = [l for l in o.split("\n") if l.startswith("refuted")]
        print("  %s %s rc=%d %s" % (i, c, rc, (v[0][:160] if v else o.strip().split("\n")[-1][:160])))
def make(i, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new[, nth])]"""
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    reset()
    for ed in edits:
        f, old, new = ed[:3]
        p = os.path.join(S, f); s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and len(ed) < 4): print(i, "edit matches", n, repr(old[:60])); return False
        k = ed[3] if len(ed) > 3 else 0
        at = -1
        for _ in range(k + 1): at = s.index(old, at + 1)
        s = s[:at] + new + s[at + len(old):]
        open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=S)[1])
    L = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
    for f in ("tb.rs", "demo.sh"): shutil.copy(os.path.join(L, f), d)
    open(d + "/demo.rs", "w").write("mod tb;\nuse tb::*;\n" + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return confirm(i) and (checks(i, [prop]) or True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--checks":
        checks(a[1], a[2].split(",") if len(a) > 2 else [json.load(open("%s/seeded/%s/meta.json" % (V, a[1])))["property"]])
    else:
        for i in a:
            if confirm(i):
                checks(i, [json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]])
    reset()
