#!/usr/bin/env python3
"""Static checks for async-tiff.

    run.py setup                       build the MIR extractor and warm the dependency build
    run.py C01 [--tier quick|thorough] [--only REGEX] [-v]

Every run re-extracts the MIR of /repo's working tree, builds the value graphs of the public entry
points the property names, and decides the property's obligations on them.
"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import argparse, collections, fcntl, glob, importlib, json, re, resource, shutil, signal, subprocess, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def build_driver():
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(CACHE, "driver")], cwd=os.path.join(ROOT, "driver"))
    if rc:
        raise SystemExit("driver build failed:\n" + out[-3000:])


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"])[1].strip()


def lockfile():
    """the dependency lock is git-ignored in the repository; supply the recorded one if absent"""
    p = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(p):
        shutil.copy(os.path.join(ROOT, "repo.Cargo.lock"), p)
    return p


def extract(out, args=("--lib", "--all-features"), extra=None):
    """compile /repo's working tree with the extractor as rustc; returns (rc, log)"""
    tgt = os.path.join(CACHE, "target")
    # cargo's freshness check would skip the wrapper: force the workspace crate to be re-analysed
    for pat in (".fingerprint/async-tiff-*", "build/async-tiff", "build/async-tiff-*", "incremental/async_tiff-*"):
        for d in glob.glob(os.path.join(tgt, "*", pat)):
            shutil.rmtree(d, ignore_errors=True)
    env = {"LD_LIBRARY_PATH": sysroot() + "/lib", "VDRIVER_OUT": out, "CARGO_TARGET_DIR": tgt,
           "RUSTC_WORKSPACE_WRAPPER": os.path.join(CACHE, "driver", "debug", "vdriver"), "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "RUSTC_ICE": "0"}
    env.update(extra or {})
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "+nightly", "check", *args, "--offline"]
    if os.path.exists(lockfile()):
        cmd.append("--locked")
    return sh(cmd, env=env, cwd=REPO)


def prepare(verbose=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        mir = os.path.join(CACHE, "mir.%d.json" % os.getpid())
        rc, log = extract(mir)
        if rc == 0 and not os.path.exists(mir):
            shutil.rmtree(os.path.join(CACHE, "target"), ignore_errors=True)
            rc, log = extract(mir)
        if rc or not os.path.exists(mir):
            return None, log
    from mirlib import Program
    P = Program(mir)
    os.remove(mir)
    return P, log


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_OBS = None
_LIM = 60


def one(i):
    import api
    key, f = _OBS[i]
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_LIM)
    try:
        r = api.guarded(f)
        d = dict(key=key, status=r.status, why=r.why, where=r.where, samples=r.samples, fns=list(r.fns), loops=r.loops, n=r.n, wall=round(time.time() - t, 2))
    except Timeout:
        d = dict(key=key, status="undetermined", why="time limit", where="", samples=0, fns=[], loops=0, n=1, wall=_LIM)
    except MemoryError:
        d = dict(key=key, status="undetermined", why="memory limit", where="", samples=0, fns=[], loops=0, n=1, wall=round(time.time() - t, 2))
    except Exception as x:
        d = dict(key=key, status="undetermined", why="internal: %s: %s" % (type(x).__name__, "".join(traceback.format_exc()[-500:])), where="", samples=0, fns=[], loops=0, n=1, wall=round(time.time() - t, 2))
    finally:
        signal.alarm(0)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    t0 = time.time()
    if a.prop == "setup":
        P, log = prepare()
        print("setup: %s" % ("ok, %d bodies" % len(P.bodies) if P else log[-2000:]))
        return 0 if P else 1
    pid = a.prop.upper()
    P, log = prepare()
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    replay = os.path.join(ev, "replay", pid + ".json")
    if P is None:
        json.dump({"property": pid, "why": "the tree does not compile under the analysis toolchain", "log": log[-4000:]}, open(replay, "w"))
        print("the tree does not compile under the analysis toolchain:\n" + log[-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    mod = importlib.import_module("checks." + pid.lower())
    global _OBS, _LIM
    _LIM = getattr(mod, "LIMIT", 60) * (4 if a.tier == "thorough" else 1)
    import api
    api.TIER = a.tier
    _OBS = mod.obligations(P, a.tier)
    idx = [i for i, (k, _) in enumerate(_OBS) if not a.only or re.search(a.only, k)]
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    res = []
    with ctx.Pool(a.j, maxtasksperchild=1) as pool:
        for d in pool.imap(one, idx, chunksize=1):
            res.append(d)
    known = json.load(open(os.path.join(ROOT, "known-findings.json"))).get("findings", []) if os.path.exists(os.path.join(ROOT, "known-findings.json")) else []
    known = {k["key"]: k for k in known if k["property"] == pid}
    cn = collections.Counter(d["status"] for d in res)
    viol = [d for d in res if d["status"] == "refuted" and d["key"] not in known]
    hits = [d for d in res if d["status"] == "refuted" and d["key"] in known]
    und = [d for d in res if d["status"] not in ("proved", "refuted")]
    fns = sorted({f for d in res for f in d["fns"]})
    failclosed = res and cn["proved"] + cn["refuted"] == 0 and not a.only
    n = sum(d["n"] for d in res)
    cov = {
        "explanation": getattr(mod, "RULE", (mod.__doc__ or "").strip()),
        "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip()),
        "obligations": len(res), "sub_obligations": n, "proved": cn["proved"], "refuted": cn["refuted"], "undetermined": len(und),
        "functions_analysed": fns, "loops_summarised": sum(d["loops"] for d in res),
        "undetermined_list": [{"key": d["key"], "why": d["why"][:200]} for d in und][:60],
        "obligation_keys": [d["key"] for d in res][:400],
        "known_findings": [d["key"] for d in hits],
        "valuations": sum(d["samples"] for d in res),
    }
    out = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
           "assumptions": getattr(mod, "ASSUMES", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(viol) + (1 if failclosed else 0)}
    if not a.only:
        json.dump(out, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for d in res:
        if a.v or d["status"] not in ("proved",):
            print("%-12s %s  [%s] %s" % (d["status"], d["key"], d["where"], d["why"][:400 if d["status"] == "refuted" else 160]))
    print("%s: %d obligations, %d proved, %d refuted, %d undetermined; %d functions, %.1fs" % (pid, len(res), cn["proved"], cn["refuted"], len(und), len(fns), time.time() - t0))
    for d in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[d["key"]]["what"]))
    if viol or failclosed:
        json.dump({"property": pid, "rerun": "python3 va/run.py %s --only '^%s$'" % (pid, re.escape(viol[0]["key"])) if viol else "", "violations": viol,
                   "why": "" if viol else "no obligation of this property could be decided on this tree"}, open(replay, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


COMMON = [
    "rustc's MIR (nightly, same source, all features) is the program analysed; external crates and std are represented by the models in va/models.py",
    "obligations whose comparison could not be decided are listed as undetermined and never raise an alarm",
]

if __name__ == "__main__":
    sys.exit(main())
