#!/usr/bin/env python3
"""Development tool: verify a planted bug and run its check against it.

  seedbug.py <seeded dir> [--no-check] [--props C01,C02] 

In a scratch copy of /repo (bind-mounted over /repo in a private mount
namespace, so that build.sh and test.sh can be used unchanged): the demo must
pass on the clean tree; with the patch the build and the stable tests must pass
and the demo fail. Then the check of the bug's property runs against the
patched copy.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          capture_output=True, text=True, errors="replace", **kw)


def main():
    d = os.path.abspath(sys.argv[1])
    name = os.path.basename(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="sb-" + name + "-")
    copy = os.path.join(top, "repo")
    res = {"bug": name, "property": meta["property"]}
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        demo = os.path.join(top, "demo")
        shutil.copytree(d, demo)
        r = ns(copy, "bash %s/demo.sh" % demo)
        res["demo_clean"] = r.returncode
        if r.returncode:
            res["demo_clean_out"] = (r.stdout + r.stderr)[-800:]
        r = subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        res["applies"] = r.returncode == 0
        if r.returncode:
            res["err"] = r.stderr
            return res
        out = os.path.join(top, "t.json")
        r = ns(copy, "bash /opt/vp/test.sh %s" % out)
        try:
            t = json.load(open(out))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("stable") or base.get("passed") or base.get("stable_tests") or base
            passed = set(t["passed"])
            res["tests_missing"] = [x for x in stable if x not in passed]
        except Exception as e:
            res["tests"] = "ERR %s %s" % (e, r.stderr[-500:])
        r = ns(copy, "bash %s/demo.sh" % demo, timeout=300)
        res["demo_bug"] = r.returncode
        res["demo_bug_out"] = (r.stdout + r.stderr)[-300:]
        if "--no-check" not in sys.argv:
            props = [meta["property"]]
            for a in sys.argv:
                if a.startswith("--props="):
                    props = a[8:].split(",")
            for p in props:
                e = dict(os.environ, VERIF_REPO=copy, VERIF_BUILD=os.path.join(top, "b"), VERIF_OUT=os.path.join(top, "o"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                e.setdefault("VERIF_TIER", "quick")
                import time
                t0 = time.time()
                r = subprocess.run(["python3", os.path.join(HERE, "run.py"), p], capture_output=True, text=True, errors="replace", env=e)
                res["check_" + p] = "%s (%.0f s)" % ({1: "CAUGHT", 0: "missed"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t0)
                res["check_out_" + p] = r.stdout[-700:] + r.stderr[-500:]
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


r = main()
ok = r.get("demo_clean") == 0 and r.get("applies") and r.get("tests_missing") == [] and r.get("demo_bug")
print(("VALID " if ok else "INVALID ") + json.dumps(r, indent=1))
