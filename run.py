#!/usr/bin/env python3
"""Driver of the checks.

  run.py <property>            run the check (VERIF_TIER, VERIF_SEED)
  run.py --setup               build every harness of the quick tier
  run.py --replay <file>       run one replay file

Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself
could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from plan import CHECKS, CONFIGS  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
OUT = os.environ.get("VERIF_OUT", HERE)  # where evidence/ and replays/ go
MUT_SKIP = os.environ.get("VERIF_MUT_SKIP", "").split()
MUT = bool(os.environ.get("VERIF_MUT"))  # development only: a small run with one worker
# several copies of the library linked together under different namespaces
MULTI = {"cfg": ["dbg", "port", "popcnt"],  # C25
         "pin": ["dbg", "pinned"]}          # C33


class Error(Exception):
    pass


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def cpu_has(flag):
    try:
        return flag in open("/proc/cpuinfo").read().split()
    except OSError:
        return False


def usable(cfg):
    return not CONFIGS[cfg]["pop"] or cpu_has("popcnt")


# ------------------------------------------------------------------ building
def farm(cfg):
    """A directory of links to the repository's sources with this
    configuration's succinct_config.hpp."""
    top = os.path.join(BUILD, cfg)
    d = os.path.join(top, "succinct")
    os.makedirs(d, exist_ok=True)
    want = {}
    root = os.path.join(HERE, CONFIGS[cfg]["src"]) if "src" in CONFIGS[cfg] else REPO
    for f in os.listdir(root):
        if f.startswith("test_") or f == "succinct_config.hpp":
            continue
        if f.endswith((".hpp", ".cpp", ".h", ".ipp", ".inl", ".tpp", ".cc", ".hh")):
            want[f] = os.path.join(root, f)
    # subdirectories that hold headers (should the sources ever move there)
    for f in os.listdir(root):
        p = os.path.join(root, f)
        if os.path.isdir(p) and f not in ("perftest", "_build", "cmake") and not f.startswith("."):
            want[f] = p
    for f in os.listdir(d):
        if f == "succinct_config.hpp":
            continue
        p = os.path.join(d, f)
        if not os.path.islink(p) or want.get(f) != os.readlink(p):
            os.unlink(p)
    for f, src in want.items():
        p = os.path.join(d, f)
        if not os.path.lexists(p):
            os.symlink(src, p)
    c = CONFIGS[cfg]
    text = config_header(root, bool(c["intr"]), bool(c["pop"]))
    p = os.path.join(d, "succinct_config.hpp")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    cpps = sorted(f for f in want if f.endswith((".cpp", ".cc")))
    return top, cpps


def config_header(root, intr, pop):
    on = {"SUCCINCT_USE_INTRINSICS": intr, "SUCCINCT_USE_POPCNT": pop, "SUCCINCT_USE_LIBCXX": False}
    out = []
    for line in open(os.path.join(root, "succinct_config.hpp.in")):
        w = line.split()
        if len(w) >= 2 and w[0] == "#cmakedefine":
            if on.get(w[1]):
                out.append("#define " + " ".join(w[1:]) + "\n")
            else:
                out.append("/* #undef %s */\n" % w[1])
        else:
            out.append(line)
    return "".join(out)


def read_deps(path):
    text = open(path).read().replace("\\\n", " ")
    return [x for x in text.split(":", 1)[1].split() if not x.startswith("/usr/")]


def compile_obj(cfg, src, obj, extra=()):
    """Compile unless an object of exactly the same command and inputs is there."""
    top = os.path.join(BUILD, cfg)
    c = CONFIGS[cfg]
    cmd = [c["cxx"], "-std=gnu++17", "-w", *c["flags"].split(), "-I", os.path.join(top, "succinct"), "-I", top,
           "-I", HARNESS, *extra, "-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    stamp = obj + ".stamp"
    try:
        st = json.load(open(stamp))
        if st["cmd"] == cmd and os.path.exists(obj) and sha(obj) == st["obj"] and all(sha(p) == h for p, h in st["deps"].items()):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Error("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    deps = {p: sha(p) for p in read_deps(obj + ".d")}
    with open(stamp, "w") as f:
        json.dump({"cmd": cmd, "obj": sha(obj), "deps": deps}, f)
    return obj


def build_many(wanted):
    """wanted: set of (harness, cfg). Returns {(harness, cfg): binary}."""
    jobs, plan = {}, {}
    farms = {}

    def add(cfg, src, obj, extra=()):
        jobs[obj] = (cfg, src, obj, tuple(extra))
        return obj

    for h, cfg in sorted(wanted):
        if cfg in MULTI:
            objs, names = [], [v for v in MULTI[cfg] if usable(v)]
            for v in names:
                if v not in farms:
                    farms[v] = farm(v)
                top, cpps = farms[v]
                ns = "-Dsuccinct=ns_" + v
                objs.append(add(v, os.path.join(HARNESS, "cfg_variant.cpp"), os.path.join(top, "cfgvar.o"), [ns, "-DCFG_NAME=" + v]))
                for f in cpps:
                    objs.append(add(v, os.path.join(top, "succinct", f), os.path.join(top, "ns_" + f + ".o"), [ns]))
            top = farms["dbg"][0]
            macro = "-DCFG_VARIANTS(X)=" + " ".join("X(%s)" % v for v in names)
            objs.append(add("dbg", os.path.join(HARNESS, h + ".cpp"), os.path.join(top, h + ".o"), [macro]))
            plan[h, cfg] = ("dbg", objs, os.path.join(top, h))
            continue
        if cfg not in farms:
            farms[cfg] = farm(cfg)
        top, cpps = farms[cfg]
        objs = [add(cfg, os.path.join(HARNESS, h + ".cpp"), os.path.join(top, h + ".o"))]
        objs += [add(cfg, os.path.join(top, "succinct", f), os.path.join(top, f + ".o")) for f in cpps]
        # the generated programs of h_headers are linked with the library, it is not
        plan[h, cfg] = (cfg, objs[:1] if h == "h_headers" else objs, os.path.join(top, h))
    big = ("h_map", "cfgvar", "h_io", "h_fault", "h_threads", "h_guard", "h_space", "h_ct")
    order = sorted(jobs.values(), key=lambda j: (not any(b in j[2] for b in big), j[2]))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for r in [ex.submit(compile_obj, *j) for j in order]:
            r.result()

    def link(item):
        key, (cfg, objs, out) = item
        want = hashlib.sha256("".join(sha(o) or "" for o in objs).encode()).hexdigest()
        stamp = out + ".link"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want + (sha(out) or ""):
            return key, out
        c = CONFIGS[cfg]
        cmd = [c["cxx"], *c["flags"].split(), *objs, "-o", out, "-lboost_iostreams", "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Error("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        with open(stamp, "w") as f:
            f.write(want + (sha(out) or ""))
        return key, out

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        return dict(ex.map(link, plan.items()))


# ------------------------------------------------------------------- running
def environment(cfg):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_segv=1:exitcode=67"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    e.pop("MALLOC_PERTURB_", None)
    return e


def facet_configs(f):
    return [c for c in f["configs"] if c in MULTI or usable(c)]


def cases_of(f, tier):
    base = f["quick"]
    if tier == "thorough":
        base = f.get("cases") or int(base * (f["thorough"] or 1))
    return base


def runs_of(prop, tier):
    """[(facet entry, cfg, cases)]; the first configuration gets half."""
    out = []
    for f in CHECKS[prop]:
        n = cases_of(f, tier)
        if not n:
            continue
        cfgs = facet_configs(f)
        if MUT:
            cfgs = cfgs[:1] if f["h"] != "h_bw" else cfgs[:3]
            n = max(200, n // 10) if not f["f"].startswith("huge") else 0
            if not n or (prop == "C31" and f["h"] in MUT_SKIP):
                continue
        for i, c in enumerate(cfgs):
            share = n if len(cfgs) == 1 else n / 2 if i == 0 else n / 2 / (len(cfgs) - 1)
            out.append((f, c, max(1, int(share))))
    return out


def run_facet(binary, f, cfg, cases, seed, tier, scratch, replay, cap, salt=""):
    stats = os.path.join(scratch, "stats.json")
    if os.path.exists(stats):
        os.unlink(stats)
    mem = CONFIGS["dbg" if cfg in MULTI else cfg]["mem"]
    if mem:
        mem = f.get("mem", mem)
    workers = 1 if MUT else f.get("workers", 8)
    cmd = [binary, "--facet", f["f"], "--seed", str(seed), "--salt", cfg + salt, "--cases", str(cases),
           "--workers", str(workers), "--max-seconds", str(cap), "--mem-mb", str(mem), "--scale", str(f["scale"]),
           "--case-cpu", str(f.get("case_cpu", 40)), "--stats", stats, "--replay-out", replay, "--scratch", scratch,
           "--shrink-seconds", "0" if MUT else "20"]
    if f.get("fork"):
        cmd.append("--fork-each")
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=environment(cfg))
    if r.returncode not in (0, 1) or not os.path.exists(stats):
        raise Error("%s exited with %s: %s %s" % (" ".join(cmd), r.returncode, r.stdout[-1000:], r.stderr[-1000:]))
    return r.returncode, json.load(open(stats)), r.stdout


def replay_file(path, scratch, quiet=False):
    h = cfg = facet = None
    for line in open(path, errors="replace"):
        w = line.split()
        if len(w) >= 2 and w[0] == "harness":
            h = w[1]
        if len(w) >= 2 and w[0] == "config":
            cfg = w[1]
    if not h or not cfg:
        raise Error("%s names no harness/config" % path)
    if cfg not in MULTI and not usable(cfg):
        cfg = "dbg"
    b = build_many({(h, cfg)})[h, cfg]
    mem = CONFIGS["dbg" if cfg in MULTI else cfg]["mem"]
    r = subprocess.run([b, "--replay", path, "--scratch", scratch, "--mem-mb", str(20000 if mem else 0), "--case-cpu", "300"],
                       capture_output=True, text=True, errors="replace", env=environment(cfg))
    if r.returncode not in (0, 1):
        raise Error("replay of %s exited with %s: %s" % (path, r.returncode, r.stderr[-500:]))
    if not quiet:
        print(r.stdout)
    return r.returncode, r.stdout


def finish_replay(path, harness, cfg):
    text = open(path, errors="replace").read()
    with open(path, "w") as f:
        f.write("harness %s\nconfig %s\n" % (harness, cfg) + text)


def fuzz(binary, confirm_bin, f, seconds, seed, scratch, replay):
    """One libFuzzer campaign; returns (executions, violation?, note)."""
    d = os.path.join(scratch, "fuzz")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "corpus"))
    env = environment("fuzz")
    env["ENG_FACET"] = f["f"]
    env["ENG_SCRATCH"] = d
    jobs = 8
    procs = []
    for j in range(jobs):
        cmd = [binary, "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % (512 if j % 2 else 4096),
               "-artifact_prefix=%s/art%d-" % (d, j), "-rss_limit_mb=3500", "-timeout=120", "-print_final_stats=1",
               "-use_value_profile=%d" % (j % 2), "-reload=5", os.path.join(d, "corpus")]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log%d" % j), "w"), env=env))
    execs = 0
    try:
        for p in procs:
            p.wait(timeout=seconds + 240)
    except subprocess.TimeoutExpired:
        pass
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
    for j in range(jobs):
        for line in open(os.path.join(d, "log%d" % j), errors="replace"):
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[1])
    corpus = len(os.listdir(os.path.join(d, "corpus")))
    for a in sorted(glob.glob(os.path.join(d, "art*"))):
        if "-oom-" in a or "-slow-unit-" in a or "-timeout-" in a:
            continue
        r = subprocess.run([confirm_bin, "--facet", f["f"], "--bytes-in", a, "--scratch", scratch, "--replay-out", replay,
                            "--mem-mb", "0"], capture_output=True, text=True, errors="replace", env=environment("asan"))
        if r.returncode == 1:
            return execs, corpus, True, r.stdout
    return execs, corpus, False, ""


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            if line.startswith("known:"):
                out.append(line[6:].strip())
    except OSError:
        pass
    return out


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    runs = runs_of(prop, tier)
    wanted = {(f["h"], c) for f, c, n in runs}
    fuzzed = []
    if tier == "thorough":
        for f in CHECKS[prop]:
            if f["f"].startswith("huge") or f["h"] in ("h_cfg", "h_compat", "h_threads", "h_pages", "h_io", "h_fault", "h_headers"):
                continue
            if f["f"] not in [x["f"] for x in fuzzed]:
                fuzzed.append(f)
                wanted |= {(f["h"], "fuzz"), (f["h"], "asan")}
    bins = build_many(wanted)
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rep_dir = os.path.join(OUT, "replays", prop)
    shutil.rmtree(rep_dir, ignore_errors=True)
    os.makedirs(rep_dir)
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "2400"))
    fuzz_each = 0
    if fuzzed:
        fuzz_each = max(20, min(120, int(600 / len(fuzzed))))
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "runs": [], "labels": {}, "regressions_replayed": 0}
    rules, violation, notes = [], None, []
    try:
        for path in [] if MUT else sorted(glob.glob(os.path.join(HERE, "regress", prop, "*"))):
            rc, out = replay_file(path, scratch, quiet=True)
            cov["regressions_replayed"] += 1
            if rc:
                # three times, in fresh processes
                if all(replay_file(path, scratch, quiet=True)[0] for _ in range(2)):
                    violation = (path, out.strip())
                    break
        t_run = time.time()
        for i, (f, cfg, n) in enumerate(runs):
            if violation:
                break
            left = budget - (time.time() - t_run)
            cap = max(3.0, left / (len(runs) - i) * 2.5)
            replay = os.path.join(rep_dir, "%s-%s.replay" % (f["f"], cfg))
            rc, st, out = run_facet(bins[f["h"], cfg], f, cfg, n, seed, tier, scratch, replay, cap)
            cov["evaluations"] += st["evaluations"]
            cov["distinct_nontrivial"] += st["distinct_nontrivial"]
            cov["runs"].append({"facet": f["f"], "config": cfg, "cases": st["evaluations"], "requested": n,
                                "distinct_nontrivial": st["distinct_nontrivial"], "wall_s": round(st["wall_s"], 2),
                                "time_capped_workers": st["time_capped_workers"]})
            if st["note"] != "none":
                notes.append(st["note"][:400])
            if f["f"] not in rules:
                rules.append(f["f"])
                cov["rule"] += "%s: %s. " % (f["f"], st["rule"])
                cov["samples"] += ["%s: %s" % (f["f"], x[:400]) for x in st["samples"][:2]]
                cov["labels"][f["f"]] = st["labels"]
            if rc == 1:
                finish_replay(replay, f["h"], cfg)
                violation = (replay, out.strip())
        for f in fuzzed:
            if violation:
                break
            replay = os.path.join(rep_dir, "%s-fuzz.replay" % f["f"])
            ex, corpus, bad, out = fuzz(bins[f["h"], "fuzz"], bins[f["h"], "asan"], f, fuzz_each, seed, scratch, replay)
            cov.setdefault("libfuzzer", []).append({"facet": f["f"], "executions": ex, "corpus": corpus, "seconds": fuzz_each})
            cov["evaluations"] += ex
            cov["distinct_nontrivial"] += corpus
            if bad:
                finish_replay(replay, f["h"], "asan")
                violation = (replay, out.strip())
        if fuzzed:
            cov["rule"] += "libFuzzer: the same facets driven by coverage-guided byte strings decoded into the choices; distinct non-trivial = inputs kept in the corpus for new coverage. "
        cov["rule"] = ("Each case is a random choice tape expanded into structured inputs; distinct = different tapes (hash), counted per facet and configuration. "
                       + cov["rule"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["inputs respect the preconditions stated in the property", "x86-64 Linux, the installed compilers"],
          "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": 1 if violation else 0, "notes": notes}
    if violation:
        ev["violation"] = violation[1][:2000]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_findings():
        if k.split()[0] == "property=" + prop:
            print("KNOWN-FINDING: " + k)
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" %
          (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], t_build, ev["wall_s"]))
    for n in notes:
        print("note: " + n)
    if violation:
        print(violation[1][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            wanted = set()
            for p in CHECKS:
                wanted |= {(f["h"], c) for f, c, n in runs_of(p, "quick")}
            build_many(wanted)
            return 0
        if len(a) == 2 and a[0] == "--replay":
            d = tempfile.mkdtemp(prefix="verif-replay-")
            try:
                return replay_file(a[1], d)[0]
            finally:
                shutil.rmtree(d, ignore_errors=True)
        if len(a) == 1 and a[0] in CHECKS:
            return check(a[0])
        print(__doc__)
        return 2
    except Error as e:
        print("ERROR: " + str(e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
