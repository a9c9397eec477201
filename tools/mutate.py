#!/usr/bin/env python3
"""Mutation testing of the harnesses (development tool, not a check).

  mutate.py <out dir> [file ...]

Every single-token mutant of the named /repo sources is compiled against the
harnesses that concern the file, in a private build directory; survivors are
written to <out>/survivors.txt for reading.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, HERE)
H = {
    "bit_vector.hpp": ["C01", "C02", "C03", "C04", "C05", "C21"],
    "rs_bit_vector.hpp": ["C06", "C22", "C19", "C30"], "rs_bit_vector.cpp": ["C06", "C30"],
    "bp_vector.hpp": ["C15", "C16", "C22", "C19"], "bp_vector.cpp": ["C15", "C16", "C30"],
    "darray.hpp": ["C07", "C22", "C19", "C30"], "darray64.hpp": ["C08", "C13", "C22", "C30"],
    "elias_fano.hpp": ["C09", "C10", "C22", "C30"], "elias_fano_list.hpp": ["C11", "C22", "C30"],
    "elias_fano_compressed_list.hpp": ["C12", "C22", "C30"],
    "gamma_vector.hpp": ["C13", "C22", "C30"], "gamma_bit_vector.hpp": ["C14", "C22", "C30"],
    "nibble_vector.hpp": ["C27", "C22", "C30"],
    "cartesian_tree.hpp": ["C17", "C18", "C22", "C30"], "topk_vector.hpp": ["C18", "C22"],
    "broadword.hpp": ["C24", "C25"], "intrinsics.hpp": ["C24", "C25"], "tables.hpp": ["C24", "C15", "C16"],
    "mapper.hpp": ["C19", "C20", "C21", "C22", "C23", "C34", "C31", "C33", "C35"], "mappable_vector.hpp": ["C23", "C19", "C20", "C22", "C21", "C36"],
    "util.hpp": ["C28", "C29", "C35", "C22"], "vbyte.hpp": ["C26"], "forward_enumerator.hpp": ["C11", "C13"],
}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>\-=!+*/|&^])<(?![<=])", ["<="]), (r"(?<![<>\-])>(?![>=])", [">="]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<!\+)\+(?![+=])", ["-"]), (r"(?<![-(,=<>\[] )(?<!-)-(?![->=])", ["+"]),
       (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]), (r"\+\+", ["--"]), (r"--", ["++"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r"\|=", ["&=", "="]), (r"&=", ["|=", "="]),
       (r"(?<!&)&(?![&=])(?= )", ["|"]), (r"(?<!\|)\|(?![|=])", ["&"]), (r" \^ ", [" | "]),
       (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r" % ", [" / "]), (r" \* ", [" + "]), (r" / ", [" * "])]


def mutants(path):
    text = open(path).read().split("\n")
    incomment = False
    for i, line in enumerate(text):
        s = line.strip()
        if s.startswith(("#", "//", "*", "/*", "template", "typedef", "using", "namespace", "assert", "class", "struct")) or not s:
            continue
        code = line.split("//")[0]
        seen = set()
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r in ("+1", "-1"):
                        v = int(m.group(1)) + int(r)
                        if v < 0:
                            continue
                        r2 = str(v)
                    else:
                        r2 = r
                    new = code[:m.start()] + r2 + code[m.end():]
                    # skip template argument lists and includes
                    if re.search(r"\b(vector|cast|numeric_limits|enumerator|greater|less|list|tuple|pair)\s*<[^;]*$", code[:m.start() + 1]) and m.group(0) in ("<", ">"):
                        continue
                    if new not in seen:
                        seen.add(new)
                        yield i, line, new
        if s.endswith(";") and not s.startswith(("return", "}", "break", "public", "friend", "static", "const ", "m_v(", "throw")) and re.match(r"^[\w:.\[\]>*&()-]+\s*(\(|=|\+|-|\||&|\.)", s) and not re.match(r"^(u?int\d*_t|size_t|bool|auto|unsigned|std::|boost::|typename|T|value_type)\b[^(]*\s\w+", s):
            yield i, line, re.match(r"\s*", line).group(0) + ";"


def run(job):
    n, path, i, old, new, out = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(d, "repo")
        os.makedirs(repo)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and f != "succinct_config.hpp":
                shutil.copy(p, repo)
        t = open(os.path.join(REPO, path)).read().split("\n")
        t[i] = new
        open(os.path.join(repo, path), "w").write("\n".join(t))
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.path.join(d, "b"), VERIF_MUT="1", VERIF_SEED="1", VERIF_BUDGET="60", VERIF_OUT=os.path.join(d, "o"))
        verdict = "SURVIVED"
        for c in H[path]:
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), c], env=env, capture_output=True, text=True, errors="replace")
            if r.returncode == 2 or r.returncode not in (0, 1):
                return n, path, i, old, new, "NOCOMPILE" if "compile failed" in r.stderr else "ERROR " + r.stderr[-300:]
            if r.returncode == 1:
                verdict = "caught " + c
                break
        return n, path, i, old, new, verdict
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    files = sys.argv[2:] or list(H)
    jobs = []
    for f in files:
        for i, old, new in mutants(os.path.join(REPO, f)):
            jobs.append((len(jobs), f, i, old, new, out))
    print(len(jobs), "mutants", flush=True)
    cnt = {}
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("MUT_JOBS", "8"))) as ex, open(os.path.join(out, "log.txt"), "a") as log:
        for r in ex.map(run, jobs):
            v = r[5].split()[0]
            cnt[v] = cnt.get(v, 0) + 1
            log.write("%s:%d [%s]\n  - %s\n  + %s\n" % (r[1], r[2] + 1, r[5], r[3].strip(), r[4].strip()))
            log.flush()
    print(cnt)


main()
