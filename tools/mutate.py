#!/usr/bin/env python3
"""Mutation campaign (development tool, no registered check uses it).
mutate.py list [files...]                      number of mutants per file
mutate.py run OUT.jsonl N SEED WORKERS [files] runs N random mutants per file against the quick checks of the properties anchored in the file
Every worker has its own copy of /verif and of /repo under /tmp/mut<i>, removed at the end."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
INC = "include/ffcl/"
OPS = [(r" < ", " <= "), (r" < ", " > "), (r" > ", " >= "), (r" > ", " < "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+ 1\b", ""), (r" - 1\b", ""),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin_element\b", "max_element"), (r"\bmax_element\b", "min_element"),
       (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bleft", "right"), (r"\bright", "left"), (r"_1\b", "_2"), (r"_2\b", "_1"), (r"\bfirst\b", "second"),
       (r"\bif \((?!.*constexpr)(.*)\) \{", r"if (true) {"), (r"\bif \((?!.*constexpr)(.*)\) \{", r"if (false) {"), (r"([ (,])0([ ,;)])", r"\g<1>1\2"), (r"([ (,])1([ ,;)])", r"\g<1>0\2"), (r"([ (,])1([ ,;)])", r"\g<1>2\2"),
       (r"\bclosest", "furthest"), (r"\bfurthest", "closest"), (r"\bquery", "reference"), (r"\breference", "query"), (r"\bnearest", "second_nearest"), (r"std::abs", ""), (r"\bcontinue;", ";"), (r"\bbreak;", ";")]
SKIP = re.compile(r"^\s*(//|#|\*|/\*|template|using|static_assert|namespace|typename|public|private|protected|friend)|operator=|enable_if|printf|std::cout")


def mutants(path):
    src = open(path).read().split("\n")
    out = []
    for n, l in enumerate(src):
        if SKIP.search(l) or not l.strip():
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if a in (r" < ", r" > ") and "template" in code:
                    continue
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code:
                    out.append((n, new))
        if re.match(r"^\s+[A-Za-z_][A-Za-z0-9_\[\]\.\->]*(\(.*\)| [-+*/|&]?= .*);$", code):
            out.append((n, "    ;"))
    return sorted(set(out))


def files():
    r = subprocess.check_output(["git", "-C", REPO, "ls-files", INC], text=True).split()
    return [f for f in r if f.endswith(".hpp") and "Timer" not in f]


def anchors():
    m = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            m.setdefault(f, []).append(p["id"])
    return m


EXTRA = {"common/Utils.hpp": ["C09", "C26", "C25", "C04", "C24", "C14"], "UnionFind.hpp": ["C10", "C03", "C11"], "StaticBound": ["C05"], "StaticSegment": ["C05"], "CoreDistances": ["C12"], "Interval.hpp": ["C05", "C23"],
         "PAMBuild": ["C21"], "MinimumSpanningTree": ["C11", "C13"], "SingleLinkageClusterNode": ["C13", "C14"], "CondensedClusterNode": ["C14", "C15"], "Statistics.hpp": ["C25", "C18", "C04"],
         "Distances.hpp": ["C24", "C01", "C20"], "Ball.hpp": ["C05", "C02", "C16"], "KDNodeView": ["C04", "C01", "C02", "C07", "C08", "C16"]}


def props_of(f, am):
    ps = list(am.get(f, []))
    for k, v in EXTRA.items():
        if k in f:
            ps = v + [p for p in ps if p not in v]
    return ps


def worker(i, q, out, lock):
    base = "/tmp/mut%d" % i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call("cp -a %s %s/verif && rm -rf %s/verif/seeded %s/verif/.git && git clone -q %s %s/repo" % (ROOT, base, base, base, REPO, base), shell=True)
    env = dict(os.environ, FFCL_REPO=base + "/repo", VF_MODEL_CACHE="/tmp/mutcache", VF_CPUS="2", VF_TMP=base)
    os.makedirs("/tmp/mutcache", exist_ok=True)
    while True:
        try:
            f, n, new, ps = q.get_nowait()
        except queue.Empty:
            break
        p = base + "/repo/" + f
        old = open(p).read()
        src = old.split("\n")
        orig = src[n]
        src[n] = new
        open(p, "w").write("\n".join(src))
        res = {"file": f, "line": n + 1, "old": orig.strip(), "new": new.strip(), "verdict": "survived", "by": None, "nocompile": []}
        t0 = time.time()
        for pid in ps:
            try:
                r = subprocess.run(["python3", base + "/verif/tools/check.py", pid, "quick"], env=env, capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 3
            if rc == 1:
                res["verdict"], res["by"] = "killed", pid
                break
            if rc != 0:
                if rc == 2 and ("compiling" in r.stderr or "preprocessing" in r.stderr):
                    res["nocompile"].append(pid)
                    break
                else:
                    res.setdefault("broken", []).append([pid, rc, r.stderr[-600:] if rc == 2 else ""])
        if res["nocompile"]:
            res["verdict"] = "nocompile"
        res["s"] = round(time.time() - t0, 1)
        open(p, "w").write(old)
        with lock:
            with open(out, "a") as g:
                g.write(json.dumps(res) + "\n")
    shutil.rmtree(base, ignore_errors=True)


def main():
    a = sys.argv[1:]
    am = anchors()
    if a[0] == "list":
        for f in files():
            print(len(mutants(REPO + "/" + f)), f, props_of(f, am))
        return
    out, N, seed, W = a[1], int(a[2]), int(a[3]), int(a[4])
    fs = [f for f in files() if not a[5:] or any(x in f for x in a[5:])]
    rng = random.Random(seed)
    jobs = []
    for f in fs:
        ms = mutants(REPO + "/" + f)
        ps = props_of(f, am)
        for n, new in rng.sample(ms, min(N, len(ms))):
            jobs.append((f, n, new, ps))
    rng.shuffle(jobs)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    print(len(jobs), "mutants", flush=True)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(W)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
