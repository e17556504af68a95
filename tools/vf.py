"""Framework shared by all checks: build a driver from /repo's working tree, run TLC on the
design models, replay generated cases in the real code and validate the recorded traces with TLC."""
import concurrent.futures as cf
import hashlib, importlib, json, os, random, re, select, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FFCL_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
CACHE = os.path.join(ROOT, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = int(os.environ.get("VF_CPUS", 0)) or os.cpu_count() or 4
HUNG = []          # set once a case was confirmed to hang: the other chunks stop at their next hang


class Broken(Exception):
    """The machinery (not the code under test) failed: exit 2."""


def log(*a):
    print("[vf]", *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- build
BASE_FLAGS = ["-std=c++17", "-w", "-DTHREADS_ENABLED=false", "-DVERBOSE=false", "-fopenmp",
              "-I" + REPO + "/include", "-I" + HARN]
MODES = {
    "asan": ["-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "ubsan": ["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O2", "-DNDEBUG"],
    "debug": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g0", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}


BUILD_LOCK, BUILD_LOCKS = threading.Lock(), {}


def prune(prefix):
    """forget old builds of a driver, never one used within the last hour"""
    seen = []
    for f in os.listdir(CACHE):
        if f.startswith(prefix):
            try:
                seen.append((os.path.getmtime(os.path.join(CACHE, f)), f))
            except OSError:
                pass
    for t, f in sorted(seen)[:-4]:
        if time.time() - t > 3600:
            try:
                os.unlink(os.path.join(CACHE, f))
            except OSError:
                pass


def tsan_works():
    """the race detector needs a memory layout some kernels do not give it: where it cannot run, the part runs without it"""
    with tempfile.TemporaryDirectory(prefix="vf-tsan-") as d:
        src, exe = os.path.join(d, "p.cpp"), os.path.join(d, "p")
        with open(src, "w") as f:
            f.write("#include <thread>\nint x; static int n; extern \"C\" void __tsan_on_report(void*) { ++n; }\n"
                    "extern \"C\" const char* __tsan_default_options() { return \"exitcode=0:symbolize=0\"; }\n"
                    "int main() { std::thread a([] { ++x; }), b([] { ++x; }); a.join(); b.join(); return n ? 0 : 3; }\n")
        if subprocess.run(["g++", "-std=c++17", "-O0", "-fsanitize=thread", src, "-o", exe], capture_output=True).returncode != 0:
            return False
        return all(subprocess.run([exe], capture_output=True).returncode == 0 for _ in range(5))


def build(driver, mode="asan", extra=()):
    src = os.path.join(HARN, driver + ".cpp")
    flags = BASE_FLAGS + MODES[mode] + list(extra) + os.environ.get("VF_FLAGS", "").split()
    pre = subprocess.run(["g++", "-E", "-P"] + flags + [src], capture_output=True)
    if pre.returncode != 0:
        raise Broken("preprocessing %s failed:\n%s" % (driver, pre.stderr.decode()[-3000:]))
    key = hashlib.sha256(" ".join(flags).encode() + pre.stdout).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "%s-%s-%s" % (driver, mode, key))
    with BUILD_LOCK:
        lock = BUILD_LOCKS.setdefault(exe, threading.Lock())
    with lock:                                   # two parts may ask for the same driver at the same time
        if not os.path.exists(exe):
            prune("%s-%s-" % (driver, mode))
            tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = subprocess.run(["g++"] + flags + [src, "-o", tmp, "-ltbb"], capture_output=True)
            if r.returncode != 0:
                raise Broken("compiling %s failed:\n%s" % (driver, r.stderr.decode()[:4000]))
            os.replace(tmp, exe)
        try:
            os.utime(exe)
        except OSError:
            pass
    return exe


# ------------------------------------------------------------------------------------------- run cases
def enc(x):
    """token encoding: ints/strings as they are, lists prefixed with their length"""
    if isinstance(x, bool):
        return [str(int(x))]
    if isinstance(x, (int, str)):
        return [str(x)]
    out = [str(len(x))]
    for y in x:
        out += enc(y)
    return out


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2000"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "2")
    return e


def _run_once(exe, lines, stall):
    """Runs the driver on the lines. Returns (outputs by order, status, stderr tail)."""
    with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as ferr:
        fin.write(("\n".join(lines) + "\n").encode())
        fin.seek(0)
        p = subprocess.Popen([exe], stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=run_env())
        buf, status = b"", "ok"
        fd = p.stdout.fileno()
        while True:
            r, _, _ = select.select([fd], [], [], stall)
            if not r:
                p.kill()
                status = "hang"
                break
            d = os.read(fd, 1 << 16)
            if not d:
                break
            buf += d
        p.stdout.close()
        rc = p.wait()
        if status == "ok" and rc != 0:
            status = "crash:%d" % rc
        ferr.seek(0, 2)
        sz = ferr.tell()
        ferr.seek(max(0, sz - 6000))
        err = ferr.read().decode(errors="replace")
    outs = [l for l in buf.decode().split("\n")[:-1] if l]
    return outs, status, err


def run_chunk(exe, items, stall):
    """items: [(id, line)]. Returns {id: events}; a case that kills or hangs the process gets a crash event."""
    res, pos, bad = {}, 0, 0
    while pos < len(items):
        outs, status, err = _run_once(exe, [l for _, l in items[pos:]], stall)
        for o in outs:
            try:
                d = json.loads(o)
            except ValueError:
                raise Broken("unreadable driver output: " + o[:300])
            res[d["id"]] = d["ev"]
        pos += len(outs)
        if status == "ok":
            if pos < len(items):
                raise Broken("driver stopped early: " + err[-500:])
            break
        if status == "crash:99" or status == "crash:98":
            raise Broken("driver rejected its input: %s | %s" % (items[pos][1][:300], err[-300:]))
        if pos >= len(items):
            break  # crashed at exit, after the last case
        cid, line = items[pos]
        if status == "hang" and HUNG:
            break
        # confirm on its own (twice)
        o2, s2, e2 = _run_once(exe, [line], stall)
        if s2 == "ok":
            o3, s3, e3 = _run_once(exe, [line], stall)
            if s3 == "ok":
                # only in company (state left by earlier cases) or a loaded machine
                if status == "hang":
                    res[cid] = json.loads(o3[0])["ev"]
                else:
                    res[cid] = [{"op": "crash", "how": status + " (not alone) " + summarize(err)}]
                    bad += 1
                pos += 1
                continue
            s2, e2 = s3, e3
        res[cid] = [{"op": "crash", "how": s2 + " " + summarize(e2)}]
        pos += 1
        bad += 1
        if s2 == "hang":
            HUNG.append(cid)
            break
        if bad >= 4:
            break
    return res


def summarize(err):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]{0,120}|runtime error: [^\n]{0,160}|Assertion [^\n]{0,160}|terminate called[^\n]*\n[^\n]{0,160})", err)
    s = m.group(1) if m else err.strip()[-160:]
    return re.sub(r"[^A-Za-z0-9 _:.,;()<>=+*/-]", " ", s)


def run_cases(exe, items, stall=40, procs=NCPU):
    chunks = [items[i::procs] for i in range(procs)]
    res = {}
    with cf.ThreadPoolExecutor(procs) as ex:
        for r in ex.map(lambda ch: run_chunk(exe, ch, stall) if ch else {}, chunks):
            res.update(r)
    return res


# ------------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg_text, work, tag, workers=NCPU, env=None, heap="4g", timeout=840, extra=(), simulate=None):
    cfg = os.path.join(work, tag + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(work, tag + ".meta")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-config", cfg, "-metadir", meta, "-deadlock", "-noGenerateSpecTE", "-fpmem", "0.1"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(work, tag + ".out")
    t0 = time.time()
    with open(outp, "wb") as fo:
        try:
            rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=work, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    if os.path.getsize(outp) > 400 << 20:
        raise Broken("TLC printed more than 400 MB for %s" % tag)
    with open(outp, errors="replace") as f:
        out = f.read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?,? ([\d,]+) distinct states found", out)
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t0,
            "ok": "Model checking completed. No error has been found" in out}


def cfg_of(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), view=None, symmetry=None, init=None, nxt=None, postcondition=None):
    s = ""
    if init:
        s += "INIT %s\nNEXT %s\n" % (init, nxt)
    else:
        s += "SPECIFICATION %s\n" % spec
    if constants:
        s += "CONSTANTS\n" + "".join("  %s = %s\n" % kv if not str(kv[1]).startswith("<-") else "  %s %s\n" % kv for kv in constants.items())
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for p in properties:
        s += "PROPERTY %s\n" % p
    for c in constraints:
        s += "CONSTRAINT %s\n" % c
    if view:
        s += "VIEW %s\n" % view
    if postcondition:
        s += "POSTCONDITION %s\n" % postcondition
    return s


def run_model(m, work, k, workers):
    """m: dict(module, constants, invariants, properties, ..., min_states, emits) -> result; raises Broken on any failure"""
    m = dict(m)
    module, min_states = m.pop("module"), m.pop("min_states", 1)
    sim, heap, tmo = m.pop("simulate", None), m.pop("heap", "4g"), m.pop("timeout", 840)
    emits = m.pop("emits", False)
    env = {kk: str(v) for kk, v in m.pop("env", {}).items()}
    cache = None
    if os.environ.get("VF_MODEL_CACHE"):   # for mutation campaigns only (tools/mutate.py): the design models do not depend on /repo
        h = hashlib.sha256(json.dumps([module, cfg_of(**m), env], sort_keys=True).encode())
        for fn in sorted(os.listdir(SPEC)):
            h.update(open(os.path.join(SPEC, fn), "rb").read())
        cache = os.path.join(os.environ["VF_MODEL_CACHE"], h.hexdigest()[:24] + ".json")
        if os.path.exists(cache):
            return json.load(open(cache))
    r = tlc(module, cfg_of(**m), work, "mc%d" % k, workers=workers, simulate=sim, heap=heap, timeout=tmo, env=env)
    if not (r["ok"] or (sim and r["rc"] == 0)):
        raise Broken("model %s: TLC did not succeed (rc=%s)\n%s" % (module, r["rc"], r["out"][-4000:]))
    if r["distinct"] < min_states:
        raise Broken("model %s explored %d distinct states, expected at least %d" % (module, r["distinct"], min_states))
    cases = []
    if emits:
        seen = set()
        for l in r["out"].split("\n"):
            # PrintT(<<"CASE", ToJson(..)>>) prints <<"CASE", "{\"a\":...}">>
            if l.startswith('<<"CASE", "'):
                t = l[len('<<"CASE", "'):-3]
                if t in seen:
                    continue
                seen.add(t)
                cases.append(json.loads(t.encode().decode("unicode_escape") if "\\u" in t else t.replace('\\"', '"').replace("\\\\", "\\")))
    res = {"module": module, "constants": m.get("constants", {}), "generated": r["generated"], "distinct": r["distinct"],
           "wall": round(r["wall"], 2), "cases": cases}
    if cache:
        with open(cache + ".%d" % os.getpid(), "w") as f:
            json.dump(res, f)
        os.replace(cache + ".%d" % os.getpid(), cache)
    return res


ACC = re.compile(r'<<"ACCEPT", (\d+)>>')
STEP = re.compile(r'<<"STEP", (\d+), (\d+)>>')
EVALERR = re.compile(r"(Attempted to|outside of the domain|is not in the domain|Overflow|overflow|The first argument of|nonenumerable|was not an? |CHOOSE|In applying the function|not enumerable|no other match)", re.I)


def trace_cfg():
    return "SPECIFICATION TraceSpec\n"


def validate(module, records, work, tag, workers=NCPU, diag=False, timeout=840, heap="6g", constants=None):
    """returns (accepted ids, tlc result). Raises Broken if TLC fails for all isolated parts."""
    path = os.path.join(work, tag + ".ndjson")
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    cfg = "SPECIFICATION TraceSpec\n"
    if constants:
        cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items())
    r = tlc(module, cfg, work, tag, workers=workers, env={"TRACE": path, "DIAG": "1" if diag else "0"}, timeout=timeout, heap=heap)
    acc = set(int(x) for x in ACC.findall(r["out"]))
    r["steps"] = {}
    for a, b in STEP.findall(r["out"]):
        r["steps"][int(a)] = max(r["steps"].get(int(a), 0), int(b))
    os.unlink(path)
    return acc, r


def first_rejection(module, records, work, tag, constants=None):
    """TLC stopped with an evaluation error on these records: isolate records it cannot evaluate.
    Returns the list of ids that fail on their own (at most 3), or raises Broken."""
    bad = []

    def rec(rs, depth):
        if len(bad) >= 2:
            return
        acc, r = validate(module, rs, work, "%s_b%d" % (tag, depth), workers=2 if len(rs) > 20 else 1, constants=constants, timeout=400)
        if r["ok"]:
            for x in rs:
                if x["id"] not in acc:
                    bad.append(x["id"])
            return
        if len(rs) == 1:
            if EVALERR.search(r["out"]):
                bad.append(rs[0]["id"])
                return
            raise Broken("TLC failed on a single trace:\n" + r["out"][-3000:])
        h = len(rs) // 2
        rec(rs[:h], depth + 1)
        rec(rs[h:], depth + 1)
    rec(records, 0)
    return bad


# ----------------------------------------------------------------------------------------------- check
def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def check(pid, tier, seed=None, only=None):
    sys.path.insert(0, ROOT)
    t0 = time.time()
    P = importlib.import_module("props." + pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("VF_TMP", "/tmp"))
    try:
        return _check(P, pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parts_of(P):
    """A property has one or more parts: dict(driver, trace, cases(rng,tier), tokens(case), mode...)"""
    return P.PARTS


def _check(P, pid, tier, seed, work, t0):
    rng = random.Random("%s-%s" % (pid, seed))
    parts = parts_of(P)
    ev_models, viol, known = [], [], []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "samples": 0}
    samples_of = {}
    ex = cf.ThreadPoolExecutor(8)
    # builds and design models run side by side
    modes = {}
    for p in parts:
        md = p.get("mode", {}).get(tier) if isinstance(p.get("mode"), dict) else p.get("mode")
        if md == "tsan" and not tsan_works():
            log("the thread sanitizer does not run here: part %s is built without it" % p["name"])
            md = "asan"
        modes[p["name"]] = md or ("ubsan" if tier == "thorough" else "asan")
    futs = {p["name"]: ex.submit(build, p["driver"], modes[p["name"]], p.get("flags", ())) for p in parts}
    models = list(getattr(P, "MODELS", {}).get(tier, ()))
    heavy = 4 if len(models) > 1 else 6
    mfuts = [ex.submit(run_model, m, work, k, m.get("workers", heavy) if "workers" not in m else m["workers"]) for k, m in
             enumerate([{kk: vv for kk, vv in m.items() if kk != "workers"} for m in models])]
    emitted = []
    for f in mfuts:
        r = f.result()
        emitted += r.pop("cases")
        ev_models.append(r)
        cov["states"] += r["distinct"]
        cov["transitions"] += r["generated"]
    kf = known_findings(pid)
    for p in parts:
        exe = futs[p["name"]].result()
        prng = random.Random("%s-%s-%s" % (pid, p["name"], seed))
        cases = list(p["cases"](prng, tier))
        if p.get("from_model"):
            extra = [p["from_model"](c) for c in emitted]
            extra = [c for c in extra if c is not None]
            lim = p.get("from_model_limit", {}).get(tier)
            if lim and len(extra) > lim:
                extra = prng.sample(extra, lim)
            cases = extra + cases
        items, byid = [], {}
        for k, c in enumerate(cases, 1):
            c["id"] = k
            byid[k] = c
            items.append((k, " ".join([str(k)] + enc_tokens(p, c))))
        t1 = time.time()
        res = run_cases(exe, items, stall=p.get("stall", 40))
        t2 = time.time()
        recs = []
        for k, c in byid.items():
            if k not in res:
                continue
            ev = res[k]
            if p.get("post"):
                ev = p["post"](c, ev)
            recs.append({**{a: b for a, b in c.items() if not a.startswith("_")}, "ev": ev})
        crashed = [r for r in recs if r["ev"] and r["ev"][0].get("op") == "crash"]
        good = [r for r in recs if not (r["ev"] and r["ev"][0].get("op") == "crash")]
        rejected = []
        if good:
            acc, r = validate(p["trace"], good, work, "tr_" + p["name"], constants=p.get("constants"))
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            if not r["ok"]:
                if not EVALERR.search(r["out"]):
                    raise Broken("trace validation: TLC failed\n" + r["out"][-4000:])
                log("TLC could not evaluate a trace; isolating")
                left = [x for x in good if x["id"] not in acc]
                ids = first_rejection(p["trace"], left, work, "iso_" + p["name"], constants=p.get("constants"))
                if not ids:
                    raise Broken("trace validation: TLC failed, not reproducible\n" + r["out"][-4000:])
                rejected = [x for x in good if x["id"] in ids]
            else:
                rejected = [x for x in good if x["id"] not in acc]
                cov["traces_validated_against_impl"] += len(acc)
            if rejected and r["ok"]:
                again = rejected[:40]
                acc2, r2 = validate(p["trace"], again, work, "re_" + p["name"], workers=1, diag=True, constants=p.get("constants"))
                if not r2["ok"]:
                    raise Broken("re-validation: TLC failed\n" + r2["out"][-3000:])
                for x in again:
                    x["_step"] = r2["steps"].get(x["id"], 1)
                rejected = [x for x in again if x["id"] not in acc2]
                if not rejected:
                    raise Broken("a rejection was not reproducible")
        cov["events"] += sum(len(x["ev"]) for x in recs)
        cov["samples"] += len(recs)
        samples_of[p["name"]] = {"cases": len(recs), "driver_s": round(t2 - t1, 2), "tlc_s": round(time.time() - t2, 2), "mode": modes[p["name"]]}
        for x in crashed + rejected:
            c = byid[x["id"]]
            key = p["name"] + ":" + hashlib.sha256(" ".join(enc_tokens(p, c)).encode()).hexdigest()[:16]
            hit = [w for kk, w in kf if kk == key]
            if hit:
                known.append((key, hit[0]))
                continue
            viol.append((p, c, x, key))
    for key, what in kf:
        if key not in [k for k, _ in known]:
            pass
    wall = time.time() - t0
    cov["models"] = [{k: (v if k != "constants" else {a: str(b) for a, b in v.items()}) for k, v in m.items()} for m in ev_models]
    cov["parts"] = samples_of
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    replay = None
    if viol:
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (p, c, x, key) in enumerate(viol[:5]):
            rp = os.path.join(rd, "%s-%d.json" % (pid, n))
            with open(rp, "w") as f:
                json.dump({"property": pid, "part": p["name"], "key": key, "case": c, "events": x["ev"],
                           "first_unexplained_event": x.get("_step"),
                           "line": " ".join([str(c["id"])] + enc_tokens(p, c))}, f)
            replay = replay or rp
            stp = x.get("_step", 1)
            log("violation in part %s key %s at event %s: case %s | event %s" % (
                p["name"], key, stp, json.dumps({a: b for a, b in c.items()})[:700],
                json.dumps(x["ev"][stp - 1] if x["ev"] and stp - 1 < len(x["ev"]) else x["ev"][-1:])[:700]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.LEVEL, "coverage": cov,
          "assumptions": P.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viol)}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs" % (
        pid, tier, cov["traces_validated_against_impl"], cov["events"], cov["states"], wall))
    return 0


def enc_tokens(p, c):
    out = []
    for x in p["tokens"](c):
        out += enc(x)
    return out
