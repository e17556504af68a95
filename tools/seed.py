#!/usr/bin/env python3
"""seed.py <bug id>... : verifies planted bugs in a scratch copy of /repo (/tmp/scr): the patch applies, builds, keeps the stable tests
passing, the demo passes without and fails with it; then runs the property's quick check on the patched copy. Development tool, not a check."""
import json, os, subprocess, sys, shutil
SCR = os.environ.get("SCR", "/tmp/scr")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def setup():
    if os.path.isdir(SCR + "/_build"):
        sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SCR, SCR, SCR)); return
    sh("git clone -q /repo %s" % SCR)
    r = sh("cmake -S . -B _build -G Ninja -DMODE=gtest -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_STANDARD=17 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest", cwd=SCR)
    assert r.returncode == 0, r.stdout + r.stderr
    r = sh("ninja -C _build", cwd=SCR)
    assert r.returncode == 0, r.stdout[-2000:]
def tests():
    r = sh("ninja -C _build", cwd=SCR)
    if r.returncode: return "BUILD FAILED " + r.stdout[-1500:]
    l = SCR + "/_build/results.txt"; o = SCR + "/_build/out.json"
    sh("rm -f %s; timeout 150 python3 /opt/vp/run_gtests.py %s/_build /opt/vp/data %s && python3 /opt/vp/results.py %s lines:%s" % (l, SCR, l, o, l), cwd=SCR)
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(o))["passed"])
    return "ok" if not miss else "TESTS FAIL %s" % sorted(miss)[:4]
def demo(b):
    d = "/tmp/scr_demo"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(b, d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(d + "/" + f)
    try:
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd=SCR)
        return r.returncode, (r.stdout + r.stderr)[-300:].strip()
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    args = sys.argv[1:]; full = "--nocheck" not in args; notest = "--notest" in args
    args = [a for a in args if not a.startswith("--")]
    setup()
    for i in args:
        b = os.path.join(ROOT, "seeded", i); pid = json.load(open(b + "/meta.json"))["property"]
        out = [i, pid]
        rc0, o0 = (0, "") if notest else demo(b)
        r = sh("git -C %s apply %s/patch.diff" % (SCR, b))
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stderr); continue
        if not notest:
            out.append("tests=" + tests())
            rc1, o1 = demo(b)
            out.append("demo clean=%d patched=%d%s" % (rc0, rc1, "" if rc0 == 0 and rc1 else "  <<<<< " + o0 + " | " + o1))
        if full:
            c = sh("python3 tools/check.py %s quick" % pid, cwd=ROOT, env={**os.environ, "FFCL_REPO": SCR})
            out.append("check rc=%d %s" % (c.returncode, (c.stdout.strip() or c.stderr[-600:]).split("\n")[-1]))
            if c.returncode == 1: out.append([l for l in c.stderr.split("\n") if "violation in" in l][:1][0][:260] if "violation in" in c.stderr else "")
        sh("git -C %s checkout -q -- ." % SCR)
        print("\n   ".join(str(x) for x in out), flush=True)
main()
