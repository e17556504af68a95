#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   |   check.py replay <file>   |   check.py gen <property> <part>"""
import sys, os, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "replay":
            import importlib, tempfile
            sys.path.insert(0, vf.ROOT)
            d = json.load(open(a[1]))
            P = importlib.import_module("props." + d["property"].lower())
            p = [q for q in P.PARTS if q["name"] == d["part"]][0]
            exe = vf.build(p["driver"], "tsan" if p.get("mode") == "tsan" and vf.tsan_works() else "asan", p.get("flags", ()))
            outs, st, err = vf._run_once(exe, [d["line"]], 60)
            print(st, outs, err[-2000:])
            if outs:
                ev = json.loads(outs[0])["ev"]
                if p.get("post"):
                    ev = p["post"](d["case"], ev)
                rec = {**{x: y for x, y in d["case"].items() if not x.startswith("_")}, "ev": ev}
                with tempfile.TemporaryDirectory() as w:
                    acc, r = vf.validate(p["trace"], [rec], w, "t", workers=1, diag=True, constants=p.get("constants"))
                    print("accepted" if acc else "rejected at event %s" % r["steps"])
                    if not r["ok"]:
                        print(r["out"][-3000:])
            return 0
        return vf.check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except vf.Broken as e:
        print("ERROR: the check itself failed: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
