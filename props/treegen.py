import json, random, struct
from props import common as g
BAD = -999999

def tokens(what):
    return lambda c: [c["t"], c["nf"], c["X"], c["ind"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], what, c["how"]]

def large(rng, count):
    for _ in range(count):
        yield case(rng, n=rng.choice([50, 64, 65, 100, 128, 200]), nf=rng.choice([1, 2, 5, 8, 9, 12, 17]))
    for _ in range(count // 8):
        yield case(rng, n=rng.choice([257, 300, 520]), nf=rng.choice([1, 2, 3]))

def case(rng, big=60, ints=True, n=None, nf=None):
    n, nf = n or g.size(rng, big), nf or rng.choice([1, 1, 2, 2, 3, 4, 6])
    X = g.points(rng, n, nf)
    c = dict(nf=nf, X=X, ind=g.subset(rng, n), conf=g.conf(rng, n, nf), how=rng.choice([0, 0, 1, 2, 3]), **g.embed(rng))
    if c["conf"]["depth"] < 0:
        c["conf"]["depth"] = 0
    if ints and rng.random() < .15:
        c["t"] = rng.choice([2, 3])
        if c["t"] == 3: c["off"] = rng.choice([150, 1000])
        if c["conf"]["axis"] == 1:
            c["conf"]["rate"] = 30
    return c

def from_model():
    r = random.Random(7)
    def f(m):
        X = [[p[str(k)] if isinstance(p, dict) else p[k - 1] for k in range(1, len(p) + 1)] for p in m["X"]]
        nf = len(X[0])
        cf = g.conf(r, len(X), nf); cf["bucket"] = m["bucket"]; cf["depth"] = m["depth"]
        return dict(nf=nf, X=X, ind=list(range(len(X))), conf=cf, how=r.randint(0, 3), t=r.randint(0, 1), sexp=0, off=0)
    return f

def parse_doc(c, ev):
    """projects the serialized text: integers, nodes in pre-order"""
    out = []
    for e in ev:
        if e["op"] != "doc":
            out.append(e); continue
        bad = {"ok": False, "n_samples": BAD, "n_features": BAD, "bucket": BAD, "depth": BAD, "box": [], "nodes": []}
        try:
            d = json.loads(e["doc"])
            # a number of the document stands for the sample value of exactly that magnitude (of the samples' own type)
            narrow = (lambda v: struct.unpack("f", struct.pack("f", v))[0]) if c["t"] == 1 else (lambda v: v) if c["t"] >= 2 else float
            known = {int(v) if c["t"] >= 2 else narrow(float.fromhex(v)): x for v, x in zip(e["vals"], [x for p in c["X"] for x in p])}
            def back(v):
                return known.get(narrow(v), BAD) if isinstance(v, (int, float)) else BAD
            nodes = []
            def walk(n):
                me = {"axis": int(n["axis"]), "pts": [[back(v) for v in p] for p in n["points"]], "l": 0, "r": 0}
                nodes.append(me)
                if "left" in n:
                    me["l"] = len(nodes) + 1; walk(n["left"])
                if "right" in n:
                    me["r"] = len(nodes) + 1; walk(n["right"])
            walk(d["root"])
            doc = {"ok": True, "n_samples": int(d["n_samples"]), "n_features": int(d["n_features"]), "bucket": int(d["options"]["bucket_size"]),
                   "depth": int(d["options"]["max_depth"]), "box": [[back(v) for v in b] for b in d["bounding_box"]], "nodes": nodes}
            for k in ("bucket", "depth"):
                if doc[k] in g.HUGES: doc[k] = g.HUGE + g.HUGES.index(doc[k])
            for k in ("n_samples", "n_features", "bucket", "depth"):
                if abs(doc[k]) > 2 ** 31 - 1:
                    doc[k] = BAD
        except Exception:
            doc = bad
        e2 = dict(e); e2["doc"] = doc; e2.pop("vals", None); out.append(e2)
    return out
