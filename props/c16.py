from props import common as g
import random
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the cluster expansion (any processing order) over all small datasets, radii and sample counts, with termination; code: labels of the real code for those and random datasets are validated by TLC against the declarative components"
ASSUMPTIONS = ["features are integers, or floating-point and exactly representable", "the index holds all samples of the dataset", "non-negative radius"]
def mc(N, C, Dim, R2s, Mss, emit, live=False, **k):
    return dict(module="MC_DBSCAN", constants=dict(N=N, C=C, Dim=Dim, R2s=R2s, Mss=Mss, Emit="TRUE" if emit else "FALSE"), invariants=["Right", "Closed"], properties=["Stable"] + (["Terminates"] if live else []), emits=emit, **k)
MODELS = {"quick": [mc(4, 5, 1, "{4,9,16}", "{0,1,2}", True), mc(3, 2, 2, "{4,9}", "{1,2}", True, True), mc(5, 4, 1, "{9}", "{1,2}", False)],
          "thorough": [mc(5, 5, 1, "{4,9,25}", "{0,1,2,3}", True, heap="10g"), mc(4, 3, 2, "{9,16}", "{1,2}", True, heap="10g"), mc(6, 4, 1, "{9}", "{1,2}", False, heap="10g")]}
def opts(rng, X):
    out = []
    for _ in range(rng.randint(2, 4)):
        a, b = rng.choice(X), rng.choice(X)
        d = int(sum((p - q) ** 2 for p, q in zip(a, b)) ** .5)
        r = rng.choice([2 * d, 2 * d + 1, 2 * d + 2, rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20]), rng.choice([2, 3, 4, 5, 6, 7, 9])])
        if rng.random() < .03: r = 0
        out.append([r, rng.choice([0, 1, 1, 2, 2, 3, 4, 5, len(X) - 1, len(X)]), rng.randint(0, 2)])
    return out
def case(rng, big, large=False):
    n, nf = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 24, big]), rng.choice([1, 1, 2, 2, 3, 5])
    if large: n, nf = rng.choice([60, 65, 100, 150, 260, 300]), rng.choice([1, 2, 2, 3, 8, 9, 13])
    X = g.points(rng, n, nf, lim=rng.choice([3, 6, 10, 20]) + 3)
    p = list(range(n)); rng.random() < .5 and rng.shuffle(p)
    return g.whole(rng, dict(nf=nf, X=X, perm=p, conf=g.conf(rng, n, nf), opts=opts(rng, X), **g.embed(rng)))
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000): yield case(rng, 36)
    for _ in range(20 if tier == "quick" else 300): yield case(rng, 36, True)
def from_model():
    r = random.Random(11)
    def f(m):
        X = m["X"]; n = len(X)
        return dict(nf=len(X[0]), X=X, perm=list(range(n)), conf=g.conf(r, n, len(X[0])), opts=[[int(m["r2"] ** .5), m["ms"], 1]], t=r.randint(0, 1), sexp=r.choice([0, -40]), off=0)
    return f
def tok(c):
    return [c["t"], c["nf"], c["X"], c["perm"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["opts"]]
PARTS = [dict(name="dbscan", driver="dbscan", trace="Trace_DBSCAN", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 1500, "thorough": 12000})]
