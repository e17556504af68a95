import random
from props import common as g, treegen as t, c04
LEVEL = "model_checking"
NOTE = "design: TLC proves on all small sets of samples that the box gap is attained and bounds all distances from below, and exhausts the index build with its boxes; code: every bound type, accessor and min_distance overload, and the boxes of all nodes of real indices, are validated by TLC on those and random inputs"
ASSUMPTIONS = ["floating-point features, exactly representable values", "radii are not negative", "sets of samples are not empty"]
def mc(N, F, C, R, **k):
    return dict(module="MC_Bounds", constants=dict(N=N, F=F, C=C, Radii=R, Emit="TRUE"), invariants=["TightOK", "GapLower", "GapAttained", "GapZero", "BallLower", "DiamOK"], emits=True, **k)
MODELS = {"quick": [mc(2, 2, 3, "{0,2}"), mc(3, 1, 4, "{1,2}"), c04.mc(3, 2, 2, "{0,1}", "{9}", False)],
          "thorough": [mc(3, 2, 3, "{1,2}"), mc(3, 1, 6, "{0,1,2,3}"), c04.mc(4, 2, 2, "{0,1}", "{9}", False)]}
def probes(rng, X, nf, k):
    out = []
    for _ in range(k):
        r = rng.random()
        if r < .3: out.append([2 * v for v in rng.choice(X)])
        elif r < .7: out.append([2 * rng.choice(X)[f] + rng.choice([0, 0, 0, 1, -1]) for f in range(nf)])
        else: out.append([rng.randint(-50, 50) for _ in range(nf)])
    return out
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        n, nf = rng.choice([1, 2, 3, 4, 6, 10, 25]), rng.choice([1, 1, 2, 2, 3, 5, 5, 9, 17])
        if rng.random() < .02: n = rng.choice([70, 130])
        X = g.points(rng, n, nf)
        A = [rng.randrange(n) for _ in range(rng.randint(1, max(1, n // 2 + 1)))]; B = [rng.randrange(n) for _ in range(rng.randint(1, max(1, n // 2)))]
        q = sum((X[A[0]][f] - X[B[0]][f]) ** 2 for f in range(nf)); s = int(q ** .5)
        ra = rng.choice([0, 1, 2, 3, 5, 13, 30, s]); rb = rng.choice([0, 1, 2, 5, max(0, s - ra), max(0, s - ra + 1), max(0, s - ra - 1)])
        yield dict(nf=nf, X=X, A=A, B=B, ra=ra, rb=rb, P=probes(rng, X, nf, 6), **g.embed(rng))
def from_model():
    r = random.Random(3)
    def f(m):
        if "A" not in m:
            return None
        nf = len(m["X"][0])
        return dict(nf=nf, X=m["X"], A=m["A"], B=m["B"], ra=m["ra"], rb=m["rb"], P=probes(r, m["X"], nf, 3), t=r.randint(0, 1), sexp=0, off=0)
    return f
def tok(c):
    return [c["t"], c["nf"], c["X"], c["A"], c["B"], c["ra"], c["rb"], c["P"], c["sexp"], c["off"]]
def nodes(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        yield t.case(rng)
    yield from t.large(rng, 20 if tier == "quick" else 300)
PARTS = [dict(name="bounds", driver="bounds", trace="Trace_Bounds", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 1500, "thorough": 30000}),
         dict(name="nodes", driver="kdtree", trace="Trace_KDTree", cases=nodes, tokens=t.tokens(2))]
