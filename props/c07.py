import random
from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the visiting orders and prunings of the dual traversal with per-query buffers and the queue of the k shortest edges; code: every variant is run on those and random pairs of indices and TLC validates the returned edge against all pairs"
ASSUMPTIONS = ["floating-point features, exactly representable values", "at least k admissible query/reference pairs", "the exhaustive variant (simple_dual_set_shortest_edge) considers edges of positive length only"]
def mc(NQ, NR, C, Ks, emit=True, **k):
    return dict(module="MC_DualTree", constants=dict(NQ=NQ, NR=NR, C=C, Ks=Ks, Emit="TRUE" if emit else "FALSE"), invariants=["Sound", "Exact"], emits=emit, **k)
MODELS = {"quick": [mc(2, 2, 3, "{1,2,3}"), mc(1, 3, 4, "{1,2,3}"), mc(2, 3, 2, "{1,2}", False)],
          "thorough": [mc(2, 3, 3, "{1,2,3}", heap="8g"), mc(3, 2, 3, "{1,2}", heap="8g"), mc(1, 4, 5, "{1,2,3}")]}
def fix(c, rng):
    """at least k admissible pairs"""
    ref = c["Y"] or c["X"]; n = max(len(c["X"]), len(c["Y"]))
    par = list(range(n))
    def find(i):
        while par[i] != i: i = par[i]
        return i
    for a, b in c["merges"]: par[find(a)] = find(b)
    ex = set(c["excl"]) if c["rep"] < 0 else {i for i in range(n) if find(i) == find(c["rep"])}
    A = [r for r in c["R"] if r not in ex]
    if not A: return None
    # the per-query and global capacities: k pairs must exist
    m = len(set(c["Q"])) * len(set(A))
    c["k"] = min(c["k"], m)
    if c["kind"] == 9: c["k"] = 1
    if c["kind"] == 10 and not any(c["X"][a] != ref[b] for a in c["Q"] for b in A): return None
    return c
def cases(rng, tier):
    cnt = 0
    while cnt < (1500 if tier == "quick" else 20000):
        n, nf = rng.choice([2, 3, 4, 5, 6, 8, 10, 14, 20, 30]), rng.choice([1, 2, 2, 3])
        large = rng.random() < .02
        if large: n, nf = rng.choice([60, 80, 120]), rng.choice([1, 2, 8, 9, 12])
        X = g.points(rng, n, nf)
        Y = g.points(rng, rng.choice([40, 70] if large else [1, 2, 4, 8, 20]), nf) if rng.random() < .25 else []
        kind = rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14])
        if kind in (2, 5, 8, 9, 14): Y = []
        m = len(Y) or n
        if Y or rng.random() < .2:
            Q, R = g.subset(rng, n), g.subset(rng, m)
        else:
            o = list(range(n)); rng.shuffle(o); cut = rng.randint(1, n - 1); Q, R = o[:cut], o[cut:]
        excl, rep, merges = [], -1, []
        if kind in (1, 4, 12, 13):
            p = rng.choice([0, .2, .5, .9]); excl = [i for i in range(m) if rng.random() < p]
        if kind in (2, 5, 8, 9, 14):
            # Q is the component, the reference everything; or an arbitrary partition
            if rng.random() < .6:
                merges = [[Q[0], a] for a in Q[1:]]; rep = Q[0]; R = list(range(n)); rng.shuffle(R)
            else:
                merges = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.choice([0, 1, n // 2]))]; rep = rng.choice(Q)
        c = dict(nf=nf, X=X, Y=Y, Q=Q, R=R, cq=g.conf(rng, n, nf), cr=g.conf(rng, n, nf), kind=kind, k=rng.choice([1, 2, 8, 9, 16, 20] if large else [1, 1, 1, 1, 2, 2, 3, 4, 6]), excl=excl, rep=rep, merges=merges, **g.embed(rng))
        c = fix(c, rng)
        if c:
            cnt += 1
            yield c
def from_model():
    r = random.Random(11)
    def f(m):
        X = [[v] for v in m["q"]] + [[v] for v in m["r"]]
        nq, nr = len(m["q"]), len(m["r"])
        c = dict(nf=1, X=X, Y=[], Q=list(range(nq)), R=list(range(nq, nq + nr)), cq=g.conf(r, nq, 1), cr=g.conf(r, nr, 1), kind=r.choice([0, 3, 6, 7, 11]), k=m["k"], excl=[], rep=-1, merges=[], t=r.randint(0, 1), sexp=0, off=0)
        if m["ban"]:
            c["kind"] = r.choice([1, 2, 4, 5, 8, 12, 13, 14])
            if c["kind"] in (1, 4, 12, 13): c["excl"] = [nq]
            else: c["rep"] = nq
        return fix(c, r)
    return f
def tok(c):
    return [c["t"], c["nf"], c["X"], c["Y"], c["Q"], c["R"]] + g.CONF(c["cq"]) + g.CONF(c["cr"]) + [c["sexp"], c["off"], c["kind"], c["k"], c["excl"], c["rep"], c["merges"]]
PARTS = [dict(name="dual", driver="dual", trace="Trace_DualTree", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 1500, "thorough": 15000})]
