from props import common as g
from props import c14, linkgen
LEVEL = "model_checking"
NOTE = "design: the models of the three stages (Boruvka, agglomeration with every tie order, condensation and optimal selection) are exhausted by TLC; code: HDBSCAN labels are accepted by TLC only if some behaviour of the composed specification, from the samples, explains them"
ASSUMPTIONS = ["floating-point features, exactly representable values", "stabilities closer than the rounding of the specification's fixed-point inverse distances are not told apart (exact on power-of-two distances)",
               "datasets with too many tied merges to enumerate are only checked for sizes, numbering and noise"]
MODELS = {"quick": [c14.mc(4, 2, "{1,2,3}", False)], "thorough": [c14.mc(4, 4, "{1,2,3,5}", False), c14.mc(5, 2, "{1,2,3}", False, heap="12g")]}
def weights(X, k):
    n = len(X)
    D = [[sum((a - b) ** 2 for a, b in zip(p, q)) for q in X] for p in X]
    if k == 1: return D
    core = [sorted(r)[min(k, n) - 1] for r in D]
    return [[max(D[i][j], core[i], core[j]) for j in range(n)] for i in range(n)]
def orders(X, k):
    """number of dendrograms (orders of tied merges), roughly"""
    M = weights(X, k); n = len(X); comp = list(range(n)); tot = 1
    for w in sorted({M[i][j] for i in range(n) for j in range(i)}):
        old = list(comp)
        for i in range(n):
            for j in range(i):
                if M[i][j] == w and comp[i] != comp[j]:
                    a, b = comp[i], comp[j]; comp = [b if x == a else x for x in comp]
        for r in set(comp):
            m = len({old[i] for i in range(n) if comp[i] == r})
            for f in range(3, 2 * m - 2, 2): tot *= f
        if tot > 10 ** 6: break
    return tot
def opts(rng, n):
    o = [[rng.choice([1, 2, 2, 3, 3, 4, 5, max(1, n // 2), n + 1]), rng.randint(0, 1), 1 if rng.random() < .2 else 0, rng.randint(1, 3)] for _ in range(rng.randint(1, 3))]
    if rng.random() < .3: o.append([5, 1, 0, 0])
    return o
def clus(rng, n, nf, w=6):
    k = rng.randint(1, 3)
    cs = [[rng.randint(-60, 60) for _ in range(nf)] for _ in range(k)]
    return [[x + rng.randint(-w, w) for x in rng.choice(cs)] for _ in range(n)]
def case(rng, tier):
    big = tier != "quick"
    while True:
        kind = rng.random()
        if kind < .08:
            n, nf = rng.choice([15, 25, 40]), rng.choice([1, 2, 3])
            X, k, ex, mode = g.points(rng, n, nf), rng.choice([1, 2, 3, 5]), 0, "weak"
        elif kind < .11:
            n, nf = rng.choice([16, 20, 26, 33]), rng.choice([2, 3, 8, 9])
            X, k, ex, mode = clus(rng, n, nf, 25), rng.choice([1, 1, 2, 3, 5, 9]), 0, "full"
        elif kind < .13:
            n, nf = rng.choice([48, 65, 90]) if not big else rng.choice([48, 65, 90, 130]), rng.choice([2, 3, 5])
            X, k, ex, mode = clus(rng, n, nf, 30), rng.choice([1, 2, 3, 5, 12, 17, n // 2]), 0, "full"
        elif kind < .35:
            n, nf = rng.randint(1, 10), 1
            p, X = rng.randint(-5, 5), []
            hi = rng.choice([1, 3, 6])
            for _ in range(n): X.append([p]); p += 2 ** rng.randint(0, hi)
            rng.shuffle(X); k, ex, mode = 1, 1, "full"
        else:
            n, nf = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]), rng.choice([1, 2, 2, 3])
            X = clus(rng, n, nf) if rng.random() < .7 else g.points(rng, n, nf, lim=40)
            k, ex, mode = rng.choice([1, 1, 2, 2, 3, 4, n]), 0, "full"
        if mode == "full" and orders(X, k) > (60 if not big else 400): continue
        n = len(X)
        pm = list(range(n)); rng.random() < .5 and rng.shuffle(pm)
        return dict(nf=nf, X=X, perm=pm, conf=g.conf(rng, n, nf), k=k, ex=ex, mode=mode, opts=opts(rng, n), **g.embed(rng))
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 10000): yield case(rng, tier)
def tok(c):
    return [c["t"], c["nf"], c["X"], c["perm"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["k"], c["opts"]]
PARTS = [dict(name="hdbscan", driver="hdbscan", trace="Trace_HDBSCAN", cases=cases, tokens=tok)]
