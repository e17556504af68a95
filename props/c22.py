from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the accumulation passes over all small labelled point sets and compares them with the definition in exact fractions; code: those sets and random larger ones (gaps in the labels, singletons, duplicates, all label types) are scored by the real code and TLC validates cohesion, separation, silhouette, sizes and average to 0.1 %"
ASSUMPTIONS = ["floating-point samples, at least two non-empty clusters, non-negative integral labels", "scores are compared in fixed point (1/1000 of the unit distance)"]
def mc(N, V, K, emit=True, **k):
    return dict(module="MC_Silhouette", constants=dict(N=N, V=V, K=K, Emit="TRUE" if emit else "FALSE"), invariants=["Defined"], emits=emit, **k)
MODELS = {"quick": [mc(3, 2, 2), mc(4, 2, 1, False)], "thorough": [mc(4, 2, 2), mc(5, 2, 2, False, heap="8g")]}
def labels(rng, n, big=False):
    k = rng.choice([2, 2, 3, 3, 4, 6])
    names = rng.sample(range(0, rng.choice([k, k, k + 3, 30] + ([300] if big else []))), k) if k <= n else [0, 1]
    while True:
        st = rng.random()
        if st < .3:
            L = [names[0]] * n; 
            for _ in range(rng.randint(1, 3)): L[rng.randrange(n)] = rng.choice(names)
        else:
            L = [rng.choice(names) for _ in range(n)]
        if len(set(L)) >= 2: return L
def cases(rng, tier):
    for _ in range(1400 if tier == "quick" else 14000):
        n, nf = rng.choice([2, 3, 4, 5, 6, 8, 12, 20]), rng.choice([1, 1, 2, 3])
        yield dict(nf=nf, X=g.points(rng, n, nf, lim=rng.choice([4, 6, 10]), style=rng.choice(["uni", "tiny", "dup", "same", "line", "diag", "clus", "grid", "neg", "outl"]) ), lt=(lt := rng.randint(0, 4)), L=labels(rng, n, lt != 2), **g.embed(rng))
    for _ in range(12 if tier == "quick" else 150):
        n, nf = rng.choice([40, 65, 90]), rng.choice([1, 2, 8, 9])
        yield dict(nf=nf, X=g.points(rng, n, nf, lim=rng.choice([4, 6]), style=rng.choice(["uni", "uni", "dup", "clus", "diag", "outl"])), L=(lambda k: [rng.randrange(k) for _ in range(n)])(rng.choice([9, 12, 20, 30])), lt=rng.randint(0, 4), **g.embed(rng))
    for _ in range(3 if tier == "quick" else 10):
        n = rng.choice([258, 270, 300])
        L = [rng.choice([0, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2]) for _ in range(n)]
        if rng.random() < .5: L = [7 if i else 3 for i in range(n)]; L[5] = 3
        yield dict(nf=1, X=[[rng.randint(0, 1)] for _ in range(n)], L=L, lt=2, **g.embed(rng))
def from_model():
    import random
    r = random.Random(3)
    return lambda m: dict(nf=1, X=m["X"], L=m["L"], lt=r.randint(0, 4), t=r.randint(0, 1), sexp=0, off=0)
def tok(c):
    return [c["t"], c["lt"], c["nf"], c["X"], c["L"], c["sexp"], c["off"]]
PARTS = [dict(name="scores", driver="silhouette", trace="Trace_Silhouette", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 700, "thorough": 8000})]
