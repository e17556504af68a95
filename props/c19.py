from props import kmgen as m
import random
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the fit loop (starts, iteration limit, early stopping, patience, choice of the best run) over every monotone algorithm on a small configuration space; code: runs of the real algorithms, the real fit, predict and forward are replayed by TLC against exact rational centroids"
ASSUMPTIONS = ["floating-point features; datasets for which the specification's exact integer arithmetic fits in 32 bits",
               "the initializer is a harness function that returns chosen centroids (the library's own ones are random: C23); fits that start from the library's own initialisation are judged by what holds for every start (the result is a fixed point of the iteration, predictions use it)"]
def mcf(S, C, M, P, E, live=False):
    return dict(module="MC_Fit", constants=dict(S=S, Cands=C, MaxIt=M, Patience=P, Early="TRUE" if E else "FALSE"), invariants=["Bounded", "NothingLost", "Best"], **(dict(properties=["Ends"]) if live else {}))
MODELS = {"quick": [m.mck(3, 3, 1, 2, True), mcf(3, 2, 4, 0, True, True), mcf(3, 2, 5, 2, True), mcf(3, 2, 2, 0, False), mcf(3, 2, 0, 0, True)],
          "thorough": [m.mck(4, 4, 1, 2, True), m.mck(3, 2, 2, 2, True), mcf(4, 2, 6, 1, True, True), mcf(4, 3, 5, 0, True), mcf(3, 3, 6, 3, True), mcf(4, 2, 3, 0, False)]}
def extend(rng, c, how, nc):
    c["how"] = how
    c["maxit"] = c["steps"] = rng.choice([0, 1, 2, 2, 3, 4, 6, 9])
    c["early"] = rng.choice([0, 1, 1, 1]); c["patience"] = rng.choice([0, 0, 0, 1, 2, 3])
    c["tol"] = rng.choice([0, 0, 0, 12347, 61803, 271828])
    c["calls"] = 0 if how == 1 else nc
    X, nf = c["X"], c["nf"]
    lim = max([1] + [abs(v) for x in X for v in x])
    c["Y"] = [list(rng.choice(X)) if rng.random() < .6 else [rng.randint(-lim, lim) for _ in range(nf)] for _ in range(rng.randint(1, 6) if rng.random() < .97 else rng.choice([17, 40, 70]))]
    return c
def cases(rng, tier):
    n = 1600 if tier == "quick" else 16000
    for i in range(n):
        if i % 9 == 0:
            c = m.case(rng, 0, mode=2); c = extend(rng, c, 0, 1); c["steps"] = 0; yield c; continue
        how = rng.choice([0, 0, 1, 2]); nc = 1 if how == 1 else rng.choice([1, 2, 3, 4, 6]) if rng.random() < .97 else rng.choice([9, 12])
        yield extend(rng, m.case(rng, rng.randint(0, 1), mode=1, ncand=nc), how, nc)
    for i in range(15 if tier == "quick" else 200):
        how = rng.choice([0, 0, 1, 2]); nc = 1 if how == 1 else rng.choice([1, 2, 3])
        yield extend(rng, m.case(rng, rng.randint(0, 1), mode=1, ncand=nc, large=True), how, nc)
def run_of(X, C2, maxit, tol, patience, early=1, reset=True, first=False):
    """Lloyd with early stopping; None when a sample has two nearest centroids"""
    C = [[v / 2 for v in c] for c in C2]; prev = C if first else None; pat = 0
    for _ in range(maxit):
        L = []
        for x in X:
            d = [sum((a - b) ** 2 for a, b in zip(x, c)) for c in C]
            if sum(v < min(d) + 1e-6 for v in d) > 1: return None
            L.append(d.index(min(d)))
        C = [[sum(x[f] for x, l in zip(X, L) if l == j) / L.count(j) for f in range(len(C[0]))] if j in L else C[j] for j in range(len(C))]
        if early and prev is not None and all(abs(a - b) * 100000 <= tol for p, q in zip(C, prev) for a, b in zip(p, q)):
            if pat == patience: break
            pat += 1
        elif reset: pat = 0
        prev = C
    return C
def patient(rng, tier):
    """runs whose result depends on one detail of the stopping rule"""
    ways = ["reset", "early", "patience+", "patience-", "tol", "tol10", "maxit+", "maxit-", "first", "notol"]
    left = {w: (30 if w == "reset" else 14) * (1 if tier == "quick" else 12) for w in ways}
    while left:
        w = rng.choice(sorted(left))
        nf = rng.choice([1, 1, 2]); n = rng.randint(10, 30 if nf == 1 else 14); lim = 40 if nf == 1 else 14
        X = [[rng.choice([rng.randint(-lim, lim), rng.randint(-6, 6)]) for _ in range(nf)] for _ in range(n)]
        k = rng.choice([2, 2, 3]); s = sorted(X)
        C2 = [[2 * v + rng.choice([0, 1]) for v in x] for x in (s[:k] if rng.random() < .6 else rng.sample(s, k))]
        tol, patience = rng.choice([31831, 61803, 141421, 271828, 423606]), rng.choice([0, 0, 1, 1, 2])
        maxit, early = rng.choice([12, 12, 3, 4, 5, 6, 8]), 1
        if w in ("reset", "patience-"): patience = max(1, patience)
        if w == "early": early = 0
        if w == "notol": tol = 0
        if w in ("maxit+", "maxit-"): early, maxit = rng.randint(0, 1), rng.choice([1, 2, 3, 4])
        o = dict(maxit=maxit, tol=tol, patience=patience, early=early); v = dict(o)
        if w == "reset": v["reset"] = False
        elif w == "early": v["early"] = 1
        elif w == "first": v["first"] = True
        elif w == "tol": v["tol"] = 0
        elif w == "notol": v["tol"] = rng.choice([10, 1000, 31831, 200000])
        elif w == "tol10": v["tol"] = tol * rng.choice([.5, .1, 2])
        else: v[w[:-1]] += 1 if w[-1] == "+" else -1
        a = run_of(X, C2, **o); b = run_of(X, C2, **v)
        if a is None or a == b: continue
        left[w] -= 1
        if not left[w]: del left[w]
        c = dict(t=0, alg=rng.randint(0, 1), mode=1, nf=nf, X=X, sexp=rng.choice([0, 0, -4, 3]), off=0, C2=[C2], maxit=maxit, early=early, tol=tol, patience=patience, how=rng.choice([0, 1, 2]), steps=max(maxit, 12), Y=[list(X[0])])
        c["calls"] = 0 if c["how"] == 1 else 1
        yield c
def auto(rng, tier):
    for _ in range(300 if tier == "quick" else 4000):
        c = extend(rng, m.case(rng, rng.randint(0, 1), mode=3), rng.choice([0, 2]), 1)
        c["maxit"] = rng.choice([1, 1, 2, 5]); c["steps"] = 0; yield c
def from_model():
    r = random.Random(19); f0 = m.from_model(0)
    def f(md):
        if "C2" not in md: return None
        c = f0(md); c["alg"] = r.randint(0, 1); c["mode"] = 1; how = r.choice([0, 1, 2])
        if how != 1:
            for _ in range(r.randint(0, 3)): c["C2"].append([[2 * v for v in r.choice(c["X"])] for _ in c["C2"][0]])
        return extend(r, c, how, len(c["C2"]))
    return f
P = dict(driver="kmeans", trace="Trace_KMeans", tokens=m.tok)
def threaded(rng, tier):
    for i in range(250 if tier == "quick" else 3000):
        nc = rng.choice([2, 3, 4, 6])
        yield extend(rng, m.case(rng, rng.randint(0, 1), mode=1, ncand=nc), rng.choice([0, 2]), nc)
PARTS = [dict(P, name="fit", cases=cases, from_model=from_model(), from_model_limit={"quick": 500, "thorough": 6000}),
         dict(P, name="patience", cases=patient), dict(P, name="fit_random", cases=auto),
         dict(P, name="fit_threads", cases=threaded, flags=("-UTHREADS_ENABLED", "-DTHREADS_ENABLED=true"))]
