from props import pamgen as m
import random
LEVEL = "model_checking"
NOTE = "design: TLC exhausts FasterMSC's incremental caches (three nearest medoids; by position for two medoids) over all small sample sets on a line and all starts, with exact ratios (caches and predicted gains exact, every pass descends, ends swap-optimal); code: every pass of the real FasterMSC (both storages) and KMedoids::fit with it are judged by TLC on the distance matrix"
ASSUMPTIONS = ["at least two medoids; floating-point features (the class refuses others)",
               "losses are compared up to rounding (a few millionths per sample where distances are integers, a few thousandths otherwise); swap-optimality is not required where an exchange leaves the loss as it is, since rounding may make a pass exchange tied medoids back and forth",
               "random starts cannot be observed: the choice of the best start is checked with so many starts that missing the best subset has negligible probability"]
def mc(N, C, K, L, emit, live=False, **k):
    return dict(module="MC_MSC", constants=dict(N=N, C=C, K=K, L=L, Emit="TRUE" if emit else "FALSE"), invariants=["Valid", "CachesOK", "LossExact", "GainExact", "Optimal"], properties=["Descends"] + (["Terminates"] if live else []), emits=emit, **k)
MODELS = {"quick": [mc(4, 5, 2, 12, True, True), mc(5, 4, 3, 6, True), mc(5, 3, 4, 2, True)],
          "thorough": [mc(5, 6, 2, 60, True, True), mc(6, 5, 2, 12, False), mc(5, 6, 3, 60, True, heap="8g"), mc(6, 4, 3, 6, False, heap="8g"), mc(5, 5, 4, 12, False), mc(6, 3, 4, 2, False, heap="8g")]}
DIRS = [(1, 0), (0, 1), (3, 4), (4, -3), (1, 0, 0), (2, 1, 2), (2, -3, 6), (1, 1, 1, 1), (2, 4, 5, 6)]
def case(rng, mode, large=False, **kw):
    """samples on a line (any direction of integral length): exact; or anywhere, small"""
    c = m.case(rng, mode, t=rng.choice([0, 0, 1]), large=large, alg=2)
    n = len(c["X"])
    if rng.random() < .65:
        w = rng.choice([8, 30, 100, 100, 100, 200]); p = [rng.randint(-w, w) for _ in range(n)]
        if rng.random() < .3:
            for i in range(1, n):
                if rng.random() < .25: p[i] = p[rng.randrange(i)]
        if rng.random() < .2: p = [rng.choice([-w, 0, w]) + rng.randint(-5, 5) for _ in range(n)]
        d = rng.choice(DIRS) if rng.random() < .5 else (1,)
        ln = int(sum(a * a for a in d) ** .5)
        c.update(nf=len(d), X=[[v * a for a in d] for v in p] if ln * w <= 500 else [[v // ln * a for a in d] for v in p], exact=1)
        if len(d) > 1: c["line"] = 1
    else:
        lim = 13 if c["nf"] <= 3 else 7
        c.update(X=[[max(-lim, min(lim, v)) for v in x] for x in c["X"]], exact=1 if c["nf"] == 1 else 0)
    if c["t"] == 1: c["off"] = 0
    c["sexp"] = rng.choice([0, 0, -20, -10, 7, 20]) if c["t"] == 0 else rng.choice([0, -10, 8])
    c.update(kw)
    return c
def steps(rng, tier):
    for _ in range(2200 if tier == "quick" else 25000): yield case(rng, 0)
    for _ in range(12 if tier == "quick" else 200): yield case(rng, 0, large=True)
def fits(rng, tier):
    for i in range(500 if tier == "quick" else 6000):
        r = i % 4
        if r < 2: yield m.fitopt(rng, case(rng, 1))
        elif r == 2: yield case(rng, 2, maxit=100, early=1, patience=rng.choice([0, 1]), ninit=rng.choice([1, 1, 2, 5]), M=[])
        else:
            n = rng.choice([3, 4, 5, 6]); k = 2 if n > 4 else rng.choice([2, n - 1])
            c = case(rng, 2, maxit=0, early=1, ninit=600, best=1, M=[], k=k, patience=rng.choice([0, 1]))
            while len(c["X"]) < n: c["X"].append(list(rng.choice(c["X"])))
            c["X"] = c["X"][:n]; yield c
def from_model():
    f0 = m.from_model(0); r = random.Random(27)
    def f(md):
        c = f0(md)
        if c is None: return None
        c.update(t=r.randint(0, 1), alg=2, exact=1); return c
    return f
P = dict(driver="kmedoids", trace="Trace_PAM", tokens=m.tok)
PARTS = [dict(P, name="msc", cases=steps, from_model=from_model(), from_model_limit={"quick": 1200, "thorough": 12000}), dict(P, name="msc_fit", cases=fits)]
