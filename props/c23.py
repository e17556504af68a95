import random
from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the partial Fisher-Yates shuffle (choices and arrangements correspond one to one), the alias tables (exact integer masses) and k-means++ with every outcome of the generator; code: many draws of every function on model cases and random data, every logged draw and the counts over all draws validated by TLC"
ASSUMPTIONS = ["the generator is seeded by the system: distribution claims are tested with margins of half of an expected count of at least 300 (false alarm below 1e-10 per run)", "no more elements are asked for than the range holds"]
def ms(M, V, emit=True, **k):
    return dict(module="MC_Sampling", constants=dict(M=M, V=V, Emit="TRUE" if emit else "FALSE"), invariants=["Perm", "Uniform", "Covers"], emits=emit, **k)
def ma(N, V, emit=True, **k):
    return dict(module="MC_Alias", constants=dict(N=N, V=V, Emit="TRUE" if emit else "FALSE"), invariants=["Exact", "NoZero"], emits=emit, **k)
MODELS = {"quick": [ms(4, 2), ma(4, 3), ma(5, 2, False)], "thorough": [ms(5, 2), ma(5, 3), ma(6, 3, False)]}
BASE = dict(n=0, a=[], X=[], ind=[], nf=1, sexp=0, how=0)
def sel(rng, m, n, how=None):
    st = rng.choice([1, 2, 5]); b = rng.randint(0, 9)
    how = rng.randint(0, 1) if how is None else how
    t = rng.randint(0, 2)
    if t and rng.random() < .3: b -= 5
    a = [b + i for i in range(m)] if how else [b + st * i for i in range(m)]
    if not how: rng.shuffle(a)
    tot = 1
    for i in range(n): tot *= m - i
    return dict(BASE, k=0, t=t, n=n, a=a, how=how, draws=max(300 * m, 300 * tot if tot <= 24 else 0) + 50)
def rows(rng, how):
    m, nf = rng.choice([1, 2, 3, 4, 6, 9]), rng.choice([1, 2, 3])
    X = g.points(rng, m, nf, lim=8)
    ind = g.subset(rng, m)
    if how == 2: n = rng.randint(1, m)
    elif how in (1, 3): n = rng.randint(1, m + 2)
    elif how == 0: n = 1
    else: n = rng.randint(1, m + 1)
    return dict(BASE, k=1, t=rng.randint(0, 1), n=n, nf=nf, X=X, ind=ind, how=how, draws=320 * m)
def cases(rng, tier):
    q = 1 if tier == "quick" else 10
    for _ in range(60 * q):
        m = rng.choice([1, 2, 3, 4, 5, 8, 15]); yield sel(rng, m, rng.randint(1, m))
        c = sel(rng, m, rng.randint(0, m), 0); c["a"] = [x // 3 for x in c["a"]]; c["draws"] = 40; yield c
    for _ in range(40 * q):
        for how in range(6): yield rows(rng, how)
    for _ in range(40 * q):
        m = rng.choice([2, 3, 4]); x = rng.sample(range(-20, 20), m)
        yield dict(BASE, k=2, t=rng.randint(0, 1), X=[[v] for v in x], how=rng.randint(0, 1), draws=6000)
    for _ in range(40 * q):
        m, nf = rng.choice([1, 2, 3, 7]), rng.choice([1, 2, 3])
        yield dict(BASE, k=3, t=rng.randint(0, 1), nf=nf, X=g.points(rng, m, nf, lim=8), sexp=rng.choice([0, 0, -6, 10]), draws=1300)
    for _ in range(60 * q):
        n = rng.choice([1, 2, 3, 4, 6, 10])
        w = [rng.choice([0, 0, 1, 1, 2, 3, 7, 20, 100]) for _ in range(n)]
        if not sum(w): w[rng.randrange(n)] = rng.choice([1, 5])
        yield dict(BASE, k=4, t=rng.randint(0, 3), a=w, draws=12000)
    for _ in range(3 * q):   # larger ranges
        m = rng.choice([40, 65, 100, 200]); yield sel(rng, m, rng.choice([1, 2, 9, 17]))
        yield dict(sel(rng, m, m), draws=40)
        for how in range(6):
            c = rows(rng, how); m, nf = rng.choice([30, 65, 100]), rng.choice([1, 3, 8, 9])
            c.update(nf=nf, X=g.points(rng, m, nf, lim=8), ind=g.subset(rng, m), n=1 if how == 0 else rng.choice([1, 5, 12, 20]), draws=320 * m if how < 4 else 60); yield c
        w = [rng.choice([0, 1, 2, 3, 7, 20, 100]) for _ in range(rng.choice([20, 33, 64]))]; w[3] = 5
        yield dict(BASE, k=4, t=rng.randint(0, 3), a=w, draws=20000)
    yield dict(BASE, k=4, t=0, a=[], draws=10)
    yield dict(BASE, k=4, t=2, a=[], draws=10)
    for _ in range(20 * q):
        lo, w = rng.randint(0, 9), rng.choice([0, 1, 2, 4, 9]); t = rng.randint(0, 2)
        yield dict(BASE, k=5, t=t, a=[lo - (5 if t != 1 else 0)], n=w, draws=320 * (w + 1))
def from_model():
    r = random.Random(6)
    def f(m):
        if m["k"] == "select": return sel(r, m["m"], m["n"])
        if m["k"] == "alias": return dict(BASE, k=4, t=r.randint(0, 3), a=m["w"], draws=1500 * len(m["w"]))
        return dict(BASE, k=1, t=r.randint(0, 1), n=m["n"], X=[[v] for v in m["X"]], how=r.choice([4, 4, 5]), draws=60)
    return f
def tok(c):
    h = [c["k"], c["t"]]
    return h + {0: lambda: [c["n"], c["a"], c["draws"], c["how"]], 1: lambda: [c["n"], c["nf"], c["X"], c["ind"], c["draws"], c["how"]],
                2: lambda: [[p[0] for p in c["X"]], c["draws"], c["how"]], 3: lambda: [c["nf"], c["X"], c["draws"], c["sexp"]],
                4: lambda: [c["a"], c["draws"]], 5: lambda: [c["a"][0], c["a"][0] + c["n"], c["draws"]]}[c["k"]]()
PARTS = [dict(name="draws", driver="sampling", trace="Trace_Sampling", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 400, "thorough": 4000})]
