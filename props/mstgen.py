import random
from props import common as g
def case(rng, ks, hows, big=26, large=False):
    n, nf = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 20, big]), rng.choice([1, 2, 2, 3, 3, 6])
    if large: n, nf = rng.choice([40, 64, 65, 90, 130, 200, 260]), rng.choice([1, 2, 3, 8, 9, 13])
    X = g.points(rng, n, nf)
    p = list(range(n)); rng.random() < .5 and rng.shuffle(p)
    c = dict(nf=nf, X=X, perm=p, conf=g.conf(rng, n, nf), k=ks(rng, n), how=rng.choice(hows), **g.embed(rng))
    if not large and rng.random() < .12:
        # integral features: Manhattan distance
        c["t"] = rng.choice([2, 3]); c["sexp"] = 0; c["how"] = rng.choice([0, 1, 3])
        c["off"] = rng.choice([0, -100, 1000]) if c["t"] == 2 else rng.choice([200, 1000])
    return c
def from_model(ks, hows):
    r = random.Random(3)
    def f(m):
        X = [[p[str(i)] if isinstance(p, dict) else p[i - 1] for i in range(1, len(p) + 1)] for p in m["X"]]
        if not ks(m["k"]): return None
        n = len(X); p = list(range(n)); r.shuffle(p)
        Y = [None] * n
        for i, x in enumerate(X): Y[p[i]] = x
        return dict(nf=len(X[0]), X=Y, perm=list(range(n)), conf=g.conf(r, n, len(X[0])), k=m["k"], how=r.choice(hows), t=r.randint(0, 1), sexp=r.choice([0, 0, -40]), off=0)
    return f
def tok(c):
    return [c["t"], c["nf"], c["X"], c["perm"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["k"], c["how"]]
def mc(N, C, Dim, Ks, emit=True, live=False, met=2, **k):
    return dict(module="MC_MST", constants=dict(N=N, C=C, Dim=Dim, Ks=Ks, Met=met, Emit="TRUE" if emit else "FALSE"), invariants=["Forest", "Correct", "Progress"], emits=emit, **(dict(properties=["Terminates"]) if live else {}), **k)
