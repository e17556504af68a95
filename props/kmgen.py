import random
from props import common as g
def data(rng, t, large=False):
    """samples small enough for exact arithmetic in the specification (and in float when t = 1)"""
    if large:
        nf = rng.choice([1, 1, 2, 8, 9]); n, lim = (rng.choice([65, 100, 200, 260, 300]), 40) if nf == 1 else (rng.choice([40, 60]), 5 if nf < 8 else 3)
    elif t == 1:
        n, nf, lim = rng.randint(1, 6), rng.choice([1, 2]), 8
    else:
        nf = rng.choice([1, 1, 2, 2, 3])
        n, lim = (rng.choice([1, 2, 3, 5, 8, 12, 20, 40]), 40) if nf == 1 else (rng.choice([1, 2, 3, 4, 6, 8, 10, 14, 18]), 14)
    X = g.points(rng, n, nf, lim=max(4, lim), style=rng.choice(["uni", "uni", "uni", "clus", "tiny", "dup", "line", "diag", "grid", "neg", "outl", "sorted", "same", "clus"]))
    return n, nf, [[max(-lim, min(lim, v)) for v in x] for x in X], lim
def start(rng, X, nf, k, lim):
    st = rng.choice(["samples", "samples", "samples", "box", "box", "far", "dup", "half"])
    if st == "samples": C = [[2 * v for v in rng.choice(X)] for _ in range(k)]
    elif st == "half":
        C = []
        for _ in range(k):
            a, b = rng.choice(X), rng.choice(X); C.append([p + q for p, q in zip(a, b)])
    elif st == "dup":
        c = [2 * v for v in rng.choice(X)]; C = [list(c) for _ in range(k)]
        if k > 1: C[rng.randrange(k)] = [2 * v for v in rng.choice(X)]
    else:
        w = lim * 2 if st == "box" else lim * 3
        C = [[rng.randint(-w, w) for _ in range(nf)] for _ in range(k)]
        if st == "far" and k > 1: C[0] = [2 * v for v in rng.choice(X)]
    return C
def ties(X, C):
    n = 1
    for x in X:
        d = [sum((2 * a - b) ** 2 for a, b in zip(x, c)) for c in C]
        n *= d.count(min(d))
    return n
def case(rng, alg, mode=0, ncand=1, large=False):
    t = 1 if rng.random() < .25 and not large else 0
    while True:
        n, nf, X, lim = data(rng, t, large)
        k = rng.choice([3, 7, 8, 9, 12]) if large else rng.choice([1, 2, 2, 2, 3, 3, 4, min(n, 5), min(n, 6)])
        C2 = [start(rng, X, nf, k, lim) for _ in range(ncand)]
        if all(ties(X, C) <= 600 for C in C2): break
    return dict(t=t, alg=alg, mode=mode, nf=nf, X=X, sexp=rng.choice([0, 0, 0, -4, 3, -30, 40]), off=0 if t else rng.choice([0, 0, 1000, -77]), C2=C2,
                maxit=0, early=0, tol=0, patience=0, how=0, steps=rng.choice([1, 2, 3, 5, 8, 12]), Y=[], calls=0)
def from_model(alg):
    r = random.Random(17)
    def f(m):
        X = [list(x.values()) if isinstance(x, dict) else list(x) for x in m["X"]]
        C = [list(x.values()) if isinstance(x, dict) else list(x) for x in m["C2"]]
        r.shuffle(X)
        return dict(t=r.randint(0, 1), alg=alg, mode=0, nf=len(X[0]), X=X, sexp=r.choice([0, 0, -20]), off=0, C2=[C], maxit=0, early=0, tol=0, patience=0, how=0, steps=6, Y=[], calls=0)
    return f
def tok(c):
    return [c["t"], c["alg"], c["mode"], c["nf"], c["X"], c["sexp"], c["off"], len(c["C2"])] + list(c["C2"]) + [c["maxit"], c["early"], c["tol"], c["patience"], c["how"], c["steps"], c["Y"]]
def mck(N, C, Dim, K, emit, live=False, **k):
    return dict(module="MC_KMeans", constants=dict(N=N, C=C, Dim=Dim, K=K, Emit="TRUE" if emit else "FALSE"), invariants=["Inside"], properties=["Decreases"] + (["Terminates"] if live else []), emits=emit, **k)
def mch(N, C, K, emit, live=False, **k):
    return dict(module="MC_Hamerly", constants=dict(N=N, C=C, K=K, Emit="TRUE" if emit else "FALSE"), invariants=["BoundsOK", "Exact"], view="View", emits=emit, **(dict(properties=["Terminates"]) if live else {}), **k)
