import random
from props import common as g
def case(rng, mode, t=None, large=False, **kw):
    if t is None: t = rng.choice([0, 0, 1, 2, 2, 3])
    nf = rng.choice([1, 1, 2, 3]); n = rng.choice([2, 3, 4, 5, 6, 8, 10, 14, 20])
    if large: n, nf = rng.choice([40, 64, 65, 130]), rng.choice([1, 1, 2, 5, 9])
    exact = 1 if t >= 2 or nf == 1 else 0
    lim = rng.choice([4, 6, 12, 40])
    X = g.points(rng, n, nf, lim=lim)
    X = [[max(-200, min(200, v)) for v in x] for x in X]; n = len(X)
    if t == 2 or t == 3: pass
    k = min(n, rng.choice([2, 6, 8, 9, 12] if large else [2, 2, 2, 3, 3, 4, 5, 7]))
    M = rng.sample(range(n), k)
    steps = rng.choice([1, 2, 3, 4, 6])
    c = dict(t=t, mode=mode, store=rng.randint(0, 1), nf=nf, X=X, sexp=rng.choice([0, 0, 0, -5, 7, -40]), off=0 if t == 1 else rng.choice([0, 0, 500, -33]), exact=exact, M=M, steps=steps,
             maxit=0, early=0, patience=0, ninit=1, k=k, alg=rng.randint(0, 1), best=0, line=0)
    c.update(kw)
    return c
def tok(c):
    return [c[a] for a in ("t", "mode", "store", "nf", "X", "sexp", "off", "exact", "M", "steps", "maxit", "early", "patience", "ninit", "k", "alg")]
def lst(x): return [x[k] for k in sorted(x, key=int)] if isinstance(x, dict) else list(x)
def from_model(mode):
    r = random.Random(20 + mode)
    def f(m):
        if "M" not in m: return None
        X, M = lst(m["X"]), lst(m["M"])
        p = list(range(len(X)))
        if r.random() < .7: r.shuffle(p)
        inv = {a: b for b, a in enumerate(p)}
        t = r.randint(0, 3); c = case(r, mode, t=t)
        c.update(nf=1, X=[[X[i]] for i in p], M=[inv[a - 1] for a in M], k=len(M), exact=1, off=0, steps=4)
        if mode == 1: fitopt(r, c)
        return c
    return f
def fitopt(rng, c):
    c["maxit"] = c["steps"] = rng.choice([0, 1, 2, 3, 5, 7]); c["early"] = rng.choice([0, 1, 1]); c["patience"] = rng.choice([0, 0, 1, 2]); c["ninit"] = rng.choice([1, 3])
    return c
def mc(N, C, K, emit, live=False, **k):
    return dict(module="MC_PAM", constants=dict(N=N, C=C, K=K, Emit="TRUE" if emit else "FALSE"), invariants=["Valid", "CachesOK", "LossExact", "DeltaExact", "Optimal"], properties=["Descends"] + (["Terminates"] if live else []), emits=emit, **k)
