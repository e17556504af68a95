import random
from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the two-row edit-distance machine against the recursive definition and the triangular matrix filled by concurrent rows in every interleaving; code: every feature type, all functions, both matrices (sequential and with OpenMP threads) on model cases and random data, every ordered pair validated by TLC"
ASSUMPTIONS = ["results fit the result type", "both vectors have the same number of features", "Euclidean distances are compared through their squares, cosines to 1/1000"]
def mc(spec, A, L, R, V, inv, emit=True, **k):
    return dict(module="MC_Distances", spec=spec, constants=dict(Alpha=A, MaxLen=L, Rows=R, V=V, Emit="TRUE" if emit else "FALSE"), invariants=inv, emits=emit, **k)
LEV, MAT = ["LevOK"], ["MatOK", "NoLostWrite"]
MODELS = {"quick": [mc("Spec", "{1,2}", 4, 1, 1, LEV), mc("SpecMat", "{1}", 1, 4, 2, MAT)],
          "thorough": [mc("Spec", "{1,2,3}", 4, 1, 1, LEV), mc("Spec", "{1,2}", 6, 1, 1, LEV, False), mc("SpecMat", "{1}", 1, 5, 2, MAT, heap="8g")]}
INTS = [2, 3, 4, 5, 6, 7, 8, 9]
def cases(rng, tier):
    for _ in range(2200 if tier == "quick" else 30000):
        k = rng.choice([0, 0, 0, 0, 0, 2, 2, 1])
        if k == 0:
            t = rng.choice([0, 0, 1, 1, 10] + INTS)
            fl = t in (0, 1, 10)
            nf = rng.choice([1, 1, 2, 3, 5, 9, 16, 17, 33])
            lim = (3 if nf < 5 else 1) if fl else (127 // nf if t in (5,) else 14 if nf > 9 else 40)
            lo = -lim if t < 6 or t == 10 else 0
            if t == 5: lo, lim = -(60 // nf), 60 // nf
            if t == 8: lim = 255 // nf
            p = [rng.randint(lo, lim) for _ in range(nf)]
            q = list(p) if rng.random() < .1 else [rng.randint(lo, lim) for _ in range(nf)]
            if rng.random() < .1: q = [-x if lo < 0 else x for x in p]
            if t in (0, 1, 10) and rng.random() < .1: q = [0] * nf
            yield dict(k=0, t=t, p=p, q=q, X=[], sexp=rng.choice([0, 0, -3, 5, -20]), off=0, nf=nf)
        elif k == 2:
            A = rng.choice([1, 2, 2, 3, 5])
            n, m2 = rng.choice([0, 1, 2, 3, 5, 8, 12, 17]), rng.choice([0, 1, 2, 3, 5, 8, 12, 17])
            if rng.random() < .05: n, m2 = rng.choice([17, 33, 40]), rng.choice([1, 16, 31, 32, 40])
            s = [rng.randint(1, A) for _ in range(n)]; t_ = [rng.randint(1, A) for _ in range(m2)]
            if rng.random() < .4 and s:
                t_ = list(s)
                for _ in range(rng.randint(1, 3)):
                    z = rng.random(); i = rng.randint(0, len(t_))
                    if z < .4: t_.insert(i, rng.randint(1, A))
                    elif t_ and z < .7: t_.pop(i % len(t_))
                    elif t_: t_[i % len(t_)] = rng.randint(1, A)
            yield dict(k=2, t=rng.choice(INTS + [11]), p=s, q=t_, X=[], sexp=0, off=0, nf=0)
        else:
            yield matc(rng)
def matc(rng):
    t = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    n, nf = rng.choice([1, 2, 3, 4, 7, 12, 20]), rng.choice([1, 2, 3])
    if rng.random() < .06: n, nf = rng.choice([33, 50, 64, 65, 130]), rng.choice([1, 4, 9])
    X = g.points(rng, n, nf, lim=8, style=rng.choice(["uni", "tiny", "dup", "same", "diag", "clus", "grid"]))
    if t >= 6: X = [[abs(v) for v in p] for p in X]
    if t == 5: m = 127 // nf + 1; X = [[v % m - 60 // nf for v in p] for p in X]          # narrow types: the distances must fit
    if t == 8: m = 255 // nf + 1; X = [[v % m for v in p] for p in X]
    e = g.embed(rng)
    return dict(k=1, t=t, p=[], q=[], X=X, nf=nf, sexp=e["sexp"] if t < 2 else 0, off=e["off"] if t < 2 else 0)
def tcases(rng, tier):
    for _ in range(120 if tier == "quick" else 1500): yield matc(rng)
def from_model():
    r = random.Random(5)
    def f(m):
        if m["k"] == "lev": return dict(k=2, t=r.choice(INTS + [11]), p=m["s"], q=m["t"], X=[], nf=0, sexp=0, off=0)
        return dict(k=1, t=r.randint(0, 9), p=[], q=[], X=[[v] for v in m["s"]], nf=1, sexp=0, off=0)
    return f
def tok(c):
    h = [c["k"], c["t"]]
    return h + ([c["p"], c["q"], c["sexp"]] if c["k"] == 0 else [c["p"], c["q"]] if c["k"] == 2 else [c["nf"], c["X"], c["sexp"], c["off"]])
PARTS = [dict(name="distances", driver="distances", trace="Trace_Distances", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 1000, "thorough": 15000}),
         dict(name="threads", driver="distances", trace="Trace_Distances", cases=tcases, tokens=tok, flags=("-UTHREADS_ENABLED", "-DTHREADS_ENABLED=true"))]
