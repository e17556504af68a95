import random
from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts two-pass variance and one-pass extrema over all small ranges in every order; code: plain, indexed and masked variants on the same data, range searches for every value type (ties, unsigned zeros, 8-bit ranges of more than 255 elements), validated by TLC in exact integers (variances to 0.2 %)"
ASSUMPTIONS = ["variances: floating-point features and at least two samples", "sums fit the value type", "normalize: the sum is not zero"]
def mc(N, V, emit=True, shift=0, **k):
    return dict(module="MC_Statistics", constants=dict(N=N, V=V, Shift=shift, Emit="TRUE" if emit else "FALSE"), invariants=["VarianceOK", "ExtremaOK"], emits=emit, **k)
MODELS = {"quick": [mc(4, "{0,1,2,3}"), mc(3, "{0,3,4,6,11}", shift=4)], "thorough": [mc(5, "{0,1,2,3}"), mc(6, "{0,1,2}", False), mc(4, "{0,3,4,6,11,13}", shift=4)]}
def cases(rng, tier):
    for _ in range(2600 if tier == "quick" else 30000):
        if rng.random() < .5:
            n, nf = rng.choice([2, 3, 4, 5, 8, 13, 24]), rng.choice([1, 2, 3, 4])
            if rng.random() < .04: n, nf = rng.choice([50, 65, 100]), rng.choice([1, 5, 9, 17])
            t = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7])
            X = g.points(rng, n, nf, lim=8)
            if t == 5: X = X[:24]
            n = len(X)
            if t == 5: X = [[abs(v) % 10 for v in p] for p in X]
            elif t >= 6: X = [[abs(v) for v in p] for p in X]
            ind = g.subset(rng, n, .3)
            if t < 2 and len(ind) < 2: ind = [0, n - 1]
            if rng.random() < .1: ind = ind + [rng.choice(ind)]
            mask = [f for f in range(nf) if rng.random() < .6] or [rng.randrange(nf)]
            rng.shuffle(mask)
            e = g.embed(rng)
            yield dict(k=0, nf=nf, X=X, ind=ind, mask=mask, a=[], b=[], t=t, sexp=e["sexp"] if t < 2 else 0, off=e["off"] if t < 2 else 0)
        else:
            t = rng.randint(0, 7)
            n = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 12, 24])
            if rng.random() < .04: n = rng.choice([33, 64, 65, 100])
            if rng.random() < .01: n = rng.choice([257, 300])
            lo, hi = rng.choice([(0, 1), (0, 3), (-5, 5), (-200, 200), (-9, -1), (0, 250)])
            if t >= 5: lo, hi = 0, max(1, abs(hi))
            a = [rng.randint(lo, hi) for _ in range(n)]
            if rng.random() < .25: a.sort(reverse=rng.random() < .5)
            if rng.random() < .1: a = [a[0]] * n
            if rng.random() < .1: a = [min(a)] * n; a[rng.randrange(n)] += 1
            if n > 256:
                a = [rng.randint(0, 1) for _ in range(n)]; z = rng.randrange(255, n)
                if rng.random() < .5: a = [2] * n; a[z] = 1; a[z - 1] = 3
                else: a[z] = 9
            b = [rng.randint(lo, hi) for _ in range(n)]
            yield dict(k=1, nf=1, X=[], ind=[], mask=[], a=a, b=b, t=t, sexp=0, off=0)
def from_model():
    r = random.Random(11)
    def f(m):
        a = m["a"]; ok = min(a) >= 0
        if len(a) > 1 and r.random() < .5:
            ind = list(range(len(a))); r.shuffle(ind)
            return dict(k=0, nf=2, X=[[v, w] for v, w in zip(a, reversed(a))], ind=ind, mask=r.choice([[0], [1], [1, 0]]), a=[], b=[], t=r.choice([0, 1]), sexp=0, off=0)
        return dict(k=1, nf=1, X=[], ind=[], mask=[], a=a, b=list(reversed(a)), t=r.randint(0, 7 if ok else 4), sexp=0, off=0)
    return f
def tok(c):
    return [c["k"], c["t"]] + ([c["nf"], c["X"], c["ind"], c["mask"], c["sexp"], c["off"]] if c["k"] == 0 else [c["a"], c["b"]])
PARTS = [dict(name="statistics", driver="statistics", trace="Trace_Statistics", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 600, "thorough": 10000})]
