import random
from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the scans and swaps of partition, quickselect and quicksort over all short arrays, with termination; code: those arrays and larger ones are reordered by the real routines and TLC validates the result"
ASSUMPTIONS = ["non-empty ranges", "the pivot position lies in the range"]
def mc(N, V, Modes, emit=True, live=False, **k):
    return dict(module="MC_Sorting", constants=dict(N=N, V=V, Modes=Modes, Emit="TRUE" if emit else "FALSE"), invariants=["ScanInRange", "Permutation", "Correct"], emits=emit, **(dict(properties=["Terminates"]) if live else {}), **k)
M = '{"partition","select","sort"}'
MODELS = {"quick": [mc(5, 3, '{"partition","select"}'), mc(4, 4, M, False, True), mc(5, 4, '{"sort"}', False)],
          "thorough": [mc(6, 3, '{"partition","select"}'), mc(5, 4, M, False, True, heap="8g"), mc(6, 4, M, False, heap="8g"), mc(7, 3, M, False, heap="8g")]}
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        n, nf = g.size(rng, 60), rng.choice([1, 1, 2, 3])
        if rng.random() < .03: n, nf = rng.choice([100, 200, 257, 400, 1030]), rng.choice([1, 2, 9, 12])
        X = g.points(rng, n, nf)
        if rng.random() < .2: X.sort(reverse=rng.random() < .5)
        ind = g.subset(rng, n)
        c = dict(nf=nf, X=X, ind=ind, f=rng.randrange(nf), p=rng.randrange(len(ind)), **g.embed(rng))
        if rng.random() < .2: c["t"] = rng.choice([2, 3])
        yield c
def from_model():
    r = random.Random(5)
    def f(m):
        a = m["a"]
        if m["mode"] == "sort": return None
        return dict(nf=1, X=[[v] for v in a], ind=list(range(len(a))), f=0, p=m["kth"] - 1, t=r.randint(0, 2), sexp=r.choice([0, 0, -60]), off=0)
    return f
def tok(c):
    return [c["t"], c["nf"], c["X"], c["ind"], c["f"], c["p"], c["sexp"], c["off"]]
PARTS = [dict(name="sorting", driver="sorting", trace="Trace_Sorting", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 2500, "thorough": 20000})]
