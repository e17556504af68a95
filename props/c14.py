from props import linkgen as g
import random
LEVEL = "model_checking"
NOTE = "design: TLC compares the recursive selection with the optimum over all antichains for the dendrograms of all small weighted graphs; code: labels of the real code for those and random spanning trees are validated by TLC against the selection specification"
ASSUMPTIONS = ["edge weights are 0 or inverses of integers (times a power of two); the inverse of a zero distance counts as 0, as in common::division",
               "stabilities that differ only by floating-point rounding are not told apart; with powers of two everything is exact and ties are checked"]
def mc(N, W, ms, emit, live=False, **k):
    return dict(module="MC_Condensed", constants=dict(N=N, W=W, Ms=ms, Emit="TRUE" if emit else "FALSE"), invariants=["Right", "SplitsRight"], view="View" if not live else None, emits=emit, **(dict(properties=["Terminates"]) if live else {}), **k)
MODELS = {"quick": [mc(4, 3, "{1,2,3,5}", True), mc(5, 1, "{1,2,3}", True), mc(3, 2, "{1,2}", True, True)],
          "thorough": [mc(4, 4, "{1,2,3,5}", True), mc(5, 2, "{1,2,3}", True, heap="12g"), mc(3, 3, "{1,2,3}", True, True)]}
def opts(rng, n):
    return [[rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, max(1, n // 2), n, n + 1]), rng.randint(0, 1), 1 if rng.random() < .25 else 0, rng.randint(0, 3)] for _ in range(rng.randint(2, 5))]
def case(rng, E, tau):
    return dict(t=rng.randint(0, 2), E=E, tau=tau, sexp=rng.choice([0, 0, 3, -3, 10, -30, -60, 40]), opts=opts(rng, len(E) + 1))
def clustered(rng):
    """dense groups (large inverse distances) joined by long edges"""
    E, n = [], 0
    groups = []
    for _ in range(rng.randint(1, 4)):
        s = rng.randint(1, 7); b = n; groups.append(b)
        hi = rng.choice([4, 16, 64])
        for i in range(1, s): E.append([b + rng.randrange(i), b + i, rng.choice([hi, hi, hi // 2, hi * 2])])
        n += s
    for i in range(1, len(groups)): E.append([groups[rng.randrange(i)], groups[i], rng.choice([1, 2, 4])])
    lab = list(range(n)); rng.shuffle(lab); rng.shuffle(E)
    return [[lab[a], lab[b], w] for a, b, w in E]
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 26 if tier == "quick" else 34])
        k = rng.random()
        if k < .3: yield case(rng, clustered(rng), -1)
        elif k < .65:
            hi = rng.choice([1, 2, 4, 7]); z = rng.random() < .25
            yield case(rng, g.tree(rng, n, lambda r: 0 if z and r.random() < .2 else 2 ** r.randint(0, hi)), -1)
        else:
            hi = rng.choice([3, 12, 60]); z = rng.random() < .2
            yield case(rng, g.tree(rng, n, lambda r: 0 if z and r.random() < .2 else r.randint(1, hi)), 0)
    for _ in range(10 if tier == "quick" else 150):
        hi = rng.choice([1, 2, 4, 7]); yield case(rng, g.tree(rng, rng.choice([50, 65, 100, 150, 260]), lambda r: 2 ** r.randint(0, hi)), -1)
def from_model():
    r = random.Random(7)
    def f(m):
        E = [list(e) for e in m["E"]]; r.shuffle(E)
        lab = list(range(len(E) + 1)); r.shuffle(lab)
        return case(r, [[lab[a], lab[b], w] for a, b, w in E], -1)
    return f
tok = lambda c: [c["t"], c["E"], c["sexp"], c["opts"]]
PARTS = [dict(name="condensed", driver="condensed", trace="Trace_Condensed", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 1000, "thorough": 12000})]
