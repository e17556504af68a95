from props import linkgen as g
import random
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the agglomeration (all orders of tied edges) of all small weighted trees and every cut, with termination; code: dendrograms, their serialised form and cuts produced by the real code from those and random trees are validated by TLC"
ASSUMPTIONS = ["floating-point weights, non-negative and exactly representable", "the edge list is a spanning tree over samples 0..n-1"]
def mc(N, W, emit, live=False, **k):
    return dict(module="MC_SingleLink", constants=dict(N=N, W=W, Emit="TRUE" if emit else "FALSE"), invariants=["Complete", "Joined", "Monotone", "CutRight"], emits=emit, **(dict(properties=["Terminates"]) if live else {}), **k)
MODELS = {"quick": [mc(4, 3, True, True), mc(5, 2, True), mc(2, 3, True)],
          "thorough": [mc(4, 5, True, True), mc(5, 3, True), mc(6, 2, False, heap="8g"), mc(3, 6, True)]}
def cuts(rng, E):
    ws = sorted(set(e[2] for e in E)) or [1]
    n = len(E) + 1
    out = []
    for _ in range(rng.randint(1, 4)):
        c = rng.choice([-1, rng.choice(ws), rng.choice(ws), rng.choice(ws) + 1, max(0, rng.choice(ws) - 1), rng.randint(0, 61)])
        out.append([c, rng.choice([1, 1, 1, 2, 2, 3, max(1, n // 2), n, n + 1, 0])])
    return out
def case(rng, E):
    return dict(t=rng.randint(0, 3), E=E, sexp=rng.choice([0, 0, -5, 3, -30, -80, 50, 1000, 1007]), how=rng.randint(0, 3), ser=1 if rng.random() < .2 else 0, cuts=cuts(rng, E))
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 20000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 28 if tier == "quick" else 40])
        yield case(rng, g.tree(rng, n, g.weights(rng)))
    for _ in range(10 if tier == "quick" else 150): yield case(rng, g.tree(rng, rng.choice([50, 65, 100, 150, 260]), g.weights(rng)))
def from_model():
    r = random.Random(5)
    def f(m):
        E = [list(e) for e in m["E"]]; r.shuffle(E)
        lab = list(range(len(E) + 1)); r.shuffle(lab)
        return case(r, [[lab[a], lab[b], w] if r.random() < .5 else [lab[b], lab[a], w] for a, b, w in E])
    return f
tok = lambda c: [c["t"], c["E"], c["sexp"], c["how"], c["ser"], c["cuts"]]
PARTS = [dict(name="slink", driver="singlelink", trace="Trace_SingleLink", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 1200, "thorough": 12000})]
