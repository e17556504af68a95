import random
from props import common as g, searchgen as s
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the incremental buffer machine over all short histories of offers; code: those histories and random interleavings of updates, partial searches, moves and copies are replayed in the real buffers and TLC validates the content after every operation"
ASSUMPTIONS = ["distances are not negative"]
def mc(L, C, Ks, Bans, emit=True, **k):
    return dict(module="MC_Buffer", constants=dict(L=L, C=C, Ks=Ks, Bans=Bans, Emit="TRUE" if emit else "FALSE"), invariants=["Best", "Caches", "NoBanned"], emits=emit, **k)
MODELS = {"quick": [mc(5, 3, "{0,1,2,3}", "{{},{1},{0,2}}"), mc(6, 4, "{2,3}", "{{}}", False)],
          "thorough": [mc(6, 3, "{0,1,2,3,4}", "{{},{1},{0,2},{3,4,5}}"), mc(7, 5, "{1,2,3,4}", "{{},{2}}", False, heap="8g")]}
BASE = dict(reg="all", r2=0, lo=[], hi=[], excl=[], rep=-1, merges=[])
def op(rng, n):
    r = rng.random()
    if r < .4: return [0, rng.randrange(n), rng.choice([0, 1, 2, 3, 4, 5, 9, rng.randint(0, 60)])]
    if r < .85: return [1] + [rng.randrange(n) for _ in range(rng.randint(0, 5))]
    return [rng.choice([2, 3])]
def cases(rng, tier):
    m = {0: 0, 1: 1, 2: 5, 3: 6, 4: 8, 5: 10, 6: 11, 7: 3, 8: 7}
    for _ in range(1600 if tier == "quick" else 20000):
        n, nf = rng.choice([1, 2, 3, 5, 8, 14]), rng.choice([1, 2, 3])
        large = rng.random() < .03
        if large: n, nf = rng.choice([40, 70, 110]), rng.choice([1, 2, 9, 12])
        X = g.points(rng, n, nf, lim=8)
        kind = rng.randint(0, 8)
        q = s.q_of(rng, [m[kind]], X, list(range(n)), nf)
        c = {k: q[k] for k in ("c2", "r2", "lo", "hi", "excl", "rep", "merges", "reg")}
        ops = [op(rng, n) for _ in range(rng.randint(1, 12))]
        if large: ops = [[1] + rng.sample(range(n), rng.randint(1, n // 2)) if rng.random() < .7 else o for o in ops][:8]
        if rng.random() < (.8 if large else .3):
            o = sorted(range(n), key=lambda i: sum((2 * X[i][f] - q["c2"][f]) ** 2 for f in range(nf)), reverse=rng.random() < .7)
            ops = [[1] + o] + ops
        if kind in (5, 6):
            for _ in range(rng.randint(0, 3)):
                a = q["rep"] if rng.random() < .5 else rng.randrange(n)
                ops.insert(rng.randint(0, len(ops)), [4, a, rng.randrange(n)])
        yield g.whole(rng, dict(nf=nf, X=X, kind=kind, k=rng.choice([0, 8, 9, 16, 17, 33, 64, 65] if large else [0, 1, 1, 2, 2, 3, 4, 6, 30]), ops=ops, **c, **g.embed(rng)))
def from_model():
    r = random.Random(9)
    def f(m):
        n = max(1, len(m["hist"]))
        ops = [[0, i, d] for i, d in m["hist"]]
        c = dict(BASE); kind = 0
        if m["ban"]:
            kind = r.choice([2, 3, 5, 8])
            if kind == 5:
                c["rep"] = m["ban"][0]; c["merges"] = [[m["ban"][0], b] for b in m["ban"][1:]]
            else:
                c["excl"] = m["ban"]
        # the same offers as samples on a line, offered by partial searches
        X = [[m["hist"][i][1]] for i in range(n)]
        if r.random() < .5:
            ops = [[1, i] for i in range(n)] if r.random() < .5 else [[1] + list(range(n))]
        if r.random() < .3:
            ops.insert(r.randint(0, len(ops)), [r.choice([2, 3])])
        return dict(nf=1, X=X, kind=kind, k=m["k"], ops=ops, c2=[0], t=r.randint(0, 1), sexp=0, off=0, **c)
    return f
def tok(c):
    return [c["t"], c["nf"], c["X"], c["sexp"], c["off"], c["kind"], c["k"], c["c2"], c["r2"], c["lo"], c["hi"], c["excl"], c["rep"], c["merges"], c["ops"]]
PARTS = [dict(name="buffers", driver="buffers", trace="Trace_Buffer", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 2000, "thorough": 20000})]
