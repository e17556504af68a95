LEVEL = "model_checking"
NOTE = "TLC exhausts the forest machine of UnionFind.hpp (union by rank, path halving) up to 5 (quick) / 6 (thorough) elements; every transition of the 4-element graph and random long histories are replayed in the code and validated as behaviours of the partition specification"
ASSUMPTIONS = ["elements are 0..n-1; a label array given to the constructor is a forest of parents"]
def _mc(n, emit, maxops=99, **k):
    return dict(module="MC_UnionFind", constants={"N": n, "Emit": "TRUE" if emit else "FALSE", "MaxOps": maxops},
                invariants=["Refines", "RepsOK", "LastOK", "RankOK"], view="View" if emit else "FullView", emits=emit, **k)
MODELS = {"quick": [_mc(4, True, workers=1), _mc(5, False, min_states=1000)],
          "thorough": [_mc(4, True, workers=1), _mc(6, False, min_states=10000)]}

def from_model(c):
    k = len(c["ops"])
    return dict(t=0, n=c["n"], parents=[], ops=c["ops"], probe=[0] * (k - 1) + [1])

def cases(rng, tier):
    N = 300 if tier == "quick" else 3000
    for k in range(N):
        n = rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 30])
        if k % 150 == 149: n = 300
        if rng.random() < .05: n = rng.choice([64, 100, 200])
        L = rng.randint(1, 3 * n)
        parents = []
        if rng.random() < 0.3:
            order = list(range(n)); rng.shuffle(order)
            parents = [0] * n
            for i, e in enumerate(order):
                parents[e] = e if i == 0 or rng.random() < 0.4 else order[rng.randrange(i)]
        style = rng.random()
        ops = []
        for i in range(L):
            a, b = rng.randrange(n), rng.randrange(n)
            if style < 0.3:      # grow one component / chains
                a = ops[-1][2] if ops and rng.random() < .7 else a
            elif style < 0.5:    # balanced tournaments make deep trees
                s = 1 << rng.randint(0, 3 if n < 64 else 6)
                a = (a // (2 * s)) * 2 * s % n; b = min(n - 1, a + s)
            ops.append([1 if rng.random() < (0.75 if style < 0.8 else 0.4) else 0, a, b])
        pr = rng.choice([0.0, 0.2, 1.0]) if n < 64 else .02
        probe = [1 if rng.random() < pr else 0 for _ in ops]
        probe[-1] = 1
        yield dict(t=k % 3, n=n, parents=parents, ops=ops, probe=probe)

PARTS = [dict(name="history", driver="unionfind", trace="Trace_UnionFind", cases=cases,
              tokens=lambda c: [c["t"], c["n"], c["parents"], c["ops"], c["probe"]],
              from_model=from_model, from_model_limit={"quick": 2500})]
