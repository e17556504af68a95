import random
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the blocked parallel transposition over all small shapes and all interleavings of the blocks (each cell written exactly once); code: all three transposition functions, sequential and with OpenMP threads, shapes across the block size, rearrangements, membership/conversion/comparison helpers and feature vectors/masks, validated element by element by TLC"
ASSUMPTIONS = ["values are integers that every value type represents exactly"]
def mc(R, C, B, emit=True, **k):
    return dict(module="MC_Transpose", constants=dict(MaxR=R, MaxC=C, B=B, Emit="TRUE" if emit else "FALSE"), invariants=["Correct"], emits=emit, **k)
MODELS = {"quick": [mc(3, 3, 2), mc(4, 4, 3, False)], "thorough": [mc(4, 4, 2), mc(5, 4, 3, False), mc(5, 5, 2, False, heap="10g")]}
BASE = dict(b=[], ind=[], x=0, what=0, it=0, rows=0, s=0, m=1)
def cases(rng, tier):
    for _ in range(2400 if tier == "quick" else 30000):
        t = rng.randint(0, 5)
        lo, hi = (0, 60) if t in (3, 5) else (-60, 60)
        val = lambda: rng.randint(lo, hi) if rng.random() < .7 else rng.randint(0, 2)
        what = rng.choice([0, 0, 1, 1, 1, 2, 2, 3])
        c = dict(BASE, k=0, t=t, what=what, n=1)
        if what == 0:
            c["n"] = rng.choice([1, 1, 2, 3, 4, 7]); c["a"] = [val() for _ in range(c["n"] * rng.choice([1, 1, 2, 3, 5, 8]))]
        elif what == 1:
            n = c["n"] = rng.choice([1, 1, 2, 3]); rows = rng.choice([1, 2, 3, 4, 6, 9, 9, 20, 40])
            c["it"] = rng.randint(0, 3)
            if rng.random() < .015: rows, c["it"], n = 256, 2, 1; c["n"] = 1
            c["a"] = [val() for _ in range(n * rows)]
            ind = list(range(rows)); z = rng.random()
            if z < .5: rng.shuffle(ind)
            elif z < .7: ind = ind[1:] + ind[:1]
            elif z < .85: ind.reverse()
            if rng.random() < .08: ind = ind[:-1] if rng.random() < .5 else ind + [0]
            c["ind"] = ind
        elif what == 2:
            n = rng.choice([0, 1, 2, 3, 5, 9]); c["a"] = [val() for _ in range(n)]
            c["b"] = [v if rng.random() < .8 else min(hi, max(lo, v + rng.choice([-2, -1, 1, 2]))) for v in c["a"]]
            if rng.random() < .2: c["b"] = c["b"][:-1] if rng.random() < .5 else c["b"] + [val()]
            c["x"] = rng.choice(c["a"]) if c["a"] and rng.random() < .4 else rng.choice([0, 1, 2, 3, 5])
        else:
            c["a"] = [val() for _ in range(rng.choice([1, 2, 3, 3, 3, 6, 9, 17]))]; c["x"] = rng.randint(0, 9)
        yield c
    yield from bigs(rng, 12 if tier == "quick" else 120)
def bigs(rng, n):
    for _ in range(n):
        yield dict(BASE, k=1, t=rng.randint(0, 5), a=[], n=rng.choice([1, 3, 63, 64, 65, 70, 129]), rows=rng.choice([1, 2, 63, 64, 65, 100, 130]), s=rng.randint(0, 90), m=rng.choice([101, 127, 113]), it=rng.choice([1, 1, 1, 0, 2]))
def tcases(rng, tier):
    yield from bigs(rng, 14 if tier == "quick" else 150)
    for c in cases(rng, "quick"):
        if c["k"] == 0 and c["what"] == 0 and rng.random() < .3: yield c
def from_model():
    r = random.Random(2)
    def f(m):
        z = lambda v: (v // 2) * 64 + (v % 2) * r.randint(1, 9)
        return dict(BASE, k=1, t=r.randint(0, 5), a=[], n=z(m["c"]), rows=z(m["r"]), s=r.randint(0, 90), m=113, it=r.randint(1, 2))
    return f
def tok(c):
    if c["k"] == 1: return [1, c["t"], c["n"], c["rows"], c["s"], c["m"], c["it"]]
    return [0, c["t"], c["n"], c["a"], c["b"], c["ind"], c["x"], c["what"], c["it"]]
PARTS = [dict(name="layout", driver="layout", trace="Trace_Layout", cases=cases, tokens=tok, from_model=from_model(), from_model_limit={"quick": 9, "thorough": 25}),
         dict(name="threads", driver="layout", trace="Trace_Layout", cases=tcases, tokens=tok, flags=("-UTHREADS_ENABLED", "-DTHREADS_ENABLED=true"))]
