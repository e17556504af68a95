from props import common as g
LEVEL = "model_checking"
NOTE = "design: TLC exhausts every interleaving of searches of one shared index (private buffers) and a thread that builds its own; code: several threads perform drawn programs of const operations on shared objects and of independent fits, builds and draws over the same samples, every result that occurs is validated by TLC against the definition (or the result of the call alone), in a normal build and in one instrumented for data races, which must report none"
ASSUMPTIONS = ["schedules are those the machine produces; the instrumented build detects unordered accesses whatever the schedule",
               "threads are the caller's (std::thread); the library's own OpenMP loops are covered by C19, C21, C24 and C26",
               "features are floating-point and exactly representable"]
def mc(N, F, C, P, Ks, **k):
    return dict(module="MC_Concurrent", constants=dict(N=N, F=F, C=C, P=P, Ks=Ks, Scratch='"private"'), invariants=["Exact", "Permutes"], properties=["Unwritten"], **k)
MODELS = {"quick": [mc(3, 1, 2, 2, "{1,2}"), mc(2, 1, 2, 3, "{1}")],
          "thorough": [mc(3, 1, 3, 2, "{1,2}", heap="8g"), mc(2, 2, 2, 2, "{1,2}"), mc(3, 1, 2, 3, "{1}", heap="8g")]}
def case(rng, tsan):
    n = rng.choice([2, 3, 5, 8, 13, 24, 40]); nf = rng.choice([1, 2, 2, 3])
    X = g.points(rng, n, nf, lim=8)
    X = [[max(-12, min(12, v)) for v in x] for x in X]
    ind = list(range(n))
    if rng.random() < .5: rng.shuffle(ind)
    k = rng.randint(1, min(n, 4))
    M = rng.sample(range(n), min(n, max(2, k)))
    C2 = [[2 * v for v in X[i]] for i in M] if rng.random() < .5 else [[rng.randint(-24, 24) for _ in range(nf)] for _ in range(k)]
    Q = [[rng.choice([2 * rng.choice(X)[f], rng.randint(-26, 26)]) for f in range(nf)] for _ in range(rng.randint(1, 4))]
    excl = rng.sample(range(n), rng.randint(0, n - 1))
    def op(kind):
        q = rng.randrange(len(Q))
        if kind in (0, 2, 11): return [kind, q, rng.choice([1, 1, 2, 3, 5, n]), 0]
        if kind == 1: return [kind, q, 0, rng.choice([1, 3, 5, 8, 13, 30])]
        if kind == 3: return [kind, 0, rng.choice([1, 2, 3]), 0]
        if kind == 4: return [kind, rng.choice([2, 3, 5, 8]), rng.choice([0, 1, 2, 5]), 0]
        if kind == 5: return [kind, rng.choice([1, 1, 2, 3]), 0, 0]
        if kind == 10: return [kind, rng.choice([0, 0, 1, 2]), rng.randint(1, min(n, 4)), 0]
        if kind == 13: return [kind, 0, rng.choice([1, 1, 2, 3]), 0]
        if kind == 15: return [kind, rng.choice([1, 2]), rng.choice([2, 3]), 0]
        return [kind, rng.randrange(2), rng.randrange(8), 0]
    kinds = list(range(22))
    chosen = [rng.choice(kinds)] * rng.choice([1, 3]) if rng.random() < .3 else rng.sample(kinds, rng.randint(3, 7))
    if n > 24: chosen = [z for z in chosen if z != 15] or [0]
    ops = []
    for z in chosen:
        o = op(z)
        if z == 13 and len([1 for a in ind for b in ind if b not in excl]) < o[2]: continue
        if o not in ops: ops.append(o)
    if not ops: ops = [op(0)]
    lab = [rng.randrange(3) for _ in range(n)]
    e = g.embed(rng)
    if any(o[0] == 17 for o in ops): e["off"] = 0
    cf = g.conf(rng, n, nf)
    return dict(nf=nf, X=X, ind=ind, conf=cf, C2=C2, M=M, Q=Q, excl=excl, lab=lab, nt=rng.choice([2, 3, 4, 6]), rounds=rng.choice([2, 4, 8]) if tsan else rng.choice([4, 10, 20]), ops=ops, **e)
def tokens(c):
    return [c["t"], c["nf"], c["X"], c["ind"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["C2"], c["M"], c["Q"], c["excl"], c["lab"], c["nt"], c["rounds"], c["ops"]]
def together(rng, tier):
    for _ in range(700 if tier == "quick" else 6000): yield case(rng, False)
def races(rng, tier):
    for _ in range(900 if tier == "quick" else 8000): yield case(rng, True)
PARTS = [dict(name="together", driver="concurrent", trace="Trace_Concurrent", cases=together, tokens=tokens, stall=120),
         dict(name="races", driver="concurrent", trace="Trace_Concurrent", cases=races, tokens=tokens, mode="tsan", stall=240)]
