from props import common as g, linkgen
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the histories of reference counted hierarchies (built, merged, copied, walked up and down, dropped in any order): what a handle leads to stays, what none leads to is freed, nothing points to what was freed; code: drawn histories of indices, dendrograms, condensed trees, their copies and node handles are performed on the real objects (use after release detected by the instrumented build), TLC predicts after every operation which nodes are alive, and what remains allocated when everything is released, or grows when an operation is repeated, must be nothing"
ASSUMPTIONS = ["memory is what operator new and malloc hand out to the library's code (headers) and the standard library; files are the process's open descriptors",
               "an operation may keep a fixed cache: growth is measured after three performances"]
def mc(**k):
    return dict(module="MC_Ownership", constants=dict(MaxNodes=k["n"], Slots=k["s"], Steps=k["st"], Back='"weak"'), invariants=["Kept", "NoLeak", "NoDangle", "Counts"], **({"heap": k["heap"]} if "heap" in k else {}))
MODELS = {"quick": [mc(n=5, s=3, st=12), mc(n=3, s=4, st=10)], "thorough": [mc(n=7, s=3, st=15, heap="8g"), mc(n=5, s=4, st=13, heap="8g")]}
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc"]
def data(rng, sizes):
    n = rng.choice(sizes); nf = rng.choice([1, 2, 2, 3])
    X = [[max(-12, min(12, v)) for v in x] for x in g.points(rng, n, nf, lim=8)]
    ind = list(range(n))
    if rng.random() < .5: rng.shuffle(ind)
    return n, nf, X, ind
def hold(rng, tier):
    for _ in range(9000 if tier == "quick" else 100000):
        n, nf, X, ind = data(rng, [1, 2, 3, 5, 8])
        m = rng.choice([1, 2, 3, 4, 5, 7])
        E = linkgen.tree(rng, m, linkgen.weights(rng, 9))
        ns = rng.choice([2, 3, 4, 6])
        prog, has = [], {}
        for _ in range(rng.choice([3, 6, 10, 16])):
            full = [s for s in has if has[s]]
            s, a = rng.randrange(ns), rng.choice(full) if full and rng.random() < .95 else rng.randrange(ns)
            k = rng.choice([1, 1, 2]) if not full or rng.random() < .12 else rng.choice([3, 3, 4, 5, 6, 6, 6, 7, 8, 7, 8, 9, 9, 10, 10, 11, 11, 12, 14])
            if k == 10: s = a
            if k == 11: s = a
            if k == 12:
                same = [t for t in full if has[t] == has.get(a)]
                if same: s = rng.choice(same)
            if k in (7, 8, 9) and rng.random() < .5: s = a
            prog.append([k, s, a])
            h = has.get(a)
            if k == 1: has[s] = "S"
            elif k == 2: has[s] = "K"
            elif k == 3 and h in ("S", "N"): has[s] = "C"
            elif k == 4: has[s] = h
            elif k == 5: has[a] = None; has[s] = h
            elif k == 6 and h: has[s] = {"S": "N", "K": "M", "N": "N", "M": "M"}.get(h, has.get(s))
            elif k in (7, 8, 9) and h in ("N", "M"): has[s] = h
            elif k == 14 and h == "K": has[s] = "Q"
            elif k == 10: has[s] = None
        e = g.embed(rng)
        yield dict(part=0, nf=nf, X=X, ind=ind, conf=g.conf(rng, n, nf), E=E, prog=prog, ns=ns, mcs=rng.choice([1, 2, 2, 3]), **e)
def again(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        n, nf, X, ind = data(rng, [2, 3, 5, 8, 13, 24])
        k = rng.randint(1, min(n, 4)); M = rng.sample(range(n), min(n, rng.choice([2, 2, 3])))
        C2 = [[2 * v for v in X[i]] for i in rng.sample(range(n), k)]
        excl = rng.sample(range(n), rng.randint(0, n - 1))
        ops = [[z, rng.randrange(8), rng.choice([1, 1, 2, 3, 5])] for z in rng.sample(range(22), rng.randint(2, 5))]
        yield dict(part=1, nf=nf, X=X, ind=ind, conf=g.conf(rng, n, nf), C2=C2, M=M, excl=excl, lab=[rng.randrange(3) for _ in range(n)], times=rng.choice([6, 10, 20]), ops=ops, **g.embed(rng))
def th(c):
    return [0, c["t"], c["nf"], c["X"], c["ind"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["E"], c["prog"], c["ns"], c["mcs"]]
def ta(c):
    return [1, c["t"], c["nf"], c["X"], c["ind"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["C2"], c["M"], c["excl"], c["lab"], c["times"], c["ops"]]
PARTS = [dict(name="hold", driver="memory", trace="Trace_Ownership", cases=hold, tokens=th, flags=WRAP),
         dict(name="again", driver="memory", trace="Trace_Ownership", cases=again, tokens=ta, flags=WRAP, stall=120)]
