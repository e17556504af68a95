from props import common as g
ALLQ = dict(kind=0, how=0, k=0, c2=[], r2=0, lo=[], hi=[], excl=[], rep=-1, merges=[], reg="all")

def q_tokens(q):
    return [q["kind"], q["how"], q["k"], q["c2"], q["r2"], q["lo"], q["hi"], q["excl"], q["rep"], q["merges"]]

def tokens(c):
    t = [c["t"], c["nf"], c["X"], c["ind"]] + g.CONF(c["conf"]) + [c["sexp"], c["off"], c["batch"], c["share"], len(c["queries"])]
    for q in c["queries"]:
        t += q_tokens(q)
    return t

def center(rng, X, nf):
    r = rng.random()
    if r < .45:
        return [2 * v for v in rng.choice(X)]
    if r < .6:   # between two samples: ties
        a, b = rng.choice(X), rng.choice(X)
        return [a[f] + b[f] for f in range(nf)]
    if r < .7:   # mixes coordinates of samples: on cut planes
        return [2 * rng.choice(X)[f] for f in range(nf)]
    lo = [min(p[f] for p in X) for f in range(nf)]; hi = [max(p[f] for p in X) for f in range(nf)]
    if r < .95:
        return [rng.randint(2 * lo[f] - 3, 2 * hi[f] + 3) for f in range(nf)]
    return [rng.choice([2 * lo[f] - 40, 2 * hi[f] + 40]) for f in range(nf)]

def q_of(rng, kinds, X, ind, nf):
    n = len(X)
    q = dict(ALLQ); q["kind"] = kind = rng.choice(kinds); q["how"] = rng.choice([0, 0, 1, 2])
    q["c2"] = center(rng, X, nf)
    q["k"] = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, len(ind), len(ind) + 3, max(1, len(ind) - 1)])
    if n >= 40:
        q["k"] = rng.choice([q["k"], 8, 10, 16, 17, 33, 64])
    if kind in (1, 2, 8, 9, 11):
        q["reg"] = "ball"
        r = rng.random()
        if r < .5:   # radius equal (if it is an integer) or next to a distance: boundary
            p = rng.choice(X); d4 = sum((2 * p[f] - q["c2"][f]) ** 2 for f in range(nf))
            s = int(d4 ** .5); q["r2"] = max(0, s + rng.choice([0, 0, 1, -1]))
        else:
            q["r2"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 80])
        q["k"] = rng.choice([0, 0, 0, q["k"]])
    if kind in (3, 4):
        q["reg"] = "box"
        a, b = rng.choice(X), rng.choice(X)
        q["lo"] = [min(a[f], b[f]) - rng.choice([0, 0, 0, 1, 3]) for f in range(nf)]
        q["hi"] = [max(a[f], b[f]) + rng.choice([0, 0, 0, 1, 3]) for f in range(nf)]
        if rng.random() < .1:
            q["lo"] = [v + 200 for v in q["lo"]]; q["hi"] = [v + 200 for v in q["hi"]]
        q["c2"] = [q["lo"][f] + q["hi"][f] for f in range(nf)]
        q["k"] = rng.choice([0, 0, 0, q["k"]])
    if kind in (5, 6, 7, 8, 9):
        r = rng.random()
        p = 0 if r < .1 else 1 if r < .2 else rng.choice([.1, .3, .7])
        q["excl"] = [i for i in range(n) if rng.random() < p]
        if rng.random() < .4:   # exclude exactly the nearest ones
            o = sorted(range(n), key=lambda i: sum((2 * X[i][f] - q["c2"][f]) ** 2 for f in range(nf)))
            q["excl"] = o[:rng.randint(0, n)]
    if kind in (10, 11):
        m = rng.choice([0, 1, n // 2, n, 2 * n])
        q["merges"] = [[rng.randrange(n), rng.randrange(n)] for _ in range(m)]
        q["rep"] = rng.randrange(n)
    return q

def large(rng, kinds, count):
    """larger indices, more features, larger answers"""
    for _ in range(count):
        yield case(rng, kinds, 4, n=rng.choice([40, 64, 65, 80, 100, 130, 180]), nf=rng.choice([1, 2, 3, 7, 8, 9, 12, 16, 17]))
    if {0, 1, 5} & set(kinds):   # large batches
        for _ in range(count // 10):
            c = case(rng, kinds, rng.choice([9, 17, 33, 40, 70])); c["batch"] = 1; yield c
    for _ in range(count // 10):
        yield case(rng, kinds, 4, n=rng.choice([257, 300, 520, 1030]), nf=rng.choice([1, 2, 2, 3]))

def case(rng, kinds, nq, big=40, n=None, nf=None):
    n, nf = n or g.size(rng, big), nf or rng.choice([1, 1, 2, 2, 2, 3, 4, 6])
    X = g.points(rng, n, nf)
    ind = g.subset(rng, n)
    e = g.embed(rng)
    qs = [q_of(rng, kinds, X, ind, nf) for _ in range(nq)]
    if rng.random() < .3:   # the same query point again, with another capacity
        i = rng.randrange(nq); q = dict(qs[i]); q["k"] = rng.choice([0, 1, 2, 3, 5]); qs.insert(i + 1, q)
    return g.whole(rng, dict(nf=nf, X=X, ind=ind, conf=g.conf(rng, n, nf), batch=int(rng.random() < .5), share=rng.randint(0, 3), queries=qs, **e))

def from_model(kinds):
    import random
    r = random.Random(5)
    def f(m):
        X = m["X"]; nf = len(m["c2"])
        qs = []
        for kind in kinds:
            q = dict(ALLQ); q.update(kind=kind, k=m["k"], c2=m["c2"], how=r.randint(0, 2))
            if kind in (1, 2, 8, 9, 11):
                if m["r2"] == 0:
                    continue
                q["reg"] = "ball"; q["r2"] = m["r2"]
            elif m["r2"] != 0:
                continue
            if kind in (5, 6, 7, 8, 9):
                q["excl"] = m["excl"]
            elif kind in (10, 11):
                if not m["excl"]:
                    continue
                q["rep"] = m["excl"][0]; q["merges"] = [[m["excl"][0], e] for e in m["excl"][1:]]
            elif m["excl"]:
                continue
            qs.append(q)
        if not qs:
            return None
        return dict(nf=nf, X=X, ind=list(range(len(X))), conf=g.conf(r, len(X), nf), batch=1, share=0, queries=qs, t=r.randint(0, 1), sexp=0, off=0)
    return f
