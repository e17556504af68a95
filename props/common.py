"""Input generators shared by the properties. All data are integers; the drivers embed them exactly
(power-of-two scale, integer offset) in float or double."""

def points(rng, n, nf, style=None, lim=20):
    """n points with nf integer features, in one of many styles (ties, duplicates, collinear, ...)"""
    style = style or rng.choice(["uni", "uni", "uni", "tiny", "tiny", "dup", "same", "line", "diag", "clus", "grid", "axis", "neg", "outl", "sorted", "wide1"])
    R = lim
    if style == "tiny":
        P = [[rng.randint(0, 2) for _ in range(nf)] for _ in range(n)]
    elif style == "dup":
        base = [[rng.randint(-R, R) for _ in range(nf)] for _ in range(max(1, n // 3))]
        P = [list(rng.choice(base)) for _ in range(n)]
    elif style == "same":
        b = [rng.randint(-R, R) for _ in range(nf)]
        P = [list(b) for _ in range(n)]
        if n > 1 and rng.random() < .7:
            P[rng.randrange(n)][rng.randrange(nf)] += rng.choice([-1, 1, 3])
    elif style == "line":
        a = rng.randrange(nf)
        P = [[0] * nf for _ in range(n)]
        for p in P:
            p[a] = rng.randint(-R, R)
    elif style == "diag":
        P = []
        for _ in range(n):
            t = rng.randint(-R, R)
            P.append([t if f % 2 == 0 else -t for f in range(nf)])
    elif style == "clus":
        k = rng.randint(1, 4)
        cs = [[rng.randint(-R + 3, R - 3) for _ in range(nf)] for _ in range(k)]
        P = [[x + rng.randint(-3, 3) for x in rng.choice(cs)] for _ in range(n)]
    elif style == "grid":
        w = max(1, int(round(n ** (1.0 / nf))))
        P = []
        for i in range(n):
            p, j = [], i
            for f in range(nf):
                p.append(2 * (j % (w + 1))); j //= (w + 1)
            P.append(p)
        rng.shuffle(P)
    elif style == "axis":
        P = [[rng.randint(-R, R) if f == 0 else rng.randint(0, 1) for f in range(nf)] for _ in range(n)]
    elif style == "neg":
        P = [[-rng.randint(1, R) for _ in range(nf)] for _ in range(n)]
    elif style == "outl":
        P = [[rng.randint(0, 4) for _ in range(nf)] for _ in range(n)]
        P[rng.randrange(n)] = [rng.choice([-R, R]) for _ in range(nf)]
    elif style == "sorted":
        P = sorted([rng.randint(-R, R) for _ in range(nf)] for _ in range(n))
        if rng.random() < .5:
            P.reverse()
    elif style == "wide1":
        P = [[rng.randint(-R * 5, R * 5) if f == nf - 1 else rng.randint(-2, 2) for f in range(nf)] for _ in range(n)]
    else:
        P = [[rng.randint(-R, R) for _ in range(nf)] for _ in range(n)]
    return P

def whole(rng, c, p=.12):
    """the same case with integral features, for which the library uses the Manhattan distance: even centres and radii
    (queries), no scale, and an offset that keeps unsigned features non-negative"""
    qs = [q for q in c.get("queries", [c]) if q.get("reg") != "box"]
    if rng.random() >= p or not qs: return c
    if "queries" in c: c["queries"] = qs
    c["t"] = rng.choice([2, 3]); c["sexp"] = 0
    c["off"] = rng.choice([0, -100, 1000, 2147470000, -2147470000]) if c["t"] == 2 else rng.choice([200, 1000])
    if c["t"] == 3 and rng.random() < .3: c["sexp"] = 77      # unsigned features beyond the signed range
    for q in qs:
        if "c2" in q: q["c2"] = [v - v % 2 for v in q["c2"]]; q["r2"] = rng.choice([1, 1, 2]) * (q["r2"] - q["r2"] % 2)
    for o in c.get("ops", []):
        if o[0] == 0: o[2] -= o[2] % 2
    for o in c["opts"] if "opts" in c else []: o[0] = rng.choice([1, 1, 2]) * (o[0] - o[0] % 2)
    return c

def size(rng, big=40):
    return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 24, big])

def subset(rng, n, p_full=0.6):
    if rng.random() < p_full:
        s = list(range(n))
        if rng.random() < .4:
            rng.shuffle(s)
        return s
    s = [i for i in range(n) if rng.random() < .6] or [rng.randrange(n)]
    rng.shuffle(s)
    return s

HUGE = 2000000000   # HUGE + i stands for HUGES[i]: limits that TLC's integers cannot hold
HUGES = [2 ** 31, 2 ** 32 + 5, 2 ** 40, 2 ** 62, 2 ** 63, 2 ** 64 - 1]

def conf(rng, n, nf):
    """index configuration: bucket size, depth limit (-1: default), axis policy (0: default), mask, sampling rate %"""
    axis = rng.choice([0, 1, 2, 2, 3, 3])
    mask = []
    if axis and nf > 1 and rng.random() < .35:
        mask = [f for f in range(nf) if rng.random() < .6] or [rng.randrange(nf)]
        rng.shuffle(mask)
    depth = rng.choice([1, 2, 3, 5, 50, 50, 50, 50])
    if rng.random() < 0.04:
        depth = rng.choice([-1, 0])
    elif rng.random() < .05: depth = HUGE + rng.randrange(len(HUGES))
    bucket = rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 10, 40])
    if rng.random() < .01: bucket = HUGE + rng.randrange(len(HUGES))
    return dict(bucket=bucket, depth=depth, axis=axis, mask=mask, rate=rng.choice([0, 10, 30, 50, 100]))

def embed(rng):
    """scalar type (0 double, 1 float), power-of-two scale, offset"""
    return dict(t=rng.randint(0, 1), sexp=rng.choice([0, 0, 0, -4, -7, 3, -30, -60, 40]), off=rng.choice([0, 0, 0, 100, -100, 37]))

CONF = lambda c: [c["bucket"], c["depth"], c["axis"], c["mask"], c["rate"]]
