"""Random weighted trees (edge lists in any order and direction) for the dendrogram stages."""
def tree(rng, n, ws):
    lab = list(range(n)); rng.shuffle(lab)
    style = rng.choice(["rand", "rand", "path", "star", "near", "cat"])
    E = []
    for i in range(1, n):
        p = {"rand": lambda: rng.randrange(i), "path": lambda: i - 1, "star": lambda: 0, "near": lambda: max(0, i - rng.randint(1, 3)), "cat": lambda: (i // 2) if i % 2 else max(0, i - 2)}[style]()
        a, b = lab[p], lab[i]
        if rng.random() < .5: a, b = b, a
        E.append([a, b, ws(rng)])
    rng.shuffle(E)
    if rng.random() < .15: E.sort(key=lambda e: e[2])
    if rng.random() < .1: E.sort(key=lambda e: -e[2])
    return E
def weights(rng, lim=60):
    k = rng.choice([1, 2, 3, 5, lim, lim, lim])
    if k == lim: return lambda r: r.randint(0, lim)
    vals = [rng.randint(0, lim) for _ in range(k)]
    return lambda r: r.choice(vals)
