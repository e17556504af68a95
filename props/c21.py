from props import pamgen as m
LEVEL = "model_checking"
NOTE = "design: TLC exhausts FasterPAM and the fit loop; code: fit from samples (precomputed or dynamic distances) and from matrices, predict and forward are replayed by TLC against the specified run of the algorithm and the exact distance matrix"
ASSUMPTIONS = ["at least two medoids; signed integral or floating-point features",
               "random starts cannot be observed: the choice of the best start is checked with so many starts (400) that missing the best subset has probability below 1e-15",
               "what FasterMSC must reach is C27's subject"]
def mcf(S, C, M, P, E, live=False):
    return dict(module="MC_Fit", constants=dict(S=S, Cands=C, MaxIt=M, Patience=P, Early="TRUE" if E else "FALSE"), invariants=["Bounded", "NothingLost", "Best"], **(dict(properties=["Ends"]) if live else {}))
MODELS = {"quick": [m.mc(4, 4, 2, True), mcf(3, 2, 4, 0, True, True), mcf(3, 2, 4, 1, True)],
          "thorough": [m.mc(5, 5, 2, True), m.mc(5, 4, 3, True, True), mcf(4, 3, 5, 0, True), mcf(3, 3, 6, 2, True)]}
def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 15000):
        r = i % 10
        if r < 5: yield m.fitopt(rng, m.case(rng, 1))
        elif r == 5: yield m.case(rng, 4)
        elif r < 8:
            yield m.case(rng, 2, maxit=100, early=1, patience=rng.choice([0, 1]), ninit=rng.choice([1, 1, 2, 5]), M=[])
        elif r == 8:
            t = rng.randint(0, 1)
            c = m.case(rng, rng.choice([2, 3]), t=t, maxit=rng.choice([0, 1, 3, 20]), early=1, alg=2, patience=rng.choice([0, 1]), ninit=rng.choice([1, 3]))
            yield c
        else:
            n = rng.choice([3, 4, 5, 6]); k = 2 if n > 4 else rng.choice([2, n - 1])
            c = m.case(rng, 2, maxit=0, early=1, ninit=600, best=1, M=[], k=k, patience=rng.choice([0, 1]))
            while len(c["X"]) < n: c["X"].append(list(rng.choice(c["X"])))
            c["X"] = c["X"][:n]; yield c
    for i in range(10 if tier == "quick" else 150):
        if i % 3 == 0: yield m.case(rng, 4, large=True)
        else: yield m.fitopt(rng, m.case(rng, 1, large=True))
def threaded(rng, tier):
    for i in range(200 if tier == "quick" else 3000):
        if i % 4 == 0: yield m.case(rng, 2, maxit=100, early=1, patience=rng.choice([0, 1]), ninit=6, M=[])
        elif i % 4 == 1:
            n = rng.choice([3, 4, 5]); c = m.case(rng, 2, maxit=0, early=1, ninit=600, best=1, M=[], k=2, patience=rng.choice([0, 1]))
            while len(c["X"]) < n: c["X"].append(list(rng.choice(c["X"])))
            c["X"] = c["X"][:n]; yield c
        else: yield m.fitopt(rng, m.case(rng, 1))
P = dict(driver="kmedoids", trace="Trace_PAM", tokens=m.tok)
PARTS = [dict(P, name="kmedoids", cases=cases, from_model=m.from_model(1), from_model_limit={"quick": 500, "thorough": 6000}),
         dict(P, name="kmedoids_threads", cases=threaded, flags=("-UTHREADS_ENABLED", "-DTHREADS_ENABLED=true"))]
