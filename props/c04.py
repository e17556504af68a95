from props import treegen as t
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the build machine (all small datasets, any axis, any selection outcome, buckets, depth limits); code: the nodes of the real index are dumped for those and random datasets and TLC validates the whole structure"
ASSUMPTIONS = ["the index holds at least one sample"]
def mc(N, F, C, B, D, emit=True, **k):
    return dict(module="MC_KDTree", constants=dict(N=N, F=F, C=C, Buckets=B, Depths=D, Emit="TRUE" if emit else "FALSE"), invariants=["Shape", "Boxes", "AlwaysPerm"], emits=emit, **k)
MODELS = {"quick": [mc(3, 2, 2, "{0,1}", "{0,1,9}"), mc(4, 1, 3, "{1,2}", "{1,9}")],
          "thorough": [mc(3, 2, 3, "{0,1,2}", "{0,1,2,9}"), mc(4, 2, 2, "{0,1}", "{9}"), mc(5, 1, 3, "{1}", "{9}", False, heap="8g")]}
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        yield t.case(rng)
    yield from t.large(rng, 25 if tier == "quick" else 400)
PARTS = [dict(name="build", driver="kdtree", trace="Trace_KDTree", cases=cases, tokens=t.tokens(1), from_model=t.from_model(), from_model_limit={"quick": 1200, "thorough": 15000})]
