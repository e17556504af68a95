from props import searchgen as s
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the descent/backtracking/pruning machine over all small datasets, queries, capacities and all kd-trees; code: those inputs and random ones are searched with the real index and every result is validated by TLC against the declarative answer"
ASSUMPTIONS = ["features are integers, or floating-point and exactly representable",
               "the index holds at least one sample"]
def mc(N, F, C, Ks, R2s, E, emit=False, met=2, **k):
    return dict(module="MC_Search", constants=dict(N=N, F=F, C=C, Ks=Ks, R2s=R2s, MaxExcl=E, Met=met, Emit="TRUE" if emit else "FALSE"),
                invariants=["BufferOK", "Exact", "Whole"], emits=emit, **k)
MODELS = {"quick": [mc(3, 2, 2, "{1,2}", "{0}", 0, True), mc(3, 1, 4, "{1,2,3}", "{0}", 0, True), mc(4, 1, 3, "{1,2}", "{0}", 0, True), mc(3, 2, 2, "{1,2}", "{0}", 0, met=1)],
          "thorough": [mc(3, 2, 3, "{0,1,2}", "{0}", 0, True), mc(4, 2, 2, "{1,2,3}", "{0}", 0, True), mc(3, 2, 3, "{1,2}", "{0}", 0, met=1), mc(4, 2, 2, "{1,2,3}", "{0}", 0, met=1), mc(5, 1, 3, "{1,2,3}", "{0}", 0, True, heap="6g")]}
KINDS = [0, 0, 0, 12]
def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        yield s.case(rng, KINDS, 6)
    yield from s.large(rng, KINDS, 40 if tier == "quick" else 600)
PARTS = [dict(name="knn", driver="search", trace="Trace_Search", cases=cases, tokens=s.tokens, from_model=s.from_model([0]), from_model_limit={"quick": 1500, "thorough": 20000})]
