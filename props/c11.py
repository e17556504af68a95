from props import mstgen as m
LEVEL = "model_checking"
NOTE = "design: TLC exhausts Boruvka's rounds (all tie breaks and merge orders) over all small point sets, with termination; code: trees built by the real code from those and random datasets are validated by TLC with the cut property"
ASSUMPTIONS = ["features exactly representable; integral features with make_tree only", "the index holds all samples of the dataset"]
MODELS = {"quick": [m.mc(4, 3, 1, "{1}"), m.mc(3, 2, 2, "{1}", True, True), m.mc(4, 5, 1, "{1}", False), m.mc(3, 2, 2, "{1}", False, met=1), m.mc(5, 3, 1, "{1}", False)],
          "thorough": [m.mc(4, 2, 2, "{1}", heap="8g"), m.mc(5, 4, 1, "{1}", heap="8g"), m.mc(4, 2, 2, "{1}", False, True, heap="8g"), m.mc(6, 2, 1, "{1}", False, heap="8g")]}
def cases(rng, tier):
    for _ in range(900 if tier == "quick" else 12000): yield m.case(rng, lambda r, n: 1, [0, 0, 0, 1, 2, 3])
    for _ in range(16 if tier == "quick" else 250): yield m.case(rng, lambda r, n: 1, [0, 0, 1, 2, 3], large=True)
PARTS = [dict(name="mst", driver="mst", trace="Trace_MST", cases=cases, tokens=m.tok, from_model=m.from_model(lambda k: k == 1, [0, 2]), from_model_limit={"quick": 600, "thorough": 6000})]
