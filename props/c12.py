from props import mstgen as m
LEVEL = "model_checking"
NOTE = "design: TLC exhausts Boruvka's rounds over the mutual reachability weights of all small point sets; code: core distances and trees computed by the real code from those and random datasets are validated by TLC (definition of the core distance, cut property)"
ASSUMPTIONS = ["features exactly representable; integral features with make_tree only", "the index holds all samples of the dataset"]
MODELS = {"quick": [m.mc(4, 4, 1, "{2,3}"), m.mc(4, 2, 2, "{2,3,4}", True, True), m.mc(5, 3, 1, "{2}", False), m.mc(3, 2, 2, "{2,3}", False, met=1)],
          "thorough": [m.mc(4, 2, 2, "{2,3,4}", heap="8g"), m.mc(5, 4, 1, "{2,3}", heap="8g"), m.mc(5, 1, 2, "{2,3}", False, True, heap="8g"), m.mc(6, 2, 1, "{2,3}", False, heap="8g")]}
def ks(r, n): return r.choice([2, 2, 3, 3, 4, 5, 8, max(2, n), n + 3] if n < 40 else [2, 4, 8, 10, 16, 17, 33, n])
def cases(rng, tier):
    for _ in range(900 if tier == "quick" else 12000): yield m.case(rng, ks, [0, 0, 1, 3])
    for _ in range(16 if tier == "quick" else 250): yield m.case(rng, ks, [0, 1, 3], large=True)
PARTS = [dict(name="mreach", driver="mst", trace="Trace_MST", cases=cases, tokens=m.tok, from_model=m.from_model(lambda k: k > 1, [0, 1]), from_model_limit={"quick": 900, "thorough": 9000})]
