from props import pamgen as m
LEVEL = "model_checking"
NOTE = "design: TLC exhausts FasterPAM's incremental caches over all small sample sets on a line and all starts (caches and predicted loss changes exact, every pass descends, ends swap-optimal); code: every pass of the real FasterPAM (both storages) is judged by TLC on the exact distance matrix"
ASSUMPTIONS = ["at least two medoids (the algorithm keeps second nearest medoids); signed integral or floating-point features",
               "in several dimensions with floating-point features losses are compared up to rounding (1/1000 of a unit per sample) and swap-optimality is not required: rounding may make a pass exchange tied medoids back and forth"]
MODELS = {"quick": [m.mc(4, 4, 2, True, True), m.mc(5, 4, 2, True), m.mc(4, 5, 3, True)],
          "thorough": [m.mc(6, 5, 2, True, heap="8g"), m.mc(5, 6, 3, True, True), m.mc(6, 4, 3, True), m.mc(6, 4, 4, False), m.mc(7, 5, 2, False)]}
def cases(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000): yield m.case(rng, 0)
    for _ in range(16 if tier == "quick" else 250): yield m.case(rng, 0, large=True)
PARTS = [dict(name="pam", driver="kmedoids", trace="Trace_PAM", cases=cases, tokens=m.tok, from_model=m.from_model(0), from_model_limit={"quick": 1200, "thorough": 12000})]
