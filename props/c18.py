from props import kmgen as m
LEVEL = "model_checking"
NOTE = "design: TLC exhausts Hamerly's bound maintenance (one dimension, exact) over all small datasets and starts: bounds stay bounds and assignments nearest; code: every iteration of the real Hamerly class is replayed by TLC as an exact k-means iteration"
ASSUMPTIONS = ["floating-point features; datasets for which the specification's exact integer arithmetic fits in 32 bits", "bounds that differ from exact values by rounding only decide between tied centroids"]
MODELS = {"quick": [m.mch(4, 5, 2, True, True), m.mch(4, 4, 3, True), m.mch(3, 7, 3, False)],
          "thorough": [m.mch(5, 6, 2, True, heap="8g"), m.mch(4, 6, 3, True, True, heap="8g"), m.mch(5, 5, 3, False, heap="8g"), m.mch(3, 12, 3, False)]}
def cases(rng, tier):
    for _ in range(1800 if tier == "quick" else 20000): yield m.case(rng, 1)
    for _ in range(20 if tier == "quick" else 300): yield m.case(rng, 1, large=True)
PARTS = [dict(name="hamerly", driver="kmeans", trace="Trace_KMeans", cases=cases, tokens=m.tok, from_model=m.from_model(1), from_model_limit={"quick": 1200, "thorough": 8000})]
