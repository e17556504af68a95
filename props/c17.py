from props import kmgen as m
LEVEL = "model_checking"
NOTE = "design: TLC exhausts Lloyd's iteration (every tie break) over all small datasets and starts: the squared loss never grows, the centroids stop moving; code: every iteration of the real Lloyd class is replayed by TLC with exact rational centroids"
ASSUMPTIONS = ["floating-point features; datasets for which the specification's exact integer arithmetic fits in 32 bits"]
MODELS = {"quick": [m.mck(3, 4, 1, 2, True, True), m.mck(4, 4, 1, 2, True), m.mck(3, 2, 2, 2, True), m.mck(3, 3, 1, 3, False)],
          "thorough": [m.mck(4, 5, 1, 3, True, heap="8g"), m.mck(4, 2, 2, 2, True, True), m.mck(5, 4, 1, 2, True), m.mck(3, 3, 2, 2, False, heap="8g")]}
def cases(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000): yield m.case(rng, 0)
    for _ in range(20 if tier == "quick" else 300): yield m.case(rng, 0, large=True)
PARTS = [dict(name="lloyd", driver="kmeans", trace="Trace_KMeans", cases=cases, tokens=m.tok, from_model=m.from_model(0), from_model_limit={"quick": 800, "thorough": 8000})]
