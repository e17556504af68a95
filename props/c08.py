from props import treegen as t
from props.c04 import mc
LEVEL = "model_checking"
NOTE = "design: the serialized document is specified as a function of the tree of the model-checked build machine; code: the file written by the real index (also copied/moved) is parsed independently and TLC compares it node by node with the specified document"
ASSUMPTIONS = ["the file is written to a scratch directory", "float, double, signed and unsigned (64-bit) features"]
MODELS = {"quick": [mc(3, 2, 2, "{0,1}", "{0,1,9}")], "thorough": [mc(3, 2, 3, "{0,1,2}", "{0,1,2,9}")]}
def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 10000):
        c = t.case(rng, big=40)
        # scales 1/3, 1/10, ...: values without a short decimal form
        if c["t"] < 2 and rng.random() < .3: c["sexp"] = rng.choice([1000, 1004, 1007, 1046])
        if c["t"] == 3 and rng.random() < .4: c["sexp"] = 77    # beyond the signed range
        yield c
    yield from t.large(rng, 15 if tier == "quick" else 200)
PARTS = [dict(name="doc", driver="kdtree", trace="Trace_KDTree", cases=cases, tokens=t.tokens(4), post=t.parse_doc, from_model=t.from_model(), from_model_limit={"quick": 600, "thorough": 5000})]
