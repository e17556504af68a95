from props import searchgen as s
from props.c01 import mc
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the search machine with ball regions (limited and unlimited capacity) over all small datasets and kd-trees; code: ball and box searches of the real index validated by TLC against the declarative region answer"
ASSUMPTIONS = ["features are integers (balls), or floating-point and exactly representable; radii and centres are half-integers times the scale, so that boundary cases are exact",
               "the index holds at least one sample"]
MODELS = {"quick": [mc(3, 2, 2, "{0,1}", "{2,3}", 0, True), mc(3, 1, 4, "{0,2}", "{2,3,4}", 0, True), mc(3, 2, 2, "{0,1}", "{2,4}", 0, met=1)],
          "thorough": [mc(3, 2, 3, "{0,1,2}", "{2,3,4}", 0, True), mc(4, 1, 4, "{0,1,2}", "{2,3,4}", 0, True)]}
KINDS = [1, 1, 2, 3, 3, 4]
def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        yield s.case(rng, KINDS, 6)
    yield from s.large(rng, KINDS, 40 if tier == "quick" else 600)
PARTS = [dict(name="range", driver="search", trace="Trace_Search", cases=cases, tokens=s.tokens, from_model=s.from_model([1, 2]), from_model_limit={"quick": 1500, "thorough": 20000})]
