from props import searchgen as s
from props.c01 import mc
LEVEL = "model_checking"
NOTE = "design: TLC exhausts the search machine with every excluded set over all small datasets and kd-trees; code: searches with visited sets (owned, referred to, moved, copied) and union-find components validated by TLC against the declarative answer"
ASSUMPTIONS = ["as C01; the union-find structure and a referred-to visited set outlive the buffer"]
MODELS = {"quick": [mc(3, 1, 3, "{1,2}", "{0,3}", 3, True), mc(3, 2, 2, "{1,2}", "{0}", 1, True)],
          "thorough": [mc(4, 1, 3, "{1,2}", "{0,3}", 4, True), mc(3, 2, 2, "{0,1,2}", "{0,3}", 3, True), mc(3, 2, 3, "{1}", "{0}", 1, False)]}
KINDS = [5, 5, 6, 6, 7, 8, 9, 10, 10, 11]
def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        yield s.case(rng, KINDS, 6)
    yield from s.large(rng, KINDS, 40 if tier == "quick" else 600)
PARTS = [dict(name="excluded", driver="search", trace="Trace_Search", cases=cases, tokens=s.tokens, from_model=s.from_model([5, 6, 8, 9, 10, 11]), from_model_limit={"quick": 1500, "thorough": 20000})]
