from props._fam import make
from props import _big

ENTROPY = 400
RULE = ("at least one query of the case has an answer that is neither empty nor all subsets of the universe; "
        "cases are distinct by graph, labels, edge order and constraints")
BUDGET = {"quick": 9000, "thorough": 120000}
gen, run = make(["graphs"], queries=(3, 6))
_big.extend(globals(), ['graphs'])
