from props._fam import make
from props import _big

ENTROPY = 300
RULE = ("at least one query of the case has an answer that is neither empty nor all subsets of the universe; "
        "cases are distinct by graph, labels, edge order and arguments")
BUDGET = {"quick": 9000, "thorough": 120000}
gen, run = make(["paths", "cycles", "trees", "forests", "connected_components", "steiner_subgraphs",
                 "steiner_trees", "steiner_cycles", "steiner_paths"], weights={"paths": 2, "cycles": 2, "trees": 2},
                queries=(3, 6))
_big.extend(globals(), ['connected_components', 'steiner_subgraphs', 'steiner_trees', 'steiner_cycles', 'steiner_paths', 'trees', 'forests', 'cycles', 'paths', 'spanning'])
