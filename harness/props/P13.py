from props._fam import make
from props import _big

ENTROPY = 260
RULE = ("at least one query of the case has an answer that is neither empty nor all subsets of the universe; "
        "cases are distinct by graph, labels, edge order and arguments")
BUDGET = {"quick": 9000, "thorough": 120000}
gen, run = make(["cliques", "bicliques", "bipartite_graphs", "regular_bipartite_graphs"],
                weights={"cliques": 2, "bipartite_graphs": 2}, queries=(2, 4))
_big.extend(globals(), ['bipartite_graphs', 'cliques', 'bicliques'])
