from props._fam import make
from props import _big

ENTROPY = 300
RULE = ("at least one query of the case has an answer that is neither empty nor all subsets of the universe; "
        "cases are distinct by graph, labels, edge order and arguments")
BUDGET = {"quick": 9000, "thorough": 120000}
gen, run = make(["matchings", "perfect_matchings", "k_matchings", "b_matchings", "k_factors", "f_factors",
                 "regular_graphs", "degree_distribution_graphs", "letter_P_graphs"],
                weights={"degree_distribution_graphs": 3, "regular_graphs": 2, "letter_P_graphs": 1, "f_factors": 2},
                queries=(3, 6))
_big.extend(globals(), ['matchings', 'perfect_matchings', 'k_matchings', 'k_factors', 'b_matchings', 'f_factors', 'regular_graphs', 'degree_distribution_graphs'])
