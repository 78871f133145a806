"""A share of the large cases of P21 for the checks of single families."""
from props import P21

ONE_IN = 40


def extend(ns, und=(), di=()):
    """Adds, to the check with namespace ns, large graphs asking the named families."""
    small_gen, small_run = ns["gen"], ns["run"]
    names = [(0, x) for x in und] + [(1, x) for x in di]

    def gen(src, tier):
        if src.below(ONE_IN) == ONE_IN - 1:
            d, name = src.choice(names)
            return dict(big=P21.gen(src, tier, bool(d), name))
        return small_gen(src, tier)

    def run(case, st):
        if "big" in case:
            st.tag("large")
            return P21.run(case["big"], st)
        return small_run(case, st)

    ns["gen"], ns["run"] = gen, run
    ns["ENTROPY"] = max(ns["ENTROPY"], P21.ENTROPY)
    ns["FIXED"] = list(ns.get("FIXED", [])) + [dict(big=c) for c in P21.FIXED if (c["di"], c["f"]) in names]
    ns["CPU_LIMIT"] = lambda case: P21.CPU_LIMIT if "big" in case else 40
    ns["TIMEOUT_OK"] = lambda case: "big" in case
    ns["MEM_GB"] = lambda case: P21.MEM_GB if "big" in case else 6
