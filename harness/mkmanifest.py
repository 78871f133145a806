"""Regenerates /verif/MANIFEST.json from the property list and the modules present."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
TECH = {
    "P01": "stateful model-based property testing against a Python set-of-frozensets model",
    "P02": "property-based differential testing of the family algebra against a brute-force model",
    "P03": "property-based testing of iteration histories and sampling against a model",
    "P04": "property-based counting against independent exact big-integer counts",
    "P05": "property-based differential testing of cost queries against brute force",
    "P06": "property-based differential testing of probabilities against exact rational sums",
    "P07": "property-based round-trip testing across processes, universes and universe growth",
    "P08": "metamorphic property testing over presentations of the same graph",
    "P09": "stateful history testing, differential against a fresh process",
    "P10": "property-based differential testing against brute-force enumeration",
    "P11": "property-based differential testing against brute-force enumeration",
    "P12": "property-based differential testing against brute-force enumeration",
    "P13": "property-based differential testing against brute-force enumeration",
    "P14": "property-based differential testing against brute-force enumeration",
    "P15": "property-based differential testing against brute-force enumeration and networkx recognisers",
    "P16": "property-based differential testing of directed families against brute force",
    "P17": "property-based differential testing of vertex families against brute force",
    "P18": "property-based differential testing of conversions against per-member brute force",
    "P19": "property-based differential testing of one-step moves against brute force",
    "P20": "metamorphic and differential testing: search within X equals X intersected with the family",
    "P21": "property-based testing of large instances against independent counting algorithms",
    "P22": "property-based negative testing with state-snapshot oracles",
    "P23": "property-based differential testing across OpenMP thread counts",
    "P24": "generated API histories under AddressSanitizer as the oracle",
    "P25": "generated API histories repeated, with the allocator's live block count as an invariant",
    "P26": "metamorphic property testing: graph objects vs. edge lists",
    "P27": "property-based testing: the text of a collection parsed back and compared with its members",
    "P28": "stateful model-based property testing of the C++ class through a compiled driver",
}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        checks.append(dict(property=i,
                           quick_cmd="python3-vt harness/main.py %s --tier quick" % i,
                           thorough_cmd="python3-vt harness/main.py %s --tier thorough" % i,
                           technique=TECH[i], level="exploration",
                           level_note="generated-input search against an explicit oracle; covers the generated cases "
                                      "(counts, classes and samples in the evidence file), not every input"))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3-vt harness/build.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
