"""C15: GLM transformers, regulators, capacitors, switches and fuses act as described."""
import itertools
from mc import glmfeat as G

PROP = "C15"
BOUND = ("all feeders built from a 3-node base with every single and pair (thorough: every triple) of 58 device features (transformer connections, ratings, impedances and units, centre-tap transformers, regulators, capacitors, switches, reclosers, fuses) and every pair of a device and a line feature; real end-to-end solution against the reference network")
ASSUMPTIONS = ["transformer magnetising shunts are documented as not stamped", "blown fuses and single-phase regulators are refused by the tool"]


def cases(tier):
    fs = []
    base = [[]] + [[f] for f in G.DEVS]
    fs += base
    fs += [list(p) for p in itertools.combinations(G.DEVS, 2)]
    fs += [[a, b] for a in G.DEVS for b in G.LINES]
    if tier == "thorough":
        fs += [list(p) for p in itertools.combinations(G.DEVS, 3)]
    return [{"f": f} for f in fs]


run_case = G.run_features
