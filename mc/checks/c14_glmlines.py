"""C14: GLM lines get exactly the impedance and charging of their conductors, spacing, phases, length and units."""
import itertools
from mc import glmfeat as G

PROP = "C14"
BOUND = ("all feeders built from a 3-node base with every single and pair (thorough: every triple) of 60 line features (overhead, underground and triplex lines, all phase subsets, shared and own configurations, earth distances, units, lengths, loops, charging on and off) and every pair of a line and a load feature; real end-to-end solution against the Carson/Kron reference")
ASSUMPTIONS = ["the tool attaches half of the total line charging, pinned by the repository's own comparisons with GridLAB-D results; the reference follows it", "tape shields and capacitances given in a configuration are refused by the tool"]


def cases(tier):
    fs = []
    base = [[]] + [[f] for f in G.LINES]
    fs += base
    fs += [list(p) for p in itertools.combinations(G.LINES, 2)]
    fs += [[a, b] for a in G.LINES for b in G.LOADS]
    if tier == "thorough":
        fs += [list(p) for p in itertools.combinations(G.LINES, 3)]
    return [{"f": f} for f in fs]


run_case = G.run_features
