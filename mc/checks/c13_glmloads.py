"""C13: a GLM feeder is solved with exactly the loads it describes."""
import itertools
from mc import glmfeat as G

PROP = "C13"
BOUND = ("all feeders built from a 3-node base with every single and pair (thorough: every triple) of 44 load features (power, impedance, current, wye, delta, explicit phase pairs, triplex, base power with time schedules, meters and child chains) and every pair of a load and a device feature; each text file is read and solved by the real tool and compared node by node with a reference Newton solution of the described network")
ASSUMPTIONS = ["polar complex notation is outside the alphabet", "constant-current loads are constant phasors, as the tool documents"]


def cases(tier):
    fs = []
    base = [[]] + [[f] for f in G.LOADS]
    fs += base
    fs += [list(p) for p in itertools.combinations(G.LOADS, 2)]
    fs += [[a, b] for a in G.LOADS for b in G.DEVS]
    if tier == "thorough":
        fs += [list(p) for p in itertools.combinations(G.LOADS, 3)]
    fs.append(["zipfrac"])
    return [{"f": f} for f in fs]


run_case = G.run_features
