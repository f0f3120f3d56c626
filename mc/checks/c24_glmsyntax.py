"""C24: how a GLM file is laid out does not change the network it describes."""
import itertools
from mc import glmfeat as G

PROP = "C24"
BOUND = ("every single feature of the load, line and device alphabets under each of 36 layouts (object orders, indentation, comments, included files, shared lines, brace positions, order and separators of phase letters, nameless objects, names by class and number, "
         "directives, recorders, nested objects, property order, quoting, class definitions, spaces, numbering, exponents) and every pair of layouts on the base "
         "feeder and four dense feeders (thorough: every pair of layouts on every feature); real solution against the reference network")
ASSUMPTIONS = ["/* */ comments are outside the alphabet"]

OPTS = [{"order": k} for k in ("rev", "links", "conf", "loads", "rot")] + [{"indent": 1}, {"indent": 2}] + \
       [{k: 1} for k in ("head", "comments", "skipped", "colon", "revprops", "quote", "trail", "wide", "nested", "nosemi", "dense", "exp", "oneline", "pairs", "brace",
                                "tight", "deep", "shuf", "bar", "crlf", "tab", "noname", "colonref", "inner", "junk", "quoteall", "spsemi")] + [{"include": "flat"}, {"include": "sub"}]
DENSE = [[], ["pBC", "tline", "regA"], ["deltaexp", "ugN", "xchain", "swone"], ["chain", "earthh", "capmix", "fuph"], ["tall", "ohmkms", "yykvs", "early"]]


def cases(tier):
    out = []
    for f in [[]] + [[f] for f in G.ALL]:
        for o in OPTS:
            out.append({"f": f, "o": o})
    pairs = []
    for a, b in itertools.combinations(OPTS, 2):
        o = dict(a, **b)
        if set(a) & set(b) or {"colonref", "colon"} <= set(o) or {"inner", "trail"} <= set(o) or {"quote", "quoteall"} <= set(o):
            continue
        if {"inner", "trail"} & set(o) and {"oneline", "pairs"} & set(o):
            continue  # a comment ends the line
        pairs.append(o)
    for f in DENSE + ([[f] for f in G.ALL] if tier == "thorough" else []):
        for o in pairs:
            out.append({"f": f, "o": o})
    return out


run_case = G.run_features
