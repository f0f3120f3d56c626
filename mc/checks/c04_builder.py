"""C04: the sparse builder always represents exactly the stamps retained plus the stamps made since."""
import itertools
import math
import numpy as np
from mc.core import Out, attempt
from mc import asm

PROP = "C04"
BOUND = ("every sequence of <=5 (thorough 7) operations over {5 stamps incl. a repeated cell, an off-diagonal cell, a tiny value and a zero, clear everything, remember "
         "fill level, clear to the remembered level, read matrix} in normal and debug mode; after the sequence the matrix, the rows, "
         "the columns and the fill level are compared with a list model; single values over 600 orders of magnitude; plus every invalid stamp at every position in debug mode")
ASSUMPTIONS = ["cells beyond 3x3 behave like the ones used"]

STAMPS = [(0, 0, 1.5), (0, 0, -2.25), (1, 0, 4.0), (2, 1, 3e-17), (1, 2, 0.0)]
OPS = [["s", k] for k in range(len(STAMPS))] + [["clear"], ["mark"], ["back"], ["read"]]
BAD = {"neg-row": (-1, 0, 1.0), "neg-col": (0, -2, 1.0), "nan": (0, 0, float("nan")), "float-row": (0.0, 1, 1.0), "float-col": (1, 1.5, 2.0)}


def cases(tier):
    n = 7 if tier == "thorough" else 5
    for pre in itertools.product(range(len(OPS)), repeat=3):
        yield {"pre": list(pre), "depth": n}
    for k in (0, 1, 2):
        for pre in itertools.product(range(len(OPS)), repeat=k):
            yield {"pre": list(pre), "depth": k}
    yield {"scale": 1}
    for k in (0, 1, 2):
        for pre in itertools.product(range(len(OPS)), repeat=k):
            yield {"bad": list(pre)}


def dense(Y):
    m = Y.to_matrix().tocoo()
    A = np.zeros((3, 3))
    for r, c, v in zip(m.row, m.col, m.data):
        A[r, c] += v
    return A


def play(seq, debug):
    from logic.stamping.matrixbuilder import MatrixBuilder
    Y = MatrixBuilder(asm.settings(debug=debug))
    model, mark, level = [], 0, 0
    for op in seq:
        o = OPS[op]
        if o[0] == "s":
            Y.stamp(*STAMPS[o[1]])
            if STAMPS[o[1]][2] != 0:
                model.append(STAMPS[o[1]])
        elif o[0] == "clear":
            Y.clear()
            model, mark, level = [], 0, 0
        elif o[0] == "mark":
            mark = Y.get_usage()
            level = len(model)
        elif o[0] == "back":
            if level <= len(model):      # the mark lies within the live entries
                Y.clear(retain_idx=mark)
                model = model[:level]
        elif o[0] == "read" and model:
            r = attempt(lambda: dense(Y))
            if r[0] == "err":
                return Y, model, f"reading the matrix failed: {r[1]}"
    return Y, model, None


def judge(out, seq, debug):
    r = attempt(lambda: play(seq, debug))
    names = [OPS[k] for k in seq]
    out.step(len(seq) + 1)
    if r[0] == "err":
        out.bad(f"raised:{debug}", f"operations {names} (debug={debug}): {r[1]}")
        return False
    Y, model, msg = r[1]
    out.state(debug, model)
    if msg is None:
        A = np.zeros((3, 3))
        for i, j, v in model:
            A[i, j] += v
        if model:
            r = attempt(lambda: dense(Y))
            if r[0] == "err":
                msg = f"reading the matrix failed: {r[1]}"
            elif not np.allclose(r[1], A, rtol=1e-14, atol=0):
                msg = f"matrix {r[1].tolist()} but the live entries give {A.tolist()}"
        for k in range(3):
            rr, cc = np.zeros(3), np.zeros(3)
            for j, v in Y.get_row(k):
                rr[j] += v
            for i, v in Y.get_col(k):
                cc[i] += v
            if not np.allclose(rr, A[k]) or not np.allclose(cc, A[:, k]):
                msg = msg or f"row/column {k} read as {rr.tolist()}/{cc.tolist()}, expected {A[k].tolist()}/{A[:, k].tolist()}"
    if msg:
        out.bad(f"content:{debug}", f"operations {names} (debug={debug}): {msg}")
        return False
    return True


def run_case(case):
    out = Out()
    out.traces = 0
    if "scale" in case:
        from logic.stamping.matrixbuilder import MatrixBuilder
        for e in range(-300, 301):
            for m in (1.0, -3.7):
                x = m * 10.0 ** e
                for debug in (False, True):
                    Y = MatrixBuilder(asm.settings(debug=debug))
                    Y.stamp(2, 2, 1.0)
                    Y.stamp(1, 0, x)
                    A = dense(Y)
                    out.step()
                    out.traces += 1
                    if A[1, 0] != x or A[2, 2] != 1.0:
                        out.bad("scale", f"entry {x} is stored as {A[1, 0]}")
                        return out
        out.outcome = "scale"
        return out
    if "bad" in case:
        for name, s in BAD.items():
            Y, model, _ = play(case["bad"], True)
            r = attempt(lambda: Y.stamp(*s))
            out.step()
            out.traces += 1
            if r[0] == "ok":
                out.bad("invalid:" + name, f"debug mode accepts the invalid stamp {s} after {[OPS[k] for k in case['bad']]}")
        out.outcome = ("bad", len(case["bad"]))
        return out
    for suf in itertools.product(range(len(OPS)), repeat=case["depth"] - len(case["pre"])):
        seq = list(case["pre"]) + list(suf)
        for debug in (False, True):
            out.traces += 1
            if not judge(out, seq, debug):
                out.outcome = ("violation", seq)
                return out
    if case["depth"] > len(case["pre"]):   # shorter extensions of the same prefix
        for k in range(0, case["depth"] - len(case["pre"])):
            for suf in itertools.product(range(len(OPS)), repeat=k):
                out.traces += 1
                if not judge(out, list(case["pre"]) + list(suf), False):
                    return out
    out.outcome = ("ok", len(out.states))
    return out
