"""Runs in its own process: derives or loads the derivatives of one segment and prints what they evaluate to.

usage: cache_child.py write|read SEG            one segment, TMPDIR decides the cache
       cache_child.py seq SEG SEG ...           several segments in this order
       cache_child.py files FILE SEG A B STEP TAIL   every A..B prefix of FILE (optionally zero filled) as the cache content
"""
import json
import os
import sys


def segment(name):
    import sympy as sp
    from logic.stamping.lagrangesegment import LagrangeSegment
    a, b, c, d = sp.symbols("a b c d")
    if name == "big":
        e = sp.sqrt(9 + sp.Add(*[sp.cos(i * a) * sp.sin(i * b) / 2000 for i in range(2, 1150)]))
        roles = ("ab", "c", "d")
        L = d * (c + e)
    elif name == "small":
        roles = ("a", "b", "d")
        L = d * (a * b + b ** 2)
    elif name.startswith("n:"):
        k, x, lam = sp.symbols("k x lam")
        L = lam * (x + int(name[2:]) * k)
        return L, (k,), (x,), (lam,), LagrangeSegment(L, (k,), (x,), (lam,))
    else:
        _, k, *roles = name.split(":")
        L = EXPRS[int(k)](a, b, c, d)
    sy = {"a": a, "b": b, "c": c, "d": d}
    cs, ps, ds = (tuple(sy[q] for q in r) for r in roles)
    return L, cs, ps, ds, LagrangeSegment(L, cs, ps, ds)


EXPRS = [lambda a, b, c, d: c * (a * b + a ** 2) + 2 * a * c ** 2, lambda a, b, c, d: c * (a * b ** 2 + 3 * a) + b * c,
         lambda a, b, c, d: d * (a - 2 * b) + c * a * b + d * c]
VALS = {"a": 0.7, "b": -1.3, "c": 1.9, "d": 0.4, "k": 0.7, "x": -1.3, "lam": 0.4}


def probe(name):
    """matrix, right-hand side and residual that the segment contributes at VALS"""
    import numpy as np
    from logic.stamping.lagrangestampdetails import LagrangeStampDetails
    from logic.stamping.matrixbuilder import MatrixBuilder
    from logic.stamping.matrixstamper import MatrixStamper, build_stamps_from_stamper
    from logic.powerflowsettings import PowerFlowSettings
    L, cs, ps, ds, seg = segment(name)
    vs = ps + ds
    st = LagrangeStampDetails(seg, {v: n for n, v in enumerate(vs)}, True)
    ms = MatrixStamper(build_stamps_from_stamper(None, st, [VALS[str(q)] for q in cs]), True)
    n = len(vs)
    v = np.array([VALS[str(q)] for q in vs])
    Y, J = MatrixBuilder(PowerFlowSettings()), np.zeros(n)
    ms.stamp_linear(Y, J, 0)
    ms.stamp_nonlinear(Y, J, v, 0)
    A = np.zeros((n, n))
    if Y.get_usage():
        m = Y.to_matrix().tocoo()
        for r, c, x in zip(m.row, m.col, m.data):
            A[r, c] += x
    R = np.zeros(n)
    q = np.asarray(ms.calc_residuals(0, v, 0).residuals, dtype=float)
    R[:len(q)] = q
    return [A.tolist(), J.tolist(), R.tolist()]


def main():
    mode = sys.argv[1]
    import sympy  # noqa: before recording starts
    import numpy, scipy.sparse, dill  # noqa
    import logic.stamping.matrixstamper, logic.powerflowsettings  # noqa
    if mode in ("write", "read"):
        if os.environ.get("FSLOG_DIR_LATER"):
            os.environ["FSLOG_DIR"] = os.environ["FSLOG_DIR_LATER"]
        r = probe(sys.argv[2])
        os.environ["FSLOG_DIR"] = "/nonexistent-"
        print("RESULT " + json.dumps(r), flush=True)
    elif mode == "seq":
        for s in sys.argv[2:]:
            print("AT " + s, flush=True)
            print("RESULT " + json.dumps(probe(s)), flush=True)
    elif mode == "files":
        path, seg, a, b, step, tail = sys.argv[2], sys.argv[3], *map(int, sys.argv[4:8])
        data = open(path + ".full", "rb").read()
        for k in range(a, b, step):
            print(f"AT {k}", flush=True)
            with open(path, "wb") as f:
                f.write(data[:k] + (b"\0" * (len(data) - k) if tail else b""))
            print("RESULT " + json.dumps([probe(seg), probe(seg)]), flush=True)


main()
