"""C05: the assembled system is the sum of its parts and depends only on the state it is asked for."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.ref import physics
from mc.net import build, aux_layout

PROP = "C05"
BOUND = ("every multiset of 2 elements (thorough 3) of a 24-element alphabet over 3 shared buses, incl. identical copies, assembled in both list orders; after "
         "every history of <=2 (thorough 3) operations over {stamp linear at 2 factors, stamp nonlinear at 2 states, residual at 2x2} the system and the "
         "residual at each of the 4 (factor, state) pairs equal the sum of the reference element equations; a shared builder re-used "
         "as the Newton loop does; every pair of elements differing only in trailing digits and an element on every pair of 12 buses, to rounding")
ASSUMPTIONS = ["interaction of elements is pairwise (shared buses, shared constants, shared definitions)"]
ALPHA = [
    ["load", 1, None, 0.5, 0.2, [0, 0], 0, 0], ["load", 2, None, 0.5, 0.2, [0, 0], 0, 0], ["load", 1, 2, 0.5, 0.2, [0, 0], 0, 0],
    ["load", 2, 1, -0.3, 0.2, [0, 0], 0, 0], ["load", 1, None, 0, 0, [0.9, 0.4], 0, 0], ["load", 3, 1, 0.1, 0.4, [0.9, 0.4], 0.2, -0.1],
    ["load", 1, None, 0, 0, [0, 0], 0.3, 0.2], ["gen", 1, 0.5, 1.02], ["gen", 2, 0.5, 1.02], ["gen", 3, -0.2, 0.98],
    ["slack", 1, 1.0, 0.0], ["slack", 3, 1.05, 0.4], ["line", 1, 2, 0.02, 0.1, 0.0], ["line", 2, 1, 0.02, 0.1, 0.0], ["line", 2, 3, 0.02, 0.1, 0.3],
    ["shunt", 1, 3.0, 18.0], ["shunt", 2, 3.0, 18.0], ["xfmr", 1, None, 2, None, 0.02, 0.1, 1.05, 0.0],
    ["xfmr", 2, 3, 1, None, 0.02, 0.1, 1.05, 30.0], ["xfmr", 1, None, 3, 2, 0.02, 0.1, 0.5, -30.0], ["vsrc", 1, 2, 0.1, -0.2],
    ["vsrc", 3, None, 0.1, -0.2], ["switch", 1, 3, "CLOSED"], ["switch", 2, 3, "OPEN"]]
TX = (0.0, 0.4)
OPS = [("L", t) for t in TX] + [("N", s) for s in (0, 1)] + [("R", t, s) for t in TX for s in (0, 1)]


def cases(tier):
    n = len(ALPHA)
    for k in range(n):
        yield {"near": k}
    for k in ("load", "gen", "line", "shunt", "xfmr", "vsrc", "switch"):
        yield {"crowd": k}
    for a in range(n):
        yield {"els": [a]}
    for a, b in itertools.combinations_with_replacement(range(n), 2):
        yield {"els": [a, b]}
    if tier == "thorough":
        for t in itertools.combinations_with_replacement(range(n), 3):
            yield {"els": list(t)}


NEAR = [1e-4, 1e-7, 1e-10]


def near_specs(k):
    """two elements on the same terminals whose parameters differ only in trailing digits, for every kind and every parameter"""
    e = ALPHA[k]
    for n, x in enumerate(e):
        if isinstance(x, float) and x:
            for d in NEAR:
                g = list(e)
                g[n] = x * (1 + d)
                yield [e, g]
        if isinstance(x, list) and any(x):
            for d in NEAR:
                g = list(e)
                g[n] = [x[0] * (1 + d), x[1]]
                yield [e, g]


def crowd(kind):
    """twelve buses, one element of a kind on every ordered pair (or every bus): terminal numbers with one and two digits"""
    els = [["slack", 1, 1.0, 0.0]]
    ids = range(1, 13)
    for e in ALPHA:
        if e[0] != kind:
            continue
        if kind in ("gen", "shunt"):
            els += [[kind, i] + e[2:] for i in ids]
        elif kind == "xfmr":
            els += [["xfmr", i, None, j, None] + e[5:] for i in ids for j in ids if i != j]
        elif kind == "line":
            els += [["line", i, j] + e[3:] for i in ids for j in ids if i != j]
        else:
            els += [[kind, i, j] + e[3:] for i in ids for j in list(ids) + [None] if i != j]
        break
    return {"kind": "tx", "buses": [{"id": i, "V": 1.0, "ang": 0.0, "name": f"n{i}", "phase": "NA"} for i in ids], "els": els}


def exact(out, spec, what):
    """one assembly against the reference, to rounding"""
    net, B, objs, st, lay = asm.setup(spec)
    idx = asm.layout_vec(spec, lay)
    n = net.size_Y
    x = asm.point(spec, [i % 4 for i in range(len(spec["buses"]))])
    v = np.zeros(n)
    v[idx] = x
    for t in TX:
        A, J = asm.stamp_system(net, st, v, t)
        M, F, R = np.zeros((n, n)), physics.evalF(spec, x, t), np.zeros(n)
        M[np.ix_(idx, idx)] = physics.jacF(spec, x, t)
        R[idx] = F
        r = np.asarray(st.calc_residuals(t, v, 0).residuals)
        out.step(2)
        out.traces += 1
        out.state(what, t)
        mag = np.abs(M) @ np.abs(v) + np.abs(J) + 1.0
        e1 = np.max(np.abs(A - M) / (1.0 + np.abs(M)))
        e2 = np.max(np.abs(r - R) / mag)
        e3 = np.max(np.abs(A @ v - J - R) / mag)
        if max(e1, e2, e3) > 1e-12:
            out.bad("exact", f"{what} at factor {t}: the assembled system differs from the sum of its parts by {e1:.3g} (matrix), {e2:.3g} (residual), {e3:.3g} (right-hand side)")
            return


def prepare():
    for e in ALPHA:
        asm.setup(spec_of([e]))


def spec_of(els):
    return {"kind": "tx", "buses": [{"id": i, "V": 1.0, "ang": 0.0, "name": f"n{i}", "phase": "NA"} for i in (1, 2, 3)],
            "els": [list(e) for e in els]}


def run_case(case):
    from logic.stamping.matrixbuilder import MatrixBuilder
    out = Out()
    out.traces = 0
    if "near" in case:
        for els in near_specs(case["near"]):
            exact(out, spec_of(els), f"elements {els}")
        out.outcome = ("near", case["near"])
        return out
    if "crowd" in case:
        exact(out, crowd(case["crowd"]), f"a {case['crowd']} on every pair of 12 buses")
        out.outcome = ("crowd", case["crowd"])
        return out
    spec = spec_of([ALPHA[k] for k in case["els"]])
    xs = [asm.point(spec, (0, 1, 2)), asm.point(spec, (2, 3, 1)) * 0.9 + 0.05]
    ref = {(t, s): (physics.evalF(spec, xs[s], t), physics.jacF(spec, xs[s], t)) for t in TX for s in (0, 1)}
    names = [ALPHA[k] for k in case["els"]]
    orders = {tuple(range(len(names))), tuple(reversed(range(len(names))))}
    depth = 2 if len(case["els"]) <= 2 else 1
    import os
    if os.environ.get("VERIF_TIER") == "thorough" and len(case["els"]) <= 2:
        depth = 3
    for od in sorted(orders):
        net, B, objs, st, lay = asm.setup(spec, order=list(od))
        idx = asm.layout_vec(spec, lay)
        n = net.size_Y
        if sorted(idx) != list(range(n)):
            out.bad("layout", f"{names}: unknowns laid out at {idx} of {n}")
            return out
        vs = []
        for x in xs:
            v = np.zeros(n)
            v[idx] = x
            vs.append(v)
        exp = {}
        for key, (F, J) in ref.items():
            R, M = np.zeros(n), np.zeros((n, n))
            R[idx] = F
            M[np.ix_(idx, idx)] = J
            exp[key] = (R, M)

        def check(t, s, how):
            R, M = exp[(t, s)]
            A, J = asm.stamp_system(net, st, vs[s], t)
            out.step()
            if not asm.close(A, M) or not asm.close(A @ vs[s] - J, R):
                d = np.argwhere(~np.isclose(A, M, rtol=1e-6, atol=1e-8))[:3].tolist()
                out.bad("system", f"{names} order {od}, after {how}: the system at factor {t}, state {s} differs from the sum of its parts at {d}")
                return False
            return True

        def resid(t, s, how):
            r = st.calc_residuals(t, vs[s], 0)
            out.step()
            if not asm.close(r.residuals, exp[(t, s)][0]):
                out.bad("residual", f"{names} order {od}, after {how}: residual at factor {t}, state {s} is {r.residuals.tolist()}, expected {exp[(t, s)][0].tolist()}")
                return False
            return True
        for k in range(depth + 1):
            for h in itertools.product(range(len(OPS)), repeat=k):
                how = [OPS[q] for q in h]
                for t in TX:
                    for s in (0, 1):
                        for probe in (check, resid):
                            for q in h:
                                op = OPS[q]
                                if op[0] == "L":
                                    st.stamp_linear(MatrixBuilder(asm.settings()), np.zeros(n), op[1])
                                elif op[0] == "N":
                                    st.stamp_nonlinear(MatrixBuilder(asm.settings()), np.zeros(n), vs[op[1]], 0)
                                else:
                                    st.calc_residuals(op[1], vs[op[2]], 0)
                                out.step()
                            out.traces += 1
                            out.state(case["els"], how, t, s)
                            if not probe(t, s, how):
                                return out
        # the Newton loop's usage: linear part retained, nonlinear part replaced
        Y = MatrixBuilder(asm.settings())
        Jl = np.zeros(n)
        st.stamp_linear(Y, Jl, TX[1])
        mark = Y.get_usage()
        for s in (0, 1, 0):
            J = Jl.copy()
            st.stamp_nonlinear(Y, J, vs[s], 0)
            A = asm.dense(Y, n)
            R, M = exp[(TX[1], s)]
            out.step()
            if not asm.close(A, M) or not asm.close(A @ vs[s] - J, R):
                out.bad("iterate", f"{names}: iterating with retained linear stamps gives another system at state {s}")
                return out
            if not resid(TX[1], s, ["iteration"]):
                return out
            Y.clear(retain_idx=mark)
    out.outcome = tuple(case["els"])
    return out
