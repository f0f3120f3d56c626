"""C02: stamps and residuals of every component are the exact Newton linearisation."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm
from mc.ref import physics

PROP = "C02"
BOUND = ("every component kind x every assignment of its terminals to distinct buses / shared bus / ground x parameter "
         "alphabet x homotopy factor {0,0.01,0.37,1} x operating points from a 3-value alphabet per bus x "
         "{plain, optimisation}; oracle: hand-written circuit equations, Jacobian by complex step")
ASSUMPTIONS = ["functions are rational in the voltages, so agreement on the generic grid points identifies them",
               "parameter values outside the alphabet behave like the representatives"]


def bus(i, dx=False, ph="A"):
    d = {"id": i, "V": 1.0, "ang": 0.0}
    d["name"], d["phase"] = f"n{i}", ph
    return d


def gnd_ok(pairs, n):
    """terminal tuples over buses 1..n and ground"""
    return pairs


def specs(tier):
    th = tier == "thorough"
    tx = lambda nb, els: {"kind": "tx", "buses": [bus(i) for i in range(1, nb + 1)], "els": els}
    dx = lambda nb, els: {"kind": "dx", "buses": [bus(i) for i in range(1, nb + 1)], "els": els}
    two = [(1, 2), (2, 1)]
    twog = [(1, 2), (2, 1), (1, None)]
    # loads
    pq = [(0.5, 0.2), (0.0, 0.3), (-0.7, 0.0)] + ([(0.4, -0.6), (1e-3, 12.0)] if th else [])
    zz = [(0.0, 0.0), (0.9, 0.4), (0.0, -1.7), (2.1, 0.0)]
    ii = [(0.0, 0.0), (0.3, -0.2), (0.0, 0.25)] + ([(-0.4, 0.0)] if th else [])
    for (i, j) in twog:
        for p, q in [(0.0, 0.0)] + pq:
            for z in zz:
                for ip, iq in ii:
                    yield "load", tx(2, [["load", i, j, p, q, list(z), ip, iq]])
    for (i, j) in two:
        for r, x, b in itertools.product((0.0, 0.02, 0.3), (0.05, -0.2, 0.0), (0.0, 0.13)):
            if r or x:
                yield "line", tx(2, [["line", i, j, r, x, b]])
    for p, vs in itertools.product((0.0, 0.6, -0.4), (1.0, 1.07)):
        yield "gen", tx(1, [["gen", 1, p, vs]])
    for g, b in itertools.product((0.0, 7.0, -3.0), (0.0, 19.0, -11.0)):
        yield "shunt", tx(1, [["shunt", 1, g, b]])
    for v, a in itertools.product((1.0, 1.05), (0.0, 0.3, -2.1)):
        yield "slack", tx(1, [["slack", 1, v, a]])
    for (i, j) in twog + [(None, 2)]:
        for vr, vi in ((0.0, 0.0), (0.4, -0.3)):
            yield "vsrc", tx(2, [["vsrc", i, j, vr, vi]])
    for (i, j) in two:
        for s in ("OPEN", "CLOSED"):
            yield "switch", tx(2, [["switch", i, j, s]])
    terms = [(1, None, 2, None), (2, None, 1, None), (1, 3, 2, None), (1, None, 2, 4), (1, 3, 2, 4), (1, 2, 3, 4),
             (1, 2, 3, None)]
    if th:
        terms += list(itertools.permutations((1, 2, 3, 4)))[:12]
    for t in terms:
        for r, x, tr, ang in itertools.product((0.0, 0.03), (0.0, 0.2), (1.0, 0.5, 7.2), (0.0, 30.0, -25.0)):
            if r or x:
                yield "xfmr", tx(4, [["xfmr", *t, r, x, tr, ang]])
    for (f, t, m) in ((1, 2, 3), (2, 1, 3)):
        yield "fuse", dx(3, [["fuse", f, t, m, 10.0]])
    for v, vn, s in itertools.product((0.5, 1.5), (1.0, 2.0), ("OPEN", "CLOSED")):
        yield "cap", dx(1, [["cap", 1, v, vn, s]])
    for tap, typ in itertools.product((-16, -3, 0, 5, 16, 20, -20), ("A", "B")):
        for up, lo in ((16, 16), (4, 8)):
            yield "reg", dx(3, [["reg", 1, 2, 3, tap, 0.00625, typ, up, lo]])
    for zs in (([0.01, 0.02], [0.02, 0.03], [0.015, 0.035]), ([0.0, 0.02], [0.02, 0.0], [0.01, 0.01])):
        for v0, v1, S in ((2.0, 0.5, 3.0), (7.2, 0.12, 0.05)):
            for perm in ((1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1)):
                yield "ct", dx(6, [["ct", *perm, *zs, v0, v1, S, v0 / v1]])
    full = [[(0.3, 1.1), (0.11, 0.42), (0.09, 0.35)], [(0.11, 0.42), (0.29, 1.2), (0.1, 0.4)],
            [(0.09, 0.35), (0.1, 0.4), (0.31, 1.05)]]
    cap = [[(0.0, 0.2), (0.0, -0.05), (0.0, -0.02)], [(0.0, -0.05), (0.0, 0.22), (0.0, -0.03)],
           [(0.0, -0.02), (0.0, -0.03), (0.0, 0.19)]]
    PH = ("A", "B", "C")
    for n in (1, 2, 3):
        for sel in itertools.permutations(range(3), n):
            for c in (None, cap):
                for L in (1.0, 2.5):
                    fb = [{"id": 1 + k, "V": 1.0, "ang": 0.0, "name": "f", "phase": PH[p]} for k, p in enumerate(sel)]
                    tb = [{"id": 11 + k, "V": 1.0, "ang": 0.0, "name": "t", "phase": PH[p]} for k, p in enumerate(sel)]
                    Z = [[list(full[a][b]) for b in sel] for a in sel]
                    Y = None if c is None else [[list(c[a][b]) for b in sel] for a in sel]
                    yield "uline", {"kind": "dx", "buses": fb + tb,
                                    "els": [["uline", [b["id"] for b in fb], [b["id"] for b in tb], Z, Y, L]]}


def patterns(nb, tier):
    if nb <= 2:
        return list(itertools.product((0, 1, 2), repeat=nb))
    if nb == 3:
        return list(itertools.product((0, 1, 2), repeat=3)) if tier == "thorough" else [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 3), (3, 1, 0)]
    base = [tuple((i * s + o) % 4 for i in range(nb)) for s in (1, 3, 2) for o in (0, 1)]
    return base if tier == "thorough" else base[:3]


def cases(tier):
    for kind, spec in specs(tier):
        for opt in (False, True):
            yield {"kind": kind, "spec": spec, "opt": opt, "pats": [list(p) for p in patterns(len(spec["buses"]), tier)],
                   "tx": [0.0, 0.01, 0.37, 1.0]}


def prepare():
    seen = set()
    for kind, spec in specs("quick"):
        if kind in seen and kind != "load":
            continue
        if kind == "load" and (len(seen) and ("load", bool(spec["els"][0][3])) in seen):
            continue
        seen.add(kind)
        for opt in (None, "L2"):
            asm.setup(spec, opt)


def check_plain(out, case, key):
    spec = case["spec"]
    net, B, objs, st, lay = asm.setup(spec)
    idx = asm.layout_vec(spec, lay)
    n = net.size_Y
    if sorted(idx) != list(range(n)):
        out.bad(key + ":layout", f"unknowns are not laid out one-to-one: {idx} of {n}")
        return
    for tx in case["tx"]:
        for pat in case["pats"]:
            x = asm.point(spec, pat)
            v = np.zeros(n)
            v[idx] = x
            Fr = physics.evalF(spec, x, tx)
            Jr = physics.jacF(spec, x, tx)
            R, M = np.zeros(n), np.zeros((n, n))
            R[idx] = Fr
            M[np.ix_(idx, idx)] = Jr
            A, J = asm.stamp_system(net, st, v, tx)
            res = st.calc_residuals(tx, v, 0).residuals
            out.step(3)
            out.state(spec["els"], tx, pat, False, np.round(R, 9))
            if not asm.close(A, M):
                d = np.argwhere(~np.isclose(A, M, rtol=1e-6, atol=1e-8))[:3].tolist()
                out.bad(key + ":matrix", f"{spec['els']} tx={tx} v={x.tolist()}: stamped matrix differs from the Jacobian at {d}: "
                        f"{[(A[a, b], M[a, b]) for a, b in d]}")
                return
            if not asm.close(A @ v - J, R):
                out.bad(key + ":rhs", f"{spec['els']} tx={tx} v={x.tolist()}: Y v - J = {(A @ v - J).tolist()} but F(v) = {R.tolist()}")
                return
            if not asm.close(res, R):
                out.bad(key + ":residual", f"{spec['els']} tx={tx} v={x.tolist()}: residual {res.tolist()} but F(v) = {R.tolist()}")
                return


def check_opt(out, case, key):
    spec = case["spec"]
    net, B, objs, st, lay = asm.setup(spec, "L2")
    idx = asm.layout_vec(spec, lay)
    n = net.size_Y
    m = len(idx)
    nb = len(spec["buses"])
    if n != 2 * m + 2 * nb:
        out.bad(key + ":opt-size", f"{n} unknowns with optimisation, expected {2*m+2*nb}")
        return
    inf = net.optimization.infeasibility_currents
    ii = [x for c in inf for x in (c.node_Ir_inf, c.node_Ii_inf)]
    lam_bus = [x for b in spec["buses"] for x in (B[b["id"]].node_lambda_Vr, B[b["id"]].node_lambda_Vi)]
    rest = [k for k in range(n) if k not in set(idx) | set(ii) | set(lam_bus)]
    naux = m - 2 * nb
    if len(rest) != naux or len(set(idx) | set(ii) | set(lam_bus)) != 2 * nb * 2 + m:
        out.bad(key + ":opt-layout", f"unknowns collide: primal {idx}, multipliers {lam_bus}, infeasibility {ii} of {n}")
        return
    perm = None
    for tx in case["tx"]:
        for pat in case["pats"]:
            x = asm.point(spec, pat)
            Jr = physics.jacF(spec, x, tx)
            Fr = physics.evalF(spec, x, tx)
            v = np.zeros(n)
            v[idx] = x
            v[ii] = [0.21 - 0.09 * k for k in range(len(ii))]
            lamv = np.array([0.5 - 0.17 * k for k in range(m)])
            if perm is None:
                # multiplier columns of the auxiliary rows, identified by the stationarity rows they enter
                A, J = asm.stamp_system(net, st, v, tx)
                perm = list(lam_bus)
                left = list(rest)
                for r in range(2 * nb, m):
                    hit = [c for c in left if asm.close(A[c, idx], Jr[r], 1e-7, 1e-8)]
                    if not hit:
                        out.bad(key + ":opt-matrix", f"{spec['els']} tx={tx}: no stamped row equals auxiliary equation {r}: {Jr[r].tolist()}")
                        return
                    perm.append(hit[0])
                    left.remove(hit[0])
            v[perm] = lamv
            # full Lagrangian gradient: rows of the multipliers = constraints, rows of the primals = J^T lam
            R, M = np.zeros(n), np.zeros((n, n))
            R[perm] = Fr
            R[idx] = Jr.T @ lamv
            M[np.ix_(perm, idx)] = Jr
            M[np.ix_(idx, perm)] = Jr.T
            for k in range(2 * nb):
                R[lam_bus[k]] += v[ii[k]]
                R[ii[k]] = 2 * v[ii[k]] + v[lam_bus[k]]
                M[lam_bus[k], ii[k]] = 1
                M[ii[k], ii[k]] = 2
                M[ii[k], lam_bus[k]] = 1
            H = np.zeros((m, m))
            h = 1e-5
            for c in range(m):
                xp, xm = x.copy(), x.copy()
                xp[c] += h
                xm[c] -= h
                H[:, c] = (physics.jacF(spec, xp, tx).T @ lamv - physics.jacF(spec, xm, tx).T @ lamv) / (2 * h)
            M[np.ix_(idx, idx)] = H
            A, J = asm.stamp_system(net, st, v, tx)
            res = st.calc_residuals(tx, v, 0).residuals
            out.step(3)
            out.state(spec["els"], tx, pat, True, np.round(R, 8))
            if not asm.close(A, M, 1e-5, 1e-6):
                d = np.argwhere(~np.isclose(A, M, rtol=1e-4, atol=1e-5))[:3].tolist()
                out.bad(key + ":opt-matrix", f"{spec['els']} tx={tx} v={v.tolist()}: optimality matrix differs at {d}: "
                        f"{[(A[a, b], M[a, b]) for a, b in d]}")
                return
            if not asm.close(A @ v - J, R, 1e-7, 1e-8):
                out.bad(key + ":opt-rhs", f"{spec['els']} tx={tx}: Y v - J differs from the gradient of the Lagrangian")
                return
            if not asm.close(res, R, 1e-7, 1e-8):
                out.bad(key + ":opt-residual", f"{spec['els']} tx={tx}: residual differs from the gradient of the Lagrangian: {res.tolist()} vs {R.tolist()}")
                return


def run_case(case):
    out = Out()
    key = case["kind"]
    (check_opt if case["opt"] else check_plain)(out, case, key)
    out.outcome = (key, case["opt"], bool(out.violations))
    return out
