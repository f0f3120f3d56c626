"""C01: a state reported as solved satisfies every circuit law; the reported residual is true."""
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.ref import physics
from mc.net import build, aux_layout

PROP = "C01"
BOUND = ("all chains/triangles of <=3 positive-sequence buses over the branch and device alphabets and all three-phase chains of "
         "<=2 (thorough 3) stages over {line, charged line, switch, fuse, regulator, Y-Y, D-Y, Y-D, centre-tap} with each load kind, "
         "times solver settings and starting points up to opposite phase; every solve executed end to end on the real solver; oracle: hand-written circuit laws with all "
         "auxiliary unknowns eliminated, and a reference Newton iteration for solvability")
ASSUMPTIONS = ["parameter values are representatives", "the linear solver of scipy is trusted only through the checked residual"]

SETTINGS = [{}, {"flat_start": True}, {"tx_stepping": True}, {"voltage_limiting": True}, {"debug": True, "tolerance": 1e-7}]


STARTS = [(1.0, 2.9), (1.0, -1.6), (0.3, 0.0), (1.9, 0.4), (2.6, -2.0)]


def cases(tier):
    for spec in grids.tx_family(tier):
        big = len(spec["buses"]) > 2 and tier != "thorough"
        for s in ([0, 2] if big else range(len(SETTINGS))):
            yield {"spec": spec, "set": s}
    # poor starting points: voltages and angles far from the solution
    import itertools
    for br, dv in itertools.product(grids.TX_BRANCH, grids.TX_DEV):
        for V, a in STARTS:
            spec = grids.tx_spec(2, [(br, 1, 2)], {2: dv})
            spec["buses"][1].update(V=V, ang=a)
            for s in range(len(SETTINGS)):
                yield {"spec": spec, "set": s}
    if tier == "thorough":
        for (V, a), (W, c) in itertools.product(STARTS, STARTS):
            for br, dv in itertools.product(("line", "tap", "shift"), ("none", "pq", "z", "pv")):
                spec = grids.tx_spec(3, [(br, 1, 2), (br, 2, 3)], {2: dv, 3: dv})
                spec["buses"][1].update(V=V, ang=a)
                spec["buses"][2].update(V=W, ang=c)
                for s in range(len(SETTINGS)):
                    yield {"spec": spec, "set": s}
    for spec in grids.dx_family(tier):
        for s in ([0] if tier != "thorough" else [0, 2]):
            yield {"spec": spec, "set": s}


def prepare():
    for kind, pick in (("tx", grids.tx_family("quick")), ("dx", grids.dx_family("quick"))):
        n = 0
        for spec in pick:
            n += 1
            if n % 40 == 1:
                asm.setup(spec)


def newton(spec, x, tol, iters):
    """reference Newton iteration; returns iterations used or None"""
    from scipy.sparse.linalg import spsolve
    from scipy.sparse import csc_matrix
    for k in range(iters):
        F = physics.evalF(spec, x)
        J = physics.jacF(spec, x)
        try:
            x = x - np.linalg.solve(J, F)
        except np.linalg.LinAlgError:
            return None, x
        if not np.all(np.isfinite(x)):
            return None, x
        if np.max(np.abs(physics.evalF(spec, x))) < tol:
            return k + 1, x
    return None, x


def eliminated_residual(spec, volt):
    """KCL/KVL residual with every unknown but the physical bus voltages eliminated (linear least squares)."""
    ks = physics.unknowns(spec)
    real = {b["id"] for b in spec["buses"] if not b.get("virt")}
    x = np.zeros(len(ks))
    free = []
    for n, key in enumerate(ks):
        if key[0] == "V" and key[1] in real:
            x[n] = volt[key[1]][key[2]]
        else:
            free.append(n)
    c = physics.evalF(spec, x)
    if free:
        J = np.zeros((len(ks), len(free)))
        for k, n in enumerate(free):
            z = np.array(x, dtype=complex)
            z[n] += 1e-40j
            J[:, k] = physics.evalF(spec, z).imag / 1e-40
        sc = np.max(np.abs(J), axis=1)
        w = 1.0 / np.maximum(1.0, sc)
        u, *_ = np.linalg.lstsq(J * w[:, None], -c * w, rcond=None)
        x[free] = u
        r = physics.evalF(spec, x)
        return np.max(np.abs(r * w)), x
    return np.max(np.abs(c)), x


def run_case(case):
    from logic.powerflow import PowerFlow
    out = Out()
    spec = case["spec"]
    st = SETTINGS[case["set"]]
    settings = asm.settings(**st)
    tol = st.get("tolerance", 1e-5)
    kinds = "-".join(sorted({e[0] for e in spec["els"]}))
    key = f"{spec['kind']}:{case['set']}:{kinds}"
    net, B, objs = build(spec)
    r = attempt(lambda: PowerFlow(net, settings).execute())
    # reference verdict on solvability from the same initial state
    lay = aux_layout(net, B, spec, objs)
    idx = [lay[k[:-1]][k[-1]] for k in physics.unknowns(spec)]
    v0 = net.generate_v_init(settings)
    it, xr = newton(spec, v0[idx], tol, 60)
    easy = it is not None and it <= 12
    out.step(1 + (it or 60))
    if r[0] == "err":
        out.outcome = "raised"
        out.state(spec["els"], case["set"], "raised")
        if easy and case["set"] != 3:
            out.bad(key + ":raised", f"{spec['els']}: a solvable network (reference Newton: {it} iterations) was not solved: {r[1]}")
        return out
    res = r[1]
    v = np.asarray(res.v_final)
    # the reported residual is the true one, success or not
    F = physics.evalF(spec, v[idx])
    R = np.zeros(len(v))
    R[idx] = F
    sc = max(1.0, float(np.max(np.abs(v))) * 1e-2) if spec["kind"] == "dx" else 1.0
    tolr = 1e-6 * sc + 1e-6 * np.abs(R) + 1e-9 * float(np.max(np.abs(v))) * 1e4 * (spec["kind"] == "dx")
    if np.all(np.isfinite(R)) and not np.all(np.abs(np.asarray(res.residuals.residuals) - R) <= tolr):
        out.bad(key + ":residual", f"{spec['els']}: reported residuals {np.asarray(res.residuals.residuals).tolist()} but the state has {R.tolist()}")
    if np.all(np.isfinite(R)) and abs(res.max_residual - np.max(np.abs(res.residuals.residuals))) > 1e-12 + 1e-9 * abs(res.max_residual):
        out.bad(key + ":maxres", f"max residual {res.max_residual} is not the largest entry {np.max(np.abs(res.residuals.residuals))}")
    if res.is_success:
        volt = {b.bus.Bus: (b.V_r, b.V_i) for b in res.bus_results}
        missing = [b["id"] for b in spec["buses"] if not b.get("virt") and b["id"] not in volt]
        if missing:
            out.bad(key + ":missing", f"no result for buses {missing}")
            return out
        e, x = eliminated_residual(spec, volt)
        lim = max(tol, 1e-5) * 10 * (1 if spec["kind"] == "tx" else 5) + 1e-10 * float(np.max(np.abs(v))) * 10
        out.state(spec["els"], case["set"], [np.round(z, 6).tolist() for z in volt.values()])
        if not (e <= lim):
            out.bad(key + ":laws", f"{spec['els']} settings {st}: reported solved, but the bus voltages {volt} violate the circuit laws by {e}")
        if not (res.max_residual < tol * 1.001 + 1e-12) and not (spec["kind"] == "dx" and res.max_residual < tol * 10):
            out.bad(key + ":success", f"{spec['els']} settings {st}: success with residual {res.max_residual} >= tolerance {tol}")
        out.outcome = "solved"
    else:
        out.state(spec["els"], case["set"], "failed")
        out.outcome = "failed"
        if easy and case["set"] != 3:
            out.bad(key + ":unsolved", f"{spec['els']} settings {st}: reference Newton solves this in {it} iterations, the solver reports failure")
    return out
