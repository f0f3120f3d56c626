"""C20: infeasibility analysis ends at the least additional current, and at none when none is needed."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.ref import physics
from mc.net import build, aux_layout
from mc.checks.c01_solution import newton

PROP = "C20"
BOUND = ("networks of the positive-sequence and three-phase families (quick: all two-bus and every other larger one, thorough: all), and "
         "positive-sequence ones at 12 load scales across the feasibility limit, times solver settings, solved end to end with infeasibility analysis; oracle: first-order optimality of the "
         "bus voltages for the least-squares current mismatch of the reference circuit equations, all multipliers eliminated")
ASSUMPTIONS = ["first-order conditions: the nonconvex problem can have several stationary points"]

SETTINGS = [{}, {"tx_stepping": True}, {"flat_start": True}, {"voltage_limiting": True}]
SCALES = [0.5, 1.5, 2.0, 3.0, 4.0, 6.0, 8.0, 12.0, 20.0, 50.0, -3.0, -10.0]


def scaled(spec, k):
    els = []
    for e in spec["els"]:
        e = list(e)
        if e[0] == "load":
            e[3], e[4] = e[3] * k, e[4] * k
        els.append(e)
    return {**spec, "els": els}


def cases(tier):
    th = tier == "thorough"
    for n, spec in enumerate(grids.tx_family(tier)):
        if th or len(spec["buses"]) < 3 or n % 2 == 0:
            for s in range(len(SETTINGS)) if th else [n // 2 % len(SETTINGS)]:
                yield {"spec": spec, "set": s}
    n = 0
    for br, d, k in itertools.product(grids.TX_BRANCH, ("pq", "zip", "pv", "sh"), SCALES):
        n += 1
        for s in range(len(SETTINGS)) if th else [0, 1 + n % 3]:
            yield {"spec": scaled(grids.tx_spec(2, [(br, 1, 2)], {2: d}), k), "set": s}
        for s in range(len(SETTINGS)) if th else [n % 4] if n % 2 else []:
            yield {"spec": scaled(grids.tx_spec(3, [(br, 1, 2), ("line", 2, 3)], {2: "none", 3: d}), k), "set": s}
    for n, spec in enumerate(grids.dx_family(tier)):
        for s in ([0, 1] if th else [0]):
            if th or n % 2 == 0:
                yield {"spec": spec, "set": s}
            if any(e[0] == "load" and e[3] for e in spec["els"]) and (n % 8 == 1 or th) and not any(e[0] == "fuse" for e in spec["els"]):
                yield {"spec": scaled(spec, 40.0), "set": s}


def prepare():
    for kind, pick in (("tx", grids.tx_family("quick")), ("dx", grids.dx_family("quick"))):
        for n, spec in enumerate(pick):
            if n % 40 == 1:
                asm.setup(spec, "L2")


def optimality(spec, x):
    """(aux equation error, gradient of the squared current mismatch with the aux multipliers eliminated, mismatch)"""
    ks = physics.unknowns(spec)
    bal = np.array([k[0] == "V" for k in ks])
    F = physics.evalF(spec, x)
    J = physics.jacF(spec, x)
    r = F[bal]
    g = 2 * J[bal].T @ r
    A = J[~bal].T
    if A.shape[1]:
        sc = np.maximum(1e-12, np.max(np.abs(A), axis=0))
        u, *_ = np.linalg.lstsq(A / sc, -g, rcond=None)
        res = g + (A / sc) @ u
    else:
        res = g
    big = max(1.0, float(np.max(np.abs(r)))) * max(1.0, float(np.max(np.abs(J[bal]))))
    aux = float(np.max(np.abs(F[~bal]))) if (~bal).any() else 0.0
    return aux, float(np.max(np.abs(res))) / big, r, float(np.max(np.abs(J[bal])))


def run_case(case):
    from logic.powerflow import PowerFlow
    out = Out()
    spec = case["spec"]
    st = SETTINGS[case["set"]]
    settings = asm.settings(max_iters=100, **st)
    kinds = "-".join(sorted({e[0] for e in spec["els"]}))
    key = f"{spec['kind']}:{case['set']}:{kinds}"
    net, B, objs = build(spec, opt="L2")
    r = attempt(lambda: PowerFlow(net, settings).execute())
    lay = aux_layout(net, B, spec, objs)
    idx = [lay[k[:-1]][k[-1]] for k in physics.unknowns(spec)]
    v0 = net.generate_v_init(settings)
    it, xr = newton(spec, v0[idx], 1e-5, 12)
    easy = it is not None and it <= 8
    if easy:
        # currents beyond a fuse's rating are refused
        V = dict(zip(physics.unknowns(spec), xr))
        easy = not any(e[0] == "fuse" and abs(complex(V[("I", k, 0)], V[("I", k, 1)])) > 0.9 * e[4] for k, e in enumerate(spec["els"]))
    what = f"{spec['els']} settings {st}"
    out.step(1 + (it or 12))
    if r[0] == "err":
        out.outcome = "raised"
        out.state(spec["els"], case["set"], "raised")
        if easy and case["set"] != 3:
            out.bad(key + ":raised", f"{what}: solvable without help, but the analysis raised {r[1]}")
        return out
    res = r[1]
    if not res.is_success:
        out.outcome = "failed"
        out.state(spec["els"], case["set"], "failed")
        if easy and case["set"] != 3:
            out.bad(key + ":unsolved", f"{what}: solvable without help in {it} iterations, but the analysis fails")
        return out
    x = np.asarray(res.v_final)[idx]
    aux, grad, mis, jmax = optimality(spec, x)
    vmax = max(1.0, float(np.max(np.abs(x))))
    tol = 1e-4 * (1 if spec["kind"] == "tx" else 10) + 1e-9 * vmax * jmax
    need = float(np.max(np.abs(mis)))
    out.outcome = "needs current" if need > 1e-3 else "feasible"
    out.state(spec["els"], case["set"], np.round(x, 5))
    if not aux <= tol:
        out.bad(key + ":laws", f"{what}: the state violates the component equations by {aux}")
    elif not grad <= tol:
        out.bad(key + ":optimal", f"{what}: the added currents (largest {need}) are not least: gradient {grad}")
    elif easy and case["set"] in (0, 2) and need > tol * 10:
        out.bad(key + ":needless", f"{what}: solvable from this start without help, but the analysis adds currents up to {need}")
    # the report names the currents that the state needs
    B2 = {b.bus.Bus: complex(b.V_r, b.V_i) for b in res.bus_results}
    ks = physics.unknowns(spec)
    I = {}
    for k, f in zip([k for k in ks if k[0] == "V"], mis):
        I.setdefault(k[1], [0, 0])[k[2]] = f
    P = {}
    tot = 0
    for gr in res.generator_results:
        if gr.type_str == "Inf":
            i = gr.generator.bus.Bus
            if i in P:
                out.bad(key + ":report", f"{what}: two infeasibility results for bus {i}")
            P[i] = complex(gr.P, gr.Q)
            tot += P[i]
    xs = dict(zip(ks, x))
    for b in spec["buses"]:
        i = b["id"]
        z = complex(xs[("V", i, 0)], xs[("V", i, 1)])
        s = z * complex(*I[i]).conjugate()
        e = abs(z) * (1e-5 if spec["kind"] == "tx" else 1e-4) + 1e-9 * jmax * abs(z) * vmax + 2e-5
        if i not in P or abs(P[i] - s) > e + 1e-6 * abs(s):
            out.bad(key + ":report", f"{what}: bus {i} needs the extra power {s}, the report says {P.get(i)}")
            break
    if res.infeasibility_totals is None or abs(complex(*res.infeasibility_totals) - tot) > 1e-9 * max(1, abs(tot)):
        out.bad(key + ":totals", f"{what}: infeasibility totals {res.infeasibility_totals}, the bus results sum to {tot}")
    return out
