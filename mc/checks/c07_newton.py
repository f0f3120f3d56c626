"""C07: protocol of the Newton loop (success only below tolerance, fresh stamps, limiting, failure detection)."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.net import build

PROP = "C07"
BOUND = ("the real Newton loop driven by a scripted stamper: every residual script of <=5 iterations over {below, just above, large, "
         "not a number solve} x iteration budgets 1..5 x 3 homotopy factors; every trend script over 2 blocks of 50 iterations; the real loop with the real stamps "
         "and limiter on every branch x device network of two buses and 18 of three from 5 starts, limited or not, with and without L2 infeasibility; the real "
         "voltage limiter on every proposal/previous grid of 9x9 values for the 4 bus entries of a 2-bus network")
ASSUMPTIONS = ["the loop observes residuals only through the largest entry"]

TOL = 1e-5
RES = {"b": 0.4e-5, "n": 1.7e-5, "L": 3.0, "x": None}


def cases(tier):
    d = 6 if tier == "thorough" else 5
    for n in range(1, d + 1):
        for scr in itertools.product("bnLx", repeat=n):
            # scripts are prefix-closed: stop at the first terminating symbol
            if any(c in "bx" for c in scr[:-1]):
                continue
            for tx in (0.0, 0.3, 1.0):
                for lim in (False, True):
                    for budget in ([n] if scr[-1] in "bx" else []) + [d]:
                        yield {"k": "loop", "scr": "".join(scr), "tx": tx, "lim": lim, "budget": budget}
                    if scr[-1] not in "bx":
                        yield {"k": "loop", "scr": "".join(scr), "tx": tx, "lim": lim, "budget": n}
    for a, b in itertools.product(("up", "down", "flat", "zig"), repeat=2):
        for end in ("none", "b49", "b50", "b75"):
            for budget in (50, 60, 101):
                yield {"k": "trend", "a": a, "b": b, "end": end, "budget": budget}
    for b, d in itertools.product(grids.TX_BRANCH, [x for x in grids.TX_DEV if x != "none"]):
        for start in STARTS:
            for lim in (True, False):
                for opt in (None, "L2"):
                    for tx in (0.0, 0.4) if opt is None else (0.0,):
                        yield {"k": "real", "net": [2, [[b, 1, 2]], {2: d}], "start": start, "lim": lim, "opt": opt, "tx": tx}
    for b, d in itertools.product(("line", "shift"), itertools.product(("pq", "zip", "pv"), repeat=2)):
        for start in STARTS:
            for lim in (True, False):
                yield {"k": "real", "net": [3, [[b, 1, 2], ["tap", 2, 3]], {2: d[0], 3: d[1]}], "start": start, "lim": lim, "opt": None, "tx": 0.0}
    V = [-3.0, -2.0, -1.2, -0.4, 0.0, 0.9, 1.0, 1.7, 2.6]
    for p in V:
        yield {"k": "limit", "prev": p, "grid": V}


class Resid:
    def __init__(self, n, value):
        self.residuals = np.zeros(n)
        self.residuals[0] = value
        self.max_residual = value
        self.max_residual_idx = 0
        self.residual_contributions = []


class Stamper:
    """v_next is chosen by the script: Y = diag(2 + i), nonlinear stamps add i+1 to the diagonal"""

    def __init__(self, n, prop, res):
        self.n, self.prop, self.res = n, prop, res
        self.lin, self.non, self.rsd = [], [], []

    def stamp_linear(self, Y, J, tx_factor):
        self.lin.append(float(tx_factor))
        for k in range(self.n):
            Y.stamp(k, k, 2.0 + k)
            J[k] += 0.25

    def stamp_nonlinear(self, Y, J, v_prev, iteration_num):
        i = len(self.non)
        self.non.append((np.copy(v_prev), np.copy(J), Y.get_usage()))
        t = self.prop(i)
        for k in range(self.n):
            if t is not None and (i + k) % 3 != 2:   # some entries are absent in some iterations
                Y.stamp(k, k, 1.0 + i)
                J[k] += (3.0 + k + i) * t[k] - 0.25
            else:
                J[k] += (2.0 + k) * (t[k] if t is not None else float("nan")) - 0.25

    def calc_residuals(self, tx_factor, v_result, iteration_num):
        i = len(self.rsd)
        self.rsd.append((float(tx_factor), np.copy(v_result)))
        return Resid(self.n, self.res(i))


def prop_of(n):
    def f(i):
        return np.array([1.0 + 0.4 * ((-1) ** (i + k)) + 0.05 * i + 0.01 * k for k in range(n)])
    return f


class Limit:
    def __init__(self):
        self.calls = []

    def apply_limiting(self, v_next, v_previous):
        self.calls.append((np.copy(v_next), np.copy(v_previous)))
        return v_next * 0.5 + 0.25


def base_net():
    net, B, objs = build(grids.tx_spec(2, [("line", 1, 2)], {2: "pq"}))
    net.assign_matrix()
    return net, B


def drive(case, net, res, prop, budget, tx, lim):
    from logic.nrsolver import NRSolver
    st = asm.settings(tolerance=TOL, max_iters=budget)
    s = Stamper(net.size_Y, prop, res)
    v0 = np.array([0.7 + 0.02 * k for k in range(net.size_Y)])
    keep = np.copy(v0)
    r = attempt(lambda: NRSolver(st, net, lim).run_powerflow(s, v0, tx))
    return r, s, keep, v0


def loop(case, out):
    net, B = base_net()
    n = net.size_Y
    scr = case["scr"]
    base = prop_of(n)

    def prop(i):
        if i < len(scr) and scr[i] == "x":
            return None
        return base(i)

    def res(i):
        c = scr[i] if i < len(scr) else "L"
        return RES[c] if c != "x" else 1.0
    lim = Limit() if case["lim"] else None
    r, s, keep, v0 = drive(case, net, res, prop, case["budget"], case["tx"], lim)
    out.step(len(s.non))
    what = f"residual script {scr!r}, budget {case['budget']}, factor {case['tx']}, limiting {case['lim']}"
    full = (scr + "L" * 20)[:case["budget"]]
    stop = next((k for k, c in enumerate(full) if c in "bx"), None)
    for k in range(len(s.non)):
        out.state(full[:k + 1], case["tx"], case["lim"], case["budget"])
    out.outcome = (full if stop is None else full[:stop + 1], case["lim"])
    if not np.array_equal(v0, keep):
        out.bad("init", f"{what}: the caller's initial state was modified")
    if stop is not None and full[stop] == "x":
        if r[0] == "ok":
            out.bad("nan", f"{what}: the linear solve produced no numbers at iteration {stop}, yet the solver returned {r[1][0]}")
        return
    if r[0] == "err":
        out.bad("raised", f"{what}: {r[1]}")
        return
    ok, v, it = r[1]
    last = stop if stop is not None else case["budget"] - 1
    if len(s.non) != last + 1 or len(s.rsd) != last + 1:
        out.bad("stop", f"{what}: {len(s.non)} Newton steps and {len(s.rsd)} residual evaluations instead of {last + 1}")
        return
    if bool(ok) != (stop is not None):
        out.bad("success", f"{what}: success={ok}")
    if it != last:
        out.bad("iteration", f"{what}: reported iteration {it} instead of {last}")
    if any(abs(t - case["tx"]) > 1e-12 for t in s.lin) or not s.lin:
        out.bad("factor", f"{what}: linear stamps used factors {s.lin}")
    cur = keep
    for i in range(last + 1):
        vp, J, use = s.non[i]
        if not np.allclose(vp, cur, rtol=0, atol=1e-9):
            out.bad("linearise", f"{what}: iteration {i} was linearised at {vp.tolist()} instead of the previous iterate {cur.tolist()}")
            return
        t = base(i)
        if not np.allclose(J, 0.25, rtol=0, atol=1e-12) or use != n:
            out.bad("fresh", f"{what}: iteration {i} does not start from the linear stamps alone (J={J.tolist()}, {use} matrix entries)")
            return
        txr, vr = s.rsd[i]
        if not np.allclose(vr, t, rtol=0, atol=1e-9) or abs(txr - case["tx"]) > 1e-12:
            out.bad("solve", f"{what}: residual {i} was evaluated at {vr.tolist()} (factor {txr}) instead of the solution of the linear system {t.tolist()}")
            return
        cur = t * 0.5 + 0.25 if case["lim"] else t
    want = base(last)
    if stop is not None and not np.allclose(v, want, rtol=0, atol=1e-9):
        out.bad("state", f"{what}: returned {np.asarray(v).tolist()} instead of the converged iterate {want.tolist()}")
    if stop is None and not np.allclose(v, cur, rtol=0, atol=1e-9) and not np.allclose(v, want, rtol=0, atol=1e-9):
        out.bad("state", f"{what}: returned {np.asarray(v).tolist()}, not the last iterate")


def trend(case, out):
    net, B = base_net()
    n = net.size_Y

    def block(kind, i, lo):
        return {"up": lo + 0.1 * i, "down": lo + 10 - 0.1 * i, "flat": lo + 5.0 - 1e-3 * i, "zig": lo + 3 + (i % 2) - 0.02 * i}[kind]

    def res(i):
        if case["end"] == "b49" and i == 48 or case["end"] == "b50" and i == 49 or case["end"] == "b75" and i == 74:
            return 0.3e-5
        return block(case["a"], i, 20) if i < 50 else block(case["b"], i - 50, 40 if case["b"] == "up" else 1)
    r, s, keep, v0 = drive(case, net, res, prop_of(n), case["budget"], 0.0, None)
    what = f"residual trend {case['a']} then {case['b']}, converging at {case['end']}, budget {case['budget']}"
    out.step(len(s.non))
    for k in range(0, len(s.non), 10):
        out.state("trend", case["a"], case["b"] if k >= 50 else "", case["end"], case["budget"], k)
    if r[0] == "err":
        out.bad("trend-raised", f"{what}: {r[1]}")
        return
    ok, v, it = r[1]
    hist = [res(i) for i in range(case["budget"])]
    conv = next((i for i, x in enumerate(hist) if x < TOL), None)
    bail = None
    for m in range(50, case["budget"] + 1, 50):
        x = np.arange(m)
        if np.polyfit(x, np.array(hist[:m]), 1)[0] > 1e-9:
            bail = m - 1
            break
    out.outcome = (bool(ok), it)
    if conv is not None and (bail is None or conv <= bail):
        if not ok or it != conv:
            out.bad("trend", f"{what}: the iterate at {conv} is below the tolerance but the solver answered success={ok} at iteration {it}")
        return
    if ok:
        out.bad("trend", f"{what}: success reported at iteration {it} although no residual was below the tolerance")
    # giving up early is only legitimate when the residual is not decreasing
    if it < case["budget"] - 1 and bail is None:
        out.bad("giveup", f"{what}: gave up at iteration {it} of {case['budget']} although the residual was decreasing")
    if it > case["budget"] - 1:
        out.bad("budget", f"{what}: {it + 1} iterations exceed the budget")


def limit(case, out):
    from logic.v_limiting import PositiveSeqVoltageLimiting
    net, B = base_net()
    n = net.size_Y
    bus = sorted(i for b in B.values() for i in (b.node_Vr, b.node_Vi))
    lim = PositiveSeqVoltageLimiting(net)
    for vals in itertools.product(case["grid"], repeat=3):
        prev = np.array([case["prev"] + 0.01 * k for k in range(n)])
        nxt = np.array([4.4 + k for k in range(n)])
        for k, i in enumerate(bus):
            nxt[i] = vals[k % 3]
            prev[i] = min(2.0, max(-2.0, prev[i]))
        a, p = np.copy(nxt), np.copy(prev)
        r = attempt(lambda: lim.apply_limiting(a, p))
        out.step()
        if r[0] == "err":
            out.bad("limit-raised", r[1])
            return
        got = np.asarray(r[1])
        out.state("limit", case["prev"], vals)
        for i in range(n):
            if i in bus:
                want = max(-2.0, min(2.0, prev[i] + max(-1.0, min(1.0, nxt[i] - prev[i]))))
            else:
                want = nxt[i]
            if abs(got[i] - want) > 1e-9:
                out.bad("limit", f"previous {prev[i]}, proposed {nxt[i]} ({'voltage' if i in bus else 'other unknown'}): limited to {got[i]}, expected {want}")
                return
    # a limiter survives a re-assignment of the unknowns
    net2, B2 = base_net()
    lim2 = PositiveSeqVoltageLimiting(net2)
    lim2.apply_limiting(np.full(net2.size_Y, 0.5), np.full(net2.size_Y, 0.4))
    from models.components.bus import Bus
    from models.components.shunt import Shunt
    b3 = Bus(7, 1, 1.0, 0.0, None, "b7", "NA")
    net2.buses.insert(0, b3)
    net2.assign_matrix()
    big = np.full(net2.size_Y, 9.0)
    got = lim2.apply_limiting(np.copy(big), np.full(net2.size_Y, 1.5))
    vb = {i for b in net2.buses for i in (b.node_Vr, b.node_Vi)}
    for i in range(net2.size_Y):
        want = 2.0 if i in vb else 9.0
        if abs(got[i] - want) > 1e-9:
            out.bad("limit-stale", f"after a bus was added and the unknowns were re-assigned, entry {i} was limited to {got[i]}, expected {want}")
            return
    out.outcome = ("limit", case["prev"])


STARTS = {"flat": (1.0, 0.0, 0.0), "low": (0.12, 0.05, 0.0), "back": (-0.9, 0.3, 0.4), "far": (1.9, -1.8, -3.0), "past": (2.7, -0.2, 1.0)}


class Recorder:
    """A real stamper whose calls are recorded: the point of every linearisation, the system it gave and the point of every residual."""

    def __init__(self, inner, n):
        self.inner, self.n = inner, n
        self.sys, self.pts = [], []

    def stamp_linear(self, Y, J, tx_factor):
        return self.inner.stamp_linear(Y, J, tx_factor)

    def stamp_nonlinear(self, Y, J, v_prev, iteration_num):
        at = np.copy(v_prev)
        r = self.inner.stamp_nonlinear(Y, J, v_prev, iteration_num)
        self.sys.append((at, asm.dense(Y, self.n), np.copy(J)))
        return r

    def calc_residuals(self, tx_factor, v_result, iteration_num):
        self.pts.append(np.copy(v_result))
        return self.inner.calc_residuals(tx_factor, v_result, iteration_num)


def real(case, out):
    """the real loop, the real stamps and the real limiter: every linear system solved is the network linearised at the limited previous iterate"""
    from logic.nrsolver import NRSolver
    from logic.stamping.matrixstamper import build_matrix_stamper
    from logic.v_limiting import PositiveSeqVoltageLimiting
    nb, br, dv = case["net"]
    spec = grids.tx_spec(nb, [tuple(b) for b in br], {int(k): v for k, v in dv.items()})
    net, B, objs = build(spec, opt=case["opt"])
    net.assign_matrix()
    n = net.size_Y
    rec = Recorder(build_matrix_stamper(net), n)
    re, im, aux = STARTS[case["start"]]
    v0 = np.array([aux + 0.01 * k for k in range(n)])
    for b in B.values():
        v0[b.node_Vr], v0[b.node_Vi] = re, im
    keep = np.copy(v0)
    st = asm.settings(tolerance=1e-6, max_iters=12)
    lim = PositiveSeqVoltageLimiting(net) if case["lim"] else None
    r = attempt(lambda: NRSolver(st, net, lim).run_powerflow(rec, v0, case["tx"]))
    what = f"{case}"
    out.step(len(rec.sys))
    bus = sorted(i for b in B.values() for i in (b.node_Vr, b.node_Vi))
    w = keep
    for i, (at, Y, J) in enumerate(rec.sys):
        if not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1e7:
            break
        if not np.allclose(at, w, rtol=1e-9, atol=1e-9):
            out.bad("real-point", f"{what}: iteration {i} was linearised at {at.tolist()} instead of {w.tolist()}")
            return
        fresh = build_matrix_stamper(net)
        Yf, Jf = asm.stamp_system(net, fresh, np.copy(w), case["tx"], i)
        if not (asm.close(Y, Yf) and asm.close(J, Jf)):
            out.bad("real-system", f"{what}: the linear system of iteration {i} is not the network linearised at the limited previous iterate {w.tolist()}"
                                   f" (largest difference {max(np.max(np.abs(Y - Yf)), np.max(np.abs(J - Jf))):.3g})")
            return
        if i >= len(rec.pts):
            break
        x = rec.pts[i]
        if np.all(np.isfinite(x)) and np.max(np.abs(Y @ x - J)) > 1e-7 * (np.max(np.abs(Y)) * np.max(np.abs(x)) + np.max(np.abs(J)) + 1):
            out.bad("real-solve", f"{what}: iteration {i} moved to {x.tolist()}, which does not solve its linear system")
            return
        nxt = np.copy(x)
        if case["lim"]:
            for k in bus:
                nxt[k] = max(-2.0, min(2.0, w[k] + max(-1.0, min(1.0, x[k] - w[k]))))
        out.state("real", case["net"], case["start"], case["lim"], case["opt"], case["tx"], i, np.array_equal(nxt, x))
        w = nxt
    if not np.array_equal(v0, keep):
        out.bad("real-init", f"{what}: the caller's initial state was modified")
    if r[0] == "ok":
        ok, v, it = r[1]
        if ok:
            # the returned state, judged by a stamper of its own
            got = build_matrix_stamper(net)
            asm.stamp_system(net, got, np.copy(v), case["tx"], 0)
            if not np.max(np.abs(got.calc_residuals(case["tx"], np.copy(v), 0).max_residual)) < 1e-6:
                out.bad("real-residual", f"{what}: success at a state whose residual is {got.calc_residuals(case['tx'], np.copy(v), 0).max_residual}")
        out.outcome = ("real", bool(ok), it)
    else:
        out.outcome = ("real", "err")


def run_case(case):
    out = Out()
    {"loop": loop, "trend": trend, "limit": limit, "real": real}[case["k"]](case, out)
    return out
