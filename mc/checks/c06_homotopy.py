"""C06: the homotopy walks from the relaxed to the true problem and reports exactly what it achieved."""
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.net import build

PROP = "C06"
BOUND = ("the real homotopy controller driven by a scripted solver: every combination of (direct attempt solves or fails) x (homotopy "
         "enabled or not) x (every possible first failing homotopy step 0..100, or none) x 3 networks (one with optimisation) x "
         "2 iteration-count scripts; plus the real solver on a family of stressed networks at every step of the walk")
ASSUMPTIONS = ["the scripted solver obeys the solver protocol checked in C07"]


def nets():
    return [("tx", grids.tx_spec(2, [("line", 1, 2)], {2: "pq"}), None), ("txo", grids.tx_spec(2, [("tap", 1, 2)], {2: "zip"}), "L2"),
            ("dx", grids.DxBuilder().add("uline").load("z").spec(), None)]


def cases(tier):
    for k in range(3):
        for direct in (True, False):
            for tx in (True, False):
                for it in (0, 1):
                    yield {"net": k, "direct": direct, "tx": tx, "fail": None, "it": it}
        for f in range(0, 101):
            for it in (0, 1):
                yield {"net": k, "direct": False, "tx": True, "fail": f, "it": it}


class Script:
    """a solver that follows a script; every answer is a distinguishable vector"""

    def __init__(self, network, case):
        self.network = network
        self.case = case
        self.calls = []
        self.expired = False

    def run_powerflow(self, matrix_stamper, v_init, tx_factor):
        n = len(self.calls)
        if n == 0:
            ok = self.case["direct"]
        else:
            ok = self.case["fail"] is None or n - 1 < self.case["fail"]
        it = 3 if self.case["it"] == 0 else (7 * n) % 11
        v = np.array([1.0 + 0.001 * (n + 1) + 0.0003 * k for k in range(len(v_init))])
        self.calls.append((np.copy(v_init), float(tx_factor), ok, np.copy(v), it))
        if n > 400:
            raise RuntimeError("endless homotopy")
        return (ok, v, it)


def run_case(case):
    from logic.homotopycontroller import HomotopyController
    out = Out()
    name, spec, opt = nets()[case["net"]]
    net, B, objs = build(spec, opt=opt)
    net.assign_matrix()
    settings = asm.settings(tx_stepping=case["tx"])
    v0 = net.generate_v_init(settings)
    keep = np.copy(v0)
    s = Script(net, case)
    r = attempt(lambda: HomotopyController(settings, net, s).run_powerflow(v0))
    out.step(len(s.calls))
    out.outcome = (case["direct"], case["tx"], case["fail"], len(s.calls))
    what = f"direct={'solves' if case['direct'] else 'fails'} homotopy={case['tx']} first failing step={case['fail']}"
    if r[0] == "err":
        out.bad("raised", f"{what}: {r[1]}")
        return out
    ok, v, iters, tx, resid = r[1]
    calls = s.calls
    for n, c in enumerate(calls):
        out.state(case["net"], case["direct"], case["tx"], case["fail"], n, c[1], c[2])
    if not calls or abs(calls[0][1]) > 1e-12 or not np.array_equal(calls[0][0], keep):
        out.bad("direct", f"{what}: the first attempt is not the true problem from the initial state: {calls[:1]}")
        return out
    if not np.array_equal(v0, keep):
        out.bad("init", f"{what}: the caller's initial state was modified")
    walk = calls[1:]
    if case["direct"] or not case["tx"]:
        if walk:
            out.bad("walk", f"{what}: homotopy was run although not needed or not enabled ({len(walk)} steps)")
            return out
    else:
        if not walk:
            out.bad("walk", f"{what}: no homotopy was run")
            return out
        f = [c[1] for c in walk]
        if abs(f[0] - 1) > 1e-9:
            out.bad("walk", f"{what}: the walk starts at factor {f[0]}")
        if not np.array_equal(walk[0][0], keep):
            out.bad("warm", f"{what}: the walk does not start from the initial state")
        for a, b in zip(walk, walk[1:]):
            if not (b[1] < a[1] - 1e-9) or a[1] - b[1] > 0.1 + 1e-9 or b[1] < -1e-12:
                out.bad("walk", f"{what}: factors are not a fine strictly decreasing walk to zero: {a[1]} then {b[1]}")
                break
            if not a[2]:
                out.bad("walk", f"{what}: the walk continued after a failed step at {a[1]}")
                break
            if not np.array_equal(b[0], a[3]):
                out.bad("warm", f"{what}: the step at factor {b[1]} does not start from the solution at factor {a[1]}")
                break
        if walk[-1][2] and abs(walk[-1][1]) > 1e-12:
            out.bad("walk", f"{what}: the walk stopped at factor {walk[-1][1]} although the step succeeded")
    last = calls[-1]
    good = last[2] and abs(last[1]) < 1e-12
    if bool(ok) != bool(good):
        out.bad("success", f"{what}: success={ok} but the last step at factor {last[1]} {'succeeded' if last[2] else 'failed'}")
    if not np.array_equal(v, last[3]):
        out.bad("state", f"{what}: the returned state is not the one of the last step")
    if good and abs(tx) > 1e-12 or (not walk and abs(tx) > 1e-12):
        out.bad("factor", f"{what}: reported remaining factor {tx}, the true problem was solved")
    if walk and not good and abs(tx - last[1]) > 1e-9:
        out.bad("factor", f"{what}: reported remaining factor {tx}, the walk stopped at {last[1]}")
    from logic.stamping.matrixstamper import build_matrix_stamper
    want = build_matrix_stamper(net).calc_residuals(0, last[3], 0).residuals
    if not np.allclose(resid.residuals, want, rtol=1e-9, atol=1e-9):
        out.bad("residual", f"{what}: the reported residual is not the one of the true problem at the returned state")
    if not iters >= 0 or (iters == 0 and last[4] > 0):
        out.bad("iterations", f"{what}: reported iterations {iters}")
    return out
