"""C09: regulator taps stay within their limits and the solved turn ratio always follows the tap."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm
from mc.ref import physics
from mc.net import build, aux_layout

PROP = "C09"
BOUND = ("every sequence of <=4 (thorough 5) tap increments over {-5,-1,0,+1,+3} from every initial tap of {below, at, inside, above the limits} x 2 limit "
         "pairs x types A and B x 2 step sizes; after every step the tap, the reported change and the assembled equations are compared "
         "with the clamp-and-ratio reference")
ASSUMPTIONS = ["increments other than those of the alphabet behave alike"]
INC = (-5, -1, 0, 1, 3)


def cases(tier):
    for typ in "AB":
        for up, lo in ((16, 16), (4, 6)):
            for tap in sorted({-lo - 3, -lo, -lo + 1, -1, 0, 2, up - 1, up, up + 5}):
                for step in (0.00625, 0.0125):
                    yield {"typ": typ, "up": up, "lo": lo, "tap": tap, "step": step, "n": 5 if tier == "thorough" else 4}


def run_case(case):
    out = Out()
    out.traces = 0
    spec0 = {"kind": "dx", "buses": [{"id": i, "V": 1.0, "ang": 0.0, "name": f"n{i}", "phase": "A"} for i in (1, 2, 3)],
             "els": [["reg", 1, 2, 3, case["tap"], case["step"], case["typ"], case["up"], case["lo"]]]}
    x = asm.point(spec0, (0, 1, 2))
    cache = {}

    def want(tap):
        if tap not in cache:
            s = {"kind": "dx", "buses": spec0["buses"], "els": [list(spec0["els"][0])]}
            s["els"][0][4] = tap
            cache[tap] = (physics.evalF(s, x), physics.jacF(s, x))
        return cache[tap]
    for n in range(case["n"] + 1):
        for seq in itertools.product(INC, repeat=n):
            out.traces += 1
            net, B, objs = build(spec0)
            reg = objs[0]
            tap = max(-case["lo"], min(case["up"], case["tap"]))
            what = f"type {case['typ']}, limits -{case['lo']}..{case['up']}, initial tap {case['tap']}, step {case['step']}, increments {list(seq)}"
            if reg.tap_position != tap:
                out.bad("initial", f"{what}: initial tap {reg.tap_position}, expected {tap}")
                return out
            for k in seq:
                r = attempt(lambda: reg.try_increment_tap_position(k))
                new = max(-case["lo"], min(case["up"], tap + k))
                out.step()
                if r[0] == "err":
                    out.bad("raised", f"{what}: {r[1]}")
                    return out
                if reg.tap_position != new:
                    out.bad("clamp", f"{what}: tap {reg.tap_position}, expected {new}")
                    return out
                if bool(r[1]) != (new != tap):
                    out.bad("changed", f"{what}: reported change {r[1]} for {tap} -> {new}")
                    return out
                tap = new
                out.state(case["typ"], case["up"], case["lo"], case["step"], tap)
            from logic.stamping.matrixstamper import build_matrix_stamper
            net.assign_matrix()
            st = build_matrix_stamper(net)
            lay = aux_layout(net, B, spec0, objs)
            idx = asm.layout_vec(spec0, lay)
            F, J = want(tap)
            v = np.zeros(net.size_Y)
            v[idx] = x
            A, b = asm.stamp_system(net, st, v, 0.0)
            R = np.zeros(net.size_Y)
            R[idx] = F
            M = np.zeros_like(A)
            M[np.ix_(idx, idx)] = J
            if not asm.close(A, M) or not asm.close(st.calc_residuals(0, v, 0).residuals, R):
                out.bad("ratio", f"{what}: the equations do not use the turn ratio of tap {tap}")
                return out
    out.outcome = (case["typ"], case["tap"], len(out.states))
    return out


def prepare():
    run_case({"typ": "A", "up": 16, "lo": 16, "tap": 2, "step": 0.00625, "n": 0})
