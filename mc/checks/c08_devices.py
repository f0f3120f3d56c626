"""C08: a reported solution is consistent with every automatic device; device rounds are bounded."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm
from mc.ref import physics
from mc.net import build, aux_layout

PROP = "C08"
BOUND = ("the real device controller with real capacitors (voltage mode, manual) and fuses driven by a scripted solver: every sequence of <=4 (thorough 5) "
         "solver answers over {solved, failed} x voltage {low, mid, high} x current {under, over}, then settling or oscillating for ever, "
         "x initial voltage x control on/off; plus end-to-end solves of feeders with a voltage-controlled capacitor over a grid of "
         "thresholds, compared with a reference device automaton over reference Newton solutions, and fuses over a grid of limits; GLM feeders with "
         "voltage-controlled capacitors over a 12 x 12 grid of thresholds (and missing thresholds), the solution compared with every assignment of capacitor states")
ASSUMPTIONS = ["regulators hold their tap (automatic tap changing is disabled in the tool)",
               "capacitor switching direction is the one pinned by the repository's tests: closes above the high threshold, opens below the low threshold"]

VAL = {"l": 0.8, "m": 1.0, "h": 1.2}
SYM = [(v, c, True) for v in "lmh" for c in "uo"] + [("m", "u", False), ("h", "o", False)]


def cases(tier):
    n = 5 if tier == "thorough" else 4
    for vi in "lmh":
        for control in (True, False):
            for mode in ("VOLT", "MANUAL"):
                for tail in ("settle", "osc"):
                    for first in range(len(SYM)):
                        yield {"k": "script", "vi": vi, "control": control, "mode": mode, "tail": tail, "first": first, "n": n}
    for vi, n_dev in itertools.product("lmh", (2, 3)):
        for pat in itertools.product("lmh", repeat=n_dev):
            yield {"k": "multi", "vi": vi, "pat": list(pat)}
    th = [2280.0, 2300.0, 2320.0, 2340.0, 2360.0, 2380.0, 2400.0, 2420.0, 2440.0]
    for lo, hi in itertools.product(th, th):
        if lo <= hi:
            for load in ("wye", "z"):
                for ctl in (True, False):
                    yield {"k": "e2e", "lo": lo, "hi": hi, "load": load, "ctl": ctl}
    for lim in (0.5, 5.0, 20.0, 40.0, 60.0, 80.0, 100.0, 150.0, 1000.0):
        for load in ("wye", "z", "i"):
            yield {"k": "fuse", "lim": lim, "load": load}
    yield from glm_cases()


def small():
    ph = ["A"]
    spec = {"kind": "dx", "buses": [{"id": 1, "V": 1.0, "ang": 0.0, "name": "s", "phase": "A"},
                                    {"id": 2, "V": 1.0, "ang": 0.0, "name": "t", "phase": "A"},
                                    {"id": 3, "V": 1.0, "ang": 0.0, "name": "f", "phase": "A", "virt": True}],
            "els": [["slack", 1, 1.0, 0.0], ["fuse", 1, 2, 3, 10.0], ["cap", 2, 0.1, 1.0, "CLOSED"]]}
    return spec


class Solver:
    def __init__(self, net):
        self.network = net


class Homotopy:
    """answers from a script; records the device states it was called with"""

    def __init__(self, net, answer):
        self.nrsolver = Solver(net)
        self.network = net
        self.answer = answer
        self.calls = []

    def run_powerflow(self, v_init):
        k = len(self.calls)
        if k > 60:
            raise RuntimeError("endless device rounds")
        ok, v = self.answer(k, v_init)
        self.calls.append((np.copy(v_init), ok, np.copy(v)))
        return (ok, v, 1, 0, None)


def cap_of(net):
    return net.capacitors[0]


def script(case, out):
    out.traces = 0
    for rest in itertools.product(range(len(SYM)), repeat=case["n"] - 1):
        seq = [SYM[case["first"]]] + [SYM[k] for k in rest]
        if any(not s[2] for s in seq[:-1]):
            continue            # nothing follows a failed solve
        out.traces += 1
        if not script1(case, seq, out):
            return
    out.outcome = (case["vi"], case["control"], case["mode"], case["tail"], len(out.states))


def script1(case, seq, out):
    from logic.devicecontroller import DeviceController
    from models.components.capacitor import CapacitorMode, CapSwitchState
    from models.components.fuse import FuseStatus
    spec = small()
    spec["buses"][1]["V"] = VAL[case["vi"]]
    net, B, objs = build(spec)
    cap, fuse = objs[2], objs[1]
    cap.mode, cap.low_voltage, cap.high_voltage = CapacitorMode[case["mode"]], 0.9, 1.1
    net.assign_matrix()
    lay = aux_layout(net, B, spec, objs)
    bi, ci = lay[("V", 2)], lay[("I", 1)]

    def sym(k):
        if k < len(seq):
            return seq[k]
        if case["tail"] == "settle":
            return ("m", "u", True)
        return ("l" if (k - len(seq)) % 2 == 0 else "h", "u", True)

    def answer(k, v0):
        v, c, ok = sym(k)
        x = np.array([0.3 + 0.01 * i + 0.1 * k for i in range(len(v0))])
        x[bi[0]], x[bi[1]] = VAL[v] * 0.6, -VAL[v] * 0.8
        mag = 30.0 if c == "o" else 5.0
        x[ci[0]], x[ci[1]] = -mag * 0.8, mag * 0.6
        return ok, x
    h = Homotopy(net, answer)
    r = attempt(lambda: DeviceController(asm.settings(device_control=case["control"]), h).run_powerflow())
    # reference automaton
    C, F = "CLOSED", "GOOD"

    def adjust(v, over):
        nonlocal C, F
        ch = False
        if case["mode"] == "VOLT":
            if v == "h" and C == "OPEN":
                C, ch = "CLOSED", True
            elif v == "l" and C == "CLOSED":
                C, ch = "OPEN", True
        if over and F == "GOOD":
            F, ch = "BLOWN", True
        return ch
    if case["control"]:
        adjust(case["vi"], False)
    rounds, result = 0, None
    trail = []
    while rounds < 40:
        v, c, ok = sym(rounds)
        rounds += 1
        if not ok:
            result = "failed"
            break
        if not case["control"] or not adjust(v, c == "o"):
            result = "solved"
            break
        trail.append((C, F))
    what = f"initial {case['vi']}, control {case['control']}, mode {case['mode']}, answers {seq} then {case['tail']}"
    out.step(len(h.calls))
    out.state(case["vi"], case["control"], case["mode"], trail, result, rounds)
    v_init = np.copy(h.calls[0][0]) if h.calls else None
    if h.calls:
        m = abs(complex(v_init[bi[0]], v_init[bi[1]]))
        if abs(m - VAL[case["vi"]]) > 1e-9 or any(not np.array_equal(c[0], v_init) for c in h.calls):
            out.bad("start", f"{what}: a round does not start from the network's initial state")
            return False
    if result is None:
        if r[0] == "ok":
            out.bad("oscillation", f"{what}: devices never settle, yet a result is reported after {len(h.calls)} solves")
            return False
        return True
    if r[0] == "err":
        if rounds > 8:
            return True        # round budget
        out.bad("raised", f"{what}: {r[1]}")
        return False
    if len(h.calls) != rounds:
        out.bad("rounds", f"{what}: {len(h.calls)} solves, the devices need {rounds}")
        return False
    ok, v = r[1][0], r[1][1]
    if bool(ok) != (result == "solved") or not np.array_equal(v, h.calls[-1][2]):
        out.bad("result", f"{what}: reported success={ok}, the last solve {result}")
        return False
    got = (cap.switch.value, fuse.status.value)
    if got != (C, F):
        out.bad("state", f"{what}: devices end as {got}, expected {(C, F)}")
        return False
    return True


def multi(case, out):
    """several capacitors: every one is adjusted in the same round"""
    from logic.devicecontroller import DeviceController
    from models.components.capacitor import CapacitorMode
    n = len(case["pat"])
    spec = {"kind": "dx", "buses": [{"id": i + 1, "V": VAL[case["vi"]], "ang": 0.0, "name": f"n{i}", "phase": "A"} for i in range(n)],
            "els": [["slack", 1, 1.0, 0.0]] + [["cap", i + 1, 0.1, 1.0, "OPEN" if i % 2 else "CLOSED"] for i in range(n)]}
    net, B, objs = build(spec)
    caps = objs[1:]
    for c in caps:
        c.mode, c.low_voltage, c.high_voltage = CapacitorMode.VOLT, 0.9, 1.1
    net.assign_matrix()
    lay = aux_layout(net, B, spec, objs)

    def answer(k, v0):
        x = np.zeros(len(v0))
        for i in range(n):
            a, b = lay[("V", i + 1)]
            x[a], x[b] = 0.0, VAL[case["pat"][i]]
        return True, x
    h = Homotopy(net, answer)
    r = attempt(lambda: DeviceController(asm.settings(), h).run_powerflow())
    st = ["OPEN" if i % 2 else "CLOSED" for i in range(n)]

    def adj(vs):
        ch = False
        for i, v in enumerate(vs):
            new = {"h": "CLOSED", "l": "OPEN", "m": st[i]}[v]
            ch |= new != st[i]
            st[i] = new
        return ch
    adj([case["vi"]] * n)
    need = 2 if adj(case["pat"]) else 1
    out.step(len(h.calls))
    out.state(case)
    out.outcome = ("multi", tuple(st), need)
    what = f"{n} capacitors, initial {case['vi']}, solved voltages {case['pat']}"
    if r[0] == "err":
        out.bad("multi-raised", f"{what}: {r[1]}")
        return
    if [c.switch.value for c in caps] != st or len(h.calls) != need:
        out.bad("multi", f"{what}: capacitors {[c.switch.value for c in caps]} after {len(h.calls)} solves, expected {st} after {need}")


def feeder(case, cap=True):
    from mc.grids import DxBuilder, PH
    b = DxBuilder()
    b.add("uline")
    b.add("fuse")
    b.load(case["load"])
    if cap:
        for p in PH:
            b.els.append(["cap", b.cur[p], 250000.0, b.vnom, "CLOSED"])
    return b


def refsolve(spec):
    x = []
    V = {q["id"]: q["V"] * np.exp(1j * q["ang"]) for q in spec["buses"]}
    for k in physics.unknowns(spec):
        z = V[k[1]] if k[0] == "V" else 0
        z = complex(z)
        x.append(z.real if k[-1] == 0 else z.imag)
    x = np.array(x)
    for _ in range(30):
        F = physics.evalF(spec, x)
        if np.max(np.abs(F)) < 1e-6:
            return x
        x = x - np.linalg.solve(physics.jacF(spec, x), F)
    return None


def e2e(case, out):
    from logic.powerflow import PowerFlow
    from models.components.capacitor import CapacitorMode
    from mc.grids import PH
    b = feeder(case)
    spec = b.spec()
    net, B, objs = build(spec)
    for o in net.capacitors:
        o.mode, o.low_voltage, o.high_voltage = CapacitorMode.VOLT, case["lo"], case["hi"]
    r = attempt(lambda: PowerFlow(net, asm.settings(device_control=case["ctl"])).execute())
    ks = physics.unknowns(spec)
    caps = [k for k, e in enumerate(spec["els"]) if e[0] == "cap"]
    st = {k: "CLOSED" for k in caps}
    what = f"thresholds {case['lo']}..{case['hi']} V, load {case['load']}, control {case['ctl']}"

    def adj(mag):
        ch = False
        for k in caps:
            m = mag(spec["els"][k][1])
            new = "CLOSED" if m > case["hi"] else "OPEN" if m < case["lo"] else st[k]
            if new != st[k]:
                st[k], ch = new, True
        return ch
    if case["ctl"]:
        adj(lambda i: b.buses[i - 1]["V"])
    sol = None
    trail = []
    for rnd in range(12):
        for k in caps:
            spec["els"][k][4] = st[k]
        x = refsolve(spec)
        V = {}
        for key, val in zip(ks, x):
            if key[0] == "V":
                V.setdefault(key[1], [0, 0])[key[2]] = val
        trail.append(tuple(st.values()))
        if not case["ctl"] or not adj(lambda i: abs(complex(*V[i]))):
            sol = V
            break
    out.step(len(trail))
    out.state(case, trail)
    out.outcome = (len(trail), trail[-1], sol is not None)
    if sol is None:
        if r[0] == "ok":
            out.bad("e2e-oscillation", f"{what}: the capacitors never settle, yet a solution is reported")
        return
    if r[0] == "err":
        out.bad("e2e-raised", f"{what}: {r[1]}")
        return
    res = r[1]
    got = [o.switch.value for o in net.capacitors]
    if not res.is_success or got != [st[k] for k in caps]:
        out.bad("e2e-state", f"{what}: success={res.is_success}, capacitors {got}, expected {[st[k] for k in caps]}")
        return
    for q in res.bus_results:
        w = complex(*sol[q.bus.Bus])
        if abs(complex(q.V_r, q.V_i) - w) > 0.5:
            out.bad("e2e-voltage", f"{what}: bus {q.bus.Bus} solved to {q.V} but with the final capacitor states it is {w}")
            return


def fuse(case, out):
    from logic.powerflow import PowerFlow
    b = feeder(case, False)
    spec = b.spec()
    fs = [k for k, e in enumerate(spec["els"]) if e[0] == "fuse"]
    for k in fs:
        spec["els"][k][4] = case["lim"]
    net, B, objs = build(spec)
    r = attempt(lambda: PowerFlow(net, asm.settings()).execute())
    x = refsolve(spec)
    ks = physics.unknowns(spec)
    cur = {}
    for key, val in zip(ks, x):
        if key[0] == "I" and key[1] in fs:
            cur.setdefault(key[1], [0, 0])[key[2]] = val
    mags = [abs(complex(*cur[k])) for k in fs]
    over = any(m > case["lim"] for m in mags)
    out.step()
    out.state(case)
    out.outcome = ("fuse", over)
    if over and r[0] == "ok" and r[1].is_success:
        out.bad("fuse-over", f"fuse limit {case['lim']} A, currents {mags}: a solution was reported although a fuse must blow")
    if not over and (r[0] == "err" or not r[1].is_success or any(o.status.value != "GOOD" for o in net.fuses)):
        out.bad("fuse-under", f"fuse limit {case['lim']} A, currents {mags}: no fuse may blow, got {r}")


GTH = [7100.0, 7193.5, 7195.0, 7196.5, 7197.5, 7200.0, 7203.0, 7205.0, 7208.0, 7211.0, 7216.0, 7300.0]
GCFG = {"abc": [("n2", "ABCN", "ABC")], "split": [("n1", "AN", "A"), ("n2", "BN", "B")], "sub": [("n2", "ABCN", "AC")]}


def glm_cases():
    for cfg in GCFG:
        for lo, hi in itertools.product(GTH, GTH):
            if lo <= hi:
                yield {"k": "glm", "cfg": cfg, "lo": lo, "hi": hi}
        for lo, hi in ((None, None), (7000.0, None), (None, 7100.0)):
            for sw in ("OPEN", "CLOSED"):
                yield {"k": "glm", "cfg": cfg, "lo": lo, "hi": hi, "sw": sw}


def glmcap(case, out):
    """voltage-controlled capacitors described in a GLM file"""
    from mc import glm, glmfeat as G
    objs = G.objects([])[0]
    p = {"control": "VOLT"}
    for k, v in (("voltage_set_low", case["lo"]), ("voltage_set_high", case["hi"])):
        if v is not None:
            p[k] = v
    auto = len(p) == 3
    for i, (at, ph, kv) in enumerate(GCFG[case["cfg"]]):
        d = dict(p, **{"capacitor_" + c: 150000.0 + 20000.0 * j for j, c in enumerate(kv)})
        if "sw" in case:
            d.update({"switch" + c: case["sw"] for c in kv})
        objs += G.cap(f"vc{i}", ph, at, **d)
    what = f"capacitors {case['cfg']} with thresholds {case['lo']}..{case['hi']} V" + (f", switches {case['sw']}" if "sw" in case else "")
    st = asm.settings(tolerance=1e-6, device_control=True)
    r = G.solve_file(glm.text(objs), st)
    spec = glm.Feeder(objs, True).spec()
    caps = [k for k, e in enumerate(spec["els"]) if e[0] == "cap"]
    ks = physics.unknowns(spec)

    def solved(states):
        for k, s in zip(caps, states):
            spec["els"][k][4] = s
        x = G.newton(spec)
        V = {}
        for key, val in zip(ks, x):
            if key[0] == "V":
                V.setdefault(key[1], [0, 0])[key[2]] = val
        return {i: complex(*v) for i, v in V.items()}
    if not auto:
        sols = {(case["sw"],) * len(caps): solved((case["sw"],) * len(caps))}
        ok, endless = list(sols), False
    else:
        sols = {s: solved(s) for s in itertools.product(("OPEN", "CLOSED"), repeat=len(caps))}

        def step(s):
            new = []
            for k, x in zip(caps, s):
                m = abs(sols[s][spec["els"][k][1]])
                new.append("CLOSED" if m > case["hi"] else "OPEN" if m < case["lo"] else x)
            return tuple(new)
        ok = [s for s in sols if step(s) == s]
        ends = []
        for s in sols:
            for _ in range(len(sols) + 1):
                s = step(s)
            ends.append(s in ok)
        endless = not all(ends)
    out.step(len(sols))
    out.state(case, ok)
    out.outcome = ("glm", sorted(ok), endless)
    if r[0] == "err":
        if not endless:
            out.bad("glm-raised", f"{what}: {r[1]}")
        return
    res = r[1]
    if not res.is_success:
        out.bad("glm-unsolved", f"{what}: the described network has a solution, the tool reports failure")
        return
    nm = {(b["name"], b["phase"]): b["id"] for b in spec["buses"] if not b["virt"]}
    got = {nm[(b.bus.NodeName, b.bus.NodePhase)]: complex(b.V_r, b.V_i) for b in res.bus_results if (b.bus.NodeName, b.bus.NodePhase) in nm}
    err = {s: max(abs(got[i] - sols[s][i]) for i in nm.values()) if set(got) == set(nm.values()) else 1e9 for s in sols}
    near = min(err, key=err.get)
    if err[near] > 0.05:
        out.bad("glm-voltage", f"{what}: the reported voltages fit no state of the capacitors (nearest {near}, {err[near]:.3g} V off)")
    elif near not in ok:
        out.bad("glm-state", f"{what}: solved with capacitors {near}, which their own control would change; consistent states: {ok}")


def prepare():
    e2e({"lo": 2300.0, "hi": 2400.0, "load": "wye", "ctl": True}, Out())


def run_case(case):
    out = Out()
    {"script": script, "multi": multi, "e2e": e2e, "fuse": fuse, "glm": glmcap}[case["k"]](case, out)
    return out
