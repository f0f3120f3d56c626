"""C17: selecting the island of a swing bus leaves exactly that island."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.net import build

PROP = "C17"
BOUND = ("every island paired with 4 others (thorough: every pair) over 9 chains (line, charged line, switch, fuse, regulator, wye and delta transformers, two stages) and 8 load sets (wye, delta, "
         "impedance, current, capacitor, split phase, none) joined by nothing, open switches or blown fuses at either end, selecting either island or a third one, with "
         "and without infeasibility analysis; the outcome is compared with the same island built alone and solved by the same solver")
ASSUMPTIONS = ["the solver itself is judged by C01"]

CHAINS = [["uline"], ["ucap"], ["sw"], ["fuse"], ["reg"], ["yy"], ["dy"], ["uline", "reg"], ["fuse", "uline", "sw"]]
LOADS = ["wye", "delta", "z", "i", "one", "cap", "ct", "none"]
BRIDGE = ["none", "near", "far", "fnear", "ffar"]


def cases(tier):
    sides = list(itertools.product(range(len(CHAINS)), LOADS))
    for a in sides:
        for b in sides if tier == "thorough" else [(0, "wye"), (3, "cap"), (4, "ct"), (5, "delta")]:
            for br in BRIDGE:
                yield {"a": list(a), "b": list(b), "br": br, "inf": [0, 1] if tier == "thorough" or br == "far" else [0]}


def prepare():
    for c in CHAINS:
        for l in LOADS:
            asm.setup(island(grids.DxBuilder(), c, l).spec())


def island(b, chain, l):
    for k in chain:
        b.add(k)
    if l == "ct":
        b.ct("B", "all")
    elif l != "none":
        b.load(l)
    return b


def fresh(b, name):
    b.vnom = 2400.0
    b.stage += 10
    b.cur = b.node(name)
    for p in grids.PH:
        b.els.append(["slack", b.cur[p], b.vnom, grids.ANG[p]])


def compose(case):
    """the spec and, per island, its buses and elements"""
    b = grids.DxBuilder()
    parts, marks = [], [(0, 0)]
    ends = [[b.cur]]
    island(b, CHAINS[case["a"][0]], case["a"][1])
    ends[0].append(b.cur)
    marks.append((len(b.buses), len(b.els)))
    fresh(b, "t")
    ends.append([b.cur])
    island(b, CHAINS[case["b"][0]], case["b"][1])
    ends[1].append(b.cur)
    marks.append((len(b.buses), len(b.els)))
    fresh(b, "u")
    b.add("uline")
    b.load("wye")
    marks.append((len(b.buses), len(b.els)))
    own = [(b.buses[p[0]:q[0]], b.els[p[1]:q[1]]) for p, q in zip(marks, marks[1:])]
    if case["br"] != "none":
        k = 0 if case["br"].endswith("near") else 1
        for p in grids.PH:
            if case["br"] in ("fnear", "ffar"):
                b.els.append(["fuse", ends[0][k][p], ends[1][1][p], b.bus(f"f{p}-Fuse", p, virt=True), 1e6, "BLOWN"])
                b.els.append(["fuse", b.cur[p], ends[1][k][p], b.bus(f"g{p}-Fuse", p, virt=True), 1e6, "BLOWN"])
                continue
            b.els.append(["switch", ends[0][k][p], ends[1][1][p], "OPEN"])
            b.els.append(["switch", ends[1][k][p], b.cur[p], "OPEN"])
    return b.spec(), own, ["s", "t", "u"]


def results(res):
    v = {(b.bus.NodeName, b.bus.NodePhase): complex(b.V_r, b.V_i) for b in res.bus_results}
    g = sorted((g.generator.bus.NodeName, g.generator.bus.NodePhase, g.type_str) for g in res.generator_results)
    l = sorted((x.load.from_bus.NodeName, x.load.from_bus.NodePhase, x.P, x.Q) for x in res.load_results)
    return v, g, l, len(res.bus_results)


def run_case(case):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    out = Out()
    out.traces = 0
    spec, own, names = compose(case)
    for opt in [(None, "L2")[i] for i in case["inf"]]:
        for k, name in enumerate(names):
            alone = {"kind": "dx", "buses": own[k][0], "els": own[k][1]}
            what = f"{case} selecting {name}{' with infeasibility analysis' if opt else ''}"
            key = f"{opt or 'pf'}:"
            net, _, _ = build(alone, opt=opt)
            ref = attempt(lambda: PowerFlow(net, asm.settings()).execute())
            out.step(2)
            out.traces += 1
            if ref[0] == "err" or not ref[1].is_success:
                out.outcome = "unsolved"
                continue
            net2, _, _ = build(spec, opt=opt)

            def go():
                pf = PowerFlow(net2, asm.settings())
                return TimeSeriesProcessor(TimeSeriesSettings(select_island=True, artificialswingbus=name), pf).execute()
            r = attempt(go)
            if r[0] == "err":
                out.bad(key + "raised", f"{what}: {r[1]}")
                continue
            if not r[1].is_success:
                out.bad(key + "unsolved", f"{what}: the island is solvable on its own, but not once selected")
                continue
            v, g, l, n = results(r[1])
            V, G, L, N = results(ref[1])
            out.state(case, opt, name)
            out.outcome = (len(V), len(G), len(L))
            if n != N or set(v) != set(V):
                out.bad(key + "nodes", f"{what}: nodes {sorted(set(v) ^ set(V))} differ from the island's ({n} instead of {N})")
            elif g != G:
                out.bad(key + "sources", f"{what}: sources {g}, the island has {G}")
            elif l != L:
                out.bad(key + "loads", f"{what}: loads {l}, the island has {L}")
            else:
                e = max(abs(v[x] - V[x]) / max(abs(V[x]), 1) for x in V)
                if e > 1e-6:
                    out.bad(key + "solution", f"{what}: voltages differ from the island on its own by {e:.3g}")
            if opt and not out.violations:
                inf = lambda q: sorted(x.generator.bus.Bus for x in q.generator_results if x.type_str == "Inf")
                if inf(r[1]) != inf(ref[1]):
                    out.bad(key + "inf", f"{what}: infeasibility currents at buses {inf(r[1])}, expected {inf(ref[1])}")
    return out
