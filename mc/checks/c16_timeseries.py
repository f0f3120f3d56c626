"""C16: each hour of a load file is solved with that hour's loads, whatever came before."""
import copy
import functools
import itertools
import os
import shutil
import tempfile
import math
import numpy as np
from mc.core import Out, attempt, HarnessError
from mc import asm, glm
from mc import glmfeat as G
from mc.ref import physics

PROP = "C16"
BOUND = ("every load kind of 10 with every sequence of <=3 hourly values over {0, m, -m, 2.5m} and every hour range; every subset and order of 5 "
         "columns incl. unknown ones over 2 hours; generation adjustment for 11 placements of negative loads with every sequence of <=2 hours, "
         "incl. unsolvable hours; every hour's voltages, loads and output files compared with a reference solution of that hour")
ASSUMPTIONS = ["hours outside the file and blank cells are outside the alphabet", "load names end in a number unique to the object, as the load file's naming scheme needs"]

c = G.c




KINDS = {
    "wyeA": ([G.load("wye_21", "n2", "AN", constant_power_A=c(50000.0, 20000.0))], "cl_21A", ("wye_21", "constant_power_A")),
    "wyeC": ([G.load("wye_22", "n1", "ABCN", constant_power_C=c(30000.0, -12000.0), constant_power_A=c(9000.0, 1000.0))], "cl_22C", ("wye_22", "constant_power_C")),
    "pneg": ([G.load("neg_23", "n2", "BN", constant_power_B=c(-40000.0, -9000.0))], "cl_23B", ("neg_23", "constant_power_B")),
    "qonly": ([G.load("q_24", "n2", "BN", constant_power_B=c(0.0, 30000.0))], "cl_24B", ("q_24", "constant_power_B")),
    "delta": ([G.load("d_25", "n2", "ABCD", constant_power_A=c(30000.0, 12000.0), constant_power_B=c(10000.0, 2000.0))], "cl_25AB", ("d_25", "constant_power_A")),
    "ll": ([G.load("l_26", "n2", "ABCN", constant_power_BC=c(20000.0, 6000.0))], "cl_26BC", ("l_26", "constant_power_BC")),
    "own": ([G.load("own_27", None, "ABCN", constant_power_B=c(25000.0, 6000.0)), G.line("ownl", "n2", "own_27")], "cl_27B", ("own_27", "constant_power_B")),
    "t12": (G.tri_base("ta", "A") + [G.tri("tn_28", "tat", "A", power_12=c(3000.0, 800.0))], "rl_28_1", ("tn_28", "power_12")),
    "t1": (G.tri_base("tb", "B") + [G.tri("tn_29", "tbt", "B", power_1=c(1500.0, 400.0))], "rl_29_1", ("tn_29", "power_1")),
    "t2": (G.tri_base("tc", "C") + [G.tri("tn_30", "tct", "C", power_2=c(1500.0, -400.0))], "rl_30_2", ("tn_30", "power_2")),
}
COLS = ["wyeA", "delta", "t12", "t2", "unknown"]


def value(v):
    return complex(v[1], v[2])


def base_mag(kind):
    objs, col, (o, p) = KINDS[kind]
    return abs(value(dict([b for b in objs if b["name"] == o][0]["p"])[p]))


# placements of the generating (negative) loads: swing bus, objects, names, phases
def negs(kind):
    if kind == "at":
        return "src", [G.load("gen_91", "src", "ABCN", constant_power_A=c(-1000.0, 0.0), constant_power_B=c(-1000.0, 0.0), constant_power_C=c(-1000.0, 0.0))], ["gen_91"]
    if kind == "near":
        return "src", [G.load("gen_91", "n1", "ABCN", constant_power_A=c(-1000.0, 10.0), constant_power_B=c(-1000.0, 0.0), constant_power_C=c(-1000.0, 0.0))], ["gen_91"]
    if kind == "far":
        return "src", [G.load("gen_91", "n2", "ABCN", constant_power_A=c(-90000.0, 0.0), constant_power_B=c(-200000.0, 5.0), constant_power_C=c(-1.0, 0.0))], ["gen_91"]
    if kind == "split":
        return "src", [G.load("g_91", "n2", "AN", constant_power_A=c(-1000.0, 0.0)), G.load("g_92", "n1", "BN", constant_power_B=c(-1000.0, 0.0)),
                       G.load("g_93", "n2", "CN", constant_power_C=c(-1000.0, 0.0))], ["g_91", "g_92", "g_93"]
    if kind == "plain":
        return "src", [], None
    if kind == "names":
        return "src", [G.load("gen_a_b_91", "n2", "ABN", constant_power_A=c(-1000.0, 0.0), constant_power_B=c(-1000.0, 20.0)),
                       G.load("gen_7_92", "n1", "CN", constant_power_C=c(-1000.0, 0.0))], ["gen_a_b_91", "gen_7_92"]
    if kind in ("one", "two"):
        # a second swing bus with one or two phases, tied to the feeder
        ph = "C" if kind == "one" else "AC"
        o = [G.O("node", "mg", bustype="SWING", phases=ph + "N", nominal_voltage=G.V), G.line("mgl", "mg", "m1", ph + "N"), G.node("m1", ph + "N"),
             G.pload("ml_81", "m1", ph + "N", 30000.0, 9000.0), G.line("mgt", "n1", "m1", ph + "N")]
        return "mg", o + [G.load("gen_91", "m1", ph + "N", **{"constant_power_" + x: c(-1000.0, 0.0) for x in ph})], ["gen_91"]
    if kind == "tri":
        o = []
        for k, ph in enumerate("ABC"):
            o += G.tri_base("g" + ph, ph, 400.0) + [G.tri(f"tg_9{k}", "g" + ph + "t", ph, power_12=c(-100.0, 0.0))]
        return "src", o, ["tg_90", "tg_91", "tg_92"]
    if kind in ("balp", "balq"):
        # the generating loads start with just the active (reactive) power the swing bus supplies
        s = swing_power()
        return "src", [G.load("gen_91", "src", "ABCN", **{"constant_power_" + ph: c(-z.real, 0.0) if kind == "balp" else c(0.0, -z.imag)
                                                            for ph, z in zip("ABC", s)})], ["gen_91"]
    raise ValueError(kind)


@functools.lru_cache(None)
def swing_power():
    spec = glm.Feeder(copy.deepcopy(G.BASE) + copy.deepcopy(KINDS["wyeA"][0]), True).spec()
    x = dict(zip(physics.unknowns(spec), G.newton(spec)))
    out = []
    for k, e in enumerate(spec["els"]):
        if e[0] == "slack":
            z = complex(x["V", e[1], 0], x["V", e[1], 1]) * complex(x["I", k, 0], x["I", k, 1]).conjugate()
            out.append(z if z.real > 0 else -z)
    return [complex(round(z.real, 4), round(z.imag, 4)) for z in out]


NEG = ["plain", "at", "near", "far", "split", "tri", "balp", "balq", "names", "one", "two"]


def cases(tier):
    n = 4 if tier == "thorough" else 3
    vals = [0.0, 1.0, -1.0, 2.5]
    for k in KINDS:
        for L in range(1, n + 1):
            for seq in itertools.product(vals, repeat=L):
                yield {"k": k, "seq": list(seq), "range": [0, L]}
        for s in range(0, 4):
            for e in range(s, 4):
                yield {"k": k, "seq": [1.0, 0.0, -1.0], "range": [s if s < 4 else 3, min(e, 3)]}
    for r in range(0, len(COLS) + 1):
        for sub in itertools.permutations(COLS, r) if tier == "thorough" else \
                [p for q in itertools.combinations(COLS, r) for p in {tuple(q), tuple(reversed(q))}]:
            yield {"cols": list(sub)}
    for g in NEG:
        for L in (1, 2):
            for seq in itertools.product([1.0, 0.0, -2.0, 1e4], repeat=L):
                yield {"neg": g, "seq": list(seq)}
        yield {"neg": g, "seq": None}


def prepare():
    objs = copy.deepcopy(G.BASE)
    for k in KINDS:
        objs += KINDS[k][0]
    G.solve_file(glm.text(objs), asm.settings())


def reference(objs, loads):
    """spec of the feeder with the given load powers {(object, property): complex}"""
    objs = copy.deepcopy(objs)
    for o in objs:
        for pr in o["p"]:
            if (o["name"], pr[0]) in loads:
                s = loads[(o["name"], pr[0])]
                pr[1] = ["c", s.real, s.imag]
    return glm.Feeder(objs, True).spec()


class Overrun(HarnessError):
    pass


def run_case(case):
    from logic.network.networkloader import NetworkLoader
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    out = Out()
    base = copy.deepcopy(G.BASE)
    swing, names = None, None
    kinds = []
    if "k" in case:
        kinds, seqs, rng = [case["k"]], {case["k"]: case["seq"]}, case["range"]
    elif "cols" in case:
        kinds = [x for x in COLS if x != "unknown"]
        seqs = {x: [0.5 + 0.25 * n, 1.5 - 0.5 * n] for n, x in enumerate(case["cols"])}
        rng = [0, 2]
    else:
        swing, objs, names = negs(case["neg"])
        base += objs
        kinds = ["wyeA"]
        seqs = {"wyeA": case["seq"]} if case["seq"] else {}
        rng = [0, len(case["seq"] or [])]
    for k in kinds:
        base += copy.deepcopy(KINDS[k][0])
    d = tempfile.mkdtemp()
    try:
        return play(out, case, base, kinds, seqs, rng, swing, names, d)
    finally:
        shutil.rmtree(d)


def play(out, case, base, kinds, seqs, rng, swing, names, d):
    from logic.network.networkloader import NetworkLoader
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    p = os.path.join(d, "case.glm")
    open(p, "w").write(glm.text(base))
    lf = None
    if seqs or "cols" in case:
        rows = max([len(s) for s in seqs.values()] or [2])
        cols = ["hour"] + [KINDS[k][1] if k in KINDS else "cl_9999A" for k in seqs]
        lf = os.path.join(d, "loads.csv")
        with open(lf, "w") as f:
            f.write(",".join(cols) + "\n")
            for h in range(rows):
                f.write(",".join([str(h)] + [repr(seqs[k][h] * (base_mag(k) if k in KINDS else 777.0)) for k in seqs]) + "\n")
    st = asm.settings(tolerance=1e-6)
    calls = [0]

    class Counting(PowerFlow):
        def execute(self):
            calls[0] += 1
            if calls[0] > 80:
                raise Overrun("too many solves")
            return PowerFlow.execute(self)

    def go():
        net = NetworkLoader(st).from_file(p)
        ts = TimeSeriesSettings(loadfile_name=lf, loadfile_start=rng[0], loadfile_end=rng[1], artificialswingbus=swing,
                                negativeloads=names, outputfile=os.path.join(d, "out", "res"))
        return TimeSeriesProcessor(ts, Counting(net, st)).execute()
    what = f"{case}"
    key = "k:" + case["k"] if "k" in case else ("cols" if "cols" in case else "neg:" + case["neg"])
    try:
        r = attempt(go)
    except Overrun:
        out.bad(key + ":endless", f"{what}: the processor is still re-solving after 80 power flows")
        return out
    out.step(calls[0])
    if r[0] == "err":
        out.bad(key + ":raised", f"{what}: {r[1]}")
        return out
    res = r[1]
    hours = list(range(*rng)) if lf else [None]
    snaps = res.powerflow_snapshot_results if lf else {None: res}
    if sorted(snaps) != hours:
        out.bad(key + ":hours", f"{what}: results for hours {sorted(snaps)}, expected {hours}")
        return out
    sig = []
    loads0 = {KINDS[k][2]: value(dict([b for b in base if b["name"] == KINDS[k][2][0]][0]["p"])[KINDS[k][2][1]]) for k in kinds}
    for h in hours:
        s = snaps[h]
        loads = dict(loads0)
        for k in seqs:
            if k in KINDS:
                z = loads0[KINDS[k][2]]
                loads[KINDS[k][2]] = seqs[k][h] * abs(z) * (z / abs(z))
        if names:
            spec0 = reference(base, loads)
            if G.newton(spec0) is None or not s.is_success:
                sig.append("unsolvable")
                continue
            # the generating loads as they are after the adjustment
            nums = {n.split("_")[-1] for n in names}
            sw = [complex(g.P, g.Q) for g in s.generator_results if g.generator.bus.NodeName == swing]
            if not sum(abs(z) for z in sw) < 0.1:
                out.bad(key + ":swing", f"{what} hour {h}: after the adjustment the artificial swing bus still carries {sw}")
                return out
            for x in s.load_results:
                if x.load.load_num in nums:
                    for nm in names:
                        if nm.split("_")[-1] == x.load.load_num:
                            ob = [b for b in base if b["name"] == nm][0]
                            pr = ("power_" if ob["t"] == "triplex_node" else "constant_power_") + x.load.phase
                            loads[(nm, pr)] = complex(x.P, x.Q)
        spec = reference(base, loads)
        n = len(out.violations)
        G.compare(out, key, f"{what} hour {h}", ("ok", s), spec, tol=1e-5 if names else 2e-6)
        if len(out.violations) > n:
            return out
        sig.append([h, [[round(x.P, 3), round(x.Q, 3)] for x in s.load_results]])
        if h is None:
            continue
        # the hour's files hold the hour's results
        for suffix in ("voltage", "power"):
            f = os.path.join(d, "out", f"res_{h}_{suffix}.csv")
            if not os.path.exists(f):
                out.bad(key + ":files", f"{what} hour {h}: no file res_{h}_{suffix}.csv")
                return out
        if not s.is_success:
            continue
        txt = open(os.path.join(d, "out", f"res_{h}_voltage.csv")).read()
        for b in s.bus_results:
            if f"{b.bus.NodeName}:{b.bus.NodePhase},{b.V_mag:.3f},{b.V_deg:.3f}\n" not in txt:
                out.bad(key + ":files", f"{what} hour {h}: the voltage file lacks node {b.bus.NodeName}:{b.bus.NodePhase} at {b.V_mag:.3f}")
                return out
    if lf and hours != [None]:
        have = sorted(os.listdir(os.path.join(d, "out"))) if os.path.isdir(os.path.join(d, "out")) else []
        want = sorted(f"res_{h}_{s}.csv" for h in hours for s in ("voltage", "power"))
        if have != want:
            out.bad(key + ":files", f"{what}: files {have}, expected {want}")
    out.outcome = sig
    out.state(case, sig)
    return out
