"""C22: the command line runs exactly the analysis its options ask for and writes what it found."""
import copy
import io
import itertools
import os
import shutil
import sys
import tempfile
import numpy as np
from mc.core import Out, attempt
from mc import asm, glm, rawfile
from mc import glmfeat as G
from mc.ref import physics
from mc.checks import c12_raw, c16_timeseries as ts

PROP = "C22"
BOUND = ("every combination of case file (6 feeders, 3 RAW cases), load factor (7 incl. none, 0, negative, infeasible), infeasibility, tx "
         "stepping, debug/verbose and output path; every combination of load file, hour range, swing bus, negative loads, island "
         "selection and output path; run_solver.main executed for each, the written files compared with the reference network "
         "or a separate library run, and with the display")
ASSUMPTIONS = ["hours scaled by a load factor are outside the alphabet", "the library's own results are judged by the other checks"]

c = G.c
FACTORS = [None, "1", "0", "0.5", "1.7", "-1", "60"]
FILES = {
    "wye": G.BASE,
    "mix": G.BASE + [G.load("d_25", "n2", "ABCD", constant_power_A=c(30000.0, 12000.0)),
                     G.load("z_26", "n1", "ABCN", constant_impedance_A=c(900.0, 300.0), constant_power_B=c(10000.0, -4000.0))],
    "reg": G.BASE + G.reg("r") if isinstance(G.reg("r"), list) else G.BASE,
    "tri": G.BASE + G.tri_base("ta", "A") + [G.tri("tn_28", "tat", "A", power_12=c(3000.0, 800.0), power_1=c(900.0, 100.0))],
    "bad": G.BASE + [G.load("x_30", "n2", "ABCN", constant_power_A=c(9e8, 3e8))],
    "gen": G.BASE + [G.load("neg_23", "n2", "BN", constant_power_B=c(-40000.0, -9000.0))],
}
RAWS = {"raw": [], "rawz": ["pq2", "fsh"], "rawg": ["gen2", "pqpv"]}
TS = {"near": ["gen_91"], "split": ["g_91", "g_92", "g_93"], "plain": None}


def cases(tier):
    th = tier == "thorough"
    for n, (f, k, inf, tx, flags, o) in enumerate(itertools.product(list(FILES) + list(RAWS), FACTORS, (0, 1), (0, 1),
                                                               ((), ("debug",), ("verbose",), ("debug", "verbose")), (None, "new", "nested"))):
        if th or not inf or n % 5 == 0:
            if th or not tx or n % 3 == 0:
                yield {"file": f, "k": k, "inf": inf, "tx": tx, "flags": list(flags), "out": o}
    for neg, lf, rng, sw, nl, isl, o in itertools.product(TS, (0, 1), ([0, 3], [1, 2], [2, 2], [0, None]), (0, 1), (0, 1), (0, 1), (None, "new", "nested")):
        if (nl and TS[neg] is None) or (not lf and rng != [0, 3]) or (isl and not sw):
            continue
        yield {"ts": neg, "lf": lf, "rng": rng, "sw": sw, "nl": nl, "isl": isl, "out": o}


def prepare():
    for f in FILES:
        G.solve_file(glm.text(FILES[f]), asm.settings())
    c12_raw.prepare() if hasattr(c12_raw, "prepare") else None


def captured(f):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        return attempt(f), sys.stdout.getvalue()
    finally:
        sys.stdout = old


def cli(args):
    import run_solver
    old = sys.argv
    sys.argv = ["run_solver.py"] + args
    try:
        return captured(run_solver.main)
    finally:
        sys.argv = old


def read(base):
    """{(label): (m, a)}, [(bus, type, P, Q)] of the two files, None for a failure"""
    if not os.path.isfile(base + "_voltage.csv") or not os.path.isfile(base + "_power.csv"):
        return "missing"
    v, p = (open(base + s).read().split("\n") for s in ("_voltage.csv", "_power.csv"))
    if v[0] == "FAILURE" or p[0] == "FAILURE":
        return "FAILURE" if v == p else "mixed"
    vs = [l.split(",") for l in v[1:] if l.count(",") == 3]
    ps = [l.split(",") for l in p[1:] if l.count(",") == 3]
    return {(r[0], r[1]): (float(r[2]), float(r[3])) for r in vs}, [(r[0], r[1], float(r[2]), float(r[3])) for r in ps]


def want(res):
    if not res.is_success:
        return "FAILURE"
    v = {(str(b.bus.Bus), f"{b.bus.NodeName}:{b.bus.NodePhase}"): (abs(complex(b.V_r, b.V_i)), float(np.degrees(np.angle(complex(b.V_r, b.V_i)))))
         for b in res.bus_results}
    p = [(str(g.generator.bus.Bus), g.type_str, g.P, g.Q) for g in res.generator_results] + \
        [(str(x.load.from_bus.NodeName), x.type_str, x.P, x.Q) for x in res.load_results]
    return v, p


def differ(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{a if isinstance(a, str) else 'a solution'} instead of {b if isinstance(b, str) else 'a solution'}"
    if set(k[1] for k in a[0]) != set(k[1] for k in b[0]) or len(a[0]) != len(b[0]):
        return "the nodes differ"
    A, B = ({k[1] + "/" + str(n): x for n, (k, x) in enumerate(q[0].items())} for q in (a, b))
    vm = max(m for m, _ in B.values())
    for k in B:
        if k not in A or abs(A[k][0] - B[k][0]) > 1.1e-3 + 1e-6 * vm or \
                (B[k][0] > 1e-2 and abs((A[k][1] - B[k][1] + 180) % 360 - 180) > 2e-3 + 1e-4 / B[k][0]):
            return f"node {k} is {A.get(k)} instead of {B[k]}"
    if [x[1] for x in a[1]] != [x[1] for x in b[1]]:
        return f"power rows {[x[1] for x in a[1]]} instead of {[x[1] for x in b[1]]}"
    for x, y in zip(a[1], b[1]):
        if abs(complex(*x[2:]) - complex(*y[2:])) > 0.012 + 1e-5 * vm * vm * (vm > 10) + 1e-4 * abs(complex(*y[2:])):
            return f"power row {x} instead of {y}"
    return None


def run_case(case):
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.mkdir(d + "/cwd")
        os.chdir(d + "/cwd")
        return series(case, d) if "ts" in case else single(case, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def strays(out, key, what, d, allowed):
    have = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
    extra = [f for f in have if f not in allowed]
    if extra:
        out.bad(key + ":files", f"{what}: wrote {extra}")


def single(case, d):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    out = Out()
    f = case["file"]
    raw = f in RAWS
    if raw:
        cc = c12_raw.compose(RAWS[f])
        txt, spec = rawfile.text(cc), rawfile.spec(cc)
    else:
        txt, spec = glm.text(FILES[f]), glm.Feeder(FILES[f], True).spec()
    p = os.path.join(d, "case.RAW" if raw else "case.glm")
    open(p, "w").write(txt)
    k = 1.0 if case["k"] is None else float(case["k"])
    args = [p] + (["--load_factor=" + case["k"]] if case["k"] is not None else []) + ["--" + x for x in case["flags"]]
    args += ["--infeasibility"] * case["inf"] + ["--tx_stepping"] * case["tx"]
    base = {None: None, "new": d + "/res", "nested": d + "/a/b.c/res"}[case["out"]]
    args += ["--outputfile", base] if base else []
    what = " ".join(args).replace(d, "")
    key = f"{f}:{case['k']}:{case['inf']}{case['tx']}"
    r, txt = cli(args)
    out.step(2)
    # the same analysis through the library
    st = asm.settings(debug="debug" in case["flags"], tx_stepping=bool(case["tx"]))

    def lib():
        net = NetworkLoader(st).from_file(p)
        if case["inf"]:
            net.optimization = load_infeasibility_analysis(net)
        for l in net.loads:
            l.P, l.Q = l.P * k, l.Q * k
        return PowerFlow(net, st).execute()
    e = attempt(lib)
    if e[0] == "err":
        out.outcome = "raised"
        if r[0] != "err":
            out.bad(key + ":quiet", f"{what}: the analysis cannot be run ({e[1]}), yet the command ends normally")
        return out
    if r[0] == "err":
        out.bad(key + ":raised", f"{what}: {r[1]}")
        return out
    res = e[1]
    W = want(res)
    if txt.count(f"Successful: {res.is_success}\n") != 1 or txt.count("Successful:") != 1:
        out.bad(key + ":display", f"{what}: displayed {[l for l in txt.splitlines() if 'Successful' in l]}, the analysis gives {res.is_success}")
    if ("Buses:" in txt.split("Successful:")[-1]) != ("verbose" in case["flags"]):
        out.bad(key + ":verbose", f"{what}: bus listing {'missing' if 'verbose' in case['flags'] else 'unasked for'}")
    if base:
        e = differ(read(base), W)
        if e:
            out.bad(key + ":result", f"{what}: {e}")
        strays(out, key, what, d, {os.path.relpath(p, d), os.path.relpath(base, d) + "_voltage.csv", os.path.relpath(base, d) + "_power.csv"})
    else:
        strays(out, key, what, d, {os.path.relpath(p, d)})
    # and the network of the file, scaled
    if base and not case["inf"]:
        els = [[x[0], x[1], x[2], x[3] * k, x[4] * k] + x[5:] if x[0] == "load" else x for x in spec["els"]]
        sp = {**spec, "els": els}
        xr = c12_raw.newton(sp, c12_raw.x0_of(sp)) if raw else G.newton(sp)
        if xr is not None:
            ref = {}
            for q, v in zip(physics.unknowns(sp), xr):
                if q[0] == "V":
                    ref.setdefault(q[1], [0, 0])[q[2]] = float(v)
            got = read(base)
            if isinstance(got, str):
                out.bad(key + ":unsolved", f"{what}: {got}, the described network has a solution")
            else:
                byname = {n: m for (_, n), m in got[0].items()} if not raw else {i: m for (i, _), m in got[0].items()}
                for b in spec["buses"]:
                    if b.get("virt"):
                        continue
                    n = f"{b['name']}:{b['phase']}" if not raw else str(b["id"])
                    z = complex(*ref[b["id"]])
                    g = byname.get(n)
                    if g is None or abs(g[0] * np.exp(1j * np.radians(g[1])) - z) > 2e-3 + 3e-5 * abs(z):
                        out.bad(key + ":solution", f"{what}: node {n} is written as {g}, the described network has {abs(z), float(np.degrees(np.angle(z)))}")
                        break
    out.state(f, case["k"], case["inf"], case["tx"], W if isinstance(W, str) else [round(m, 2) for m, _ in W[0].values()])
    out.outcome = (f, case["k"], W if isinstance(W, str) else "solved")
    return out


def series(case, d):
    from logic.network.networkloader import NetworkLoader
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    out = Out()
    swing, objs, names = ts.negs(case["ts"])
    kind = "wyeA"
    objs = copy.deepcopy(G.BASE) + objs + copy.deepcopy(ts.KINDS[kind][0])
    if case["isl"]:
        objs += [G.O("node", "far", bustype="SWING", phases="ABCN", nominal_voltage=G.V), G.line("farl", "far", "far2"), G.node("far2"), G.pload("farld", "far2", "ABCN")]
    p, lf = d + "/case.glm", d + "/loads.csv"
    open(p, "w").write(glm.text(objs))
    with open(lf, "w") as fh:
        fh.write(f"hour,{ts.KINDS[kind][1]}\n" + "".join(f"{h},{v * ts.base_mag(kind)}\n" for h, v in enumerate((0.5, 2.0, 0.0, 1.0))))
    args = [p]
    s, e = case["rng"]
    if case["lf"]:
        args += ["--loadfile", lf, "--loadstart", str(s)] + (["--loadend", str(e)] if e is not None else [])
    if case["sw"]:
        args += ["--artificialswingbus", "src"]
    if case["nl"]:
        args += ["--negativeloads"] + names
    if case["isl"]:
        args += ["--select_island", "True"]
    base = {None: None, "new": d + "/res", "nested": d + "/a/b.c/res"}[case["out"]]
    args += ["--outputfile", base] if base else []
    what = " ".join(args).replace(d, "")
    key = f"ts:{case['lf']}{case['sw']}{case['nl']}{case['isl']}"
    r, txt = cli(args)
    out.step(2)
    st = asm.settings()

    def lib():
        net = NetworkLoader(st).from_file(p)
        if not (case["lf"] or case["sw"]):
            return PowerFlow(net, st).execute()
        t = TimeSeriesSettings(loadfile_name=lf if case["lf"] else None, loadfile_start=s, loadfile_end=e, select_island=bool(case["isl"]),
                               artificialswingbus="src" if case["sw"] else None, negativeloads=names if case["nl"] else None)
        return TimeSeriesProcessor(t, PowerFlow(net, st)).execute()
    e2 = attempt(lib)
    if e2[0] == "err":
        out.bad(key + ":raised", f"{what}: {e2[1]}")
        return out
    if r[0] == "err":
        out.bad(key + ":raised", f"{what}: {r[1]}")
        return out
    W = {f"_{h}": want(x) for h, x in e2[1].powerflow_snapshot_results.items()} if case["lf"] else {"": want(e2[1])}
    n = sum(1 for w in W.values() if w != "FAILURE")
    if txt.count("Successful: True") != n or txt.count("Successful: False") != len(W) - n:
        out.bad(key + ":display", f"{what}: displayed {[l for l in txt.splitlines() if 'Successful' in l]} for {len(W)} results, {n} of them solved")
    allowed = {"case.glm", "loads.csv"}
    for suffix, w in W.items():
        if base:
            e = differ(read(base + suffix), w)
            if e:
                out.bad(key + ":result", f"{what}: results{suffix}: {e}")
            allowed |= {os.path.relpath(base, d) + suffix + x for x in ("_voltage.csv", "_power.csv")}
    strays(out, key, what, d, allowed)
    out.state(case)
    out.outcome = (key, len(W), n)
    return out
