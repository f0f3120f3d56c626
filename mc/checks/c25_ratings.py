"""C25: a solution is marked as violating equipment ratings exactly when a rating is violated."""
import copy
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import Out, attempt
from mc import asm, glm
from mc import glmfeat as G
from mc.ref import physics

PROP = "C25"
BOUND = ("25 rated pieces of equipment (overhead, underground and triplex lines per phase and conductor order, all transformer connections, "
         "centre-tap, bus voltages) loaded to 0.4, 0.9, 1.1 and 2.5 of their rating, alone and in all pairs, as an hour of a load file, as two hours "
         "with and without overload in both orders, and with an artificial swing bus; both output files compared with ratings evaluated on a reference solution")
ASSUMPTIONS = ["three-phase transformers are loaded so that the total and the per-phase reading of their rating agree",
               "terminal and series line currents are on the same side of the rating"]
UNIT = ("ohback", "ugAC")            # ratings written with a unit
LEVELS = (0.4, 0.9, 1.1, 2.5)
MARK = "VIOLATED EQUIPMENT RATINGS"
c = G.c


def own_conf(pre, names="ABC", neutral=True, order=None, spc="spc"):
    """a configuration with a conductor of its own for every phase"""
    objs = [G.conductor(pre + "w" + p, r=0.306, gmr=0.0244, dia=0.721) for p in names]
    cond = {p: pre + "w" + p for p in names}
    if neutral:
        objs.append(G.conductor(pre + "wN", r=0.592, gmr=0.00814, dia=0.563))
        cond["N"] = pre + "wN"
    if order:
        cond = {k: cond[k] for k in order}
    return objs + [G.cfg(pre + "c", spc, **cond)]


def ohline(pre, ph, load_ph, order=None, names=None, n="n2"):
    names = names or [x for x in ph if x in "ABC"]
    p = {"constant_power_" + k: c(300000.0 * (1 + 0.4 * i), 90000.0 * (1 - 0.3 * i)) for i, k in enumerate(load_ph)}
    return own_conf(pre, names, "N" in ph, order) + [G.node(pre + "n", ph), G.line(pre + "l", n, pre + "n", ph, 1500.0, pre + "c"),
                                                       G.load(pre + "ld", pre + "n", ph, **p)]


# name -> (objects, [(rated object, property)], what to rate)
def equipment():
    E = {}

    def bal(pre, p=60000.0, q_=20000.0):
        return [G.load(pre + "ld", pre + "n", "ABCN", constant_power_A=c(p, q_), constant_power_B=c(p * 1.01, q_), constant_power_C=c(p * 0.99, q_))]
    E["oh"] = (ohline("e", "ABCN", "ABC"), [("ewA", "rating.summer.emergency"), ("ewB", "rating.summer.emergency"), ("ewC", "rating.summer.emergency")], "line el")
    E["ohNfirst"] = (ohline("f", "ABCN", "ABC", order="NABC"), [("fwA", 0), ("fwB", 0), ("fwC", 0)], "line fl")
    E["ohrev"] = (ohline("g", "ABCN", "ABC", order="CBAN"), [("gwA", 0), ("gwB", 0), ("gwC", 0)], "line gl")
    E["ohmid"] = (ohline("h", "ABCN", "ABC", order="ANBC"), [("hwA", 0), ("hwB", 0), ("hwC", 0)], "line hl")
    E["ohB"] = (ohline("i", "BN", "B"), [("iwB", 0)], "line il")
    E["ohAC"] = (ohline("j", "ACN", "AC"), [("jwA", 0), ("jwC", 0)], "line jl")
    E["ohsub"] = (ohline("k", "BCN", "BC", names="ABC"), [("kwB", 0), ("kwC", 0)], "line kl")
    E["ohone"] = (ohline("m", "ABCN", "B"), [("mwB", 0)], "line ml")
    E["ohback"] = (ohline("o", "ABCN", "ABC"), [("owA", 0), ("owB", 0), ("owC", 0)], "line ol")
    for o in E["ohback"][0]:
        if o["name"] == "ol":
            o["p"] = [[{"from": "to", "to": "from"}.get(k, k), v] for k, v in o["p"]]
    E["ug"] = (ug_line("p", "ABCN", "ABC"), [("pwA", 0), ("pwB", 0), ("pwC", 0)], "line pl")
    E["ugAC"] = (ug_line("q", "ACN", "AC"), [("qwA", 0), ("qwC", 0)], "line ql")
    E["tri"] = (tri_line("r"), [("rw1", 0), ("rw2", 0)], "line rtl")
    E["yy"] = (G.xf("xy", "WYE_WYE", "ABCN", G.L1, G.L2, 600.0)[:3] + bal("xy"), [("xyc", "power_rating")], "xfmr xyx")
    E["dy"] = (G.xf("xd", "DELTA_GWYE", "ABCN", G.L1, G.L2, 600.0)[:3] + bal("xd"), [("xdc", "power_rating")], "xfmr xdx")
    E["dd"] = (G.xf("xe", "DELTA_DELTA", "ABCD", G.L1, G.L2, 600.0, nodeph="ABC")[:3] +
               [G.load("xeld", "xen", "ABCN", constant_impedance_A=c(120.0, 30.0), constant_impedance_B=c(121.0, 30.0), constant_impedance_C=c(122.0, 30.0))],
               [("xec", "power_rating")], "xfmr xex")
    E["sp"] = (G.xf("xs", "SINGLE_PHASE", "BN", G.V, 2400.0, 200.0), [("xsc", "power_rating")], "xfmr xsx")
    E["yyback"] = (G.xf("xb", "WYE_WYE", "ABCN", G.L1, G.L2, 600.0)[:3] +
                   [G.load("xbld", "xbn", "ABCN", constant_power_A=c(-70000.0, 5000.0), constant_power_B=c(-70500.0, 5000.0), constant_power_C=c(-71000.0, 5000.0))],
                   [("xbc", "power_rating")], "xfmr xbx")
    for s in (1.0, -1.0):        # mostly reactive loads, inductive and capacitive
        n = "xq" if s > 0 else "xk"
        E["yy" + n] = (G.xf(n, "WYE_WYE", "ABCN", G.L1, G.L2, 600.0)[:3] + bal(n, 12000.0, s * 60000.0), [(n + "c", "power_rating")], f"xfmr {n}x")
        n = "cq" if s > 0 else "ck"
        E["ct" + n] = (G.tri_base(n, "A") + [G.tri(n + "d", n + "t", power_12=c(1000.0, s * 4500.0), power_1=c(300.0, s * 800.0))], [(n + "tc", "power_rating")], f"ct {n}tx")
    E["ct"] = (G.tri_base("ct", "A") + [G.tri("ctd", "ctt", power_12=c(5000.0, 900.0), power_1=c(1000.0, 0.0))], [("cttc", "power_rating")], "ct cttx")
    E["ct1"] = (G.tri_base("cu", "C") + [G.tri("cud", "cut", "C", power_1=c(4000.0, 900.0))], [("cutc", "power_rating")], "ct cutx")
    E["ct2"] = (G.tri_base("cv", "B") + [G.tri("cvd", "cvt", "B", power_2=c(4000.0, -900.0), power_1=c(500.0, 0.0))], [("cvtc", "power_rating")], "ct cvtx")
    return E


def ug_line(pre, ph, names):
    """an underground line with a conductor of its own for every phase"""
    o = G.ug(pre, ph, G.UGS, names, 2500.0)
    w = [b for b in o if b["name"] == pre + "w"][0]
    out = [dict(copy.deepcopy(w), name=pre + "w" + k) for k in names]
    for b in o:
        if b["name"] == pre + "cf":
            for pr in b["p"]:
                if pr[0].startswith("conductor_"):
                    pr[1] = pre + "w" + pr[0][-1]
    return out + [b for b in o if b is not w]


def tri_line(pre):
    o = G.tri_base(pre, "A", 50.0) + [
        G.O("triplex_line_conductor", pre + "w1", resistance=0.97, geometric_mean_radius=0.0111),
        G.O("triplex_line_conductor", pre + "w2", resistance=0.97, geometric_mean_radius=0.0111),
        G.O("triplex_line_conductor", pre + "wN", resistance=0.97, geometric_mean_radius=0.0111),
        G.O("triplex_line_configuration", pre + "tlc", conductor_1=pre + "w1", conductor_2=pre + "w2", conductor_N=pre + "wN", insulation_thickness=0.08, diameter=0.368),
        G.O("triplex_line", pre + "tl", "phases", "AS", "from", pre + "t", "to", pre + "e", "length", 60.0, "configuration", pre + "tlc"),
        G.tri(pre + "e", None, "A", power_12=c(4000.0, 700.0), power_1=c(2500.0, 200.0))]
    return o


VOLT = {"v%+d%s" % (k, p): (p, k) for k in (3, 6, 10, 14, -4, -12) for p in "ABC"}
EQ = equipment()
EQ.update({n: (G.reg("vr", tuple(k if x == p else 0 for x in "ABC")), [], "volt") for n, (p, k) in VOLT.items()})


class Tagged(glm.Feeder):
    """the reference reading, remembering which elements each link object became"""

    def __init__(self, objs):
        self.tag = {}
        super().__init__(objs, True)

    def _t(name):
        def f(self, n, p):
            i = len(self.els)
            getattr(glm.Feeder, name)(self, n, p)
            self.tag[n] = self.els[i:]
        return f
    r_overhead_line, r_underground_line, r_triplex_line, r_transformer = _t("r_overhead_line"), _t("r_underground_line"), _t("r_triplex_line"), _t("r_transformer")


def solved(objs):
    fd = Tagged(objs)
    spec = fd.spec()
    x = G.newton(spec)
    if x is None:
        return fd, spec, None, None
    V = {None: 0j}
    aux = {}
    for k, v in zip(physics.unknowns(spec), x):
        d = V if k[0] == "V" else aux
        key = k[1] if k[0] == "V" else k[:2]
        d[key] = d.get(key, 0j) + (float(v) if k[-1] == 0 else 1j * float(v))
    return fd, spec, V, aux


def line_currents(e, V):
    """phase currents of a line element: largest and smallest magnitude among series and both terminals"""
    Z = np.array([[complex(*z) for z in row] for row in e[3]]) * e[5]
    Y = np.zeros_like(Z) if e[4] is None else np.array([[complex(*z) for z in row] for row in e[4]]) * e[5]
    f, t = np.array([V[i] for i in e[1]]), np.array([V[i] for i in e[2]])
    s = np.linalg.solve(Z, f - t)
    a = np.abs(np.array([s, s + Y @ f / 2, s - Y @ t / 2, s + Y @ f, s - Y @ t]))
    return a.max(axis=0), a.min(axis=0)


def xfmr_powers(fd, spec, n, V, aux):
    """|S| of every phase of a transformer, on both sides"""
    hi, lo, tot = [], [], [0j, 0j]
    for e in fd.tag[n]:
        k = [i for i, x in enumerate(spec["els"]) if x is e][0]
        if e[0] == "ct":
            # secondary legs: power delivered at the terminals, and power at the ideal transformer's primary
            z1, z2 = complex(*e[8]) * e[11] ** 2 / e[12], complex(*e[9]) * e[11] ** 2 / e[12]
            i1, i2 = (V[e[3]] - V[e[5]]) / z1, (V[e[4]] - V[e[6]]) / z2
            out = V[e[5]] * np.conj(i1) + V[e[6]] * np.conj(i2)
            z0 = complex(*e[7]) * e[10] ** 2 / e[12]
            pri = V[e[1]] * np.conj((V[e[1]] - V[e[2]]) / z0)
            return [max(abs(out), abs(pri))], [min(abs(out), abs(pri))], max(abs(out), abs(pri)), min(abs(out), abs(pri))
        i = aux[("I", k)]
        u1 = V[e[1]] - V[e[2]]
        s1 = u1 * np.conj(i)
        i2 = i * e[7]
        s2 = (V[e[3]] - V[e[4]]) * np.conj(i2)
        hi.append(max(abs(s1), abs(s2)))
        lo.append(min(abs(s1), abs(s2)))
    return hi, lo, sum(hi), sum(lo)


def setp(o, k, v):
    for pr in o["p"]:
        if pr[0] == k:
            pr[1] = v
            return
    o["p"].append([k, v])


def getp(o, k):
    return dict((a, b) for a, b in o["p"])[k]


_SOL = {}


def base_solution(eqs):
    if eqs not in _SOL:
        objs = copy.deepcopy(G.BASE)
        for e in eqs:
            objs += copy.deepcopy(EQ[e][0])
        _SOL[eqs] = objs, solved(objs)
    return _SOL[eqs]


def rate(objs, sol, parts):
    """give the parts [(equipment, part, level)] the ratings that load them to their level"""
    fd, spec, V, aux = sol
    objs = copy.deepcopy(objs)
    by = {o["name"]: o for o in objs}
    for eq, part, level in parts:
        what = EQ[eq][2].split()
        if what[0] == "volt":
            continue
        name = EQ[eq][1][part][0]
        if what[0] == "line":
            hi, lo = line_currents(fd.tag[what[1]][0], V)
            ph = [x for x in "ABC12" if name.endswith(x)][0]
            phases = [{b["id"]: b["phase"] for b in spec["buses"]}[i] for i in fd.tag[what[1]][0][1]]
            k = phases.index(ph)
            R = float((hi[k] + lo[k]) / 2 / level)
            setp(by[name], "rating.summer.emergency", R if eq not in UNIT else ["q", R, "A", 1])
            if eq in UNIT:
                setp(by[name], "rating.summer.continuous", ["q", R / 3, "A", 1])
        else:
            hi, lo, th, tl = xfmr_powers(fd, spec, what[1], V, aux)
            o = by[name]
            S0 = getp(o, "power_rating")
            n = len(hi)
            S = (th + tl) / 2 / level / 1e3
            setp(o, "power_rating", float(S))
            z = getp(o, "impedance")
            setp(o, "impedance", ["c", z[1] * S / S0, z[2] * S / S0])
    return objs


def verdict(objs):
    """does the reference solution violate a rating? True, False or None (readings of the rating differ)"""
    fd, spec, V, aux = solved(objs)
    if V is None:
        return "unsolvable", None
    by = {o["name"]: dict((a, b) for a, b in o["p"]) for o in objs}
    typ = {o["name"]: o["t"] for o in objs}
    res = []
    for n, els in fd.tag.items():
        cf = by[by[n]["configuration"]]
        if typ[n] == "transformer":
            hi, lo, th, tl = xfmr_powers(fd, spec, n, V, aux)
            R = cf["power_rating"] * 1e3
            res += [(max(hi) * len(hi) / R, min(max(lo) * len(hi), tl) / R, n)]
        else:
            hi, lo = line_currents(els[0], V)
            phases = [{b["id"]: b["phase"] for b in spec["buses"]}[i] for i in els[0][1]]
            for k, ph in enumerate(phases):
                w = by[cf["conductor_" + ph]]
                if "rating.summer.emergency" in w:
                    R = glm.qty(w["rating.summer.emergency"], "A")
                    res.append((hi[k] / R, lo[k] / R, n + "." + ph))
    for b in spec["buses"]:
        if not b["virt"]:
            d = abs(abs(V[b["id"]]) - b["V"]) / b["V"] / 0.05
            res.append((d, d, b["name"] + "." + b["phase"]))
    if any(l > 1.003 for h, l, n in res):
        return True, max((l, n) for h, l, n in res)
    if all(h < 0.997 for h, l, n in res):
        return False, max((h, n) for h, l, n in res)
    return None, [(n, l, h) for h, l, n in res if h >= 0.997]


# ----------------------------------------------------------------
def cases(tier):
    for eq in EQ:
        parts = range(max(1, len(EQ[eq][1])))
        for part in parts:
            for level in LEVELS if EQ[eq][1] else (0,):
                for others in (0, 1) if len(EQ[eq][1]) > 1 else (0,):
                    for mode in ("hour", "swing", "quiet"):
                        yield {"parts": [[eq, part, level]], "others": others, "mode": mode}
        for mode in ("first", "second", "both", "none"):
            yield {"parts": [[eq, 0, 0.9]], "others": 0, "mode": mode}
    names = [e for e in EQ if not e.startswith("v")] + ["v+3A", "v+10B", "v-12C"]
    for a, b in itertools.combinations(names, 2):
        if a[0] == b[0] == "v":
            continue
        for la, lb in itertools.product((0.9, 1.1), repeat=2) if tier != "thorough" else itertools.product(LEVELS, repeat=2):
            if (a[0] == "v" and la > 1) or (b[0] == "v" and lb > 1):
                continue
            if tier != "thorough" and la > 1 and lb > 1:
                continue
            yield {"parts": [[a, 0, la], [b, 0, lb]], "others": 0, "mode": "hour"}


def prepare():
    G.solve_file(glm.text(copy.deepcopy(G.BASE) + copy.deepcopy(EQ["ct"][0] + EQ["dd"][0])), asm.settings())


def full_parts(case):
    parts = [tuple(p) for p in case["parts"]]
    if case["others"]:
        eq = parts[0][0]
        for k in range(len(EQ[eq][1])):
            if k != parts[0][1]:
                parts.append((eq, k, 0.4))
    return parts


def read_marks(stem):
    """(is the rating mark the last thing in the file, does it appear anywhere) for both files"""
    r = []
    for kind in ("voltage", "power"):
        txt = open(f"{stem}_{kind}.csv").read()
        r.append((txt.rstrip("\n").endswith(MARK), MARK in txt, txt.startswith("FAILURE")))
    return r


EXTRA = 42


def run_case(case):
    from logic.network.networkloader import NetworkLoader
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from logic.powerflow import PowerFlow
    out = Out()
    eqs = tuple(p[0] for p in case["parts"])
    objs, sol = base_solution(eqs)
    if sol[2] is None:
        out.outcome = "unsolvable"
        return out
    mode = case["mode"]
    objs = rate(objs, sol, full_parts(case))
    # a further load which the load file drives: no load in quiet hours, heavy (voltage out of range) in violating ones
    objs.append(G.load(f"x_{EXTRA}", "n2", "BN", constant_power_B=c(1000.0, 0.0)))
    heavy = 1.9e6
    seq = {"hour": [0.0], "quiet": [1.0], "swing": None, "first": [heavy, 1.0], "second": [1.0, heavy], "both": [heavy, heavy], "none": [1.0, 2.0]}[mode]
    want = []
    for h in seq or [1000.0]:
        o2 = copy.deepcopy(objs)
        setp(o2[-1], "constant_power_B", c(h, 0.0))
        want.append(verdict(o2))
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "case.glm")
        with open(p, "w") as f:
            f.write(glm.text(objs))
        st = asm.settings(tolerance=1e-6)
        lf = None
        if seq:
            lf = os.path.join(d, "l.csv")
            with open(lf, "w") as f:
                f.write(f"hour,cl_{EXTRA}B\n" + "".join(f"{i},{v!r}\n" for i, v in enumerate(seq)))
        stem = os.path.join(d, "o", "res")

        def go():
            net = NetworkLoader(st).from_file(p)
            ts = TimeSeriesSettings(loadfile_name=lf, loadfile_start=0, loadfile_end=len(seq or []), artificialswingbus="src", outputfile=stem)
            r = TimeSeriesProcessor(ts, PowerFlow(net, st)).execute()
            if not seq:
                r.output(stem + "_0")
            return r
        r = attempt(go)
        out.step(len(want))
        key = "+".join(eqs) + ":" + mode
        what = f"{case['parts']} {'others rated, ' if case['others'] else ''}{mode}"
        if r[0] == "err":
            out.bad(key + ":raised", f"{what}: {r[1]}")
            return out
        sig = []
        for h, (w, why) in enumerate(want):
            marks = read_marks(f"{stem}_{h}")
            sig.append([w if not isinstance(w, np.bool_) else bool(w), marks[0][0]])
            if w in (None, "unsolvable"):
                continue
            if any(m[2] for m in marks):
                out.bad(key + ":failed", f"{what}: hour {h} is reported as a failure")
                continue
            for m, kind in zip(marks, ("voltage", "power")):
                if m[1] != w or m[0] != w:
                    out.bad(key + (":missed" if w else ":false"), f"{what}: hour {h}: the {kind} file {'does not say' if w else 'says'} that a rating is violated; "
                            f"highest loading of the reference solution relative to its rating: {why}")
                    break
        out.state(case["parts"], case["others"], mode, sig)
        out.outcome = sig
    finally:
        shutil.rmtree(d)
    return out
