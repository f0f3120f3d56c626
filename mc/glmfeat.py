"""Feature alphabets for GLM feeders: each feature adds its own objects to a small base feeder."""
import copy
import os
import shutil
import tempfile
import numpy as np
from mc.core import Out, attempt
from mc import asm, glm
from mc.ref import physics

V = 7200.0


def O(t, name, *props, **kw):
    p = []
    for i in range(0, len(props), 2):
        p.append([props[i], props[i + 1]])
    for k, v in kw.items():
        p.append([k, v])
    return {"t": t, "name": name, "p": p}


def c(re, im=0.0):
    return ["c", re, im]


def q(v, unit, spaced=1):
    return ["q", v, unit, spaced]


SPACE = dict(distance_AB=2.5, distance_BC=4.5, distance_AC=7.0, distance_AN=5.65685, distance_BN=4.27200, distance_CN=5.0)
EARTH = dict(distance_AE=28.0, distance_BE=28.0, distance_CE=28.0, distance_NE=24.0)


def conductor(name, r=0.306, gmr=0.0244, dia=None, **kw):
    o = O("overhead_line_conductor", name, "geometric_mean_radius", gmr, "resistance", r, **kw)
    if dia:
        o["p"].append(["diameter", dia])
    return o


def spacing(name, **d):
    return O("line_spacing", name, *[x for k in d for x in (k, d[k])])


def cfg(name, sp=None, **cond):
    o = O("line_configuration", name, *[x for k in cond for x in ("conductor_" + k, cond[k])])
    if sp:
        o["p"].append(["spacing", sp])
    return o


BASE = [
    O("node", "src", bustype="SWING", phases="ABCN", nominal_voltage=V),
    conductor("wire", r=0.306, gmr=0.0244, dia=0.721), conductor("neut", r=0.592, gmr=0.00814, dia=0.563),
    spacing("spc", **SPACE), cfg("conf", "spc", A="wire", B="wire", C="wire", N="neut"),
    O("overhead_line", "l1", "phases", "ABCN", "from", "src", "to", "n1", "length", 3000.0, "configuration", "conf"),
    O("node", "n1", phases="ABCN", nominal_voltage=V),
    O("overhead_line", "l2", "phases", "ABCN", "from", "n1", "to", "n2", "length", 2000.0, "configuration", "conf"),
    O("node", "n2", phases="ABCN", nominal_voltage=V),
    O("load", "ld", "parent", "n2", "phases", "ABCN", "nominal_voltage", V, "constant_power_A", c(90000.0, 30000.0),
      "constant_power_B", c(60000.0, 25000.0), "constant_power_C", c(75000.0, 10000.0)),
]


def node(n, ph="ABCN", v=V, **kw):
    return O("node", n, phases=ph, nominal_voltage=v, **kw)


def load(n, parent, ph, **kw):
    o = O("load", n, "phases", ph, "nominal_voltage", V, **kw)
    if parent:
        o["p"].insert(0, ["parent", parent])
    return o


def line(n, f, t, ph="ABCN", length=1500.0, conf="conf", kind="overhead_line"):
    return O(kind, n, "phases", ph, "from", f, "to", t, "length", length, "configuration", conf)


def pload(n, parent, ph, p=40000.0, qq=15000.0):
    """a wye load with a different power in each phase"""
    kw = {"constant_power_" + k: c(p * (1 + 0.3 * i), qq * (1 - 0.2 * i)) for i, k in enumerate(x for x in ph if x in "ABC")}
    return load(n, parent, ph, **kw)


def tri_base(pre, ph="A", S=25.0, **conf):
    """a centre-tap transformer from n2 feeding node <pre>t"""
    cf = dict(connect_type="SINGLE_PHASE_CENTER_TAPPED", primary_voltage=V, secondary_voltage=120.0, power_rating=S, impedance=c(0.011, 0.018))
    cf.update(conf)
    return [O("transformer_configuration", pre + "tc", *[x for k in cf for x in (k, cf[k])]),
            O("transformer", pre + "tx", "phases", ph + "S", "from", "n2", "to", pre + "t", "configuration", pre + "tc"),
            O("triplex_node", pre + "t", phases=ph + "S", nominal_voltage=120.0)]


def tri_line(pre, f, t, ph="A", length=120.0, kind=None):
    return [O("triplex_line_conductor", pre + "tw", resistance=0.97, geometric_mean_radius=0.0111),
            O("triplex_line_configuration", pre + "tlc", conductor_1=pre + "tw", conductor_2=pre + "tw", conductor_N=pre + "tw",
              insulation_thickness=0.08, diameter=0.368),
            O("triplex_line", pre + "tl", "phases", ph + "S", "from", f, "to", t, "length", length, "configuration", pre + "tlc")]


def tri(n, parent, ph="A", cls="triplex_node", **kw):
    o = O(cls, n, "phases", ph + "S", "nominal_voltage", 120.0, **kw)
    if parent:
        o["p"].insert(0, ["parent", parent])
    return o



def frac(c):
    return {f"{k}_{x}_{c}": float(x == "pf" or k == "power") for k in ("power", "impedance", "current") for x in ("fraction", "pf")}


def sched(name, *blocks):
    return {"t": "schedule", "name": name, "p": [], "blocks": [list(b) for b in blocks]}


LOADS = {
    "pA": [load("pA", "n2", "AN", constant_power_A=c(50000.0, 20000.0))],
    "pBC": [load("pBC", "n1", "BCN", constant_power_B=c(50000.0, -20000.0), constant_power_C=c(30000.0, 0.0))],
    "pneg": [load("pneg", "n2", "CN", constant_power_C=c(-60000.0, 5000.0))],
    "ponly": [load("ponly", "n2", "BN", constant_power_B=c(45000.0, 0.0))],
    "qonly": [load("qonly", "n2", "BN", constant_power_B=c(0.0, 35000.0))],
    "zero": [load("zero", "n2", "ABCN", constant_power_A=c(0.0, 0.0))],
    "unset": [load("unset", "n2", "ABCN", constant_power_B=c(20000.0, 9000.0))],
    "own": [load("own", None, "ABCN", constant_power_A=c(40000.0, 8000.0), constant_power_C=c(20000.0, 9000.0)), line("ownl", "n1", "own")],
    "ownA": [load("ownA", None, "AN", constant_power_A=c(40000.0, 8000.0)), line("ownAl", "n1", "ownA", "AN")],
    "delta": [load("delta", "n2", "ABCD", constant_power_A=c(30000.0, 12000.0), constant_power_B=c(20000.0, 5000.0), constant_power_C=c(10000.0, -4000.0))],
    "deltaAB": [load("deltaAB", "n2", "ABD", constant_power_A=c(30000.0, 12000.0))],
    "deltaexp": [load("deltaexp", "n2", "ABCD", constant_power_AB=c(30000.0, 12000.0), constant_power_CA=c(7000.0, 2000.0))],
    "ll": [load("ll", "n2", "ABCN", constant_power_BC=c(25000.0, 10000.0), constant_power_A=c(10000.0, 3000.0))],
    "z": [load("z", "n2", "ABCN", constant_impedance_A=c(900.0, 300.0), constant_impedance_B=c(1500.0, -200.0), constant_impedance_C=c(2000.0, 0.0))],
    "zx": [load("zx", "n1", "CN", constant_impedance_C=c(0.0, 800.0))],
    "zdelta": [load("zdelta", "n2", "ABCD", constant_impedance_A=c(3900.0, 300.0), constant_impedance_C=c(2500.0, 800.0))],
    "i": [load("i", "n2", "ABCN", constant_current_A=c(6.0, -2.0), constant_current_B=c(-4.0, -3.0), constant_current_C=c(0.0, 5.0))],
    "idelta": [load("idelta", "n1", "ABCD", constant_current_A=c(4.0, 1.0), constant_current_B=c(-2.0, -3.0))],
    "ideltaCA": [load("idca", "n2", "ABCD", constant_current_C=c(5.0, -1.5))],
    "zip1": [load("zip1", "n2", "AN", constant_power_A=c(20000.0, 5000.0), constant_impedance_A=c(2000.0, 700.0), constant_current_A=c(3.0, -1.0))],
    "zip3": [load("zip3", "n2", "ABCN", constant_power_A=c(20000.0, 5000.0), constant_impedance_B=c(2000.0, 700.0), constant_current_C=c(3.0, -1.0))],
    "bp": [load("bp", "n2", "BN", base_power_B=26000.0, **frac("B"))],
    "bpsch": [load("bpsch", "n2", "AN", base_power_A=["s", "scha", 30000.0, 1], **frac("A")),
              sched("scha", [None, [["* 0-11 * * *", 0.3], ["* 12-23 * * *", 0.8]]])],
    "bpweek": [load("bpw", "n2", "CN", base_power_C=["s", "schb", 30000.0, 0], **frac("C")),
               sched("schb", ["weekend", [["* * * * 0,6", 0.2]]], ["weekday", [["* 0-11 * * 1-5", 0.4], ["* 12-23 * * 1-5", 1.1]]]),
               load("bpw2", "n2", "AN", base_power_A=["s", "schz", 20000.0, 1], **frac("A")),
               sched("schz", ["early", [["* 0-13 * * *", 0.2]]], ["middle", [["* 14 * * *", 0.9]]], ["late", [["* 15-23 * * *", 0.5]]])],
    "bpyear": [load("bpy", "n2", "BN", base_power_B=["s", "schc", 30000.0, 1], **frac("B")), load("bpy2", "n2", "AN", base_power_A=["s", "schd", 9000.0, 0], **frac("A")),
               sched("schc", [None, [["* * * 1-5 *", 0.5], ["* * * 6-8 *", 0.7], ["* * * 9-12 *", 0.1]]]),
               sched("schd", [None, [["30-59 * * * *", 0.5], ["0-29 14 2-31 * *", 0.6], ["0-29 14 1 * *", 1.3], ["0-29 0-13,15-23 * * *", 0.9]]]),
               sched("sche", ["weekday", [["* * * * 1-5", 0.5]]], ["weekend", [["* * * * 0,6", 0.5]]])],
    "meter": [O("meter", "mt", "parent", "n2", "phases", "ABCN", "nominal_voltage", V), pload("mtl", "mt", "ABCN")],
    "chain": [node("ch1", "ABCN"), line("chl", "n2", "ch1"), O("node", "ch2", "parent", "ch1", "phases", "ABCN", "nominal_voltage", V),
              O("meter", "ch3", "parent", "ch2", "phases", "ABCN", "nominal_voltage", V), pload("chld", "ch3", "ABCN")],
    "early": [pload("eld", "em", "ABCN"), O("meter", "em", "parent", "en", "phases", "ABCN", "nominal_voltage", V), node("en"), line("el", "n1", "en")],
    "deep": [pload("dpl", "dp4", "ABCN"), O("meter", "dp4", "parent", "dp3", "phases", "ABCN", "nominal_voltage", V),
             O("node", "dp3", "parent", "dp2", "phases", "ABCN", "nominal_voltage", V), O("meter", "dp2", "parent", "dp1", "phases", "ABCN", "nominal_voltage", V),
             O("node", "dp1", "parent", "dp0", "phases", "ABCN", "nominal_voltage", V), node("dp0"), line("dpln", "n1", "dp0")],
    "deepmixed": [O("meter", "dm2", "parent", "dm1", "phases", "ACN", "nominal_voltage", V), O("meter", "dm4", "parent", "dm3", "phases", "CN", "nominal_voltage", V),
                  node("dm0"), O("meter", "dm3", "parent", "dm2", "phases", "ACN", "nominal_voltage", V), pload("dml", "dm4", "CN"),
                  O("meter", "dm1", "parent", "dm0", "phases", "ABCN", "nominal_voltage", V), pload("dmk", "dm2", "ACN"), line("dmln", "dm0", "n1")],
    "chnonom": [O("meter", "wonm", "parent", "n2", "phases", "ABCN"), pload("wonl", "wonm", "ABCN")],
    "chnonomearly": [pload("cnel", "cnem", "ABCN"), O("meter", "cnem", "parent", "cnen", "phases", "ABCN"), node("cnen"), line("cnell", "n1", "cnen")],
    "childph": [O("node", "cp", "parent", "n2", "phases", "AC", "nominal_voltage", V), pload("cpl", "cp", "AC")],
    "linkchild": [O("meter", "lc", "parent", "n2", "phases", "ABCN", "nominal_voltage", V), node("lcn"), line("lcl", "lc", "lcn"), pload("lcld", "lcn", "ABCN")],
    "loadname": [load("node_load_77", "n2", "AN", constant_power_A=c(12000.0, 4000.0))],
    "volts": [node("vn", "ABCN", voltage_A=c(7195.0, 30.0), voltage_B=c(-3598.0, -6232.0), voltage_C=c(-3605.0, 6236.0)), line("vl", "n2", "vn"), pload("vld", "vn", "ABCN")],
    "t12": tri_base("t12", "A") + [tri("t12d", "t12t", power_12=c(3000.0, 900.0))],
    "t1": tri_base("t1", "B") + [tri("t1d", "t1t", "B", power_1=c(2000.0, 600.0))],
    "t2": tri_base("t2", "C") + [tri("t2d", "t2t", "C", power_2=c(2000.0, -300.0))],
    "tall": tri_base("ta", "C") + [tri("tad", "tat", "C", power_1=c(1500.0, 200.0), power_2=c(800.0, 500.0), power_12=c(2500.0, 700.0))],
    "tself": tri_base("ts", "A")[:2] + [tri("tst", None, "A", power_12=c(2500.0, 700.0), power_1=c(300.0, 100.0))],
    "tline": tri_base("tl", "B") + tri_line("tl", "tlt", "tle", "B") + [tri("tle", None, "B", "triplex_meter"), tri("tld", "tle", "B", power_12=c(4000.0, 1200.0), power_2=c(500.0, 100.0))],
    "tmeter": tri_base("tm", "A") + tri_line("tm", "tmt", "tme") + [tri("tme", None, "A", "triplex_meter", power_12=c(3500.0, 1000.0))],
    "tz": tri_base("tz", "C") + [tri("tzd", "tzt", "C", impedance_12=c(20.0, 5.0), impedance_1=c(15.0, 3.0))],
    "tcur": tri_base("tk", "B") + [tri("tkd", "tkt", "B", current_1=c(-5.0, 8.0), current_12=c(-3.0, -4.0))],
    "tconst": tri_base("tq", "A") + [O("triplex_load", "tqd", "parent", "tqt", "phases", "AS", "nominal_voltage", 120.0,
                                       "constant_power_12", c(2200.0, 400.0), "constant_power_1", c(600.0, 90.0))],
}

UG = dict(outer_diameter=1.29, conductor_gmr=0.0171, conductor_diameter=0.567, conductor_resistance=0.41, neutral_gmr=0.00208,
          neutral_resistance=14.8722, neutral_diameter=0.0641, neutral_strands=13)
UGS = dict(distance_AB=0.5, distance_BC=0.5, distance_AC=1.0)


def ug(pre, ph, sp, wires, length=2500.0, neutral=None, **over):
    p = dict(UG)
    p.update(over)
    out = [O("underground_line_conductor", pre + "w", *[x for k in p for x in (k, p[k])])]
    cond = {w: pre + "w" for w in wires if w != "N"}
    if neutral:
        out.append(O("underground_line_conductor", pre + "nw", *[x for k in neutral for x in (k, neutral[k])]))
        cond["N"] = pre + "nw"
    if sp:
        out.append(spacing(pre + "sp", **sp))
    out.append(cfg(pre + "cf", pre + "sp" if sp else None, **cond))
    out += [node(pre + "n", ph), line(pre + "l", "n1", pre + "n", ph, length, pre + "cf", "underground_line"), pload(pre + "ld", pre + "n", ph)]
    return out


def oh(pre, ph, length=4000.0, at="n1", conf=None, extra=()):
    return list(extra) + [node(pre + "n", ph), line(pre + "l", at, pre + "n", ph, length, conf or "conf"), pload(pre + "ld", pre + "n", ph)]


# impedance matrix of a whole three-phase configuration, ohm/mile (IEEE 13 configuration 601, made unsymmetrical phase to phase)
ZM = dict(z11=c(0.3465, 1.0179), z12=c(0.156, 0.5017), z13=c(0.158, 0.4236), z21=c(0.156, 0.5017), z22=c(0.3375, 1.0478), z23=c(0.1535, 0.3849),
          z31=c(0.158, 0.4236), z32=c(0.1535, 0.3849), z33=c(0.5414, 1.1348))


def zc(n, *keys, sp=None, **cond):
    o = cfg(n, sp, **cond)
    o["p"] += [[k, ZM[k]] for k in (keys or ZM)]
    return o


def zug(pre, ph, wires, **zs):
    o = ug(pre, ph, UGS, wires, 6000.0)
    [x for x in o if x["t"] == "line_configuration"][0]["p"] += [[k, ZM[k]] for k in ZM]
    return o


LINES = {
    "z3": oh("z3", "ABCN", conf="z3c", extra=[zc("z3c")]), "zsub": oh("zsb", "BCN", conf="zsbc", extra=[zc("zsbc")]),
    "zown": oh("zow", "ACN", conf="zowc", extra=[zc("zowc", "z11", "z13", "z31", "z33")]), "zone": oh("zon", "CN", conf="zonc", extra=[zc("zonc", "z33")]),
    "zdiag": oh("zdg", "ABC", conf="zdgc", extra=[zc("zdgc", "z11", "z22", "z33")]),
    "zover": oh("zov", "ABCN", 20000.0, conf="zovc", extra=[spacing("zovs", **SPACE, **EARTH), zc("zovc", sp="zovs", A="wire", B="wire", C="wire", N="neut")]),
    "zug": [node("zugn", "ABCN"), zc("zugc"), line("zugl", "n1", "zugn", "ABCN", 6000.0, "zugc", "underground_line"), pload("zugd", "zugn", "ABCN")],
    "zugov": zug("zuo", "BCN", "ABC"),
    "ztri": tri_base("xz", "A") + [O("triplex_line_configuration", "xzc", z11=c(2.1, 1.4), z12=c(0.6, 1.0), z21=c(0.6, 1.0), z22=c(2.4, 1.5)),
            O("triplex_line", "xzl", "phases", "AS", "from", "xzt", "to", "xze", "length", 150.0, "configuration", "xzc"),
            tri("xze", None, "A", power_1=c(1500.0, 300.0), power_12=c(2500.0, 300.0))],
    "abcn": oh("abcn", "ABCN"),
    "abc": oh("abc", "ABC", conf="abcc", extra=[cfg("abcc", "spc", A="wire", B="neut", C="wire")]),
    "abcx": oh("abcx", "ABC"),                     # configuration has a neutral the line lacks
    "an": oh("an", "AN"), "bn": oh("bn", "BN"), "cn": oh("cn", "CN"),
    "acn": oh("acn", "ACN"), "abn": oh("abn", "ABN"), "bcn": oh("bcn", "BCN"),
    "ac": oh("ac", "AC", conf="acc", extra=[cfg("acc", "spc", A="wire", C="neut")]),
    "bc": oh("bc", "BC", conf="bcc", extra=[spacing("bcsp", distance_BC=3.25), cfg("bcc", "bcsp", B="wire", C="neut")]),
    "b": oh("b1", "B", conf="bcf", extra=[cfg("bcf", None, B="wire")]),
    "cnown": oh("cno", "CN", conf="cnc", extra=[spacing("cnsp", distance_CN=4.5), cfg("cnc", "cnsp", C="wire", N="neut")]),
    "bcnown": oh("bco", "BCN", conf="bccf", extra=[cfg("bccf", "spc", B="neut", C="wire", N="neut")]),
    "uneq": oh("uneq", "ABCN", conf="unc", extra=[conductor("w3", 0.19, 0.031, 0.8), cfg("unc", "spc", A="w3", B="wire", C="neut", N="wire")]),
    "earth": oh("earth", "ABCN", 20000.0, conf="eac", extra=[spacing("easp", **SPACE, **EARTH), cfg("eac", "easp", A="wire", B="wire", C="wire", N="neut")]),
    "earth3": oh("earth3", "ABC", 20000.0, conf="e3c", extra=[spacing("e3sp", distance_AB=3.0, distance_BC=4.0, distance_AC=6.5, distance_AE=30.0, distance_BE=30.0, distance_CE=30.0), cfg("e3c", "e3sp", A="wire", B="neut", C="wire")]),
    "earthBC": oh("ebc", "BCN", 20000.0, conf="ebcc", extra=[spacing("ebsp", **SPACE, **EARTH), cfg("ebcc", "ebsp", B="wire", C="neut", N="neut")]),
    "earthh": oh("ehh", "ABCN", 20000.0, conf="ehc", extra=[spacing("ehsp", distance_AB=4.2, distance_BC=4.2, distance_AC=7.0, distance_AN=5.0, distance_BN=7.5, distance_CN=5.0, distance_AE=28.0, distance_BE=30.5, distance_CE=28.0, distance_NE=24.0), cfg("ehc", "ehsp", A="wire", B="wire", C="wire", N="neut")]),
    "earthA": oh("eaa", "AN", 20000.0, conf="eaac", extra=[spacing("eaasp", distance_AN=4.0, distance_AE=29.0, distance_NE=25.0), cfg("eaac", "eaasp", A="wire", N="neut")]),
    "inch": oh("inch", "ABCN", conf="inc", extra=[spacing("insp", **{k: q(v * 12, "in") for k, v in SPACE.items()}), cfg("inc", "insp", A="wire", B="wire", C="wire", N="neut")]),
    "feet": oh("feet", "ABCN", q(4000.0, "ft"), conf="ftc", extra=[spacing("ftsp", **{k: q(v, "ft") for k, v in SPACE.items()}), cfg("ftc", "ftsp", A="wire", B="wire", C="wire", N="neut")]),
    "km": oh("km", "ABCN", q(1.4, "km", 0)), "kms": oh("kms", "ABCN", q(1.4, "km", 1)),
    "mile": oh("mile", "ABCN", q(0.9, "mile")), "metre": oh("mtr", "ABCN", q(1300.0, "m")),
    "ohmkm": oh("okm", "ABCN", conf="okc", extra=[O("overhead_line_conductor", "okw", geometric_mean_radius=0.0244, resistance=q(0.19, "Ohm/km", 0)), cfg("okc", "spc", A="okw", B="okw", C="okw", N="okw")]),
    "ohmkms": oh("oks", "ABCN", conf="oksc", extra=[O("overhead_line_conductor", "oksw", geometric_mean_radius=0.0244, resistance=q(0.19, "Ohm/km", 1)), cfg("oksc", "spc", A="oksw", B="oksw", C="oksw", N="oksw")]),
    "gmrcm": oh("gcm", "ABCN", conf="gcc", extra=[O("overhead_line_conductor", "gcw", geometric_mean_radius=q(0.74, "cm", 0), resistance=0.3), cfg("gcc", "spc", A="gcw", B="gcw", C="gcw", N="gcw")]),
    "gmrft": oh("gft", "ABCN", conf="gfc", extra=[O("overhead_line_conductor", "gfw", geometric_mean_radius=q(0.0231, "ft"), resistance=0.3), cfg("gfc", "spc", A="gfw", B="gfw", C="gfw", N="gfw")]),
    "par": [line("par", "n1", "n2", "ABCN", 5000.0)],
    "parA": [line("parA", "n1", "n2", "AN", 2600.0)],
    "rev": [line("rev", "n2", "src", "ABCN", 9000.0)],
    "short": oh("short", "ABCN", 1.0), "long": oh("long", "ABCN", 40000.0),
    "anon": [dict(o, anon=1) if o["t"] == "underground_line" else o for o in ug("anon", "ABCN", UGS, "ABC")],
    "ug": ug("ug", "ABCN", UGS, "ABC", 6000.0), "uglong": ug("ugl", "ABCN", UGS, "ABC", 30000.0),
    "ugA": ug("ugA", "AN", None, "A", 6000.0), "ugC": ug("ugC", "CN", UGS, "C", 6000.0),
    "ugAC": ug("ugAC", "ACN", UGS, "AC", 6000.0), "ugsub": ug("ugsub", "BCN", UGS, "ABC", 6000.0), "ugA3": ug("ugA3", "AN", UGS, "ABC", 6000.0),
    "ugN": ug("ugN", "ABCN", dict(UGS, distance_AN=0.6, distance_BN=0.45, distance_CN=0.7), "ABC", 6000.0,
              neutral=dict(outer_diameter=0.6, conductor_gmr=0.011, conductor_resistance=0.6, conductor_diameter=0.4)),
    "ugk": ug("ugk", "ABCN", UGS, "ABC", 6000.0, neutral_strands=6, neutral_resistance=9.0),
    "ugin": ug("ugin", "ABCN", {k: q(v * 12, "in") for k, v in UGS.items()}, "ABC", 6000.0),
    "ugkm": ug("ugkm", "ABCN", UGS, "ABC", 6000.0, conductor_resistance=q(0.3, "Ohm/km", 0)),
    "tri": tri_base("xa", "A") + tri_line("xa", "xat", "xae", "A", 300.0) + [tri("xae", None, "A", power_1=c(1500.0, 300.0), power_12=c(2500.0, 300.0))],
    "triC": tri_base("xc", "C") + tri_line("xc", "xct", "xce", "C", q(0.1, "km", 0)) + [tri("xce", None, "C", power_2=c(1500.0, 300.0), power_12=c(2500.0, 300.0))],
    "tri2": tri_base("xd", "B") + tri_line("xd", "xdt", "xdm", "B", 100.0) + [tri("xdm", None, "B", "triplex_meter")] +
            [O("triplex_line", "xdl2", "phases", "BS", "from", "xdm", "to", "xde", "length", 80.0, "configuration", "xdtlc"), tri("xde", None, "B", power_12=c(3500.0, 600.0))],
    "nocap": "NOCAP",
}


def xf(pre, ct, ph, v1, v2, S, z=(0.01, 0.06), sep=None, at="n2", nodeph=None, **over):
    cf = dict(connect_type=ct, primary_voltage=v1, secondary_voltage=v2)
    cf.update(S if isinstance(S, dict) else {"power_rating": S})
    cf.update(dict(resistance=z[0], reactance=z[1]) if sep else dict(impedance=c(*z)))
    cf.update(over)
    ln = 2400.0
    return [O("transformer_configuration", pre + "c", *[x for k in cf for x in (k, cf[k])]), node(pre + "n", nodeph or ph, ln),
            O("transformer", pre + "x", "phases", ph, "from", at, "to", pre + "n", "configuration", pre + "c"), pload(pre + "ld", pre + "n", nodeph or ph, 60000.0, 20000.0)]


L1, L2 = 12470.7658, 4156.9219


def reg(pre, taps=(3, -2, 0), typ=None, up=16, lo=16, at="n2", ctrl="MANUAL"):
    p = dict(connect_type=1, band_center=7200.0, band_width=120.0, time_delay=30.0, raise_taps=up, lower_taps=lo, regulation=0.1,
             Control=ctrl, tap_pos_A=taps[0], tap_pos_B=taps[1], tap_pos_C=taps[2])
    if typ:
        p["Type"] = typ
    return [O("regulator_configuration", pre + "c", *[x for k in p for x in (k, p[k])]), node(pre + "n"),
            O("regulator", pre + "r", "phases", "ABCN", "from", at, "to", pre + "n", "configuration", pre + "c"), pload(pre + "ld", pre + "n", "ABCN")]


def sw(pre, cls="switch", loop=False, **p):
    if loop:            # between two nodes already connected
        return [line(pre + "l", "n1", pre + "m"), node(pre + "m"),
                O(cls, pre, "phases", "ABCN", "from", pre + "m", "to", "n2", *[x for k in p for x in (k, p[k])]), pload(pre + "ld", pre + "m", "ABCN")]
    return [node(pre + "n"), O(cls, pre, "phases", "ABCN", "from", "n2", "to", pre + "n", *[x for k in p for x in (k, p[k])]), pload(pre + "ld", pre + "n", "ABCN")]


def cap(pre, ph="ABCN", at="n2", vn=7200.0, **p):
    return [O("capacitor", pre, "parent", at, "phases", ph, "cap_nominal_voltage", vn, "nominal_voltage", V, *[x for k in p for x in (k, p[k])])]


KV = 100000.0
DEVS = {
    "yy": xf("yy", "WYE_WYE", "ABCN", L1, L2, 600.0), "yyn": xf("yyn", 1, "ABCN", V, 2400.0, 600.0),
    "dd": xf("dd", "DELTA_DELTA", "ABCD", L1, L2, 600.0, nodeph="ABC")[:3] + [
        load("ddld", "ddn", "ABCN", constant_impedance_A=c(120.0, 30.0), constant_impedance_B=c(200.0, 50.0), constant_impedance_C=c(160.0, -20.0)),
        load("ddl2", "ddn", "ABCD", constant_power_A=c(30000.0, 12000.0), constant_power_C=c(20000.0, 5000.0))],
    "dy": xf("dy", "DELTA_GWYE", "ABCN", L1, L2, 600.0), "dyn": xf("dyn", 3, "ABCN", L1, L2, 600.0, sep=1),
    "yysep": xf("yysep", "WYE_WYE", "ABCN", L1, L2, 600.0, (0.012, 0.05), sep=1),
    "yykv": xf("yykv", "WYE_WYE", "ABCN", q(12.4707658, "kV", 0), q(4.1569219, "kV", 0), q(600.0, "kVA", 0)),
    "yykvs": xf("yykvs", "WYE_WYE", "ABCN", q(12.4707658, "kV", 1), q(4.1569219, "kV", 1), q(600.0, "kVA", 1)),
    "yyv": xf("yyv", "WYE_WYE", "ABCN", q(L1, "V", 1), q(L2, "V", 1), q(0.6, "MVA", 1)),
    "yyabc": xf("yyabc", "WYE_WYE", "ABCN", L1, L2, dict(powerA_rating=200.0, powerB_rating=200.0, powerC_rating=200.0)),
    "yyboth": xf("yyboth", "WYE_WYE", "ABCN", L1, L2, dict(power_rating=450.0, powerA_rating=150.0, powerB_rating=150.0, powerC_rating=150.0)),
    "yyup": xf("yyup", "WYE_WYE", "ABCN", L1, L2, 600.0, (0.0, 0.04)),
    "yyr": xf("yyr", "WYE_WYE", "ABCN", L1, L2, 600.0, (0.03, 0.0)),
    "sp": xf("sgA", "SINGLE_PHASE", "AN", V, 2400.0, 200.0), "spB": xf("sgB", 4, "BN", V, 2400.0, 200.0, (0.02, 0.03), sep=1),
    "spC": xf("sgC", "SINGLE_PHASE", "CN", V, 2300.0, dict(powerC_rating=150.0)),
    "ctA": tri_base("ctA", "A") + [tri("ctAd", "ctAt", power_12=c(5000.0, 900.0), power_1=c(1000.0, 0.0))],
    "ctB": tri_base("ctB", "B", 50.0, connect_type=5) + [tri("ctBd", "ctBt", "B", power_12=c(5000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctsep": [o if o["t"] != "transformer_configuration" else dict(o, p=[x for x in o["p"] if x[0] != "impedance"] + [["resistance", 0.015], ["reactance", 0.02]])
              for o in tri_base("cts", "C")] + [tri("ctsd", "ctst", "C", power_12=c(5000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctimp": [o if o["t"] != "transformer_configuration" else dict(o, p=[x for x in o["p"] if x[0] != "impedance"] + [["resistance", 0.012], ["reactance", 0.016], ["impedance1", c(0.024, 0.01)], ["impedance2", c(0.024, 0.013)]])
              for o in tri_base("cti", "A")] + [tri("ctid", "ctit", "A", power_12=c(5000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctx": tri_base("ctx", "A", impedance=c(0.0, 0.019)) + [tri("ctxd", "ctxt", "A", power_1=c(4000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctr": tri_base("ctr", "C", impedance=c(0.019, 0.0)) + [tri("ctrd", "ctrt", "C", power_1=c(4000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctone": tri_base("cto", "C", impedance=c(0.0, 0.0136), impedance1=c(0.0, 0.0204), impedance2=c(0.015, 0.0)) + [tri("ctod", "ctot", "C", power_1=c(4000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctzz": tri_base("ctz", "B", impedance=c(0.006, 0.0136), impedance1=c(0.012, 0.0204), impedance2=c(0.015, 0.0304)) +
            [tri("ctzd", "ctzt", "B", power_1=c(4000.0, 900.0), power_2=c(2000.0, 100.0))],
    "ctkv": tri_base("ctkv", "A", primary_voltage=q(7.2, "kV", 0), secondary_voltage=q(0.12, "kV", 0)) + [tri("ctkvd", "ctkvt", power_12=c(5000.0, 900.0), power_2=c(1000.0, 0.0))],
    "ctpa": [o if o["t"] != "transformer_configuration" else dict(o, p=[x if x[0] != "power_rating" else ["powerB_rating", 37.5] for x in o["p"]])
             for o in tri_base("ctpa", "B")] + [tri("ctpad", "ctpat", "B", power_12=c(5000.0, 900.0), power_2=c(1000.0, 0.0))],
    "xchain": xf("xc1", "WYE_WYE", "ABCN", L1, L2, 900.0) + xf("xc2", "WYE_WYE", "ABCN", L2, L2, 700.0, (0.02, 0.05), at="xc1n"),
    "xpar": [O("transformer_configuration", "xpc", connect_type="WYE_WYE", primary_voltage=L1, secondary_voltage=L2, power_rating=500.0, impedance=c(0.01, 0.05)),
             node("xpn", v=2400.0), O("transformer", "xp1", "phases", "ABCN", "from", "n2", "to", "xpn", "configuration", "xpc"),
             O("transformer", "xp2", "phases", "ABCN", "from", "n1", "to", "xpn", "configuration", "xpc"), pload("xpl", "xpn", "ABCN")],
    "regB": reg("regB"), "regA": reg("regA", (5, 1, -4), "A"), "regBx": reg("regBx", (-8, 16, 7), "B"), "reglim": reg("reglim", (8, -12, 0), "A", 8, 12),
    "reg0": reg("reg0", (0, 0, 0)), "reg2": reg("rga", (2, 2, 2)) + reg("rgb", (-3, 0, 1), "A", at="rgan"),
    "capopen": cap("capopen", capacitor_A=KV, capacitor_B=KV, capacitor_C=KV, control="MANUAL"),
    "capdef": cap("capdef", capacitor_A=KV, capacitor_B=KV, capacitor_C=KV, switchA="CLOSED", switchC="CLOSED"),
    "capcl": cap("capcl", phases_connected="ABCN", capacitor_A=KV, capacitor_B=2 * KV, capacitor_C=KV / 2, control="MANUAL", switchA="CLOSED", switchB="CLOSED", switchC="CLOSED"),
    "capmix": cap("capmix", capacitor_A=KV, capacitor_B=KV, capacitor_C=KV, control="MANUAL", switchA="CLOSED", switchB="OPEN"),
    "capsub": cap("capsub", phases_connected="BN", capacitor_A=KV, capacitor_B=KV, capacitor_C=KV, control="MANUAL", switchA="CLOSED", switchB="CLOSED", switchC="CLOSED"),
    "capC": cap("capC", "CN", "n1", 7000.0, capacitor_C=3 * KV, control="MANUAL", switchC="CLOSED"),
    "capmva": cap("capmva", capacitor_A=q(0.2, "MVAr"), capacitor_B=q(0.1, "MVAr"), control="MANUAL", switchA="CLOSED", switchB="CLOSED"),
    "capkva": cap("capkva", capacitor_A=q(200.0, "kVAr"), capacitor_B=q(150.0, "kVAr"), control="MANUAL", switchA="CLOSED", switchB="CLOSED"),
    "capvolt": cap("capvolt", capacitor_A=KV, capacitor_B=KV, control="VOLT", switchA="CLOSED", switchB="CLOSED"),
    "swc": sw("swc", status="CLOSED"), "swdef": sw("swdef"), "swo": sw("swo", loop=True, status="OPEN"), "swl": sw("swl", loop=True, status="CLOSED"),
    "swph": sw("swph", loop=True, phase_A_state="CLOSED", phase_B_state="OPEN", phase_C_state="CLOSED"),
    "swone": sw("swone", loop=True, phase_B_state="OPEN"), "swall": sw("swall", phase_A_state="CLOSED", phase_B_state="CLOSED", phase_C_state="CLOSED"),
    "swa": [node("swan", "AN"), O("switch", "swa", "phases", "AN", "from", "n2", "to", "swan", "status", "CLOSED"), pload("swald", "swan", "AN")],
    "rec": sw("rec", "recloser", status="CLOSED"),
    "fu": sw("fu", "fuse", current_limit=500.0, status="CLOSED"), "fudef": sw("fudef", "fuse", current_limit=500.0),
    "fuph": sw("fuph", "fuse", current_limit=q(500.0, "A"), phase_A_status="GOOD", phase_B_status="GOOD", phase_C_status="GOOD"),
    "fuone": sw("fuone", "fuse", current_limit=500.0, phase_B_status="GOOD"),
    "fub": [node("fubn", "BN"), O("fuse", "fub", "phases", "BN", "from", "n2", "to", "fubn", "current_limit", 300.0, "status", "CLOSED"), pload("fubld", "fubn", "BN")],
    "regcap": reg("rcp", (4, 4, 4)) + cap("rcpcap", at="rcpn", capacitor_A=KV, capacitor_B=KV, capacitor_C=KV, control="MANUAL", switchA="CLOSED", switchB="CLOSED", switchC="CLOSED"),
}

# features with a recorded finding: only tried on their own
FINDINGS = {
    "zipfrac": [load("zipfrac", "n2", "AN", base_power_A=50000.0, power_fraction_A=0.6, power_pf_A=0.9, impedance_fraction_A=0.4,
                     impedance_pf_A=0.95, current_fraction_A=0.0, current_pf_A=1.0)],
}
ALL = {}
for g in (LOADS, LINES, DEVS):
    for k_, v_ in g.items():
        assert k_ not in ALL, k_
        ALL[k_] = v_


def objects(fs):
    out = copy.deepcopy(BASE)
    cap_ = True
    for f in fs:
        if f in FINDINGS:
            out += copy.deepcopy(FINDINGS[f])
        elif ALL[f] == "NOCAP":
            cap_ = False
        else:
            out += copy.deepcopy(ALL[f])
    names = [o["name"] for o in out]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    return out, cap_


def x0_of(spec):
    x = []
    Vc = {b["id"]: b["V"] * np.exp(1j * b["ang"]) for b in spec["buses"]}
    for key in physics.unknowns(spec):
        if key[0] == "V":
            z = Vc[key[1]]
        elif key[0] == "S":
            e = spec["els"][key[1]]
            if e[0] == "reg":
                z = Vc[e[1]]
            else:
                z = (Vc[e[1]] - (Vc[e[2]] if e[2] is not None else 0)) / e[7]
        else:
            z = 0
        z = complex(z)
        x.append(z.real if key[-1] == 0 else z.imag)
    return np.array(x)


def newton(spec, iters=25):
    x = x0_of(spec)
    last = None
    for k in range(iters):
        F = physics.evalF(spec, x)
        try:
            dx = np.linalg.solve(physics.jacF(spec, x), F)
        except np.linalg.LinAlgError:
            return None
        x = x - dx
        if not np.all(np.isfinite(x)):
            return None
        s = np.max(np.abs(dx))
        if s < 1e-8:
            return x
        last = s
    return None


def solve_file(txt, st, name="case.glm"):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, name)
        for n, t in (txt if isinstance(txt, dict) else {name: txt}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        return attempt(lambda: PowerFlow(NetworkLoader(st).from_file(p), st).execute())
    finally:
        shutil.rmtree(d)


def compare(out, key, what, r, spec, order_by_name=True, tol=2e-6):
    """r: attempt() result of the real tool; spec: the reference network"""
    xr = newton(spec)
    out.step(2)
    if xr is None:
        out.outcome = "unsolvable"
        return
    if r[0] == "err":
        out.bad(key + ":raised", f"{what}: {r[1]}")
        return
    res = r[1]
    if not res.is_success:
        out.bad(key + ":unsolved", f"{what}: the described network has a solution near its nominal voltages, the tool reports failure")
        return
    ref = {}
    for k, v in zip(physics.unknowns(spec), xr):
        if k[0] == "V":
            ref.setdefault(k[1], [0, 0])[k[2]] = float(v)
    nm = {b["id"]: (b["name"], b["phase"]) for b in spec["buses"] if not b["virt"]}
    want = {nm[i]: complex(*ref[i]) for i in nm}
    got = {}
    for b in res.bus_results:
        n = (b.bus.NodeName, b.bus.NodePhase)
        if n in got:
            out.bad(key + ":buses", f"{what}: node {n} is reported twice")
            return
        got[n] = complex(b.V_r, b.V_i)
    if set(got) != set(want):
        out.bad(key + ":buses", f"{what}: reported nodes differ from the file's: missing {sorted(set(want) - set(got))}, extra {sorted(set(got) - set(want))}")
        return
    scale = {n: max(abs(v), 1.0) for n, v in want.items()}
    err, n = max((abs(got[n] - want[n]) / scale[n], n) for n in want)
    out.state([[k, round(v.real, 4), round(v.imag, 4)] for k, v in sorted(want.items())])
    out.outcome = [[k, round(v.real, 2), round(v.imag, 2)] for k, v in sorted(got.items())]
    if err > tol:
        out.bad(key + ":solution", f"{what}: node {n} solved to {got[n]:.6f}, the described network has {want[n]:.6f} (relative difference {err:.3g})")


def run_features(case):
    out = Out()
    fs = case["f"]
    objs, cap_ = objects(fs)
    key = "+".join(sorted(fs)) or "base"
    st = asm.settings(tolerance=1e-6, enable_line_capacitance=cap_)
    opts = case.get("o", {})
    if opts.get("colonref"):
        objs = glm.by_number(objs)
    r = solve_file(glm.files(objs, opts) if "include" in opts else glm.text(objs, opts), st)
    spec = glm.Feeder(objs, cap_).spec()
    compare(out, key, f"features {fs} {opts if opts else ''}", r, spec)
    return out
