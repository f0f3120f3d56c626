"""C12: a RAW case is solved as exactly the positive-sequence network its records describe."""
import copy
import itertools
import os
import tempfile
import numpy as np
from mc.core import Out, attempt
from mc import asm, rawfile
from mc.ref import physics

PROP = "C12"
BOUND = ("all cases built from a 4-bus base with every single record feature and every pair (thorough: every triple) of a 92-feature "
         "alphabet over loads, shunts, generators, branches, two- and three-winding transformers, switched shunts and file syntax (quoting, separators, notation, left-out fields, line ends), and every combination of "
         "winding and impedance unit codes, winding order, status, off-nominal taps and nominal voltages of a transformer between three voltage levels, in "
         "revisions 33 and 34; each text file is read by the real loader, solved end to end and checked against the circuit laws of "
         "the reference reading of the records")
ASSUMPTIONS = ["remote regulation, transformer control, magnetising branches, DC lines and FACTS are outside the alphabet",
               "generator limits are not enforced by the tool"]

FEATURES = {
    # loads
    "pq2": {"load": [dict(i=2, pl=30.0, ql=12.0)]},
    "pq2b": {"load": [dict(i=2, id="2", pl=11.0, ql=-4.0)]},
    "pqoff": {"load": [dict(i=2, id="3", st=0, pl=70.0, ql=31.0)]},
    "pqpv": {"load": [dict(i=3, pl=22.0, ql=9.0)]},
    "pqslack": {"load": [dict(i=1, pl=15.0, ql=5.0)]},
    "pqneg": {"load": [dict(i=4, id="N", pl=-18.0, ql=3.0)]},
    "ponly": {"load": [dict(i=4, id="P", pl=17.0)]},
    "yload": {"load": [dict(i=4, id="Y", yp=14.0, yq=-6.0)]},
    "iload": {"load": [dict(i=4, id="I", ip=13.0, iq=5.0)]},
    # fixed shunts
    "fsh": {"fsh": [dict(i=2, gl=3.0, bl=19.0)]},
    "fsh2": {"fsh": [dict(i=2, id="2", bl=-7.0)]},
    "fshg": {"fsh": [dict(i=4, id="3", gl=5.0)]},
    "fshoff": {"fsh": [dict(i=4, id="4", st=0, gl=9.0, bl=40.0)]},
    # generators
    "gen2": {"gen": [dict(i=3, id="2", pg=14.0, vs=1.02)]},
    "genfix": {"gen": [dict(i=3, id="3", pg=9.0, qt=6.0, qb=6.0, vs=1.02)]},
    "genoff": {"gen": [dict(i=3, id="4", pg=55.0, vs=1.02, stat=0)]},
    "genpq": {"gen": [dict(i=2, id="5", pg=25.0, vs=1.07)]},
    "gensl": {"gen": [dict(i=1, id="6", pg=25.0, vs=1.04)]},
    "genwind2": {"gen": [dict(i=5, id="7", pg=12.0, vs=1.01, wmod=2, wpf=0.9, qt=0.0, qb=0.0)], "bus": [dict(i=5, ide=2)],
                 "br": [dict(i=2, j=5, ckt="g")]},
    "genwind3": {"gen": [dict(i=3, id="8", pg=12.0, vs=1.02, wmod=3, wpf=0.9)]},
    "genwind3n": {"gen": [dict(i=3, id="9", pg=12.0, vs=1.02, wmod=3, wpf=-0.9)]},
    "pvoff": {"bus": [dict(i=6, ide=2, vm=1.01)], "gen": [dict(i=6, pg=20.0, vs=1.05, stat=0)], "br": [dict(i=6, j=2, ckt="p")]},
    "genfixq": {"gen": [dict(i=3, id="A", pg=9.0, qg=2.0, qt=6.0, qb=6.0, vs=1.02)]},
    "onlyfix": {"bus": [dict(i=11, ide=2, vm=1.01)], "gen": [dict(i=11, pg=20.0, qg=1.0, qt=5.0, qb=5.0, vs=1.05)], "br": [dict(i=11, j=2, ckt="r")]},
    "gen0": {"gen": [dict(i=3, id="B", pg=0.0, qt=0.0, qb=0.0, vs=1.02)]},
    "twoslack": {"bus": [dict(i=12, ide=3, vm=1.01, va=-3.0)], "gen": [dict(i=12, pg=0.0, vs=1.01)], "br": [dict(i=12, j=2, ckt="s")]},
    "slackoff": {"gen": [dict(i=1, id="0", stat=0, vs=1.1)]},
    "slackvs": {"gen": [dict(i=1, id="00", vs=1.03)]},
    # switched shunts
    "ss0": {"ss": [dict(i=2, mod=0, binit=16.0)]},
    "ss1": {"ss": [dict(i=4, mod=1, binit=-9.0, n1=2, b1=-10.0)]},
    "ss2": {"ss": [dict(i=4, mod=2, binit=8.0, hi=1.03, lo=0.99)]},
    "ss2gen": {"ss": [dict(i=3, mod=2, binit=8.0, hi=1.04, lo=1.0)]},
    "ssoff": {"ss": [dict(i=1, mod=0, st=0, binit=60.0)]},
    "ss2slack": {"ss": [dict(i=1, mod=2, binit=8.0, hi=1.03, lo=0.99)]},
    "ss2pvoff": {"bus": [dict(i=13, ide=2, vm=1.01)], "gen": [dict(i=13, pg=20.0, vs=1.05, stat=0)], "br": [dict(i=13, j=2, ckt="p")],
                 "ss": [dict(i=13, mod=2, binit=8.0, hi=1.03, lo=0.99)]},
    "ss2fix": {"bus": [dict(i=10, ide=2, vm=1.01)], "gen": [dict(i=10, pg=20.0, qg=1.0, qt=5.0, qb=5.0, vs=1.05)], "br": [dict(i=10, j=2, ckt="q")],
               "ss": [dict(i=10, mod=2, binit=8.0, hi=1.03, lo=0.99)]},
    # branches
    "par": {"br": [dict(i=1, j=2, ckt="2", r=0.03, x=0.21, b=0.03)]},
    "rev": {"br": [dict(i=3, j=1, ckt="R", r=0.015, x=0.13, b=0.05)]},
    "broff": {"br": [dict(i=1, j=4, ckt="O", r=0.01, x=0.02, st=0)]},
    "brsh": {"br": [dict(i=1, j=3, ckt="S", x=0.3, gi=0.02, bi=0.05, gj=0.01, bj=-0.04)]},
    "brshi": {"br": [dict(i=2, j=3, ckt="T", x=0.3, bi=0.06)]},
    "brshj": {"br": [dict(i=2, j=3, ckt="U", x=0.3, gj=0.03)]},
    "short": {"br": [dict(i=1, j=4, ckt="Z", r=0.0, x=0.0001)]},
    # two-winding transformers
    "x1": {"x2": [dict(i=1, j=4, w1=1.05, ang=0.0)]},
    "x1s": {"x2": [dict(i=4, j=2, ckt="2", w1=0.97, w2=1.03, ang=8.0)]},
    "xcw2": {"x2": [dict(i=1, j=3, ckt="3", cw=2, w1=142.0, w2=136.0)]},
    "xcw3": {"x2": [dict(i=3, j=4, ckt="4", cw=3, w1=1.02, n1=140.0, w2=0.99, n2=137.0)]},
    "xcw3d": {"x2": [dict(i=3, j=4, ckt="D", cw=3, w1=1.02, w2=0.98)]},
    "xcz2": {"x2": [dict(i=2, j=4, ckt="5", cz=2, sb=60.0, r=0.01, x=0.07, w2=1.02)]},
    "xcz3": {"x2": [dict(i=2, j=4, ckt="6", cz=3, sb=75.0, r=2400000.0, x=0.08)]},
    "xoff": {"x2": [dict(i=1, j=4, ckt="7", st=0, w1=1.2)]},
    "xcod": {"x2": [dict(i=2, j=4, ckt="8", w1=1.04, cod=1, cont=4)]},
    "xnegx": {"x2": [dict(i=2, j=4, ckt="9", r=0.0, x=-0.05)]},
    "xr0": {"x2": [dict(i=2, j=4, ckt="0", r=0.0, x=0.05, ang=-12.0)]},
    # three-winding transformers
    "t3": {"x3": [dict(i=1, j=2, k=4)]},
    "t3w": {"x3": [dict(i=3, j=4, k=2, ckt="2", w=(1.03, 0.98, 1.01), ang=(0.0, 5.0, -4.0))]},
    "t3s2": {"x3": [dict(i=1, j=2, k=3, ckt="3", st=2, w=(1.02, 1.0, 1.0))]},
    "t3s3": {"x3": [dict(i=1, j=4, k=3, ckt="4", st=3)]},
    "t3s4": {"x3": [dict(i=1, j=2, k=3, ckt="5", st=4, va=3.0)]},
    "t3off": {"x3": [dict(i=1, j=2, k=3, ckt="6", st=0)]},
    "t3cz2": {"x3": [dict(i=2, j=3, k=4, ckt="7", cz=2, sb12=50.0, sb23=30.0, sb31=80.0, x12=0.05, x23=0.05, x31=0.05)]},
    "t3cw2": {"x3": [dict(i=2, j=3, k=1, ckt="8", cw=2, w=(140.0, 136.0, 139.0))]},
    "t3offk": {"bus": [dict(i=9, ide=4)], "x3": [dict(i=1, j=2, k=9)]},
    "t3offi": {"bus": [dict(i=9, ide=4)], "x3": [dict(i=9, j=2, k=4)]},
    "t3offj": {"bus": [dict(i=9, ide=4)], "x3": [dict(i=2, j=9, k=4)]},
    # out-of-service bus
    "off": {"bus": [dict(i=9, ide=4)], "br": [dict(i=2, j=9)], "load": [dict(i=9, pl=50.0)], "fsh": [dict(i=9, bl=10.0)],
            "gen": [dict(i=9, pg=5.0)], "x2": [dict(i=9, j=1)], "ss": [dict(i=9, binit=5.0)]},
    # syntax
    "rev34": {"rev": 34}, "key": {"opts": {"key": 1}}, "pad": {"opts": {"pad": 1}}, "order": {"opts": {"rev": 1}},
    "nums": {"renum": 1},
    "same": {"opts": {"names": "same"}}, "blank": {"opts": {"names": "blank"}},
    "sb50": {"sbase": 50.0},
}
BASE = {"bus": [dict(i=1, ide=3, vm=1.04, va=2.0), dict(i=2), dict(i=3, ide=2, vm=1.02), dict(i=4, vm=0.99, va=-1.0)],
        "gen": [dict(i=1, vs=1.04), dict(i=3, pg=20.0, qg=3.0, vs=1.02)],
        "br": [dict(i=1, j=2, b=0.06), dict(i=2, j=3, r=0.03, x=0.14), dict(i=2, j=4, x=0.16)],
        "load": [dict(i=4, pl=20.0, ql=7.0)]}
FEATURES.update({"layout trim " + k: {"opts": {"trim": k}} for k in ("all", "most", "last", "blank")})
FEATURES.update({"layout " + k: {"opts": {k: 1}} for k in rawfile.LAYOUTS})
# features with a recorded defect (known_findings.json) are explored alone, so that they cannot mask another defect
LONE = ("sb50", "iload")
LIST = ("bus", "load", "fsh", "gen", "br", "x2", "x3", "ss")


def compose(fs):
    c = copy.deepcopy(BASE)
    renum = False
    for f in fs:
        for k, v in FEATURES[f].items():
            if k in LIST:
                have = c.setdefault(k, [])
                for r in v:
                    if k == "bus" and any(b["i"] == r["i"] for b in have):
                        continue
                    have.append(copy.deepcopy(r))
            elif k == "opts":
                c.setdefault("opts", {}).update(v)
            elif k == "renum":
                renum = True
            else:
                c[k] = v
    if renum:
        m = lambda i: {1: 301, 2: 17, 3: 1204, 4: 5, 5: 77, 6: 31, 9: 900, 10: 88, 11: 6001, 12: 2, 13: 6000}[i]
        for k in LIST:
            for r in c.get(k, []):
                for a in ("i", "j", "k"):
                    if a in r:
                        r[a] = m(r[a])
    return c


# ---------------------------------------------------------------- every unit code of transformers between different voltage levels
KVS = {2: 138.0, 7: 13.8, 8: 34.5}
LEVELS = {"bus": [dict(i=7, kv=13.8), dict(i=8, kv=34.5)], "load": [dict(i=7, pl=9.0, ql=4.0), dict(i=8, pl=12.0, ql=3.0)]}
TIES = [dict(i=2, j=7, ckt="T7", r=0.02, x=0.2), dict(i=8, j=2, ckt="T8", r=0.02, x=0.22)]


def winding(cw, kv, w, n):
    """a winding's ratio w (per unit of its bus base) in the unit of code cw; n: its nominal voltage, 0 if left to the bus base"""
    return {1: w, 2: w * kv, 3: w * kv / (n or kv)}[cw]


def grid():
    for (i, j), cw, cz, w, ang, n, rev in itertools.product([(2, 7), (8, 2), (7, 8)], (1, 2, 3), (1, 2, 3), [(1.0, 1.0), (1.04, 0.97)], (0.0, -30.0),
                                                            [(0, 0), (1.03, 0.98)], (33, 34)):
        if (any(n) and cw != 3) or (rev == 34 and ang):
            continue
        nk = [KVS[b] * f for b, f in zip((i, j), n)]
        z = {1: (0.03, 0.08, 100.0), 2: (0.02, 0.06, 60.0), 3: (0.05 * 60e6, 0.09, 60.0)}[cz]
        t = dict(i=i, j=j, ckt="1", cw=cw, cz=cz, w1=winding(cw, KVS[i], w[0], nk[0]), w2=winding(cw, KVS[j], w[1], nk[1]), n1=nk[0], n2=nk[1],
                 ang=ang, r=z[0], x=z[1], sb=z[2])
        # the fixed tie to the transformer's level is left out: a phase shifter against it would drive a large loop flow
        ties = [x for x in TIES if {7, 8} <= {i, j} and x["ckt"] == "T7" or not ({7, 8} <= {i, j}) and not {x["i"], x["j"]} == {i, j}]
        yield {"f": [], "rev": rev, "x": dict(LEVELS, x2=[t] + ties)}
    for order, cw, cz, st, var in itertools.product(itertools.permutations((2, 7, 8)), (1, 2, 3), (1, 2, 3), (0, 1, 2, 3, 4), (0, 1)):
        w = ((1.0, 1.0, 1.0), (1.03, 0.97, 1.02))[var]
        nk = [KVS[b] * f if cw == 3 else 0 for b, f in zip(order, ((0, 0, 0), (1.03, 0.98, 1.01))[var])]
        sb = {1: (100.0, 100.0, 100.0), 2: (50.0, 30.0, 80.0), 3: (45.0, 70.0, 60.0)}[cz]
        r, x = (0.03, 0.02, 0.025), (0.1, 0.12, 0.09)
        if cz == 3:
            r = [a * s * 1e6 for a, s in zip(r, sb)]
        t = dict(i=order[0], j=order[1], k=order[2], ckt="1", cw=cw, cz=cz, st=st, w=[winding(cw, KVS[b], w[q], nk[q]) for q, b in enumerate(order)],
                 n=nk, ang=((0.0, 0.0, 0.0), (3.0, -2.0, 1.5))[var])
        for q, a in enumerate(("12", "23", "31")):
            t.update({"r" + a: r[q], "x" + a: x[q], "sb" + a: sb[q]})
        yield {"f": [], "x": dict(LEVELS, x3=[t], x2=TIES)}


def cases(tier):
    fs = list(FEATURES)
    yield {"f": []}
    yield from grid()
    for f in fs:
        yield {"f": [f]}
    fs = [f for f in fs if f not in LONE]
    for p in itertools.combinations(fs, 2):
        if not all(f.startswith("layout") for f in p):
            yield {"f": list(p)}
    if tier == "thorough":
        for p in itertools.combinations(fs, 3):
            yield {"f": list(p)}


def prepare():
    run_case({"f": ["pq2", "fsh", "t3"]})


def newton(spec, x, iters=30):
    for k in range(iters):
        F = physics.evalF(spec, x)
        if np.max(np.abs(F)) < 1e-10:
            return x
        x = x - np.linalg.solve(physics.jacF(spec, x), F)
        if not np.all(np.isfinite(x)):
            return None
    return None


def x0_of(spec):
    x = []
    V = {b["id"]: b["V"] * np.exp(1j * b["ang"]) for b in spec["buses"]}
    for key in physics.unknowns(spec):
        if key[0] == "V":
            z = V[key[1]]
        elif key[0] == "S":
            e = spec["els"][key[1]]
            z = V[e[1]] / e[7]
        else:
            z = 0
        z = complex(z)
        x.append(z.real if key[-1] == 0 else z.imag)
    return np.array(x)


def tag(fs):
    return "+".join(sorted(fs)) or "base"


def run_case(case):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    out = Out()
    c = compose(case["f"])
    for k, v in case.get("x", {}).items():
        c.setdefault(k, []).extend(copy.deepcopy(v))
    if "rev" in case:
        c["rev"] = case["rev"]
    spec = rawfile.spec(c)
    key = tag(case["f"])
    if "x" in case:
        t = (case["x"].get("x3") or case["x"]["x2"])[0]
        key = "unit codes:" + ":".join(str(t[k]) for k in ("i", "j", "k", "cw", "cz", "st") if k in t)
    d = tempfile.mkdtemp()
    p = os.path.join(d, "case.RAW")
    with open(p, "w") as f:
        f.write(rawfile.text(c))
    st = asm.settings(tolerance=1e-7)
    r = attempt(lambda: PowerFlow(NetworkLoader(st).from_file(p), st).execute())
    os.unlink(p)
    os.rmdir(d)
    xr = newton(spec, x0_of(spec))
    out.step(2)
    if xr is None:
        out.outcome = "unsolvable"
        return out
    if r[0] == "err":
        out.bad(key + ":raised", f"features {case['f'] or case.get('x', [])}: {r[1]}")
        return out
    res = r[1]
    if not res.is_success:
        out.bad(key + ":unsolved", f"features {case['f'] or case.get('x', [])}: the described network has a solution near the initial point, the tool reports failure")
        return out
    volt = {b.bus.Bus: (b.V_r, b.V_i) for b in res.bus_results}
    want = {k[1] for k in physics.unknowns(spec) if k[0] == "V" and k[1] < rawfile.STAR}
    got = {i for i in volt}
    if not want <= got or len(got) != len(want) + sum(b["id"] >= rawfile.STAR for b in spec["buses"]):
        out.bad(key + ":buses", f"features {case['f'] or case.get('x', [])}: buses {sorted(got)} instead of {sorted(want)} (plus one star per three-winding transformer)")
        return out
    ref = {}
    for k, v in zip(physics.unknowns(spec), xr):
        if k[0] == "V":
            ref.setdefault(k[1], [0, 0])[k[2]] = float(v)
    err = max(abs(volt[i][q] - ref[i][q]) for i in want for q in (0, 1))
    out.state(case["f"], [[round(a, 6) for a in ref[i]] for i in sorted(want)])
    out.outcome = [[round(volt[i][q], 4) for q in (0, 1)] for i in sorted(want)]
    if err > 1e-5:
        out.bad(key + ":solution", f"features {case['f'] or case.get('x', [])}: solved voltages { {i: volt[i] for i in want} } but the records describe a network "
                f"with solution { {i: ref[i] for i in want} } (difference {err:.3g})")
    return out
