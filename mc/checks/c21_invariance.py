"""C21: names, numbers, order, file location and what was run before have no influence on a solution."""
import copy
import http.server
import itertools
import os
import shutil
import tempfile
import threading
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids, glm, rawfile
from mc import glmfeat as G
from mc.ref import physics
from mc.net import build

PROP = "C21"
BOUND = ("all operation sequences up to depth 3 (thorough 4) over {solve plainly, flat, with homotopy, to failure, with unservable loads, with infeasibility analysis, "
         "prepare, report, scale loads, edit a load or generator, add/remove a load, open/close a switch, reload the file, solve the other network} on two networks in one "
         "process; 9 naming schemes on 40 feeders; all 24 bus renumberings and record rotations on 12 RAW cases; all orders of the "
         "elements and buses of small networks and 24 permutations of larger ones; 8 file locations; all sequences of 2 (of one format: 3) files of three formats, two folders and two contents of equal size; every solution compared with a "
         "reference network that knows nothing of names, order or history")
ASSUMPTIONS = ["automatic devices that keep their state from run to run are fixed (manual) in the sequences"]

# ---------------------------------------------------------------- histories
OPS = ("T", "Tflat", "Ttx", "Tfail", "Tinf", "Tprep", "Trep", "Tscale", "Tadd", "Tdel", "Tkind", "Tgen", "Dkind", "D", "Dfail", "Dinf", "Dsw", "Dscale", "Dload", "F", "Fload")


def first_load(els):
    return next(e for e in els if e[0] == "load")


def kind(e, k):
    """a load is edited: 0 as it was, 1 nothing, 2 active power only, 3 reactive power only"""
    if k in (1, 3):
        e[3] = 0
    if k in (1, 2):
        e[4] = 0


def spec_T(st):
    s = grids.tx_spec(3, [("line", 1, 2), ("shift", 2, 3)], {2: "pq", 3: "pv"}, 1.02, 0.1)
    for e in s["els"]:
        if e[0] == "load":
            e[3] *= st["Tscale"]
            e[4] *= st["Tscale"]
        if e[0] == "gen" and st["Tgen"]:
            e[2:4] = [0.45, 1.015]
    kind(first_load(s["els"]), st["Tkind"])
    s["els"].append(["shunt", 2, 2.0, 9.0])
    if st["Tadd"]:
        s["els"].append(["load", 3, None, 0.2 * st["Tadd"], 0.1 * st["Tadd"], [0, 0], 0, 0])
    return s


def spec_D(st):
    b = grids.DxBuilder()
    for k in ("uline", "reg", "sw", "fuse"):
        b.add(k)
    b.load("wye")
    b.load("delta")
    s = b.spec()
    ids = {(x["name"], x["phase"]): x["id"] for x in s["buses"]}
    # a switch across one phase of the line, so that it can be opened and closed
    s["els"].append(["switch", ids[("s", "A")], ids[("n1", "A")], "CLOSED" if st["Dsw"] else "OPEN"])
    for e in s["els"]:
        if e[0] == "load":
            e[3] *= st["Dscale"]
            e[4] *= st["Dscale"]
    kind(first_load(s["els"]), st["Dkind"])
    return s


FFEAT = ["pBC", "tline", "ugN", "capmix"]


class World:
    def __init__(self):
        self.st = {"Tscale": 1.0, "Tadd": 0, "Tkind": 0, "Tgen": 0, "Dkind": 0, "Dscale": 1.0, "Dsw": 0}
        self.T, self.D, self.F = None, None, None
        self.Tobj = None

    def net(self, n):
        from logic.network.networkloader import NetworkLoader
        if n == "T" and self.T is None:
            self.T = build(spec_T(self.st))
        if n == "D" and self.D is None:
            self.D = build(spec_D(self.st))
        if n == "F" and self.F is None:
            objs, cap = G.objects(FFEAT)
            d = tempfile.mkdtemp()
            p = os.path.join(d, "case.glm")
            with open(p, "w") as f:
                f.write(glm.text(objs))
            try:
                self.F = (NetworkLoader(asm.settings()).from_file(p),)
            finally:
                os.unlink(p)
                os.rmdir(d)
        return {"T": self.T, "D": self.D, "F": self.F}[n][0]


def apply_op(w, op):
    """performs op on the real objects; returns None or (network letter, results, infeasibility)"""
    from logic.powerflow import PowerFlow
    from models.components.load import Load
    from models.components.switch import SwitchStatus
    from logic.network.loadfactor import modify_load_factor
    st = w.st
    if op in ("T", "D", "F", "Tflat", "Ttx", "Tfail", "Dfail", "Tinf", "Dinf"):
        n = op[0]
        net = w.net(n)
        kw = {"Tflat": {"flat_start": True}, "Ttx": {"tx_stepping": True}, "Tfail": {"max_iters": 1}, "Dfail": {"max_iters": 1}}.get(op, {})
        if op.endswith("inf"):
            from models.optimization.L2infeasibility import load_infeasibility_analysis
            net.optimization = load_infeasibility_analysis(net)
        r = PowerFlow(net, asm.settings(tolerance=1e-7, **kw)).execute()
        net.optimization = None
        return n, r, op.endswith("fail")
    if op in ("Tover", "Dover"):
        # a run with loads that cannot be supplied, after which the loads are as before
        net = w.net(op[0])
        old = [(l, l.P, l.Q) for l in net.loads]
        for l, p, q in old:
            l.P, l.Q = p * 60, q * 60
        try:
            r = PowerFlow(net, asm.settings(tolerance=1e-7, max_iters=20)).execute()
        finally:
            for l, p, q in old:
                l.P, l.Q = p, q
        return op[0], r, True
    if op == "Tprep":
        w.net("T").assign_matrix()
    elif op == "Trep":
        r = PowerFlow(w.net("T"), asm.settings(tolerance=1e-7)).execute()
        d = tempfile.mkdtemp()
        try:
            r.display(True)
            r.output(os.path.join(d, "x"))
            r.output(os.path.join(d, "y"))
        finally:
            shutil.rmtree(d)
        return "T", r, False
    elif op in ("Tscale", "Dscale"):
        k = 1.25 if st[op] == 1.0 else 0.8
        modify_load_factor(w.net(op[0]), k, k)
        st[op] *= k
        if op == "Tscale":
            st["Tadd"] *= k
    elif op in ("Tkind", "Dkind"):
        st[op] = {0: 1, 1: 2, 2: 3, 3: 0}[st[op]]
        net = w.net(op[0])
        e = first_load((spec_T if op[0] == "T" else spec_D)(st)["els"])
        net.loads[0].P, net.loads[0].Q = e[3], e[4]
    elif op == "Tgen":
        net = w.net("T")
        st["Tgen"] ^= 1
        e = next(e for e in spec_T(st)["els"] if e[0] == "gen")
        net.generators[0].P, net.generators[0].Vset = -e[2], e[3]
    elif op == "Tadd":
        if st["Tadd"]:
            return None
        net = w.net("T")
        w.Tobj = Load(w.T[1][3], build_ground(), 0.2, 0.1, 0j, 0, 0)
        net.loads.append(w.Tobj)
        st["Tadd"] = 1.0
    elif op == "Tdel":
        if not st["Tadd"]:
            return None
        net = w.net("T")
        for i, l in enumerate(net.loads):
            if l is w.Tobj:
                del net.loads[i]
                break
        else:
            # the network was built with the load already there: it is the last one
            net.loads.pop()
        st["Tadd"] = 0
    elif op == "Dsw":
        net = w.net("D")
        st["Dsw"] ^= 1
        net.switches[-1].status = SwitchStatus.CLOSED if st["Dsw"] else SwitchStatus.OPEN
    elif op == "Dload":
        w.D = None
    elif op == "Fload":
        w.F = None
    return None


def build_ground():
    from models.components.bus import GROUND
    return GROUND


_REF = {}


def reference(n, st):
    key = (n,) + tuple(sorted((k, v) for k, v in st.items() if k[0] == n))
    if key not in _REF:
        if n == "F":
            objs, cap = G.objects(FFEAT)
            s = glm.Feeder(objs, cap).spec()
        else:
            s = spec_T(st) if n == "T" else spec_D(st)
            if n == "D":
                s = dict(s, els=[e for e in s["els"] if not (e[0] == "switch" and e[3] == "OPEN")])
        x = G.newton(s)
        ref = {}
        for k, v in zip(physics.unknowns(s), x):
            if k[0] == "V":
                ref.setdefault(k[1], [0, 0])[k[2]] = float(v)
        _REF[key] = {(b["name"], b["phase"]): complex(*ref[b["id"]]) for b in s["buses"] if not b.get("virt")}
    return _REF[key]


def run_hist(case, out):
    w = World()
    base = None
    for i, op in enumerate(case["ops"]):
        r = attempt(apply_op, w, op)
        out.step(1)
        if r[0] == "err":
            out.bad(f"history:{op}:raised", f"after {case['ops'][:i]}, {op} fails: {r[1]}")
            return
        if r[1] is None:
            continue
        n, res, fails = r[1]
        ref = reference(n, w.st)
        if fails:
            if res.is_success:
                out.bad(f"history:{op}:limit", f"after {case['ops'][:i]}, {op} is reported as a success")
            continue
        if not res.is_success:
            out.bad(f"history:{op}:unsolved", f"after {case['ops'][:i]}, {op} fails though the network in that state can be solved")
            return
        got = {(b.bus.NodeName, b.bus.NodePhase): complex(b.V_r, b.V_i) for b in res.bus_results}
        if set(got) != set(ref):
            out.bad(f"history:{op}:buses", f"after {case['ops'][:i]}, {op} reports buses {sorted(got)}")
            return
        err, b = max((abs(got[k] - ref[k]) / max(1, abs(ref[k])), k) for k in ref)
        if err > 1e-5:
            out.bad(f"history:{op}:solution", f"after {case['ops'][:i]}, {op} gives {got[b]:.6f} at {b}; the network in that state has {ref[b]:.6f}")
            return
        out.state(op, sorted(w.st.items()))
    out.outcome = [case["ops"][-1], sorted(w.st.items())]


# ---------------------------------------------------------------- names
KEYS = {"name", "parent", "from", "to", "configuration", "spacing", "conductor_A", "conductor_B", "conductor_C", "conductor_N",
        "conductor_1", "conductor_2", "remote_sense", "line_configuration"}
WORDS = ("node line load object name from to phases switch meter A B C N S AN ABCN parent configuration spacing overhead_line status "
         "regulator fuse capacitor transformer power impedance nominal_voltage conductor zip house recorder clock module schedule player "
         "bus source sw reg cap feeder_head subs subst nominal").split()


def scheme(how, n):
    if how == "prefix":
        return ["n" * (i + 1) for i in range(n)]
    if how == "down":
        return [f"n{n - i}" for i in range(n)]
    if how == "phase":
        base = ["A", "B", "C", "N"]
        out = ["n"]
        for depth in range(1, 4):
            for p in itertools.product(base, repeat=depth):
                out.append("n_" + "_".join(p))
        return out[:n]
    if how == "alone":
        out = []
        for depth in range(1, 5):
            for p in itertools.product("ABCNS", repeat=depth):
                out.append("".join(p))
        return out[:n]
    if how == "case":
        w = "abcdefg"
        return ["".join(ch.upper() if (i >> k) & 1 else ch for k, ch in enumerate(w)) for i in range(n)]
    if how == "dash":
        return [f"R1-12-47-{i // 7}_x-{i % 7}" for i in range(n)]
    if how == "dot":
        return [f"f{i % 3}.{i // 3}" for i in range(n)]
    if how == "aux":
        out = []
        for b in ("n", "l", "m"):
            for s in ("", "-Reg", "_primary", "_sending_1", "_sending_2", "_sending", "-Fuse", "_load", "_A", "_1", "_2", "_node", "_Reg", "_Fuse", "_load_A", "_load_0"):
                out.append(b + s)
        return out[:n]
    if how == "words":
        return [WORDS[i] if i < len(WORDS) else f"w{i}" for i in range(n)]
    raise ValueError(how)


SCHEMES = ("prefix", "down", "phase", "alone", "case", "dash", "dot", "aux", "words")
FEEDERS = [[]] + [[f] for f in G.ALL if G.ALL[f] != "NOCAP"]


def refs(objs):
    names = {o["name"] for o in objs}
    for o in objs:
        for p in o["p"]:
            if isinstance(p[1], str) and p[1] in names and p[0] not in ("phases", "bustype", "connect_type"):
                yield p


def rename(objs, how, rot):
    objs = copy.deepcopy(objs)
    names = [o["name"] for o in objs]
    new = scheme(how, len(names))
    k = rot % len(names)
    new = new[k:] + new[:k]
    m = dict(zip(names, new))
    assert len(set(new)) == len(names)
    for p in list(refs(objs)):
        p[1] = m[p[1]]
    for o in objs:
        for p in o["p"]:
            if isinstance(p[1], (list, tuple)) and p[1][0] == "s":
                p[1] = ["s", m[p[1][1]]] + list(p[1][2:])
    for o in objs:
        o["name"] = m[o["name"]]
    return objs, m


def run_names(case, out):
    objs, cap = G.objects(case["f"])
    spec = glm.Feeder(objs, cap).spec()
    new, m = rename(objs, case["how"], case["rot"])
    for b in spec["buses"]:
        if not b["virt"]:
            b["name"] = m[b["name"]]
    st = asm.settings(tolerance=1e-6, enable_line_capacitance=cap)
    r = G.solve_file(glm.text(new), st)
    key = f"names:{case['how']}:{'+'.join(case['f']) or 'base'}"
    G.compare(out, key, f"features {case['f']} with names {m}", r, spec)
    if out.outcome is not None:
        out.outcome = [case["how"], len(out.outcome)]


# ---------------------------------------------------------------- RAW numbering and order
RAWF = [[], ["pq2", "fsh", "t3"], ["xcw2", "ss0", "genpq"], ["par", "brsh", "t3w"], ["rev", "x1s", "gen2"], ["pqpv", "pqslack", "gensl"],
        ["t3s2", "yload"], ["xcz2", "xcw3"], ["off", "pqoff"], ["pvoff", "fshoff", "broff"], ["t3cz2", "t3cw2"], ["genfix", "ss1"]]


def perm_case(fs, perm, rot, big):
    from mc.checks import c12_raw as c12
    c = c12.compose(fs)
    ids = sorted({b["i"] for b in c["bus"]})
    base = [1, 2, 3, 4] if not big else [999997, 100000, 40, 7]
    m = {i: n for i, n in zip([1, 2, 3, 4], [base[k] for k in perm])}
    spare = [500, 61, 88888, 9, 73]
    for i in ids:
        if i not in m:
            m[i] = spare.pop()
    for k in c12.LIST:
        for r in c.get(k, []):
            for a in ("i", "j", "k"):
                if a in r and r[a] in m:
                    r[a] = m[r[a]]
        if rot and c.get(k):
            n = rot % len(c[k])
            c[k] = c[k][n:] + c[k][:n]
    return c, m


def run_raw(case, out):
    from mc.checks import c12_raw as c12
    c0 = c12.compose(case["f"])
    s0 = rawfile.spec(c0)
    x = c12.newton(s0, c12.x0_of(s0))
    if x is None:
        out.outcome = "unsolvable"
        return
    ref = {}
    for k, v in zip(physics.unknowns(s0), x):
        if k[0] == "V":
            ref.setdefault(k[1], [0, 0])[k[2]] = float(v)
    c, m = perm_case(case["f"], case["perm"], case["rot"], case["big"])
    want = {m[i]: complex(*v) for i, v in ref.items() if i in m}
    d = tempfile.mkdtemp()
    p = os.path.join(d, "case.RAW")
    with open(p, "w") as f:
        f.write(rawfile.text(c))
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    st = asm.settings(tolerance=1e-7)
    r = attempt(lambda: PowerFlow(NetworkLoader(st).from_file(p), st).execute())
    shutil.rmtree(d)
    out.step(2)
    key = f"raw:{'+'.join(case['f']) or 'base'}"
    what = f"case {case['f']} with buses numbered {m} and records rotated by {case['rot']}"
    if r[0] == "err":
        out.bad(key + ":raised", f"{what}: {r[1]}")
        return
    if not r[1].is_success:
        out.bad(key + ":unsolved", what)
        return
    got = {b.bus.Bus: complex(b.V_r, b.V_i) for b in r[1].bus_results}
    if not set(want) <= set(got):
        out.bad(key + ":buses", f"{what}: buses {sorted(got)}")
        return
    err, i = max((abs(got[k] - want[k]), k) for k in want)
    if err > 1e-5:
        out.bad(key + ":solution", f"{what}: bus {i} solved to {got[i]:.6f} instead of {want[i]:.6f}")
    out.state(case["f"], case["perm"])
    out.outcome = [len(got), round(max(abs(v) for v in got.values()), 4)]


# ---------------------------------------------------------------- element order
def order_specs():
    out = {}
    out["t3"] = grids.tx_spec(3, [("line", 1, 2), ("shift", 2, 3)], {2: "pq", 3: "pv"}, 1.02, 0.1)
    out["t3par"] = grids.tx_spec(3, [("par", 1, 2), ("tap", 2, 3)], {2: "zip", 3: "sh"}, 1.0, 0.0)
    for ch, ld in ((("uline",), "wye"), (("ucap", "sw"), "delta"), (("reg", "dy"), "wye"), (("fuse", "yy"), "cap"), (("yd",), "z")):
        b = grids.DxBuilder()
        for k in ch:
            b.add(k)
        out["-".join(ch + (ld,))] = b.load(ld).spec()
    b = grids.DxBuilder()
    b.add("uline")
    out["ct"] = b.ct("B", "all").spec()
    return out


def kperm(n, k):
    """k-th of a fixed list of permutations of n: rotations, reversal, interleavings and block swaps"""
    x = list(range(n))
    if k < 8:
        r = k * n // 8
        return x[r:] + x[:r]
    if k < 16:
        x = x[::-1]
        r = (k - 8) * n // 8
        return x[r:] + x[:r]
    s = k - 14
    return [i for r in range(s) for i in x[r::s]]


def run_order(case, out):
    from logic.powerflow import PowerFlow
    s0 = order_specs()[case["net"]]
    x = G.newton(s0)
    ref = {}
    for k, v in zip(physics.unknowns(s0), x):
        if k[0] == "V":
            ref.setdefault(k[1], [0, 0])[k[2]] = float(v)
    s = copy.deepcopy(s0)
    n, nb = len(s["els"]), len(s["buses"])
    if case["p"] is not None:
        eo = list(case["p"])
        bo = kperm(nb, case["b"])
    else:
        eo, bo = kperm(n, case["e"]), kperm(nb, case["b"])
    s["els"] = [s0["els"][i] for i in eo]
    s["buses"] = [s0["buses"][i] for i in bo]
    out.step(2)
    r = attempt(lambda: PowerFlow(build(s)[0], asm.settings(tolerance=1e-7)).execute())
    key = "order:" + case["net"]
    what = f"network {case['net']} with elements in order {eo} and buses in order {bo}"
    if r[0] == "err":
        out.bad(key + ":raised", f"{what}: {r[1]}")
        return
    if not r[1].is_success:
        out.bad(key + ":unsolved", what)
        return
    got = {b.bus.Bus: complex(b.V_r, b.V_i) for b in r[1].bus_results}
    want = {b["id"]: complex(*ref[b["id"]]) for b in s0["buses"] if not b.get("virt")}
    if set(got) != set(want):
        out.bad(key + ":buses", f"{what}: buses {sorted(got)}")
        return
    err, i = max((abs(got[k] - want[k]) / max(1, abs(want[k])), k) for k in want)
    if err > 1e-5:
        out.bad(key + ":solution", f"{what}: bus {i} solved to {got[i]:.6f} instead of {want[i]:.6f}")
    out.state(case["net"], eo, bo)
    out.outcome = [case["net"], round(max(abs(v) for v in got.values()), 3)]


# ---------------------------------------------------------------- location
PLACES = ("plain", "other.glm.d/", "other.RAW.d/", "with space/", "a.b/c.d/", "rel", "link", "http")


def run_place(case, out):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    if case["fmt"] == "glm":
        objs, cap = G.objects(["pBC"])
        txt = glm.text(objs)
        spec = glm.Feeder(objs, cap).spec()
        name = "case.glm"
    else:
        from mc.checks import c12_raw as c12
        c = c12.compose(["pq2", "x1s"])
        txt, spec, name = rawfile.text(c), rawfile.spec(c), "case.RAW"
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    srv = None
    try:
        pl = case["place"]
        sub = pl if pl.endswith("/") else ""
        if case["fmt"] == "glm" and pl == "with space/":
            name = "my case.glm"
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        p = os.path.join(d, sub, name)
        with open(p, "w") as f:
            f.write(txt)
        if pl == "rel":
            os.chdir(d)
            p = name
        elif pl == "link":
            os.rename(p, os.path.join(d, "data"))
            os.symlink("data", p)
        elif pl == "http":
            class H(http.server.SimpleHTTPRequestHandler):
                def __init__(self, *a, **k):
                    super().__init__(*a, directory=d, **k)

                def log_message(self, *a):
                    pass
            srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
            threading.Thread(target=srv.serve_forever, daemon=True).start()
            p = f"http://127.0.0.1:{srv.server_address[1]}/{name}"
        st = asm.settings(tolerance=1e-6)
        old = tempfile.tempdir
        if pl == "http":
            os.makedirs(os.path.join(d, "tmp"))
            # a stale download of another file with the same name must not be used
            with open(os.path.join(d, "tmp", name), "w") as f:
                f.write("stale")
            tempfile.tempdir = os.path.join(d, "tmp")
        try:
            r = attempt(lambda: PowerFlow(NetworkLoader(st).from_file(p), st).execute())
        finally:
            tempfile.tempdir = old
        key = f"place:{pl}:{case['fmt']}"
        what = f"{case['fmt']} case stored at {pl}"
        out.step(1)
        if r[0] == "err":
            out.bad(key + ":raised", f"{what}: {r[1]}")
            return
        x = G.newton(spec)
        ref = {}
        for k, v in zip(physics.unknowns(spec), x):
            if k[0] == "V":
                ref.setdefault(k[1], [0, 0])[k[2]] = float(v)
        got = sorted(abs(complex(b.V_r, b.V_i)) for b in r[1].bus_results)
        want = sorted(abs(complex(*ref[b["id"]])) for b in spec["buses"] if not b.get("virt"))
        if not r[1].is_success or len(got) != len(want) or max(abs(a - b) / max(1, b) for a, b in zip(got, want)) > 1e-4:
            out.bad(key + ":solution", f"{what}: voltages {got[:6]} instead of {want[:6]}")
        out.state(case["place"], case["fmt"])
        out.outcome = [case["fmt"], len(got)]
    finally:
        os.chdir(cwd)
        if srv:
            srv.shutdown()
            srv.server_close()
        shutil.rmtree(d)


# ---------------------------------------------------------------- files that change
FILES = list(itertools.product(("glm", "inc", "RAW"), (0, 1), (0, 1)))       # format, folder, contents
_FILE = {}


def contents(fmt, k):
    """(texts by file name, reference voltages); both contents of a format are of the same length"""
    if (fmt, k) not in _FILE:
        if fmt == "RAW":
            from mc.checks import c12_raw as c12
            c = copy.deepcopy(c12.compose(["pq2", "x1s"]))
            l = c["load"][0]
            l["pl"] = {0: 61.0, 1: 27.0}[k]
            texts, spec = {"case.RAW": rawfile.text(c)}, rawfile.spec(c)
        else:
            objs, cap = G.objects(["pBC"])
            objs = copy.deepcopy(objs)
            for o in objs:
                if o["name"] == "ld":
                    o["p"] = [[a, ["c", 90000.0 - 30000.0 * k, 30000.0] if a == "constant_power_A" else b] for a, b in o["p"]]
            spec = glm.Feeder(objs, cap).spec()
            if fmt == "glm":
                texts = {"case.glm": glm.text(objs)}
            else:
                part = [o for o in objs if o["t"] == "load"]
                texts = {"main.glm": '#include "part.glm"\n' + glm.text([o for o in objs if o["t"] != "load"]), "part.glm": glm.text(part)}
        x = G.newton(spec)
        ref = {}
        for q, v in zip(physics.unknowns(spec), x):
            if q[0] == "V":
                ref.setdefault(q[1], [0, 0])[q[2]] = float(v)
        _FILE[fmt, k] = texts, sorted(abs(complex(*ref[b["id"]])) for b in spec["buses"] if not b.get("virt"))
    return _FILE[fmt, k]


def run_files(case, out):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    d = tempfile.mkdtemp()
    try:
        for fmt, sub, k in case["ops"]:
            texts, want = contents(fmt, k)
            os.makedirs(os.path.join(d, str(sub)), exist_ok=True)
            for n, txt in texts.items():
                with open(os.path.join(d, str(sub), n), "w") as f:
                    f.write(txt)
            st = asm.settings(tolerance=1e-6)
            main = os.path.join(d, str(sub), next(iter(texts)))
            r = attempt(lambda: PowerFlow(NetworkLoader(st).from_file(main), st).execute())
            out.step(1)
            what = f"files {case['ops']} written and solved in this order: the {fmt} case with contents {k} in folder {sub}"
            if r[0] == "err":
                out.bad(f"files:{fmt}:raised", f"{what}: {r[1]}")
                return
            got = sorted(abs(complex(b.V_r, b.V_i)) for b in r[1].bus_results)
            if not r[1].is_success or len(got) != len(want) or max(abs(a - b) / max(1, b) for a, b in zip(got, want)) > 1e-5:
                out.bad(f"files:{fmt}:solution", f"{what}: voltages {got[:6]} instead of {want[:6]}")
                return
        out.state(case["ops"])
        out.outcome = [case["ops"][-1][0], case["ops"][-1][2]]
    finally:
        shutil.rmtree(d)


# ----------------------------------------------------------------
def cases(tier):
    for ops in itertools.product(FILES, repeat=2):
        yield {"fam": "files", "ops": [list(o) for o in ops]}
    for ops in itertools.product(FILES, repeat=3):
        if tier == "thorough" or len({o[0] for o in ops}) == 1:
            yield {"fam": "files", "ops": [list(o) for o in ops]}
    for n in (1, 2, 3) if tier != "thorough" else (1, 2, 3, 4):
        for ops in itertools.product(OPS, repeat=n):
            # the last operation must be one whose result is observed
            if ops[-1] in ("Tprep", "Tscale", "Tadd", "Tdel", "Tkind", "Tgen", "Dkind", "Dsw", "Dscale", "Dload", "Fload"):
                continue
            yield {"fam": "hist", "ops": list(ops)}
    if tier != "thorough":
        # longer histories of edits and solutions of one network
        for mine in (("T", "Tfail", "Tover", "Tinf", "Tscale", "Tadd", "Tdel", "Tkind", "Tgen"), ("D", "Dfail", "Dover", "Dinf", "Dsw", "Dscale", "Dkind")):
            for ops in itertools.product(mine, repeat=3):
                yield {"fam": "hist", "ops": list(ops) + [mine[0]]}
    for f in FEEDERS:
        for how in SCHEMES:
            for rot in ((0,) if tier != "thorough" else (0, 1, 3, 7)):
                yield {"fam": "names", "f": f, "how": how, "rot": rot}
    for f in RAWF:
        for perm in itertools.permutations(range(4)):
            for rot, big in ((0, 0), (1, 1)) if tier != "thorough" else itertools.product((0, 1, 2), (0, 1)):
                yield {"fam": "raw", "f": f, "perm": list(perm), "rot": rot, "big": big}
    for net, s in order_specs().items():
        n = len(s["els"])
        if n <= (6 if tier != "thorough" else 7):
            for p in itertools.permutations(range(n)):
                for b in (0, 8):
                    yield {"fam": "order", "net": net, "p": list(p), "e": 0, "b": b}
        for e in range(24):
            for b in range(24) if tier == "thorough" else (0, 3, 8, 16, 17):
                yield {"fam": "order", "net": net, "p": None, "e": e, "b": b}
    for fmt in ("glm", "RAW"):
        for pl in PLACES:
            yield {"fam": "place", "fmt": fmt, "place": pl}


def prepare():
    for st in ({"Tscale": 1.0, "Tadd": 0, "Tkind": 0, "Tgen": 0, "Dkind": 0, "Dscale": 1.0, "Dsw": 0},):
        for n in "TDF":
            reference(n, st)
    w = World()
    for op in ("Tinf", "Dinf", "F"):
        attempt(apply_op, w, op)


RUN = {"files": run_files, "hist": run_hist, "names": run_names, "raw": run_raw, "order": run_order, "place": run_place}


def run_case(case):
    out = Out()
    RUN[case["fam"]](case, out)
    return out
