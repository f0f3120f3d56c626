"""C10: connectivity and nominal-voltage validation accept exactly the well-formed networks."""
import itertools
import os
import tempfile
from mc.core import Out, attempt
from mc import asm, rawfile
from mc.net import build

PROP = "C10"
BOUND = ("every network on 3 nodes over 8 edge kinds (absent, line, open/closed switch, fuse, transformer, regulator, parallel line+transformer, parallel fuse+transformer) "
         "x every assignment of 2 nominal voltages (and of 8 sets of close, differently rounded and three levels), every network on 4 nodes over 4 edge kinds x nominal voltages, three-phase edges whose phases are "
         "switched individually; all sequences of two and three states of a network that is edited between power flows; RAW case files of 3 and 4 buses with all combinations of branches, transformers, three-winding transformers in all states, out-of-service "
         "equipment and unique, shared and blank bus names; oracle: union-find connectivity and per-region voltage comparison; a "
         "sample of all verdict classes is confirmed end to end through the power-flow entry point")
ASSUMPTIONS = ["nominal voltages of different levels differ by more than 25 V"]
KINDS3 = ["-", "line", "open", "closed", "fuse", "xfmr", "reg", "line+xfmr", "fuse+xfmr"]
KINDS4 = ["-", "line", "xfmr", "open"]
VN = (2400.0, 240.0)
# close levels, levels written with different rounding (one level), three levels
LEVELS = [(2400.0, 2370.0), (480.0, 440.0), (120.0, 150.0), (240.0, 2400.0), (7200.0, 7199.5579), (120.0, 120.089), (34500.0, 33000.0), (2400.0, 240.0, 120.0)]


def level(vs, i):
    """index of the first level that is the same as level i"""
    return next(k for k in range(len(vs)) if abs(vs[k] - vs[i]) < 1)


def cases(tier):
    E3 = [(0, 1), (0, 2), (1, 2)]
    for ks in itertools.product(KINDS3, repeat=3):
        yield {"n": 3, "edges": [[k, *e] for k, e in zip(ks, E3) if k != "-"], "e2e": False}
    for vs in LEVELS:
        for ks in itertools.product([k for k in KINDS3 if tier == "thorough" or "+" not in k], repeat=3):
            yield {"n": 3, "edges": [[k, *e] for k, e in zip(ks, E3) if k != "-"], "e2e": False, "vs": list(vs)}
    E4 = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
    kinds = KINDS4 + ["reg"] if tier == "thorough" else KINDS4
    for ks in itertools.product(kinds, repeat=6):
        yield {"n": 4, "edges": [[k, *e] for k, e in zip(ks, E4) if k != "-"], "e2e": False}
    for st in itertools.product(("closed", "open"), repeat=3):
        for k2 in ("line", "xfmr", "-"):
            yield {"n": 3, "edges": [["sw3", 0, 1] + list(st)] + ([[k2, 1, 2]] if k2 != "-" else []), "e2e": False, "three": True}
    for ks in itertools.product(KINDS3, repeat=2):
        yield {"n": 3, "edges": [[k, *e] for k, e in zip(ks, [(0, 1), (1, 2)]) if k != "-"], "e2e": True}
    # a network that is edited between power flows: two switches, a line in or out of the network, a nominal voltage right or wrong
    for same in (True, False):
        for seq in itertools.product(range(16), repeat=2):
            yield {"seq": list(seq), "same": same}
        for seq in itertools.product(range(8), repeat=3):
            yield {"seq": list(seq), "same": same}
    # positive-sequence case files, whose bus names need not be unique
    for names in (None, "same", "blank", "some"):
        for ks in itertools.product(("-", "br", "off", "x2"), repeat=3):
            yield {"raw": [[k, *e] for k, e in zip(ks, E3) if k != "-"], "n": 3, "names": names}
        for ks in itertools.product(("-", "br", "off") if tier == "thorough" else ("-", "br"), repeat=6):
            yield {"raw": [[k, *e] for k, e in zip(ks, E4) if k != "-"], "n": 4, "names": names}
        for st in range(5):
            for ks in itertools.product(("-", "br"), repeat=4):
                for tri in ((0, 1, 2), (1, 2, 3)):
                    yield {"raw": [[k, *e] for k, e in zip(ks, [(0, 1), (1, 2), (2, 3), (0, 3)]) if k != "-"], "t3": [st, *tri], "n": 4, "names": names}
        for ide4 in (1, 2, 3):
            for ks in itertools.product(("-", "br"), repeat=3):
                yield {"raw": [[k, *e] for k, e in zip(ks, [(0, 1), (1, 2), (2, 3)]) if k != "-"], "dead": ide4, "n": 4, "names": names}


def make(case, vn, flip):
    """single-phase feeder graph; flip reverses every edge and the order of the nodes"""
    n = case["n"]
    VN = case.get("vs", globals()["VN"])
    buses, els, names = [], [], {}
    nid = [0]

    def bus(name, ph, v, virt=False):
        nid[0] += 1
        buses.append({"id": nid[0], "V": v, "ang": 0.0, "name": name, "phase": ph, "virt": virt, "type": 1})
        return nid[0]
    phs = "ABC" if case.get("three") else "A"
    for k in (reversed(range(n)) if flip else range(n)):
        for p in phs:
            names[(k, p)] = bus(f"n{k}", p, VN[vn[k]])
    for p in phs:
        els.append(["slack", names[(0, p)], VN[vn[0]], 0.0])
    for q, ed in enumerate(case["edges"]):
        kind, a, b = ed[0], ed[1], ed[2]
        if flip:
            a, b = b, a
        if kind == "sw3":
            for p, s in zip("ABC", ed[3:]):
                els.append(["switch", names[(a, p)], names[(b, p)], s.upper()])
            continue
        for k in kind.split("+"):
            for p in phs:
                i, j = names[(a, p)], names[(b, p)]
                if k == "line":
                    els.append(["line", i, j, 0.5, 1.0, 0.0])
                elif k in ("open", "closed"):
                    els.append(["switch", i, j, k.upper()])
                elif k == "fuse":
                    els.append(["fuse", i, j, bus(f"e{q}-Fuse", p, 0.1, True), 1e9])
                elif k == "xfmr":
                    els.append(["xfmr", i, None, j, None, 0.01, 0.1, VN[vn[a]] / VN[vn[b]], 0.0])
                elif k == "reg":
                    els.append(["reg", i, j, bus(f"e{q}-Reg", p, 0.1, True), 0, 0.00625, "A", 16, 16])
    return {"kind": "dx", "buses": buses, "els": els}


def components(n, edges):
    p = list(range(n))

    def f(i):
        while p[i] != i:
            i = p[i]
        return i
    for a, b in edges:
        p[f(a)] = f(b)
    out = {}
    for i in range(n):
        out.setdefault(f(i), set()).add(i)
    return list(out.values())


def verdict(case, vn):
    conn, same = [], []
    for ed in case["edges"]:
        for k in ed[0].split("+"):
            if k == "open":
                continue
            if k == "sw3" and "closed" not in ed[3:]:
                continue
            conn.append((ed[1], ed[2]))
            if k not in ("xfmr", "reg"):
                same.append((ed[1], ed[2]))
    isl = components(case["n"], conn)
    okv = all(len({vn[i] for i in c}) == 1 for c in components(case["n"], same))
    return isl, okv


def run_raw(case):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    out = Out()
    n, dead = case["n"], case.get("dead")
    c = {"bus": [dict(i=k + 1, ide=3 if k == 0 else 4 if k == dead else 1) for k in range(n)], "gen": [dict(i=1, vs=1.01)],
         "load": [dict(i=k + 1, pl=2.0 + k, ql=1.0) for k in range(1, n)], "br": [], "x2": [], "x3": [], "opts": {"names": case["names"]}}
    conn = []
    for k, a, b in case["raw"]:
        if k == "x2":
            c["x2"].append(dict(i=a + 1, j=b + 1))
        else:
            c["br"].append(dict(i=a + 1, j=b + 1, st=0 if k == "off" else 1))
        if k != "off" and dead not in (a, b):
            conn.append((a, b))
    if "t3" in case:
        st, *w = case["t3"]
        c["x3"].append(dict(i=w[0] + 1, j=w[1] + 1, k=w[2] + 1, st=st))
        on = [] if st == 0 else [x for q, x in enumerate(w) if q != {2: 1, 3: 2, 4: 0}.get(st)]
        conn += list(zip(on, on[1:]))
    live = [s for s in components(n, conn) if dead not in s]
    d = tempfile.mkdtemp()
    p = os.path.join(d, "case.RAW")
    with open(p, "w") as f:
        f.write(rawfile.text(c))
    st = asm.settings()
    r = attempt(lambda: PowerFlow(NetworkLoader(st).from_file(p), st).execute())
    os.unlink(p)
    os.rmdir(d)
    out.step()
    out.state(str(case))
    what = f"case file with in-service connections {conn} of {n} buses" + (f", bus {dead + 1} out of service" if dead else "") + f", bus names {case['names'] or 'unique'}"
    if len(live) > 1 and r[0] == "ok":
        out.bad("raw-accepts", f"{what}: a case in {len(live)} islands was accepted")
    if len(live) == 1 and (r[0] == "err" or not r[1].is_success):
        out.bad("raw-rejects", f"{what}: rejected although connected: {r[1] if r[0] == 'err' else 'no solution'}")
    out.outcome = [len(live), r[0]]
    return out


def run_seq(case):
    from logic.powerflow import PowerFlow
    from models.components.switch import SwitchStatus
    out = Out()
    out.traces = 0
    edges = [["closed", 0, 1], ["line", 1, 2], ["closed", 0, 2]]
    net, B, objs = build(make({"n": 3, "edges": edges}, (0, 0, 0), False))
    sw, lines = list(net.switches), list(net.lines)
    last = next(b for b in net.buses if b.NodeName == "n2")
    pf = PowerFlow(net, asm.settings())
    sig = []
    for i, s in enumerate(case["seq"]):
        for k in (0, 1):
            sw[k].status = SwitchStatus.OPEN if s >> k & 1 else SwitchStatus.CLOSED
        net.lines[:] = [] if s >> 2 & 1 else lines
        last.V_Nominal = 2900.0 if s >> 3 & 1 else 2400.0
        on = [e[1:] for e, o in zip(edges, (s & 1, s >> 2 & 1, s >> 1 & 1)) if not o]
        isl = len(components(3, on))
        joined = any(2 in e for e in on)
        okv = not (s >> 3 & 1 and joined)
        r = attempt(lambda: (pf if case["same"] else PowerFlow(net, asm.settings())).execute())
        out.step()
        out.traces += 1
        good = r[0] == "ok" and bool(r[1].is_success)
        sig.append([isl, okv, r[0]])
        what = (f"network with connections {on} of 3 nodes, consistent voltages: {okv}, after the states {case['seq'][:i]} were solved "
                f"{'with the same solver object' if case['same'] else 'before'}")
        if good and (isl > 1 or not okv):
            out.bad("seq-accepts", f"{what}: accepted")
        if not good and isl == 1 and okv:
            out.bad("seq-rejects", f"{what}: rejected although well-formed: {r[1] if r[0] == 'err' else 'no solution'}")
        out.state("seq", case["seq"][:i + 1], case["same"])
    out.outcome = sig
    return out


def run_case(case):
    if "raw" in case:
        return run_raw(case)
    if "seq" in case:
        return run_seq(case)
    from logic.graphanalyzer import GraphAnalyzer
    from logic.powerflow import PowerFlow
    out = Out()
    out.traces = 0
    verdicts = set()
    VN = case.get("vs", globals()["VN"])
    for vn in itertools.product(range(len(VN)), repeat=case["n"] - 1):
        vn = (0,) + vn
        isl, okv = verdict(case, [level(VN, i) for i in vn])
        for flip in (False, True):
            out.traces += 1
            spec = make(case, vn, flip)
            net, B, objs = build(spec)
            what = f"edges {case['edges']}, nominal voltages {[VN[i] for i in vn]}, reversed={flip}"
            if case["e2e"]:
                r = attempt(lambda: PowerFlow(net, asm.settings()).execute())
                out.step()
                out.state(case["edges"], vn, "e2e")
                if (len(isl) != 1 or not okv) and r[0] == "ok":
                    out.bad("e2e-accepts", f"{what}: the solver accepted a network with {len(isl)} islands, consistent voltages: {okv}")
                if len(isl) == 1 and okv and r[0] == "err" and ("island" in r[1] or "nominal" in r[1]):
                    out.bad("e2e-rejects", f"{what}: rejected although well-formed: {r[1]}")
                verdicts.add((len(isl), okv, r[0]))
                continue
            r = attempt(lambda: GraphAnalyzer(net))
            if r[0] == "err":
                out.bad("raised", f"{what}: {r[1]}")
                return out
            ga = r[1]
            got = sorted(sorted(c) for c in ga.get_islands())
            want = sorted(sorted(f"n{i}" for i in c) for c in isl)
            out.step(2)
            out.state(case["edges"], vn)
            verdicts.add((len(isl), okv))
            if ga.get_island_count() != len(isl) or got != want:
                out.bad("islands", f"{what}: islands {got}, expected {want}")
                return out
            r = attempt(ga.validate_voltage_islands)
            if (r[0] == "ok") != okv:
                out.bad("voltage", f"{what}: voltage validation {'passed' if r[0] == 'ok' else r[1]}, consistent: {okv}")
                return out
    out.outcome = sorted(map(str, verdicts))
    return out
