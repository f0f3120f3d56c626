"""C11: every unknown gets exactly one place in the system and the right starting value."""
import itertools
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.ref import physics
from mc.net import build, aux_layout

PROP = "C11"
BOUND = ("every single-feature RAW case and GLM feeder with recorded voltages and reactive powers, read by the real loader; all networks of the positive-sequence and three-phase families plus every single component, with and without infeasibility analysis, "
         "flat or given start, unknowns assigned once, twice and after elements were added/removed; oracle: enumeration of the unknowns "
         "of the circuit equations and their specified start values")
ASSUMPTIONS = ["split-phase nodes and nodes with capacitors start from values of the tool's own choice"]


def specs(tier):
    seen = 0
    for s in grids.tx_family(tier):
        yield s
    for s in grids.dx_family(tier):
        yield s
    from mc.checks import c02_linearisation as c2
    last = {}
    for kind, s in c2.specs("quick"):
        last[kind] = last.get(kind, 0) + 1
        if last[kind] % 9 == 1:
            yield s


def cases(tier):
    for k, s in enumerate(specs(tier)):
        for opt in ((False, True) if k % 4 == 0 or tier == "thorough" else (bool(k % 2),)):
            yield {"spec": s, "opt": opt}
    yield from file_cases(tier)


def file_cases(tier):
    from mc.checks import c12_raw as R
    from mc import glmfeat as G
    singles = [[]] + [[f] for f in R.FEATURES if f not in R.LONE and not R.FEATURES[f].get("opts")]
    for fs in singles:
        yield {"raw": fs}
    for fs in [[]] + [[f] for f in G.ALL if G.ALL[f] != "NOCAP" and not any(o["t"] == "capacitor" for o in G.ALL[f])]:
        for volt in (0, 1):
            yield {"glm": fs, "volt": volt}


def loaded(txt, name):
    import os
    import shutil
    import tempfile
    from logic.network.networkloader import NetworkLoader
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, name), "w") as f:
            f.write(txt)
        return attempt(lambda: NetworkLoader(asm.settings()).from_file(os.path.join(d, name)))
    finally:
        shutil.rmtree(d)


def start_vectors(out, what, net, flats):
    net.assign_matrix()
    for flat in flats:
        r = attempt(lambda: np.asarray(net.generate_v_init(asm.settings(flat_start=flat))))
        out.step()
        if r[0] == "err" or r[1].shape != (net.size_Y,):
            out.bad("file:init", f"{what}: {r}")
            return
        yield flat, r[1]


def raw_start(case, out):
    """the start values recorded in a case file"""
    from mc.checks import c12_raw as R
    from mc import rawfile
    c = R.compose(case["raw"])
    for k, b in enumerate(c["bus"]):
        b.update(vm=1.0 + 0.013 * (k + 1), va=-3.0 * k + 1.5)
    for k, g in enumerate(c["gen"]):
        g.update(qg=4.0 + 3 * k)
    r = loaded(rawfile.text(c), "case.RAW")
    what = f"case file with {case['raw']}"
    if r[0] == "err":
        out.bad("raw:load", f"{what}: {r[1]}")
        return
    net = r[1]
    at = {b.Bus: b for b in net.buses}
    full = rawfile.full(c)
    S = full["sbase"]
    on = [b for b in full["bus"] if b["ide"] != 4]
    pv = {b["i"] for b in on if b["ide"] == 2}
    gens = {}
    for g in full["gen"]:
        if g["stat"] and g["i"] in pv and not (abs(g["qt"] - g["qb"]) < 1e-6 and g["wmod"] != 2):
            gens.setdefault(g["i"], []).append(g)
    out.state(case)
    out.outcome = ("raw", sorted(at), sorted(gens))
    for flat, v in start_vectors(out, what, net, (False, True)):
        for b in on:
            z = 1.0 if flat else b["vm"] * np.exp(1j * np.radians(b["va"]))
            o = at.get(b["i"])
            if o is None or abs(complex(v[o.node_Vr], v[o.node_Vi]) - z) > 1e-9:
                out.bad("raw:init:V", f"{what} flat={flat}: bus {b['i']} starts at {None if o is None else complex(v[o.node_Vr], v[o.node_Vi])}, the file gives {z}")
                return
        for g in net.generators:
            rec = gens.get(g.bus.Bus)
            if not rec or any(x["wmod"] for x in rec) or any(x["i"] == g.bus.Bus for x in full["ss"]):
                continue
            w = -sum((x["qt"] + x["qb"]) / 2 if flat else x["qg"] for x in rec) / S
            if abs(v[g.get_Q_index()] - w) > 1e-9:
                out.bad("raw:init:Q", f"{what} flat={flat}: the reactive power of the generators at bus {g.bus.Bus} starts at {v[g.get_Q_index()]}, the file gives {w}")
                return


def glm_start(case, out):
    """the start values described in a feeder file: nominal voltages, or the voltages given"""
    from mc import glm, glmfeat as G
    objs, cap = G.objects(case["glm"])
    given = {(o["name"], k[-1]): glm.cpx(v) for o in objs for k, v in o["p"] if k in ("voltage_A", "voltage_B", "voltage_C")}
    if case["volt"]:
        for n, o in enumerate(objs):
            if o["t"] in ("node", "meter") and not any(k in ("parent", "bustype", "voltage_A") for k, _ in o["p"]):
                p = dict(map(tuple, o["p"]))
                vn = glm.qty(p["nominal_voltage"], "V")
                for j, c in enumerate(glm.letters(p["phases"])):
                    z = vn * (0.97 + 0.004 * j + 0.001 * (n % 5)) * np.exp(1j * (glm.ANG[c] - 0.03 - 0.002 * n))
                    z = complex(round(z.real, 4), round(z.imag, 4))
                    o["p"].append(["voltage_" + c, G.c(z.real, z.imag)])
                    given[(o["name"], c)] = z
    r = loaded(glm.text(objs), "case.glm")
    what = f"feeder with {case['glm']}" + (", voltages given" if case["volt"] else "")
    if r[0] == "err":
        out.bad("glm:load", f"{what}: {r[1]}")
        return
    net = r[1]
    at = {(b.NodeName, b.NodePhase): b for b in net.buses}
    out.state(case)
    out.outcome = ("glm", len(at), len(given))
    for flat, v in start_vectors(out, what, net, (False,)):
        for b in glm.Feeder(objs, cap).spec()["buses"]:
            if b["virt"] or b["phase"] in "12":      # split-phase nodes have no voltage of their own to start from
                continue
            key = (b["name"], b["phase"])
            z = given.get(key, b["V"] * np.exp(1j * b["ang"]))
            o = at.get(key)
            got = None if o is None else complex(v[o.node_Vr], v[o.node_Vi])
            if got is None or abs(got - z) > 1e-3 * abs(z):
                out.bad("glm:init:V", f"{what}: node {key} starts at {got}, the file gives {z}")
                return


def prepare():
    for k, s in enumerate(specs("quick")):
        if k % 60 == 0:
            asm.setup(s)
            asm.setup(s, "L2")


def unknown_indices(net, B, spec, objs, opt):
    """all index accessors -> (label, index)"""
    lay = aux_layout(net, B, spec, objs)
    out = []
    for key in physics.unknowns(spec):
        out.append((key, lay[key[:-1]][key[-1]]))
    if opt:
        for i, b in B.items():
            out += [(("L", i, 0), b.node_lambda_Vr), (("L", i, 1), b.node_lambda_Vi)]
        for c in net.optimization.infeasibility_currents:
            out += [(("F", c.bus.Bus, 0), c.node_Ir_inf), (("F", c.bus.Bus, 1), c.node_Ii_inf)]
        for k, (e, o) in enumerate(zip(spec["els"], objs)):
            if e[0] == "gen":
                out.append((("LQ", k), o.get_LQ_init()[0]))
    return out


def run_case(case):
    out = Out()
    if "raw" in case or "glm" in case:
        (raw_start if "raw" in case else glm_start)(case, out)
        return out
    spec, opt = case["spec"], case["opt"]
    tag = f"{spec['kind']}:{'opt' if opt else 'plain'}"
    net, B, objs = build(spec, opt="L2" if opt else None)
    net.assign_matrix()
    m = len(physics.unknowns(spec))
    nb = len(spec["buses"])
    expect = 2 * m + 2 * nb if opt else m
    first = None
    for rnd in range(2):
        if rnd:
            net.assign_matrix()
        idx = unknown_indices(net, B, spec, objs, opt)
        vals = [i for _, i in idx]
        out.step()
        if net.size_Y != expect:
            out.bad(tag + ":size", f"{spec['els']}: {net.size_Y} unknowns, the equations have {expect} (assignment {rnd + 1})")
            return out
        if any(i is None or i != int(i) or not 0 <= i < net.size_Y for i in vals) or len(set(vals)) != len(vals):
            out.bad(tag + ":collision", f"{spec['els']}: unknowns share or miss places: {idx}")
            return out
        if first is not None and first != vals:
            out.bad(tag + ":reassign", f"{spec['els']}: assigning the unknowns again gives another layout")
            return out
        first = vals
    d = {tuple(k): i for k, i in idx}
    # labels: only existing unknowns, bus labels for all buses
    for i in range(net.size_Y):
        pass
    labels = net.matrix_map
    for i in labels:
        if i not in range(net.size_Y):
            out.bad(tag + ":map", f"{spec['els']}: the index map labels unknown {i} of {net.size_Y}")
            return out
    for b in spec["buses"]:
        for q, nm in ((0, "Vr"), (1, "Vi")):
            t = labels.get(d[("V", b["id"], q)], "")
            if "bus" not in t or nm not in t or str(B[b["id"]].NodeName) not in t:
                out.bad(tag + ":map", f"{spec['els']}: the {nm} unknown of bus {b['id']} is labelled {t!r}")
                return out
    for k, e in enumerate(spec["els"]):
        if e[0] == "slack":
            for q, nm in ((0, "Ir"), (1, "Ii")):
                t = labels.get(d[("I", k, q)], "")
                if "slack" not in t or nm not in t:
                    out.bad(tag + ":map", f"{spec['els']}: the slack current unknown {nm} is labelled {t!r}")
                    return out
    # start values
    for flat in ((False, True) if spec["kind"] == "tx" else (False,)):
        gens = [o for e, o in zip(spec["els"], objs) if e[0] == "gen"]
        for n, g in enumerate(gens):
            g.Qinit, g.Qmax, g.Qmin = -(0.13 + n), -(2.0 + n), 1.0
        sl = [o for e, o in zip(spec["els"], objs) if e[0] == "slack"]
        for n, s in enumerate(sl):
            s.Pinit, s.Qinit = 0.21 + n, -0.11 - n
        v = np.asarray(net.generate_v_init(asm.settings(flat_start=flat)))
        out.step()
        if v.shape != (net.size_Y,):
            out.bad(tag + ":init", f"start vector of shape {v.shape} for {net.size_Y} unknowns")
            return out
        want = {}
        for b in spec["buses"]:
            z = b["V"] * np.exp(1j * b["ang"])
            if flat:
                z = 1.0 + 0j
            want[("V", b["id"], 0)], want[("V", b["id"], 1)] = z.real, z.imag
        gi = si = 0
        for k, e in enumerate(spec["els"]):
            if e[0] == "gen" and spec["kind"] == "tx":
                want[("Q", k, 0)] = (1.0 - (2.0 + gi)) / 2 if flat else -(0.13 + gi)
                gi += 1
            if e[0] == "slack" and spec["kind"] == "tx":
                want[("I", k, 0)], want[("I", k, 1)] = (0, 0) if flat else (0.21 + si, -0.11 - si)
                si += 1
        for key, i in idx:
            if key[0] in ("L", "LQ"):
                w = 1e-4 if spec["kind"] == "tx" else 0.0
            else:
                w = want.get(tuple(key), 0.0)
            if abs(v[i] - w) > 1e-9 * max(1, abs(w)):
                out.bad(f"{tag}:init:{key[0]}", f"{spec['els']} flat={flat}: unknown {key} starts at {v[i]}, specified {w}")
                return out
    # the layout follows the network: remove one element, then re-assign
    rem = [(k, e) for k, e in enumerate(spec["els"]) if e[0] in ("load", "shunt", "gen")]
    if rem and not opt:
        k, e = rem[-1]
        o = objs[k]
        for lst in (net.loads, net.generators, getattr(net, "shunts", net.misc)):
            if any(q is o for q in lst):
                lst[:] = [q for q in lst if q is not o]
                break
        sp2 = {**spec, "els": [x for j, x in enumerate(spec["els"]) if j != k]}
        ob2 = [x for j, x in enumerate(objs) if j != k]
        ver = net.matrix_version
        net.assign_matrix()
        vals = [i for _, i in unknown_indices(net, B, sp2, ob2, False)]
        out.step()
        if sorted(vals) != list(range(net.size_Y)):
            out.bad(tag + ":shrink", f"{spec['els']}: after removing {e} the unknowns are {vals} of {net.size_Y}")
        if net.matrix_version == ver:
            out.bad(tag + ":version", f"{spec['els']}: the layout version did not change with a re-assignment")
    out.state(spec["els"], opt)
    out.outcome = (tag, net.size_Y)
    return out
