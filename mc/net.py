"""Network specifications (plain JSON lists) and their construction with the real classes.

els:
 ["slack", bus, V, ang]
 ["line", i, j, r, x, b]
 ["load", i, j|None, P, Q, [zr, zx], IP, IQ]
 ["gen", bus, P, Vset]                      (P = generated power)
 ["shunt", bus, G_MW, B_MVAR]
 ["xfmr", fpos, fneg, tpos, tneg, r, x, tr, ang_deg]
 ["vsrc", i, j, vr, vi]
 ["switch", i, j, status]
 ["fuse", i, j, mid, limit(, "GOOD"|"BLOWN")]
 ["cap", bus, var, vnom, "OPEN"|"CLOSED"]
 ["reg", f, t, mid, tap, step, "A"|"B", raise, lower]
 ["ct", from, prim, s1, s2, t1, t2, [r0,x0], [r1,x1], [r2,x2], vnom0, vnom1, S, tr]
 ["uline", [from...], [to...], Z, Y, length]
bus: dict(id, V, ang, name, phase, virt, vnom)
None stands for ground.
"""
import itertools


def imp():
    import importlib
    m = {}
    for n in ("bus", "slack", "line", "load", "generator", "shunt", "transformer", "voltagesource", "switch",
              "fuse", "capacitor", "regulator", "center_tap_transformer", "unbalanced_line"):
        m[n] = importlib.import_module("models.components." + n)
    return m


def build(spec, els_order=None, opt=None):
    """Build the real network; returns (network, buses by id, element objects in spec order)."""
    from logic.network.networkmodel import TxNetworkModel, DxNetworkModel
    m = imp()
    dx = spec["kind"] == "dx"
    net = DxNetworkModel() if dx else TxNetworkModel()
    B = {}
    for b in spec["buses"]:
        bus = m["bus"].Bus(b["id"], b.get("type", 1), b["V"], b["ang"], None, b.get("name"), b.get("phase"),
                           b.get("virt", False))
        B[b["id"]] = bus
        net.buses.append(bus)
        if dx:
            net.bus_name_map[f'{b.get("name")}_{b.get("phase")}'] = bus
    G = m["bus"].GROUND
    g = lambda i: G if i is None else B[i]
    objs = []
    order = els_order if els_order is not None else range(len(spec["els"]))
    made = {}
    for k in order:
        e = spec["els"][k]
        t = e[0]
        if t == "slack":
            o = m["slack"].Slack(g(e[1]), e[2], e[3], 0, 0)
            net.slack.append(o)
        elif t == "line":
            o = m["line"].Line(g(e[1]), g(e[2]), e[3], e[4], e[5], 1, None, None, None)
            net.lines.append(o)
        elif t == "load":
            o = m["load"].Load(g(e[1]), g(e[2]), e[3], e[4], complex(*e[5]), e[6], e[7], *(e[8:] if len(e) > 8 else []))
            net.loads.append(o)
        elif t == "gen":
            o = m["generator"].Generator(g(e[1]), e[2], e[3], 99, -99, 99, -99, 0, None, 100, None)
            net.generators.append(o)
        elif t == "shunt":
            o = m["shunt"].Shunt(g(e[1]), e[2], e[3], 1, 0, 0, 0, 0, 0, 0, 0)
            (net.misc if dx else net.shunts).append(o)
        elif t == "xfmr":
            o = m["transformer"].Transformer(g(e[1]), g(e[2]), g(e[3]), g(e[4]), e[5], e[6], True, e[7], e[8], 0, 0,
                                             e[9] if len(e) > 9 else None)
            net.transformers.append(o)
        elif t == "vsrc":
            o = m["voltagesource"].VoltageSource(g(e[1]), g(e[2]), e[3], e[4])
            (net.misc if dx else net.voltage_sources).append(o)
        elif t == "switch":
            o = m["switch"].Switch(g(e[1]), g(e[2]), m["switch"].SwitchStatus[e[3]], "A")
            net.switches.append(o)
        elif t == "fuse":
            o = m["fuse"].Fuse(g(e[1]), g(e[2]), g(e[3]), e[4], m["fuse"].FuseStatus[e[5] if len(e) > 5 else "GOOD"], "A")
            (net.fuses if dx else net.misc).append(o)
        elif t == "cap":
            c = m["capacitor"]
            o = c.Capacitor(g(e[1]), G, e[2], e[3], c.CapacitorMode.MANUAL, None, None)
            o.switch = c.CapSwitchState[e[4]]
            (net.capacitors if dx else net.misc).append(o)
        elif t == "reg":
            r = m["regulator"]
            o = r.Regulator(g(e[1]), g(e[2]), g(e[3]), e[4], e[5], r.RegType[e[6]], r.RegControl.MANUAL, 0, 1e9, e[7], e[8])
            (net.regulators if dx else net.misc).append(o)
        elif t == "ct":
            c = m["center_tap_transformer"]
            coils = []
            for n, (z, vn) in enumerate(((e[7], e[10]), (e[8], e[11]), (e[9], e[11]))):
                coils.append(c.CenterTapTransformerCoil(vn, e[12], None, None, z[0], z[1]))
            coils[0].from_node, coils[0].primary_node = g(e[1]), g(e[2])
            coils[1].sending_node, coils[1].to_node = g(e[3]), g(e[5])
            coils[2].sending_node, coils[2].to_node = g(e[4]), g(e[6])
            o = c.CenterTapTransformer(coils[0], coils[1], coils[2], "A", e[13], e[12], 0, 0)
            net.transformers.append(o)
        elif t == "uline":
            u = m["unbalanced_line"]
            f0 = [x for x in spec["buses"] if x["id"] == e[1][0]][0]
            t0 = [x for x in spec["buses"] if x["id"] == e[2][0]][0]
            ph = [[x for x in spec["buses"] if x["id"] == i][0]["phase"] for i in e[1]]
            Z = [[complex(*c) for c in row] for row in e[3]]
            Y = None if e[4] is None else [[complex(*c) for c in row] for row in e[4]]
            import numpy as np
            o = u.UnbalancedLine(net, np.array(Z), None if Y is None else np.array(Y), f0["name"], t0["name"], e[5], ph,
                                 [None] * len(ph))
            net.lines.append(o)
        else:
            raise ValueError(t)
        made[k] = o
    for k in range(len(spec["els"])):
        objs.append(made.get(k))
    if opt == "L2":
        from models.optimization.L2infeasibility import load_infeasibility_analysis
        net.optimization = load_infeasibility_analysis(net)
    return net, B, objs


def aux_layout(net, B, spec, objs):
    """Map the reference's unknowns to the implementation's vector indices (public accessors only)."""
    lay = {}
    for i, b in B.items():
        lay[("V", i)] = (b.node_Vr, b.node_Vi)
    for k, (e, o) in enumerate(zip(spec["els"], objs)):
        t = e[0]
        if t == "slack":
            lay[("I", k)] = (o.get_slack_Ir_index(), o.get_slack_Ii_index())
        elif t == "gen":
            lay[("Q", k)] = (o.get_Q_index(),)
        elif t == "vsrc":
            lay[("I", k)] = _vs_idx(o, net.size_Y)
        elif t == "switch" and e[3] == "CLOSED":
            lay[("I", k)] = _vs_idx(o.vs, net.size_Y)
        elif t == "fuse":
            lay[("I", k)] = _vs_idx(o.current_sensor, net.size_Y)
        elif t == "xfmr":
            lay[("I", k)] = (o.node_primary_Ir, o.node_primary_Ii)
            lay[("S", k)] = (o.node_secondary_Vr, o.node_secondary_Vi)
        elif t == "reg":
            x = o.transformer
            lay[("I", k)] = (x.node_primary_Ir, x.node_primary_Ii)
            lay[("S", k)] = (x.node_secondary_Vr, x.node_secondary_Vi)
            lay[("J", k)] = _vs_idx(o.current_sensor, net.size_Y)
        elif t == "ct":
            lay[("I", k)] = (o.node_L1_Ir, o.node_L1_Ii)
            lay[("J", k)] = (o.node_L2_Ir, o.node_L2_Ii)
    return lay


def _vs_idx(vs, n):
    """indices of the source current, read through get_current with an identity probe"""
    import numpy as np
    probe = np.arange(n, dtype=float)
    r, i = vs.get_current(probe)
    return (int(r), int(i))
