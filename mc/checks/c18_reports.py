"""C18: what is displayed and written is the solution."""
import copy
import io
import itertools
import os
import shutil
import sys
import tempfile
import numpy as np
from mc.core import Out, attempt
from mc import asm, grids
from mc.ref import physics
from mc.net import build, aux_layout

PROP = "C18"
BOUND = ("every network of the positive-sequence and three-phase families plus 0.01..100x voltage levels and purely active and purely reactive networks, with and without infeasibility "
         "analysis, solved and unsolved, every sequence of <=3 report operations {display, verbose, output to old/new/nested/no path}; "
         "oracle: powers from the reference circuit currents at the reported voltages, own number formatting")
ASSUMPTIONS = ["powers of loads are their constant-power part", "sources use the load convention: negative when supplying"]

OPS = ["show", "verbose", "new", "over", "nested", "none"]
SEQS = [[a] for a in OPS] + [list(s) for s in itertools.product(OPS, repeat=2)]
SEQS3 = [list(s) for s in itertools.product(OPS, repeat=3)]


def cases(tier):
    seqs = SEQS3 if tier == "thorough" else SEQS
    k = 0
    for fam in (grids.tx_family(tier), grids.dx_family(tier)):
        for n, spec in enumerate(fam):
            for opt in (None, "L2") if n % 5 == 0 or tier == "thorough" else (None,):
                k += 1
                yield {"spec": spec, "opt": opt, "seq": seqs[k % len(seqs)], "it": 1 if k % 11 == 0 else 50}
    # powers that are entirely active or entirely reactive
    for r, x, P, Q in itertools.product((0.0, 0.4), (0.0, 0.4), (0.0, 0.3, 1.5, -0.6), (0.0, 0.3, 1.5, -0.6)):
        if (r, x) == (0.0, 0.0):
            continue
        for mid, opt in itertools.product((False, True), (None, "L2")):
            els = [["slack", 1, 1.0, 0.0], ["line", 1, 2, r, x, 0.0], ["load", 2, None, P, Q, [0, 0], 0, 0]]
            if mid:
                els += [["line", 2, 3, r / 2, x / 2, 0.0], ["load", 3, None, P / 2, Q / 2, [0, 0], 0, 0]]
            yield {"spec": {"kind": "tx", "buses": grids.tx_buses(3 if mid else 2), "els": els}, "opt": opt, "seq": ["show", "new"], "it": 50}
    base = grids.DxBuilder().add("uline").load("wye").spec()
    for s in SEQS3:
        yield {"spec": base, "opt": None, "seq": s, "it": 50}
        if tier == "thorough":
            yield {"spec": base, "opt": "L2", "seq": s, "it": 1}
    for n in (1, 2, 3):
        for which in itertools.product((0, 1, 2), repeat=n):
            yield {"hours": list(which)}


def prepare():
    for n, spec in enumerate(itertools.chain(grids.tx_family("quick"), grids.dx_family("quick"))):
        if n % 60 == 1:
            asm.setup(spec)
            asm.setup(spec, "L2")


def digits(text, nd):
    """the text is a plain decimal with nd digits"""
    t = text.lstrip("-")
    a, dot, b = t.partition(".")
    return dot == "." and len(b) == nd and a.isdigit() and b.isdigit()


def same(text, value, nd, slack=0.0):
    return digits(text, nd) and abs(float(text) - value) <= 0.5 * 10 ** -nd + slack + 1e-9 * abs(value)


def table(path, head):
    txt = open(path).read()
    lines = txt.split("\n")
    if lines[0] != head:
        return None
    if lines[-1] == "":
        lines = lines[:-1]
    return [l.split(",") for l in lines[1:]]


def solve(spec, opt, iters):
    from logic.powerflow import PowerFlow
    net, B, objs = build(spec, opt=opt)
    r = attempt(lambda: PowerFlow(net, asm.settings(tolerance=1e-7 if spec["kind"] == "tx" else 1e-5, max_iters=iters)).execute())
    return net, B, objs, r


def expected(spec, net, B, objs, res):
    """what the reports must hold: [(bus id, label, |V|, deg)], [(bus id, type, S)], [(bus name, S)], errors"""
    lay = aux_layout(net, B, spec, objs)
    idx = asm.layout_vec(spec, lay)
    ks = physics.unknowns(spec)
    x = np.asarray(res.v_final)[idx]
    xd = dict(zip(ks, x))
    V = {b["id"]: complex(xd[("V", b["id"], 0)], xd[("V", b["id"], 1)]) for b in spec["buses"]}
    buses = [(b["id"], f"{b['name']}:{b['phase']}", abs(V[b["id"]]), float(np.degrees(np.angle(V[b["id"]]))))
             for b in spec["buses"] if not b.get("virt")]

    def without(keys):
        y = np.array(x)
        for n, k in enumerate(ks):
            if k[:-1] in keys:
                y[n] = 0.0
        F = physics.evalF(spec, y)
        I = {}
        for k, f in zip(ks, F):
            if k[0] == "V":
                I.setdefault(k[1], [0.0, 0.0])[k[2]] = f
        return {i: complex(*c) for i, c in I.items()}
    full = without([])
    src, loads = [], []
    for k, e in enumerate(spec["els"]):
        if e[0] == "gen":
            # the generator takes whatever no other element takes
            I = without([("Q", k)])
            s = -e[2] + 1j * (xd[("Q", k, 0)] if net.optimization is not None else -(V[e[1]] * I[e[1]].conjugate()).imag)
            src.append((e[1], "PV", s))
        if e[0] == "load":
            b = [q for q in spec["buses"] if q["id"] == e[1]][0]
            loads.append((b["name"], "PQ", complex(e[3], e[4])))
    for k, e in enumerate(spec["els"]):
        if e[0] == "slack":
            I = without([("I", k)])
            s = -V[e[1]] * (I[e[1]] - (full[e[1]] if net.optimization is not None else 0.0)).conjugate()
            src.append((e[1], "Slack", s))
    if net.optimization is not None:
        for b in spec["buses"]:
            src.append((b["id"], "Inf", V[b["id"]] * full[b["id"]].conjugate()))
    return buses, src, loads, V, full


def check_file(out, key, what, base, exp, ok, scale):
    buses, src, loads, V, full = exp
    vf, pf = base + "_voltage.csv", base + "_power.csv"
    for f in (vf, pf):
        if not os.path.isfile(f):
            out.bad(key + ":nofile", f"{what}: {os.path.basename(f)} was not written")
            return
    if not ok:
        for f in (vf, pf):
            if open(f).read().strip() != "FAILURE":
                out.bad(key + ":failure", f"{what}: the power flow failed, {os.path.basename(f)} holds {open(f).read()[:120]!r}")
        return
    rows = table(vf, "bus,name,v_magnitude,v_ang_degrees")
    if rows is None or len(rows) != len(buses) or any(len(r) != 4 for r in rows):
        out.bad(key + ":voltages", f"{what}: voltage file {open(vf).read()[:300]!r} for {len(buses)} buses")
        return
    for r, (i, lab, m, a) in zip(rows, buses):
        if r[0] != str(i) or r[1] != lab or not same(r[2], m, 3) or not (same(r[3], a, 3) or m < 1e-7):
            out.bad(key + ":voltages", f"{what}: voltage row {r}, the solution has {i} {lab} {m} {a}")
            return
    rows = table(pf, "bus,name,P(MW),Q(MVar)")
    want = [(str(i), t, s) for i, t, s in src] + [(str(n), t, s) for n, t, s in loads]
    if rows is None or len(rows) != len(want) or any(len(r) != 4 for r in rows):
        out.bad(key + ":powers", f"{what}: power file {open(pf).read()[:300]!r} for {len(want)} rows")
        return
    for r, (i, t, s) in zip(rows, want):
        if r[0] != i or r[1] != t or not same(r[2], s.real, 2, scale) or not same(r[3], s.imag, 2, scale):
            out.bad(key + ":powers", f"{what}: power row {r}, the solution has {i} {t} {s}")
            return


def check_text(out, key, what, txt, exp, res, verbose):
    lines = txt.split("\n")
    if f"Successful: {res.is_success}" not in lines:
        out.bad(key + ":success", f"{what}: the display does not say Successful: {res.is_success}")
    if f"Iterations: {res.iterations}" not in lines:
        out.bad(key + ":iterations", f"{what}: the display does not give {res.iterations} iterations")
    m = [l for l in lines if l.startswith("Max Residual:")]
    if len(m) != 1 or f"{res.max_residual:.3g}" not in m[0]:
        out.bad(key + ":residual", f"{what}: {m}, the largest residual is {res.max_residual}")
    elif np.isfinite(res.max_residual):
        k = int(m[0].split("Index:")[1].strip(" ]"))
        if abs(abs(res.residuals.residuals[k]) - res.max_residual) > 1e-9 * (1 + res.max_residual):
            out.bad(key + ":residual", f"{what}: the residual at index {k} is {res.residuals.residuals[k]}, not {res.max_residual}")
    buses, src, loads, V, full = exp
    inf = [s for i, t, s in src if t == "Inf"]
    for nm, part in (("Inf P:", lambda z: z.real), ("Inf Q:", lambda z: z.imag)):
        l = [x for x in lines if x.startswith(nm)]
        w = sum(part(z) for z in inf)
        if len(l) != 1 or (res.is_success and abs(float(l[0].split(":")[1]) - w) > 2e-5 * (1 + len(inf)) + 6e-3 * abs(w) + 1e-7 * max([abs(z) for z in V.values()]) ** 2):
            out.bad(key + ":inf", f"{what}: {l}, the infeasibility powers sum to {w}")
    if verbose:
        i0, i1, i2 = (lines.index(t) if t in lines else -1 for t in ("Buses:", "Generators:", "Loads:"))
        if not 0 <= i0 < i1 < i2:
            out.bad(key + ":verbose", f"{what}: the verbose display lacks buses, generators or loads")
            return
        bl, gl, ll = lines[i0 + 1:i1], lines[i1 + 1:i2], [l for l in lines[i2 + 1:] if l.strip() and not l.startswith("=")]
        if len(bl) != len(buses) or len(gl) != len(src) or len(ll) != len(loads):
            out.bad(key + ":verbose", f"{what}: {len(bl)}, {len(gl)}, {len(ll)} lines for {len(buses)} buses, {len(src)} sources, {len(loads)} loads")
            return
        if not res.is_success:
            return
        for l, (i, lab, m, a) in zip(bl, buses):
            if lab not in l or f"{m:.3f}"[:-1] not in l and f"{m + 5e-4:.3f}"[:-1] not in l:
                out.bad(key + ":verbose", f"{what}: bus line {l!r}, the solution has {lab} {m} {a}")
                return
        n = sum(1 for l in lines if l.startswith("Residual "))
        if n != len(res.residuals.residuals):
            out.bad(key + ":verbose", f"{what}: {n} residuals listed of {len(res.residuals.residuals)}")


def snap(exp, res):
    return [(b.bus.Bus, b.V_r, b.V_i) for b in res.bus_results], [(g.type_str, g.P, g.Q) for g in res.generator_results]


def run_case(case):
    d = tempfile.mkdtemp()
    try:
        return hours(case, d) if "hours" in case else single(case, d)
    finally:
        shutil.rmtree(d)


def captured(f):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        r = attempt(f)
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout = old


def single(case, d):
    out = Out()
    spec = case["spec"]
    net, B, objs, r = solve(spec, case["opt"], case["it"])
    what = f"{spec['els']}{' L2' if case['opt'] else ''}"
    key = f"{spec['kind']}:{case['opt']}"
    out.step()
    if r[0] == "err":
        out.outcome = "raised"
        return out
    res = r[1]
    exp = expected(spec, net, B, objs, res)
    vm = max(abs(v) for v in exp[3].values() if np.isfinite(v)) if exp[3] else 1.0
    scale = vm * 2e-5 + 1e-11 * vm * vm * 100
    before = snap(exp, res)
    for n, op in enumerate(case["seq"]):
        out.step()
        if op in ("show", "verbose"):
            rr, txt = captured(lambda: res.display(op == "verbose"))
            if rr[0] == "ok":
                check_text(out, key, f"{what} {case['seq'][:n + 1]}", txt, exp, res, op == "verbose")
        else:
            base = {"new": f"{d}/r{n}", "over": f"{d}/over", "nested": f"{d}/x{n}/y.z/w", "none": None}[op]
            if op == "over":
                for s in ("voltage", "power"):
                    open(f"{base}_{s}.csv", "w").write("stale,stale\n" * 2000)
            tree = sorted(os.listdir(d))
            rr = attempt(lambda: res.output(base))
            if rr[0] == "ok":
                if base:
                    check_file(out, key, f"{what} {case['seq'][:n + 1]}", base, exp, res.is_success, scale)
                elif sorted(os.listdir(d)) != tree:
                    out.bad(key + ":none", f"{what}: output to no file wrote {sorted(os.listdir(d))}")
        if rr[0] == "err":
            out.bad(f"{key}:{op}:raised", f"{what} {case['seq'][:n + 1]}: {rr[1]}")
        if out.violations:
            return out
        if snap(exp, res) != before and res.is_success:
            out.bad(key + ":changed", f"{what}: {op} changed the results")
            return out
    out.state(spec["els"], case["opt"], case["seq"], exp[0])
    out.outcome = (res.is_success, case["seq"][-1])
    return out


def hours(case, d):
    from logic.powerflowresults import QuasiTimeSeriesResults
    out = Out()
    q = QuasiTimeSeriesResults()
    singles = []
    for h, w in enumerate(case["hours"]):
        spec = [grids.DxBuilder().add("uline").load("wye").spec(), grids.DxBuilder().add("reg").load("huge").spec(),
                grids.tx_spec(2, [("line", 1, 2)], {2: "pv"})][w]
        net, B, objs, r = solve(spec, None, 30)
        if r[0] == "err":
            out.outcome = "raised"
            return out
        q.add_powerflow_snapshot_results(3 * h + 1, r[1])
        singles.append((3 * h + 1, r[1]))
    out.step(len(singles))
    r = attempt(lambda: q.output(f"{d}/all/q"))
    if r[0] == "err":
        out.bad("hours:raised", f"{case}: {r[1]}")
        return out
    for h, res in singles:
        res.output(f"{d}/one/q_{h}")
    have = sorted(os.listdir(f"{d}/all"))
    if have != sorted(f"q_{h}_{s}.csv" for h, _ in singles for s in ("voltage", "power")):
        out.bad("hours:files", f"{case}: files {have}")
        return out
    for f in have:
        if open(f"{d}/all/{f}").read() != open(f"{d}/one/{f}").read():
            out.bad("hours:content", f"{case}: {f} is not the hour's result")
            return out
    r, txt = captured(lambda: q.display())
    parts = txt.split("HOUR ")[1:]
    if r[0] == "err" or [p.split("\n")[0] for p in parts] != [str(h) for h, _ in singles] or \
            any(f"Successful: {x.is_success}" not in p for p, (_, x) in zip(parts, singles)):
        out.bad("hours:display", f"{case}: displayed {txt[:300]!r}")
    n = len(os.listdir(d))
    q.output(None)
    if len(os.listdir(d)) != n:
        out.bad("hours:none", f"{case}: output to no file wrote something")
    out.state(case)
    out.outcome = ("hours", len(singles))
    return out
