"""C23: diagnostics (progress lines, matrix dumps) record exactly the systems that were solved and do not influence them."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import numpy as np
from mc.core import Out, attempt, SCRATCH
from mc import asm, grids
from mc.net import build, aux_layout
from mc.ref import physics

PROP = "C23"
BOUND = ("every network of the positive-sequence and three-phase families (quick: every third, plus all with one device) x {power flow, infeasibility analysis} x "
         "iteration budgets {1, 2, 50} x {fresh folder, folder with the dumps of another run} x voltage limiting; the Newton walk is repeated outside the "
         "loop (own assembly calls, dense solve) and compared entry by entry with the dumped matrices, right-hand sides, solution, lookup and progress lines; "
         "complete runs with device control and homotopy with and without dumps give bitwise the same result")
ASSUMPTIONS = ["numbers in the dumps have five significant digits", "matrix entries below 1e-9 of the largest entry of their row may differ (cancellation)"]

LINE = re.compile(r"maximum residual for iteration (\d+) is (\S+) at (.*?)(?:\x1b|$)")


def cases(tier):
    k = 0
    for fam in (grids.tx_family(tier), grids.dx_family(tier)):
        for n, spec in enumerate(fam):
            if tier != "thorough" and n % 3 and n >= 60:
                continue
            for opt, its in itertools.product((None, "L2"), (1, 2, 50)):
                k += 1
                if tier != "thorough" and (n + its + (opt is None)) % 3:
                    continue
                yield {"k": "walk", "spec": spec, "opt": opt, "its": its, "old": k % 2, "lim": (k // 2) % 2}
    for spec in FULL():
        for opt, tx, its in itertools.product((None, "L2"), (False, True), (1, 3, 50)):
            yield {"k": "full", "spec": spec, "opt": opt, "tx": tx, "its": its}


def FULL():
    for b, d in itertools.product(["line", "shift", "par"], ["pq", "zip", "pv", "huge"]):
        yield grids.tx_spec(2, [(b, 1, 2)], {2: d})
    for ch in (["uline"], ["reg"], ["dy", "uline"], ["reg", "sw"], ["fuse"]):
        for l in ("wye", "z", "cap", "huge"):
            b = grids.DxBuilder()
            for k in ch:
                b.add(k)
            yield b.load(l).spec()


def prepare():
    for spec in (grids.tx_spec(2, [("shift", 1, 2)], {2: "zip"}), grids.tx_spec(2, [("line", 1, 2)], {2: "pv"}),
                 grids.DxBuilder().add("uline").load("wye").spec(), grids.DxBuilder().add("reg").add("fuse").load("z").spec()):
        asm.setup(spec)
        asm.setup(spec, "L2")


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="c23_", dir=SCRATCH)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def read(name, two):
    """entries of a dump file: {(i, j) or i: value}; None when the file is missing or not readable as such"""
    p = os.path.join("dumps", name)
    if not os.path.isfile(p):
        return None
    res = {}
    for l in re.split(r"[\r\n]+", open(p, newline="").read()):
        if not l:
            continue
        m = re.fullmatch(r"(\d+), (\d+): (\S+)" if two else r"(\d+): (\S+)", l)
        if not m:
            return None
        key = (int(m[1]), int(m[2])) if two else int(m[1])
        if key in res:
            return None
        res[key] = float(m[3] if two else m[2])
    return res


def agree(got, want, floor):
    """want: {key: value}; floor: {key: smallest relevant size}"""
    for k in set(got) | set(want):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if not abs(a - b) <= 6e-5 * abs(b) + floor(k):
            return f"entry {k} is {got.get(k)}, the system has {b}"
    return None


def old_dumps():
    os.makedirs("dumps")
    for n in list(range(1, 60)):
        for c in "YJ":
            with open(f"dumps/{c}{n}_output.txt", "w") as f:
                f.write("0, 0: 7\r" if c == "Y" else "0: 7\r1: 8\r")
    for n in ("v_output", "lookup"):
        with open(f"dumps/{n}.txt", "w") as f:
            f.write("0: 7\r1: 9\r99: 7\r")


def label_of(spec, lay):
    """for every bus voltage and slack current: the texts its label must contain"""
    name = {b["id"]: (b["name"], b["phase"]) for b in spec["buses"]}
    res = {}
    for key, idx in lay.items():
        if key[0] == "V":
            for n, i in enumerate(idx):
                res[i] = name[key[1]] + (("Vr", "Vi")[n],)
        elif key[0] == "I" and spec["els"][key[1]][0] == "slack":
            for n, i in enumerate(idx):
                res[i] = name[spec["els"][key[1]][1]] + (("Ir", "Ii")[n],)
    return res


def fits(text, want):
    return all(re.search(r"(?<![A-Za-z0-9])" + re.escape(str(w)) + r"(?![A-Za-z0-9])", text) for w in want)


def walk(case, out):
    from logic.nrsolver import NRSolver
    from logic.v_limiting import PositiveSeqVoltageLimiting
    spec = case["spec"]
    net, B, objs, st, lay = asm.setup(spec, case["opt"])
    s = asm.settings(tolerance=1e-5, max_iters=case["its"], dump_matrix=True)
    lim = PositiveSeqVoltageLimiting(net) if case["lim"] and spec["kind"] == "tx" else None
    v0 = net.generate_v_init(s)
    what = f"{case['opt'] or 'power flow'}, budget {case['its']}, limiting {bool(lim)}, {'old dumps present' if case['old'] else 'fresh folder'}"
    with scratch():
        if case["old"]:
            old_dumps()
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = attempt(lambda: NRSolver(s, net, lim).run_powerflow(st, np.copy(v0), 0.0))
        if r[0] == "err":
            out.outcome = "err"
            return       # C07 judges failures
        ok, v, it = r[1]
        lines = [LINE.search(l) for l in buf.getvalue().split("\n")]
        lines = [l for l in lines if l]
        out.outcome = (bool(ok), it, case["opt"])
        n = net.size_Y
        lab = label_of(spec, lay)
        x = np.copy(v0)
        # a twin with rounding-sized disturbances tells how far the repeated walk may be trusted
        wob = 1 + 1e-13 * ((-1.0) ** np.arange(n)) * (1 + np.arange(n) % 3)
        twin = np.copy(v0)
        for k in range(it + 1):
            if np.max(np.abs(x - twin)) > 1e-8 * (1e-3 + np.max(np.abs(x))):
                break
            out.step()
            out.state(spec, case["opt"], case["lim"], k)
            A, J = asm.stamp_system(net, st, x, 0.0, k)
            gy, gj = read(f"Y{k + 1}_output.txt", True), read(f"J{k + 1}_output.txt", False)
            if gy is None or gj is None:
                out.bad("missing", f"{what}: the dump of iteration {k} is missing or unreadable")
                return
            row = np.max(np.abs(A), axis=1)
            bad = agree(gy, {(int(i), int(j)): A[i, j] for i, j in zip(*np.nonzero(A))}, lambda q: 1e-9 * (row[q[0]] if q[0] < n else 0.0))
            if bad:
                out.bad("matrix", f"{what}: matrix dump of iteration {k}: {bad}")
                return
            js = float(np.max(np.abs(J))) if n else 0.0
            bad = agree(gj, {int(i): J[i] for i in np.nonzero(J)[0]}, lambda q: 1e-9 * js)
            if bad:
                out.bad("rhs", f"{what}: right-hand side dump of iteration {k}: {bad}")
                return
            try:
                nxt = np.linalg.solve(A, J)
            except np.linalg.LinAlgError:
                break
            # the progress line of this iteration
            if len(lines) != it + 1 or int(lines[k][1]) != k:
                out.bad("progress", f"{what}: {len(lines)} progress lines for {it + 1} iterations, line {k} is numbered {lines[k][1] if k < len(lines) else None}")
                return
            F = st.calc_residuals(0.0, nxt, k).residuals
            if case["opt"] is None:
                P = physics.evalF(spec, nxt[asm.layout_vec(spec, lay)])
                mx = float(np.max(np.abs(P)))
            else:
                mx = float(np.max(np.abs(F)))
            said = float(lines[k][2])
            noise = 1e-9 * float(np.max(np.abs(A) @ np.abs(nxt))) + 1e-12
            if not abs(said - mx) <= 1e-4 * mx + noise:
                out.bad("progress-value", f"{what}: iteration {k} is said to have a largest residual of {said}, the circuit equations leave {mx}")
                return
            top = [i for i in range(n) if abs(F[i]) >= np.max(np.abs(F)) * (1 - 1e-6) - noise]
            if all(i in lab for i in top) and not any(fits(lines[k][3], lab[i]) for i in top):
                out.bad("progress-place", f"{what}: iteration {k} names {lines[k][3]!r}, the largest residual is at {[lab[i] for i in top]}")
                return
            A2, J2 = asm.stamp_system(net, st, twin, 0.0, k)
            try:
                nxt2 = np.linalg.solve(A2, J2) * wob
            except np.linalg.LinAlgError:
                break
            if lim is not None:
                nxt2 = lim.apply_limiting(nxt2, np.copy(twin))
                nxt = lim.apply_limiting(nxt, np.copy(x))
            x, twin = np.copy(nxt), np.copy(nxt2)
        gv = read("v_output.txt", False)
        vs = float(np.max(np.abs(v))) if n else 0.0
        bad = "missing or unreadable" if gv is None else agree(gv, {int(i): v[i] for i in np.nonzero(v)[0]}, lambda q: 0.0)
        if bad:
            out.bad("solution", f"{what}: solution dump: {bad}")
        try:
            look = dict(re.fullmatch(r"(\S+): (.*)", l).groups() for l in re.split(r"[\r\n]+", open("dumps/lookup.txt", newline="").read()) if l)
        except (OSError, AttributeError):
            out.bad("lookup", f"{what}: the lookup is missing or unreadable")
            return
        for i, w in lab.items():
            if not fits(look.get(str(i), ""), w):
                out.bad("lookup", f"{what}: unknown {i} is {':'.join(w)}, the lookup calls it {look.get(str(i))!r}")
                return
        extra = [i for i in look if i not in ("None",) and not (i.isdigit() and int(i) < n)]
        if extra:
            out.bad("lookup", f"{what}: the lookup holds unknowns {extra[:3]} of {n}")


def full(case, out):
    from logic.powerflow import PowerFlow
    spec = case["spec"]
    what = f"complete run, {case['opt'] or 'power flow'}, homotopy {case['tx']}, budget {case['its']}"
    res = []
    for dump in (False, True):
        with scratch():
            net, B, objs = build(spec, opt=case["opt"])
            s = asm.settings(tolerance=1e-5, max_iters=case["its"], dump_matrix=dump, tx_stepping=case["tx"], device_control=True)
            r = attempt(lambda: PowerFlow(net, s).execute())
            res.append((r[0], r[1] if r[0] == "err" else (bool(r[1].is_success), r[1].iterations, r[1].tx_percent, np.array(r[1].v_final))))
            has = os.path.isdir("dumps")
            gv = read("v_output.txt", False) if has else None
            out.step()
            if not dump and (has or os.listdir(".")):
                out.bad("unasked", f"{what}: files {os.listdir('.')} written although no dump was asked for")
    out.state(spec, case["opt"], case["tx"], case["its"])
    (ka, a), (kb, b) = res
    out.outcome = (ka, a[0] if ka == "ok" else "")
    if ka != kb or (ka == "err" and a != b):
        out.bad("influence", f"{what}: {ka} {a if ka == 'err' else ''} without and {kb} {b if kb == 'err' else ''} with dumps")
        return
    if ka == "err":
        return
    if a[:3] != b[:3] or not np.array_equal(a[3], b[3], equal_nan=True):
        out.bad("influence", f"{what}: without dumps {a[:3]}, with dumps {b[:3]}, states differ by {np.max(np.abs(a[3] - b[3]))}")
        return
    bad = "missing or unreadable" if gv is None else agree(gv, {int(i): b[3][i] for i in np.nonzero(b[3])[0]}, lambda q: 0.0)
    if bad:
        out.bad("solution", f"{what}: solution dump: {bad}")


def run_case(case):
    out = Out()
    {"walk": walk, "full": full}[case["k"]](case, out)
    return out
