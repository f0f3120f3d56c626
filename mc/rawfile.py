"""RAW (PSS/E 33/34) case files: text writer and the network the file describes (reference semantics).

A case is a dict of record lists; every record is a dict with defaults filled in below.
"""
import csv
import math
import re

D = {
    "bus": dict(i=None, name=None, kv=138.0, ide=1, vm=1.0, va=0.0),
    "load": dict(i=None, id="1", st=1, pl=0.0, ql=0.0, ip=0.0, iq=0.0, yp=0.0, yq=0.0),
    "fsh": dict(i=None, id="1", st=1, gl=0.0, bl=0.0),
    "gen": dict(i=None, id="1", pg=0.0, qg=0.0, qt=90.0, qb=-90.0, vs=1.0, stat=1, wmod=0, wpf=1.0, pt=200.0, pb=0.0),
    "br": dict(i=None, j=None, ckt="1", r=0.02, x=0.11, b=0.0, gi=0.0, bi=0.0, gj=0.0, bj=0.0, st=1),
    "x2": dict(i=None, j=None, ckt="1", cw=1, cz=1, st=1, r=0.01, x=0.09, sb=100.0, w1=1.0, n1=0.0, ang=0.0, w2=1.0, n2=0.0,
               cod=0, cont=0),
    "x3": dict(i=None, j=None, k=None, ckt="1", cw=1, cz=1, st=1, r12=0.01, x12=0.1, sb12=100.0, r23=0.012, x23=0.12, sb23=100.0,
               r31=0.011, x31=0.09, sb31=100.0, vm=1.0, va=0.0, w=(1.0, 1.0, 1.0), n=(0.0, 0.0, 0.0), ang=(0.0, 0.0, 0.0)),
    "ss": dict(i=None, mod=0, st=1, hi=1.05, lo=0.95, binit=0.0, n1=1, b1=20.0, n2=0, b2=0.0),
}


def full(case):
    c = {"rev": case.get("rev", 33), "sbase": case.get("sbase", 100.0), "opts": case.get("opts", {})}
    for k, d in D.items():
        c[k] = [dict(d, **r) for r in case.get(k, [])]
    return c


def bus_name(b, opts):
    how = opts.get("names")
    if how == "same":
        return "BUS"
    if how == "blank":
        return " " * 12
    if how == "some":                       # every second bus shares a name
        return "EVEN" if b["i"] % 2 == 0 else f"bus {b['i']}"
    return b["name"] or f"bus {b['i']}"


def fmt(*a):
    out = []
    for x in a:
        if isinstance(x, str):
            out.append("'%s'" % x)
        elif isinstance(x, float):
            out.append(repr(x))
        else:
            out.append(str(x))
    return ",".join(out)


def cut(o, row, need):
    """leave out fields after the first `need` ones, which all hold their default values"""
    how = o.get("trim")
    if not how:
        return row
    f = next(csv.reader([row], quotechar="'"))
    n = len(f)
    k = {"all": need, "most": min(need + 1, n), "last": max(need, n - 1), "blank": need}[how]
    pos = 0
    quoted = False
    for i, ch in enumerate(row):
        if ch == "'":
            quoted = not quoted
        if ch == "," and not quoted:
            pos += 1
            if pos == k:
                return row[:i] + (", " * (n - k) if how == "blank" else "")
    return row


def text(case):
    c = full(case)
    o = c["opts"]
    v34 = c["rev"] == 34
    pad = "   " if o.get("pad") else ""
    L = []
    if o.get("key"):
        L.append("@!IC, SBASE,REV,XFRRAT,NXFRAT,BASFRQ")
    L.append(f" 0, {c['sbase']}, {c['rev']}, 0, 0, 60.00       / generated")
    L += ["case one", "case two"]
    if v34:
        L += ["GENERAL, THRSHZ=0.0002, PQBRAK=0.7", " 0 / END OF SYSTEM-WIDE DATA, BEGIN BUS DATA"]

    def sec(rows, end):
        if o.get("key"):
            L.append("@! header")
        for r in rows:
            L.append(pad + r)
        L.append("0 / END OF " + end)

    def od(rows):
        return list(reversed(rows)) if o.get("rev") else rows
    sec([fmt(b["i"], bus_name(b, o), b["kv"], b["ide"], 1, 1, 1, b["vm"], b["va"], 1.1, 0.9, 1.1, 0.9) for b in od(c["bus"])],
        "BUS DATA, BEGIN LOAD DATA")
    sec([fmt(l["i"], l["id"], l["st"], 1, 1, l["pl"], l["ql"], l["ip"], l["iq"], l["yp"], l["yq"], 1, 1, 0) for l in od(c["load"])],
        "LOAD DATA, BEGIN FIXED SHUNT DATA")
    sec([fmt(s["i"], s["id"], s["st"], s["gl"], s["bl"]) for s in od(c["fsh"])], "FIXED SHUNT DATA, BEGIN GENERATOR DATA")
    sec([cut(o, fmt(g["i"], g["id"], g["pg"], g["qg"], g["qt"], g["qb"], g["vs"], 0, 100.0, 0.0, 1.0, 0.0, 0.0, 1.0, g["stat"], 100.0,
                    g["pt"], g["pb"], 1, 1.0, 0, 1.0, 0, 1.0, 0, 1.0, g["wmod"], g["wpf"]), {0: 18, 2: 27}.get(g["wmod"], 28)) for g in od(c["gen"])],
        "GENERATOR DATA, BEGIN BRANCH DATA")
    rows = []
    for b in od(c["br"]):
        if v34:
            rows.append(cut(o, fmt(b["i"], b["j"], b["ckt"], b["r"], b["x"], b["b"], "line", *([250.0] * 12), b["gi"], b["bi"], b["gj"],
                                   b["bj"], b["st"], 1, 0.0, 1, 1.0, 0, 1.0, 0, 1.0, 0, 1.0), 24))
        else:
            rows.append(cut(o, fmt(b["i"], b["j"], b["ckt"], b["r"], b["x"], b["b"], 250.0, 250.0, 250.0, b["gi"], b["bi"], b["gj"],
                                   b["bj"], b["st"], 1, 0.0, 1, 1.0, 0, 1.0, 0, 1.0, 0, 1.0), 14))
    if v34:
        sec(rows, "BRANCH DATA, BEGIN SYSTEM SWITCHING DEVICE DATA")
        sec([], "SYSTEM SWITCHING DEVICE DATA, BEGIN TRANSFORMER DATA")
    else:
        sec(rows, "BRANCH DATA, BEGIN TRANSFORMER DATA")
    rows = []

    def wind(w, n, a, cod=0, cont=0):
        if v34:
            return fmt(w, n, a, *([0.0] * 12), cod, cont, 1.1, 0.9, 1.1, 0.9, 33, 0, 0.0, 0.0, 0.0)
        return fmt(w, n, a, 0.0, 0.0, 0.0, cod, cont, 1.1, 0.9, 1.1, 0.9, 33, 0, 0.0, 0.0, 0.0)
    own = [1, 1.0, 0, 1.0, 0, 1.0, 0, 1.0, "            "]
    for t in od(c["x2"]):
        rows += [fmt(t["i"], t["j"], 0, t["ckt"], t["cw"], t["cz"], 1, 0.0, 0.0, 2, "xf", t["st"], *own),
                 fmt(t["r"], t["x"], t["sb"]), wind(t["w1"], t["n1"], t["ang"], t["cod"], t["cont"]), fmt(t["w2"], t["n2"])]
    for t in od(c["x3"]):
        rows += [fmt(t["i"], t["j"], t["k"], t["ckt"], t["cw"], t["cz"], 1, 0.0, 0.0, 2, "xf3", t["st"], *own),
                 fmt(t["r12"], t["x12"], t["sb12"], t["r23"], t["x23"], t["sb23"], t["r31"], t["x31"], t["sb31"], t["vm"], t["va"])]
        rows += [wind(t["w"][k], t["n"][k], t["ang"][k]) for k in range(3)]
    L0 = len(L)
    if o.get("key"):
        L.append("@! header")
    L.extend(rows)
    L.append("0 / END OF TRANSFORMER DATA, BEGIN AREA DATA")
    for s in ("AREA", "TWO-TERMINAL DC", "VSC DC LINE", "IMPEDANCE CORRECTION", "MULTI-TERMINAL DC", "MULTI-SECTION LINE", "ZONE",
              "INTER-AREA TRANSFER", "OWNER", "FACTS DEVICE"):
        L.append(f"0 / END OF {s} DATA, BEGIN NEXT DATA")
    sec([cut(o, fmt(s["i"], s["mod"], 0, s["st"], s["hi"], s["lo"], 0, 100.0, "            ", s["binit"], s["n1"], s["b1"], s["n2"], s["b2"],
                    *([0, 0.0] * 6)), 14) for s in od(c["ss"])], "SWITCHED SHUNT DATA, BEGIN GNE DEVICE DATA")
    L += ["0 / END OF GNE DEVICE DATA", "Q"]
    t = "\n".join(L) + "\n"
    for k in LAYOUTS:
        if o.get(k):
            t = LAYOUTS[k](t, c)
    return t


def _records(t, fn):
    """apply fn to every data record"""
    return "\n".join(l if not l or l.startswith(("0 /", "@!", "Q", "case ", " 0", "GENERAL")) else fn(l) for l in t.split("\n"))


# other ways to write the same records
LAYOUTS = {
    "crlf": lambda t, c: t.replace("\n", "\r\n"),
    "comma": lambda t, c: t.replace("'bus ", "'bus, "),
    "slash": lambda t, c: t.replace("'bus ", "'N/S "),
    "apos": lambda t, c: t.replace("'bus ", "'O''S "),
    "exp": lambda t, c: re.sub(r"(?<![\w.'])-?\d+\.\d+(?=,|$)", lambda m: "%.9E" % float(m[0]), t, flags=re.M),
    "lead": lambda t, c: _records(t, lambda l: "     " + l.replace(",", ", ")),
    "tab": lambda t, c: _records(t, lambda l: l.replace(",", ",\t")),
    "padid": lambda t, c: t.replace("'1'", "'1 '"),
    "bareid": lambda t, c: t.replace("'1'", "1"),
    "q": lambda t, c: t.replace("\nQ", "\nq"),
    "short": lambda t, c: t if c["ss"] else t[:t.index("0 / END OF TRANSFORMER")] + "0 / END OF TRANSFORMER DATA\nQ\n",
    "end0": lambda t, c: re.sub(r"^0 / END.*$", "0", t, flags=re.M),
    "titles": lambda t, c: t.replace("case one", "Q case, one").replace("case two", "0 / x, y"),
    "notitle": lambda t, c: t.replace("case one", "").replace("case two", ""),
}


STAR = 10 ** 8


def spec(case):
    """The circuit described by the case (per unit on the case's own system base)."""
    c = full(case)
    S = c["sbase"]
    on = {b["i"]: b for b in c["bus"] if b["ide"] != 4}
    kv = {b["i"]: b["kv"] for b in c["bus"]}
    buses = [{"id": b["i"], "V": b["vm"], "ang": math.radians(b["va"]), "name": b["name"] or f"bus {b['i']}", "phase": "PosSeq"}
             for b in sorted(on.values(), key=lambda b: b["i"])]
    els = []
    slack = {b["i"] for b in c["bus"] if b["ide"] == 3}
    pv = {b["i"] for b in c["bus"] if b["ide"] == 2}
    done = set()
    regs = {}          # bus -> [P, V]
    for g in sorted(c["gen"], key=lambda g: (g["i"], g["id"])):
        if not g["stat"] or g["i"] not in on:
            continue
        if g["i"] in slack:
            if g["i"] not in done:
                els.append(["slack", g["i"], g["vs"], math.radians(on[g["i"]]["va"])])
                done.add(g["i"])
        elif g["i"] in pv:
            qt, qb = g["qt"], g["qb"]
            if g["wmod"] == 3:
                q = math.sqrt((g["pg"] / g["wpf"]) ** 2 - g["pg"] ** 2) * (1 if g["pg"] > 0 else -1 if g["pg"] < 0 else 0)
                qt = qb = q if g["wpf"] > 0 else -q
            if abs(qt - qb) < 1e-6 and g["wmod"] != 2:
                els.append(["load", g["i"], None, -g["pg"] / S, -qt / S, [0, 0], 0, 0])
            elif g["i"] in regs:
                regs[g["i"]][0] += g["pg"] / S
            else:
                regs[g["i"]] = [g["pg"] / S, g["vs"]]
    for s in c["ss"]:
        if not s["st"] or s["i"] not in on:
            continue
        if s["mod"] == 2:
            if s["i"] not in regs and s["i"] not in slack:
                regs[s["i"]] = [0.0, (s["hi"] + s["lo"]) / 2]
        else:
            els.append(["shunt", s["i"], 0.0, s["binit"] * 100.0 / S])
    for i, (p, v) in sorted(regs.items()):
        els.append(["gen", i, p, v])
    for s in c["fsh"]:
        if s["st"] and s["i"] in on:
            els.append(["shunt", s["i"], s["gl"] * 100.0 / S, s["bl"] * 100.0 / S])
    for l in c["load"]:
        if l["st"] and l["i"] in on:
            if l["pl"] or l["ql"]:
                els.append(["load", l["i"], None, l["pl"] / S, l["ql"] / S, [0, 0], 0, 0])
            if l["yp"] or l["yq"]:
                els.append(["shunt", l["i"], l["yp"] * 100.0 / S, l["yq"] * 100.0 / S])
            if l["ip"] or l["iq"]:
                els.append(["iload", l["i"], l["ip"] / S, l["iq"] / S])
    for b in c["br"]:
        if b["st"] and b["i"] in on and b["j"] in on:
            els.append(["line", b["i"], b["j"], b["r"], b["x"], b["b"]])
            if b["gi"] or b["bi"]:
                els.append(["shunt", b["i"], b["gi"] * 100, b["bi"] * 100])
            if b["gj"] or b["bj"]:
                els.append(["shunt", b["j"], b["gj"] * 100, b["bj"] * 100])

    def loss(cz, r, x, sb, tj):
        if cz == 1:
            return r * tj * tj, x * tj * tj
        if cz == 2:
            return r * S / sb * tj * tj, x * S / sb * tj * tj
        rp = r / 1e6 / sb
        return rp * S / sb * tj * tj, math.sqrt(x * x - rp * rp) * S / sb * tj * tj
    for t in c["x2"]:
        if t["st"] and t["i"] in on and t["j"] in on:
            n1, n2 = t["n1"] or kv[t["i"]], t["n2"] or kv[t["j"]]
            ti = {1: t["w1"], 2: t["w1"] / kv[t["i"]], 3: t["w1"] * n1 / kv[t["i"]]}[t["cw"]]
            tj = {1: t["w2"], 2: t["w2"] / kv[t["j"]], 3: t["w2"] * n2 / kv[t["j"]]}[t["cw"]]
            r, x = loss(t["cz"], t["r"], t["x"], t["sb"], tj)
            els.append(["xfmr", t["i"], None, t["j"], None, r, x, ti / tj, t["ang"]])
    ns = 0
    for t in sorted(c["x3"], key=lambda t: (t["i"], t["j"], t["k"], t["ckt"])):
        if not t["st"]:
            continue
        ws = (t["i"], t["j"], t["k"])
        off = {4: 0, 2: 1, 3: 2}.get(t["st"])
        act = [n for n in range(3) if n != off and ws[n] in on]
        if len(act) < 2:
            continue
        star = STAR + ns
        ns += 1
        buses.append({"id": star, "V": t["vm"], "ang": math.radians(t["va"]), "name": "star", "phase": "PosSeq", "virt": True})
        d = [loss(t["cz"], t["r" + p], t["x" + p], t["sb" + p], 1.0) for p in ("12", "23", "31")]
        z = [[0.5 * (d[a][q] + d[b][q] - d[e][q]) for q in range(2)] for a, b, e in ((0, 2, 1), (0, 1, 2), (1, 2, 0))]
        for n in act:
            nk = t["n"][n] or kv[ws[n]]
            tap = {1: t["w"][n], 2: t["w"][n] / kv[ws[n]], 3: t["w"][n] * nk / kv[ws[n]]}[t["cw"]]
            els.append(["xfmr", ws[n], None, star, None, z[n][0], z[n][1], tap, t["ang"][n]])
    return {"kind": "tx", "buses": buses, "els": els}
