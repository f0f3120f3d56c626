"""GLM feeders as lists of objects: text writer and an independent reference reading (a network spec for mc.ref.physics).

object = {"t": class, "name": str, "p": [[property, value], ...]}
value  = number | string | ["c", re, im] (complex) | ["q", number, unit, spaced] (number with unit)
"""
import cmath
import math
import numpy as np

ANG = {"A": 0.0, "B": -2 * math.pi / 3, "C": 2 * math.pi / 3}
MILE = 1609.344
FT = 0.3048


# ---------------------------------------------------------------- text
def num(v):
    return repr(float(v)) if not isinstance(v, int) else str(v)


def val(v, o):
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        if v[0] == "s":
            return f"{v[1]}*{num(v[2])}" if v[3] else f"{num(v[2])}*{v[1]}"
        if v[0] == "c":
            return f"{num(v[1])}{'+' if v[2] >= 0 else '-'}{num(abs(v[2]))}j"
        return f"{num(v[1])}{' ' if v[3] else ''}{v[2]}"
    if o.get("exp") and isinstance(v, float) and v:
        return f"{v:.15e}"
    return num(v)


def text(objs, opts=None):
    o = opts or {}
    objs = list(objs)
    if o.get("order"):
        objs = order(objs, o["order"])
    used = o.get("used") or {v for ob in objs for _, v in ob["p"] if isinstance(v, str)}
    ind = {0: "\t", 1: "    ", 2: ""}[o.get("indent", 0)]
    L = []
    if o.get("head"):
        L += ["// feeder", "#set profiler=1", "clock {", "\ttimezone EST+5EDT;", "\tstarttime '2000-01-01 0:00:00';", "}",
              "module tape;", "module powerflow {", "\tsolver_method NR;", "}", ""]
    for n, ob in enumerate(objs, o.get("n0", 0)):
        if o.get("comments"):
            L += ["// next object", "//object node {", "//\tname ghost;", "//}"]
        if o.get("junk"):
            L += ["class gadget%d {" % n, ind + "double size[m];", ind + "char32 phases;", "}", "#define NODE%d=node" % n]
        if o.get("skipped"):
            L += ["object recorder {", "\tparent " + ob["name"] + ";", "\tproperty voltage_A;", "\tfile out.csv;", "}"]
        props = list(ob["p"])
        first = len(L)
        if ob["t"] == "schedule":
            schedule(L, ob, o, ind)
            continue
        head = "object " + ob["name"] if o.get("colonref") else f"object {ob['t']}:{n + 100}" if o.get("colon") else f"object {ob['t']}"
        if o.get("brace"):
            L += [head, "{"]
        else:
            L.append(head + ("{" if o.get("tight") else " {"))
        rows = []
        if not (ob.get("anon") or o.get("colonref") or o.get("noname") and ob["name"] not in used):
            rows.append(["name", ob["name"]])
        rows += props
        if o.get("revprops"):
            rows.reverse()
        for k, v in rows:
            s = val(v, o)
            if o.get("shuf") and k in ("phases", "phases_connected"):
                s = s[::-1]
            if o.get("bar") and k in ("phases", "phases_connected"):
                s = "|".join(s)
            if o.get("quote") and k == "phases" or o.get("quoteall") and isinstance(v, str) and " " not in s:
                s = '"' + s + '"'
            if o.get("spsemi"):
                s += " "
            c = " // " + k + " of the object" if o.get("trail") else " //was 5; // {" if o.get("inner") else ""
            if o.get("inner"):
                L.append(ind + '// see http://example.org/a"b; } ' + k + " 77;")
            L.append(f"{ind}{k}{'\t' if o.get('tab') else '    ' if o.get('wide') else ' '}{s};{c}")
        if o.get("nested") and ob["t"] in ("node", "meter", "load", "triplex_node", "overhead_line", "switch"):
            L += [ind + "object recorder {", ind * 2 + "name nested%d;" % n, ind * 2 + "property voltage_A;", ind * 2 + "interval 60;", ind + "};"]
        if o.get("deep") and ob["t"] in ("node", "meter", "load", "triplex_node", "overhead_line", "switch"):
            at = first + 1 + bool(o.get("brace")) + len(rows) // 2
            L[at:at] = [ind + "object recorder {", ind * 2 + "object player {", ind * 3 + "property value;", ind * 2 + "};",
                        ind * 2 + "name deep%d;" % n, ind * 2 + "phases AN;", ind + "};"]
        L.append("}" if o.get("nosemi") else "};")
        if o.get("oneline"):
            L[first:] = [" ".join(x.strip() for x in L[first:])]
        elif o.get("pairs"):
            body = L[first:]
            L[first:] = [" ".join(body[i:i + 2]) for i in range(0, len(body), 2)]
        if not o.get("dense"):
            L.append("")
    return ("\r\n" if o.get("crlf") else "\n").join(L) + "\n"


def schedule(L, ob, o, ind):
    def head(x, i):
        return [i + x, i + "{"] if o.get("brace") else [i + x + ("{" if o.get("tight") else " {")]

    def rows(rs, i):
        return [f"{i}{cron.replace(' ', chr(9) if o.get('tab') else '   ' if o.get('wide') else ' ')} {num(v)};" +
                (" // until " + cron if o.get("trail") else "") for cron, v in rs]
    first = len(L)
    L.extend(head("schedule " + ob["name"], ""))
    for name, rs in ob["blocks"]:
        L.extend(rows(rs, ind) if name is None else head(name, ind) + rows(rs, ind * 2) + [ind + "}"])
    L.append("}" if o.get("nosemi") else "};")
    if o.get("oneline"):
        L[first:] = [" ".join(x.split("//")[0].strip() for x in L[first:])]
    elif o.get("pairs"):
        body = [x.split("//")[0] for x in L[first:]]
        L[first:] = [" ".join(body[i:i + 2]) for i in range(0, len(body), 2)]
    if not o.get("dense"):
        L.append("")


NOW = {"min": 0, "hour": 14, "dom": 1, "month": 6, "dow": 4}      # Thursday, 1 June 2017, 14:00, the moment the tool reads schedules for


def matches(field, now, seven=False):
    for part in field.split(","):
        if part == "*":
            return True
        part, _, step = part.partition("/")
        a, _, b = part.partition("-")
        if part == "*":
            ok = now % int(step) == 0
        else:
            a, b = int(a), int(b or a)
            ok = a <= now <= b if a <= b else now >= a or now <= b
        if ok:
            return True
    return False


def scheduled(ob):
    for _, rows in ob["blocks"]:
        for cron, v in rows:
            if all(matches(f, NOW[k]) for f, k in zip(cron.split(), ("min", "hour", "dom", "month", "dow"))):
                return v
    raise AssertionError(ob)


def by_number(objs):
    """the same objects called by their class and a number that starts over for each class"""
    count, new = {}, {}
    for ob in objs:
        if ob["t"] == "schedule":
            new[ob["name"]] = ob["name"]
            continue
        count[ob["t"]] = count.get(ob["t"], 0) + 1
        new[ob["name"]] = f"{ob['t']}:{count[ob['t']]}"
    return [dict(ob, name=new[ob["name"]], p=[[k, new.get(v, v) if isinstance(v, str) else v] for k, v in ob["p"]]) for ob in objs]


def files(objs, opts=None):
    """the feeder spread over included files: {relative name: text}; the first is the case"""
    o = dict(opts or {})
    how = o.pop("include")
    o["used"] = {v for ob in objs for _, v in ob["p"] if isinstance(v, str)}
    a, b, c = (objs[::3], objs[1::3], objs[2::3])
    second = "parts/lines.glm" if how == "sub" else "lines.glm"
    third = "more.glm"
    return {"case.glm": f'#include "{second}"\n' + text(a, o), second: text(b, dict(o, n0=1000)) + f'#include "{third}";\n',
            ("parts/" if how == "sub" else "") + third: text(c, dict(o, n0=2000))}


def order(objs, how):
    links = ("overhead_line", "underground_line", "triplex_line", "transformer", "regulator", "switch", "fuse", "capacitor")
    if how == "rev":
        return objs[::-1]
    if how == "links":
        return sorted(objs, key=lambda b: b["t"] not in links)
    if how == "conf":
        return sorted(objs, key=lambda b: not ("conf" in b["t"] or "conductor" in b["t"] or "spacing" in b["t"]))
    if how == "loads":
        return sorted(objs, key=lambda b: b["t"] not in ("load", "triplex_node", "triplex_load"))
    if how == "rot":
        k = len(objs) // 2
        return objs[k:] + objs[:k]
    raise ValueError(how)


# ---------------------------------------------------------------- reference reading
TO = {"ft": {"": 1.0, "ft": 1.0, "km": 1e3 / FT, "m": 1 / FT, "mile": 5280.0, "in": 1 / 12.0, "cm": 1 / 30.48},
      "in": {"": 1.0, "in": 1.0},
      "V": {"": 1.0, "V": 1.0, "kV": 1e3},
      "kVA": {"": 1.0, "kVA": 1.0, "MVA": 1e3, "VA": 1e-3},
      "ohm/mile": {"": 1.0, "Ohm/mile": 1.0, "Ohm/km": 1.609344},
      "VAr": {"": 1.0, "VAr": 1.0, "kVAr": 1e3, "MVAr": 1e6},
      "A": {"": 1.0, "A": 1.0}}


def qty(v, unit):
    if isinstance(v, (list, tuple)) and v[0] == "q":
        return v[1] * TO[unit][v[2]]
    if isinstance(v, str):
        return float(v)
    return float(v)


def cpx(v):
    if isinstance(v, (list, tuple)):
        return complex(v[1], v[2])
    return complex(v)


def zii(r, gmr, ug):
    return complex(r + (0.09327 if ug else 0.0953), 0.12134 * (math.log(1 / gmr) + (7.95153 if ug else 7.93402)))


def zij(d, ug):
    return complex(0.09327 if ug else 0.0953, 0.12134 * (math.log(1 / d) + (7.95153 if ug else 7.93402)))


def kron(M, keep):
    n = len(M)
    rest = [i for i in range(n) if i not in keep]
    if not rest:
        return M[np.ix_(keep, keep)]
    return M[np.ix_(keep, keep)] - M[np.ix_(keep, rest)] @ np.linalg.inv(M[np.ix_(rest, rest)]) @ M[np.ix_(rest, keep)]


def letters(ph):
    return [c for c in ph.strip('"') if c in "ABC"]


class Feeder:
    def __init__(self, objs, cap=True):
        self.o = {b["name"]: dict(b["p"], _t=b["t"], _s=b.get("blocks") and scheduled(b)) for b in objs}
        self.objs = objs
        self.cap = cap
        self.buses, self.els, self.id = [], [], {}
        self.rep = {}
        self.build()

    def P(self, n):
        return self.o[n]

    # nodes ------------------------------------------------------
    def root(self, n):
        """the node an object's terminals are"""
        seen = 0
        while "parent" in self.o[n] and self.o[n]["_t"] in ("node", "meter", "load", "triplex_node", "triplex_meter", "triplex_load"):
            n = self.o[n]["parent"]
            seen += 1
            assert seen < 50
        return n

    def newbus(self, name, ph, V, ang, virt=False):
        i = len(self.buses)
        self.buses.append({"id": i, "V": V, "ang": ang, "name": name, "phase": ph, "virt": virt})
        if not virt:
            self.id[(name, ph)] = i
        return i

    def at(self, name, ph):
        return self.id[(self.root(name), ph)]

    def build(self):
        nodes = ("node", "meter", "load", "triplex_node", "triplex_meter", "triplex_load")
        for n, p in self.o.items():
            if p["_t"] not in nodes or "parent" in p:
                continue
            vn = qty(p["nominal_voltage"], "V")
            if p["_t"].startswith("triplex"):
                a = ANG[p["phases"].strip('"')[0]]
                self.newbus(n, "1", vn, a)
                self.newbus(n, "2", vn, a + math.pi)
                continue
            for c in letters(p["phases"]):
                self.newbus(n, c, vn, ANG[c])
                if p.get("bustype") == "SWING":
                    v = cpx(p["voltage_" + c]) if "voltage_" + c in p else cmath.rect(vn, ANG[c])
                    self.els.append(["slack", self.id[(n, c)], abs(v), cmath.phase(v)])
        for n, p in self.o.items():
            f = getattr(self, "r_" + p["_t"], None)
            if f:
                f(n, p)
            if p["_t"] in ("load", "triplex_load", "triplex_node", "triplex_meter"):
                self.loads(n, p)

    def mid(self, i):
        b = self.buses[i]
        return self.newbus("aux", b["phase"], b["V"], b["ang"], True)

    # loads ------------------------------------------------------
    def loads(self, n, p):
        tri = p["_t"].startswith("triplex")
        delta = (not tri) and "D" in p["phases"]
        pref = ("", "constant_") if tri else ("constant_",)
        for c in "ABC":
            if f"base_power_{c}" in p:
                base = p[f"base_power_{c}"]
                if isinstance(base, (list, tuple)):
                    base = self.o[base[1]]["_s"] * base[2]

                def part(k):
                    pf = p[f"{k}_pf_{c}"]
                    return base * p[f"{k}_fraction_{c}"] * complex(pf, math.sqrt(1 - pf * pf))
                i = self.at(n, c)
                s, y = part("power"), part("impedance").conjugate() / qty(p["nominal_voltage"], "V") ** 2
                z = 1 / y if y else 0j
                assert part("current") == 0
                self.els.append(["load", i, None, s.real, s.imag, [z.real, z.imag], 0.0, 0.0])
        for c in ("1", "2", "12") if tri else ("A", "B", "C", "AB", "BC", "CA"):
            term = {"A": "AB", "B": "BC", "C": "CA"}.get(c, c) if delta else c
            for pre in pref:
                for kind in ("power", "impedance", "current"):
                    key = f"{pre}{kind}_{c}"
                    if key not in p:
                        continue
                    v = cpx(p[key])
                    if v == 0:
                        continue
                    i = self.at(n, term[0])
                    j = self.at(n, term[1]) if len(term) == 2 else None
                    if kind == "power":
                        self.els.append(["load", i, j, v.real, v.imag, [0.0, 0.0], 0.0, 0.0])
                    elif kind == "impedance":
                        self.els.append(["load", i, j, 0.0, 0.0, [v.real, v.imag], 0.0, 0.0])
                    else:
                        self.els.append(["load", i, j, 0.0, 0.0, [0.0, 0.0], v.real, v.imag])

    # lines ------------------------------------------------------
    def length_ft(self, p):
        return qty(p["length"], "ft")

    def dist(self, sp, a, b):
        order_ = "ABCNE"
        if order_.index(a) > order_.index(b):
            a, b = b, a
        k = f"distance_{a}{b}"
        if k not in sp:
            return None
        v = sp[k]
        return qty(v, "ft")

    def add_line(self, p, phases, Z, Y):
        f = [self.at(p["from"], c) for c in phases]
        t = [self.at(p["to"], c) for c in phases]
        L = self.length_ft(p) / 5280.0
        cz = [[[z.real, z.imag] for z in row] for row in Z]
        cy = None if Y is None else [[[0.0, y] for y in row] for row in Y]
        self.els.append(["uline", f, t, cz, cy, L])

    def direct(self, p, cfg, phases, Y=None):
        """a configuration that gives the impedance matrix (ohm/mile, one row per phase) overrides its geometry"""
        if not any(f"z{a}{b}" in cfg for a in "123" for b in "123"):
            return False
        no = {"A": "1", "B": "2", "C": "3", "1": "1", "2": "2"}
        Z = [[cpx(cfg.get(f"z{no[a]}{no[b]}", 0.0)) for b in phases] for a in phases]
        self.add_line(p, phases, Z, Y)
        return True

    def r_overhead_line(self, n, p):
        ph = p["phases"].strip('"')
        cfg = self.P(p["configuration"])
        if "conductor_" + letters(ph)[0] not in cfg and self.direct(p, cfg, letters(ph)):
            return
        wires = letters(ph) + (["N"] if "N" in ph else [])
        wires = [w for w in "ABCN" if w in wires]
        co = {w: self.P(cfg["conductor_" + w]) for w in wires}
        sp = self.P(cfg["spacing"]) if "spacing" in cfg else {}
        k = len(wires)
        Z = np.zeros((k, k), dtype=complex)
        for a, wa in enumerate(wires):
            for b, wb in enumerate(wires):
                if a == b:
                    Z[a, a] = zii(qty(co[wa]["resistance"], "ohm/mile"), qty(co[wa]["geometric_mean_radius"], "ft"), False)
                else:
                    Z[a, b] = zij(self.dist(sp, wa, wb), False)
        keep = [a for a, w in enumerate(wires) if w != "N"]
        Y = None
        if self.cap and all("diameter" in co[w] for w in wires) and all(self.dist(sp, w, "E") for w in wires):
            Pm = np.zeros((k, k))
            h = [self.dist(sp, w, "E") for w in wires]
            for a, wa in enumerate(wires):
                for b, wb in enumerate(wires):
                    if a == b:
                        Pm[a, a] = 11.17689 * math.log(2 * h[a] / (qty(co[wa]["diameter"], "in") / 24.0))
                    else:
                        d = self.dist(sp, wa, wb)
                        Pm[a, b] = 11.17689 * math.log(math.sqrt(d * d + 4 * h[a] * h[b]) / d)
            C = np.linalg.inv(kron(Pm, keep))
            Y = (2 * math.pi * 60 * 1e-6 * C * CHARGE).tolist()
        if not self.direct(p, cfg, [w for w in wires if w != "N"], Y):
            self.add_line(p, [w for w in wires if w != "N"], kron(Z, keep).tolist(), Y)

    def r_underground_line(self, n, p):
        ph = p["phases"].strip('"')
        cfg = self.P(p["configuration"])
        wires = [w for w in "ABCN" if w in ph and ("conductor_" + w) in cfg]
        if not wires and self.direct(p, cfg, letters(ph)):
            return
        co = {w: self.P(cfg["conductor_" + w]) for w in wires}
        sp = self.P(cfg["spacing"]) if "spacing" in cfg else {}
        cores = [w for w in wires if w != "N"]
        R, ks = {}, {}
        for w in cores:
            R[w] = (qty(co[w]["outer_diameter"], "in") - qty(co[w]["neutral_diameter"], "in")) / 24.0
            ks[w] = co[w]["neutral_strands"]
        # conductors: cores, then the neutral of each core, then a separate neutral
        cond = [("c", w) for w in cores] + [("n", w) for w in cores] + ([("s", "N")] if "N" in wires else [])
        m = len(cond)
        Z = np.zeros((m, m), dtype=complex)
        for a, (ta, wa) in enumerate(cond):
            for b, (tb, wb) in enumerate(cond):
                if a == b:
                    c = co[wa]
                    if ta == "n":
                        r = qty(c["neutral_resistance"], "ohm/mile") / ks[wa]
                        g = (qty(c["neutral_gmr"], "ft") * ks[wa] * R[wa] ** (ks[wa] - 1)) ** (1.0 / ks[wa])
                    else:
                        r, g = qty(c["conductor_resistance"], "ohm/mile"), qty(c["conductor_gmr"], "ft")
                    Z[a, a] = zii(r, g, True)
                    continue
                if wa == wb:
                    d = R[wa]
                else:
                    d = self.dist(sp, wa, wb)
                    kinds = {ta, tb}
                    if "n" in kinds and kinds != {"n"}:
                        w = wa if ta == "n" else wb
                        d = (d ** ks[w] - R[w] ** ks[w]) ** (1.0 / ks[w])
                Z[a, b] = zij(d, True)
        nc = len(cores)
        Y = None
        if self.cap:
            Y = np.zeros((nc, nc))
            for a, w in enumerate(cores):
                c = co[w]
                Rb = R[w] * 12
                k = ks[w]
                Y[a, a] = CHARGE * 77.3619e-6 / (math.log(Rb / (qty(c["conductor_diameter"], "in") / 2))
                                                 - math.log(k * qty(c["neutral_diameter"], "in") / 2 / Rb) / k)
            Y = Y.tolist()
        if not self.direct(p, cfg, cores, Y):
            self.add_line(p, cores, kron(Z, list(range(nc))).tolist(), Y)

    def r_triplex_line(self, n, p):
        cfg = self.P(p["configuration"])
        if self.direct(p, cfg, ["1", "2"]):
            return
        dia, ins = qty(cfg["diameter"], "in"), qty(cfg["insulation_thickness"], "in")
        d = {frozenset("12"): (dia + 2 * ins) / 12, frozenset("1N"): (dia + ins) / 12, frozenset("2N"): (dia + ins) / 12}
        ws = "12N"
        Z = np.zeros((3, 3), dtype=complex)
        for a, wa in enumerate(ws):
            for b, wb in enumerate(ws):
                c = self.P(cfg["conductor_" + wa])
                Z[a, b] = zij(d[frozenset(wa + wb)], False) if a != b else \
                    zii(qty(c["resistance"], "ohm/mile"), qty(c["geometric_mean_radius"], "ft"), False)
        self.add_line(p, ["1", "2"], kron(Z, [0, 1]).tolist(), None)

    # transformers -----------------------------------------------
    def r_transformer(self, n, p):
        cfg = self.P(p["configuration"])
        v1, v2 = qty(cfg["primary_voltage"], "V"), qty(cfg["secondary_voltage"], "V")
        if "power_rating" in cfg:
            S = qty(cfg["power_rating"], "kVA") * 1e3
        else:
            S = sum(qty(cfg[k], "kVA") for k in ("powerA_rating", "powerB_rating", "powerC_rating") if k in cfg) * 1e3
        if "impedance" in cfg:
            z = cpx(cfg["impedance"])
        else:
            z = complex(cfg["resistance"], cfg["reactance"])
        kind = {1: "WYE_WYE", 2: "DELTA_DELTA", 3: "DELTA_GWYE", 4: "SINGLE_PHASE", 5: "SINGLE_PHASE_CENTER_TAPPED"}
        ct = kind.get(cfg["connect_type"], cfg["connect_type"])
        ph = letters(p["phases"])
        if ct == "SINGLE_PHASE_CENTER_TAPPED":
            f = self.at(p["from"], ph[0])
            t1, t2 = self.at(p["to"], "1"), self.at(p["to"], "2")
            pr, s1, s2 = self.mid(f), self.mid(t1), self.mid(t2)
            zs = [complex(z.real / 2, 0.8 * z.imag), complex(z.real, 0.4 * z.imag), complex(z.real, 0.4 * z.imag)]
            if "impedance1" in cfg and "impedance2" in cfg:      # every winding's own impedance is given: nothing to approximate
                zs = [z, cpx(cfg["impedance1"]), cpx(cfg["impedance2"])]
            self.els.append(["ct", f, pr, s1, s2, t1, t2, *[[w.real, w.imag] for w in zs], v1, v2, S, v1 / v2])
            return
        # windings: line-to-line voltages on three-phase banks; per-unit impedance on the secondary winding's base
        rot = {"A": "B", "B": "C", "C": "A"}
        d1 = ct in ("DELTA_DELTA", "DELTA_GWYE")
        d2 = ct == "DELTA_DELTA"
        w1 = v1 * (math.sqrt(3) if d1 else 1)
        w2 = v2 * (math.sqrt(3) if d2 else 1)
        zz = z * w2 * w2 / S
        for c in ph:
            i, k = self.at(p["from"], c), self.at(p["to"], c)
            j = self.at(p["from"], rot[c]) if d1 else None
            m = self.at(p["to"], rot[c]) if d2 else None
            self.els.append(["xfmr", i, j, k, m, zz.real, zz.imag, w1 / w2, 0.0])

    def r_regulator(self, n, p):
        cfg = self.P(p["configuration"])
        up, lo = cfg["raise_taps"], cfg["lower_taps"]
        step = 2 * cfg["regulation"] / (up + lo)
        for c in letters(p["phases"]):
            f, t = self.at(p["from"], c), self.at(p["to"], c)
            self.els.append(["reg", f, t, self.mid(t), cfg["tap_pos_" + c], step, cfg.get("Type", "B"), up, lo])

    # switching devices, capacitors ------------------------------
    def r_switch(self, n, p):
        for c in letters(p["phases"]):
            st = p.get(f"phase_{c}_state", p.get("status", "CLOSED"))
            self.els.append(["switch", self.at(p["from"], c), self.at(p["to"], c), st])

    r_recloser = r_switch

    def r_fuse(self, n, p):
        for c in letters(p["phases"]):
            f, t = self.at(p["from"], c), self.at(p["to"], c)
            self.els.append(["fuse", f, t, self.mid(t), qty(p["current_limit"], "A")])

    def r_capacitor(self, n, p):
        for c in letters(p.get("phases_connected", p["phases"])):
            if "capacitor_" + c not in p:
                continue
            st = p.get("switch" + c, "OPEN")
            self.els.append(["cap", self.at(p["parent"], c), qty(p["capacitor_" + c], "VAr"), qty(p["cap_nominal_voltage"], "V"), st])

    def spec(self):
        return {"kind": "dx", "buses": self.buses, "els": self.els}


# fraction of the total line charging that the tool attaches (pinned by the repository's own comparisons with GridLAB-D results)
CHARGE = 0.5
