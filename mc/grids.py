"""Bounded families of small networks (specs for mc.net) shared by several checks."""
import itertools
import math

PH = ("A", "B", "C")
ANG = {"A": 0.0, "B": -2 * math.pi / 3, "C": 2 * math.pi / 3}

TX_BRANCH = {
    "line": lambda i, j: ["line", i, j, 0.02, 0.11, 0.0],
    "cline": lambda i, j: ["line", i, j, 0.01, 0.08, 0.12],
    "tap": lambda i, j: ["xfmr", i, None, j, None, 0.01, 0.09, 1.05, 0.0],
    "shift": lambda i, j: ["xfmr", i, None, j, None, 0.0, 0.12, 0.97, 12.0],
    "rev": lambda i, j: ["xfmr", j, None, i, None, 0.02, 0.1, 0.95, -7.0],
    "par": lambda i, j: [["line", i, j, 0.03, 0.2, 0.02], ["line", j, i, 0.01, 0.15, 0.0]],
}
TX_DEV = {
    "none": lambda i: [],
    "pq": lambda i: [["load", i, None, 0.45, 0.15, [0, 0], 0, 0]],
    "pqneg": lambda i: [["load", i, None, -0.5, 0.1, [0, 0], 0, 0]],
    "z": lambda i: [["load", i, None, 0, 0, [1.9, 0.6], 0, 0]],
    "i": lambda i: [["load", i, None, 0, 0, [0, 0], 0.3, -0.1]],
    "zip": lambda i: [["load", i, None, 0.2, 0.05, [3.0, -0.6], 0.1, 0.05]],
    "gen": lambda i: [["gen", i, 0.4, 1.02]],
    "pv": lambda i: [["gen", i, 0.3, 0.99], ["load", i, None, 0.5, 0.2, [0, 0], 0, 0]],
    "sh": lambda i: [["shunt", i, 3.0, 18.0], ["load", i, None, 0.3, 0.1, [0, 0], 0, 0]],
    "huge": lambda i: [["load", i, None, 9.0, 4.0, [0, 0], 0, 0]],
}


def flat(x):
    out = []
    for e in x:
        if e and isinstance(e[0], list):
            out += e
        elif e:
            out.append(e)
    return out


def tx_buses(n, scatter=False):
    return [{"id": i, "V": 1.0 + (0.01 * (i % 3) if scatter else 0.0), "ang": 0.02 * (i % 3) if scatter else 0.0,
             "name": f"b{i}", "phase": "NA"} for i in range(1, n + 1)]


def tx_spec(n, branches, devs, slack_v=1.03, slack_a=0.0, scatter=False):
    """branches: [(type, i, j)], devs: {bus: type}"""
    els = [["slack", 1, slack_v, slack_a]]
    for t, i, j in branches:
        els += flat([TX_BRANCH[t](i, j)])
    for i in sorted(devs):
        els += TX_DEV[devs[i]](i)
    return {"kind": "tx", "buses": tx_buses(n, scatter), "els": els}


def tx_family(tier):
    br = ["line", "cline", "tap", "shift", "rev", "par"]
    dv = ["none", "pq", "z", "i", "zip", "gen", "pv", "sh", "pqneg", "huge"]
    for b, d in itertools.product(br, dv):
        yield tx_spec(2, [(b, 1, 2)], {2: d})
    br3 = br if tier == "thorough" else ["line", "tap", "shift", "par"]
    dv3 = dv if tier == "thorough" else ["none", "pq", "zip", "pv", "sh", "huge"]
    for b1, b2, d1, d2 in itertools.product(br3, br3, dv3, dv3):
        yield tx_spec(3, [(b1, 1, 2), (b2, 2, 3)], {2: d1, 3: d2}, 1.0, 0.3)
    for b1, b2, b3, d1, d2 in itertools.product(["line", "shift"], ["cline", "tap"], ["line", "rev"],
                                                ["none", "pq", "pv"], ["pq", "gen", "zip"]):
        yield tx_spec(3, [(b1, 1, 2), (b2, 2, 3), (b3, 1, 3)], {2: d1, 3: d2}, 1.0, 0.0, True)


# ---------------------------------------------------------------- three phase

ZL = [[(0.30, 0.85), (0.09, 0.31), (0.08, 0.27)], [(0.09, 0.31), (0.29, 0.88), (0.07, 0.29)],
      [(0.08, 0.27), (0.07, 0.29), (0.31, 0.83)]]
YC = [[(0.0, 6e-5), (0.0, -1.5e-5), (0.0, -0.8e-5)], [(0.0, -1.5e-5), (0.0, 6.4e-5), (0.0, -0.9e-5)],
      [(0.0, -0.8e-5), (0.0, -0.9e-5), (0.0, 5.8e-5)]]


class DxBuilder:
    def __init__(self, vnom=2400.0):
        self.buses, self.els, self.n = [], [], 0
        self.stage = 0
        self.vnom = vnom
        self.cur = self.node("s")
        for p in PH:
            self.els.append(["slack", self.cur[p], vnom, ANG[p]])

    def bus(self, name, ph, v=None, virt=False):
        self.n += 1
        self.buses.append({"id": self.n, "V": (0.1 if virt else (self.vnom if v is None else v)),
                           "ang": 0.1 if virt else ANG.get(ph, 0.0), "name": name, "phase": ph, "virt": virt, "type": 1})
        return self.n

    def node(self, name, v=None):
        return {p: self.bus(name, p, v) for p in PH}

    def add(self, kind):
        self.stage += 1
        f = self.cur
        if kind in ("yy", "dy", "yd"):
            vn = self.vnom / 10 if self.vnom > 1000 else self.vnom
            ratio = self.vnom / vn
            self.vnom = vn
        t = self.node(f"n{self.stage}")
        nxt = {"A": "B", "B": "C", "C": "A"}
        if kind in ("uline", "ucap"):
            self.els.append(["uline", [f[p] for p in PH], [t[p] for p in PH],
                             [[list(c) for c in r] for r in ZL], [[list(c) for c in r] for r in YC] if kind == "ucap" else None, 0.7])
        elif kind == "sw":
            for p in PH:
                self.els.append(["switch", f[p], t[p], "CLOSED"])
        elif kind == "fuse":
            for p in PH:
                self.els.append(["fuse", f[p], t[p], self.bus(f"n{self.stage}-Fuse", p, virt=True), 1e6])
        elif kind == "reg":
            for p, tap in zip(PH, (6, -3, 0)):
                self.els.append(["reg", f[p], t[p], self.bus(f"n{self.stage}-Reg", p, virt=True), tap, 0.00625, "B", 16, 16])
        elif kind == "yy":
            for p in PH:
                self.els.append(["xfmr", f[p], None, t[p], None, 0.02 * self.vnom / 240, 0.06 * self.vnom / 240, ratio, 0.0])
        elif kind == "dy":
            for p in PH:
                self.els.append(["xfmr", f[p], f[nxt[p]], t[p], None, 0.02 * self.vnom / 240, 0.06 * self.vnom / 240, ratio * math.sqrt(3), 0.0])
        elif kind == "yd":
            for p in PH:
                self.els.append(["xfmr", f[p], None, t[p], t[nxt[p]], 0.02 * self.vnom / 240, 0.06 * self.vnom / 240, ratio / math.sqrt(3), 0.0])
        self.cur = t
        return self

    def load(self, kind, b=None):
        b = b or self.cur
        s = (self.vnom / 2400.0) ** 2 * 30
        sc = 1000.0 * s if self.vnom > 1000 else 3000.0 * s
        z = 200.0 if self.vnom > 1000 else 12.0
        if kind == "wye":
            for p, k in zip(PH, (1.0, 0.7, 1.2)):
                self.els.append(["load", b[p], None, 2 * sc * k, 0.7 * sc * k, [0, 0], 0, 0])
        elif kind == "delta":
            for p, q, k in (("A", "B", 1.0), ("B", "C", 0.6), ("C", "A", 1.3)):
                self.els.append(["load", b[p], b[q], 2 * sc * k, 0.5 * sc * k, [0, 0], 0, 0])
            for p in PH:
                self.els.append(["load", b[p], None, 0, 0, [z * 4, 0.0], 0, 0])
        elif kind == "z":
            for p, k in zip(PH, (1.0, 1.4, 0.8)):
                self.els.append(["load", b[p], None, 0, 0, [z * k, 0.3 * z * k], 0, 0])
        elif kind == "i":
            for p in PH:
                a = ANG[p] - 0.3
                self.els.append(["load", b[p], None, 0, 0, [0, 0], 12 * math.cos(a), 12 * math.sin(a)])
        elif kind == "one":
            self.els.append(["load", b["B"], None, sc, 0.2 * sc, [z, 0.1 * z], 0, 0])
        elif kind == "cap":
            for p in PH:
                self.els.append(["cap", b[p], sc, self.vnom, "CLOSED"])
                self.els.append(["load", b[p], None, sc, 0.6 * sc, [0, 0], 0, 0])
        elif kind == "huge":
            for p in PH:
                self.els.append(["load", b[p], None, 4000 * sc, 900 * sc, [0, 0], 0, 0])
        return self

    def ct(self, ph, kind):
        """centre tap transformer with triplex loads on legs 1, 2 and across"""
        self.stage += 1
        nm = f"n{self.stage}"
        f = self.cur[ph]
        a = ANG[ph]
        b1 = self.bus(nm, "1", 120.0)
        b2 = self.bus(nm, "2", 120.0)
        self.buses[-2]["ang"], self.buses[-1]["ang"] = a, a + math.pi
        pr = self.bus(nm + "_primary", ph, virt=True)
        s1 = self.bus(nm + "_sending_1", ph, virt=True)
        s2 = self.bus(nm + "_sending_2", ph, virt=True)
        self.els.append(["ct", f, pr, s1, s2, b1, b2, [0.006, 0.0136], [0.012, 0.0204], [0.012, 0.0204],
                         self.vnom, 120.0, 25000.0, self.vnom / 120.0])
        if kind in ("12", "all"):
            self.els.append(["load", b1, b2, 3000.0, 900.0, [0, 0], 0, 0])
        if kind in ("1", "all"):
            self.els.append(["load", b1, None, 1500.0, 300.0, [0, 0], 0, 0])
        if kind in ("2", "all"):
            self.els.append(["load", b2, None, 0, 0, [9.0, 2.0], 0, 0])
        return self

    def spec(self):
        return {"kind": "dx", "buses": self.buses, "els": self.els}


def dx_family(tier):
    st = ["uline", "ucap", "sw", "fuse", "reg", "yy", "dy", "yd"]
    ld = ["wye", "delta", "z", "i", "one", "cap", "huge"]
    for n in (1, 2, 3) if tier == "thorough" else (1, 2):
        for ch in itertools.product(st, repeat=n):
            if ch.count("yd") and not ch[-1] == "yd":
                continue        # a delta side without earth connection floats
            for l in ld if (n < 3 or tier == "thorough") else ["wye"]:
                if "yd" in ch and l == "delta":
                    continue
                b = DxBuilder()
                for k in ch:
                    b.add(k)
                b.load(l)
                yield b.spec()
    for n in (1, 2):
        for ch in itertools.product(["uline", "sw", "fuse", "reg"], repeat=n):
            for ph in PH:
                for kind in ("12", "1", "2", "all"):
                    b = DxBuilder()
                    for k in ch:
                        b.add(k)
                    b.ct(ph, kind)
                    if kind == "all":
                        b.load("z")
                    yield b.spec()
    if tier == "quick":
        for ch in itertools.product(["uline", "reg", "dy", "sw"], repeat=3):
            b = DxBuilder()
            for k in ch:
                b.add(k)
            yield b.load("wye").spec()
