"""Independent reference equations of every network component, written from circuit theory.

Real arithmetic on (real, imaginary) pairs so that the complex-step method gives exact
derivatives.  x: dict unknown-key -> (real, imag) ; F: dict row-key -> value.
Row keys: ("V", bus, 0/1) nodal current balance, ("V*", ...) auxiliary equations.
All currents are the ones LEAVING the node into the element.
"""
import numpy as np


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def neg(a):
    return (-a[0], -a[1])


Z2 = (0.0, 0.0)


class Sys:
    """rows of F, accumulated"""

    def __init__(self, spec, x, tx=0.0):
        self.spec, self.x, self.tx = spec, x, tx
        self.kcl = {b["id"]: [0.0, 0.0] for b in spec["buses"]}
        self.aux = {}
        for k, e in enumerate(spec["els"]):
            getattr(self, "el_" + e[0])(k, e)

    def V(self, i):
        return Z2 if i is None else self.x[("V", i)]

    def inj(self, i, I):
        if i is not None:
            self.kcl[i][0] = self.kcl[i][0] + I[0]
            self.kcl[i][1] = self.kcl[i][1] + I[1]

    # impedance-like branches: scaled up along the homotopy
    def series(self, i, j, g, b, vi=None, vj=None):
        s = 1 + 20 * self.tx
        I = cmul((g * s, b * s), sub(vi if vi is not None else self.V(i), vj if vj is not None else self.V(j)))
        return I

    def shunt_y(self, i, j, g, b):
        s = 1 - self.tx
        I = cmul((g * s, b * s), sub(self.V(i), self.V(j)))
        self.inj(i, I)
        self.inj(j, neg(I))

    def el_slack(self, k, e):
        I = self.x[("I", k)]
        self.inj(e[1], I)
        v = self.V(e[1])
        self.aux[("I", k)] = (v[0] - e[2] * np.cos(e[3]), v[1] - e[2] * np.sin(e[3]))

    def el_line(self, k, e):
        d = e[3] ** 2 + e[4] ** 2
        I = self.series(e[1], e[2], e[3] / d, -e[4] / d)
        self.inj(e[1], I)
        self.inj(e[2], neg(I))
        self.shunt_y(e[1], None, 0.0, e[5] / 2)
        self.shunt_y(e[2], None, 0.0, e[5] / 2)

    def el_load(self, k, e):
        i, j, P, Q, z, IP, IQ = e[1:8]
        v = sub(self.V(i), self.V(j))
        if P != 0 or Q != 0:
            m = v[0] * v[0] + v[1] * v[1]
            I = ((P * v[0] + Q * v[1]) / m, (P * v[1] - Q * v[0]) / m)   # conj(S / V)
            self.inj(i, I)
            self.inj(j, neg(I))
        self.inj(i, (IP, IQ))
        self.inj(j, (-IP, -IQ))
        if z[0] != 0 or z[1] != 0:
            d = z[0] ** 2 + z[1] ** 2
            self.shunt_y(i, j, z[0] / d, -z[1] / d)

    def el_iload(self, k, e):
        """constant current magnitude and power factor: S = (IP + j IQ) |V|"""
        v = self.V(e[1])
        m = (v[0] * v[0] + v[1] * v[1]) ** 0.5
        self.inj(e[1], ((e[2] * v[0] + e[3] * v[1]) / m, (e[2] * v[1] - e[3] * v[0]) / m))

    def el_gen(self, k, e):
        P = -e[2]
        Q = self.x[("Q", k)][0]
        v = self.V(e[1])
        m = v[0] * v[0] + v[1] * v[1]
        self.inj(e[1], ((P * v[0] + Q * v[1]) / m, (P * v[1] - Q * v[0]) / m))
        self.aux[("Q", k)] = (e[3] ** 2 - m,)

    def el_shunt(self, k, e):
        self.shunt_y(e[1], None, e[2] / 100.0, e[3] / 100.0)

    def _xf(self, k, fp, fn, tp, tn, r, x, tr, ang):
        t = tr + (1 - tr) * self.tx
        a = ang * (1 - self.tx)
        rot = (t * np.cos(a), t * np.sin(a))
        I = self.x[("I", k)]
        S = self.x[("S", k)]
        self.inj(fp, I)
        self.inj(fn, neg(I))
        vs = sub(S, self.V(tn))
        vp = sub(self.V(fp), self.V(fn))
        w = cmul(rot, vs)
        self.aux[("I", k)] = (vp[0] - w[0], vp[1] - w[1])
        isec = cmul((rot[0], -rot[1]), I)        # current delivered to the secondary
        d = r * r + x * x
        loss = self.series(None, None, r / d, -x / d, S, self.V(tp))
        self.aux[("S", k)] = (loss[0] - isec[0], loss[1] - isec[1])
        self.inj(tn, isec)
        self.inj(tp, neg(loss))

    def el_xfmr(self, k, e):
        self._xf(k, e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8] * np.pi / 180.0)

    def _short(self, key, i, j, vr=0.0, vi=0.0):
        I = self.x[key]
        self.inj(i, I)
        self.inj(j, neg(I))
        v = sub(self.V(i), self.V(j))
        self.aux[key] = (vr - v[0], vi - v[1])

    def el_vsrc(self, k, e):
        self._short(("I", k), e[1], e[2], e[3], e[4])

    def el_switch(self, k, e):
        if e[3] == "CLOSED":
            self._short(("I", k), e[1], e[2])

    def el_fuse(self, k, e):
        I = self.series(e[1], e[3], 1e4, 1e4)
        self.inj(e[1], I)
        self.inj(e[3], neg(I))
        self._short(("I", k), e[3], e[2])

    def el_cap(self, k, e):
        if e[4] == "CLOSED":
            self.shunt_y(e[1], None, 0.0, e[2] / (e[3] * e[3]))

    def el_reg(self, k, e):
        f, t, mid, tap, step, typ, up, lo = e[1:9]
        tap = min(tap, up)
        tap = max(tap, -lo)
        tr = 1.0 / (1.0 + step * tap) if typ == "A" else 1.0 - step * tap
        self._xf(k, f, None, mid, None, 1e-4, 0.0, tr, 0.0)
        self._short(("J", k), mid, t)

    def el_ct(self, k, e):
        fr, pr, s1, s2, t1, t2, z0, z1, z2, v0, v1, S, tr = e[1:14]

        def y(z, v):
            r, x = z[0] * v * v / S, z[1] * v * v / S
            d = r * r + x * x
            return (r / d, -x / d) if d else (0.0, 0.0)
        for (a, b, z, v) in ((fr, pr, z0, v0), (s1, t1, z1, v1), (s2, t2, z2, v1)):
            g = y(z, v)
            I = self.series(a, b, *g)
            self.inj(a, I)
            self.inj(b, neg(I))
        t = tr + (1 - tr) * self.tx
        I1, I2 = self.x[("I", k)], self.x[("J", k)]
        self.inj(pr, ((-I1[0] + I2[0]) / t, (-I1[1] + I2[1]) / t))
        self.inj(s1, I1)
        self.inj(s2, I2)
        vp = self.V(pr)
        a1, a2 = self.V(s1), self.V(s2)
        self.aux[("I", k)] = (a1[0] - vp[0] / t, a1[1] - vp[1] / t)
        self.aux[("J", k)] = (a2[0] + vp[0] / t, a2[1] + vp[1] / t)

    def el_uline(self, k, e):
        Z = np.array([[complex(*c) for c in row] for row in e[3]]) * e[5]
        Y = np.linalg.inv(Z)
        n = len(e[1])
        for a in range(n):
            for b in range(n):
                s = 1 + 20 * self.tx if a == b else 1 - self.tx
                v = sub(self.V(e[1][b]), self.V(e[2][b]))
                I = cmul((Y[a, b].real * s, Y[a, b].imag * s), v)
                self.inj(e[1][a], I)
                self.inj(e[2][a], neg(I))
                if e[4] is not None:
                    B = e[4][a][b][1] * e[5] / 2 * (1 - self.tx)
                    for (bi, vb) in ((e[1][a], self.V(e[1][b])), (e[2][a], self.V(e[2][b]))):
                        self.inj(bi, cmul((0.0, B), vb))

    def rows(self):
        """row-key -> value, keyed like the unknown the row replaces"""
        F = {}
        for i, v in self.kcl.items():
            F[("V", i, 0)], F[("V", i, 1)] = v[0], v[1]
        for key, v in self.aux.items():
            for c, val in enumerate(v):
                F[key + (c,)] = val
        return F


def unknowns(spec):
    """ordered keys (key..., component)"""
    ks = []
    for b in spec["buses"]:
        ks += [("V", b["id"], 0), ("V", b["id"], 1)]
    for k, e in enumerate(spec["els"]):
        t = e[0]
        if t in ("slack", "vsrc", "fuse") or (t == "switch" and e[3] == "CLOSED"):
            ks += [("I", k, 0), ("I", k, 1)]
        elif t == "gen":
            ks += [("Q", k, 0)]
        elif t == "xfmr":
            ks += [("I", k, 0), ("I", k, 1), ("S", k, 0), ("S", k, 1)]
        elif t == "reg":
            ks += [("I", k, 0), ("I", k, 1), ("S", k, 0), ("S", k, 1), ("J", k, 0), ("J", k, 1)]
        elif t == "ct":
            ks += [("I", k, 0), ("I", k, 1), ("J", k, 0), ("J", k, 1)]
    return ks


def evalF(spec, xvals, tx=0.0):
    ks = unknowns(spec)
    x = {}
    for key, val in zip(ks, xvals):
        x.setdefault(key[:-1], [0.0, 0.0])[key[-1]] = val
    F = Sys(spec, x, tx).rows()
    dt = complex if np.iscomplexobj(xvals) else float
    return np.array([F[k] for k in ks], dtype=dt)


def jacF(spec, xvals, tx=0.0):
    n = len(xvals)
    J = np.zeros((n, n))
    h = 1e-40
    for c in range(n):
        z = np.array(xvals, dtype=complex)
        z[c] += 1j * h
        J[:, c] = evalF(spec, z, tx).imag / h
    return J
