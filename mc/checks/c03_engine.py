"""C03: the symbolic engine turns ANY algebraic two-terminal model into its exact linear companion."""
import itertools
from itertools import count
import numpy as np
from mc.core import Out, attempt
from mc import asm

PROP = "C03"
BOUND = ("all sums/differences of <=2 (quick) or <=3 (thorough) terms from a 20-term alphabet (constants, homotopy-scaled, linear, "
         "bilinear, powers, quotients, roots, products of sums) used as real balance, imaginary balance and constraint, times "
         "{two real terminals, grounded terminal, separate to-side laws} times {power flow, optimisation}, at three states; oracle: "
         "an independent second-order jet evaluation of the same expression trees")
ASSUMPTIONS = ["expressions are algebraic (sums, products, quotients, powers) and smooth at the evaluated states"]
CHUNK = 4

# variables: 0 Vr_from 1 Vi_from 2 Vr_to 3 Vi_to 4 x ; constants: 0 a 1 b 2 tx
V = lambda i: ("v", i)
C = lambda i: ("c", i)
add = lambda *a: ("+",) + a
mul = lambda *a: ("*",) + a
div = lambda a, b: ("/", a, b)
pw = lambda a, n: ("^", a, n)
neg = lambda a: ("*", ("n", -1), a)
dr = add(V(0), neg(V(2)))
di = add(V(1), neg(V(3)))
m2 = add(pw(dr, 2), pw(di, 2))
TERMS = [
    C(0),
    V(0),
    mul(C(0), V(1)),
    mul(C(0), add(("n", 1), neg(C(2))), V(2)),
    mul(C(1), C(2)),
    mul(V(0), V(1)),
    pw(V(3), 2),
    mul(C(0), pw(C(1), 2), V(3)),
    div(V(0), C(1)),
    div(mul(C(0), dr), m2),
    div(add(mul(C(0), dr), mul(V(4), di)), m2),
    mul(add(C(0), V(0)), add(C(1), neg(V(3)))),
    V(4),
    mul(V(4), V(4), V(0)),
    div(("n", 1), add(("n", 2), V(1))),
    pw(m2, 0.5),
    mul(("n", 3), add(V(2), mul(C(1), V(0)))),
    pw(add(V(0), V(4)), 3),
    mul(C(2), C(0), dr, V(4)),
    ("n", 0.75),
]


def ev(t, val):
    k = t[0]
    if k == "n":
        return val(t)
    if k in "vc":
        return val(t)
    a = [ev(x, val) for x in t[1:] if isinstance(x, tuple)]
    if k == "+":
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if k == "*":
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if k == "/":
        return a[0] / a[1]
    if k == "^":
        return a[0] ** t[2]
    raise ValueError(k)


class Jet:
    """value, gradient, Hessian"""
    N = 16

    def __init__(self, v, g=None, h=None):
        self.v = v
        self.g = np.zeros(self.N) if g is None else g
        self.h = np.zeros((self.N, self.N)) if h is None else h

    @staticmethod
    def of(x):
        return x if isinstance(x, Jet) else Jet(float(x))

    def __add__(self, o):
        o = Jet.of(o)
        return Jet(self.v + o.v, self.g + o.g, self.h + o.h)

    def __mul__(self, o):
        o = Jet.of(o)
        return Jet(self.v * o.v, self.v * o.g + o.v * self.g,
                   self.v * o.h + o.v * self.h + np.outer(self.g, o.g) + np.outer(o.g, self.g))

    def __pow__(self, n):
        f, d, dd = self.v ** n, n * self.v ** (n - 1), n * (n - 1) * self.v ** (n - 2)
        return Jet(f, d * self.g, d * self.h + dd * np.outer(self.g, self.g))

    def __truediv__(self, o):
        return self * (Jet.of(o) ** -1)


def expr_of(terms):
    """[(sign, term index)] -> tree"""
    ts = [TERMS[i] if s > 0 else neg(TERMS[i]) for s, i in terms]
    return ts[0] if len(ts) == 1 else add(*ts)


def exprs(n):
    out = []
    for k in range(1, n + 1):
        for c in itertools.combinations(range(len(TERMS)), k):
            for s in ([(1,), (-1,)] if k == 1 else itertools.product((1, -1), repeat=k)):
                if k > 1 and s[0] < 0:
                    continue
                out.append([[a, b] for a, b in zip(s, c)])
    return out


MODES = ["two", "gnd", "sep"]


def cases(tier):
    es = exprs(3 if tier == "thorough" else 2)
    n = len(es)
    # rotate so that every expression is used in each of the three positions
    for i in range(0, n):
        if i % 3 and (tier == "thorough" or len(es[i]) > 1):
            continue                    # every expression appears exactly once in the remaining triples
        yield {"r": es[i], "i": es[(i + 1) % n], "e": es[(i + 2) % n], "mode": MODES[(i // 3 if len(es[i]) > 1 else i) % 3],
               "opt": False}
    es1 = exprs(1) + [e for e in exprs(2) if len(e) == 2 and e[0][1] in (1, 5, 9, 13) and e[0][0] > 0 and e[1][0] > 0]
    if tier != "thorough":
        es1 = exprs(1)[::2] + [e for e in es1 if len(e) == 2][::4]
    for i in range(len(es1)):
        yield {"r": es1[i], "i": es1[(i + 5) % len(es1)], "e": es1[(i + 9) % len(es1)], "mode": MODES[i % 3], "opt": True}


PTS = [[1.0, 0.3, 0.45, -0.2, 0.7], [0.62, -0.85, -0.31, 0.52, -1.2], [-0.9, 0.41, 0.77, 1.1, 0.35]]
TX = [0.0, 0.37]
LAM = [0.31, -0.52, 0.83, 0.27, -0.61]


def run_case(case):
    import sympy
    from logic.stamping.lagrangesegment import TwoTerminalModelDefinition, KCL_r, KCL_i, Eq, Objective
    from logic.stamping.lagrangestampdetails import build_two_terminal_stamp_details
    from logic.stamping.matrixstamper import MatrixStamper, build_stamps_from_stamper
    from logic.stamping.matrixbuilder import MatrixBuilder
    from models.components.bus import Bus, GROUND
    from models.wellknownvariables import Vr_from, Vi_from, Vr_to, Vi_to, tx_factor
    out = Out()
    a, b, x = sympy.symbols("a b x")
    vs = (Vr_from, Vi_from, Vr_to, Vi_to, x)
    cs = (a, b, tx_factor)
    sy = lambda t: sympy.Rational(t[1]) if t[0] == "n" else (vs[t[1]] if t[0] == "v" else cs[t[1]])
    er, ei, ee = expr_of(case["r"]), expr_of(case["i"]), expr_of(case["e"])
    opt = case["opt"]
    kr, ki = sympy.sympify(ev(er, sy)), sympy.sympify(ev(ei, sy))
    ke = sympy.sympify(ev(ee, sy))
    kw = {}
    sep = case["mode"] == "sep"
    if sep:      # the receiving side has its own law
        kw = {"kcl_r_to": KCL_r(ki), "kcl_i_to": KCL_i(kr)}
    obj = None
    if opt:
        obj = add(pw(V(4), 2), mul(C(0), V(0), V(4)))
        kw["objective"] = Objective(sympy.sympify(ev(obj, sy)))
    key = f"{case['mode']}:{'opt' if opt else 'pf'}"

    def build():
        model = TwoTerminalModelDefinition(vs, cs, KCL_r(kr), KCL_i(ki), equalities=[Eq(ke)], **kw)
        node = count(0)
        bf, bt = Bus(1, 1, 1.0, 0.0, None, "f", "A"), Bus(2, 1, 1.0, 0.0, None, "t", "A")
        bf.assign_nodes(node, opt)
        bt.assign_nodes(node, opt)
        to = GROUND if case["mode"] == "gnd" else bt
        st = build_two_terminal_stamp_details(model, bf, to, node, opt)
        xi = st.get_var_col_index(x)
        li = st.get_lambda_index(4) if opt else None
        n = next(node)
        coll = build_stamps_from_stamper(None, st, [1.3, 0.8, 0])
        return bf, bt, to, xi, li, n, MatrixStamper(coll, opt)

    r = attempt(build)
    if r[0] == "err":
        out.bad(key + ":build", f"expressions {case}: {r[1]}")
        return out
    bf, bt, to, xi, li, n, stamper = r[1]
    gnd = to is GROUND
    # reference unknown ordering: primals then multipliers
    cols = [bf.node_Vr, bf.node_Vi, None if gnd else bt.node_Vr, None if gnd else bt.node_Vi, xi]
    lcols = [bf.node_lambda_Vr, bf.node_lambda_Vi, None if gnd else bt.node_lambda_Vr, None if gnd else bt.node_lambda_Vi, li] if opt else None

    def reference(pt, tx):
        nv = 10 if opt else 5
        vals = [p if c is not None else 0.0 for p, c in zip(pt, cols)]

        def jv(t):
            if t[0] == "n":
                return Jet(float(t[1]))
            if t[0] == "c":
                return Jet([1.3, 0.8, tx][t[1]])
            g = np.zeros(Jet.N)
            g[t[1]] = 1.0
            return Jet(vals[t[1]], g)
        R, I, E = ev(er, jv), ev(ei, jv), ev(ee, jv)
        cons = [R, I, (I if sep else R) * -1.0, (R if sep else I) * -1.0, E]
        F = np.zeros(n)
        Jm = np.zeros((n, n))
        if not opt:
            for con, row in zip(cons, cols):
                if row is None:
                    continue
                F[row] += con.v
                for k in range(5):
                    if cols[k] is not None:
                        Jm[row, cols[k]] += con.g[k]
            v = np.zeros(n)
            for p, c in zip(pt, cols):
                if c is not None:
                    v[c] = p
            return F, Jm, v
        L = Jet.of(0.0) + ev(obj, jv)
        for k, con in enumerate(cons):
            g = np.zeros(Jet.N)
            g[5 + k] = 1.0
            lam = Jet(LAM[k] if lcols[k] is not None else 0.0, g)
            L = L + lam * con
        allc = cols + lcols
        v = np.zeros(n)
        for p, c in zip(list(pt) + LAM, allc):
            if c is not None:
                v[c] = p
        for k in range(10):
            if allc[k] is None:
                continue
            F[allc[k]] += L.g[k]
            for m in range(10):
                if allc[m] is not None:
                    Jm[allc[k], allc[m]] += L.h[k, m]
        return F, Jm, v

    for tx in TX:
        Y = MatrixBuilder(asm.settings())
        Jl = np.zeros(n)
        stamper.stamp_linear(Y, Jl, tx)
        mark = Y.get_usage()
        for it, pt in enumerate(PTS):
            F, Jm, v = reference(pt, tx)
            J = Jl.copy()
            stamper.stamp_nonlinear(Y, J, v, it)
            A = asm.dense(Y, n)
            Y.clear(retain_idx=mark)
            res = np.asarray(stamper.calc_residuals(tx, v, it).residuals)
            out.step()
            out.state(case["r"], case["i"], case["e"], case["mode"], opt, tx, it)
            what = f"kcl_r={kr}, kcl_i={ki}, eq={ke}, state {pt}, tx {tx}"
            if not asm.close(A, Jm):
                out.bad(key + ":jacobian", f"{what}: matrix {A.tolist()} should be {Jm.tolist()}")
            if not asm.close(J, Jm @ v - F):
                out.bad(key + ":rhs", f"{what}: right-hand side {J.tolist()} should be {(Jm @ v - F).tolist()}")
            if not asm.close(res, F):
                out.bad(key + ":residual", f"{what}: residual {res.tolist()} should be {F.tolist()}")
    out.outcome = [len(case["r"]), len(case["i"]), len(case["e"]), case["mode"], opt]
    return out
