"""Assemble the implementation's linear system / residual at a given point."""
import numpy as np
from mc.net import build, aux_layout
from mc.ref import physics


def settings(**k):
    from logic.powerflowsettings import PowerFlowSettings
    return PowerFlowSettings(**k)


def layout_vec(spec, lay):
    """index of every reference unknown in the implementation vector"""
    idx = []
    for key in physics.unknowns(spec):
        idx.append(lay[key[:-1]][key[-1]])
    return idx


def dense(Y, n):
    A = np.zeros((n, n))
    if Y.get_usage() == 0:
        return A
    m = Y.to_matrix().tocoo()
    for r, c, v in zip(m.row, m.col, m.data):
        A[r, c] += v
    return A


def stamp_system(net, stamper, v, tx, it=0, Y=None):
    from logic.stamping.matrixbuilder import MatrixBuilder
    n = net.size_Y
    Y = MatrixBuilder(settings()) if Y is None else Y
    J = np.zeros(n)
    stamper.stamp_linear(Y, J, tx)
    stamper.stamp_nonlinear(Y, J, v, it)
    return dense(Y, n), J


def setup(spec, opt=None, order=None):
    from logic.stamping.matrixstamper import build_matrix_stamper
    net, B, objs = build(spec, els_order=order, opt=opt)
    net.assign_matrix()
    st = build_matrix_stamper(net)
    lay = aux_layout(net, B, spec, objs)
    return net, B, objs, st, lay


def point(spec, pat):
    """Operating point: one complex value per bus from the pattern, generic auxiliary values."""
    VALS = [complex(1.0, 0.1), complex(0.83, -0.37), complex(-0.45, 0.71), complex(0.2, -1.13)]
    xs = []
    nb = len(spec["buses"])
    ks = physics.unknowns(spec)
    order = {b["id"]: i for i, b in enumerate(spec["buses"])}
    for n, key in enumerate(ks):
        if key[0] == "V":
            z = VALS[pat[order[key[1]]]] * (1 + 0.13 * order[key[1]])
            xs.append(z.real if key[2] == 0 else z.imag)
        else:
            xs.append(0.31 * ((-1) ** n) + 0.057 * n + 0.11 * pat[0])
    return np.array(xs)


def close(a, b, rt=1e-8, at=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    s = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= rt * s * 1e-3 + rt * np.abs(b) + at))
