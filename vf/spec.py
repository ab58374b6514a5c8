"""Specification terms: boundary conditions, limiters, fluxes, Runge-Kutta tableaux."""
from . import terms as T


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.fmul(r, x)
    return r


def neg(x):
    return T.fmul(-1.0, x)


def bc_row(row, side, mode, xi):
    """ghost values of one primitive row after `mode` on `side`; row: list of S terms, xi: cell centres"""
    S = len(row)
    r = list(row)
    if side == "west":
        at = lambda k: k          # k-th cell counted from this edge
    else:
        at = lambda k: S - 1 - k
    p = lambda k: row[at(k)]
    a, b = p(2), p(3)
    refl = {1: neg(a), 0: neg(b)}
    flat = {1: a, 0: a}
    extra = {1: T.fsub(T.fmul(2.0, a), b), 0: T.fsub(T.fmul(3.0, a), T.fmul(2.0, b))}
    if mode == "Reflecting":
        v = refl
    elif mode == "NoGradients":
        v = flat
    elif mode == "NearZero":
        v = {k: T.fmul(1e-10, a) for k in (0, 1)}
    elif mode == "Extrapolate":
        v = extra
    elif mode in ("OutflowNoGradients", "OutFlowExtrapolate"):
        other = flat if mode == "OutflowNoGradients" else extra
        inflow = T.NOT(T.signneg(a)) if side == "west" else T.signneg(a)
        v = {k: T.ITE(inflow, refl[k], other[k]) for k in (0, 1)}
    else:  # the two Kepler modes: ~ r^(-1/2) continuation
        g1 = T.fdiv(a, T.funary("sqrt", T.fdiv(xi[at(1)], xi[at(2)])))
        g0 = T.fdiv(g1, T.funary("sqrt", T.fdiv(xi[at(0)], xi[at(1)])))
        v = {1: g1, 0: g0}
    for k in (0, 1):
        r[at(k)] = v[k]
    return r


def bc_apply(prim, side, modes, xi):
    """prim: rows; modes: list of (equation, mode) applied in order"""
    prim = [list(r) for r in prim]
    for j, m in modes:
        prim[j] = bc_row(prim[j], side, m, xi)
    return prim


def modes_of(b, E):
    """normalised list of (equation, mode) of a boundary configuration"""
    if not isinstance(b, (list, tuple)):
        return [(j, "NoGradients") for j in range(E)]
    return [(k, m) if isinstance(m, str) else m for k, m in enumerate(b)]
