"""Specification: the Euler equations of the two supported systems, as terms."""
from . import terms as T


class Euler:
    def __init__(self, ad, gamma):
        self.ad, self.g = ad, gamma
        self.E = 3 if ad else 2

    def cons(self, p):
        r = [p[0], T.fmul(p[0], p[1])]
        if self.ad:
            r.append(T.fadd(T.fdiv(p[2], T.fsub(self.g, 1.0)), T.fmul(0.5, T.fmul(p[0], T.fmul(p[1], p[1])))))
        return r

    def prim(self, c):
        r = [c[0], T.fdiv(c[1], c[0])]
        if self.ad:
            r.append(T.fmul(T.fsub(self.g, 1.0), T.fsub(c[2], T.fdiv(T.fmul(0.5, T.fmul(c[1], c[1])), c[0]))))
        return r

    def csound(self, p, c_given):
        return T.funary("sqrt", T.fdiv(T.fmul(self.g, p[2]), p[0])) if self.ad else c_given

    def eig(self, p, c):
        r = [T.fsub(p[1], c)] + [p[1]] * (self.E - 2) + [T.fadd(p[1], c)]
        return r

    def flux(self, p, c_s):
        m = T.fmul(p[0], p[1])
        if self.ad:
            e = self.cons(p)[2]
            return [m, T.fadd(T.fmul(m, p[1]), p[2]), T.fmul(p[1], T.fadd(e, p[2]))]
        return [m, T.fadd(T.fmul(m, p[1]), T.fmul(p[0], T.fmul(c_s, c_s)))]


def col(a, i):
    return [row[i] for row in a]
