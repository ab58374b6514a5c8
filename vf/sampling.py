"""Samplers for random interpretation: physically meaningful regimes, ties and extremes."""
import re
import numpy as np
from . import terms as T
from .terms import LD, _rng, Interp

RX = re.compile(r"^(.*)\.(prim|cons|c_sound|eigen_vals|flux)\[(\d+)(?:,(\d+))?\]$")


def many(r, K):
    """how often something has happened before: a few times, round numbers, and any number of digits"""
    k = r.integers(0, 4, K)
    few = r.integers(1, 12, K)
    rnd = (10 ** r.integers(1, 6, K)) * r.integers(1, 12, K) + r.integers(-1, 2, K)
    pot = 2 ** r.integers(0, 17, K) + r.integers(-1, 2, K)
    log = np.exp(r.uniform(0, np.log(1e7), K)).astype(int)
    v = np.choose(k, [few, rnd, pot, log])
    return np.array([max(1, int(x)) for x in v], dtype=object)


class Phys:
    """mode: 'smooth' generic values, 'grid' small-integer values with many ties"""

    def __init__(self, adiabatic, mode="smooth", vscale=1.0, extra=None):
        self.ad, self.mode, self.vs, self.extra = adiabatic, mode, vscale, extra

    def __call__(self, name, sort, it):
        if self.extra:
            v = self.extra(name, sort, it)
            if v is not None:
                return v
        if sort == "b" and name.startswith("fail"):
            return _rng("fail", it.seed, name).random(it.K) < 0.03
        if sort == "i" and name == "later":
            return many(_rng("many", it.seed, name), it.K)
        if sort != "f":
            return None
        r = _rng("phys", it.seed, self.mode, name)
        K = it.K
        pos = (lambda a, b: r.uniform(a, b, K)) if self.mode == "smooth" else (lambda a, b: r.integers(1, 4, K) / 2.0 + a)
        sgn = (lambda s: r.normal(0, s, K)) if self.mode == "smooth" else (lambda s: r.integers(-2, 3, K) * s)
        m = RX.match(name)
        v = None
        if m:
            base, f, j, i = m.group(1), m.group(2), int(m.group(3)), m.group(4)
            if f == "c_sound":
                v = pos(0.3, 1.5)
            elif f in ("prim", "cons") and j == 0:
                v = pos(0.4, 2.5)
            elif f == "prim" and j == 2:
                v = pos(0.3, 2.0)
            elif f == "cons" and j == 2:
                rho = it(T.fsym("%s.cons[0,%s]" % (base, i)))
                mom = it(T.fsym("%s.cons[1,%s]" % (base, i)))
                v = LD(0.5) * mom * mom / rho + pos(0.4, 3.0)
            elif f in ("prim", "cons"):
                v = sgn(self.vs)
            else:
                v = sgn(1.5)
        elif name.endswith("adiabatic_index"):
            v = r.uniform(1.1, 1.9, K)
        elif name.endswith("xi_in"):
            v = r.uniform(-2, 2, K)
        elif name.endswith("xi_out"):
            base = it(T.fsym(name[:-3] + "in"))
            v = base + r.uniform(0.3, 4.0, K)
        elif re.search(r"dt_min$", name):
            v = np.abs(r.normal(0, 1e-3, K)) + 1e-6
        elif re.search(r"(dt_max|dt_cfl_param|tolerance|friction|t_end)$", name):
            v = r.uniform(0.05, 2.0, K)
        elif name.endswith("limiter_mode.0"):
            v = r.uniform(1.01, 2.5, K)
        else:
            return None
        return np.asarray(v, dtype=LD)


def phys_interps(ad, seed=1, K=48, extra=None, fixed=None, modes=(("smooth", 0.6), ("smooth", 3.0), ("grid", 1.0))):
    return [Interp(Phys(ad, m, s, extra), K, seed + 10 * n, fixed) for n, (m, s) in enumerate(modes)]
