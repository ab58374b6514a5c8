"""C10 Runge-Kutta step, C11 tableaux, C12 time step, C26 adaptive step control."""
from fractions import Fraction as Q
import copy
import numpy as np
from .. import terms as T
from .. import trace
from ..check import Check
from ..euler import Euler, col
from ..sampling import phys_interps
from ..setup import Sim, SYS, RKS
from ..spec import bc_apply, modes_of
from ..values import *
from .phys import FLUX, gamma, consistent, closure, snapshot, flat, tr

# boundary conditions under which validated states exist
BCS = {"i": [("NoGradients", "NoGradients"), (["NoGradients", "Reflecting"], ["NoGradients", "OutflowNoGradients"]),
             ([(1, "Reflecting")], [(0, "NoGradients")])],
       "a": [("NoGradients", "NoGradients"), (["NoGradients", "Reflecting", "NearZero"], ["NoGradients", "OutflowNoGradients", "Extrapolate"]),
             ([(2, "NoGradients")], [(1, "Reflecting")])]}

add, sub, mul, div = T.fadd, T.fsub, T.fmul, T.fdiv

# published tableaux: (a, b_high, b_low, has an embedded pair, order, embedded order)
f = lambda *x: [float(Q(y)) if isinstance(y, str) else float(y) for y in x]
TAB = {
    "RK1": ([f(0)], f(1), None, 1, None),
    "RK2": ([f(0, 0), f("1/2", 0)], f(0, 1), None, 2, None),
    "RK3": ([f(0, 0, 0), f("1/2", 0, 0), f(-1, 2, 0)], f("1/6", "2/3", "1/6"), f(0, 1, 0), 3, 2),
    "RK4": ([f(0, 0, 0, 0), f("1/2", 0, 0, 0), f(0, "1/2", 0, 0), f(0, 0, 1, 0)], f("1/6", "1/3", "1/3", "1/6"), None, 4, None),
    "Heun2": ([f(0, 0), f(1, 0)], f("1/2", "1/2"), f(1, 0), 2, 1),
    "RKF12": ([f(0, 0, 0), f("1/2", 0, 0), f("1/256", "255/256", 0)], f("1/512", "255/256", "1/512"), f("1/256", "255/256", 0), 2, 1),
    "RKF45": ([f(0, 0, 0, 0, 0, 0), f("1/4", 0, 0, 0, 0, 0), f("3/32", "9/32", 0, 0, 0, 0),
               f("1932/2197", "-7200/2197", "7296/2197", 0, 0, 0), f("439/216", -8, "3680/513", "-845/4104", 0, 0),
               f("-8/27", 2, "-3544/2565", "1859/4104", "-11/40", 0)],
              f("16/135", 0, "6656/12825", "28561/56430", "-9/50", "2/55"), f("25/216", 0, "1408/2565", "2197/4104", "-1/5", 0), 5, 4),
    "SSPRK3": ([f(0, 0, 0), f(1, 0, 0), f("1/4", "1/4", 0)], f("1/6", "1/6", "2/3"), f("1/2", "1/2", 0), 3, 2),
    "SSPRK5": ([f(0, 0, 0, 0, 0), f(0.36717, 0, 0, 0, 0), f(0.26802, 0.31720, 0, 0, 0), f(0.11606, 0.13735, 0.18816, 0, 0),
                f(0.11212, 0.13269, 0.18178, 0.41980, 0)], f(0.17279, 0.094505, 0.12947, 0.29899, 0.30424),
               f(0.12293, 0.31981, -0.15316, 0.31887, 0.39155), 3, 2),
}


class Step:
    """one analysed call of Solver::next_solution with an abstract flux scheme"""

    def __init__(self, chk, system, rk, S=8, asc=None, west="NoGradients", east="NoGradients", symbolic=False, stale=True, prior=False, jump=None):
        over = {} if asc is None else {"asc": ("value", asc)}
        self.calls = []
        self.symbolic = symbolic
        self.jump, self.jumped = jump, 0
        s = self.s = Sim(chk.F, system, "h", S, rk=rk, west=west, east=east, over=over, hooks={FLUX: self.hook})
        chk.watch(s.w)
        self.bc = (west, east)
        s.mesh(), s.state("u"), s.solver()
        if stale:
            s.w.symbolize(s.so, "solver", keep=lambda p: "bt" in p)
        self.eu = Euler(SYS[system]["ad"], gamma(s))
        self.xi = s.w.arr(s.m, s.mt, "xi_cent")
        self.pre = True
        self.clk = "time"
        if prior:
            # an unrelated earlier step, so that nothing the solver remembers has its initial value
            s.w.symbolize(s.u, "p")
            consistent(s, self.eu, west, east)
            self.before = snapshot(s, "cent")
            s.w.E.unroll = prior if prior is not True else s.w.E.unroll
            self.clock("prior")
            r = []
            s.w.rehearse(s.so, lambda: r.append(s.w.call(s.mod + "::solver_next", [s.so, s.u, s.m])))
            e, _ = s.w.ok(r[0])
            self.pre = T.NOT(T.OR(e, T.OR(trace.cut(s.w.st.trace), trace.panic(s.w.st.trace))))
            s.w.symbolize(s.u, "u")
            if stale:
                s.w.symbolize(s.so, "solver", keep=lambda p: "bt" in p)
        consistent(s, self.eu, west, east)
        self.u0 = snapshot(s, "cent")
        self.clock("time")

    def clock(self, pre):
        s = self.s
        for n in ("t", "t_next_output"):
            s.w.put(s.so, s.sot, "timestep." + n, T.fsym(pre + "." + n))
        if pre == "prior" or self.pre is True:
            # the width of the step before
            s.w.put(s.so, s.sot, "timestep.dt", T.fsym("prior.dt"))
        s.w.put(s.so, s.sot, "timestep.iter", T.isym(pre + ".iter"))

    def hook(self, E, st, args, fty, dty):
        s = self.s
        n = E.event(st, "rhs")
        if self.jump and n in (0, self.jump):
            # a later attempt: whatever has been counted since the first one may have any value
            now = s.w.counters(st)
            if n == 0:
                self.first = now
            else:
                for k, (p, v) in now.items():
                    if k in self.first and v - self.first[k][1] in (1, 2, 3, 4):
                        E.store(st, p, T.isym("later"))
                        self.jumped += 1
        u = args[2]
        prim = s.w.arr(u, s.ut, "cent.prim", st)
        cons = s.w.arr(u, s.ut, "cent.cons", st)
        self.calls.append((n, cons, E.where()))
        from ..models import all_idx, setdata
        d = E.resolve(st, E.load(st, args[1]))
        v = (lambda j, i: T.fsym("k%d[%d,%d]" % (n, j, i))) if self.symbolic else rhs_uf(prim, s.w.arr(u, s.ut, "cent.c_sound", st))
        setdata(st, d, [v(*ix) if 2 <= ix[1] < s.S - 2 else 0.0 for ix in all_idx(d.shape)])
        return Agg(dty, 0, (UNIT,))

    def next(self):
        s = self.s
        s.w.st.trace = []
        r = s.w.call(s.mod + "::solver_next", [s.so, s.u, s.m])
        if s.w.st.dead:
            raise Undecided("step never completes: %s" % s.w.st.dead)
        self.err = s.w.ok(r)[0]
        self.cut = T.OR(trace.cut(s.w.st.trace), trace.panic(s.w.st.trace))
        self.good = T.AND(self.pre, T.AND(T.NOT(self.err), T.NOT(self.cut)))
        self.now = snapshot(s, "cent")
        self.dt = s.w.get(s.so, s.sot, "timestep.dt")
        self.t = s.w.get(s.so, s.sot, "timestep.t")
        self.iter = s.w.get(s.so, s.sot, "timestep.iter")
        return self

    # ---- specification
    def rhs_spec(self, cons):
        """k(u): boundary conditions and derived quantities applied to conservative interior values"""
        s = self.s
        prim = tr([self.eu.prim(col(cons, i)) for i in range(s.S)])
        prim = bc_apply(prim, "west", modes_of(self.bc[0], s.Eq), self.xi)
        prim = bc_apply(prim, "east", modes_of(self.bc[1], s.Eq), self.xi)
        cs = [self.eu.csound(col(prim, i), self.u0["c_sound"][i]) for i in range(s.S)]
        k = rhs_uf(prim, cs)
        return [[k(j, i) if 2 <= i < s.S - 2 else 0.0 for i in range(s.S)] for j in range(s.Eq)]

    def comb(self, dt, w, ks):
        u = self.u0["cons"]
        out = []
        for j in range(self.s.Eq):
            row = []
            for i in range(self.s.S):
                x = u[j][i]
                for c, k in zip(w, ks):
                    if c != 0.0:
                        x = sub(x, mul(mul(dt, c), k[j][i]))
                row.append(x)
            out.append(row)
        return out

    def stages(self, dt, tab):
        ks = []
        for q in range(len(tab[0])):
            ks.append(self.rhs_spec(self.comb(dt, tab[0][q][:q], ks)))
        return ks

    def cfl(self):
        return cfl_dt(self.s, self.u0["eigen_vals"], self.cfgnum("dt_cfl_param"))

    def cfgnum(self, n):
        return T.fsym("cfg.numerics_config." + n)

    def rkf(self, n):
        return T.fsym("cfg.numerics_config.time_integration_config.0." + n)

    def earlier(self):
        """the specification speaks of the earlier step"""
        x = copy.copy(self)
        x.u0, x.clk = self.before, "prior"
        return x

    def cap(self, dt):
        t = T.fsym(self.clk + ".t")
        for lim in (self.cfgnum("dt_max"), sub(T.fsym(self.clk + ".t_next_output"), t), sub(self.cfgnum("t_end"), t)):
            dt = T.fmin(dt, lim)
        return dt


def rhs_uf(prim, cs):
    key = tuple(flat(prim) + list(cs))
    return lambda j, i: T.uf("rhs", "%d,%d" % (j, i), key, "f")


def cfl_dt(s, ev, c):
    m = 0.0
    dxi = s.w.get(s.m, s.mt, "dxi")
    for i in range(s.S):
        for j in range(s.Eq):
            m = T.fmax(m, T.funary("abs", ev[j][i]))
    return div(c, div(m, dxi))


def clock(extra=None, spread=1.0, dtmin=None, asctol=(-3, 0.5)):
    """sampler of the time coordinates: t < t_next_output, t < t_end"""
    from ..terms import _rng, LD

    def f(name, sort, it):
        if extra:
            v = extra(name, sort, it)
            if v is not None:
                return v
        if sort == "i" and name in ("time.iter", "prior.iter"):
            r = _rng("it", it.seed, name)
            return np.where(r.random(it.K) < 0.8, r.integers(0, 5, it.K), (10.0 ** r.uniform(0, 7, it.K)).astype(int)).astype(object)
        if sort == "i" and name.endswith("iter_max"):
            r = _rng("im", it.seed)
            return np.where(r.random(it.K) < 0.6, r.integers(0, 40, it.K) + 1, (10.0 ** r.uniform(2, 9, it.K)).astype(int)).astype(object)
        if sort != "f":
            return None
        r = _rng("clk", it.seed, name)
        if name == "prior.t":
            return np.asarray(it(T.fsym("time.t")) * r.uniform(0, 1, it.K), dtype=LD)
        if name == "prior.t_next_output":
            return np.asarray(it(T.fsym("prior.t")) + spread * 10.0 ** r.uniform(-2.5, 1, it.K), dtype=LD)
        if name == "prior.dt":
            return np.asarray(10.0 ** r.uniform(-3, 0, it.K), dtype=LD)
        K = it.K
        if name == "time.t":
            v = r.uniform(0, 3, K)
        elif name == "time.t_next_output":
            v = it(T.fsym("time.t")) + spread * 10.0 ** r.uniform(-2.5, 1, K)
        elif name.endswith("numerics_config.t_end"):
            v = it(T.fsym("time.t")) + spread * 10.0 ** r.uniform(-2.5, 1, K)
        elif name.endswith("numerics_config.dt_max"):
            v = spread * 10.0 ** r.uniform(-2.5, 1, K)
        elif name.endswith("numerics_config.dt_min"):
            v = 10.0 ** (r.uniform(*dtmin, K) if dtmin else r.uniform(-6, -3, K))
        elif name.endswith("asc_relative_tolerance") or name.endswith("asc_absolute_tolerance"):
            v = 10.0 ** r.uniform(*asctol, K)
        elif name.endswith("asc_timestep_friction"):
            v = r.uniform(0.02, 0.6, K)
        else:
            return None
        return np.asarray(v, dtype=LD)
    return f


def sts(ad, seed, K=40, **kw):
    return phys_interps(ad, seed, K, extra=clock(**kw), modes=(("smooth", 0.5), ("smooth", 2.0)))


def c10():
    chk = Check("C10", "Value flow of one whole step for every selectable scheme with the flux scheme abstracted to an uninterpreted function "
                "of the state it receives: every conservative value after the step, the time and the iteration counter equal the explicit "
                "Runge-Kutta formula of the published tableau with the step width reported by the time step; all solver buffers are "
                "arbitrary beforehand (no dependence on history).")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        for rk in RKS:
            for S in (8, 11) if chk.thorough else (8,):
                variants = [(False, False)] + ([(True, False)] if TAB[rk][2] and (chk.thorough or rk in ("RKF12", "Heun2")) else [])
                variants += [(False, True)] if chk.thorough or rk in ("RK2", "SSPRK5") else []
                variants += [(True, True)] if rk == "Heun2" and S == 8 else []
                for asc, prior in variants:
                    b = BCS[sysk][RKS.index(rk) % 2]
                    nm = "%s%d %s asc=%s%s" % (sysk, S, rk, asc, " after another step" if prior else "")
                    with chk.group(nm):
                        x = Step(chk, sysk, rk, S, asc, *b, prior=prior)
                        x.next()
                        its = sts(ad, chk.seed, spread=0.05)
                        tab = TAB[rk]
                        ks = x.stages(x.dt, tab)
                        want = x.comb(x.dt, tab[1], ks)
                        for j in range(x.s.Eq):
                            for i in range(2, S - 2):
                                chk.same("%s cons[%d,%d]" % (nm, j, i), x.now["cons"][j][i], want[j][i], its, "next_solution", under=x.good, scale=1e-3)
                        # ghost cells are determined by the interior (C15); here: the time coordinate
                        chk.same("%s t" % nm, x.t, add(T.fsym("time.t"), x.dt), its, "next_solution", under=x.good)
                        chk.same("%s iter" % nm, x.iter, T.ibin("iadd", T.isym("time.iter"), 1), its, "next_solution", under=x.good)
                        chk.same("%s t on failure" % nm, x.t, T.fsym("time.t"), its + sts(ad, chk.seed, 192, spread=9.0, dtmin=(-2.0, 0.5)), "next_solution", under=T.AND(T.AND(x.pre, x.err), T.AND(T.NOT(x.cut), T.ibin("ilt", x.iter, T.isym("cfg.numerics_config.iter_max")))))
    return chk


# ------------------------------------------------------------------ C11
def orders(a, b):
    """largest p <= 5 such that (a, b) satisfies all order conditions up to p; residuals per order"""
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    e = np.ones(len(b))
    c = a @ e
    D = lambda v: v
    cond = {
        1: [(b @ e, 1)],
        2: [(b @ c, 1 / 2)],
        3: [(b @ c**2, 1 / 3), (b @ a @ c, 1 / 6)],
        4: [(b @ c**3, 1 / 4), ((b * c) @ a @ c, 1 / 8), (b @ a @ c**2, 1 / 12), (b @ a @ a @ c, 1 / 24)],
        5: [(b @ c**4, 1 / 5), ((b * c**2) @ a @ c, 1 / 10), (b @ (a @ c) ** 2, 1 / 20), ((b * c) @ a @ c**2, 1 / 15),
            (b @ a @ c**3, 1 / 20), ((b * c) @ a @ a @ c, 1 / 30), (b @ a @ (c * (a @ c)), 1 / 40), (b @ a @ a @ c**2, 1 / 60),
            (b @ a @ a @ a @ c, 1 / 120)],
    }
    return {p: max(abs(x - y) for x, y in v) for p, v in cond.items()}


def extract(x, S=8):
    """coefficients of the stage states and of the result in the (symbolic) stage derivatives"""
    j, i = 0, 3
    st = [c for c in x.calls]
    q = len(st)
    fixed = {}
    base = {}

    def ev(t, k):
        def samp(name, sort, it):
            if sort == "f" and name.startswith("k") and "[" in name and name[1:name.index("[")].isdigit():
                n = int(name[1:name.index("[")])
                return np.full(it.K, T.LD(1.0 if n == k and name.endswith("[%d,%d]" % (j, i)) else 0.0))
            return inner(name, sort, it)
        inner = phys_interps(x.eu.ad, 5, 8, extra=clock(spread=30.0))[0].sampler
        it = T.Interp(samp, 8, 5)
        return it(t), it(x.dt), it(x.good)
    rows = []
    for t in [c[1][j][i] for c in st] + [x.now["cons"][j][i]]:
        row = []
        z, dt, g = ev(t, -1)
        for k in range(q):
            v, dt, g = ev(t, k)
            w = (z - v) / dt
            w = w[g.astype(bool) & np.isfinite(w)]
            if len(w) < 2 or np.ptp(w) > 1e-12:
                raise Undecided("stage coefficient is not a constant")
            row.append(float(np.median(w)))
        rows.append(row)
    return rows[:-1], rows[-1]


def c11():
    chk = Check("C11", "The Butcher coefficients actually applied are read off the value flow of a step (coefficient of each stage derivative in "
                "each stage state and in the result) and checked against the order conditions of rooted trees up to order 5; embedded weights "
                "are read from the constructed tableau; step-size control is enabled exactly when requested and available.")
    for rk in RKS:
        tab = TAB[rk]
        tol = 3e-5 if rk == "SSPRK5" else 1e-13
        with chk.group(rk):
            x = Step(chk, "i", rk, 8, False, symbolic=True, stale=False).next()
            chk.flag("%s evaluates one right-hand side per stage" % rk, [c[0] for c in x.calls] == list(range(len(tab[0]))),
                     "right-hand side evaluated %d times, the scheme has %d stages" % (len(x.calls), len(tab[0])), "next_solution")
            a, b = extract(x)
            q = len(b)
            chk.flag("%s is explicit" % rk, all(abs(a[i][j]) == 0.0 for i in range(q) for j in range(i, q)), "stage %s uses a later derivative" % a, "ButcherTableau")
            r = orders(a, b)
            for p in range(1, tab[3] + 1):
                chk.flag("%s satisfies the order %d conditions" % (rk, p), r[p] <= tol, "residual %g; a=%s b=%s" % (r[p], a, b), "ButcherTableau::new", "order-conditions")
            bt = "time_solver.bt."
            s = x.s
            try:
                A, bh, bl = (s.w.arr(s.so, s.sot, bt + n) for n in ("a", "b_high", "b_low"))
            except Undecided:
                A = None
                chk.undecide("%s embedded weights" % rk, "no tableau fields named a, b_high, b_low")
            if A is not None:
                chk.flag("%s dimensions" % rk, len(A) == q and all(len(r_) == q for r_ in A) and len(bh) == q and len(bl) == q,
                         "a %dx%d, b_high %d, b_low %d for %d stages" % (len(A), len(A[0]), len(bh), len(bl), q), "ButcherTableau::new")
                if tab[2] is not None:
                    rl = orders([[float(v) for v in row] for row in A], [float(v) for v in bl])
                    for p in range(1, tab[4] + 1):
                        chk.flag("%s embedded weights satisfy the order %d conditions" % (rk, p), rl[p] <= tol, "residual %g; b_low=%s" % (rl[p], bl), "ButcherTableau::new", "order-conditions")
        with chk.group(rk + " step control"):
            x = Step(chk, "i", rk, 8, None, symbolic=True, stale=False)
            x.s.w.E.unroll = 1
            x.next()
            asc = T.bsym("cfg.numerics_config.time_integration_config.0.asc")
            n = len(tab[0])
            used = trace.cond(x.s.w.st.trace, lambda e: e[0] == "ev" and e[1] == "rhs" and e[2] == n)
            its = sts(False, chk.seed, 64)
            before_error = T.NOT(x.err)
            want = T.AND(asc, True) if tab[2] is not None else False
            used = T.OR(used, trace.cut(x.s.w.st.trace))
            chk.same("%s controls the step exactly if requested%s" % (rk, "" if tab[2] else " (never: no embedded pair)"), used, want, its,
                     "ButcherTableau::new", under=before_error)
    return chk


# ------------------------------------------------------------------ C12
def c12():
    chk = Check("C12", "Value flow of the step width from the characteristic speeds of all cells and families through calc_dt_cfl, calc_dt_expl, "
                "cap_dt and a whole step without step-size control; equal to min(CFL step, dt_max, time to next output, time to end); the "
                "error condition is exactly CFL step < dt_min or not finite, and on it state and time keep their values.")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        its = sts(ad, chk.seed, 64) + sts(ad, chk.seed + 3, 64, dtmin=(-2.5, 1.0)) + sts(ad, chk.seed + 5, 48, extra=degenerate)
        for S in (8, 11, 300):
            with chk.group("%s%d calc_dt_cfl" % (sysk, S)):
                s = Sim(chk.F, sysk, "h", S)
                chk.watch(s.w)
                s.mesh(), s.state("u")
                ev = s.w.arr(s.u, s.ut, "cent.eigen_vals")
                ev = free_eig(s, ev)
                c = T.fsym("c_cfl")
                e, v = s.w.ok(s.w.call(s.phys + "::calc_dt_cfl", [s.u, c, s.m]))
                want = cfl_dt(s, ev, c)
                chk.same("%s%d calc_dt_cfl" % (sysk, S), v, want, its, "State::calc_dt_cfl", under=T.NOT(e))
                chk.same("%s%d calc_dt_cfl fails exactly if not finite" % (sysk, S), e, T.NOT(T.isfinite(want)), its, "State::calc_dt_cfl")
            with chk.group("%s%d calc_dt_expl" % (sysk, S)):
                x = Step(chk, sysk, "RK1", S, False)
                s = x.s
                tp = s.w.at(s.so, s.sot, "timestep")[0]
                s.w.put(s.so, s.sot, "timestep.dt", T.fsym("prior.dt"))
                e, _ = s.w.ok(s.w.call(s.phys + "::calc_dt_expl", [tp, s.u, s.m]))
                want = x.cfl()
                bad = T.OR(T.NOT(T.isfinite(want)), T.flt(want, x.cfgnum("dt_min")))
                chk.same("%s%d calc_dt_expl" % (sysk, S), s.w.get(s.so, s.sot, "timestep.dt"), want, its, "TimeStep::calc_dt_expl", under=T.NOT(e))
                chk.same("%s%d calc_dt_expl fails exactly below dt_min or if not finite" % (sysk, S), e, bad, its, "TimeStep::calc_dt_expl")
            for rk, prior in [("RK1", False), ("RK2", False), ("SSPRK3", False), ("RKF45", False), ("RK2", True)] if S == 8 else ([("RK2", False)] if S < 99 else []):
                for bc in BCS[sysk][:2] if rk == "RK2" and not prior else BCS[sysk][:1]:
                    nm = "%s%d step %s %s%s" % (sysk, S, rk, bc, " after another step" if prior else "")
                    with chk.group(nm):
                        x = Step(chk, sysk, rk, S, False, *bc, prior=prior)
                        x.next()
                        cf = x.cfl()
                        bad = T.OR(T.NOT(T.isfinite(cf)), T.flt(cf, x.cfgnum("dt_min")))
                        chk.same(nm + ": dt", x.dt, x.cap(cf), its, "next_solution", under=T.AND(x.good, T.NOT(bad)))
                        chk.same(nm + ": a CFL step below dt_min is an error", T.OR(x.err, T.NOT(bad)), True, its, "next_solution", under=x.pre)
                        if prior:
                            continue
                        for a in ("prim", "cons"):
                            for j in range(s.Eq):
                                for i in range(S):
                                    chk.same("%s: %s[%d,%d] kept on a rejected step width" % (nm, a, j, i), x.now[a][j][i], x.u0[a][j][i], its, "next_solution", under=T.AND(x.pre, bad))
                        chk.same(nm + ": t kept on a rejected step width", x.t, T.fsym("time.t"), its, "next_solution", under=T.AND(x.pre, bad))
    with chk.group("cap_dt"):
        x = Step(chk, "i", "RK1", 8, False)
        s = x.s
        s.w.put(s.so, s.sot, "timestep.dt", T.fsym("time.dt"))
        s.w.call("misc::cap_dt", [s.w.at(s.so, s.sot, "timestep")[0]])
        chk.same("cap_dt", s.w.get(s.so, s.sot, "timestep.dt"), x.cap(T.fsym("time.dt")), sts(False, chk.seed, 128), "TimeStep::cap_dt")
        for n in ("t", "t_next_output"):
            chk.same("cap_dt keeps " + n, s.w.get(s.so, s.sot, "timestep." + n), T.fsym("time." + n), sts(False, chk.seed), "TimeStep::cap_dt")
    return chk


def free_eig(s, ev):
    """characteristic speeds of every cell ordered, otherwise free"""
    E = s.Eq
    base = lambda j, i: T.fsym("u.cent.eigen_vals[%d,%d]" % (j, i))
    c = lambda i: T.fsym("u.cent.c_sound[%d]" % i)
    from .phys import put_col
    put_col(s, "cent", "eigen_vals", lambda ix: [sub(base(1, ix[1]), c(ix[1])), base(1, ix[1]), add(base(1, ix[1]), c(ix[1]))][
        ix[0] if E == 3 else 2 * ix[0]])
    return s.w.arr(s.u, s.ut, "cent.eigen_vals")


def degenerate(name, sort, it):
    """some points without any motion: all characteristic speeds vanish"""
    import re
    from ..terms import _rng, LD
    if sort != "f":
        return None
    zero = _rng("deg", it.seed).random(it.K) < 0.4
    if re.search(r"(c_sound\[|prim\[1,|prim\[2,|eigen_vals\[)", name):
        v = np.abs(_rng("dg", it.seed, name).normal(0, 1, it.K)) + 0.1
        return np.where(zero, 0.0, v).astype(LD)
    return None


# ------------------------------------------------------------------ C26
def controller(x, dt, err, err_old, order):
    temp = T.ITE(T.flt(0.0, err), mul(mul(0.9, dt), T.funary("exp", div(mul(-1.0, T.funary("ln", err)), float(order)))), mul(4.0, dt))
    fr = x.rkf("asc_timestep_friction")
    new = T.ITE(T.AND(T.flt(0.0, err_old), T.flt(0.0, err)), mul(temp, T.funary("exp", mul(mul(-1.0, fr), T.funary("ln", div(err_old, err))))), temp)
    small = T.fmin(new, mul(4.0, dt))
    big = T.fmax(T.ITE(T.flt(dt, new), temp, new), mul(0.25, dt))
    return T.ITE(T.flt(err, 1.0), small, big)


def attempt(x, dt, err_old, tab):
    ks = x.stages(dt, tab)
    hi, lo = x.comb(dt, tab[1], ks), x.comb(dt, tab[2], ks)
    rt, at = x.rkf("asc_relative_tolerance"), x.rkf("asc_absolute_tolerance")
    err = 0.0
    for j in range(x.s.Eq):
        for i in range(2, x.s.S - 2):
            err = T.fmax(err, T.funary("abs", div(sub(hi[j][i], lo[j][i]), mul(rt, add(hi[j][i], at)))))
    return err, controller(x, dt, err, err_old, len(tab[0]))


def control(x, tab, n, eo):
    """(accepted at this attempt, width used, error) per attempt; accepted or failed; failed"""
    dt, done, fail, results = x.cap(x.cfl()), False, False, []
    for n in range(n):
        err, new = attempt(x, dt, eo, tab)
        ok, low = T.flt(err, 1.0), T.flt(new, x.cfgnum("dt_min"))
        results.append((T.AND(T.NOT(done), ok), x.cap(new), err))
        fail = T.OR(fail, T.AND(T.NOT(done), T.AND(T.NOT(ok), low)))
        done = T.OR(done, T.OR(ok, low))
        dt, eo = new, err
    return results, done, fail, eo


def still(x):
    """the rates of change vanish in the state at the beginning of the step, but not before"""
    ref = x.rhs_spec(x.u0["cons"])[0][2].args[2][0]

    def f(t, it):
        it.ufs = None
        try:
            v = it._step(t)
        finally:
            it.ufs = f
        if t.args[0] != "rhs":
            return v
        a, b = it(t.args[2][0]), it(ref)
        return np.where(np.abs(a - b) <= 1e-12 * np.abs(b), T.LD(0), v)
    return f


def judge(chk, nm, x, tab, its, eo):
    results, done, fail, _ = control(x, tab, x.s.w.E.unroll + 3, eo)
    want, acc = results[-1][1], False
    for c, v, _ in reversed(results[:-1]):
        want = T.ITE(c, v, want)
    for c, _, _ in results:
        acc = T.OR(acc, c)
    pre = T.OR(T.NOT(T.isfinite(x.cfl())), T.flt(x.cfl(), x.cfgnum("dt_min")))
    norm = T.AND(x.pre, T.AND(T.NOT(pre), T.NOT(x.cut)))
    soon = False
    for c, _, _ in results[:x.s.w.E.unroll]:
        soon = T.OR(soon, c)
    chk.same(nm + ": no further attempt after the error was below one", T.OR(T.NOT(trace.cut(x.s.w.st.trace)), T.NOT(T.AND(soon, T.NOT(fail)))), True, its,
             "RungeKuttaFehlberg::next_solution", under=T.AND(x.pre, T.NOT(pre)))
    chk.extra.setdefault("interpretation_points_accepted_at_attempt", {})[nm] = [
        sum(int((it(c).astype(bool) & it(x.good).astype(bool)).sum()) for it in its) for c, _, _ in results]
    chk.same(nm + ": step width finally used", x.dt, want, its, "RungeKuttaFehlberg::next_solution", under=T.AND(x.good, acc), tol=1e-8)
    chk.same(nm + ": a rejected trial step below dt_min is an error", T.OR(T.NOT(fail), x.err), True, its, "RungeKuttaFehlberg::next_solution", under=norm)
    chk.same(nm + ": attempts repeat until the error is below one", T.OR(x.err, acc), True, its, "RungeKuttaFehlberg::next_solution", under=norm)
    ks = x.stages(want, tab)
    u = x.comb(want, tab[1], ks)
    for j in range(x.s.Eq):
        for i in (2, 4):
            chk.same("%s: state after the step [%d,%d]" % (nm, j, i), x.now["cons"][j][i], u[j][i], its, "RungeKuttaFehlberg::next_solution",
                     under=T.AND(x.good, acc), tol=1e-7)


def c26():
    chk = Check("C26", "Value flow of the step width through up to three attempts of the adaptive controller (flux scheme uninterpreted): the "
                "final step width, the new state, and the error condition equal those of the documented controller run on the embedded "
                "error estimate over all interior cells and equations; without control the step width does not depend on the tolerances.")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        for rk in [r for r in RKS if TAB[r][2]]:
            if sysk == "a" and rk not in ("RKF12", "SSPRK3") and not chk.thorough:
                continue
            nm = "%s8 %s" % (sysk, rk)
            with chk.group(nm):
                x = Step(chk, sysk, rk, 8, True)
                x.s.w.E.unroll = 6 if rk == "RKF12" else 2
                x.next()
                tab = TAB[rk]
                its = sts(ad, chk.seed, 96, spread=3.0) + sts(ad, chk.seed + 2, 96, spread=3.0, dtmin=(-2.2, -0.3)) + \
                    sts(ad, chk.seed + 4, 96, spread=3.0, dtmin=(-14, -10), asctol=(-7, -2))
                judge(chk, nm, x, tab, its, 0.0)
            if rk == ("RKF12" if sysk == "i" else "SSPRK3") or chk.thorough:
                nm = "%s8 %s after many attempts" % (sysk, rk)
                with chk.group(nm):
                    x = Step(chk, sysk, rk, 8, True, jump=len(TAB[rk][0]))
                    x.s.w.E.unroll = 2
                    x.next()
                    chk.extra.setdefault("counters_generalised", {})[nm] = x.jumped
                    judge(chk, nm, x, TAB[rk], sts(ad, chk.seed, 96, spread=3.0) + sts(ad, chk.seed + 4, 96, spread=3.0, dtmin=(-14, -10), asctol=(-7, -2)), 0.0)
            if rk == ("RKF12" if sysk == "i" else "SSPRK3") or chk.thorough:
                nm = "%s8 %s after another step" % (sysk, rk)
                with chk.group(nm):
                    x = Step(chk, sysk, rk, 8, True, prior=2)
                    x.next()
                    last = 0.0
                    y = x.earlier()
                    results, done, fail, eo = control(y, tab, 5, 0.0)
                    for c, w, e in reversed(results):
                        last = T.ITE(c, e, last)
                    mk = lambda: sts(ad, chk.seed, 96, spread=3.0, asctol=(-4, -0.5))
                    zero = mk()[:1]
                    zero[0].ufs = still(x)
                    judge(chk, nm, x, tab, mk() + zero, last)
        with chk.group(sysk + " no control"):
            x = Step(chk, sysk, "RKF12", 8, False)
            x.next()
            dep = sorted(t.args[0] for t in T.subterms([v for v in flat(x.now["cons"]) + [x.dt, x.t] if isinstance(v, T.Term)])
                         if t.op == "sym" and ("asc_" in t.args[0]))
            chk.flag("%s: without control the tolerances have no influence" % sysk, not dep, "result depends on %s" % dep, "next_solution")
    return chk
