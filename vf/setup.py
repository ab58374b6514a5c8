"""Symbolic corries objects: configuration, mesh, state, solver, writer."""
from . import terms as T
from .values import *
from .world import World, split_result

SYS = {"i": dict(name="Euler1DIsot", ad=False, E=2), "a": dict(name="Euler1DAdiabatic", ad=True, E=3)}
LIMS = ["NoLimiter", "MinMod", "Superbee", "Monocent", "VanLeer"]
RKS = ["RK1", "RK2", "RK3", "RK4", "Heun2", "RKF12", "RKF45", "SSPRK3", "SSPRK5"]
CBM = ["Extrapolate", "ExtrapolateDensityKepler", "ExtrapolateEtaVelocityKepler", "NearZero", "NoGradients",
       "OutflowNoGradients", "OutFlowExtrapolate", "Reflecting"]


def short(n):
    return n.split("<")[0].split("::")[-1]


def chooser(F, flux="Hll", lim="MinMod", rk="SSPRK3", west=None, east=None, outs=(("Stdout", "TSV", "Scalar", ()),), E=2, over=None):
    """west/east: 'NoGradients' or a list of custom modes, one per equation"""
    over = over or {}

    def ch(p, t):
        for k, v in over.items():
            if p.endswith(k):
                return v
        x = F.types[t]
        n = F.tname(t)
        s = short(n)
        last = p.split(".")[-1]
        if s == "MeshMode":
            return "Cartesian"
        if s == "BoundaryMode":
            b = west if "west" in p else east
            return "Custom" if isinstance(b, (list, tuple)) else "NoGradients" if b is None else b
        if s == "Vec" and "CustomBoundaryMode" in n:
            b = west if "west" in p else east
            return len(b)
        if x["k"] == "tuple" and "CustomBoundaryMode" in n:
            b = west if "west" in p else east
            k = int(p[p.rindex("[") + 1:-1])
            m = b[k]
            j, m = (k, m) if isinstance(m, str) else m
            ct = x["ts"][1]
            vi = [v["n"] for v in F.types[ct]["v"]].index(m)
            return ("value", Agg(t, 0, (j, Agg(ct, vi, ()))))
        if s == "NumFluxConfig":
            return flux
        if s == "LimiterMode":
            return lim
        if s == "RKFMode":
            return rk
        if s == "TimeIntegrationConfig":
            return "Rkf"
        if s == "Vec" and "OutputConfig" in n:
            return len(outs)
        if s in ("StreamMode", "FormattingMode", "ToStringConversionMode"):
            o = outs[int(p.split("[")[1].split("]")[0])] if "[" in p else outs[0]
            return o[{"StreamMode": 0, "FormattingMode": 1, "ToStringConversionMode": 2}[s]]
        if last == "should_print_ghostcells":
            o = outs[int(p.split("[")[1].split("]")[0])] if "[" in p else outs[0]
            return ("value", bool(o[4]) if len(o) > 4 else False)
        if s == "Vec" and "DataName" in n:
            o = outs[int(p.split("[")[1].split("]")[0])] if "[" in p else outs[0]
            return ("value", VecV([data_name(F, x["args"][0]["t"], d) for d in o[3]]))
        return None
    return ch


def data_name(F, t, d):
    n, k = (d, None) if isinstance(d, str) else d
    vi = [v["n"] for v in F.types[t]["v"]].index(n)
    return Agg(t, vi, () if k is None else (k,))


class Sim:
    """one analysed configuration: system ('i'/'a'), scheme ('h'/'k'), size"""

    def __init__(self, facts, system="a", scheme="h", S=8, hooks=None, unroll=3, **kw):
        self.w = World(facts, hooks, unroll)
        self.F = facts
        self.sysk, self.S, self.Eq = system, S, SYS[system]["E"]
        self.phys = ("i8_" if system == "i" else "a8") if S == 8 else "%s%d" % (system, S)
        self.mod = "%s%d%s" % (system, S, scheme)
        self.mm = "m%d" % S
        w = self.w
        if kw.get("west") is None and "west" not in kw:
            kw["west"] = "NoGradients"
        if "east" not in kw:
            kw["east"] = "NoGradients"
        self.ct = w.strip(w.root_ty(self.mod + "::init_corries", 1))
        self.ch = chooser(facts, flux={"h": "Hll", "k": "Kt"}[scheme], E=self.Eq, **kw)
        self.cfg = w.cell(w.sym(self.ct, "cfg", self.ch))
        self.mt = w.strip(w.root_ty(self.mm + "::collect_mesh", 1))
        self.ut = w.strip(w.root_ty(self.phys + "::u_update_cons", 1))
        self.vt = w.strip(w.root_ty(self.phys + "::p_update_cons", 1))
        self.sot = w.strip(w.root_ty(self.mod + "::solver_next", 1))
        self.nt = w.strip(w.root_ty(self.mod + "::calc_dflux_dxi", 1))
        self.rt = w.strip(w.root_ty(self.mod + "::rhs_update", 1))
        self.tst = w.strip(w.root_ty(self.phys + "::calc_dt_expl", 1))
        self.wt = w.strip(w.root_ty("misc::writer_write_output", 1))

    def sub(self, path):
        return self.w.at(self.cfg, self.ct, path)[0]

    def payload(self, r):
        e, v = self.w.ok(r)
        if v is None:
            raise Undecided("constructor always fails")
        return self.w.cell(v)

    def mesh(self):
        self.m = self.payload(self.w.call(self.mm + "::mesh_new", [self.sub("mesh_config")]))
        return self.m

    def state(self, prefix="u", symbolic=True):
        u = self.w.cell(self.w.call(self.phys + "::state_new", [self.sub("physics_config")]))
        if symbolic:
            self.w.symbolize(u, prefix)
        self.u = u
        return u

    def solver(self):
        self.so = self.payload(self.w.call(self.mod + "::solver_new", [self.cfg, self.m]))
        return self.so

    def numflux(self):
        self.n = self.payload(self.w.call(self.mod + "::numflux_new", [self.sub("numerics_config.numflux_config"), self.m]))
        return self.n

    def rhs(self):
        self.r = self.payload(self.w.call(self.mod + "::rhs_new", [self.cfg, self.m]))
        return self.r

    def writer(self):
        self.wr = self.payload(self.w.call(self.mm + "::writer_new", [self.cfg, self.m]))
        return self.wr
