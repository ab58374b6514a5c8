"""C01 configuration gate, C24 bundled initial conditions, C27 scheme/configuration agreement and defaults."""
import numpy as np
from .. import focus
from .. import terms as T
from .. import text as X
from .. import trace
from ..check import Check
from ..euler import Euler, col
from ..sampling import Phys, phys_interps
from ..setup import Sim, SYS, LIMS, CBM, data_name
from ..spec import bc_apply, modes_of
from ..terms import Interp, LD, _rng
from ..values import *
from .phys import ARR, DIRS, cmp_arrays, snapshot, gamma
from .run import decide, tree_diff

VECTORS = {"XiCent", "XiWest", "XiEast", "Prim", "Cons", "CSound"}
NAMES = ["XiCent", "XiWest", "XiEast", ("Prim", 0), ("Prim", 1), ("Cons", 0), ("Cons", 1), "CSound", "T", "Iter", "Dt", "DtKind"]
nm = lambda d: d if isinstance(d, str) else d[0]


def strings(it):
    """sampled strings, some of them empty"""
    memo = {}

    root = X.column(it, 0)[0]
    around = lambda s: [s, s + "q", "q" + s]
    c = ["", "out", "out/", "a/b", "x", "y/", "run", "./r", "p q", "z", "t.d", "w", ".", "-", "/", "0", " ", "_", "\u00fc", "n" * 60]
    c += ["", ""] + [y for s in getattr(root, "lits", ()) for y in around(s)]

    def f(prefix, k):
        k = X.column(it, k)[1]
        if prefix not in memo:
            memo[prefix] = _rng("cstr", root.seed, prefix).integers(0, 1 << 20, root.K)
        return c[int(memo[prefix][k]) % len(c)]
    return f


def text(it):
    return X.Text(it, strings(it))


SPECIAL = {
    "xi_out": lambda it, n: it(T.fsym(n[:-3] + "in")),
    "t_end": lambda it, n: it(T.fsym(n[:-5] + "t0")),
}


ALT = np.array([0.0, -0.0, -1.0, np.nan, np.inf, -np.inf, 1.0, 2.0, 1e-300, 5e-324, 1.5, 1e300, -1e-300], dtype=LD)
FIELDS = ["xi_in", "xi_out", "adiabatic_index", ".t0", ".t_end", ".dt_min", ".dt_max", ".dt_cfl_param", "absolute_tolerance",
          "relative_tolerance", "timestep_friction", "limiter_mode.0"]


def anyvalue(name, sort):
    """configuration fields may be moved anywhere"""
    if name.startswith("cfg.") and sort == "f":
        return lambda x, it, base: np.ones(it.K, bool)
    if name.startswith("cfg.") and sort == "i":
        return lambda x, it, base: (x >= 0).astype(bool)
    return None


def sampler(rate):
    pred = X.strpred(text)

    def f(name, sort, it):
        v = pred(name, sort, it)
        if v is not None:
            return v
        if not name.startswith("cfg.") or sort not in "fi":
            return None
        r = _rng("cfgs", it.seed, name)
        K = it.K
        if name.endswith("output_counter_max") or name.endswith("precision"):
            return r.integers(1, 30, K).astype(object)
        if sort == "i":
            v = r.integers(1, 50, K).astype(object)
            return np.where(r.random(K) < (rate or 0.0), 0, v).astype(object)
        if name.endswith(".t0"):
            v = np.where(r.random(K) < 0.4, 0.0, r.uniform(0, 2, K))
        elif name.endswith(".t_end"):
            v = it(T.fsym(name[:-5] + "t0")) + r.uniform(0.1, 3, K)
        else:
            v = Phys(True, "smooth", 0.6)(name, sort, it)
            v = r.uniform(0.1, 2, K) if v is None else v
        if rate is None:
            # one field at a time, with every unusual value
            col = np.arange(K) + 37 * it.seed
            q = next((i for i, n in enumerate(FIELDS) if name.endswith(n)), -1)
            hit = (col // len(ALT)) % len(FIELDS) == q
            alt = ALT[col % len(ALT)]
            for suf, g in SPECIAL.items():
                if name.endswith(suf):
                    alt = np.where(col % len(ALT) == 0, g(it, name), alt)
            return np.where(hit, alt, v).astype(LD)
        hit = r.random(K) < rate
        alt = ALT[r.integers(0, len(ALT), K)]
        for suf, g in SPECIAL.items():
            if name.endswith(suf):
                alt = np.where(r.random(K) < 0.5, g(it, name), alt)
        return np.where(hit, alt, v).astype(LD)
    return f


def accepts(tx, k, outs, flux, lim, asc=True):
    """the documented constraints, evaluated at one interpretation"""
    g = lambda n: float(tx.val(T.fsym("cfg." + n), k))
    N = "numerics_config."
    why = []

    def need(c, what):
        if not c:
            why.append(what)
    need(g("mesh_config.xi_in") < g("mesh_config.xi_out"), "xi_in < xi_out")
    need(1.0 < g("physics_config.adiabatic_index") < 2.0, "1 < adiabatic_index < 2")
    need(int(tx.val(T.isym("cfg." + N + "iter_max"), k)) > 0, "iter_max > 0")
    need(g(N + "t0") >= 0, "t0 >= 0")
    need(g(N + "t_end") > g(N + "t0"), "t_end > t0")
    for n in ("dt_min", "dt_max", "dt_cfl_param"):
        need(g(N + n) > 0, n + " > 0")
    for n in ("asc_absolute_tolerance", "asc_relative_tolerance", "asc_timestep_friction"):
        need(g(N + "time_integration_config.0." + n) > 0, n + " > 0")
    if flux == "Kt" and lim == "Monocent":
        need(g(N + "numflux_config.limiter_mode.0") > 1, "Monocent parameter > 1")
    for i, o in enumerate(outs):
        need(len(o[3]) > 0, "output %d has data names" % i)
        if o[0] == "File":
            for n in ("folder_name", "file_name"):
                need(tx.sval("cfg.writer_config[%d].%s" % (i, n), k) != "", "output %d: %s is not empty" % (i, n))
        if o[2] == "Scalar":
            need(not any(nm(d) in VECTORS for d in o[3]), "output %d: no vectors in a scalar output" % i)
    return why


SHAPES = {
    "one stdout": [("Stdout", "TSV", "Scalar", ("T", "Iter"))],
    "one file": [("File", "CSV", "Vector", ("XiCent", ("Prim", 1)))],
    "file scalar, second of two": [("Stdout", "CSV", "Vector", (("Prim", 0),)), ("File", "TSV", "Scalar", ("T", "DtKind"))],
    "three outputs, last a file": [("Stdout", "CSV", "Vector", ("T",)), ("Stdout", "TSV", "Scalar", ("Dt",)), ("File", "CSV", "Vector", ("T", "CSound"))],
    "three files": [("File", "CSV", "Vector", ("T",)), ("File", "TSV", "Scalar", ("Dt",)), ("File", "CSV", "Vector", ("T", "CSound"))],
    "no outputs": [],
    "no data names": [("Stdout", "CSV", "Vector", ())],
    "no data names, second": [("Stdout", "CSV", "Vector", ("T",)), ("Stdout", "TSV", "Scalar", ())],
    "empty file output": [("File", "CSV", "Vector", ())],
}
for d in NAMES:
    SHAPES["scalar output of %s" % nm(d) + (str(d[1]) if not isinstance(d, str) else "")] = [("Stdout", "CSV", "Scalar", ("T", d))]
SHAPES["vector name first in a scalar output"] = [("Stdout", "TSV", "Scalar", ("XiWest", "T", "Iter"))]
for st, fm, gh in (("Stdout", "CSV", True), ("Stdout", "TSV", True), ("Stdout", "TSV", False), ("File", "CSV", False), ("File", "TSV", True)):
    SHAPES["scalar output of a vector, %s %s %s" % (st, fm, "with ghost cells" if gh else "")] = [(st, fm, "Scalar", (("Prim", 1), "T"), gh)]
    SHAPES["no data names, %s %s %s" % (st, fm, "with ghost cells" if gh else "")] = [(st, fm, "Vector", (), gh)]
    SHAPES["scalar, no data names, %s %s %s" % (st, fm, "with ghost cells" if gh else "")] = [(st, fm, "Scalar", (), gh)]
MANY = [("Stdout", ("CSV", "TSV")[i % 2], ("Scalar", "Vector")[i // 2 % 2], ("T", "Iter"), i % 3 == 0) for i in range(11)]
for n, last in (("a vector in a scalar output", ("Stdout", "TSV", "Scalar", ("T", "XiEast"))), ("a file", ("File", "TSV", "Scalar", ("T", "Dt"))),
                ("no data names", ("Stdout", "CSV", "Vector", ()))):
    SHAPES["twelve outputs, the last has " + n] = MANY + [last]
    SHAPES["twelve outputs, the seventh has " + n] = MANY[:6] + [last] + MANY[6:]
SHAPES["scalar output of many, the last a vector"] = [("Stdout", "CSV", "Scalar", ("T", "Iter", "Dt", "DtKind") * 4 + ("CSound",))]
SHAPES["vector name in the second, scalar output"] = [("Stdout", "TSV", "Vector", ("XiWest",)), ("File", "TSV", "Scalar", ("T", "Iter", ("Cons", 1)))]


def analyse_init(chk, feature, system, scheme, outs, lim="MinMod", rk="RKF12", flux=None):
    c = chk if feature == chk.feature else Check(chk.pid, "", feature)
    over = {} if flux is None else {"numflux_config": flux}
    s = Sim(c.F, system, scheme, 8, outs=outs, lim=lim, rk=rk, over=over)
    chk.watch(s.w)
    s.w.E.nofail = True
    s.w.E.hooks["fn:init"] = lambda E, st, args, fty, dty: (E.event(st, "init_fn"), Agg(dty, 0, (UNIT,)))[1]
    r = s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")])
    return s, s.w.ok(r)[0], s.w.st.trace


def c01():
    chk = Check("C01", "The condition under which init_corries returns an error is compared with the documented constraints, for every output list "
                "shape, scheme, limiter and integrator, over ordinary, boundary, infinite and NaN field values and empty strings; on a rejected "
                "configuration the gated event trace has no file, folder or stream operation and the initial-condition function is not called",
                "plain")
    K = 120 if not chk.thorough else 400
    its0 = [Interp(sampler(rt), K, chk.seed + i) for i, rt in enumerate((0.0, 0.02, 0.06, 0.2))] + [Interp(sampler(None), len(ALT) * len(FIELDS), chk.seed)]
    cases = [(sh, "a", "h", "Hll", "MinMod", "SSPRK3", "plain") for sh in SHAPES]
    base = "three outputs, last a file"
    cases += [(base, sy, "k", "Kt", lim, "RKF45", ft) for lim in LIMS for sy, ft in (("a", "plain"), ("i", "validation"))]
    cases += [(base, "i", "h", "Hll", "MinMod", rk, "validation") for rk in ("RK1", "RKF12", "SSPRK5")]
    for sh, system, scheme, flux, lim, rk, feature in cases:
        name = "%s, %s%s %s %s (%s)" % (sh, system, scheme, lim if flux == "Kt" else "", rk, feature)
        outs = SHAPES[sh]
        with chk.group(name):
            s, err, tr = analyse_init(chk, feature, system, scheme, outs, lim, rk)
            n = {"accepted": 0, "rejected": 0}
            bad = {}
            its, st = focus.extend(its0, (err, tr), anyvalue)
            chk.conditions(st)
            for it in its:
                tx = text(it)
                e = it(err).astype(bool) if isinstance(err, T.Term) else np.full(it.K, bool(err))
                for k in range(it.K):
                    why = accepts(tx, k, outs, flux, lim)
                    n["rejected" if why else "accepted"] += 1
                    if why and not e[k]:
                        bad.setdefault("accepts a configuration violating: %s" % why[0], (it, k))
                    if not why and e[k] and feature == "plain" and not wild_mesh(tx, k):
                        bad.setdefault("rejects a configuration that satisfies every documented constraint", (it, k))
                    if why:
                        ev = [x for x in tx.run(tr, k) if x[0] != "probe"]
                        if ev:
                            bad.setdefault("a configuration violating %s is rejected only after %s" % (why[0], describe(ev[0])), (it, k))
            for b, (it, k) in bad.items():
                chk.violate("%s: %s" % (name, b), "%s\n  at %s" % (b, witness(text(it), k, outs)), "init_corries", key="%s: %s" % (sh, b))
            if not bad:
                if n["rejected"]:
                    chk.proved(name + ": invalid configurations are rejected", "random-interpretation")
                    chk.proved(name + ": a rejection has no effects", "random-interpretation")
                if n["accepted"] and feature == "plain":
                    chk.proved(name + ": valid configurations are accepted", "random-interpretation")
    return chk


def wild_mesh(tx, k):
    return any(not np.isfinite(float(tx.val(T.fsym("cfg.mesh_config." + n), k))) for n in ("xi_in", "xi_out"))


def describe(e):
    return " ".join(str(x) for x in e[:3])[:160]


def witness(tx, k, outs):
    names = ["mesh_config.xi_in", "mesh_config.xi_out", "physics_config.adiabatic_index", "numerics_config.t0", "numerics_config.t_end",
             "numerics_config.dt_min", "numerics_config.dt_max", "numerics_config.dt_cfl_param",
             "numerics_config.time_integration_config.0.asc_absolute_tolerance",
             "numerics_config.time_integration_config.0.asc_relative_tolerance",
             "numerics_config.time_integration_config.0.asc_timestep_friction", "numerics_config.numflux_config.limiter_mode.0"]
    out = ["%s=%g" % (n.split(".", 1)[1], float(tx.val(T.fsym("cfg." + n), k))) for n in names]
    out.append("iter_max=%d" % tx.val(T.isym("cfg.numerics_config.iter_max"), k))
    for i, o in enumerate(outs):
        out.append("output %d %s folder=%r file=%r" % (i, o[:4], tx.sval("cfg.writer_config[%d].folder_name" % i, k), tx.sval("cfg.writer_config[%d].file_name" % i, k)))
    return ", ".join(out)


# ------------------------------------------------------------------ C24
def c24():
    chk = Check("C24", "Value flow of init_noh and init_sod on arbitrary states, solvers and meshes (both systems, even and odd mesh sizes): every "
                "array element of the state has the documented value or its previous one; solver and mesh keep their values; unsupported systems "
                "get an error and keep their state")
    its = lambda ad: phys_interps(ad, chk.seed)
    for sysk in "ia":
        for S in (8, 11, 300):
            for scheme in "hk" if S < 99 else "h":
                for fn in ("init_noh", "init_sod"):
                    name = "%s%d%s %s" % (sysk, S, scheme, fn)
                    with chk.group(name):
                        s = Sim(chk.F, sysk, scheme, S)
                        chk.watch(s.w)
                        s.mesh(), s.state("u"), s.solver()
                        before = {d: snapshot(s, d) for d in DIRS}
                        others = objects(s)
                        r = s.w.call(s.mod + "::" + fn, [s.u, s.so, s.m])
                        err, _ = s.w.ok(r)
                        ad = SYS[sysk]["ad"]
                        want = {a: v for a, v in before["cent"].items()}
                        half = S // 2
                        fails = fn == "init_sod" and not ad
                        if fn == "init_noh":
                            want["prim"] = [[1.0] * S, [1.0] * half + [-1.0] * (S - half)] + ([[1e-5] * S] if ad else [])
                            if not ad:
                                want["c_sound"] = [1.0] * S
                        elif ad:
                            want["prim"] = [[1.0] * half + [0.125] * (S - half), [0.0] * S, [1.0] * half + [0.1] * (S - half)]
                        chk.flag(name + (": is refused" if fails else ": succeeds"), err is fails, "error condition %s" % (err,), fn)
                        cmp_arrays(chk, name, snapshot(s, "cent"), want, its(ad), fn, ARR)
                        for d in ("west", "east"):
                            cmp_arrays(chk, name + " " + d, snapshot(s, d), before[d], its(ad), fn, ARR)
                        chk.flag(name + ": solver and mesh unchanged", objects(s) == others, "written", fn)
                        ev = [e for g, e in trace.events(s.w.st.trace) if e[0] == "ev" and e[1] != "probe"]
                        chk.flag(name + ": no side effects", not ev, str(ev)[:200], fn)
    return chk


def objects(s):
    from ..models import canon_val
    return canon_val(s.w.E, s.w.st, s.so), canon_val(s.w.E, s.w.st, s.m)


# ------------------------------------------------------------------ C27
def c27():
    chk = Check("C27", "Result condition of every scheme constructor for every configuration variant; event trace of init_corries with a mismatched "
                "configuration; the default configurations of every scheme, evaluated from the source, are accepted by validation and by the "
                "scheme; and the boundary condition objects built from every pair of configured modes fill each side as configured")
    its = [Interp(sampler(0.0), 60, chk.seed)]
    variants = {"Hll": "Hll", "Kt": "Kt"}
    for sysk in "ia":
        for S in (8, 11):
            for scheme, own in (("h", "Hll"), ("k", "Kt")):
                for v in variants:
                    for lim in LIMS if v == "Kt" else ("MinMod",):
                        name = "%s%d %s::new(%s%s)" % (sysk, S, own, v, " " + lim if v == "Kt" else "")
                        with chk.group(name):
                            s = Sim(chk.F, sysk, scheme, S, lim=lim, over={"numflux_config": v})
                            chk.watch(s.w)
                            s.mesh()
                            err, _ = s.w.ok(s.w.call(s.mod + "::numflux_new", [s.sub("numerics_config.numflux_config"), s.m]))
                            decide(chk, name + (": accepted" if v == own else ": refused"), T.NOT(err) if v == own else err, its, own + "::new", need=1)
                            if v != own:
                                err, _ = s.w.ok(s.w.call(s.mod + "::solver_new", [s.cfg, s.m]))
                                decide(chk, name + ": Solver::new fails", err, its, "Solver::new", need=1)
                                err, _ = s.w.ok(s.w.call(s.mod + "::rhs_new", [s.cfg, s.m]))
                                decide(chk, name + ": Rhs::new fails", err, its, "Rhs::new", need=1)
                if S == 8:
                    other = "Kt" if own == "Hll" else "Hll"
                    name = "%s %s: init_corries with a configuration for %s" % (sysk, own, other)
                    with chk.group(name):
                        outs = [("File", "CSV", "Vector", ("T", ("Prim", 1))), ("Stdout", "TSV", "Scalar", ("T",))]
                        s, err, tr = analyse_init(chk, chk.feature, sysk, scheme, outs, flux=other)
                        decide(chk, name + " fails", err, its, "init_corries")
                        bad = None
                        for it in its:
                            tx = text(it)
                            for k in range(it.K):
                                ev = [x for x in tx.run(tr, k) if x[0] in ("write", "open", "step", "init_fn")]
                                if ev:
                                    bad = describe(ev[0])
                        chk.flag(name + " writes nothing", bad is None, "first effect: %s" % bad, "init_corries", "random-interpretation")
                # defaults
                name = "%s%d%s default_riemann_test" % (sysk, S, scheme)
                with chk.group(name):
                    s = Sim(chk.F, sysk, scheme, S)
                    chk.watch(s.w)
                    s.w.E.nofail = True
                    te = T.fsym("cfg.numerics_config.t_end")
                    v = s.w.call(s.mod + "::default_riemann_test", [te, StrV([("s", "folder_name")]), StrV([("s", "file_name")])])
                    cfg = s.w.cell(v)
                    s.cfg = cfg
                    pos = T.flt(0.0, te)
                    f = s.w.get(cfg, s.ct, "numerics_config.numflux_config")
                    chk.flag(name + ": flux configuration is for its scheme", isinstance(f, Agg) and f.variant == s.w.variant(f.ty, own), str(f)[:100], "default_riemann_test")
                    s.w.E.hooks["fn:init"] = lambda E, st, args, fty, dty: Agg(dty, 0, (UNIT,))
                    err, sim = s.w.ok(s.w.call(s.mod + "::init_corries", [cfg, OpaqueFn("init")]))
                    named = X.strpred(lambda i: X.Text(i, lambda p, k: {"folder_name": "out", "file_name": "f"}.get(p)))
                    its3 = [Interp(named, 40, chk.seed)]
                    decide(chk, name + ": is accepted", T.NOT(err), its3, "init_corries", pos)
                    num = lambda n: s.w.get(cfg, s.ct, n)
                    chk.same(name + ": ends at the requested time", num("numerics_config.t_end"), te, [Interp(None, 40, chk.seed)], "default_riemann_test")
                    chk.flag(name + ": one output after the initial one", num("output_counter_max") == 1, str(num("output_counter_max")), "default_riemann_test")
                    # zero gradients on both sides
                    sim = s.w.cell(sim)
                    el = lambda i: s.w.E.project_el(sim, ("f", i), s.w.st)
                    s.u, so, m = el(0), el(1), el(2)
                    s.w.symbolize(s.u, "u")
                    b = snapshot(s, "cent")
                    s.w.call(s.mod + "::vars_from_prim", [s.u, s.w.at(so, s.sot, "rhs")[0], m])
                    xi = s.w.arr(m, s.mt, "xi_cent")
                    E = SYS[sysk]["E"]
                    p = bc_apply(bc_apply(b["prim"], "west", modes_of("NoGradients", E), xi), "east", modes_of("NoGradients", E), xi)
                    now = snapshot(s, "cent")["prim"]
                    for j in range(E):
                        for i in (0, 1, S - 2, S - 1):
                            chk.same("%s: zero gradients, prim[%d,%d]" % (name, j, i), now[j][i], p[j][i], phys_interps(SYS[sysk]["ad"], chk.seed), "default_riemann_test")
    # the limiter that was configured is the one in use
    from ..models import canon_val
    for sysk in "ia":
        seen = {}
        for lim in LIMS:
            name = "%s8 Solver::new with %s" % (sysk, lim)
            with chk.group(name):
                s = Sim(chk.F, sysk, "k", 8, lim=lim)
                chk.watch(s.w)
                s.mesh(), s.solver(), s.numflux()
                a = canon_val(s.w.E, s.w.st, s.w.at(s.so, s.sot, "rhs.numflux")[0])
                b = canon_val(s.w.E, s.w.st, s.n)
                chk.flag(name + ": the scheme is built from its configuration", a == b, "%s instead of %s" % (str(a)[:200], str(b)[:200]), "Solver::new")
                other = [l for l, x in seen.items() if x == a]
                chk.flag(name + ": limiters differ", not other, "same scheme as with %s" % other, "Kt::new")
                seen[lim] = a
    # boundary modes: each side gets its own
    for sysk in "ia":
        E = SYS[sysk]["E"]
        ad = SYS[sysk]["ad"]
        its2 = phys_interps(ad, chk.seed)
        modes = CBM
        pairs = [(modes[i], modes[(i * 3 + 1 + d) % len(modes)]) for i in range(len(modes)) for d in ((0,) if not chk.thorough else range(len(modes)))]
        pairs = [(["NoGradients"] * (E - 1) + [a], [b] + ["Reflecting"] * (E - 1)) for a, b in pairs] + [("NoGradients", ["Reflecting"] * E), (["Extrapolate"] * E, "NoGradients")]
        for west, east in pairs:
            name = "%s8 west=%s east=%s" % (sysk, west, east)
            with chk.group(name):
                s = Sim(chk.F, sysk, "h", 8, west=west, east=east)
                chk.watch(s.w)
                s.mesh(), s.state("u"), s.solver()
                xi = s.w.arr(s.m, s.mt, "xi_cent")
                b = snapshot(s, "cent")
                r = s.w.at(s.so, s.sot, "rhs")[0]
                s.w.call(s.mod + "::vars_from_prim", [s.u, r, s.m])
                p = bc_apply(b["prim"], "west", modes_of(west, E), xi)
                p = bc_apply(p, "east", modes_of(east, E), xi)
                now = snapshot(s, "cent")["prim"]
                for j in range(E):
                    for i in (0, 1, 6, 7):
                        chk.same("%s prim[%d,%d]" % (name, j, i), now[j][i], p[j][i], its2, "Solver::new", under=T.conj(T.flt(0.0, x) for x in xi))
    return chk
