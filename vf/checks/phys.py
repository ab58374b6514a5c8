"""C04, C05, C15: conversions, wave speeds and flux, freshness of derived variables."""
from .. import terms as T
from ..check import Check
from ..euler import Euler, col
from ..sampling import phys_interps
from ..spec import bc_apply, modes_of
from ..setup import Sim, SYS, CBM
from ..values import *

ARR = ["prim", "cons", "c_sound", "eigen_vals", "flux"]
DIRS = ["cent", "west", "east"]


def snapshot(s, d):
    w = s.w
    return {a: w.arr(s.u, s.ut, d + "." + a) for a in ARR}


def fresh(chk, system, S):
    s = Sim(chk.F, system, "h", S)
    chk.watch(s.w)
    s.state("u")
    return s


def gamma(s):
    return s.w.get(s.u, s.ut, "cent.gamma")


def put_col(s, d, name, f):
    """overwrite array d.name element (j,i) or (i,) by f(index)"""
    s.w.set_arr(s.w.get(s.u, s.ut, d + "." + name), f)


def make_consistent(s, d, eu, upto):
    """cons (and c_sound) of direction d become functions of its symbolic primitives"""
    p = s.w.arr(s.u, s.ut, d + ".prim")
    put_col(s, d, "cons", lambda ix: eu.cons(col(p, ix[1]))[ix[0]])
    if upto >= 1 and eu.ad:
        put_col(s, d, "c_sound", lambda ix: eu.csound(col(p, ix[0]), None))


def frame(chk, s, name, before, writes, where):
    """everything outside `writes` keeps its value (the very same term)"""
    for d in DIRS:
        now = snapshot(s, d)
        for a in ARR:
            if (d, a) in writes:
                continue
            ok = now[a] == before[d][a] if a == "c_sound" else all(x is y or x == y for r, q in zip(now[a], before[d][a]) for x, y in zip(r, q))
            if not ok:
                ok = all(chk.compare(x, y)[0] == "ok" for x, y in zip(flat(now[a]), flat(before[d][a])))
            chk.flag("%s leaves %s.%s alone" % (name, d, a), ok, "array %s.%s is modified" % (d, a), where)


def flat(a):
    return [y for x in a for y in (flat(x) if isinstance(x, list) else [x])]


def sizes(chk):
    return (8, 11, 300)


def rooted(s, fn):
    return "%s::%s" % (s.phys, fn)


def c04():
    chk = Check("C04", "Value-flow normal forms of every element written by update_prim / update_cons (all cells, all equations, "
                "centre/west/east, both systems, S=8 and S=11) are equal to the Euler definitions; prim∘cons and cons∘prim "
                "normalise to the identity; no other array changes.")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        its = phys_interps(ad, chk.seed)
        for S in sizes(chk):
            for fn, d, what in [(p + "_update_" + q, dd, q) for q in ("prim", "cons") for p, dd in
                                (("p", "cent"), ("u", "cent"), ("w", "west"), ("e", "east"))]:
                with chk.group("%s%d %s" % (sysk, S, fn)):
                    s = fresh(chk, sysk, S)
                    eu = Euler(ad, gamma(s))
                    before = {x: snapshot(s, x) for x in DIRS}
                    tgt = s.w.at(s.u, s.ut, "cent")[0] if fn[0] == "p" else s.u
                    s.w.call(rooted(s, fn), [tgt])
                    got = s.w.arr(s.u, s.ut, d + "." + what)
                    src = before[d]["cons" if what == "prim" else "prim"]
                    for i in range(S):
                        want = (eu.prim if what == "prim" else eu.cons)(col(src, i))
                        for j in range(s.Eq):
                            chk.same("%s%d %s %s[%d,%d]" % (sysk, S, fn, what, j, i), got[j][i], want[j], its, rooted(s, fn))
                    frame(chk, s, "%s%d %s" % (sysk, S, fn), before, {(d, what)}, rooted(s, fn))
            for a, b, arr in (("cons", "prim", "prim"), ("prim", "cons", "cons")):
                with chk.group("%s%d round trip %s→%s" % (sysk, S, a, b)):
                    s = fresh(chk, sysk, S)
                    before = snapshot(s, "cent")[arr]
                    s.w.call(rooted(s, "u_update_" + a), [s.u])
                    s.w.call(rooted(s, "u_update_" + b), [s.u])
                    got = s.w.arr(s.u, s.ut, "cent." + arr)
                    for j in range(s.Eq):
                        for i in range(S):
                            chk.same("%s%d round trip via %s: %s[%d,%d]" % (sysk, S, a, arr, j, i), got[j][i], before[j][i], its,
                                     rooted(s, "u_update_" + b))
    return chk


def c05():
    chk = Check("C05", "Value-flow normal forms of c_sound, eigen_vals (full, min-only, max-only) and flux of every cell and equation, "
                "computed from consistent primitive/conservative variables, equal the Euler formulas; nothing else is written.")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        its = phys_interps(ad, chk.seed)
        for S in sizes(chk):
            for q, writes in (("c_sound", {"c_sound"}), ("eigen_vals", {"eigen_vals"}), ("eigen_vals_min", {"eigen_vals"}),
                              ("eigen_vals_max", {"eigen_vals"}), ("flux", {"flux"})):
                for p, d in (("p", "cent"), ("u", "cent"), ("w", "west"), ("e", "east")):
                    fn = "%s_update_%s" % (p, q)
                    with chk.group("%s%d %s" % (sysk, S, fn)):
                        s = fresh(chk, sysk, S)
                        eu = Euler(ad, gamma(s))
                        make_consistent(s, d, eu, 0 if q == "c_sound" else 1)
                        before = {x: snapshot(s, x) for x in DIRS}
                        tgt = s.w.at(s.u, s.ut, "cent")[0] if p == "p" else s.u
                        s.w.call(rooted(s, fn), [tgt])
                        now = snapshot(s, d)
                        b = before[d]
                        for i in range(S):
                            pr = col(b["prim"], i)
                            cs = eu.csound(pr, b["c_sound"][i])
                            tag = "%s%d %s cell %d" % (sysk, S, fn, i)
                            if q == "c_sound":
                                chk.same(tag, now["c_sound"][i], cs, its, rooted(s, fn))
                            elif q == "flux":
                                for j, x in enumerate(eu.flux(pr, cs)):
                                    chk.same(tag + " eq %d" % j, now["flux"][j][i], x, its, rooted(s, fn))
                            else:
                                e = eu.eig(pr, cs)
                                for j in range(s.Eq):
                                    if q == "eigen_vals" or (q == "eigen_vals_min" and j == 0) or (q == "eigen_vals_max" and j == s.Eq - 1):
                                        chk.same(tag + " family %d" % j, now["eigen_vals"][j][i], e[j], its, rooted(s, fn))
                        frame(chk, s, "%s%d %s" % (sysk, S, fn), before, {(d, x) for x in writes}, rooted(s, fn))
    return chk


# ------------------------------------------------------------------ C15
def consistent(s, eu, west="NoGradients", east="NoGradients", dirs=("cent",)):
    """give the cell centres of s.u the invariant of C15: interior primitives and sound speeds are free, the rest follows"""
    w = s.w
    xi = w.arr(s.m, s.mt, "xi_cent")
    p = w.arr(s.u, s.ut, "cent.prim")
    p = bc_apply(p, "west", modes_of(west, s.Eq), xi)
    p = bc_apply(p, "east", modes_of(east, s.Eq), xi)
    cs = w.arr(s.u, s.ut, "cent.c_sound")
    put_col(s, "cent", "prim", lambda ix: p[ix[0]][ix[1]])
    put_col(s, "cent", "cons", lambda ix: eu.cons(col(p, ix[1]))[ix[0]])
    put_col(s, "cent", "c_sound", lambda ix: eu.csound(col(p, ix[0]), cs[ix[0]]))
    cs = w.arr(s.u, s.ut, "cent.c_sound")
    put_col(s, "cent", "eigen_vals", lambda ix: eu.eig(col(p, ix[1]), cs[ix[1]])[ix[0]])
    return p


def derived(s, eu, prim, cs_given, west, east, xi):
    """required arrays once the boundary conditions have been applied to `prim`"""
    p = bc_apply(prim, "west", modes_of(west, s.Eq), xi)
    p = bc_apply(p, "east", modes_of(east, s.Eq), xi)
    return closure(s, eu, p, cs_given)


def closure(s, eu, p, cs_given):
    S = s.S
    cs = [eu.csound(col(p, i), cs_given[i]) for i in range(S)]
    return {"prim": p, "cons": tr([eu.cons(col(p, i)) for i in range(S)]), "c_sound": cs,
            "eigen_vals": tr([eu.eig(col(p, i), cs[i]) for i in range(S)])}


def tr(m):
    return [list(r) for r in zip(*m)]


def cmp_arrays(chk, tag, got, want, its, where, names=("prim", "cons", "c_sound", "eigen_vals"), under=True, scale=1e-9):
    for n in names:
        g, q = got[n], want[n]
        for i in range(len(q)):
            if isinstance(q[i], list):
                for k in range(len(q[i])):
                    chk.same("%s: %s[%d,%d]" % (tag, n, i, k), g[i][k], q[i][k], its, where, under=under, scale=scale)
            else:
                chk.same("%s: %s[%d]" % (tag, n, i), g[i], q[i], its, where, under=under, scale=scale)


BCS = {"i": [("NoGradients", "NoGradients"), (["Reflecting", "OutflowNoGradients"], ["Extrapolate", "NearZero"]),
             ([(1, "Reflecting")], [(0, "NoGradients")])],
       "a": [("NoGradients", "NoGradients"), (["NoGradients", "Reflecting", "Extrapolate"], ["Extrapolate", "OutFlowExtrapolate", "NoGradients"]),
             ([(2, "Extrapolate")], [(1, "Reflecting")])]}
FLUX = "corries::NumFlux::calc_dflux_dxi"


def unwrap(v):
    while isinstance(v, (list, tuple)) and len(v) == 1:
        v = v[0]
    return v


def rhs_hook(entries, s_box, fail=True):
    """abstract flux scheme: the right-hand side is an unknown function of the cell-centre state it is handed;
    records that state.  May fail."""
    def hook(E, st, args, fty, dty):
        s = s_box[0]
        n = E.event(st, "rhs")
        u = args[2]
        snap = {a: s.w.arr(u, s.ut, "cent." + a, st) for a in ("prim", "cons", "c_sound", "eigen_vals")}
        entries.append((n, snap, E.where()))
        from ..models import all_idx, setdata
        d = E.resolve(st, E.load(st, args[1])) if isinstance(args[1], (Ref, ValPtr)) else args[1]
        key = tuple(flat(snap["prim"]) + flat(snap["c_sound"]))
        setdata(st, d, [T.uf("rhs", "%d,%d" % ix, key, "f") if 2 <= ix[1] < s.S - 2 else 0.0 for ix in all_idx(d.shape)])
        return Agg(dty, 0, (UNIT,))
    return hook


def c15():
    chk = Check("C15", "Value flow of the cell-centre arrays at every point of use (entry of the flux scheme in every stage and attempt, "
                "exit of the update functions, of a step and of the initialisation), starting from arbitrary stale contents of every "
                "array that is supposed to be recomputed; required: prim/cons/c_sound/eigen_vals related by the Euler definitions in all "
                "cells and ghost cells equal to the boundary-condition functions.")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        its = phys_interps(ad, chk.seed)
        for west, east in BCS[sysk]:
            for S in (8, 11, 300) if chk.thorough or west == BCS[sysk][-1][0] else (8, 11):
                for fn in ("vars_from_prim", "vars_from_cons"):
                    nm = "%s%d %s west=%s east=%s" % (sysk, S, fn, west, east)
                    with chk.group(nm):
                        s = Sim(chk.F, sysk, "h", S, west=west, east=east)
                        chk.watch(s.w)
                        s.mesh(), s.state("u"), s.rhs()
                        if S == 8:
                            # an unrelated earlier update: nothing that is remembered may matter
                            s.w.symbolize(s.u, "p")
                            s.w.rehearse(s.r, lambda: s.w.call(s.mod + "::" + fn, [s.u, s.r, s.m]))
                            s.w.symbolize(s.u, "u")
                        eu = Euler(ad, gamma(s))
                        xi = s.w.arr(s.m, s.mt, "xi_cent")
                        b = {d: snapshot(s, d) for d in DIRS}
                        s.w.call(s.mod + "::" + fn, [s.u, s.r, s.m])
                        src = b["cent"]["prim"] if fn == "vars_from_prim" else tr([eu.prim(col(b["cent"]["cons"], i)) for i in range(S)])
                        want = derived(s, eu, src, b["cent"]["c_sound"], west, east, xi)
                        cmp_arrays(chk, nm, snapshot(s, "cent"), want, its, s.mod + "::" + fn)
                        for d in ("west", "east"):
                            chk.flag("%s leaves %s alone" % (nm, d), snapshot(s, d) == b[d], "face state written", fn)
        for S in (8, 11, 300):
            with chk.group("%s%d init_west_east" % (sysk, S)):
                s = fresh(chk, sysk, S)
                b = snapshot(s, "cent")
                s.w.call(rooted(s, "init_west_east"), [s.u])
                for d in DIRS:
                    cmp_arrays(chk, "%s%d init_west_east %s" % (sysk, S, d), snapshot(s, d), b, its, "init_west_east", ("prim", "cons", "c_sound"))
        # initialisation
        for west, east in BCS[sysk][:2]:
            for sch in "hk":
                nm = "%s8%s init_corries west=%s east=%s" % (sysk, sch, west, east)
                with chk.group(nm):
                    s = Sim(chk.F, sysk, sch, 8, west=west, east=east, outs=[("Stdout", "TSV", "Scalar", ("T",))])
                    chk.watch(s.w)

                    def init(E, st, args, f, d, s=s):
                        E.event(st, "init_fn")
                        s.w.symbolize(args[0], "u", st)
                        return Agg(d, 0, (UNIT,))
                    s.w.E.hooks["fn:init"] = init
                    r = s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")])
                    e, v = s.w.ok(r)
                    if v is None:
                        raise Undecided("initialisation never succeeds")
                    t = s.w.root_ty(s.mod + "::run_corries", 1)
                    cell = s.w.cell(v)
                    ct = s.w.strip(t)
                    s.u = s.w.at(cell, ct, "0")[0] if False else s.w.E.project_el(cell, ("f", 0), s.w.st)
                    mesh = s.w.E.project_el(cell, ("f", 2), s.w.st)
                    eu = Euler(ad, gamma(s))
                    xi = s.w.arr(mesh, s.mt, "xi_cent")
                    sy = lambda a, *ix: T.fsym("u.cent.%s[%s]" % (a, ",".join(map(str, ix))))
                    prim = [[sy("prim", j, i) for i in range(8)] for j in range(s.Eq)]
                    want = derived(s, eu, prim, [sy("c_sound", i) for i in range(8)], west, east, xi)
                    cmp_arrays(chk, nm, snapshot(s, "cent"), want, its, "CorriesConfig::init_corries", under=T.NOT(e))
                    for d in ("west", "east"):
                        cmp_arrays(chk, nm + " " + d, snapshot(s, d), want, its, "CorriesConfig::init_corries", ("prim", "cons", "c_sound"), under=T.NOT(e))
        # a whole step with an abstract flux scheme: every flux evaluation sees a consistent state, and so does the caller
        for rk in ("SSPRK3", "RKF12", "RK1") + (("RKF45", "SSPRK5", "Heun2") if chk.thorough else ()):
            for west, east in BCS[sysk][1:2] if rk != "SSPRK3" else BCS[sysk]:
                nm = "%s8 step %s west=%s east=%s" % (sysk, rk, west, east)
                with chk.group(nm):
                    ents, box = [], [None]
                    s = Sim(chk.F, sysk, "h", 8, rk=rk, west=west, east=east, hooks={FLUX: rhs_hook(ents, box)})
                    box[0] = s
                    chk.watch(s.w)
                    s.mesh(), s.state("u"), s.solver()
                    keep = lambda p: "bt" in p or any(x in ("a", "b_low", "b_high", "c") for x in p)
                    s.w.symbolize(s.so, "solver", keep=keep)
                    eu = Euler(ad, gamma(s))
                    consistent(s, eu, west, east)
                    if rk == "RK1":
                        # after an unrelated earlier step
                        s.w.symbolize(s.u, "p")
                        consistent(s, eu, west, east)
                        s.w.rehearse(s.so, lambda: s.w.call(s.mod + "::solver_next", [s.so, s.u, s.m]))
                        s.w.symbolize(s.u, "u")
                        s.w.symbolize(s.so, "solver", keep=keep)
                        consistent(s, eu, west, east)
                        del ents[:]
                    xi = s.w.arr(s.m, s.mt, "xi_cent")
                    cs0 = s.w.arr(s.u, s.ut, "cent.c_sound")
                    s.w.call(s.mod + "::solver_next", [s.so, s.u, s.m])
                    seen = snapshot(s, "cent")
                    chk.flag(nm + " evaluates the flux", len(ents) > 0, "flux scheme never called")
                    stp = [it for it in step_interps(ad, chk.seed)]
                    for n, snap, where in ents + [("end of step", {k: seen[k] for k in ("prim", "cons", "c_sound", "eigen_vals")}, "next_solution")]:
                        # interior primitives follow from the interior conservatives; the rest from the primitives
                        tag = "%s flux evaluation %s" % (nm, n)
                        for i in range(2, 6):
                            for j, x in enumerate(eu.prim(col(snap["cons"], i))):
                                chk.same("%s: prim[%d,%d] from cons" % (tag, j, i), snap["prim"][j][i], x, stp, where)
                        want = derived(s, eu, snap["prim"], cs0, west, east, xi)
                        cmp_arrays(chk, tag, snap, want, stp, where)
    return chk


def step_interps(ad, seed):
    return phys_interps(ad, seed, 24, modes=(("smooth", 0.6), ("smooth", 3.0)))


# ------------------------------------------------------------------ C33
COPIED = ("prim", "cons", "c_sound")


def differ(chk, x, y):
    """some element of the nested lists x, y is not the same value"""
    x, y = flat(x), flat(y)
    return len(x) != len(y) or not all(a is b or a == b or chk.compare(a, b)[0] == "ok" for a, b in zip(x, y))


def all_of(s, d, ref=None):
    r = ref if ref is not None else s.u
    out = {a: s.w.arr(r, s.ut, d + "." + a) for a in ARR}
    out["gamma"] = [s.w.get(r, s.ut, d + ".gamma")]
    return out


def shape(x):
    return (len(x),) + shape(x[0]) if isinstance(x, list) and x else ()


def c33():
    chk = Check("C33", "Value flow of every copy of a state (assign*, init_west_east, clone), of every update selected by a side and of every "
                "named accessor, from fully symbolic states: each element of the named side equals the element it stands for, every other "
                "array of the target and all of the source keep their terms; both systems, S=8, 11 and 300.")
    copies = [("assign", DIRS), ("assign_vars", ["cent"]), ("c_assign_vars", ["cent"]), ("w_assign_vars", ["west"]), ("e_assign_vars", ["east"])]
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        its = phys_interps(ad, chk.seed)
        for S in sizes(chk):
            for fn, sides in copies:
                nm = "%s%d %s" % (sysk, S, fn)
                with chk.group(nm):
                    s = fresh(chk, sysk, S)
                    u = s.u
                    v = s.state("v")
                    s.u = u
                    b = {d: all_of(s, d) for d in DIRS}
                    src = {d: all_of(s, d, v) for d in DIRS}
                    s.w.call(rooted(s, fn), [u, v])
                    for d in DIRS:
                        now = all_of(s, d)
                        if d in sides:
                            cmp_arrays(chk, "%s onto %s" % (nm, d), now, src[d], its, rooted(s, fn), COPIED)
                            for a in ("eigen_vals", "flux", "gamma"):
                                # documented to follow, or left for the next update: nothing else may appear there
                                chk.flag("%s %s.%s is old or copied" % (nm, d, a), not differ(chk, now[a], b[d][a]) or not differ(chk, now[a], src[d][a]),
                                         "array %s.%s holds something else" % (d, a), rooted(s, fn))
                        else:
                            for a in now:
                                chk.flag("%s leaves %s.%s alone" % (nm, d, a), not differ(chk, now[a], b[d][a]), "array %s.%s is modified" % (d, a), rooted(s, fn))
                        then = all_of(s, d, v)
                        for a in then:
                            chk.flag("%s leaves the source's %s.%s alone" % (nm, d, a), not differ(chk, then[a], src[d][a]), "source modified", rooted(s, fn))
                    # what is copied is not shared
                    kept = {d: all_of(s, d) for d in DIRS}
                    s.w.symbolize(v, "x")
                    chk.flag(nm + " copies", all(not differ(chk, all_of(s, d)[a], kept[d][a]) for d in DIRS for a in ARR), "target aliases its source", rooted(s, fn))
            nm = "%s%d init_west_east" % (sysk, S)
            with chk.group(nm):
                s = fresh(chk, sysk, S)
                b = {d: all_of(s, d) for d in DIRS}
                s.w.call(rooted(s, "init_west_east"), [s.u])
                for a in b["cent"]:
                    chk.flag("%s leaves cent.%s alone" % (nm, a), not differ(chk, all_of(s, "cent")[a], b["cent"][a]), "cent.%s is modified" % a, nm)
                for d in ("west", "east"):
                    now = all_of(s, d)
                    cmp_arrays(chk, "%s %s" % (nm, d), now, b["cent"], its, rooted(s, "init_west_east"), COPIED)
                    for a in ("eigen_vals", "flux", "gamma"):
                        chk.flag("%s %s.%s is old or copied" % (nm, d, a), not differ(chk, now[a], b[d][a]) or not differ(chk, now[a], b["cent"][a]),
                                 "array %s.%s holds something else" % (d, a), nm)
            nm = "%s%d clone" % (sysk, S)
            with chk.group(nm):
                s = fresh(chk, sysk, S)
                b = {d: all_of(s, d) for d in DIRS}
                c = s.w.cell(s.w.call(rooted(s, "state_clone"), [s.u]))
                got = {d: all_of(s, d, c) for d in DIRS}
                for d in DIRS:
                    for a in got[d]:
                        chk.flag("%s %s.%s" % (nm, d, a), not differ(chk, got[d][a], b[d][a]), "the clone differs in %s.%s" % (d, a), rooted(s, "state_clone"))
                s.w.symbolize(c, "x")
                chk.flag(nm + " is independent", all(not differ(chk, all_of(s, d)[a], b[d][a]) for d in DIRS for a in ARR), "the clone shares memory with its origin",
                         rooted(s, "state_clone"))
            # a new state
            nm = "%s%d new" % (sysk, S)
            with chk.group(nm):
                s = Sim(chk.F, sysk, "h", S)
                chk.watch(s.w)
                s.state("u", symbolic=False)
                want = s.w.get(s.cfg, s.ct, "physics_config.adiabatic_index")
                for d in DIRS:
                    now = all_of(s, d)
                    for a in ARR:
                        chk.flag("%s %s.%s is zero" % (nm, d, a), all(x == 0.0 for x in flat(now[a])), "not zero", rooted(s, "state_new"))
                        chk.flag("%s %s.%s has one entry per cell" % (nm, d, a), shape(now[a]) == ((S,) if a == "c_sound" else (s.Eq, S)), "shape %s" % (shape(now[a]),),
                                 rooted(s, "state_new"))
                    chk.same("%s %s.gamma" % (nm, d), now["gamma"][0], want, its, rooted(s, "state_new"))
                chk.flag(nm + " is_adiabatic", s.w.call(rooted(s, "is_adiabatic"), [s.u]) is ad, "is_adiabatic is wrong for %s" % SYS[sysk]["name"], "is_adiabatic")
            # accessors
            nm = "%s%d accessors" % (sysk, S)
            with chk.group(nm):
                s = Sim(chk.F, sysk, "h", S)
                chk.watch(s.w)
                s.state("u", symbolic=False)
                s.w.symbolize(s.u, "u", keep=lambda p: "zero_vec" in p)
                b = {d: all_of(s, d) for d in DIRS}
                c = b["cent"]
                zero = [0.0] * S
                want = [("rho_prim", c["prim"][0]), ("rho_cons", c["cons"][0]), ("xi_vel", c["prim"][1]), ("xi_mom", c["cons"][1]), ("eta_vel", zero), ("eta_mom", zero),
                        ("pressure", c["prim"][2] if ad else zero), ("energy", c["cons"][2] if ad else zero), ("eigen_min", c["eigen_vals"][0]),
                        ("eigen_max", c["eigen_vals"][s.Eq - 1])]
                got = s.w.call(rooted(s, "p_rows"), [s.w.at(s.u, s.ut, "cent")[0]])
                got = s.w.E.resolve(s.w.st, got)
                for (q, w), g in zip(want, got.fields):
                    g = s.w.elems(g)
                    chk.flag("%s %s has one entry per cell" % (nm, q), len(g) == S, "%d entries" % len(g), q)
                    for i in range(min(S, len(g))):
                        chk.same("%s %s[%d]" % (nm, q, i), g[i], w[i], its, q)
                for d in DIRS:
                    chk.flag("%s only look at %s" % (nm, d), all(not differ(chk, all_of(s, d)[a], b[d][a]) for a in b[d]), "an accessor modifies the state", nm)
            # derived quantities of one side
            for p, d in (("p", "cent"), ("u", "cent"), ("w", "west"), ("e", "east")):
                fn = "%s_update_derived" % p
                nm = "%s%d %s" % (sysk, S, fn)
                with chk.group(nm):
                    s = fresh(chk, sysk, S)
                    eu = Euler(ad, gamma(s))
                    make_consistent(s, d, eu, 0)
                    b = {x: snapshot(s, x) for x in DIRS}
                    s.w.call(rooted(s, fn), [s.w.at(s.u, s.ut, "cent")[0] if p == "p" else s.u])
                    want = closure(s, eu, b[d]["prim"], b[d]["c_sound"])
                    cmp_arrays(chk, nm, snapshot(s, d), want, its, rooted(s, fn), ("c_sound", "eigen_vals"))
                    frame(chk, s, nm, b, {(d, "c_sound"), (d, "eigen_vals")}, rooted(s, fn))
            # the full update of one side
            if S == 300 and not chk.thorough:
                continue
            west, east = BCS[sysk][1]
            for fn, d in (("w_vars_from_prim", "west"), ("e_vars_from_prim", "east"), ("w_vars_from_cons", "west"), ("e_vars_from_cons", "east")):
                nm = "%s%d %s west=%s east=%s" % (sysk, S, fn, west, east)
                with chk.group(nm):
                    s = Sim(chk.F, sysk, "h", S, west=west, east=east)
                    chk.watch(s.w)
                    s.mesh(), s.state("u"), s.rhs()
                    eu = Euler(ad, gamma(s))
                    xi = s.w.arr(s.m, s.mt, "xi_cent")
                    b = {x: snapshot(s, x) for x in DIRS}
                    s.w.call(s.mod + "::" + fn, [s.u, s.r, s.m])
                    src = b[d]["prim"] if fn.endswith("prim") else tr([eu.prim(col(b[d]["cons"], i)) for i in range(S)])
                    cmp_arrays(chk, nm, snapshot(s, d), derived(s, eu, src, b[d]["c_sound"], west, east, xi), its, s.mod + "::" + fn)
                    frame(chk, s, nm, b, {(d, x) for x in ("prim", "cons", "c_sound", "eigen_vals")}, s.mod + "::" + fn)
    return chk
