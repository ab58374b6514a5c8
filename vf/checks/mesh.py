"""C14 boundary conditions, C16 mesh."""
from fractions import Fraction

from .. import terms as T
from ..check import Check
from ..sampling import phys_interps
from ..setup import Sim, SYS, CBM
from ..spec import bc_apply, modes_of
from ..values import *
from .phys import flat


def c14():
    chk = Check("C14", "Value flow of the primitive array through the boundary objects built from a configuration: for every custom "
                "mode × equation × side (and plain no-gradients, multi-equation, repeated-equation and mixed two-sided lists) the four "
                "ghost cells of the treated equation carry the specified function of the adjacent interior cells and every other element "
                "keeps its own symbol.")
    lists = []
    for sysk in "ia":
        E = SYS[sysk]["E"]
        for j in range(E):
            for m in CBM:
                lists.append((sysk, [(j, m)], []))
                lists.append((sysk, [], [(j, m)]))
        lists.append((sysk, "NoGradients", []))
        lists.append((sysk, [], "NoGradients"))
        lists.append((sysk, "NoGradients", "NoGradients"))
        for k in range(len(CBM)):
            a = [CBM[(k + j) % len(CBM)] for j in range(E)]
            b = [CBM[(k + 3 + 2 * j) % len(CBM)] for j in range(E)]
            lists.append((sysk, a, b))
            lists.append((sysk, a, "NoGradients"))
            lists.append((sysk, "NoGradients", b))
        lists.append((sysk, [(1, "Extrapolate"), (0, "Reflecting"), (1, "NearZero")], [(0, "NoGradients"), (0, "Reflecting")]))
        if chk.thorough:
            for m in CBM:
                for n in CBM:
                    lists.append((sysk, [(E - 1, m), (0, n)], [(0, n), (E - 1, m), (1, n)]))
    big = {str(x) for x in [y for y in lists if len(y[1]) == len(y[2]) > 1 and "NoGradients" not in y[1:]][::1 if chk.thorough else 3]}
    for sysk, west, east in lists:
        for S in (8, 11) + ((300,) if str((sysk, west, east)) in big else ()):
            nm = "%s%d west=%s east=%s" % (sysk, S, west, east)
            with chk.group(nm):
                s = Sim(chk.F, sysk, "h", S, west=west, east=east)
                chk.watch(s.w)
                its = phys_interps(SYS[sysk]["ad"], chk.seed, 24)
                s.mesh()
                s.state("u")
                s.rhs()
                if S == 8:
                    # an unrelated earlier application: nothing the boundary object remembers may matter
                    s.w.symbolize(s.u, "p")
                    s.w.rehearse(s.r, lambda: s.w.call(s.mod + "::vars_from_prim", [s.u, s.r, s.m]))
                    s.w.symbolize(s.u, "u")
                xi = s.w.arr(s.m, s.mt, "xi_cent")
                prim = s.w.arr(s.u, s.ut, "cent.prim")
                other = {d: s.w.arr(s.u, s.ut, d + ".prim") for d in ("west", "east")}
                s.w.call(s.mod + "::vars_from_prim", [s.u, s.r, s.m])
                got = s.w.arr(s.u, s.ut, "cent.prim")
                want = bc_apply(prim, "west", modes_of(west, s.Eq), xi)
                want = bc_apply(want, "east", modes_of(east, s.Eq), xi)
                # Kepler modes need positive radii
                radii = all_pos(xi)
                for j in range(s.Eq):
                    for i in range(S):
                        ghost = i < 2 or i > S - 3
                        chk.same("%s prim[%d,%d]" % (nm, j, i), got[j][i], want[j][i], its, "BoundaryCondition::apply",
                                 under=radii if "Kepler" in nm and ghost else True, scale=1e-12)
                for d in other:
                    chk.flag("%s leaves %s face states alone" % (nm, d), s.w.arr(s.u, s.ut, d + ".prim") == other[d], "written", "apply")
    return chk


EXTENTS = ((1.0, 4.0), (1000.3, 1003.0), (1e6, 1e6 + 3.1), (-1e5, -1e5 + 0.7), (1e9, 1e9 + 300.7), (0.1, 0.9))


def rounded(ts, env, num):
    """terms evaluated operation by operation with the given kind of numbers (None: outside the four operations)"""
    memo = {}
    bop = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
           "min": min, "max": max, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b,
           "and": lambda a, b: a and b, "or": lambda a, b: a or b}

    def ev(t):
        if not isinstance(t, T.Term):
            return t if isinstance(t, (bool, int)) or t != t or t in (float("inf"), -float("inf")) else num(t)
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            kids = [y for y in x.args if isinstance(y, T.Term)] if x.op not in ("sym", "uf") else []
            todo = [y for y in kids if y.id not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            g = [memo[y.id] if isinstance(y, T.Term) else ev(y) for y in x.args] if x.op not in ("sym", "uf") else []
            r = None
            try:
                if x.op == "sym":
                    r = num(env[x.args[0]]) if x.args[0] in env else None
                elif any(y is None for y in g):
                    pass
                elif x.op in bop:
                    r = bop[x.op](*g)
                elif x.op in ("neg", "abs", "not", "i2f"):
                    r = {"neg": lambda a: -a, "abs": abs, "not": lambda a: not a, "i2f": num}[x.op](g[0])
                elif x.op == "ite":
                    r = g[1] if g[0] else g[2]
                elif x.op == "isfinite":
                    r = True if num is Fraction else g[0] == g[0] and abs(g[0]) != float("inf")
            except (ZeroDivisionError, OverflowError, TypeError, ValueError):
                r = None
            memo[x.id] = r
        return memo[t.id]
    return [ev(t) for t in ts]


def all_pos(xi):
    return T.conj([T.flt(0.0, x) for x in xi])


def c16():
    chk = Check("C16", "Value flow of every array and scalar of the constructed mesh as a function of xi_in and xi_out (S=8, S=11); "
                "equality with the uniform tiling; whole-program write analysis: every public entry point leaves every mesh field with its "
                "constructor value.")
    its = phys_interps(True, chk.seed)
    for S in (8, 11, 300):
        with chk.group("mesh S=%d" % S):
            s = Sim(chk.F, "a", "h", S)
            chk.watch(s.w)
            s.mesh()
            g = lambda n: s.w.get(s.m, s.mt, n)
            a = lambda n: s.w.arr(s.m, s.mt, n)
            xin, xout = T.fsym("cfg.mesh_config.xi_in"), T.fsym("cfg.mesh_config.xi_out")
            dxi = T.fdiv(T.fsub(xout, xin), float(S - 4))
            for n, v in (("n_comp", S - 4), ("n_gc", 2), ("n_all", S), ("imin", 0), ("imax", S - 1), ("ixi_in", 2), ("ixi_out", S - 3),
                         ("is_logarithmic", False), ("is_linear", True)):
                chk.same("S=%d %s" % (S, n), g(n), v, its, "Mesh::new")
            for n, v in (("xi_in", xin), ("xi_out", xout), ("dxi", dxi), ("deta", 1.0), ("dphi", 1.0)):
                chk.same("S=%d %s" % (S, n), g(n), v, its, "Mesh::new")
            west = lambda i: T.fadd(xin, T.fmul(float(i - 2), dxi))
            cent = lambda i: T.fadd(xin, T.fmul(i - 1.5, dxi))
            one, zero = (lambda i: 1.0), (lambda i: 0.0)
            inv = lambda f: (lambda i: T.fdiv(1.0, f(i)))
            east = lambda i: west(i + 1)
            w = lambda i: dxi
            spec = {"xi_cent": cent, "xi_west": west, "xi_east": east, "xi_cent_inv": inv(cent), "xi_west_inv": inv(west),
                    "xi_east_inv": inv(east), "sqrt_g": one, "line_xi": w, "line_xi_inv": inv(w), "d_area_xi_deta_dphi_west": one,
                    "d_area_xi_deta_dphi_east": one, "area_cell": lambda i: T.fmul(dxi, dxi), "area_west": one, "area_east": one,
                    "volume": w, "deta_dphi_d_volume": inv(w), "cell_width": w, "cell_width_inv": inv(w), "cexe": zero, "cpxp": zero,
                    "minus_cexe": zero, "minus_cpxp": zero}
            for k in ("xi", "eta", "phi"):
                for d in ("cent", "west", "east"):
                    spec["h_%s_%s" % (k, d)] = one
            for n, f in spec.items():
                v = a(n)
                chk.flag("S=%d %s has one entry per cell" % (S, n), len(v) == S, "length %d" % len(v), "Mesh::new")
                for i in range(min(S, len(v))):
                    chk.same("S=%d %s[%d]" % (S, n, i), v[i], f(i), its, "Mesh::new", scale=1e-3 if n.startswith(("xi", "c", "m")) else 1e-6)
            for n in ("cxex", "cpep", "cxpx", "cepe"):
                v, m = a(n), a("minus_" + n)
                for i in range(S):
                    chk.same("S=%d minus_%s[%d] = -%s" % (S, n, n == n and i, n), m[i], T.fneg(v[i]) if isinstance(v[i], T.Term) else -v[i], its, "Mesh::new")
            # every position is computed to working precision, whatever the number of cells before it
            bad = None
            for n in ("xi_west", "xi_cent", "xi_east"):
                v = a(n)
                for lo, hi in EXTENTS if S != 11 else ():
                    env = {xin.args[0]: lo, xout.args[0]: hi}
                    fl, ex = rounded(v, env, float), rounded(v, env, Fraction)
                    for i in range(S):
                        if fl[i] is not None and ex[i] is not None and not abs(Fraction(fl[i]) - ex[i]) <= Fraction(8 * 2.0 ** -52 * (abs(lo) + abs(hi))):
                            bad = bad or "%s[%d] is %r for a domain [%r, %r], %.3g beside the exact value of the same expression" % (
                                n, i, fl[i], lo, hi, float(abs(Fraction(fl[i]) - ex[i])))
                        chk.extra["rounding_errors_bounded"] = chk.extra.get("rounding_errors_bounded", 0) + (ex[i] is not None)
            chk.flag("S=%d cell positions lose no digits" % S, not bad, bad, "Mesh::new", "rounding-error")
            # neighbouring faces meet exactly
            e, ww = a("xi_east"), a("xi_west")
            for i in range(S - 1):
                chk.same("S=%d face %d" % (S, i), e[i], ww[i + 1], its, "Mesh::new")
            chk.same("S=%d first interior face is xi_in" % S, ww[2], xin, its, "Mesh::new")
            chk.same("S=%d last interior face is xi_out" % S, e[S - 3], xout, its, "Mesh::new")
    # never written after construction: every field keeps its value across the operations that can reach the mesh
    from . import run as rn
    from .time import Step, BCS
    for sysk, sch, S in (("a", "h", 8), ("i", "k", 8), ("a", "k", 11)):
        with chk.group("%s%d%s run" % (sysk, S, sch)):
            outs = [("Stdout", "CSV", "Scalar", ("T",)), ("File", "CSV", "Vector", ("XiCent", "XiWest"))]
            r = rn.Run(chk, sysk, sch, S, outs)
            now = fields(r.s, r.s.w.E.project_el(r.sim, ("f", 2), r.s.w.st))
            ref = Sim(chk.F, sysk, sch, S, outs=outs)
            ref.mesh()
            frozen(chk, "%s%d%s init_corries and run_corries" % (sysk, S, sch), fields(ref, ref.m), now)
        with chk.group("%s%d%s step" % (sysk, S, sch)):
            s = Sim(chk.F, sysk, sch, S, rk="RK2", **dict(zip(("west", "east"), BCS[sysk][1])))
            chk.watch(s.w)
            s.mesh(), s.state("u"), s.solver()
            before = fields(s, s.m)
            s.w.call(s.mod + "::solver_next", [s.so, s.u, s.m])
            frozen(chk, "%s%d%s next_solution" % (sysk, S, sch), before, fields(s, s.m))
    return chk


def fields(s, m):
    out = {}
    for path, v in s.w.leaves(s.w.E.load(s.w.st, m), (), s.w.st):
        out[".".join(map(str, path))] = flat(s.w.elems(v)) if isinstance(v, Arr) else [v if T.is_scalar(v) else str(v)]
    return out


def frozen(chk, nm, before, now):
    for k in sorted(set(before) | set(now)):
        chk.flag("%s: mesh field %s is not written" % (nm, k), before.get(k) == now.get(k), "%s -> %s" % (str(before.get(k))[:200], str(now.get(k))[:200]), nm)
