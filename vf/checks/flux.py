"""C06 HLL, C07 Kurganov-Tadmor, C08 limiters, C09 conservation."""
from .. import terms as T
from ..check import Check
from ..euler import Euler, col
from ..sampling import phys_interps
from ..setup import Sim, SYS, LIMS
from ..values import *
from .phys import gamma, put_col, snapshot, closure, tr, flat

add, sub, mul, div = T.fadd, T.fsub, T.fmul, T.fdiv
mx = lambda a, b: T.fmax(a, b)
mn = lambda a, b: T.fmin(a, b)
ab = lambda a: T.funary("abs", a)


AGAIN = {False: "", True: " evaluated again"}


def setup(chk, system, scheme, S, lim="MinMod", prior=False):
    """flux scheme and state: cell-centre primitives and sound speeds free, everything that follows from them
    consistent, face states, flux arrays, scheme buffers and the result array arbitrary"""
    s = Sim(chk.F, system, scheme, S, lim=lim)
    chk.watch(s.w)
    s.mesh(), s.state("u"), s.numflux()
    geometry = ("dist_west", "dist_east")
    zero = {tuple(p) for p, v in s.w.leaves(s.w.E.load(s.w.st, s.n), (), s.w.st) if not (p[-1] in geometry or not_zero(s, p))}
    s.w.symbolize(s.n, "scheme", keep=lambda p: tuple(p) not in zero)
    if prior:
        # an evaluation for an unrelated state, so that nothing the scheme remembers has its initial value
        d0 = s.w.cell(s.w.E.newarr(s.w.st, (s.Eq, S), [0.0] * (s.Eq * S)))
        s.w.symbolize(s.u, "p")
        s.w.rehearse(s.n, lambda: s.w.call(s.mod + "::calc_dflux_dxi", [s.n, d0, s.u, s.m]))
        s.w.symbolize(s.u, "u")
        s.w.symbolize(s.n, "scheme", keep=lambda p: tuple(p) not in zero)
    eu = Euler(SYS[system]["ad"], gamma(s))
    p = s.w.arr(s.u, s.ut, "cent.prim")
    c = closure(s, eu, p, s.w.arr(s.u, s.ut, "cent.c_sound"))
    put_col(s, "cent", "cons", lambda ix: c["cons"][ix[0]][ix[1]])
    put_col(s, "cent", "c_sound", lambda ix: c["c_sound"][ix[0]])
    put_col(s, "cent", "eigen_vals", lambda ix: c["eigen_vals"][ix[0]][ix[1]])
    s.eu = eu
    s.before = {d: snapshot(s, d) for d in ("cent", "west", "east")}
    s.E = s.Eq
    s.d = s.w.cell(s.w.E.newarr(s.w.st, (s.Eq, S), [T.fsym("d[%d,%d]" % (j, i)) for j in range(s.Eq) for i in range(S)]))
    return s


def not_zero(s, path):
    """scheme arrays that the constructor computed from the mesh are constants of the scheme; buffers start as zeros"""
    a = s.w.get(s.n, s.nt, ".".join(path))
    if not isinstance(a, Arr):
        return True
    return any(x != 0.0 for x in flat(s.w.elems(a)))


def run(s):
    s.r = s.w.call(s.mod + "::calc_dflux_dxi", [s.n, s.d, s.u, s.m])
    s.ok = T.NOT(s.w.ok(s.r)[0])
    return s.w.elems(s.w.E.load(s.w.st, s.d))


def hll_flux(s, i):
    """documented flux through the face between cells i and i+1"""
    b, S = s.before["cent"], s.S
    pl, pr = col(b["prim"], i), col(b["prim"], i + 1)
    cl, cr = b["c_sound"][i], b["c_sound"][i + 1]
    el, er = s.eu.eig(pl, cl), s.eu.eig(pr, cr)
    bp = mx(0.0, mx(el[-1], er[-1]))
    bm = mn(0.0, mn(el[0], er[0]))
    fl, fr = s.eu.flux(pl, cl), s.eu.flux(pr, cr)
    ul, ur = s.eu.cons(pl), s.eu.cons(pr)
    return [div(add(sub(mul(bp, fl[j]), mul(bm, fr[j])), mul(mul(bp, bm), sub(ur[j], ul[j]))), sub(bp, bm)) for j in range(s.E)]


def sgn(a):
    return T.ITE(T.flt(0.0, a), 1.0, -1.0)


def limiter(lim, a, b, c, theta):
    both = T.OR(T.AND(T.flt(0.0, a), T.flt(0.0, b)), T.AND(T.flt(a, 0.0), T.flt(b, 0.0)))
    if lim == "NoLimiter":
        return mul(0.5, add(a, b))
    if lim == "MinMod":
        return T.ITE(both, mul(sgn(a), mn(ab(a), ab(b))), 0.0)
    if lim == "Superbee":
        return T.ITE(both, mul(sgn(a), mn(mn(ab(a), ab(b)), mul(0.5, mx(ab(a), ab(b))))), 0.0)
    if lim == "Monocent":
        return T.ITE(both, mul(sgn(a), mn(ab(mul(theta, a)), mn(ab(mul(theta, b)), ab(c)))), 0.0)
    den = add(ab(a), ab(b))
    return T.ITE(T.flt(0.0, den), div(add(mul(a, ab(b)), mul(b, ab(a))), den), 0.0)


def slope(s, lim, j, i):
    """limited difference per cell width, times the cell width"""
    u = s.before["cent"]["cons"][j]
    return limiter(lim, sub(u[i], u[i - 1]), sub(u[i + 1], u[i]), mul(0.5, sub(u[i + 1], u[i - 1])),
                   T.fsym("cfg.numerics_config.numflux_config.limiter_mode.0"))


def kt_faces(s, lim):
    """documented face states of cells 1..S-2: {(side, i): [cons]}"""
    r = {}
    for i in range(1, s.S - 1):
        u = col(s.before["cent"]["cons"], i)
        sl = [slope(s, lim, j, i) for j in range(s.E)]
        r["west", i] = [sub(u[j], mul(0.5, sl[j])) for j in range(s.E)]
        r["east", i] = [add(u[j], mul(0.5, sl[j])) for j in range(s.E)]
    return r


def kt_flux(s, faces, i):
    eu = s.eu
    out = []
    for side, k in (("east", i), ("west", i + 1)):
        u = faces[side, k]
        p = eu.prim(u)
        c = eu.csound(p, s.before[side]["c_sound"][k])
        out.append((u, eu.eig(p, c), eu.flux(p, c)))
    (ue, ee, fe), (uw, ew, fw) = out
    ap, am = mx(0.0, mx(ew[-1], ee[-1])), mn(0.0, mn(ew[0], ee[0]))
    return [div(add(sub(mul(ap, fe[j]), mul(am, fw[j])), mul(mul(ap, am), sub(uw[j], ue[j]))), sub(ap, am)) for j in range(s.E)]


def compare_rhs(chk, s, nm, got, fluxes, its, where, scale=1e-3):
    dxi = s.w.get(s.m, s.mt, "dxi")
    S = s.S
    f = {i: fluxes(i) for i in range(1, S - 2)}
    for j in range(s.E):
        for i in range(S):
            if 2 <= i <= S - 3:
                # area over volume: unit faces of cells with width dxi
                want = div(sub(f[i][j], f[i - 1][j]), dxi)
                chk.same("%s rhs[%d,%d]" % (nm, j, i), got[j][i], want, its, where, under=s.ok, scale=scale)
            else:
                ghost(chk, nm, got, j, i, where)


def ghost(chk, nm, got, j, i, where):
    g = got[j][i]
    chk.flag("%s ghost cell rhs[%d,%d] untouched" % (nm, j, i), g == 0.0 or (isinstance(g, T.Term) and g.op == "sym" and g.args[0] == "d[%d,%d]" % (j, i)),
             "ghost cell receives %s" % str(g)[:200], where)


def its_of(chk, system, K=48, S=8):
    return phys_interps(SYS[system]["ad"], chk.seed, K if S < 99 else 6)


def c06():
    chk = Check("C06", "Value flow of every element of the right-hand side computed by the HLL scheme, as a function of the cell-centre "
                "primitives and sound speeds of all cells, with every scratch buffer, stale flux array and the result array arbitrary; equal "
                "to the documented HLL difference in interior cells, ghost cells untouched.")
    for sysk in "ia":
        for S, prior in (8, False), (11, False), (8, True), (300, False):
            nm = "%s%d Hll%s" % (sysk, S, AGAIN[prior])
            with chk.group(nm):
                s = setup(chk, sysk, "h", S, prior=prior)
                got = run(s)
                compare_rhs(chk, s, nm, got, lambda i: hll_flux(s, i), its_of(chk, sysk, S=S), "Hll::calc_dflux_dxi")
                keep(chk, s, nm)
    return chk


def keep(chk, s, nm):
    """the scheme reads the cell-centre variables, it does not change the conserved or primitive ones"""
    now = snapshot(s, "cent")
    for a in ("prim", "cons", "c_sound"):
        ok = all(chk.compare(x, y, its_of(chk, s.sysk, 16, s.S), under=s.ok)[0] != "differ" for x, y in zip(flat(now[a]), flat(s.before["cent"][a])))
        chk.flag("%s leaves cent.%s as it is" % (nm, a), ok, "cell centre %s changed by the flux scheme" % a, "calc_dflux_dxi")


def c07():
    chk = Check("C07", "Value flow of every element of the right-hand side computed by the Kurganov-Tadmor scheme (all limiters), with stale "
                "face states, scratch buffers and result array arbitrary; equal to the documented central-upwind difference of the limited "
                "linear reconstruction, ghost cells untouched.")
    for sysk in "ia":
        for S, prior in (8, False), (11, False), (8, True), (300, False):
            for lim in LIMS if S < 99 and (not prior or chk.thorough) else LIMS[1:2]:
                nm = "%s%d Kt %s%s" % (sysk, S, lim, AGAIN[prior])
                with chk.group(nm):
                    s = setup(chk, sysk, "k", S, lim, prior)
                    got = run(s)
                    fc = kt_faces(s, lim)
                    compare_rhs(chk, s, nm, got, lambda i: kt_flux(s, fc, i), its_of(chk, sysk, S=S), "Kt::calc_dflux_dxi")
                    keep(chk, s, nm)
    return chk


def c08():
    chk = Check("C08", "Value flow from the cell averages to the reconstructed face states of every cell and equation, per configured limiter "
                "(gated sign cases included); equal to average ± half the documented limiter function; random-interpretation points "
                "include ties, zeros and opposite signs.")
    for sysk in "ia":
        for S, prior in (8, False), (11, False), (8, True), (300, False):
            for lim in LIMS if S < 99 and (not prior or chk.thorough) else ["Monocent"]:
                nm = "%s%d %s%s" % (sysk, S, lim, AGAIN[prior])
                with chk.group(nm):
                    s = setup(chk, sysk, "k", S, lim, prior)
                    run(s)
                    fc = kt_faces(s, lim)
                    got = {d: s.w.arr(s.u, s.ut, d + ".cons") for d in ("west", "east")}
                    its = its_of(chk, sysk, 96, S)
                    for i in range(1, s.S - 1):
                        for d in ("west", "east"):
                            for j in range(s.E):
                                chk.same("%s %s face state[%d,%d]" % (nm, d, j, i), got[d][j][i], fc[d, i][j], its, "Kt::reconstruct", scale=1e-3)
    return chk


def c09():
    chk = Check("C09", "Volume-weighted sum of the right-hand side over the interior cells, as a value-flow term, does not depend on the "
                "interior: it equals last interface flux minus first interface flux, where the two are isolated by evaluating the same "
                "terms with all other cells replaced; ghost cells receive nothing. Both schemes, all limiters, S=8 and S=11.")
    for sysk in "ia":
        for sch, S, lim, prior in [("h", 8, "MinMod", False), ("h", 11, "MinMod", False), ("h", 300, "MinMod", False), ("k", 300, "VanLeer", False)] + [("k", 8, l, False) for l in LIMS] + [
                ("k", 11, l, False) for l in LIMS] + [("h", 8, "MinMod", True), ("k", 8, "MinMod", True)]:
            nm = "%s%d%s %s%s" % (sysk, S, sch, lim if sch == "k" else "", AGAIN[prior])
            with chk.group(nm):
                s = setup(chk, sysk, sch, S, lim, prior)
                got = run(s)
                vol = s.w.arr(s.m, s.mt, "volume")
                reach = 1 if sch == "h" else 2       # cells on each side of a face that its flux may read
                tot = []
                for j in range(s.E):
                    for i in list(range(2)) + [S - 2, S - 1]:
                        ghost(chk, nm, got, j, i, "calc_dflux_dxi")
                    acc = 0.0
                    for i in range(2, S - 2):
                        acc = add(acc, mul(vol[i], got[j][i]))
                    tot.append(acc)
                # telescoping: cells that neither boundary flux reads have no influence on the total
                lo, hi = set(range(2 - reach, 2 + reach)), set(range(S - 2 - reach, S - 2 + reach))
                inner = [i for i in range(S) if i not in lo | hi]
                base = phys_interps(SYS[sysk]["ad"], chk.seed, 64 if S < 99 else 6, modes=(("smooth", 0.3), ("smooth", 1.0), ("grid", 0.5)))
                for j in range(s.E):
                    totals(chk, "%s eq %d" % (nm, j), tot[j], base, inner, sorted(lo), sorted(hi), s)
    return chk


def shifted(it, cells):
    """interpretation that agrees with `it` except in the symbols of the given cells"""
    import re
    from ..sampling import Phys
    base = it.sampler
    rx = re.compile(r"^u\..*[\[,](\d+)\]$")
    other = T.Interp(base, it.K, it.seed + 7919)

    def samp(name, sort, me):
        m = rx.match(name)
        if m and int(m.group(1)) in cells:
            return other.symbol(name, sort)
        return it.symbol(name, sort)
    return T.Interp(samp, it.K, it.seed)


def totals(chk, nm, t, base, inner, lo, hi, s):
    """t does not depend on the inner cells and is (function of the west cells) + (function of the east cells)"""
    import numpy as np
    live = [0, 0]
    with np.errstate(all="ignore"):
        for it in base:
            aw, ae, both = shifted(it, hi), shifted(it, lo), shifted(it, lo + hi)
            alt = shifted(it, inner)
            a, b = it(t), alt(t)
            m = it(s.ok).astype(bool) & alt(s.ok).astype(bool) & np.isfinite(a) & np.isfinite(b)
            live[0] += int(m.sum())
            if bad(chk, "%s: total independent of cells %s" % (nm, inner), a, b, m):
                return
            v = [x(t) for x in (it, aw, ae, both)]
            m = np.logical_and.reduce([np.isfinite(x) for x in v] + [x(s.ok).astype(bool) for x in (it, aw, ae, both)])
            live[1] += int(m.sum())
            if bad(chk, "%s: total = east face flux - west face flux" % nm, v[0] + v[3], v[1] + v[2], m):
                return
    for k, n in enumerate(("total independent of cells %s" % inner, "total = east face flux - west face flux")):
        if live[k] < 4:
            chk.undecide("%s: %s" % (nm, n), "too few defined interpretations")
        else:
            chk.proved("%s: %s" % (nm, n), "random-interpretation")


def bad(chk, name, a, b, m):
    import numpy as np
    x = m & ~T.close(a, b, 1e-9, 1e-3)
    if x.any():
        i = int(np.argmax(x))
        chk.violate(name, "the sum over the interior changes with values that no boundary flux reads: %s vs %s" % (a[i], b[i]), "calc_dflux_dxi")
    return x.any()
