"""Guard-directed interpretations.

Random interpretation only exercises the branches that its samples reach.  For every comparison inside two terms that are to
be equal, this module looks at the truth values the samples gave it; a comparison that never took one of its two values is
driven there by changing one input symbol (scaling it, or solving the comparison for it), inside the domain of that symbol.
The two terms are then compared at the new point.  Agreement is judged with a running error bound, because the new point may
be badly conditioned.
"""
import os, re, sys, time
import numpy as np
from . import terms as T
from .terms import Term, LD, Interp

LEAF = ("lt", "le", "eq", "isfinite", "isnan", "signneg", "ilt", "ile", "ieq")
EPS = LD(2) ** -63

FREE = re.compile(r"(\.(prim|cons)\[1,|\.flux\[|dflux|^k\d+\[|rhs\[|^x\[|^g\[)")
POS = re.compile(r"(\.(prim|cons)\[0,|\.prim\[2,|c_sound|(^|[._])dt($|[._])|dt_max|dt_min|cfl|tolerance|friction|xi_(in|out)$|time\.t$|\.t$|mesh\.|m\.)")
ENERGY = re.compile(r"^(.*)\.cons\[2,(\d+)\]$")
GAMMA = re.compile(r"adiabatic_index$|\.gamma$")
INTS = re.compile(r"(^|\.)iter$|^later$|output_counter$|^n\d*$")


def atoms(ts):
    out = []
    for x in T.subterms(ts):
        if x.op in LEAF:
            out.append((x, x))
        elif x.op in ("min", "max"):
            a, b = x.args
            for p, q in ((a, b), (b, a)):
                g = T.flt(p, q)
                if isinstance(g, Term):
                    out.append((g, x))
        elif x.op == "abs":
            g = T.flt(x.args[0], 0.0)
            if isinstance(g, Term):
                out.append((g, x))
        elif x.op in ("imin", "imax"):
            g = T.ibin("ilt", x.args[0], x.args[1])
            if isinstance(g, Term):
                out.append((g, x))
    seen, res = set(), []
    pseudo = {g.id for g, x in out if g is not x} - {g.id for g, x in out if g is x}
    for g, x in out:
        if g.id not in seen:
            seen.add(g.id)
            res.append(g)
    return res


# exponents under a change of the velocity scale and of the density scale
SCALING = [(re.compile(r"\.prim\[0,|\.cons\[0,"), (0, 1)), (re.compile(r"\.prim\[1,|c_sound|eigen_vals"), (1, 0)),
           (re.compile(r"\.cons\[1,|\.flux\[0,"), (1, 1)), (re.compile(r"\.prim\[2,|\.cons\[2,|\.flux\[1,"), (2, 1)),
           (re.compile(r"\.flux\[2,"), (3, 1)), (re.compile(r"(^|[._])dt($|[._])"), (-1, 0))]


def nonneg(x):
    if not isinstance(x, Term):
        return x >= 0
    return x.op in ("abs", "sqrt") or (x.op == "max" and any(nonneg(a) for a in x.args)) or \
        (x.op == "mul" and x.args[0] is x.args[1]) or (x.op == "min" and all(nonneg(a) for a in x.args))


def impossible(a, want):
    """comparisons whose value follows from their form"""
    if a.op == "lt" and want and not isinstance(a.args[1], Term) and a.args[1] <= 0 and nonneg(a.args[0]):
        return True
    if a.op == "le" and not want and not isinstance(a.args[0], Term) and a.args[0] <= 0 and nonneg(a.args[1]):
        return True
    return False


def _scale(a, d):
    def f(name, v, it):
        for rx, q in SCALING:
            if rx.search(name):
                return v * LD(10) ** (a * q[d]) if q[d] else None
    return f


def _collapse(k):
    def f(name, v, it):
        m = re.match(r"^(.*[\[,])(\d+)\]$", name)
        if m and m.group(2) != "2" and re.search(r"\.(prim|cons|flux|eigen_vals)\[\d+,$|c_sound\[$", m.group(1)):
            w = it.base(T.fsym(m.group(1) + "2]"))
            return w + (v - w) * (LD(10) ** -k if k else LD(0))
    return f


def _rest(x):
    return lambda name, v, it: v * LD(x) if re.search(r"\.(prim|cons)\[1,", name) else None


def _ramp(k):
    def f(name, v, it):
        m = re.search(r"\.(prim|cons)\[\d+,(\d+)\]$|c_sound\[(\d+)\]$", name)
        if m:
            return v * LD(10) ** (k * (int(m.group(2) or m.group(3)) - 3))
    return f


def _all(a):
    return lambda name, v, it: v * LD(10) ** a if (FREE.search(name) or POS.search(name)) else None


def _ints(k):
    def f(name, v, it):
        if re.search(r"(^|\.)iter$", name):
            return v + 10 ** k
        if name.endswith("iter_max"):
            return v + 2 * 10 ** k
    f.ints = True
    return f


def _one(rx, a):
    rx = re.compile(rx)
    return lambda name, v, it: v * LD(10) ** a if rx.search(name) else None


MOVES = [("%s scale 1e%d" % (("velocity", "density")[d], a), _scale(a, d)) for a in (2, -2, 4, -4, 6, -6, 8, 12, -12) for d in (0, 1)] + \
    [("uniform up to 1e-%d" % k, _collapse(k)) for k in (0, 3, 7, 10)] + \
    [("velocity times %g" % x, _rest(x)) for x in (0.0, 1e-9, -1.0, 30.0)] + \
    [("ramp %d" % k, _ramp(k)) for k in (1, 3)] + \
    [("everything times 1e%d" % a, _all(a)) for a in (3, -3, 8, -8)] + \
    [("small steps", _one(r"(dt_cfl_param|dt_max)$", -5)), ("smaller steps", _one(r"(dt_cfl_param|dt_max)$", -9)),
     ("loose tolerance", _one(r"tolerance$", 6)), ("tight tolerance", _one(r"tolerance$", -9)),
     ("late", _one(r"\.(t|t_end|t_next_output)$", 6))] + \
    [("many iterations 1e%d" % k, _ints(k)) for k in (3, 5, 7)]


class Sub(Interp):
    """a few columns of another interpretation"""

    def __init__(self, base, idx):
        Interp.__init__(self, base.sampler, len(idx), base.seed, base.fixed, base.ufs)
        self.base, self.idx = base, idx
        self.fixed = {n: (np.asarray(v)[idx] if np.ndim(v) else v) for n, v in base.fixed.items()}
        self.symdeps = base.symdeps

    def __call__(self, t):
        if isinstance(t, Term):
            if t.id not in self.memo:
                self.memo[t.id] = self.base(t)[self.idx]
            return self.memo[t.id]
        return Interp.__call__(self, t)


class Moved(Interp):
    def __init__(self, d, base, name, f):
        Interp.__init__(self, base.sampler, base.K, base.seed, base.fixed, base.ufs)
        self.d, self.base, self.f, self.mname = d, base, f, name
        self.sym = {"all cells: " + name: None}
        self.sort = {}

    def symbol(self, name, sort):
        if sort == ("i" if hasattr(self.f, "ints") else "f") and name not in self.fixed:
            if sort == "i":
                v = self.f(name, self.base(T.isym(name)), self)
                return self.base(T.isym(name)) if v is None else v
            v = self.f(name, self.base(T.fsym(name)), self)
            if v is not None:
                return np.asarray(v, LD)
        v = Interp.symbol(self, name, sort)
        return v

    def domain(self, syms):
        m = np.ones(self.K, bool)
        for s in syms:
            n = s.args[0]
            if n in self.fixed:
                continue
            self.sort[n] = "f"
            m &= self.d.in_domain(n, self, self.base)
        return m


class ErrBound:
    """running error of a term in units of the working precision"""

    def __init__(self, it):
        self.it, self.memo = it, {}

    def const(self, c):
        K = self.it.K
        if isinstance(c, bool) or isinstance(c, int):
            return np.zeros(K, LD)
        short = abs(c) < 1e18 and float(c * 1048576.0).is_integer()
        return np.full(K, LD(0) if short else abs(LD(c)) * 4096)

    def v(self, y):
        return self.memo[y.id] if isinstance(y, Term) else self.const(y)

    def __call__(self, t):
        if not isinstance(t, Term):
            return self.const(t)
        st = [t]
        with np.errstate(all="ignore"):
            while st:
                x = st[-1]
                if x.id in self.memo:
                    st.pop()
                    continue
                args = x.args[2] if x.op == "uf" else x.args
                todo = [] if x.op == "sym" else [y for y in args if isinstance(y, Term) and y.id not in self.memo]
                if todo:
                    st.extend(todo)
                    continue
                self.memo[x.id] = self.step(x, args)
                st.pop()
        return self.memo[t.id]

    def step(self, x, args):
        it = self.it
        z = np.zeros(it.K, LD)
        if x.sort != "f" or x.op == "sym":
            return z
        val = lambda y: np.abs(np.asarray(it(y), dtype=LD))
        r = val(x)
        o = x.op
        if o in ("add", "sub"):
            return self.v(args[0]) + self.v(args[1]) + r
        if o == "mul":
            return val(args[0]) * self.v(args[1]) + val(args[1]) * self.v(args[0]) + self.v(args[0]) * self.v(args[1]) * EPS * 256 + r
        if o == "div":
            b = val(args[1])
            return (self.v(args[0]) + r * self.v(args[1])) / b + r
        if o in ("neg", "abs", "min", "max"):
            return np.maximum.reduce([self.v(a) for a in args])
        if o == "ite":
            return np.where(it(args[0]).astype(bool), self.v(args[1]), self.v(args[2]))
        if o == "sqrt":
            return self.v(args[0]) / (2 * r) + r
        if o == "exp":
            return r * self.v(args[0]) + r
        if o == "ln":
            return self.v(args[0]) / val(args[0]) + r
        if o == "i2f":
            return z
        if o == "uf" and not it.ufs and args and all(isinstance(a, (Term, bool, int, float)) for a in args):
            _, c1, c2 = T.uf_coefficients(x.args[0], x.args[1], len(args))
            tot = r
            for n, a in enumerate(args):
                v, e = val(a), self.v(a)
                tot = tot + (c1[n] + 2 * c2[n] * v) * e + (c1[n] + c2[n] * v) * v
            return tot
        fl = [self.v(a) / np.maximum(val(a), LD(1e-300)) for a in args if T.is_float(a)]
        rel = sum(fl, z)
        return r * (1 + 64 * rel)


def robust(it, ts):
    """columns in which no comparison inside the terms is decided by rounding"""
    eb = ErrBound(it)
    ok = np.ones(it.K, bool)
    with np.errstate(all="ignore"):
        for x in T.subterms([t for t in ts if isinstance(t, Term)]):
            if x.op in ("lt", "le", "eq") and T.is_float(x.args[0]):
                a, b = it(x.args[0]), it(x.args[1])
                d = np.abs(np.asarray(a, LD) - np.asarray(b, LD))
                e = (eb(x.args[0]) + eb(x.args[1])) * EPS * 256
                free = x.op == "eq" and lone(x)  # an input that is equal to a computed value
                ok &= (d > e) | (a == b) & (e == 0) | (free and (a == b)) | ~np.isfinite(d)
    return ok


def lone(x):
    """an equality of a symbol with a value that does not depend on it"""
    for s, y in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
        if isinstance(s, Term) and s.op == "sym" and not any(z is s for z in T.subterms([y] if isinstance(y, Term) else [])):
            return True
    return False


def agree(it, got, want, g, w, tol, scale):
    ok = T.close(g, w, tol, scale)
    if ok.all() or g.dtype == bool:
        return ok
    eb = ErrBound(it)
    with np.errstate(all="ignore"):
        b = (eb(got) + eb(want)) * EPS * 256
        d = np.abs(np.asarray(g, LD) - np.asarray(w, LD))
        return ok | (d <= b) | ~np.isfinite(b)


class Directed:
    def __init__(self, budget=25.0):
        self.budget, self.used, self.end = budget, 0.0, None
        self.cache = {}
        self.flipped, self.stuck = 0, set()
        self.cov = {}
        self.subs = {}
        self.mv, self.bnd, self.dead = {}, set(), set()
        self.own = False
        self.lits = {}

    def over(self):
        return time.time() > self.end

    def given(self, under, t):
        """t with the conditions that `under` settles replaced by their values"""
        k = under.id
        if k not in self.lits:
            self.lits[k] = (T.literals(under), {})
        try:
            return T.subst(t, *self.lits[k])
        except (OverflowError, ZeroDivisionError, RecursionError):
            return t

    # -- the domain of one symbol
    def frozen(self, name, sort, base):
        s = base.sampler
        if name in base.fixed:
            return True
        if sort == "i":
            return not INTS.search(name)
        if sort == "b":
            return True
        if GAMMA.search(name) or ENERGY.match(name):
            return False
        if FREE.search(name) or POS.search(name):
            return False
        return True

    def in_domain(self, name, it, base):
        if it.sort.get(name) != "f":
            return np.asarray(it(it.sym[name]) >= 0).astype(bool)
        y = T.fsym(name)
        x, x0 = it(y), base(y)
        ok = np.isfinite(x) & (np.abs(x) < 1e150)
        if GAMMA.search(name):
            return ok & (x > 1) & (x < 8)
        m = ENERGY.match(name)
        if m:
            rho = it(T.fsym("%s.cons[0,%s]" % m.groups()))
            mom = it(T.fsym("%s.cons[1,%s]" % m.groups()))
            return ok & (x > LD(0.5) * mom * mom / rho)
        if FREE.search(name):
            return ok
        ok &= (np.sign(x) == np.sign(x0)) & (np.abs(x) > 1e-150)
        ok &= np.abs(x) < np.abs(x0) * LD(1e40)
        if name.endswith(("xi_out", "xi_in")):
            stem = name[:name.rindex("xi_")]
            lo, hi = it(T.fsym(stem + "xi_in")), it(T.fsym(stem + "xi_out"))
            ok &= hi - lo > LD(1e-6) * np.maximum(np.abs(lo), np.abs(hi))
        return ok

    def make(self, base, sym, vec):
        return self.make_all(base, [(sym, vec)])

    def make_all(self, base, pairs):
        for s, _ in pairs:
            base(s)
        it = T.Delta(base, {s.args[0]: v for s, v in pairs})
        it.sym = {s.args[0]: s for s, _ in pairs}
        it.sort = {s.args[0]: s.sort for s, _ in pairs}
        return it

    def candidates(self, atom, sym, base):
        name = sym.args[0]
        x = base(sym)
        if sym.sort == "i":
            cs = {0, 1, 2}
            for y in T.subterms([atom]):
                for a in (y.args if y.op not in ("sym", "uf") else ()):
                    if isinstance(a, int) and not isinstance(a, bool) and abs(a) < 2 ** 64:
                        cs |= {a - 1, a, a + 1, 2 * a}
            cs |= {10 ** k for k in (2, 3, 4, 6)}
            pool = sorted(c for c in cs if 0 <= c < 2 ** 64)
            r = T._rng("ints", base.seed, name)
            vec = [pool[int(i)] for i in r.integers(0, len(pool), base.K)]
            big = np.exp(r.uniform(0, np.log(1e7), base.K)).astype(int)
            yield np.array([int(b) if n % 2 else v for n, (v, b) in enumerate(zip(vec, big))], dtype=object)
            for c in pool:
                yield np.full(base.K, c, dtype=object)
            return
        if atom.op == "eq" and lone(atom) and sym in atom.args:
            yield base(atom.args[1] if atom.args[0] is sym else atom.args[0])
        if atom.op in ("lt", "le", "eq") and T.is_float(atom.args[0]):
            inner = next((y.args[0] for y in atom.args if isinstance(y, Term) and y.op == "abs"), None)
            if isinstance(inner, Term) and atom.op != "eq":
                other = atom.args[1] if isinstance(atom.args[0], Term) and atom.args[0].op == "abs" else atom.args[0]
                for f in (0.5, -0.9, 0.0):
                    yield self.root(T.flt(inner, T.fmul(f, other)), sym, base)
            x1 = self.root(atom, sym, base)
            for f in (0.99, 1.01, 1.0, 0.5, 2.0):
                yield x1 * LD(f)
            yield x1 - LD(0.01)
            yield x1 + LD(0.01)
        for k in (3, -3, 6, -6, 9, -9, 12, -12, 16, -16, 24, -24, 40, -40):
            yield x * LD(10) ** k
        if FREE.search(name):
            yield np.zeros(base.K, LD)
            yield -x
        for y in T.subterms([atom]):
            if y.op == "sym" and y.sort == "f" and y is not sym:
                yield base(y)

    def drive(self, atom, want, base):
        """interpretation in which `atom` has the value `want`"""
        k = (atom.id, want, id(base))
        if k in self.cache:
            return self.cache[k]
        r = None
        end = min(self.end, time.time() + max(0.5, self.budget / 8))
        if impossible(atom, want):
            self.cache[k] = None
            return None
        syms = [y for y in T.subterms([atom]) if y.op == "sym" and not self.frozen(y.args[0], y.sort, base)]
        syms.sort(key=lambda s: s.args[0])
        if len(syms) > 6:
            step = len(syms) / 6.0
            syms = [syms[int(i * step)] for i in range(6)]
        for sym in syms:
            for vec in self.candidates(atom, sym, base):
                if time.time() > end:
                    break
                it = self.make(base, sym, vec)
                with np.errstate(all="ignore"):
                    hit = (it(atom).astype(bool) == want) & self.in_domain(sym.args[0], it, base)
                if hit.any():
                    it.hit = hit
                    r = it
                    break
            if r is not None:
                break
        self.cache[k] = r
        if r is None:
            self.stuck.add(atom.id)
        else:
            self.flipped += 1
        return r

    def moved(self, base):
        """interpretations in which many symbols change together"""
        k = id(base)
        if k not in self.mv:
            self.mv[k] = [Moved(self, base, nm, f) for nm, f in MOVES]
        return self.mv[k]

    def points(self, got, want, its, under):
        """(interpretation, mask) pairs that reach comparisons the samples never took"""
        if self.end is None:
            self.end = time.time() + self.budget
        if self.over():
            return
        t0 = time.time()
        both = [x for x in (got, want) if isinstance(x, Term)]
        try:
            sub = list(T.subterms(both))
            ats = atoms(sub)
            if self.own:
                # first of all the comparisons that only one of the two terms makes
                x = [{y.id for y in T.subterms([z])} for z in both]
                ats = [a for a in ats if len(x) == 1 or (a.id in x[0]) != (a.id in x[1])]
                if not ats:
                    return
            elif isinstance(under, Term):
                su = list(T.subterms([under]))
                have = {a.id for a in ats}
                ats += [a for a in atoms(su) if a.id not in have]
                hs = {y.id for y in sub}
                sub += [y for y in su if y.id not in hs]
            missing = []
            for a in ats:
                k = a.id
                c = self.cov.get((k, id(under), id(its[0])))
                if c is None:
                    seen = [False, False]
                    for it in its:
                        v = it(a).astype(bool)
                        m = it(under).astype(bool) if under is not True else np.ones(it.K, bool)
                        seen[0] |= bool((m & ~v).any())
                        seen[1] |= bool((m & v).any())
                        if all(seen):
                            break
                    c = self.cov[(k, id(under), id(its[0]))] = tuple(seen)
                for b in (False, True):
                    if not c[b] and not impossible(a, b):
                        missing.append((a, b))
            syms = [y for y in sub if y.op == "sym" and y.sort == "f"]
        finally:
            self.used += time.time() - t0
        # whole-state changes
        tried = (id(its[0]), id(under))
        if missing:
            its = [self.slim(it, under) for it in its[:2]]
        later = [x for x in missing if (x[0].id, x[1]) + tried in self.dead]
        missing = [x for x in missing if (x[0].id, x[1]) + tried not in self.dead]
        if missing and len(syms) > 1 and not self.own:
            for base in its[:2]:
                for it in self.moved(base):
                    t0 = time.time()
                    try:
                        m = it.domain(syms)
                        if under is not True:
                            m = m & it(under).astype(bool)
                        if not m.any():
                            continue
                        hit = np.zeros(it.K, bool)
                        rest = []
                        for a, b in missing:
                            h = m & (it(a).astype(bool) == b)
                            if h.any():
                                hit |= h
                                self.flipped += 1
                            else:
                                rest.append((a, b))
                        missing = rest
                    finally:
                        self.used += time.time() - t0
                    if hit.any():
                        yield it, hit
                    if not missing or self.over():
                        break
                if not missing or self.over():
                    break
        if not self.over() and not self.own:
            self.dead |= {(a.id, b) + tried for a, b in missing}
        for a, b in (missing + later)[:60]:
            t0 = time.time()
            try:
                for base in its[:2]:
                    it = self.drive(a, b, base)
                    if it is not None:
                        m = it.hit & (it(under).astype(bool) if under is not True else True)
                        if m.any():
                            yield it, m
                            break
            finally:
                self.used += time.time() - t0
            if self.over():
                return
        # either side of a comparison that only one of the two terms makes
        if len(both) == 2:
            ga, wa = atoms(list(T.subterms([got]))), atoms(list(T.subterms([want])))
            gi, wi = {x.id for x in ga}, {x.id for x in wa}
            for a in [x for x in ga if x.id not in wi] + [x for x in wa if x.id not in gi]:
                if a.op not in ("lt", "le") or not T.is_float(a.args[0]) or a.id in self.bnd:
                    continue
                if self.over():
                    return
                t0 = time.time()
                self.bnd.add(a.id)
                try:
                    got_any = list(self.boundary(a, self.slim(its[0], under)))
                finally:
                    self.used += time.time() - t0
                for it in got_any:
                    t0 = time.time()
                    m = it.hit & (it(under).astype(bool) if under is not True else True)
                    self.used += time.time() - t0
                    if m.any():
                        yield it, m

    def slim(self, it, under, n=20):
        """columns that satisfy the precondition"""
        if it.K <= n + 8 or isinstance(it, Sub):
            return it
        k = (id(it), id(under))
        if k not in self.subs:
            m = it(under).astype(bool) if under is not True else np.ones(it.K, bool)
            idx = np.argsort(~m, kind="stable")[:n]
            self.subs[k] = Sub(it, idx)
        return self.subs[k]

    def boundary(self, atom, base):
        """interpretations just left and right of the point where a comparison changes"""
        syms = [y for y in T.subterms([atom]) if y.op == "sym" and y.sort == "f" and not self.frozen(y.args[0], y.sort, base)]
        syms.sort(key=lambda s: s.args[0])
        end = min(self.end, time.time() + max(0.3, self.budget / 20))
        n = 0
        for sym in syms[:6]:
            if time.time() > end or n >= 2:
                return
            x1 = self.root(atom, sym, base)
            any_ = False
            for f in (1e-12, -1e-12, 1e-8, -1e-8, 1e-5, -1e-5):
                it = self.make(base, sym, x1 + np.abs(x1) * LD(f))
                with np.errstate(all="ignore"):
                    a, b = it(atom.args[0]), it(atom.args[1])
                    near = np.abs(a - b) <= LD(1e-3) * (np.abs(a) + np.abs(b))
                    hit = near & self.in_domain(sym.args[0], it, base)
                if hit.any():
                    it.hit = hit
                    any_ = True
                    yield it
            n += any_

    def root(self, atom, sym, base):
        """where the comparison changes, by a safeguarded secant iteration"""
        def g(vec):
            it = self.make(base, sym, vec)
            return it(atom.args[0]) - it(atom.args[1])
        with np.errstate(all="ignore"):
            x0 = np.asarray(base(sym), LD)
            h = np.where(x0 == 0, LD(1e-3), x0 * LD(1e-3))
            x1 = x0 + h
            g0, g1 = g(x0), g(x1)
            for _ in range(7):
                d = g1 - g0
                s = np.where((d != 0) & np.isfinite(d), g1 * (x1 - x0) / np.where(d == 0, LD(1), d), LD(0))
                x0, g0 = x1, g1
                x1 = np.where(np.isfinite(x1 - s), x1 - s, x1)
                g1 = g(x1)
        return x1


def novel(got, want):
    g = {x.id for x in T.subterms([got]) if x.op in LEAF} if isinstance(got, Term) else set()
    w = {x.id for x in T.subterms([want]) if x.op in LEAF} if isinstance(want, Term) else set()
    return bool(g ^ w)


def parallel(tasks, drive, budget, seed, workers=None):
    """drive every task in forked workers; pairs that make different comparisons come first"""
    import pickle, random
    n = workers or min(8, os.cpu_count() or 1, max(1, len(tasks) // 4))
    block = max(1, len(tasks) // (n * 8))
    blocks = [range(i, min(i + block, len(tasks))) for i in range(0, len(tasks), block)]
    random.Random(seed).shuffle(blocks)
    out = {"bad": {}, "flipped": 0, "stuck": set(), "seconds": 0.0, "visited": 0}
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    t0 = time.time()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            pids.append((pid, r))
            continue
        os.close(r)
        rc = 0
        try:
            d = Directed(budget)
            d.end = t0 + budget
            res = {"bad": {}, "visited": 0}
            mine = [i for b in blocks[k::n] for i in b]
            rest = []
            d.own = True
            for i in mine:
                if time.time() - t0 > budget * 0.6 or len(res["bad"]) >= 5:
                    break
                bad = drive(tasks[i], d)
                if bad:
                    res["bad"][i] = bad
            d.own = False
            for i in mine:
                if time.time() - t0 > budget or len(res["bad"]) >= 5:
                    break
                if not novel(tasks[i][0], tasks[i][1]):
                    rest.append(i)
                    continue
                one(drive, tasks[i], d, i, res)
            for i in rest:
                if time.time() - t0 > budget or len(res["bad"]) >= 5:
                    break
                one(drive, tasks[i], d, i, res)
            res.update(flipped=d.flipped, stuck=d.stuck, seconds=d.used)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        except BaseException as e:  # noqa
            rc = 1
            if os.environ.get("VFDBG"):
                import traceback
                traceback.print_exc()
        os._exit(rc)
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            continue
        res = pickle.loads(b)
        out["bad"].update(res["bad"])
        out["flipped"] += res["flipped"]
        out["stuck"] |= res["stuck"]
        out["seconds"] += res["seconds"]
        out["visited"] += res["visited"]
    return out


def one(drive, task, d, i, res):
    bad = drive(task, d)
    res["visited"] += 1
    if bad:
        res["bad"][i] = bad
