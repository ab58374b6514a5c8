"""Symbolic inputs: values of the analysed types whose leaves are fresh symbols, and named access."""
from . import terms as T
from .values import *
from .engine import Engine, State


class World:
    def __init__(self, facts, hooks=None, unroll=3):
        self.F = facts
        self.E = Engine(facts, hooks, unroll)
        self.st = State()

    # -- types
    def root_ty(self, root, k):
        """type of argument k (1-based) or of the result (0) of an entry point"""
        return self.F.insts[self.F.root(root)]["body"]["locals"][k]

    def strip(self, t):
        while self.F.types[t]["k"] in ("ref", "ptr"):
            t = self.F.types[t]["t"]
        return t

    def fields(self, t, variant=0):
        return self.F.types[t]["v"][variant]["f"]

    def variant(self, t, name):
        for i, v in enumerate(self.F.types[t]["v"]):
            if v["n"] == name:
                return i
        raise Undecided("variant %s of %s" % (name, self.F.tname(t)))

    # -- symbolic values
    def sym(self, t, prefix, choose=None):
        """fresh symbolic value of type t; choose(path, type) picks enum variants / Vec lengths / overrides"""
        x = self.F.types[t]
        k = x["k"]
        if choose:
            c = choose(prefix, t)
            if c is not None:
                if isinstance(c, tuple) and c and c[0] == "value":
                    return c[1]
                if k == "adt" and x["v"] and len(x["v"]) > 1 and isinstance(c, str):
                    i = self.variant(t, c)
                    return Agg(t, i, [self.sym(ft, prefix + "." + fn, choose) for fn, ft in self.fields(t, i)])
                if k == "adt" and x["n"].endswith("vec::Vec") and isinstance(c, int):
                    el = x["args"][0]["t"]
                    return VecV([self.sym(el, "%s[%d]" % (prefix, i), choose) for i in range(c)])
        if k == "float":
            return T.fsym(prefix)
        if k in ("int", "uint"):
            return T.isym(prefix)
        if k == "bool":
            return T.bsym(prefix)
        if k == "tuple":
            return Agg(t, 0, [self.sym(y, "%s.%d" % (prefix, i), choose) for i, y in enumerate(x["ts"])])
        if k == "array":
            return Agg(t, 0, [self.sym(x["t"], "%s[%d]" % (prefix, i), choose) for i in range(x["len"])])
        if k == "adt":
            n = x["n"]
            if n.endswith("string::String"):
                return StrV([("s", prefix)])
            if n.endswith("PhantomData"):
                return Agg(t, 0, ())
            vs = x["v"]
            if vs and len(vs) == 1:
                return Agg(t, 0, [self.sym(ft, prefix + "." + fn, choose) for fn, ft in self.fields(t)])
            if vs:
                if all(not v["f"] for v in vs):
                    # field-less enum: a finite gated choice
                    d = T.isym(prefix)
                    T.CHOICES[prefix] = len(vs)
                    r = Agg(t, len(vs) - 1, ())
                    for i in range(len(vs) - 2, -1, -1):
                        r = VIte(T.ieq(d, i), Agg(t, i, ()), r)
                    return r
                raise Undecided("variant of %s at %s not chosen" % (self.F.tname(t), prefix))
        if k == "ref":
            y = self.F.types[x["t"]]
            if y["k"] == "str":
                return ValPtr(StrV([("s", prefix)]))
            return Ref(self.E.cell(self.st, self.sym(x["t"], prefix, choose)))
        raise Undecided("symbolic value of %s" % self.F.tname(t))

    def cell(self, v):
        return Ref(self.E.cell(self.st, v))

    # -- named access
    def ty_of(self, ref, t):
        return t

    def at(self, ref, t, path, st=None):
        """(pointer, type) of a dotted field path below ref: t"""
        st = st or self.st
        E = self.E
        p = ref
        for name in path.split(".") if path else []:
            t = self.strip(t)
            x = self.F.types[t]
            v = E.resolve(st, E.load(st, p))
            while isinstance(v, (Ref, ValPtr)):
                p = v
                v = E.resolve(st, E.load(st, p))
                t = self.strip(t)
                x = self.F.types[t]
            if x["k"] == "adt" and x["n"].endswith("boxed::Box"):
                t = x["args"][0]["t"]
                x = self.F.types[t]
            var = v.variant if isinstance(v, Agg) else 0
            for i, (fn, ft) in enumerate(x["v"][var]["f"]):
                if fn == name:
                    p = E.project_el(p, ("f", i), st)
                    t = ft
                    break
            else:
                raise Undecided("no field %s in %s" % (name, self.F.tname(t)))
        return p, t

    def get(self, ref, t, path, st=None):
        st = st or self.st
        p, ft = self.at(ref, t, path, st)
        return self.E.resolve(st, self.E.load(st, p))

    def put(self, ref, t, path, v, st=None):
        st = st or self.st
        p, ft = self.at(ref, t, path, st)
        self.E.store(st, p, v)

    def arr(self, ref, t, path, st=None):
        """nested python lists of the elements of an array field"""
        st = st or self.st
        a = self.get(ref, t, path, st)
        return self.elems(a, st)

    def elems(self, a, st=None):
        st = st or self.st
        a = self.E.resolve(st, a)
        if isinstance(a, (Ref, ValPtr)):
            a = self.E.resolve(st, self.E.load(st, a))
        if not isinstance(a, Arr):
            raise Undecided("array expected")
        buf = st.cells[a.buf]

        def rec(ax, off):
            if ax == len(a.shape):
                return buf[off]
            return [rec(ax + 1, off + k * a.strides[ax]) for k in range(a.shape[ax])]
        return rec(0, a.off)

    def set_arr(self, a, f, st=None):
        """overwrite every element of array value a with f(index tuple)"""
        st = st or self.st
        from .models import all_idx, setdata
        setdata(st, a, [f(i) for i in all_idx(a.shape)])

    # -- symbolisation
    def leaves(self, v, path=(), st=None, seen=None):
        """(path, kind, value) of all scalar and array leaves below a value"""
        st = st or self.st
        seen = set() if seen is None else seen
        v = self.E.resolve(st, v)
        if isinstance(v, Agg):
            names = None
            if isinstance(v.ty, int):
                x = self.F.types[v.ty]
                if x["k"] == "adt" and x["v"]:
                    names = [f[0] for f in x["v"][v.variant]["f"]]
            for i, f in enumerate(v.fields):
                yield from self.leaves(f, path + ((names[i] if names and i < len(names) else str(i)),), st, seen)
        elif isinstance(v, VecV):
            for i, f in enumerate(v.items):
                yield from self.leaves(f, path + (str(i),), st, seen)
        elif isinstance(v, Ref):
            if (v.cell, v.path) in seen:
                return
            seen.add((v.cell, v.path))
            yield from self.leaves(self.E.load(st, v), path, st, seen)
        else:
            yield path, v

    def ints(self, ref, st=None):
        """{path: (pointer, value)} of the integer leaves below a pointer"""
        st = st or self.st
        out, seen = {}, set()

        def rec(p, path):
            v = self.E.resolve(st, self.E.load(st, p))
            if isinstance(v, Agg):
                for i in range(len(v.fields)):
                    rec(self.E.project_el(p, ("f", i), st), path + (i,))
            elif isinstance(v, VecV):
                for i in range(len(v.items)):
                    rec(self.E.project_el(p, ("ix", i), st), path + (i,))
            elif isinstance(v, Ref):
                if (v.cell, v.path) not in seen:
                    seen.add((v.cell, v.path))
                    rec(v, path + ("*",))
            elif isinstance(v, int) and not isinstance(v, bool):
                out[path] = (p, v)
        rec(ref, ())
        return out

    def generalise(self, ref, before, now, name, st=None):
        """induction hypothesis: the counters below ref that moved by one between two observations may have any later value"""
        a, b = before, now
        n = 0
        for k, (p, v) in b.items():
            if k in a and v == a[k][1] + 1:
                self.E.store(st or self.st, p, T.isym(name) if isinstance(name, str) else name)
                n += 1
        return n

    def rehearse(self, ref, f, name="later"):
        """f() is an unrelated earlier use of the object: whatever it counts below ref may have any value from then on"""
        snap = self.ints(ref)
        f()
        now = self.ints(ref)
        k = 0
        for path, (p, v) in snap.items():
            if path in now and now[path][1] - v in (1, 2, 3, 4, 5, 6, 7, 8):
                # f may use the object once or several times
                self.E.store(self.st, p, T.isym(name))
                k += 1
        return k

    def counters(self, st):
        """{(cell, path): (pointer, value)} of all integers in memory"""
        out = {}

        def rec(p, v):
            v = self.E.resolve(st, v)
            if isinstance(v, int) and not isinstance(v, bool):
                out[(p.cell, p.path)] = (p, v)
            elif isinstance(v, (Agg, VecV)):
                for i, _ in enumerate(v.fields if isinstance(v, Agg) else v.items):
                    q = self.E.project_el(p, ("f" if isinstance(v, Agg) else "ix", i), st)
                    rec(q, self.E.load(st, q))
        for c in list(st.cells):
            rec(Ref(c), st.cells[c])
        return out

    def symbolize(self, ref, prefix, st=None, keep=lambda path: False):
        """replace every float array below ref by fresh symbols prefix.path[i,j]"""
        st = st or self.st
        for path, v in list(self.leaves(self.E.load(st, ref), (), st)):
            if keep(path):
                continue
            if isinstance(v, Arr) and v.owned:
                nm = prefix + "." + ".".join(path)
                self.set_arr(v, lambda i: T.fsym("%s[%s]" % (nm, ",".join(map(str, i)))), st)

    def call(self, root, args, st=None):
        return self.E.call_inst(st or self.st, self.F.root(root), args)

    def ok(self, v, st=None):
        """payload of a Result on the success side; failure condition as a term"""
        st = st or self.st
        return split_result(self.E, st, v)


def split_result(E, st, v):
    """(condition of Err, Ok payload)"""
    v = E.resolve(st, v)
    if isinstance(v, VIte):
        ca, va = split_result(E, st, v.a)
        cb, vb = split_result(E, st, v.b)
        c = T.OR(T.AND(v.c, ca), T.AND(T.NOT(v.c), cb))
        if va is None:
            return c, vb
        if vb is None:
            return c, va
        return c, E.join(st, v.c, va, vb)
    if isinstance(v, Agg):
        if v.variant == 1:
            return True, None
        return False, v.fields[0] if v.fields else UNIT
    if v is UNINIT:
        return False, None
    raise Undecided("Result expected, found %s" % type(v).__name__)
