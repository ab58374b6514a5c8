"""Abstract values: aggregates, pointers, arrays with index maps, gated choices, strings, iterators."""
from .terms import Term


class V:
    __slots__ = ()


class Agg(V):
    """struct / tuple / array / closure / enum value with known variant"""
    __slots__ = ("ty", "variant", "fields")

    def __init__(self, ty, variant, fields):
        self.ty, self.variant, self.fields = ty, variant, tuple(fields)

    def __repr__(self):
        return "Agg(%s,%s,%r)" % (self.ty, self.variant, self.fields)


class VIte(V):
    """gated choice between two non-scalar values"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "VIte(%r,%r,%r)" % (self.c, self.a, self.b)


class Ref(V):
    __slots__ = ("cell", "path", "vt")

    def __init__(self, cell, path=(), vt=None):
        self.cell, self.path, self.vt = cell, path, vt

    def __repr__(self):
        return "Ref(%s,%r)" % (self.cell, self.path)


class SliceRef(V):
    """pointer to `len` consecutive elements of the indexable at `base`"""
    __slots__ = ("base", "off", "len")

    def __init__(self, base, off, n):
        self.base, self.off, self.len = base, off, n

    def __repr__(self):
        return "SliceRef(%r,%s,%s)" % (self.base, self.off, self.len)


class ValPtr(V):
    """pointer to an immutable value"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "ValPtr(%r)" % (self.v,)


class VecV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Vec%r" % (self.items,)


class StrV(V):
    """string: concatenation of literal pieces (str) and symbolic pieces (tuples)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def lit(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return "Str%r" % (self.parts,)


class CharV(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "Char%r" % self.c


class Arr(V):
    """ndarray array or view: buffer cell + index map"""
    __slots__ = ("buf", "shape", "strides", "off", "owned")

    def __init__(self, buf, shape, strides, off, owned):
        self.buf, self.shape, self.strides, self.off, self.owned = buf, tuple(shape), tuple(strides), off, owned

    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    def indices(self):
        """flat buffer offsets in logical (row-major) order"""
        out = [self.off]
        for s, st in zip(self.shape, self.strides):
            out = [o + k * st for o in out for k in range(s)]
        return out

    def at(self, idx):
        o = self.off
        for i, s, st in zip(idx, self.shape, self.strides):
            if not (0 <= i < s):
                return None
            o += i * st
        return o

    def view(self):
        return Arr(self.buf, self.shape, self.strides, self.off, False)

    def __repr__(self):
        return "Arr(buf=%s,%s,%s,%s%s)" % (self.buf, self.shape, self.strides, self.off, ",own" if self.owned else "")


class FnV(V):
    __slots__ = ("ty", "inst")

    def __init__(self, ty, inst):
        self.ty, self.inst = ty, inst

    def __repr__(self):
        return "Fn(%s)" % self.inst


class OpaqueFn(V):
    """a function pointer supplied by the caller of the analysed entry point"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class IterV(V):
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return "Iter(%s,%r)" % (self.kind, self.a)


class ZipV(V):
    __slots__ = ("prods", "indexed")

    def __init__(self, prods, indexed=False):
        self.prods, self.indexed = tuple(prods), indexed


class SliceElem(V):
    __slots__ = ("kind", "start", "end", "step")

    def __init__(self, kind, start=0, end=None, step=1):
        self.kind, self.start, self.end, self.step = kind, start, end, step


class SliceInfoV(V):
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = tuple(elems)


class Report(V):
    __slots__ = ("parts",)

    def __init__(self, *parts):
        self.parts = parts

    def __repr__(self):
        return "Report%r" % (self.parts,)


class Obj(V):
    """miscellaneous modelled object: immutable kind + attribute dict"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def with_(self, **kw):
        o = Obj(self.kind)
        o.d = dict(self.d)
        o.d.update(kw)
        return o

    def __repr__(self):
        return "Obj(%s,%r)" % (self.kind, self.d)


class _Uninit(V):
    __slots__ = ()

    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()
UNIT = Agg("unit", 0, ())


class Undecided(Exception):
    """the analysis cannot model a construct on the path to the requested fact"""

    def __str__(self):
        at = getattr(self, "at", None)
        return Exception.__str__(self) + (" at " + at if at else "")


def veq(a, b, depth=0):
    """structural identity (sound: True means same value)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Term):
        return False
    if isinstance(a, (bool, int)):
        return a == b
    if isinstance(a, float):
        return a == b and repr(a) == repr(b) or (a != a and b != b)
    if isinstance(a, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(
            veq(x, y, depth + 1) for x, y in zip(a.fields, b.fields))
    if isinstance(a, (Ref,)):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, SliceRef):
        return veq(a.base, b.base) and a.off == b.off and a.len == b.len
    if isinstance(a, ValPtr):
        return veq(a.v, b.v)
    if isinstance(a, VecV):
        return len(a.items) == len(b.items) and all(veq(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, StrV):
        return len(a.parts) == len(b.parts) and all(peq(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, CharV):
        return a.c == b.c
    if isinstance(a, Arr):
        return (a.buf, a.shape, a.strides, a.off) == (b.buf, b.shape, b.strides, b.off)
    if isinstance(a, FnV):
        return a.inst == b.inst
    if isinstance(a, VIte):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, IterV):
        return a.kind == b.kind and len(a.a) == len(b.a) and all(veq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))):
        return a == b
    if isinstance(a, Obj):
        return a.kind == b.kind and a.d.keys() == b.d.keys() and all(veq(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, Report):
        return veq(a.parts, b.parts)
    return False


def peq(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return veq(x, y)
