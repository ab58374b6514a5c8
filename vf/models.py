"""Models of the ndarray / std / rayon / eyre / serde_json operations that corries calls.

Each model is a transfer function over the abstract values of values.py.  A construct without a model
raises Undecided; nothing is guessed.
"""
import math
from . import terms as T
from .terms import Term
from .values import *

EXACT = {}
GROUPS = []  # (predicate on names, table)


def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


ND, F64, INT, STR, SLICE, VEC, STRING, ITER, FS, IO, PATHM, OPT, FMT, RAY, MEM, BOX = ({} for _ in range(16))


def reg(table, *names):
    def d(f):
        for n in names:
            table[n] = f
        return f
    return d


def last(n):
    # last path segment outside of angle brackets
    depth = 0
    i = len(n)
    while i > 0:
        ch = n[i - 1]
        if ch == ">" and (i < 2 or n[i - 2] != "-"):
            depth += 1
        elif ch == "<":
            depth -= 1
        elif ch == ":" and depth == 0:
            return n[i:]
        i -= 1
    return n


def lookup(decl, full):
    m = EXACT.get(decl) or EXACT.get(full)
    if m is not None:
        return m
    ls = last(full)
    ld = last(decl)
    if full.startswith("serde_json::") or full.startswith("ron::"):
        return EXACT.get("serde_json::" + ls)
    if "ndarray::parallel" in full or full.startswith("rayon::") or "rayon::iter" in full or "ndarray::parallel" in decl:
        return RAY.get(ls) or ITER.get(ls) or ND.get(ls)
    if "ndarray::" in full:
        op = OPS.get(decl)
        if op is not None:
            return op
        if decl.startswith("std::iter::Iterator::") or decl.startswith("std::iter::DoubleEnded"):
            return ITER.get(ld)
        return ND.get(ls)
    op = OPS.get(decl)
    if op is not None:
        return op
    if "<impl f64>" in full or "<impl f32>" in full:
        return F64.get(ls)
    if any("<impl %s>" % t in full for t in ("usize", "u8", "u32", "u64", "i32", "i64", "isize", "u16", "u128", "i8")):
        return INT.get(ls)
    if "<impl str>" in full or full.startswith("std::str::"):
        return STR.get(ls)
    if "<impl [T]>" in full:
        return SLICE.get(ls)
    if decl.startswith(("std::iter::Iterator::", "std::iter::DoubleEndedIterator::", "std::iter::ExactSizeIterator::")):
        return ITER.get(ld)
    if full.startswith("std::iter::"):
        return ITER.get(ls)
    if full.startswith(("std::vec::Vec::", "alloc::vec::")):
        return VEC.get(ls) or SLICE.get(ls)
    if full.startswith("std::string::String::"):
        return STRING.get(ls) or STR.get(ls)
    if full.startswith(("std::fs::", "std::fs::File")) or "std::fs::" in full:
        return FS.get(ls) or IO.get(ls)
    if full.startswith(("std::path::",)):
        return PATHM.get(ls)
    if "std::io" in full:
        return IO.get(ls)
    if "fmt::" in full:
        return FMT.get(ls)
    if full.startswith("std::mem::"):
        return MEM.get(ls)
    if "boxed::" in full:
        return BOX.get(ls)
    if full.startswith(("std::option::", "core::option::")):
        return OPT.get(ls)
    return None


# ------------------------------------------------------------------ helpers
def unref(E, st, v, n=6):
    """value behind any number of references"""
    v = E.resolve(st, v)
    while isinstance(v, (Ref, ValPtr)) and n:
        v = E.resolve(st, E.load(st, v))
        n -= 1
    return v


def val(E, st, v):
    """scalar (or value) behind references"""
    v = unref(E, st, v)
    if isinstance(v, VIte):
        a, b = val(E, st, v.a), val(E, st, v.b)
        return E.join(st, v.c, a, b)
    return v


def cint(E, st, v):
    v = val(E, st, v)
    if isinstance(v, bool) or not isinstance(v, int):
        raise Undecided("symbolic integer where a constant is needed")
    return v


def some(c, v):
    return Agg(c.dty, 1, (v,))


def none(c):
    return Agg(c.dty, 0, ())


def ok(c, v):
    return Agg(c.dty, 0, (v,))


def err(c, v):
    return Agg(c.dty, 1, (v,))


STRPRED = {}


def strpred(op, v, x=None, mk=T.bsym):
    """symbol for a predicate of strings that are not known literally"""
    base = name = "%s:%r" % (op, v) + ("" if x is None else ":%r" % (x,))
    n = 0
    while name in STRPRED and not (STRPRED[name][0] == op and veq(STRPRED[name][1], v) and (
            x is None and STRPRED[name][2] is None or veq(STRPRED[name][2], x))):
        n += 1
        name = "%s#%d" % (base, n)
    STRPRED[name] = (op, v, x)
    return mk(name)


def fallible(c, kind, v, *info):
    """Err when the environment makes the operation fail"""
    if c.E.nofail:
        return ok(c, v)
    n = c.st.cnt.get("fail", 0)
    c.st.cnt["fail"] = n + 1
    f = T.bsym("fail:%s:%d" % (kind, n))
    c.E.fails.append((f, kind, c.E.where()))
    if c.E.log_errors:
        c.E.event(c.st, "fault", f, kind)
    return VIte(f, err(c, Report("env", kind, n)), ok(c, v))


def arr_of(E, st, v):
    v = unref(E, st, v)
    if isinstance(v, Arr):
        return v
    raise Undecided("array expected, found %s %s" % (type(v).__name__, str(v)[:int(__import__("os").environ.get("VFDBG","0"))]))


def ints_of(E, st, v):
    v = unref(E, st, v)
    if isinstance(v, bool):
        raise Undecided("index")
    if isinstance(v, int):
        return [v]
    if isinstance(v, Agg):
        out = []
        for f in v.fields:
            out += ints_of(E, st, f)
        return out
    raise Undecided("symbolic index or shape")


def tuple_of(c, xs, ty=None):
    return Agg(ty, 0, tuple(xs))


def data(st, a):
    b = st.cells[a.buf]
    return [b[i] for i in a.indices()]


def setdata(st, a, vals):
    b = list(st.cells[a.buf])
    for i, v in zip(a.indices(), vals):
        b[i] = v
    st.cells[a.buf] = tuple(b)


def elref(a, off):
    return Ref(a.buf, (("ix", off),))


def die(c, why):
    c.E.die(c.st, why)
    return UNINIT


def deepcopy(E, st, v):
    if isinstance(v, Arr):
        if not v.owned:
            return v
        return E.newarr(st, v.shape, [deepcopy(E, st, x) for x in data(st, v)])
    if isinstance(v, Agg):
        return Agg(v.ty, v.variant, [deepcopy(E, st, x) for x in v.fields])
    if isinstance(v, VecV):
        return VecV([deepcopy(E, st, x) for x in v.items])
    if isinstance(v, VIte):
        return VIte(v.c, deepcopy(E, st, v.a), deepcopy(E, st, v.b))
    return v


# ------------------------------------------------------------------ operators
OPS = {}
_BIN = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}


def broadcast(a_sh, b_sh):
    n = max(len(a_sh), len(b_sh))
    x = (1,) * (n - len(a_sh)) + tuple(a_sh)
    y = (1,) * (n - len(b_sh)) + tuple(b_sh)
    out = []
    for p, q in zip(x, y):
        if p == q or q == 1:
            out.append(p)
        elif p == 1:
            out.append(q)
        else:
            return None
    return tuple(out)


def bview(a, shape):
    n = len(shape)
    sh = (1,) * (n - len(a.shape)) + a.shape
    stq = (0,) * (n - len(a.shape)) + a.strides
    return Arr(a.buf, shape, [0 if (s == 1 and t != 1) else q for s, t, q in zip(sh, shape, stq)], a.off, False)


def arith(op):
    def f(c):
        E, st = c.E, c.st
        a, b = unref(E, st, c.args[0]), unref(E, st, c.args[1])
        if isinstance(a, VIte) or isinstance(b, VIte):
            a, b = val(E, st, a), val(E, st, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr):
                sh = broadcast(a.shape, b.shape)
                if sh is None:
                    return die(c, "ndarray: incompatible shapes")
                da, db = data(st, bview(a, sh)), data(st, bview(b, sh))
            elif isinstance(a, Arr):
                sh = a.shape
                da = data(st, a)
                db = [b] * len(da)
            else:
                sh = b.shape
                db = data(st, b)
                da = [a] * len(db)
            return E.newarr(st, sh, [E.binop(st, op, x, y) for x, y in zip(da, db)])
        if isinstance(a, StrV):
            b = val(E, st, b)
            return StrV(a.parts + as_str(b).parts)
        if T.is_scalar(a) and T.is_scalar(b):
            return E.binop(st, op, a, b)
        raise Undecided("operator %s on %s" % (op, type(a).__name__))
    return f


def arith_assign(op):
    def f(c):
        E, st = c.E, c.st
        p = c.args[0]
        a, b = unref(E, st, p), unref(E, st, c.args[1])
        if isinstance(b, VIte):
            b = val(E, st, b)
        if isinstance(a, Arr):
            da = data(st, a)
            if isinstance(b, Arr):
                sh = broadcast(a.shape, b.shape)
                if sh != a.shape:
                    return die(c, "ndarray: incompatible shapes")
                db = data(st, bview(b, a.shape))
            else:
                db = [b] * len(da)
            setdata(st, a, [E.binop(st, op, x, y) for x, y in zip(da, db)])
            return UNIT
        if isinstance(a, StrV):
            E.store(st, p, StrV(a.parts + as_str(val(E, st, b)).parts))
            return UNIT
        p = final_ptr(E, st, p)
        E.store(st, p, E.binop(st, op, val(E, st, a), b))
        return UNIT
    return f


for _k, _v in _BIN.items():
    OPS["std::ops::%s::%s" % (_v, _k)] = arith(_v)
    OPS["std::ops::%sAssign::%s_assign" % (_v, _k)] = arith_assign(_v)


def final_ptr(E, st, p):
    """innermost pointer of a chain of references"""
    p = E.resolve(st, p)
    for _ in range(6):
        v = E.resolve(st, E.load(st, p))
        if isinstance(v, (Ref, VIte)) and E.is_ptr(v):
            p = v
        else:
            return p
    return p


@exact("std::ops::Neg::neg")
def _neg(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, Arr):
        return c.E.newarr(c.st, v.shape, [T.fneg(x) for x in data(c.st, v)])
    if T.is_float(v):
        return T.fneg(v)
    return T.ibin("isub", 0, v)


@exact("std::ops::Not::not")
def _not(c):
    return T.NOT(val(c.E, c.st, c.args[0]))


def as_str(v):
    if isinstance(v, StrV):
        return v
    if isinstance(v, CharV):
        return StrV([v.c])
    if isinstance(v, VIte):
        return StrV([("strite", v.c, as_str(v.a), as_str(v.b))])
    items = v.fields if isinstance(v, Agg) else v.items if isinstance(v, VecV) else None
    if items and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 for x in items):
        try:
            return StrV([bytes(items).decode("utf8")])
        except UnicodeDecodeError:
            pass
    return StrV([("val", v)])


# ------------------------------------------------------------------ comparisons
def deep_eq(E, st, a, b):
    a, b = unref(E, st, a), unref(E, st, b)
    if isinstance(a, VIte):
        return T.ITE(a.c, deep_eq(E, st, a.a, b), deep_eq(E, st, a.b, b))
    if isinstance(b, VIte):
        return T.ITE(b.c, deep_eq(E, st, a, b.a), deep_eq(E, st, a, b.b))
    if T.is_scalar(a) and T.is_scalar(b):
        return E.binop(st, "Eq", a, b)
    if isinstance(a, CharV) and isinstance(b, CharV):
        return a.c == b.c
    if isinstance(a, StrV) and isinstance(b, StrV):
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return la == lb
        if veq(a, b):
            return True
        return strpred("streq", a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return False
        return T.conj(deep_eq(E, st, x, y) for x, y in zip(data(st, a), data(st, b)))
    if isinstance(a, VecV) and isinstance(b, VecV):
        if len(a.items) != len(b.items):
            return False
        return T.conj(deep_eq(E, st, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, SliceRef) or isinstance(b, SliceRef):
        xs, ys = seq_items(E, st, a), seq_items(E, st, b)
        if len(xs) != len(ys):
            return False
        return T.conj(deep_eq(E, st, x, y) for x, y in zip(xs, ys))
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.variant != b.variant:
            return False
        return T.conj(deep_eq(E, st, x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == "typeid":
        return a.d["t"] == b.d["t"]
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == "ordering":
        return T.ieq(a.d["v"], b.d["v"])
    raise Undecided("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


def user_impl(c, trait, meth):
    t = c.targ(0)
    if t is None:
        return None
    nm = "<%s as %s>::%s" % (c.E.F.tname(t), trait, meth)
    for n in c.E.F.by_full.get(nm, ()):
        if c.E.insts[n]["body"] is not None and c.E.insts[n]["crate"] == "corries":
            return n
    return None


@exact("std::cmp::PartialEq::eq")
def _eq(c):
    return c.E.simp(c.st, deep_eq(c.E, c.st, c.args[0], c.args[1]))


@exact("std::cmp::PartialEq::ne")
def _ne(c):
    n = user_impl(c, "std::cmp::PartialEq", "eq")
    if n is not None:
        return T.NOT(c.E.call_inst(c.st, n, c.args))
    return c.E.simp(c.st, T.NOT(deep_eq(c.E, c.st, c.args[0], c.args[1])))


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    def _mkcmp(o):
        def f(c):
            return c.E.binop(c.st, o, val(c.E, c.st, c.args[0]), val(c.E, c.st, c.args[1]))
        return f
    EXACT["std::cmp::PartialOrd::" + _n] = _mkcmp(_o)


def ordering(E, st, a, b):
    lt, gt = E.binop(st, "Lt", a, b), E.binop(st, "Gt", a, b)
    return Obj("ordering", v=T.ITE(lt, -1, T.ITE(gt, 1, 0)))


@exact("std::cmp::PartialOrd::partial_cmp")
def _pcmp(c):
    a, b = val(c.E, c.st, c.args[0]), val(c.E, c.st, c.args[1])
    r = some(c, ordering(c.E, c.st, a, b))
    if T.is_float(a) and T.is_float(b):
        nan = c.E.simp(c.st, T.OR(T.isnan(a), T.isnan(b)))
        return c.E.join(c.st, nan, none(c), r) if nan is not False else r
    return r


@exact("std::cmp::Ord::cmp")
def _cmp(c):
    return ordering(c.E, c.st, val(c.E, c.st, c.args[0]), val(c.E, c.st, c.args[1]))


@exact("std::cmp::Ord::min", "std::cmp::min")
def _omin(c):
    return T.ibin("imin", val(c.E, c.st, c.args[0]), val(c.E, c.st, c.args[1]))


@exact("std::cmp::Ord::max", "std::cmp::max")
def _omax(c):
    return T.ibin("imax", val(c.E, c.st, c.args[0]), val(c.E, c.st, c.args[1]))


@exact("std::cmp::Ord::clamp")
def _oclamp(c):
    v, lo, hi = [val(c.E, c.st, a) for a in c.args]
    return T.ibin("imin", T.ibin("imax", v, lo), hi)


# ------------------------------------------------------------------ closures
@exact("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _call(c):
    a = c.E.resolve(c.st, c.args[1])
    return c.E.call_value(c.st, c.args[0], list(a.fields), c.dty)


# ------------------------------------------------------------------ Option / Result
@exact("std::ops::Try::branch")
def _branch(c):
    E, st = c.E, c.st
    is_opt = "Option" in E.F.tname(c.targ(0))

    def one(v):
        if not isinstance(v, Agg):
            raise Undecided("? on %s" % type(v).__name__)
        good = v.variant == (1 if is_opt else 0)
        if good:
            return Agg(c.dty, 0, (v.fields[0],))
        return Agg(c.dty, 1, (Agg(None, v.variant, v.fields),))
    return E.vmap(st, c.args[0], one)


@exact("std::ops::Try::from_output")
def _from_output(c):
    is_opt = "Option" in c.E.F.tname(c.targ(0))
    return Agg(c.dty, 1 if is_opt else 0, (c.args[0],))


@exact("std::ops::FromResidual::from_residual")
def _from_residual(c):
    def one(v):
        return Agg(c.dty, v.variant, v.fields)
    return c.E.vmap(c.st, c.args[0], one)


def map_err(c, f):
    def one(v):
        if v.variant == 1:
            return Agg(c.dty, 1, (f(v.fields[0]),))
        return Agg(c.dty, 0, v.fields)
    return c.E.vmap(c.st, c.args[0], one)


for _n in ("context", "wrap_err", "with_context", "wrap_err_with"):
    for _p in ("color_eyre::eyre::context::<impl color_eyre::eyre::WrapErr<T, E> for std::result::Result<T, E>>::",
               "eyre::context::<impl eyre::WrapErr<T, E> for std::result::Result<T, E>>::",
               "color_eyre::eyre::WrapErr::", "eyre::WrapErr::", "color_eyre::eyre::ContextCompat::"):
        EXACT[_p + _n] = lambda c: wrap(c)


def wrap(c):
    E, st = c.E, c.st
    is_opt = c.targ(0) is not None and "Option" in E.F.tname(c.targ(0)) and False

    def one(v):
        if v.variant == 1 and not is_opt:
            return Agg(c.dty, 1, (Report("ctx", v.fields[0]),))
        return Agg(c.dty, 0, v.fields)
    return E.vmap(st, c.args[0], one)


def _octx(c):
    """ContextCompat: None becomes an error"""
    def one(v):
        return Agg(c.dty, 0, v.fields) if v.variant == 1 else Agg(c.dty, 1, (Report("msg", "none"),))
    return c.E.vmap(c.st, c.args[0], one)


for _n in ("context", "wrap_err", "with_context", "wrap_err_with"):
    for _p in ("color_eyre::eyre::context::<impl color_eyre::eyre::ContextCompat<T> for std::option::Option<T>>::",
               "eyre::context::<impl eyre::ContextCompat<T> for std::option::Option<T>>::"):
        EXACT[_p + _n] = _octx

for _p in ("color_eyre::eyre::private::", "eyre::private::"):
    for _n in ("new_adhoc", "format_err", "new_adhoc_error"):
        EXACT[_p + _n] = lambda c: Report("msg", *[x for x in c.args])
for _p in ("color_eyre::eyre::Report::", "color_eyre::Report::", "eyre::Report::", "color_eyre::eyre::error::<impl color_eyre::eyre::Report>::",
           "eyre::error::<impl eyre::Report>::"):
    EXACT[_p + "msg"] = lambda c: Report("msg", *c.args)
    EXACT[_p + "new"] = lambda c: Report("msg", *c.args)
    EXACT[_p + "wrap_err"] = lambda c: Report("ctx", c.args[0])


@exact("std::convert::From::from", "std::convert::Into::into")
def _from(c):
    E, st = c.E, c.st
    nm = E.F.tname(c.dty) if c.dty is not None else ""
    v = E.resolve(st, c.args[0])
    src = c.targ(1)
    if "SliceInfoElem" in (c.inst["full"] if c.inst else "") or "SliceInfoElem" in nm:
        return slice_elem(E, st, v)
    if nm == "ndarray::Slice" or nm.endswith("::Slice"):
        return slice_elem(E, st, v)
    if nm.endswith("Report") or "eyre" in nm or "Box<dyn" in nm:
        return Report("from", v)
    if nm in ("f64",) or (nm == "" and T.is_float(v)):
        return v if T.is_float(v) else T.i2f(val(E, st, v))
    if nm in ("usize", "u64", "i64", "u32", "i32", "u128", "i128", "isize", "u16"):
        return v
    if "String" in nm or "PathBuf" in nm:
        return as_str(unref(E, st, v))
    if nm.startswith("std::vec::Vec") or nm.startswith("alloc::vec::Vec"):
        return VecV(seq_items(E, st, v))
    if "ArrayBase" in nm:
        items = seq_items(E, st, v)
        return E.newarr(st, (len(items),), items)
    if "Box" in nm:
        return Ref(E.cell(st, v))
    if src is not None and E.F.tname(src) == nm:
        return v
    raise Undecided("conversion into %s" % nm)


@reg(OPT, "map", "and_then")
def _opt(c):
    return NotImplemented


@exact("std::result::unwrap_failed", "core::result::unwrap_failed", "std::option::unwrap_failed",
       "std::option::expect_failed", "core::option::expect_failed", "std::rt::panic_fmt", "core::panicking::panic_fmt",
       "core::panicking::panic", "std::rt::begin_panic")
def _panic(c):
    return die(c, "panic")


# ------------------------------------------------------------------ clone / default / any
@exact("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
def _clone(c):
    v = unref(c.E, c.st, c.args[0]) if True else None
    t = c.targ(0)
    if t is not None and c.E.types[t]["k"] == "ref":
        return c.E.load(c.st, c.args[0])
    v = c.E.load(c.st, c.args[0]) if isinstance(c.args[0], (Ref, ValPtr, VIte)) else c.args[0]
    v = c.E.resolve(c.st, v)
    if isinstance(v, SliceRef):
        return VecV([deepcopy(c.E, c.st, x) for x in seq_items(c.E, c.st, v)])
    if isinstance(v, Ref):
        return Ref(c.E.cell(c.st, deepcopy(c.E, c.st, c.E.load(c.st, v))), (), v.vt)
    if isinstance(v, Arr) and "owned" in (c.fty["n"] if c.fty else "") and not v.owned:
        return c.E.newarr(c.st, v.shape, data(c.st, v))
    return deepcopy(c.E, c.st, v)


@exact("std::clone::Clone::clone_from")
def _clone_from(c):
    v = c.E.load(c.st, c.args[1])
    c.E.store(c.st, c.args[0], deepcopy(c.E, c.st, v))
    return UNIT


@exact("std::default::Default::default")
def _default(c):
    return default_of(c.E, c.st, c.targ(0))


def default_of(E, st, t):
    x = E.types[t]
    k = x["k"]
    if k == "float":
        return 0.0
    if k in ("int", "uint"):
        return 0
    if k == "bool":
        return False
    if k == "char":
        return CharV("\0")
    if k == "tuple":
        return Agg(t, 0, [default_of(E, st, y) for y in x["ts"]])
    if k == "array" and x["len"] is not None:
        return Agg(t, 0, [default_of(E, st, x["t"]) for _ in range(x["len"])])
    if k == "ref":
        return StrV([])
    if k == "adt":
        n = x["n"]
        if n.endswith("String"):
            return StrV([])
        if n.endswith("vec::Vec"):
            return VecV([])
        if n.endswith("Option"):
            return Agg(t, 0, ())
        if n.endswith("PhantomData"):
            return Agg(t, 0, ())
        if n.endswith("ArrayBase"):
            return E.newarr(st, (0,) * nd_dim(E, t), [])
    raise Undecided("default of %s" % E.F.tname(t))


def nd_dim(E, t):
    s = E.F.tname(t)
    import re
    m = re.search(r"Dim<\[usize; (\d+)\]>", s)
    if m:
        return int(m.group(1))
    raise Undecided("dimension of %s" % s)


@exact("std::any::TypeId::of")
def _typeid(c):
    return Obj("typeid", t=c.E.F.tname(c.targ(0)))


@exact("std::any::type_name")
def _type_name(c):
    return StrV([("typename", c.E.F.tname(c.targ(0)))])


@exact("std::hint::must_use", "std::hint::black_box", "std::convert::identity", "std::ops::Deref::deref",
       "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut")
def _ident(c):
    v = c.args[0]
    if c.fty["n"].endswith(("deref", "deref_mut")):
        # Box / Rc / guards: the pointee
        x = c.E.resolve(c.st, c.E.load(c.st, v))
        if isinstance(x, (Ref,)):
            return x
        if isinstance(x, ValPtr):
            return x
    return v


@exact("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value")
def _dv(c):
    return c.E.discr(c.st, unref(c.E, c.st, c.args[0]))


@exact("std::mem::discriminant")
def _md(c):
    return Agg(c.dty, 0, (c.E.discr(c.st, unref(c.E, c.st, c.args[0])),))


@exact("std::mem::swap")
def _swap(c):
    a, b = c.E.load(c.st, c.args[0]), c.E.load(c.st, c.args[1])
    c.E.store(c.st, c.args[0], b)
    c.E.store(c.st, c.args[1], a)
    return UNIT


@exact("std::mem::replace")
def _replace(c):
    a = c.E.load(c.st, c.args[0])
    c.E.store(c.st, c.args[0], c.args[1])
    return a


@exact("std::mem::take")
def _take(c):
    a = c.E.load(c.st, c.args[0])
    c.E.store(c.st, c.args[0], default_of(c.E, c.st, c.targ(0)))
    return a


@exact("std::mem::forget")
def _forget(c):
    return UNIT


@exact("std::mem::drop")
def _mem_drop(c):
    v = c.E.resolve(c.st, c.args[0])
    if isinstance(v, (Agg, VIte, Obj, VecV)):
        drop_value(c.E, c.st, v)
    return UNIT


@exact("std::mem::size_of")
def _size_of(c):
    raise Undecided("size_of")


# ------------------------------------------------------------------ floats
def _f1(name):
    def f(c):
        return T.funary(name, val(c.E, c.st, c.args[0]))
    return f


for _n in ("abs", "sqrt", "exp", "ln", "log10", "log2", "sin", "cos", "tan", "floor", "ceil", "trunc", "round", "tanh", "cbrt",
           "exp2", "ln_1p", "exp_m1", "sinh", "cosh", "asin", "acos", "atan", "asinh", "acosh", "atanh", "round_ties_even"):
    F64[_n] = _f1(_n)


def _fb(fn):
    def f(c):
        return fn(*[val(c.E, c.st, a) for a in c.args])
    return f


F64["max"] = _fb(T.fmax)
F64["min"] = _fb(T.fmin)
F64["maximum"] = _fb(lambda a, b: T.ITE(T.OR(T.isnan(a), T.isnan(b)), float("nan"), T.fmax(a, b)))
F64["minimum"] = _fb(lambda a, b: T.ITE(T.OR(T.isnan(a), T.isnan(b)), float("nan"), T.fmin(a, b)))
F64["to_degrees"] = _fb(lambda a: T.fmul(a, 180.0 / math.pi))
F64["to_radians"] = _fb(lambda a: T.fmul(a, math.pi / 180.0))
F64["midpoint"] = _fb(lambda a, b: T.fmul(0.5, T.fadd(a, b)))
F64["algebraic_add"] = _fb(T.fadd)
F64["algebraic_sub"] = _fb(T.fsub)
F64["algebraic_mul"] = _fb(T.fmul)
F64["algebraic_div"] = _fb(T.fdiv)
F64["powf"] = _fb(T.fpow)
F64["powi"] = _fb(T.powi)
F64["recip"] = _fb(lambda x: T.fdiv(1.0, x))
F64["mul_add"] = _fb(lambda x, a, b: T.fadd(T.fmul(x, a), b))
F64["signum"] = _fb(T.fsignum)
F64["copysign"] = _fb(lambda x, y: T.ITE(T.signneg(y), T.fneg(T.funary("abs", x)), T.funary("abs", x)))
F64["is_nan"] = _fb(T.isnan)
F64["is_infinite"] = _fb(lambda x: T.AND(T.NOT(T.isfinite(x)), T.NOT(T.isnan(x))))
F64["hypot"] = _fb(lambda x, y: T.funary("sqrt", T.fadd(T.fmul(x, x), T.fmul(y, y))))
F64["clamp"] = _fb(lambda x, a, b: T.ITE(T.flt(x, a), a, T.ITE(T.flt(b, x), b, x)))
F64["fract"] = _fb(lambda x: T.fsub(x, T.funary("trunc", x)))
F64["log"] = _fb(lambda x, b: T.fdiv(T.funary("ln", x), T.funary("ln", b)))
F64["to_bits"] = _fb(lambda x: T.uf("to_bits", (), (x,), "i"))
F64["abs_sub"] = _fb(lambda x, y: T.fmax(T.fsub(x, y), 0.0))


def _fpred(fn):
    def f(c):
        return c.E.simp(c.st, fn(val(c.E, c.st, c.args[0])))
    return f


F64["is_finite"] = _fpred(T.isfinite)
F64["is_nan"] = _fpred(T.isnan)
F64["is_sign_positive"] = _fpred(lambda x: T.NOT(T.signneg(x)))
F64["is_sign_negative"] = _fpred(T.signneg)
F64["is_infinite"] = _fpred(F64["is_infinite"].__closure__[0].cell_contents)


F64["is_normal"] = _fpred(lambda x: T.AND(T.isfinite(x), T.NOT(T.flt(T.funary("abs", x), 2.2250738585072014e-308))))
F64["is_subnormal"] = _fpred(lambda x: T.AND(T.NOT(T.feq(x, 0.0)), T.flt(T.funary("abs", x), 2.2250738585072014e-308)))


@reg(F64, "sin_cos")
def _sin_cos(c):
    v = val(c.E, c.st, c.args[0])
    return Agg(c.dty, 0, (T.funary("sin", v), T.funary("cos", v)))


@reg(F64, "total_cmp")
def _tcmp(c):
    return ordering(c.E, c.st, val(c.E, c.st, c.args[0]), val(c.E, c.st, c.args[1]))


# ------------------------------------------------------------------ integers
def _ib(fn):
    def f(c):
        return fn(*[val(c.E, c.st, a) for a in c.args])
    return f


INT["pow"] = _ib(lambda a, b: a ** b if isinstance(a, int) and isinstance(b, int) else (_ for _ in ()).throw(Undecided("pow")))
INT["abs_diff"] = _ib(lambda a, b: T.ibin("isub", T.ibin("imax", a, b), T.ibin("imin", a, b)))


def _urange(c):
    """(lo, hi) of the integer type the method belongs to"""
    import re as _re
    m = _re.search(r"<impl ([iu])(8|16|32|64|128|size)>", c.fty["n"])
    if not m:
        raise Undecided(c.fty["n"])
    bits = 64 if m.group(2) == "size" else int(m.group(2))
    return (0, (1 << bits) - 1) if m.group(1) == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)


def _iop(op, mode):
    def f(c):
        a, b = [val(c.E, c.st, x) for x in c.args]
        lo, hi = _urange(c)
        r = T.ibin(op, a, b)
        if isinstance(r, int):
            inside, w = lo <= r <= hi, (r - lo) % (hi - lo + 1) + lo
        else:
            # symbolic operands stay far from the upper end of the type; only "below zero" is possible
            inside = c.E.simp(c.st, T.ibin("ile", b, a)) if op == "isub" and lo == 0 else True
            w = r
        if mode == "saturating":
            return c.E.simp(c.st, max(lo, min(r, hi)) if isinstance(r, int) else T.ibin("imax", 0, r) if inside is not True else r)
        if mode == "checked":
            return some(c, r) if inside is True else none(c) if inside is False else c.E.join(c.st, inside, some(c, r), none(c))
        if mode == "strict":
            return r
        if mode == "wrapping":
            return w
        return Agg(c.dty, 0, (w, c.E.simp(c.st, T.NOT(inside))))
    return f


for _m in ("saturating", "checked", "wrapping", "overflowing", "strict"):
    for _o, _op in (("add", "iadd"), ("sub", "isub"), ("mul", "imul")):
        INT[_m + "_" + _o] = _iop(_op, _m)
INT["unchecked_add"] = INT["strict_add"]
INT["unchecked_sub"] = INT["strict_sub"]
INT["div_ceil"] = _ib(lambda a, b: T.ibin("idiv", T.ibin("isub", T.ibin("iadd", a, b), 1), b))
INT["is_power_of_two"] = _ib(lambda a: a > 0 and a & (a - 1) == 0)
INT["rem_euclid"] = _ib(lambda a, b: T.ibin("irem", a, b))
INT["is_multiple_of"] = _ib(lambda a, b: T.ieq(T.ibin("irem", a, b), 0))
INT["next_multiple_of"] = _ib(lambda a, b: T.ibin("imul", T.ibin("idiv", T.ibin("isub", T.ibin("iadd", a, b), 1), b), b))
INT["midpoint"] = _ib(lambda a, b: T.ibin("idiv", T.ibin("iadd", a, b), 2))
INT["unsigned_abs"] = INT["abs"] = _ib(lambda a: T.ibin("imax", a, T.ibin("isub", 0, a)))
INT["signum"] = _ib(lambda a: T.ibin("imax", -1, T.ibin("imin", 1, a)))
INT["is_positive"] = _ib(lambda a: T.ibin("ilt", 0, a))
INT["is_negative"] = _ib(lambda a: T.ibin("ilt", a, 0))
for _n in ("ilog2", "isqrt", "leading_zeros", "trailing_zeros", "count_ones", "next_power_of_two"):
    def _cint_only(n):
        def f(c):
            v = cint(c.E, c.st, c.args[0])
            lo, hi = _urange(c)
            bits = (hi - lo).bit_length()
            if n == "ilog2":
                return v.bit_length() - 1
            if n == "isqrt":
                return math.isqrt(v)
            if n == "leading_zeros":
                return bits - (v % (1 << bits)).bit_length()
            if n == "trailing_zeros":
                return (v & -v).bit_length() - 1 if v else bits
            if n == "count_ones":
                return bin(v % (1 << bits)).count("1")
            return 1 << max(0, (v - 1).bit_length())
        return f
    INT[_n] = _cint_only(_n)


@reg(INT, "checked_div", "checked_rem")
def _cdiv(c):
    a, b = [val(c.E, c.st, x) for x in c.args]
    z = c.E.simp(c.st, T.ieq(b, 0))
    if z is True:
        return none(c)
    r = some(c, T.ibin("idiv" if last(c.fty["n"]) == "checked_div" else "irem", a, b))
    return r if z is False else c.E.join(c.st, z, none(c), r)


@reg(INT, "ilog10", "checked_ilog10")
def _ilog10(c):
    v = val(c.E, c.st, c.args[0])
    if isinstance(v, int):
        r = len(str(v)) - 1
    else:
        r = T.f2i(T.funary("floor", T.funary("log10", T.i2f(v))), 0, 2 ** 32 - 1)
    if last(c.fty["n"]) == "ilog10":
        return r
    if isinstance(v, int):
        return some(c, r) if v > 0 else none(c)
    return c.E.join(c.st, T.ibin("ilt", 0, v), some(c, r), none(c))


@exact("std::iter::Step::forward_unchecked")
def _fwd(c):
    return T.ibin("iadd", c.args[0], c.args[1])


# ------------------------------------------------------------------ ndarray: construction
def full_array(c, shape, x):
    n = 1
    for s in shape:
        n *= s
    return c.E.newarr(c.st, shape, [x] * n)


@reg(ND, "zeros")
def _zeros(c):
    t = c.dty
    z = 0.0
    return full_array(c, ints_of(c.E, c.st, c.args[0]), z)


@reg(ND, "ones")
def _ones(c):
    return full_array(c, ints_of(c.E, c.st, c.args[0]), 1.0)


@reg(ND, "from_elem")
def _from_elem(c):
    return full_array(c, ints_of(c.E, c.st, c.args[0]), c.args[1])


@reg(ND, "default")
def _nddefault(c):
    if not c.args:
        return default_of(c.E, c.st, c.dty if c.dty is not None else c.targ(0))
    return full_array(c, ints_of(c.E, c.st, c.args[0]), 0.0)


@reg(ND, "uninit")
def _uninit(c):
    return full_array(c, ints_of(c.E, c.st, c.args[0]), UNINIT)


def pat(idx):
    return idx[0] if len(idx) == 1 else Agg(None, 0, tuple(idx))


def all_idx(shape):
    out = [()]
    for s in shape:
        out = [o + (k,) for o in out for k in range(s)]
    return out


@reg(ND, "from_shape_fn")
def _from_shape_fn(c):
    sh = ints_of(c.E, c.st, c.args[0])
    return c.E.newarr(c.st, sh, [c.E.call_value(c.st, c.args[1], [pat(i)]) for i in all_idx(sh)])


@reg(ND, "from_shape_simple_fn")
def _from_shape_sfn(c):
    sh = ints_of(c.E, c.st, c.args[0])
    return c.E.newarr(c.st, sh, [c.E.call_value(c.st, c.args[1], []) for _ in all_idx(sh)])


@reg(ND, "from_shape_vec")
def _from_shape_vec(c):
    sh = ints_of(c.E, c.st, c.args[0])
    items = seq_items(c.E, c.st, c.args[1])
    n = 1
    for s in sh:
        n *= s
    if n != len(items):
        return err(c, Report("shape"))
    return ok(c, c.E.newarr(c.st, sh, items))


@reg(ND, "from_vec", "arr1", "from_iter", "aview1")
def _from_vec(c):
    items = drain(c.E, c.st, c.args[0])
    return c.E.newarr(c.st, (len(items),), [unref(c.E, c.st, x) for x in items] if last(c.fty["n"]) in ("arr1", "aview1") else items)


@reg(ND, "arr2")
def _arr2(c):
    rows = [[unref(c.E, c.st, x) for x in seq_items(c.E, c.st, r)] for r in seq_items(c.E, c.st, c.args[0])]
    return c.E.newarr(c.st, (len(rows), len(rows[0]) if rows else 0), [x for r in rows for x in r])


@reg(ND, "linspace")
def _linspace(c):
    a, b = c.args[0], c.args[1]
    n = cint(c.E, c.st, c.args[2])
    step = T.fdiv(T.fsub(b, a), float(n - 1)) if n > 1 else 0.0
    return c.E.newarr(c.st, (n,), [T.fadd(a, T.fmul(step, float(i))) for i in range(n)])


# ------------------------------------------------------------------ ndarray: shape and access
@reg(ND, "len")
def _ndlen(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, Arr):
        return v.size()
    if isinstance(v, IterV):
        return len(drain(c.E, c.st, v, peek=True))
    raise Undecided("len")


@reg(ND, "is_empty")
def _ndempty(c):
    return arr_of(c.E, c.st, c.args[0]).size() == 0


@reg(ND, "dim")
def _nddim(c):
    a = arr_of(c.E, c.st, c.args[0])
    return a.shape[0] if len(a.shape) == 1 else Agg(c.dty, 0, a.shape)


@reg(ND, "raw_dim")
def _ndrdim(c):
    a = arr_of(c.E, c.st, c.args[0])
    return Agg(c.dty, 0, (Agg(None, 0, a.shape),))


@reg(ND, "shape")
def _ndshape(c):
    a = arr_of(c.E, c.st, c.args[0])
    return ValPtr(Agg(None, 0, a.shape))


@reg(ND, "nrows")
def _nrows(c):
    return arr_of(c.E, c.st, c.args[0]).shape[0]


@reg(ND, "ncols")
def _ncols(c):
    return arr_of(c.E, c.st, c.args[0]).shape[1]


@reg(ND, "ndim")
def _ndim(c):
    return len(arr_of(c.E, c.st, c.args[0]).shape)


@reg(ND, "len_of")
def _len_of(c):
    return arr_of(c.E, c.st, c.args[0]).shape[ints_of(c.E, c.st, c.args[1])[0]]


def nd_index(c):
    a = arr_of(c.E, c.st, c.args[0])
    iv = c.E.resolve(c.st, c.args[1])
    try:
        idx = ints_of(c.E, c.st, iv)
    except Undecided:
        return gated_index(c, a, iv)
    if len(idx) != len(a.shape):
        raise Undecided("index arity")
    o = a.at(idx)
    if o is None:
        return die(c, "ndarray: index out of bounds")
    return elref(a, o)


def gated_index(c, a, iv):
    """index that is a finite choice of constants"""
    leaves = []

    def conc(x):
        return isinstance(x, int) and not isinstance(x, bool)

    def scalars(v):
        v = unref(c.E, c.st, v)
        if isinstance(v, Agg):
            out = []
            for f in v.fields:
                out += scalars(f)
            return out
        return [v]
    xs = scalars(iv)

    def go(xs):
        for k, x in enumerate(xs):
            if isinstance(x, Term) and x.op == "ite" and T._leafs(x):
                return VIte(x.args[0], go(xs[:k] + [x.args[1]] + xs[k + 1:]), go(xs[:k] + [x.args[2]] + xs[k + 1:]))
            if not conc(x):
                raise Undecided("symbolic array index")
        o = a.at(xs)
        if o is None:
            raise Undecided("gated index out of bounds")
        return elref(a, o)
    return go(xs)


OPS["std::ops::Index::index"] = OPS["std::ops::IndexMut::index_mut"] = lambda c: any_index(c)


def any_index(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, Arr):
        return nd_index(c)
    iv = c.E.resolve(c.st, c.args[1])
    p = final_ptr(c.E, c.st, c.args[0]) if isinstance(c.args[0], (Ref, ValPtr)) else c.args[0]
    n = c.E.length(c.st, p) if not isinstance(v, StrV) else None
    if isinstance(iv, Agg) and isinstance(iv.ty, int):
        nm = c.E.types[iv.ty].get("n", "")
        lo, hi = range_bounds(c.E, c.st, iv, n)
        if isinstance(v, StrV):
            raise Undecided("string slice")
        if not (0 <= lo <= hi <= n):
            return die(c, "slice index out of range")
        base, off = (p.base, p.off) if isinstance(p, SliceRef) else (p, 0)
        return SliceRef(base, off + lo, hi - lo)
    k = cint(c.E, c.st, iv)
    if not (0 <= k < n):
        return die(c, "index out of bounds")
    if isinstance(p, SliceRef):
        return c.E.project_el(p.base, ("ix", p.off + k), c.st)
    return c.E.project_el(p, ("ix", k), c.st)


def range_bounds(E, st, v, n):
    """concrete (lo, hi) of a range value over a sequence of n elements"""
    if isinstance(v, SliceElem):
        lo, hi = v.start, v.end
        return lo, (n if hi is None else hi)
    nm = E.types[v.ty]["n"].split("::")[-1] if isinstance(v.ty, int) else ""
    f = [cint(E, st, x) if not isinstance(x, bool) else x for x in v.fields]
    if nm == "RangeFull":
        return 0, n
    if nm == "Range":
        return f[0], f[1]
    if nm == "RangeInclusive":
        return f[0], f[1] + 1
    if nm == "RangeFrom":
        return f[0], n
    if nm == "RangeTo":
        return 0, f[0]
    if nm == "RangeToInclusive":
        return 0, f[0] + 1
    raise Undecided("range type " + nm)


@reg(ND, "get", "get_mut")
def _ndget(c):
    a = arr_of(c.E, c.st, c.args[0])
    o = a.at(ints_of(c.E, c.st, c.args[1]))
    return none(c) if o is None else some(c, elref(a, o))


@reg(ND, "uget", "uget_mut")
def _nduget(c):
    return nd_index(c)


@reg(ND, "first", "first_mut")
def _ndfirst(c):
    a = arr_of(c.E, c.st, c.args[0])
    ix = a.indices()
    return some(c, elref(a, ix[0])) if ix else none(c)


@reg(ND, "last", "last_mut")
def _ndlast(c):
    a = arr_of(c.E, c.st, c.args[0])
    ix = a.indices()
    return some(c, elref(a, ix[-1])) if ix else none(c)


def subview(a, axis, k):
    if not (0 <= k < a.shape[axis]):
        return None
    return Arr(a.buf, a.shape[:axis] + a.shape[axis + 1:], a.strides[:axis] + a.strides[axis + 1:],
               a.off + k * a.strides[axis], False)


@reg(ND, "row", "row_mut")
def _row(c):
    r = subview(arr_of(c.E, c.st, c.args[0]), 0, cint(c.E, c.st, c.args[1]))
    return r if r is not None else die(c, "row out of bounds")


@reg(ND, "column", "column_mut")
def _col(c):
    r = subview(arr_of(c.E, c.st, c.args[0]), 1, cint(c.E, c.st, c.args[1]))
    return r if r is not None else die(c, "column out of bounds")


@reg(ND, "index_axis", "index_axis_mut", "index_axis_move")
def _index_axis(c):
    r = subview(arr_of(c.E, c.st, c.args[0]), ints_of(c.E, c.st, c.args[1])[0], cint(c.E, c.st, c.args[2]))
    return r if r is not None else die(c, "axis index out of bounds")


@reg(ND, "view", "view_mut", "reborrow", "into_dyn", "into_dimensionality_view")
def _view(c):
    return arr_of(c.E, c.st, c.args[0]).view()


@reg(ND, "t", "reversed_axes")
def _t(c):
    a = arr_of(c.E, c.st, c.args[0])
    return Arr(a.buf, a.shape[::-1], a.strides[::-1], a.off, a.owned and last(c.fty["n"]) != "t")


@reg(ND, "swap_axes")
def _swap_axes(c):
    a = arr_of(c.E, c.st, c.args[0])
    i, j = ints_of(c.E, c.st, c.args[1])[0], ints_of(c.E, c.st, c.args[2])[0]
    sh, sr = list(a.shape), list(a.strides)
    sh[i], sh[j], sr[i], sr[j] = sh[j], sh[i], sr[j], sr[i]
    c.E.store(c.st, c.args[0], Arr(a.buf, sh, sr, a.off, a.owned))
    return UNIT


@reg(ND, "insert_axis")
def _insert_axis(c):
    a = arr_of(c.E, c.st, c.args[0])
    k = ints_of(c.E, c.st, c.args[1])[0]
    return Arr(a.buf, a.shape[:k] + (1,) + a.shape[k:], a.strides[:k] + (0,) + a.strides[k:], a.off, a.owned)


@reg(ND, "broadcast")
def _broadcast(c):
    a = arr_of(c.E, c.st, c.args[0])
    sh = tuple(ints_of(c.E, c.st, c.args[1]))
    if broadcast(a.shape, sh) != sh:
        return none(c)
    return some(c, bview(a, sh))


@reg(ND, "to_owned", "into_owned", "clone", "to_shared")
def _to_owned(c):
    a = arr_of(c.E, c.st, c.args[0])
    if last(c.fty["n"]) == "clone" and not a.owned:
        return a
    return c.E.newarr(c.st, a.shape, [deepcopy(c.E, c.st, x) for x in data(c.st, a)])


@reg(ND, "into_shape", "into_shape_with_order", "to_shape")
def _into_shape(c):
    a = arr_of(c.E, c.st, c.args[0])
    sh = ints_of(c.E, c.st, c.args[1])
    n = 1
    for s in sh:
        n *= s
    if n != a.size():
        return err(c, Report("shape"))
    if not a.owned:
        raise Undecided("into_shape of a view")
    return ok(c, c.E.newarr(c.st, sh, data(c.st, a)))


@reg(ND, "to_vec", "into_raw_vec", "into_raw_vec_and_offset")
def _ndtovec(c):
    return VecV(data(c.st, arr_of(c.E, c.st, c.args[0])))


@reg(ND, "as_slice", "as_slice_mut", "as_slice_memory_order", "as_slice_memory_order_mut", "to_slice", "into_slice")
def _as_slice(c):
    a = arr_of(c.E, c.st, c.args[0])
    ix = a.indices()
    if ix != list(range(ix[0], ix[0] + len(ix))) if ix else False:
        return none(c)
    return some(c, SliceRef(Ref(a.buf), a.off, a.size()))


# slicing
def slice_elem(E, st, v):
    v = unref(E, st, v)
    if isinstance(v, SliceElem):
        return v
    if isinstance(v, int):
        return SliceElem("index", v)
    if isinstance(v, Agg) and isinstance(v.ty, int):
        nm = E.types[v.ty]["n"].split("::")[-1]
        if nm in ("SliceInfoElem", "Slice"):
            # constructed directly
            if nm == "SliceInfoElem" and v.variant == 1:
                return SliceElem("index", cint(E, st, v.fields[0]))
            if nm == "SliceInfoElem" and v.variant == 2:
                return SliceElem("newaxis")
            e = E.resolve(st, v.fields[1])
            end = cint(E, st, e.fields[0]) if e.variant == 1 else None
            return SliceElem("slice", cint(E, st, v.fields[0]), end, cint(E, st, v.fields[2]))
        if nm == "NewAxis":
            return SliceElem("newaxis")
        if nm == "RangeFull":
            return SliceElem("slice", 0, None)
        f = [cint(E, st, x) for x in v.fields if not isinstance(x, bool)]
        if nm == "Range":
            return SliceElem("slice", f[0], f[1])
        if nm == "RangeInclusive":
            return SliceElem("slice", f[0], f[1] + 1 if f[1] != -1 else None)
        if nm == "RangeFrom":
            return SliceElem("slice", f[0], None)
        if nm == "RangeTo":
            return SliceElem("slice", 0, f[0])
        if nm == "RangeToInclusive":
            return SliceElem("slice", 0, f[0] + 1 if f[0] != -1 else None)
    raise Undecided("slice element %s" % type(v).__name__)


@exact("ndarray::Slice::step_by", "ndarray::slice::Slice::step_by")
def _slice_step(c):
    e = slice_elem(c.E, c.st, c.args[0])
    return SliceElem("slice", e.start, e.end, e.step * cint(c.E, c.st, c.args[1]))


@exact("ndarray::Slice::new", "ndarray::slice::Slice::new")
def _slice_new(c):
    e = c.E.resolve(c.st, c.args[1])
    return SliceElem("slice", cint(c.E, c.st, c.args[0]), cint(c.E, c.st, e.fields[0]) if e.variant == 1 else None, cint(c.E, c.st, c.args[2]))


@exact("ndarray::SliceInfo::<T, Din, Dout>::new_unchecked", "ndarray::SliceInfo::new_unchecked")
def _si_new(c):
    return slice_info(c.E, c.st, c.args[0])


@reg(ND, "new_unchecked")
def _si_new2(c):
    return slice_info(c.E, c.st, c.args[0])


def slice_info(E, st, v):
    v = unref(E, st, v)
    if isinstance(v, SliceInfoV):
        return v
    if isinstance(v, Agg):
        if isinstance(v.ty, int) and E.types[v.ty]["k"] == "adt" and E.types[v.ty]["n"].endswith("SliceInfo"):
            return slice_info(E, st, v.fields[-1])
        if isinstance(v.ty, int) and E.types[v.ty]["k"] == "adt":
            return SliceInfoV([slice_elem(E, st, v)])
        return SliceInfoV([slice_elem(E, st, x) for x in v.fields])
    raise Undecided("slice info %s" % type(v).__name__)


@reg(ND, "step_by")
def _sl_step(c):
    e = slice_elem(c.E, c.st, c.args[0])
    return SliceElem(e.kind, e.start, e.end, e.step * cint(c.E, c.st, c.args[1]))


@exact("ndarray::Slice::new")
def _sl_new(c):
    e = c.E.resolve(c.st, c.args[1])
    return SliceElem("slice", cint(c.E, c.st, c.args[0]), cint(c.E, c.st, e.fields[0]) if e.variant == 1 else None,
                     cint(c.E, c.st, c.args[2]))


@reg(ND, "next_in_dim", "next_out_dim")
def _next_dim(c):
    return Agg(c.dty, 0, ())


def apply_slice(a, elems):
    sh, sr, off = [], [], a.off
    ax = 0
    for e in elems:
        if e.kind == "newaxis":
            sh.append(1)
            sr.append(0)
            continue
        n, s = a.shape[ax], a.strides[ax]
        if e.kind == "index":
            k = e.start + n if e.start < 0 else e.start
            if not (0 <= k < n):
                return None
            off += k * s
        else:
            lo = e.start + n if e.start < 0 else e.start
            hi = n if e.end is None else (e.end + n if e.end < 0 else e.end)
            if hi < lo:
                hi = lo
            if not (0 <= lo <= n and hi <= n):
                return None
            m = hi - lo
            if e.step < 0:
                off += (hi - 1) * s if m > 0 else lo * s
            else:
                off += lo * s
            k = abs(e.step)
            sh.append((m + k - 1) // k)
            sr.append(s * e.step)
        ax += 1
    if ax != len(a.shape):
        raise Undecided("slice arity")
    return Arr(a.buf, sh, sr, off, False)


@reg(ND, "slice", "slice_mut", "slice_move")
def _slice(c):
    a = arr_of(c.E, c.st, c.args[0])
    v = apply_slice(a, slice_info(c.E, c.st, c.args[1]).elems)
    return v if v is not None else die(c, "ndarray: slice out of bounds")


@reg(ND, "slice_collapse")
def _slice_coll(c):
    a = arr_of(c.E, c.st, c.args[0])
    c.E.store(c.st, c.args[0], apply_slice(a, slice_info(c.E, c.st, c.args[1]).elems))
    return UNIT


@reg(ND, "multi_slice_mut")
def _multi_slice(c):
    a = arr_of(c.E, c.st, c.args[0])
    infos = c.E.resolve(c.st, c.args[1]).fields
    vs = [apply_slice(a, slice_info(c.E, c.st, i).elems) for i in infos]
    return Agg(c.dty, 0, vs)


@reg(ND, "slice_axis", "slice_axis_mut")
def _slice_axis(c):
    a = arr_of(c.E, c.st, c.args[0])
    k = ints_of(c.E, c.st, c.args[1])[0]
    e = slice_elem(c.E, c.st, c.args[2])
    return apply_slice(a, [e if i == k else SliceElem("slice", 0, None) for i in range(len(a.shape))])


@reg(ND, "split_at")
def _nd_split(c):
    a = arr_of(c.E, c.st, c.args[0])
    k, n = ints_of(c.E, c.st, c.args[1])[0], cint(c.E, c.st, c.args[2])
    f = SliceElem("slice", 0, None)
    x = [SliceElem("slice", 0, n) if i == k else f for i in range(len(a.shape))]
    y = [SliceElem("slice", n, None) if i == k else f for i in range(len(a.shape))]
    return Agg(c.dty, 0, (apply_slice(a, x), apply_slice(a, y)))


# ------------------------------------------------------------------ ndarray: bulk operations
@reg(ND, "assign")
def _assign(c):
    a, b = arr_of(c.E, c.st, c.args[0]), arr_of(c.E, c.st, c.args[1])
    if broadcast(a.shape, b.shape) != a.shape:
        return die(c, "ndarray: assign shape mismatch")
    setdata(c.st, a, data(c.st, bview(b, a.shape)))
    return UNIT


@reg(ND, "assign_to")
def _assign_to(c):
    b, a = arr_of(c.E, c.st, c.args[0]), arr_of(c.E, c.st, c.args[1])
    setdata(c.st, a, data(c.st, bview(b, a.shape)))
    return UNIT


@reg(ND, "fill")
def _fill(c):
    a = arr_of(c.E, c.st, c.args[0])
    setdata(c.st, a, [c.args[1]] * a.size())
    return UNIT


@reg(ND, "fold")
def _ndfold(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, ZipV):
        return zip_fold(c)
    if isinstance(v, IterV):
        return ITER["fold"](c)
    a = arr_of(c.E, c.st, v)
    acc = c.args[1]
    for o in a.indices():
        acc = c.E.call_value(c.st, c.args[2], [acc, elref(a, o)])
        if c.st.dead:
            return UNINIT
    return acc


@reg(ND, "map", "map_ref", "mapv", "mapv_into", "mapv_into_any", "map_mut", "par_map", "par_mapv")
def _ndmap(c):
    a = arr_of(c.E, c.st, c.args[0])
    byval = "mapv" in last(c.fty["n"])
    out = []
    for o in a.indices():
        x = c.st.cells[a.buf][o] if byval else elref(a, o)
        out.append(c.E.call_value(c.st, c.args[1], [x]))
        if c.st.dead:
            return UNINIT
    return c.E.newarr(c.st, a.shape, out)


@reg(ND, "mapv_inplace", "par_mapv_inplace")
def _mapv_inplace(c):
    a = arr_of(c.E, c.st, c.args[0])
    for o in a.indices():
        r = c.E.call_value(c.st, c.args[1], [c.st.cells[a.buf][o]])
        if c.st.dead:
            return UNINIT
        c.E.store(c.st, elref(a, o), r)
    return UNIT


@reg(ND, "map_inplace", "par_map_inplace")
def _map_inplace(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, IterV):
        return ITER["for_each"](c)
    if isinstance(v, ZipV):
        return zip_each(c)
    a = arr_of(c.E, c.st, v)
    for o in a.indices():
        c.E.call_value(c.st, c.args[1], [elref(a, o)])
        if c.st.dead:
            return UNINIT
    return UNIT


ND["for_each"] = ND["map_inplace"]


@reg(ND, "zip_mut_with")
def _zip_mut_with(c):
    a, b = arr_of(c.E, c.st, c.args[0]), arr_of(c.E, c.st, c.args[1])
    if broadcast(a.shape, b.shape) != a.shape:
        return die(c, "ndarray: shape mismatch")
    for o, p in zip(a.indices(), bview(b, a.shape).indices()):
        c.E.call_value(c.st, c.args[2], [elref(a, o), elref(b, p)])
        if c.st.dead:
            return UNINIT
    return UNIT


@reg(ND, "scaled_add")
def _scaled_add(c):
    a, b = arr_of(c.E, c.st, c.args[0]), arr_of(c.E, c.st, c.args[2])
    k = c.args[1]
    setdata(c.st, a, [T.fadd(x, T.fmul(k, y)) for x, y in zip(data(c.st, a), data(c.st, bview(b, a.shape)))])
    return UNIT


@reg(ND, "sum")
def _ndsum(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, IterV):
        return ITER["sum"](c)
    acc = 0.0
    for x in data(c.st, arr_of(c.E, c.st, v)):
        acc = c.E.binop(c.st, "Add", acc if T.is_float(x) else 0 if acc == 0.0 else acc, x)
    return acc


@reg(ND, "product")
def _ndprod(c):
    acc = 1.0
    for x in data(c.st, arr_of(c.E, c.st, c.args[0])):
        acc = T.fmul(acc, x)
    return acc


@reg(ND, "mean")
def _ndmean(c):
    a = arr_of(c.E, c.st, c.args[0])
    acc = 0.0
    for x in data(c.st, a):
        acc = T.fadd(acc, x)
    return some(c, T.fdiv(acc, float(a.size())))


@reg(ND, "dot")
def _dot(c):
    a, b = arr_of(c.E, c.st, c.args[0]), arr_of(c.E, c.st, c.args[1])
    if len(a.shape) == 1 and len(b.shape) == 1:
        acc = 0.0
        for x, y in zip(data(c.st, a), data(c.st, b)):
            acc = T.fadd(acc, T.fmul(x, y))
        return acc
    raise Undecided("matrix product")


@reg(ND, "sum_axis")
def _sum_axis(c):
    a = arr_of(c.E, c.st, c.args[0])
    k = ints_of(c.E, c.st, c.args[1])[0]
    subs = [data(c.st, subview(a, k, i)) for i in range(a.shape[k])]
    out = []
    for xs in zip(*subs):
        acc = 0.0
        for x in xs:
            acc = T.fadd(acc, x)
        out.append(acc)
    return c.E.newarr(c.st, a.shape[:k] + a.shape[k + 1:], out)


@reg(ND, "swap")
def _ndswap(c):
    a = arr_of(c.E, c.st, c.args[0])
    p, q = elref(a, a.at(ints_of(c.E, c.st, c.args[1]))), elref(a, a.at(ints_of(c.E, c.st, c.args[2])))
    x, y = c.E.load(c.st, p), c.E.load(c.st, q)
    c.E.store(c.st, p, y)
    c.E.store(c.st, q, x)
    return UNIT


@reg(ND, "iter", "iter_mut", "into_iter")
def _nditer(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, IterV):
        return v
    a = arr_of(c.E, c.st, v)
    t = c.targ(0)
    if last(c.fty["n"]) == "into_iter" and a.owned and t is not None and c.E.types[t]["k"] != "ref":
        return IterV("list", tuple(data(c.st, a)), 0)
    return IterV("list", tuple(elref(a, o) for o in a.indices()), 0)


@reg(ND, "indexed_iter", "indexed_iter_mut")
def _ndiiter(c):
    a = arr_of(c.E, c.st, c.args[0])
    return IterV("list", tuple(Agg(None, 0, (pat(i), elref(a, a.at(i)))) for i in all_idx(a.shape)), 0)


def outer(a, k=0):
    return IterV("list", tuple(subview(a, k, i) for i in range(a.shape[k])), 0)


@reg(ND, "outer_iter", "outer_iter_mut")
def _outer(c):
    return outer(arr_of(c.E, c.st, c.args[0]))


@reg(ND, "axis_iter", "axis_iter_mut")
def _axis_iter(c):
    return outer(arr_of(c.E, c.st, c.args[0]), ints_of(c.E, c.st, c.args[1])[0])


@reg(ND, "rows", "rows_mut", "genrows", "genrows_mut")
def _rows(c):
    a = arr_of(c.E, c.st, c.args[0])
    return Obj("lanes", shape=a.shape[:1], items=tuple(subview(a, 0, i) for i in range(a.shape[0])))


@reg(ND, "columns", "columns_mut", "gencolumns")
def _columns(c):
    a = arr_of(c.E, c.st, c.args[0])
    return Obj("lanes", shape=a.shape[1:], items=tuple(subview(a, 1, i) for i in range(a.shape[1])))


@reg(ND, "windows")
def _ndwindows(c):
    a = arr_of(c.E, c.st, c.args[0])
    w = ints_of(c.E, c.st, c.args[1])
    if len(a.shape) != 1 or len(w) != 1:
        raise Undecided("multi-dimensional windows")
    n = max(0, a.shape[0] - w[0] + 1)
    return Obj("lanes", shape=(n,), items=tuple(Arr(a.buf, (w[0],), a.strides, a.off + i * a.strides[0], False) for i in range(n)))


@reg(ND, "eq")
def _ndeq(c):
    return _eq(c)


@reg(ND, "ne")
def _ndne(c):
    return T.NOT(_eq(c))


@reg(ND, "abs")
def _ndabs(c):
    a = arr_of(c.E, c.st, c.args[0])
    return c.E.newarr(c.st, a.shape, [T.funary("abs", x) for x in data(c.st, a)])


# Zip
def producer(E, st, v):
    v = unref(E, st, v)
    if isinstance(v, Arr):
        return ("arr", v.shape, v)
    if isinstance(v, Obj) and v.kind == "lanes":
        return ("lanes", v.d["shape"], v.d["items"])
    if isinstance(v, IterV):
        items = drain(E, st, v)
        return ("lanes", (len(items),), tuple(items))
    raise Undecided("Zip over %s" % type(v).__name__)


@reg(ND, "from")
def _zip_from(c):
    nm = c.inst["full"] if c.inst else ""
    if "SliceInfoElem" in nm:
        return slice_elem(c.E, c.st, c.args[0])
    if "Zip" in nm:
        return ZipV([producer(c.E, c.st, c.args[0])])
    return _from(c)


@reg(ND, "indexed")
def _zip_indexed(c):
    return ZipV([producer(c.E, c.st, c.args[0])], True)


@reg(ND, "and", "and_broadcast")
def _zip_and(c):
    z = unref(c.E, c.st, c.args[0])
    p = producer(c.E, c.st, c.args[1])
    sh = z.prods[0][1]
    if p[1] != sh:
        if last(c.fty["n"]) == "and_broadcast" and p[0] == "arr" and broadcast(p[1], sh) == sh:
            p = ("arr", sh, bview(p[2], sh))
        else:
            return die(c, "Zip: shapes differ")
    return ZipV(z.prods + (p,), z.indexed)


def zip_items(z):
    sh = z.prods[0][1]
    for n, idx in enumerate(all_idx(sh)):
        out = [pat(idx)] if z.indexed else []
        for k, _, p in z.prods:
            out.append(elref(p, p.at(idx)) if k == "arr" else p[n])
        yield out


def zip_each(c):
    z = unref(c.E, c.st, c.args[0])
    for it in zip_items(z):
        c.E.call_value(c.st, c.args[1], it)
        if c.st.dead:
            return UNINIT
    return UNIT


ND["par_for_each"] = ND["apply"] = ND["par_apply"] = lambda c: zip_each(c)
RAY["par_for_each"] = lambda c: zip_each(c)


def zip_fold(c):
    z = unref(c.E, c.st, c.args[0])
    acc = c.args[1]
    for it in zip_items(z):
        acc = c.E.call_value(c.st, c.args[2], [acc] + it)
        if c.st.dead:
            return UNINIT
    return acc


@reg(ND, "map_collect", "par_map_collect", "apply_collect")
def _map_collect(c):
    z = unref(c.E, c.st, c.args[0])
    out = []
    for it in zip_items(z):
        out.append(c.E.call_value(c.st, c.args[1], it))
        if c.st.dead:
            return UNINIT
    return c.E.newarr(c.st, z.prods[0][1], out)


RAY["par_map_collect"] = ND["map_collect"]


@reg(ND, "map_assign_into", "par_map_assign_into")
def _map_assign_into(c):
    z = unref(c.E, c.st, c.args[0])
    a = arr_of(c.E, c.st, c.args[1])
    for it, o in zip(list(zip_items(z)), a.indices()):
        r = c.E.call_value(c.st, c.args[2], it)
        if c.st.dead:
            return UNINIT
        c.E.store(c.st, elref(a, o), r)
    return UNIT


RAY["par_map_assign_into"] = ND["map_assign_into"]


@reg(ND, "all")
def _zip_all(c):
    z = unref(c.E, c.st, c.args[0])
    if isinstance(z, IterV):
        return ITER["all"](c)
    r = True
    for it in zip_items(z):
        r = T.AND(r, c.E.call_value(c.st, c.args[1], it))
    return r


@reg(ND, "any")
def _zip_any(c):
    z = unref(c.E, c.st, c.args[0])
    if isinstance(z, IterV):
        return ITER["any"](c)
    r = False
    for it in zip_items(z):
        r = T.OR(r, c.E.call_value(c.st, c.args[1], it))
    return r


# ------------------------------------------------------------------ sequences and iterators
def seq_items(E, st, v):
    """values of a Vec / array / slice (by value)"""
    v = E.resolve(st, v)
    for _ in range(5):
        if isinstance(v, (Ref, ValPtr)):
            v = E.resolve(st, E.load(st, v))
    if isinstance(v, VecV):
        return list(v.items)
    if isinstance(v, Agg):
        return list(v.fields)
    if isinstance(v, SliceRef):
        return [E.load(st, E.project_el(v.base, ("ix", v.off + i), st)) for i in range(v.len)]
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Arr):
        return data(st, v)
    if isinstance(v, StrV):
        raise Undecided("string as sequence")
    raise Undecided("sequence expected, found %s" % type(v).__name__)


def seq_refs(E, st, p):
    """element pointers of the sequence behind p"""
    p = E.resolve(st, p)
    for _ in range(5):
        if isinstance(p, SliceRef):
            return [E.project_el(p.base, ("ix", p.off + i), st) for i in range(p.len)]
        if isinstance(p, Arr):
            return [elref(p, o) for o in p.indices()]
        if not isinstance(p, (Ref, ValPtr)):
            break
        v = E.resolve(st, E.load(st, p))
        if isinstance(v, VecV):
            return [E.project_el(p, ("ix", i), st) for i in range(len(v.items))]
        if isinstance(v, (Agg,)) and (not isinstance(v.ty, int) or E.types[v.ty]["k"] == "array"):
            return [E.project_el(p, ("ix", i), st) for i in range(len(v.fields))]
        p = v
    raise Undecided("sequence expected, found %s" % type(p).__name__)


def as_iter(E, st, v):
    """iterator value from an IntoIterator value"""
    v = E.resolve(st, v)
    if isinstance(v, IterV):
        return v
    if isinstance(v, Obj) and v.kind == "lanes":
        return IterV("list", tuple(v.d["items"]), 0)
    if isinstance(v, Agg):
        nm = E.types[v.ty].get("n", "").split("::")[-1] if isinstance(v.ty, int) and E.types[v.ty]["k"] == "adt" else ""
        if nm == "Range":
            return IterV("range", v.fields[0], v.fields[1], False)
        if nm == "RangeInclusive":
            if v.fields[2] is not False:
                return IterV("list", (), 0)
            return IterV("range", v.fields[0], v.fields[1], True)
        if nm == "RangeFrom":
            return IterV("from", v.fields[0])
        if nm == "Option":
            return IterV("list", tuple(v.fields) if v.variant == 1 else (), 0)
        if nm == "Result":
            return IterV("list", tuple(v.fields) if v.variant == 0 else (), 0)
        return IterV("list", tuple(v.fields), 0)
    if isinstance(v, VecV):
        return IterV("list", v.items, 0)
    if isinstance(v, Arr):
        if v.owned:
            return IterV("list", tuple(data(st, v)), 0)
        return IterV("list", tuple(elref(v, o) for o in v.indices()), 0)
    if isinstance(v, (Ref, ValPtr, SliceRef)):
        if isinstance(v, Ref):
            w = E.resolve(st, E.load(st, v))
            if isinstance(w, IterV) or (isinstance(w, Agg) and isinstance(w.ty, int) and E.types[w.ty]["k"] == "adt"
                                        and E.types[w.ty]["n"].split("::")[-1] in ("Range", "RangeInclusive")):
                return IterV("byref", v)
        return IterV("list", tuple(seq_refs(E, st, v)), 0)
    raise Undecided("iteration over %s" % type(v).__name__)


def pull(E, st, it, back=False):
    """(item or None, next iterator); item None means exhausted"""
    k, a = it.kind, it.a
    if k == "list":
        items, pos = a
        if pos >= len(items):
            return None, it
        if back:
            return items[-1], IterV("list", items[:-1], pos)
        return items[pos], IterV("list", items, pos + 1)
    if k == "range":
        lo, hi, inc = a
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raise Undecided("iteration over a range with unknown bounds")
        n = hi + 1 if inc else hi
        if lo >= n:
            return None, it
        if back:
            return n - 1, IterV("range", lo, n - 1, False)
        return lo, IterV("range", lo + 1, n, False)
    if k == "from":
        return a[0], IterV("from", T.ibin("iadd", a[0], 1))
    if k == "byref":
        inner = as_iter(E, st, E.load(st, a[0]))
        x, n = pull(E, st, inner, back)
        E.store(st, a[0], n)
        return x, it
    if k == "map":
        x, n = pull(E, st, a[0], back)
        if x is None:
            return None, IterV("map", n, a[1])
        y = E.call_value(st, a[1], [x])
        return y, IterV("map", n, a[1])
    if k == "cloned":
        x, n = pull(E, st, a[0], back)
        if x is None:
            return None, IterV("cloned", n)
        return deepcopy(E, st, E.load(st, x)), IterV("cloned", n)
    if k == "rev":
        x, n = pull(E, st, a[0], not back)
        return x, IterV("rev", n)
    if k == "enumerate":
        if back:
            items = drain(E, st, a[0])
            return pull(E, st, IterV("list", tuple(Agg(None, 0, (a[1] + i, x)) for i, x in enumerate(items)), 0), True)
        x, n = pull(E, st, a[0])
        if x is None:
            return None, IterV("enumerate", n, a[1])
        return Agg(None, 0, (a[1], x)), IterV("enumerate", n, a[1] + 1)
    if k == "zip":
        if back:
            xs, ys = drain(E, st, a[0]), drain(E, st, a[1])
            return pull(E, st, IterV("list", tuple(Agg(None, 0, (x, y)) for x, y in zip(xs, ys)), 0), True)
        x, n = pull(E, st, a[0])
        if x is None:
            return None, IterV("zip", n, a[1])
        y, m = pull(E, st, a[1])
        if y is None:
            return None, IterV("zip", n, m)
        return Agg(None, 0, (x, y)), IterV("zip", n, m)
    if k == "chain":
        first, second = (a[1], a[0]) if back else (a[0], a[1])
        x, n = pull(E, st, first, back)
        if x is not None:
            return x, (IterV("chain", second, n) if back else IterV("chain", n, second))
        x, n = pull(E, st, second, back)
        return x, (IterV("chain", n, first) if back else IterV("chain", first, n))
    if k == "skip":
        inner, n = a
        if back:
            items = drain(E, st, it)
            return pull(E, st, IterV("list", tuple(items), 0), True)
        for _ in range(n):
            x, inner = pull(E, st, inner)
            if x is None:
                return None, IterV("skip", inner, 0)
        x, inner = pull(E, st, inner)
        return x, IterV("skip", inner, 0)
    if k == "take":
        inner, n = a
        if back:
            return pull(E, st, IterV("list", tuple(drain(E, st, it)), 0), True)
        if n == 0:
            return None, it
        x, inner = pull(E, st, inner)
        return x, IterV("take", inner, n - 1)
    if k == "step":
        inner, n, first = a
        if back:
            return pull(E, st, IterV("list", tuple(drain(E, st, it)), 0), True)
        if not first:
            for _ in range(n - 1):
                x, inner = pull(E, st, inner)
                if x is None:
                    return None, IterV("step", inner, n, False)
        x, inner = pull(E, st, inner)
        return x, IterV("step", inner, n, False)
    if k == "filter":
        inner, f = a
        while True:
            x, inner = pull(E, st, inner, back)
            if x is None:
                return None, IterV("filter", inner, f)
            g = E.simp(st, E.call_value(st, f, [ValPtr(x)]))
            if g is True:
                return x, IterV("filter", inner, f)
            if g is not False:
                raise Undecided("filter on an unknown predicate")
    if k == "filter_map":
        inner, f = a
        while True:
            x, inner = pull(E, st, inner, back)
            if x is None:
                return None, IterV("filter_map", inner, f)
            g = E.resolve(st, E.call_value(st, f, [x]))
            if not isinstance(g, Agg):
                raise Undecided("filter_map on an unknown predicate")
            if g.variant == 1:
                return g.fields[0], IterV("filter_map", inner, f)
    if k == "take_while":
        inner, f = a
        x, inner = pull(E, st, inner, back)
        if x is None:
            return None, IterV("list", (), 0)
        g = E.simp(st, E.call_value(st, f, [ValPtr(x)]))
        if g is True:
            return x, IterV("take_while", inner, f)
        if g is False:
            return None, IterV("list", (), 0)
        raise Undecided("take_while on an unknown predicate")
    if k == "inspect":
        x, n = pull(E, st, a[0], back)
        if x is not None:
            E.call_value(st, a[1], [ValPtr(x)])
        return x, IterV("inspect", n, a[1])
    if k == "peek":
        inner, held = a
        if held is not None and not back:
            return held[0], IterV("peek", inner, None)
        x, n = pull(E, st, inner, back)
        return x, IterV("peek", n, held)
    if k == "flat":
        cur, inner = a
        while True:
            if cur is not None:
                x, cur = pull(E, st, cur)
                if x is not None:
                    return x, IterV("flat", cur, inner)
            y, inner = pull(E, st, inner)
            if y is None:
                return None, IterV("flat", None, inner)
            cur = as_iter(E, st, y)
    if k == "windows":
        p, n, w, pos = a
        if pos + w > n:
            return None, it
        base, off = (p.base, p.off) if isinstance(p, SliceRef) else (p, 0)
        return SliceRef(base, off + pos, w), IterV("windows", p, n, w, pos + 1)
    if k == "repeat":
        return a[0], it
    if k == "successors":
        cur, f = a
        cur = E.resolve(st, cur)
        if not isinstance(cur, Agg):
            raise Undecided("successors")
        if cur.variant == 0:
            return None, it
        nx = E.call_value(st, f, [ValPtr(cur.fields[0])])
        return cur.fields[0], IterV("successors", nx, f)
    raise Undecided("iterator kind " + k)


def drain(E, st, v, peek=False):
    it = as_iter(E, st, v)
    out = []
    while True:
        x, it = pull(E, st, it)
        if st.dead:
            return out
        if x is None:
            return out
        out.append(x)
        if len(out) > 4000:
            raise Undecided("iterator too long")


@reg(ITER, "into_iter", "by_ref", "iter", "into_par_iter", "fuse")
def _into_iter(c):
    v = c.E.resolve(c.st, c.args[0])
    nm = last(c.fty["n"])
    if nm == "by_ref":
        return v
    if isinstance(v, (IterV,)):
        return v
    if isinstance(v, Agg) and isinstance(v.ty, int) and c.E.types[v.ty]["k"] == "adt" and c.E.types[v.ty]["n"].split("::")[-1] in (
            "Range", "RangeInclusive", "RangeFrom"):
        return v  # a range is its own iterator
    if isinstance(v, Agg) and isinstance(v.ty, int) and c.E.types[v.ty]["k"] == "adt" and c.dty is not None and c.dty == v.ty:
        return v
    return as_iter(c.E, c.st, v)


EXACT["std::iter::IntoIterator::into_iter"] = ITER["into_iter"]


@exact("std::ops::RangeInclusive::<Idx>::new")
def _ri_new(c):
    return Agg(c.dty, 0, (c.args[0], c.args[1], False))


@reg(ITER, "next", "next_back")
def _next(c):
    E, st = c.E, c.st
    back = last(c.fty["n"]) == "next_back"
    p = final_ptr(E, st, c.args[0])
    v = E.resolve(st, E.load(st, p))
    if isinstance(v, Agg) and isinstance(v.ty, int):
        nm = E.types[v.ty].get("n", "").split("::")[-1]
        if nm == "Range" and not back:
            lo, hi = v.fields
            g = E.binop(st, "Lt", lo, hi)
            if g is True:
                E.store(st, p, Agg(v.ty, 0, (E.binop(st, "Add", lo, 1), hi)))
                return some(c, lo)
            if g is False:
                return none(c)
            E.store(st, p, Agg(v.ty, 0, (T.ITE(g, T.ibin("iadd", lo, 1), lo), hi)))
            return VIte(g, some(c, lo), none(c))
        if nm == "Range":
            lo, hi = v.fields
            g = E.binop(st, "Lt", lo, hi)
            if g is True:
                E.store(st, p, Agg(v.ty, 0, (lo, E.binop(st, "Sub", hi, 1))))
                return some(c, E.binop(st, "Sub", hi, 1))
            if g is False:
                return none(c)
            raise Undecided("reverse iteration over unknown bounds")
        if nm == "RangeInclusive":
            lo, hi, ex = v.fields
            if isinstance(lo, int) and isinstance(hi, int):
                if ex is True or lo > hi:
                    return none(c)
                if back:
                    E.store(st, p, Agg(v.ty, 0, (lo, hi - 1, False) if hi > lo else (lo, hi, True)))
                    return some(c, hi)
                E.store(st, p, Agg(v.ty, 0, (lo + 1, hi, False) if hi > lo else (lo, hi, True)))
                return some(c, lo)
            g = T.AND(T.NOT(ex), E.binop(st, "Le", lo, hi))
            g = E.simp(st, g)
            e = E.binop(st, "Eq", lo, hi)
            E.store(st, p, Agg(v.ty, 0, (T.ITE(g, T.ibin("iadd", lo, 1), lo), hi, T.OR(ex, T.AND(g, e)))))
            return VIte(g, some(c, lo), none(c)) if not isinstance(g, bool) else some(c, lo) if g else none(c)
    it = as_iter(E, st, v) if not isinstance(v, IterV) else v
    x, n = pull(E, st, it, back)
    E.store(st, p, n)
    return none(c) if x is None else some(c, x)


@reg(ITER, "nth")
def _nth(c):
    E, st = c.E, c.st
    p = final_ptr(E, st, c.args[0])
    it = as_iter(E, st, E.load(st, p))
    x = None
    for _ in range(cint(E, st, c.args[1]) + 1):
        x, it = pull(E, st, it)
    E.store(st, p, it)
    return none(c) if x is None else some(c, x)


@reg(ITER, "last")
def _last(c):
    xs = drain(c.E, c.st, c.args[0])
    return some(c, xs[-1]) if xs else none(c)


def adaptor(kind, *extra):
    def f(c):
        return IterV(kind, as_iter(c.E, c.st, c.args[0]), *[c.args[1 + i] for i in range(len(extra))])
    return f


ITER["map"] = adaptor("map", 1)
ITER["filter"] = adaptor("filter", 1)
ITER["filter_map"] = adaptor("filter_map", 1)
ITER["take_while"] = adaptor("take_while", 1)
ITER["inspect"] = adaptor("inspect", 1)
ITER["rev"] = adaptor("rev")
ITER["cloned"] = ITER["copied"] = adaptor("cloned")
ITER["enumerate"] = lambda c: IterV("enumerate", as_iter(c.E, c.st, c.args[0]), 0)
ITER["peekable"] = lambda c: IterV("peek", as_iter(c.E, c.st, c.args[0]), None)
ITER["zip"] = lambda c: IterV("zip", as_iter(c.E, c.st, c.args[0]), as_iter(c.E, c.st, c.args[1]))
ITER["chain"] = lambda c: IterV("chain", as_iter(c.E, c.st, c.args[0]), as_iter(c.E, c.st, c.args[1]))
ITER["skip"] = lambda c: IterV("skip", as_iter(c.E, c.st, c.args[0]), cint(c.E, c.st, c.args[1]))
ITER["take"] = lambda c: IterV("take", as_iter(c.E, c.st, c.args[0]), cint(c.E, c.st, c.args[1]))
ITER["step_by"] = lambda c: IterV("step", as_iter(c.E, c.st, c.args[0]), cint(c.E, c.st, c.args[1]), True)
ITER["flatten"] = lambda c: IterV("flat", None, as_iter(c.E, c.st, c.args[0]))
ITER["flat_map"] = lambda c: IterV("flat", None, IterV("map", as_iter(c.E, c.st, c.args[0]), c.args[1]))
EXACT["std::iter::repeat"] = lambda c: IterV("repeat", c.args[0])
EXACT["std::iter::once"] = lambda c: IterV("list", (c.args[0],), 0)
EXACT["std::iter::empty"] = lambda c: IterV("list", (), 0)
EXACT["std::iter::zip"] = ITER["zip"]
EXACT["std::iter::successors"] = lambda c: IterV("successors", c.args[0], c.args[1])


@reg(ITER, "peek")
def _peek(c):
    E, st = c.E, c.st
    p = final_ptr(E, st, c.args[0])
    it = E.resolve(st, E.load(st, p))
    inner, held = it.a
    if held is None:
        x, inner = pull(E, st, inner)
        held = (x,)
        E.store(st, p, IterV("peek", inner, held))
    return none(c) if held[0] is None else some(c, ValPtr(held[0]))


@reg(ITER, "len", "count")
def _icount(c):
    v = c.E.resolve(c.st, c.args[0])
    if last(c.fty["n"]) == "len":
        v = unref(c.E, c.st, v)
    return len(drain(c.E, c.st, v))


def each(c, f):
    it = as_iter(c.E, c.st, c.args[0])
    while True:
        x, it = pull(c.E, c.st, it)
        if c.st.dead or x is None:
            return
        if f(x) is False:
            return


@reg(ITER, "for_each")
def _for_each(c):
    each(c, lambda x: c.E.call_value(c.st, c.args[1], [x]) and None)
    return UNIT


@reg(ITER, "fold")
def _fold(c):
    box = [c.args[1]]

    def f(x):
        box[0] = c.E.call_value(c.st, c.args[2], [box[0], x])
    each(c, f)
    return box[0]


@reg(ITER, "reduce")
def _reduce(c):
    xs = drain(c.E, c.st, c.args[0])
    if not xs:
        return none(c)
    acc = xs[0]
    for x in xs[1:]:
        acc = c.E.call_value(c.st, c.args[1], [acc, x])
    return some(c, acc)


@reg(RAY, "reduce")
def _ray_reduce(c):
    acc = c.E.call_value(c.st, c.args[1], [])
    for x in drain(c.E, c.st, c.args[0]):
        acc = c.E.call_value(c.st, c.args[2], [acc, x])
    return acc


@reg(ITER, "sum")
def _isum(c):
    xs = [val(c.E, c.st, x) for x in drain(c.E, c.st, c.args[0])]
    acc = 0.0 if (not xs and c.dty is not None and c.E.types[c.dty]["k"] == "float") or (xs and T.is_float(xs[0])) else 0
    for x in xs:
        acc = c.E.binop(c.st, "Add", acc, x)
    return acc


@reg(ITER, "product")
def _iprod(c):
    xs = [val(c.E, c.st, x) for x in drain(c.E, c.st, c.args[0])]
    acc = 1.0 if (not xs and c.dty is not None and c.E.types[c.dty]["k"] == "float") or (xs and T.is_float(xs[0])) else 1
    for x in xs:
        acc = c.E.binop(c.st, "Mul", acc, x)
    return acc


@reg(ITER, "all")
def _all(c):
    return quant(c, True)


@reg(ITER, "any")
def _any(c):
    return quant(c, False)


def quant(c, is_all):
    """short-circuit only matters for effects; predicates are analysed on every element"""
    p = c.args[0]
    v = c.E.resolve(c.st, p)
    r = is_all
    src = c.E.load(c.st, v) if isinstance(v, Ref) else v
    for x in drain(c.E, c.st, src):
        g = c.E.call_value(c.st, c.args[1], [x])
        r = T.AND(r, g) if is_all else T.OR(r, g)
        if c.st.dead:
            return UNINIT
        if r is (not is_all):
            break
    return c.E.simp(c.st, r)


@reg(ITER, "position", "find", "find_map")
def _position(c):
    E, st = c.E, c.st
    v = E.resolve(st, c.args[0])
    src = E.load(st, v) if isinstance(v, Ref) else v
    nm = last(c.fty["n"])
    xs = drain(E, st, src)
    res = none(c)
    acc = []
    for i, x in enumerate(xs):
        if nm == "find_map":
            g = E.resolve(st, E.call_value(st, c.args[1], [x]))
            if not isinstance(g, Agg):
                raise Undecided("find_map")
            if g.variant == 1:
                acc.append((True, some(c, g.fields[0])))
                break
            continue
        g = E.simp(st, E.call_value(st, c.args[1], [ValPtr(x) if nm == "find" else x]))
        if g is False:
            continue
        acc.append((g, some(c, i if nm == "position" else x)))
        if g is True:
            break
    for g, v in reversed(acc):
        res = E.join(st, g, v, res)
    return res


def minmax(kind):
    def f(c):
        E, st = c.E, c.st
        xs = drain(E, st, c.args[0])
        if not xs:
            return none(c)
        acc = xs[0]
        for x in xs[1:]:
            if len(c.args) > 1:
                o = E.call_value(st, c.args[1], [ValPtr(acc), ValPtr(x)])
                o = E.resolve(st, o)
                if not (isinstance(o, Obj) and o.kind == "ordering"):
                    raise Undecided("ordering")
                v = o.d["v"]
                take_new = E.simp(st, T.ieq(v, 1)) if kind == "min" else E.simp(st, T.NOT(T.ieq(v, 1)))
            else:
                a, b = val(E, st, acc), val(E, st, x)
                take_new = E.binop(st, "Lt", b, a) if kind == "min" else E.binop(st, "Ge", b, a)
            acc = E.join(st, take_new, x, acc)
        return some(c, acc)
    return f


ITER["min"] = ITER["min_by"] = minmax("min")
ITER["max"] = ITER["max_by"] = minmax("max")


def collect_fallible(c, nm):
    """Result<Vec<_>, _> and Option<Vec<_>>: stops at the first failing item"""
    E = c.E
    bad = 1 if "Result" in nm.split("<")[0] else 0
    inner = nm.split("<", 1)[1]
    v = E.resolve(c.st, c.args[0])
    it0 = as_iter(E, c.st, E.load(c.st, v)) if isinstance(v, Ref) else as_iter(E, c.st, v)

    def go(st, it, acc):
        x, it = pull(E, st, it)
        if st.dead:
            return UNINIT
        if x is None:
            if inner.startswith("()"):
                return Agg(c.dty, 1 - bad, (UNIT,))
            if inner.startswith("std::string::String"):
                return Agg(c.dty, 1 - bad, (StrV(sum([list(as_str(y).parts) for y in acc], [])),))
            return Agg(c.dty, 1 - bad, (VecV(acc),))
        return cont(st, x, it, acc)

    def cont(st, x, it, acc):
        x = E.resolve(st, x)
        if isinstance(x, VIte):
            return E.fork(st, x.c, lambda s: cont(s, x.a, it, acc), lambda s: cont(s, x.b, it, acc))
        if x.variant == bad:
            return Agg(c.dty, bad, x.fields)
        return go(st, it, acc + list(x.fields))
    return go(c.st, it0, [])


@reg(ITER, "collect", "collect_vec")
def _collect(c):
    E, st = c.E, c.st
    nm = E.F.tname(c.dty) if c.dty is not None else "std::vec::Vec"
    if nm.startswith(("std::result::Result", "core::result::Result", "std::option::Option")):
        return collect_fallible(c, nm)
    xs = drain(E, st, c.args[0])
    if "String" in nm.split("<")[0]:
        parts = []
        for x in xs:
            parts += list(as_str(unref(E, st, x)).parts)
        return StrV(parts)
    if "ArrayBase" in nm:
        return E.newarr(st, (len(xs),), xs)
    if "Vec" in nm or "Box<[" in nm:
        return VecV(xs)
    raise Undecided("collect into %s" % nm)


@reg(ITER, "unzip")
def _unzip(c):
    xs = drain(c.E, c.st, c.args[0])
    return Agg(c.dty, 0, (VecV([x.fields[0] for x in xs]), VecV([x.fields[1] for x in xs])))


@reg(ITER, "join", "concat")
def _join(c):
    return STRJOIN(c)


def STRJOIN(c):
    E, st = c.E, c.st
    xs = [as_str(unref(E, st, x)) for x in (seq_items(E, st, c.args[0]))]
    sep = as_str(unref(E, st, c.args[1])) if len(c.args) > 1 else StrV([])
    parts = []
    for i, x in enumerate(xs):
        if i:
            parts += list(sep.parts)
        parts += list(x.parts)
    return StrV(parts)


SLICE["join"] = SLICE["concat"] = STRJOIN
STR["join"] = STR["concat"] = STRJOIN


@reg(ITER, "try_for_each")
def _try_for_each(c):
    E, st = c.E, c.st
    v = E.resolve(st, c.args[0])
    it = as_iter(E, st, E.load(st, v)) if isinstance(v, Ref) else as_iter(E, st, v)
    unit_ok = Agg(c.dty, 0, (UNIT,))

    def go(st, it, depth):
        x, it = pull(E, st, it)
        if st.dead:
            return UNINIT
        if x is None:
            return unit_ok
        r = E.resolve(st, E.call_value(st, c.args[1], [x]))
        if st.dead:
            return UNINIT
        return cont(st, r, it, depth)

    def cont(st, r, it, depth):
        r = E.resolve(st, r)
        if isinstance(r, VIte):
            return E.fork(st, r.c, lambda s: cont(s, r.a, it, depth), lambda s: cont(s, r.b, it, depth))
        if r.variant == 0:
            return go(st, it, depth + 1)
        return Agg(c.dty, r.variant, r.fields)
    return go(st, it, 0)


RAY["try_for_each"] = ITER["try_for_each"]


@reg(ITER, "try_fold")
def _try_fold(c):
    E, st = c.E, c.st
    v = E.resolve(st, c.args[0])
    it = as_iter(E, st, E.load(st, v)) if isinstance(v, Ref) else as_iter(E, st, v)

    def go(st, acc, it):
        x, it = pull(E, st, it)
        if st.dead:
            return UNINIT
        if x is None:
            return Agg(c.dty, 0, (acc,))
        return cont(st, E.call_value(st, c.args[2], [acc, x]), it)

    def cont(st, r, it):
        r = E.resolve(st, r)
        if st.dead:
            return UNINIT
        if isinstance(r, VIte):
            return E.fork(st, r.c, lambda s: cont(s, r.a, it), lambda s: cont(s, r.b, it))
        if r.variant == 0:
            return go(st, r.fields[0], it)
        return Agg(c.dty, r.variant, r.fields)
    return go(st, c.args[1], it)


@reg(RAY, "par_iter", "par_iter_mut", "into_par_iter", "par_bridge")
def _par_iter(c):
    return as_iter(c.E, c.st, c.args[0])


# slices
@reg(SLICE, "iter", "iter_mut")
def _siter(c):
    return IterV("list", tuple(seq_refs(c.E, c.st, c.args[0])), 0)


SLICE["par_iter"] = SLICE["par_iter_mut"] = SLICE["iter"]


@reg(SLICE, "len")
def _slen(c):
    return len(seq_refs(c.E, c.st, c.args[0]))


@reg(SLICE, "is_empty")
def _sempty(c):
    return len(seq_refs(c.E, c.st, c.args[0])) == 0


@reg(SLICE, "to_vec", "into_vec", "to_owned")
def _to_vec(c):
    return VecV([deepcopy(c.E, c.st, x) for x in seq_items(c.E, c.st, c.args[0])])


@reg(SLICE, "first", "first_mut")
def _sfirst(c):
    r = seq_refs(c.E, c.st, c.args[0])
    return some(c, r[0]) if r else none(c)


@reg(SLICE, "last", "last_mut")
def _slast(c):
    r = seq_refs(c.E, c.st, c.args[0])
    return some(c, r[-1]) if r else none(c)


@reg(SLICE, "get", "get_mut")
def _sget(c):
    r = seq_refs(c.E, c.st, c.args[0])
    k = cint(c.E, c.st, c.args[1])
    return some(c, r[k]) if 0 <= k < len(r) else none(c)


@reg(SLICE, "contains")
def _contains(c):
    r = False
    for x in seq_items(c.E, c.st, c.args[0]):
        r = T.OR(r, deep_eq(c.E, c.st, x, c.args[1]))
    return c.E.simp(c.st, r)


@reg(SLICE, "windows")
def _swindows(c):
    p = final_ptr(c.E, c.st, c.args[0]) if not isinstance(c.args[0], SliceRef) else c.args[0]
    return IterV("windows", p, len(seq_refs(c.E, c.st, c.args[0])), cint(c.E, c.st, c.args[1]), 0)


def subslice(E, st, p, lo, n):
    """pointer to a part of the sequence behind p"""
    p = E.resolve(st, p)
    for _ in range(6):
        if isinstance(p, SliceRef):
            return SliceRef(p.base, p.off + lo, n)
        if isinstance(p, Arr):
            if len(p.shape) != 1:
                raise Undecided("part of a multi-dimensional array as slice")
            return Arr(p.buf, (n,), p.strides, p.off + lo * p.strides[0], False)
        if not isinstance(p, (Ref, ValPtr)):
            break
        v = E.resolve(st, E.load(st, p))
        if isinstance(v, (VecV, Agg)):
            return SliceRef(p, lo, n)
        p = v
    raise Undecided("part of %s" % type(p).__name__)


@reg(SLICE, "split_at", "split_at_mut", "split_at_checked", "split_at_mut_checked")
def _ssplit(c):
    n, k = len(seq_refs(c.E, c.st, c.args[0])), cint(c.E, c.st, c.args[1])
    if "checked" in last(c.fty["n"]):
        raise Undecided("split_at_checked")
    if k > n:
        return die(c, "split_at out of bounds")
    return Agg(c.dty, 0, (subslice(c.E, c.st, c.args[0], 0, k), subslice(c.E, c.st, c.args[0], k, n - k)))


@reg(SLICE, "split_first", "split_first_mut", "split_last", "split_last_mut")
def _sfl(c):
    r = seq_refs(c.E, c.st, c.args[0])
    if not r:
        return none(c)
    f = "first" in last(c.fty["n"])
    return some(c, Agg(None, 0, (r[0] if f else r[-1], subslice(c.E, c.st, c.args[0], 1 if f else 0, len(r) - 1))))


@reg(SLICE, "chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "par_chunks", "par_chunks_mut", "rchunks")
def _schunks(c):
    n, w = len(seq_refs(c.E, c.st, c.args[0])), cint(c.E, c.st, c.args[1])
    if w == 0:
        return die(c, "chunk size must be non-zero")
    nm = last(c.fty["n"])
    if nm == "rchunks":
        raise Undecided("rchunks")
    out = [(i, min(w, n - i)) for i in range(0, n, w)]
    if "exact" in nm:
        out = [x for x in out if x[1] == w]
    return IterV("list", tuple(subslice(c.E, c.st, c.args[0], i, m) for i, m in out), 0)


@reg(SLICE, "rotate_left", "rotate_right")
def _srot(c):
    rs = seq_refs(c.E, c.st, c.args[0])
    k = cint(c.E, c.st, c.args[1])
    if k > len(rs):
        return die(c, "rotation beyond the length")
    xs = [c.E.load(c.st, r) for r in rs]
    k = k if last(c.fty["n"]) == "rotate_left" else len(xs) - k
    for r, x in zip(rs, xs[k:] + xs[:k]):
        c.E.store(c.st, r, x)
    return UNIT


@reg(SLICE, "copy_within")
def _cpwithin(c):
    rs = seq_refs(c.E, c.st, c.args[0])
    r = c.E.resolve(c.st, c.args[1])
    nm = c.E.types[r.ty]["n"].split("::")[-1] if isinstance(r, Agg) and isinstance(r.ty, int) else ""
    f = r.fields if isinstance(r, Agg) else ()
    if nm == "Range":
        lo, hi = cint(c.E, c.st, f[0]), cint(c.E, c.st, f[1])
    elif nm == "RangeInclusive":
        lo, hi = cint(c.E, c.st, f[0]), cint(c.E, c.st, f[1]) + 1
    elif nm == "RangeTo":
        lo, hi = 0, cint(c.E, c.st, f[0])
    elif nm == "RangeFrom":
        lo, hi = cint(c.E, c.st, f[0]), len(rs)
    elif nm == "RangeFull":
        lo, hi = 0, len(rs)
    else:
        raise Undecided("copy_within")
    d = cint(c.E, c.st, c.args[2])
    if not 0 <= lo <= hi <= len(rs) or d + hi - lo > len(rs):
        return die(c, "copy_within out of bounds")
    xs = [c.E.load(c.st, r) for r in rs[lo:hi]]
    for r, x in zip(rs[d:], xs):
        c.E.store(c.st, r, x)
    return UNIT


@reg(SLICE, "swap_with_slice")
def _swapw(c):
    a, b = seq_refs(c.E, c.st, c.args[0]), seq_refs(c.E, c.st, c.args[1])
    if len(a) != len(b):
        return die(c, "slice length mismatch")
    xs, ys = [c.E.load(c.st, r) for r in a], [c.E.load(c.st, r) for r in b]
    for r, y in zip(a, ys):
        c.E.store(c.st, r, y)
    for r, x in zip(b, xs):
        c.E.store(c.st, r, x)
    return UNIT


@reg(SLICE, "fill_with")
def _sfillw(c):
    for r in seq_refs(c.E, c.st, c.args[0]):
        c.E.store(c.st, r, c.E.call_value(c.st, c.args[1], []))
        if c.st.dead:
            break
    return UNIT


@reg(SLICE, "fill")
def _sfill(c):
    for r in seq_refs(c.E, c.st, c.args[0]):
        c.E.store(c.st, r, c.args[1])
    return UNIT


@reg(SLICE, "copy_from_slice", "clone_from_slice")
def _copy_from(c):
    xs = seq_items(c.E, c.st, c.args[1])
    rs = seq_refs(c.E, c.st, c.args[0])
    if len(xs) != len(rs):
        return die(c, "slice length mismatch")
    for r, x in zip(rs, xs):
        c.E.store(c.st, r, x)
    return UNIT


@reg(SLICE, "swap")
def _sswap(c):
    rs = seq_refs(c.E, c.st, c.args[0])
    i, j = cint(c.E, c.st, c.args[1]), cint(c.E, c.st, c.args[2])
    x, y = c.E.load(c.st, rs[i]), c.E.load(c.st, rs[j])
    c.E.store(c.st, rs[i], y)
    c.E.store(c.st, rs[j], x)
    return UNIT


# Vec
VEC["new"] = lambda c: VecV([])
VEC["with_capacity"] = lambda c: VecV([])
VEC["reserve"] = VEC["shrink_to_fit"] = lambda c: UNIT


def vec_update(c, f):
    p = final_ptr(c.E, c.st, c.args[0])
    v = c.E.load(c.st, p)
    c.E.store(c.st, p, c.E.vmap(c.st, v, f))
    return UNIT


@reg(VEC, "push")
def _push(c):
    return vec_update(c, lambda v: VecV(v.items + (c.args[1],)))


@reg(VEC, "pop")
def _vpop(c):
    p = final_ptr(c.E, c.st, c.args[0])
    v = c.E.resolve(c.st, c.E.load(c.st, p))
    if not v.items:
        return none(c)
    c.E.store(c.st, p, VecV(v.items[:-1]))
    return some(c, v.items[-1])


@reg(VEC, "clear")
def _vclear(c):
    return vec_update(c, lambda v: VecV(()))


@reg(VEC, "truncate")
def _vtrunc(c):
    n = cint(c.E, c.st, c.args[1])
    return vec_update(c, lambda v: VecV(v.items[:n]))


@reg(VEC, "insert")
def _vinsert(c):
    n = cint(c.E, c.st, c.args[1])
    return vec_update(c, lambda v: VecV(v.items[:n] + (c.args[2],) + v.items[n:]))


@reg(VEC, "extend", "extend_from_slice", "append")
def _vextend(c):
    if last(c.fty["n"]) == "append":
        q = final_ptr(c.E, c.st, c.args[1])
        xs = c.E.resolve(c.st, c.E.load(c.st, q)).items
        c.E.store(c.st, q, VecV(()))
        return vec_update(c, lambda v: VecV(v.items + tuple(xs)))
    xs = [unref(c.E, c.st, x) if last(c.fty["n"]) == "extend_from_slice" else x for x in drain(c.E, c.st, c.args[1])]
    return vec_update(c, lambda v: VecV(v.items + tuple(xs)))


EXACT["std::iter::Extend::extend"] = _vextend


@reg(VEC, "resize")
def _vresize(c):
    n = cint(c.E, c.st, c.args[1])
    return vec_update(c, lambda v: VecV((v.items + (c.args[2],) * n)[:n]))


def concrete(c, v):
    v = c.E.resolve(c.st, v)
    while isinstance(v, (Ref, ValPtr)):
        v = c.E.resolve(c.st, c.E.load(c.st, v))
    if isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, StrV) and v.lit() is not None:
        return v.lit()
    if isinstance(v, CharV):
        return v.c
    if isinstance(v, Agg):
        return (v.variant,) + tuple(concrete(c, f) for f in v.fields)
    raise Undecided("order of symbolic values")


@reg(SLICE, "sort", "sort_unstable", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sort_by", "sort_unstable_by", "reverse")
def _sort(c):
    import functools
    nm = last(c.fty["n"])
    rs = seq_refs(c.E, c.st, c.args[0])
    xs = [c.E.load(c.st, r) for r in rs]
    if nm == "reverse":
        xs.reverse()
    elif "key" in nm:
        xs.sort(key=lambda x: concrete(c, c.E.call_value(c.st, c.args[1], [ValPtr(x)])))
    elif nm.endswith("by"):
        def cmp(a, b):
            o = c.E.resolve(c.st, c.E.call_value(c.st, c.args[1], [ValPtr(a), ValPtr(b)]))
            if not isinstance(o, Agg):
                raise Undecided("order of symbolic values")
            return o.variant - 1
        xs.sort(key=functools.cmp_to_key(cmp))
    else:
        xs.sort(key=lambda x: concrete(c, x))
    for r, x in zip(rs, xs):
        c.E.store(c.st, r, x)
    return UNIT


@reg(VEC, "dedup", "dedup_by_key", "dedup_by", "retain", "retain_mut")
def _dedup(c):
    nm = last(c.fty["n"])
    p = final_ptr(c.E, c.st, c.args[0])
    v = c.E.resolve(c.st, c.E.load(c.st, p))
    if not isinstance(v, VecV):
        raise Undecided(nm)

    def truth(x):
        x = c.E.simp(c.st, x)
        if not isinstance(x, bool):
            raise Undecided("%s with a symbolic condition" % nm)
        return x
    out = []
    for x in v.items:
        if nm.startswith("retain"):
            if truth(c.E.call_value(c.st, c.args[1], [ValPtr(x)])):
                out.append(x)
            continue
        if out:
            if nm == "dedup":
                same = truth(deep_eq(c.E, c.st, out[-1], x))
            elif nm == "dedup_by_key":
                same = truth(deep_eq(c.E, c.st, c.E.call_value(c.st, c.args[1], [ValPtr(out[-1])]), c.E.call_value(c.st, c.args[1], [ValPtr(x)])))
            else:
                same = truth(c.E.call_value(c.st, c.args[1], [ValPtr(x), ValPtr(out[-1])]))
            if same:
                continue
        out.append(x)
    c.E.store(c.st, p, VecV(out))
    return UNIT


VEC["as_slice"] = VEC["as_mut_slice"] = VEC["into_boxed_slice"] = lambda c: c.args[0]
VEC["len"] = SLICE["len"]
VEC["is_empty"] = SLICE["is_empty"]
EXACT["std::vec::from_elem"] = lambda c: VecV([deepcopy(c.E, c.st, c.args[0]) for _ in range(cint(c.E, c.st, c.args[1]))])
EXACT["alloc::vec::from_elem"] = EXACT["std::vec::from_elem"]
EXACT["std::slice::into_vec"] = SLICE["into_vec"]
EXACT["std::iter::FromIterator::from_iter"] = ITER["collect"]
SLICE["into_vec"] = lambda c: VecV(seq_items(c.E, c.st, c.args[0]))


# Box
BOX["new"] = lambda c: Ref(c.E.cell(c.st, c.args[0]))
BOX["new_uninit"] = lambda c: Ref(c.E.cell(c.st, UNINIT))
BOX["box_new"] = BOX["new"]
BOX["assume_init"] = lambda c: c.args[0]
BOX["into_inner"] = lambda c: c.E.load(c.st, c.args[0])
BOX["as_ref"] = BOX["as_mut"] = lambda c: c.E.load(c.st, c.args[0])


@reg(BOX, "box_assume_init_into_vec_unsafe")
def _bvec(c):
    v = c.E.load(c.st, c.args[0])
    return VecV(seq_items(c.E, c.st, v))


EXACT["std::alloc::exchange_malloc"] = lambda c: Ref(c.E.cell(c.st, UNINIT))


# ------------------------------------------------------------------ strings
STRING["new"] = lambda c: StrV([])
STRING["with_capacity"] = lambda c: StrV([])
STRING["from_utf8_lossy"] = lambda c: as_str(val(c.E, c.st, c.args[0]))
STRING["as_str"] = STRING["as_mut_str"] = STRING["as_bytes"] = STRING["into_bytes"] = STRING["as_ref"] = lambda c: c.args[0]
STR["as_bytes"] = STR["as_str"] = lambda c: c.args[0]
STR["to_owned"] = STR["to_string"] = STR["into_string"] = lambda c: as_str(val(c.E, c.st, c.args[0]))


def str_update(c, f):
    p = final_ptr(c.E, c.st, c.args[0])
    v = as_str(c.E.resolve(c.st, c.E.load(c.st, p)))
    c.E.store(c.st, p, f(v))
    return UNIT


@reg(STRING, "push", "push_str")
def _spush(c):
    x = as_str(val(c.E, c.st, c.args[1]))
    return str_update(c, lambda v: StrV(v.parts + x.parts))


@reg(STRING, "insert", "insert_str")
def _sinsert(c):
    if cint(c.E, c.st, c.args[1]) != 0:
        raise Undecided("insert into a string")
    x = as_str(val(c.E, c.st, c.args[2]))
    return str_update(c, lambda v: StrV(x.parts + v.parts))


@reg(STRING, "clear")
def _sclear(c):
    return str_update(c, lambda v: StrV([]))


@reg(STRING, "pop")
def _spop(c):
    p = final_ptr(c.E, c.st, c.args[0])
    v = as_str(c.E.resolve(c.st, c.E.load(c.st, p)))
    if v.parts and isinstance(v.parts[-1], str):
        ch = v.parts[-1][-1]
        c.E.store(c.st, p, StrV(v.parts[:-1] + (v.parts[-1][:-1],)))
        return some(c, CharV(ch))
    if not v.parts:
        return none(c)
    c.E.store(c.st, p, StrV([("pop", v)]))
    return some(c, Obj("lastchar", s=v))


@reg(STRING, "truncate")
def _strunc(c):
    p = final_ptr(c.E, c.st, c.args[0])
    v = as_str(c.E.resolve(c.st, c.E.load(c.st, p)))
    n = c.E.resolve(c.st, c.args[1])
    # truncating to the length of a known prefix plus the length of the body
    if isinstance(n, Term) or not isinstance(n, int):
        if v.parts and isinstance(v.parts[-1], str):
            ln = str_len(v)
            d = T.ibin("isub", ln, n)
            k = T.Canon().poly(d)
            if set(k) <= {()}:
                d = int(k.get((), 0))
                if d <= len(v.parts[-1]):
                    c.E.store(c.st, p, StrV(v.parts[:-1] + (v.parts[-1][: len(v.parts[-1]) - d],)))
                    return UNIT
        raise Undecided("truncate of a symbolic string")
    if v.lit() is not None:
        c.E.store(c.st, p, StrV([v.lit()[:n]]))
        return UNIT
    raise Undecided("truncate of a symbolic string")


def str_len(v):
    n = 0
    for p in v.parts:
        if isinstance(p, str):
            n = T.ibin("iadd", n, len(p.encode()))
        else:
            n = T.ibin("iadd", n, strpred("strlen", StrV([p]), None, T.isym))
    return n


@reg(STR, "len")
def _strlen(c):
    return str_len(as_str(val(c.E, c.st, c.args[0])))


STRING["len"] = STR["len"]


@reg(STR, "is_empty")
def _strempty(c):
    v = as_str(val(c.E, c.st, c.args[0]))
    if v.lit() is not None:
        return v.lit() == ""
    if any(isinstance(p, str) for p in v.parts):
        return False
    return c.E.simp(c.st, strpred("strempty", v))


STRING["is_empty"] = STR["is_empty"]


@reg(STR, "ends_with", "starts_with", "contains")
def _ends(c):
    return str_test(c, last(c.fty["n"]), as_str(val(c.E, c.st, c.args[0])), as_str(val(c.E, c.st, c.args[1])))


def str_test(c, nm, v, x):
    if x.lit() is not None:
        s = x.lit()
        if v.lit() is not None:
            w = v.lit()
            return w.endswith(s) if nm == "ends_with" else w.startswith(s) if nm == "starts_with" else s in w
        e = v.parts[-1] if nm == "ends_with" else v.parts[0]
        if nm != "contains" and isinstance(e, str) and len(e) >= len(s):
            return e.endswith(s) if nm == "ends_with" else e.startswith(s)
    return c.E.simp(c.st, strpred(nm, v, x))


@reg(STR, "repeat")
def _repeat(c):
    v = as_str(val(c.E, c.st, c.args[0]))
    n = cint(c.E, c.st, c.args[1])
    return StrV(v.parts * n)


SLICE["repeat"] = _repeat


@reg(STR, "trim", "trim_end", "trim_start", "to_lowercase", "to_uppercase", "trim_end_matches", "trim_start_matches",
     "trim_matches", "replace")
def _trim(c):
    v = as_str(val(c.E, c.st, c.args[0]))
    nm = last(c.fty["n"])
    rest = [unref(c.E, c.st, a) for a in c.args[1:]]
    if any(not isinstance(r, (StrV, CharV, str)) for r in rest):
        raise Undecided("%s with a pattern that is no text" % nm)
    rest = [as_str(r) for r in rest]
    if v.lit() is not None and all(r.lit() is not None for r in rest):
        return StrV([STROPS[nm](v.lit(), *[r.lit() for r in rest])])
    return StrV([("strop", nm, v) + tuple(rest)])


@reg(STR, "lines")
def _lines(c):
    v = as_str(val(c.E, c.st, c.args[0]))
    if v.lit() is not None:
        return IterV("list", tuple(StrV([x]) for x in v.lit().splitlines()), 0)
    if len(v.parts) == 1 and v.parts[0][0] == "json":
        # the first line and all others, which are not looked into
        if v.parts[0][1] == "to_string":
            return IterV("list", (v,), 0)
        return IterV("list", (StrV([("lineof", v.parts[0], 0)]), StrV([("lineof", v.parts[0], 1)])), 0)
    raise Undecided("lines of a text that is not known")


def _trims(s, x, a, b):
    while a and x and s.startswith(x):
        s = s[len(x):]
    while b and x and s.endswith(x):
        s = s[:-len(x)]
    return s


STROPS = {"trim": lambda s: s.strip(), "trim_end": lambda s: s.rstrip(), "trim_start": lambda s: s.lstrip(),
          "to_lowercase": lambda s: s.lower(), "to_uppercase": lambda s: s.upper(),
          "trim_end_matches": lambda s, x: _trims(s, x, False, True), "trim_start_matches": lambda s, x: _trims(s, x, True, False),
          "trim_matches": lambda s, x: _trims(s, x, True, True), "replace": lambda s, x, y: s.replace(x, y),
          "strip_suffix": lambda s, x: s[:-len(x)] if x and s.endswith(x) else s, "strip_prefix": lambda s, x: s[len(x):] if s.startswith(x) else s}


@reg(STR, "strip_suffix", "strip_prefix")
def _strip(c):
    v = as_str(val(c.E, c.st, c.args[0]))
    x = as_str(val(c.E, c.st, c.args[1]))
    nm = last(c.fty["n"])
    g = str_test(c, "ends_with" if nm == "strip_suffix" else "starts_with", v, x)
    if g is False:
        return none(c)
    if v.lit() is not None and x.lit() is not None:
        r = StrV([STROPS[nm](v.lit(), x.lit())])
    else:
        r = StrV([("strop", nm, v, x)])
    r = some(c, ValPtr(r))
    return r if g is True else VIte(g, r, none(c))


# ------------------------------------------------------------------ formatting
def parse_template(E, st, tmpl, args):
    """pieces of core::fmt::Arguments"""
    v = unref(E, st, tmpl)
    if isinstance(v, StrV):
        bs = v.lit().encode("latin-1", "replace")
    else:
        bs = bytes(int(x) & 255 for x in seq_items(E, st, v))
    out = []
    i, k = 0, 0
    items = seq_items(E, st, args)
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bs[i:i + n].decode("utf8"))
            i += n
            continue
        if n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bs[i:i + ln].decode("utf8"))
            i += ln
            continue
        spec = {}
        if n & 1:
            fl = int.from_bytes(bs[i:i + 4], "little")
            i += 4
            spec["fill"] = chr(fl & 0x1FFFFF)
            spec["plus"] = bool(fl >> 21 & 1)
            spec["alt"] = bool(fl >> 23 & 1)
            spec["zero"] = bool(fl >> 24 & 1)
            spec["align"] = (fl >> 29) & 3
        if n & 2:
            spec["width"] = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 4:
            spec["prec"] = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 8:
            k = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 16:
            spec["width"] = unref(E, st, items[spec["width"]].d["v"])
        if n & 32:
            spec["prec"] = unref(E, st, items[spec["prec"]].d["v"])
        a = E.resolve(st, items[k])
        k += 1
        out.append((a, spec))
    return out


def plain_spec(s):
    w, p = s.get("width", None), s.get("prec", None)
    d = {}
    if w is not None and not (isinstance(w, int) and w == 0):
        d["width"] = w
    if p is not None:
        d["prec"] = p
    al = s.get("align", 3)
    if "width" in d:
        d["align"] = al
        f = s.get("fill", " ")
        if f != " ":
            d["fill"] = f
        if s.get("zero"):
            d["zero"] = True
    if s.get("plus"):
        d["plus"] = True
    if s.get("alt"):
        d["alt"] = True
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def fmt_value(E, st, a, spec):
    """StrV of one formatted argument"""
    trait, t, p = a.d["trait"], a.d["t"], a.d["v"]
    sp = plain_spec(spec)
    # peel references in the type
    x = t
    while x is not None and E.types[x]["k"] == "ref":
        x = E.types[x]["t"]
    v = unref(E, st, p)
    tn = E.F.tname(x) if x is not None else "?"
    if trait == "Display":
        if isinstance(v, StrV):
            return v if not sp else pad_str(v, sp)
        if isinstance(v, CharV):
            return StrV([v.c]) if not sp else pad_str(StrV([v.c]), sp)
        if isinstance(v, VIte) and all(isinstance(y, (StrV, CharV)) for y in ite_leaves(v)):
            return pad_str(as_str(v), sp) if sp else as_str(v)
        if x is not None and (isinstance(v, Agg) or isinstance(v, VIte) and all(isinstance(y, Agg) for y in ite_leaves(v))):
            nm = "<%s as std::fmt::Display>::fmt" % tn
            for n in E.F.by_full.get(nm, ()):
                if E.insts[n]["body"] is not None:
                    f = Ref(E.cell(st, Obj("formatter", s=StrV([]), spec=sp)))
                    q = final_ptr(E, st, p) if isinstance(p, (Ref,)) else p
                    if not isinstance(q, (Ref, ValPtr)):
                        q = ValPtr(v)
                    E.call_inst(st, n, [q, f])
                    o = E.resolve(st, E.load(st, f))
                    return formatted(o)
        if isinstance(v, bool):
            s = StrV(["true" if v else "false"])
            return s if not sp else pad_str(s, sp)
        if isinstance(v, int):
            if not sp:
                return StrV([str(v)])
    return StrV([("fmt", trait, tn, deref_all(E, st, v), sp)])


def ite_leaves(v):
    if isinstance(v, VIte):
        yield from ite_leaves(v.a)
        yield from ite_leaves(v.b)
    else:
        yield v


def formatted(o):
    if isinstance(o, VIte):
        return StrV([("strite", o.c, formatted(o.a), formatted(o.b))])
    return o.d["s"]


def deref_all(E, st, v):
    return v if T.is_scalar(v) else canon_val(E, st, v)


def canon_val(E, st, v, depth=0):
    """structure without addresses (used inside formatted strings and serialised values)"""
    v = unref(E, st, v)
    if depth > 12:
        return "…"
    if isinstance(v, Agg):
        n = E.F.tname(v.ty) if isinstance(v.ty, int) else None
        return ("agg", n, v.variant, tuple(canon_val(E, st, f, depth + 1) for f in v.fields))
    if isinstance(v, VecV):
        return ("vec", tuple(canon_val(E, st, f, depth + 1) for f in v.items))
    if isinstance(v, Arr):
        return ("arr", v.shape, tuple(canon_val(E, st, f, depth + 1) for f in data(st, v)))
    if isinstance(v, VIte):
        return ("ite", v.c, canon_val(E, st, v.a, depth + 1), canon_val(E, st, v.b, depth + 1))
    return v


def pad_str(v, sp):
    d = dict(sp)
    w = d.get("width")
    if v.lit() is not None and isinstance(w, int) and "prec" not in d:
        s = v.lit()
        fill = d.get("fill", " ")
        n = w - len(s)
        if n <= 0:
            return v
        al = d.get("align", 3)
        if al == 1:
            return StrV([fill * n + s])
        if al == 2:
            return StrV([fill * (n // 2) + s + fill * (n - n // 2)])
        return StrV([s + fill * n])
    return StrV([("pad", v, sp)])


def fmt_arguments(E, st, v):
    v = unref(E, st, v)
    if isinstance(v, StrV):
        return v
    if isinstance(v, Obj) and v.kind == "fmtargs":
        return v.d["s"]
    if isinstance(v, VIte):
        return StrV([("strite", v.c, fmt_arguments(E, st, v.a), fmt_arguments(E, st, v.b))])
    raise Undecided("format arguments")


def mkarg(trait):
    def f(c):
        return Obj("fmtarg", trait=trait, t=c.targ(0), v=c.args[0])
    return f


for _n, _t in (("new_display", "Display"), ("new_debug", "Debug"), ("new_lower_exp", "LowerExp"), ("new_upper_exp", "UpperExp"),
               ("new_lower_hex", "LowerHex"), ("new_upper_hex", "UpperHex"), ("new_binary", "Binary"), ("new_octal", "Octal"),
               ("new_pointer", "Pointer"), ("from_usize", "Usize")):
    FMT[_n] = mkarg(_t)


@exact("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::new")
def _args_new(c):
    parts = []
    for x in parse_template(c.E, c.st, c.args[0], c.args[1] if len(c.args) > 1 else Agg(None, 0, ())):
        if isinstance(x, str):
            parts.append(x)
        else:
            parts += list(fmt_value(c.E, c.st, x[0], x[1]).parts)
    return Obj("fmtargs", s=StrV(parts))


@exact("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _args_str(c):
    return Obj("fmtargs", s=as_str(val(c.E, c.st, c.args[0])))


@exact("std::fmt::format", "alloc::fmt::format")
def _format(c):
    return fmt_arguments(c.E, c.st, c.args[0])


@exact("std::string::ToString::to_string", "alloc::string::ToString::to_string")
def _to_string(c):
    return fmt_value(c.E, c.st, Obj("fmtarg", trait="Display", t=c.targ(0), v=c.args[0]), {})


def fmt_write(c, s):
    E, st = c.E, c.st
    p = final_ptr(E, st, c.args[0])
    o = E.resolve(st, E.load(st, p))
    if isinstance(o, StrV):
        E.store(st, p, StrV(o.parts + s.parts))
        return ok(c, UNIT)
    E.store(st, p, E.vmap(st, o, lambda q: q.with_(s=StrV(q.d["s"].parts + s.parts))))
    return ok(c, UNIT)


@exact("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def _fw(c):
    return fmt_write(c, fmt_arguments(c.E, c.st, c.args[1]))


@exact("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::<'a>::pad",
       "std::fmt::Write::write_char")
def _fws(c):
    s = as_str(val(c.E, c.st, c.args[1]))
    if c.fty["n"].endswith("::pad"):
        o = unref(c.E, c.st, c.args[0])
        if isinstance(o, Obj) and o.d.get("spec"):
            s = pad_str(s, o.d["spec"])
    return fmt_write(c, s)


@exact("std::fmt::Display::fmt", "std::fmt::Debug::fmt", "std::fmt::LowerExp::fmt")
def _dfmt(c):
    tr = c.fty["n"].split("::")[-2]
    o = unref(c.E, c.st, c.args[1])
    sp = dict(o.d["spec"]) if isinstance(o, Obj) else {}
    s = fmt_value(c.E, c.st, Obj("fmtarg", trait=tr, t=c.targ(0), v=c.args[0]), sp)
    c2 = Call(c.E, c.st, [c.args[1]], c.fty, c.dty, c.inst)
    return fmt_write(c2, s)


def _dbg(c):
    s = StrV([("debug", canon_val(c.E, c.st, Agg(None, 0, tuple(c.args[1:]))))])
    return fmt_write(c, s)


for _n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish",
           "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish",
           "debug_tuple_fields_finish", "debug_c_like_enum_write_str"):
    FMT[_n] = _dbg

EXACT["serde_json::to_string_pretty"] = EXACT["serde_json::to_string"] = lambda c: fallible(
    c, "serialize", StrV([("json", last(c.fty["n"]), canon_val(c.E, c.st, c.args[0]))]))


# ------------------------------------------------------------------ environment
@exact("std::io::_print", "std::io::_eprint")
def _print(c):
    c.E.event(c.st, "print" if c.fty["n"].endswith("_print") else "eprint", fmt_arguments(c.E, c.st, c.args[0]))
    return UNIT


EXACT["std::io::stdout"] = lambda c: Obj("stdout")
EXACT["std::io::stderr"] = lambda c: Obj("stderr")


@reg(IO, "lock")
def _lock(c):
    v = unref(c.E, c.st, c.args[0])
    n = c.st.cnt.get("lock", 0)
    c.st.cnt["lock"] = n + 1
    return Obj("lock", of=v.kind if isinstance(v, Obj) else "?", id=n)


EXACT["std::io::Stdout::lock"] = IO["lock"]


def sink(E, st, p):
    """innermost writer behind references, or a pointer to the buffering layer in front of it"""
    return unref(E, st, p)


def _raw_write(E, st, dest, s, nm):
    E.event(st, "write", dest, s, nm)


def _env_fault(E, st, kind):
    """a failing operation whose result nobody can see (flush on drop)"""
    if E.nofail:
        return
    n = st.cnt.get("fail", 0)
    st.cnt["fail"] = n + 1
    f = T.bsym("fail:%s:%d" % (kind, n))
    E.fails.append((f, kind, E.where()))
    if E.log_errors:
        E.event(st, "fault", f, kind)


def flush_pieces(E, st, v, final=False):
    """emit what a buffering writer still holds; returns whether anything may have been pending"""
    v = E.resolve(st, v)
    if isinstance(v, VIte):
        t0 = st.trace
        st.trace = ta = []
        a = flush_pieces(E, st, v.a, final)
        st.trace = tb = []
        b = flush_pieces(E, st, v.b, final)
        st.trace = t0
        if ta or tb:
            st.trace.append(("ite", v.c, ta, tb))
        return a or b
    if not (isinstance(v, Obj) and v.kind == "bufwriter" and v.d["s"]):
        return False
    inner = v.d["inner"]
    for s, nm in v.d["s"]:
        stream_write(E, st, inner, s, nm)
    if final:
        _env_fault(E, st, "flush on drop")
    return True


def stream_write(E, st, dest, s, nm):
    """dest: value or pointer of a writer"""
    p = None
    if isinstance(dest, (Ref, ValPtr)):
        p = final_ptr(E, st, dest)
        o = E.resolve(st, E.load(st, p))
    else:
        o = E.resolve(st, dest)
    if isinstance(o, Agg) and len(o.fields) == 1 and p is None:
        return stream_write(E, st, o.fields[0], s, nm)
    if isinstance(o, VIte):
        if any(is_buf(x) for x in alts(o)):
            if p is None:
                raise Undecided("write into one of several buffers")
            E.store(st, p, E.vmap(st, o, lambda q: buffered(q, s, nm)))
            return
        E.event(st, "write", o, s, nm)
        return
    if is_buf(o):
        if p is None:
            raise Undecided("write into a temporary buffer")
        E.store(st, p, buffered(o, s, nm))
        return
    E.event(st, "write", o, s, nm)


def alts(v):
    if isinstance(v, VIte):
        return alts(v.a) + alts(v.b)
    return [v]


def is_buf(o):
    return isinstance(o, (VecV, StrV)) or (isinstance(o, Obj) and o.kind == "bufwriter")


def buffered(o, s, nm):
    s = as_str(s)
    if isinstance(o, VecV):
        if o.items:
            if not all(isinstance(x, int) for x in o.items):
                raise Undecided("write into a byte vector")
            o = StrV([bytes(o.items).decode("utf8")])
        else:
            o = StrV([])
    if isinstance(o, StrV):
        return StrV(o.parts + s.parts)
    if isinstance(o, Obj) and o.kind == "bufwriter":
        return o.with_(s=o.d["s"] + ((s, nm),))
    raise Undecided("write into %s" % type(o).__name__)


@reg(IO, "write_all", "write_fmt", "write", "write_str")
def _io_write(c):
    E, st = c.E, c.st
    nm = last(c.fty["n"])
    s = fmt_arguments(E, st, c.args[1]) if nm == "write_fmt" else unref(E, st, c.args[1])
    if isinstance(s, (Agg, VecV)):
        s = as_str(s)
    o = unref(E, st, c.args[0])
    if isinstance(o, (VecV, StrV)):
        # an in-memory buffer never fails
        stream_write(E, st, c.args[0], s, nm)
        if nm == "write":
            raise Undecided("length of a byte buffer")
        return ok(c, UNIT)
    if isinstance(o, VIte) and all(isinstance(x, (VecV, StrV)) for x in alts(o)):
        stream_write(E, st, c.args[0], s, nm)
        return ok(c, UNIT)
    stream_write(E, st, c.args[0], s, nm)
    return fallible(c, "write", UNIT if nm != "write" else T.isym("written"))


EXACT["std::io::Write::write_all"] = EXACT["std::io::Write::write_fmt"] = EXACT["std::io::Write::write"] = _io_write


def do_flush(c):
    """returns True when there is an environment operation involved"""
    E, st = c.E, c.st
    p = c.args[0]
    if not isinstance(p, (Ref, ValPtr)):
        v = E.resolve(st, p)
        flush_pieces(E, st, v)
        return v
    p = final_ptr(E, st, p)
    o = E.resolve(st, E.load(st, p))
    if any(isinstance(x, Obj) and x.kind == "bufwriter" for x in alts(o)):
        flush_pieces(E, st, o)
        E.store(st, p, E.vmap(st, o, lambda q: q.with_(s=()) if isinstance(q, Obj) and q.kind == "bufwriter" else q))
    return o


@exact("std::io::Write::flush")
def _flush(c):
    o = do_flush(c)
    if all(isinstance(x, (VecV, StrV)) for x in alts(o)):
        return ok(c, UNIT)
    c.E.event(c.st, "flush", o)
    return fallible(c, "flush", UNIT)


IO["flush"] = IO["flush_buf"] = _flush


def mkbuf(w):
    return Obj("bufwriter", inner=w, s=())


for _t in ("BufWriter", "LineWriter"):
    for _p in ("std::io::", "std::io::buffered::"):
        EXACT[_p + _t + "::<W>::new"] = lambda c: mkbuf(c.args[0])
        EXACT[_p + _t + "::<W>::with_capacity"] = lambda c: mkbuf(c.args[1])


@reg(IO, "new")
def _io_new(c):
    n = c.fty["n"]
    if "BufWriter" in n or "LineWriter" in n:
        return mkbuf(c.args[0])
    if "Cursor" in n:
        raise Undecided("io::Cursor")
    raise Undecided(n)


@reg(IO, "get_ref", "get_mut")
def _get_ref(c):
    v = unref(c.E, c.st, c.args[0])
    if isinstance(v, Obj) and v.kind == "bufwriter":
        if isinstance(v.d["inner"], (Ref, ValPtr)):
            return v.d["inner"]
        return ValPtr(v.d["inner"])
    raise Undecided(c.fty["n"])


@reg(IO, "into_inner")
def _into_inner(c):
    v = unref(c.E, c.st, c.args[0])
    if all(isinstance(x, Obj) and x.kind == "bufwriter" for x in alts(v)):
        flush_pieces(c.E, c.st, v)
        return fallible(c, "flush", c.E.vmap(c.st, v, lambda q: q.d["inner"]))
    raise Undecided(c.fty["n"])


def drop_value(E, st, v, depth=0):
    """what the destructor of a value does to the environment"""
    if isinstance(v, VIte):
        if any(isinstance(x, Obj) and x.kind == "bufwriter" or isinstance(x, Agg) for x in alts(v)):
            flush_dropped(E, st, v)
        return
    flush_dropped(E, st, v)


def flush_dropped(E, st, v):
    v = E.resolve(st, v)
    if isinstance(v, VIte):
        t0 = st.trace
        st.trace = ta = []
        flush_dropped(E, st, v.a)
        st.trace = tb = []
        flush_dropped(E, st, v.b)
        st.trace = t0
        if ta or tb:
            st.trace.append(("ite", v.c, ta, tb))
        return
    if isinstance(v, Obj) and v.kind == "bufwriter":
        flush_pieces(E, st, v, final=True)
    elif isinstance(v, (Agg, VecV)):
        fs = v.fields if isinstance(v, Agg) else v.items
        if len(fs) < 40:
            for f in fs:
                if isinstance(f, (Agg, VIte, Obj)):
                    flush_dropped(E, st, f)


@reg(FS, "options", "new")
def _options(c):
    return Obj("openopts", flags=())


def open_flags(o):
    """flags of (possibly gated) open options"""
    if isinstance(o, VIte):
        a, b = dict(open_flags(o.a)), dict(open_flags(o.b))
        return tuple((k, T.ITE(o.c, a.get(k, False), b.get(k, False))) for k in sorted(set(a) | set(b)))
    if isinstance(o, Obj) and o.kind == "openopts":
        return o.d["flags"]
    raise Undecided("open options")


def _optset(c):
    E, st = c.E, c.st
    p = final_ptr(E, st, c.args[0])
    o = E.resolve(st, E.load(st, p))
    d = dict(open_flags(o))
    d[last(c.fty["n"])] = c.args[1]
    E.store(st, p, Obj("openopts", flags=tuple(sorted(d.items(), key=lambda x: x[0]))))
    return c.args[0]


for _n in ("append", "create", "write", "truncate", "create_new", "read"):
    FS[_n] = _optset
EXACT["std::fs::write"] = lambda c: fs_write(c)


def fs_write(c):
    n = c.E.event(c.st, "open", as_str(val(c.E, c.st, c.args[0])), (("create", True), ("truncate", True), ("write", True)))
    r = fallible(c, "open", UNIT)
    c.E.event(c.st, "write", Obj("file", n=n, path=as_str(val(c.E, c.st, c.args[0]))), as_str(val(c.E, c.st, c.args[1])), "write_all")
    return r


def do_open(c, path, flags):
    n = c.E.event(c.st, "open", path, flags)
    return fallible(c, "open", Obj("file", n=n, path=path))


@reg(FS, "open")
def _open(c):
    v = unref(c.E, c.st, c.args[0])
    if all(isinstance(x, Obj) and x.kind == "openopts" for x in alts(v)):
        return do_open(c, as_str(val(c.E, c.st, c.args[1])), open_flags(v))
    return do_open(c, as_str(v), (("read", True),))


EXACT["std::fs::File::create"] = lambda c: do_open(c, as_str(val(c.E, c.st, c.args[0])),
                                                   (("create", True), ("truncate", True), ("write", True)))
EXACT["std::fs::File::create_new"] = lambda c: do_open(c, as_str(val(c.E, c.st, c.args[0])), (("create_new", True), ("write", True)))


def _fsop(c):
    nm = last(c.fty["n"])
    c.E.event(c.st, "fs", nm, *[as_str(val(c.E, c.st, a)) for a in c.args])
    return fallible(c, nm, UNIT)


for _n in ("create_dir_all", "create_dir", "remove_dir_all", "remove_dir", "remove_file", "rename", "copy", "hard_link",
           "set_permissions"):
    FS[_n] = _fsop
FS["sync_all"] = FS["sync_data"] = FS["flush"] = lambda c: fallible(c, "sync", UNIT)

PATHM["new"] = PATHM["as_path"] = PATHM["display"] = PATHM["to_path_buf"] = PATHM["as_os_str"] = PATHM["as_ref"] = \
    PATHM["to_string_lossy"] = PATHM["from"] = lambda c: c.args[0]


@reg(PATHM, "join")
def _pjoin(c):
    a, b = as_str(val(c.E, c.st, c.args[0])), as_str(val(c.E, c.st, c.args[1]))
    return StrV([("pathjoin", a, b)])


def path_split(s):
    """(prefix, last component) as std::path sees them; the component is None for a root or an empty path"""
    t = s
    while t.endswith("/") or t.endswith("/.") or t == ".":
        if t in ("/", "."):
            break
        t = t[:-1] if t.endswith("/") else t[:-2]
        if t == "":
            t = "/"
    if t in ("", "/"):
        return t, None
    i = t.rfind("/")
    pre, x = t[:i + 1], t[i + 1:]
    while len(pre) > 1 and (pre.endswith("/") or pre.endswith("/.")):
        pre = pre[:-1] if pre.endswith("/") else pre[:-2]
    return pre, x


def _p_parent(s):
    a, b = path_split(s)
    return None if b is None else a


def _p_name(s):
    b = path_split(s)[1]
    return None if b in (None, "..", ".") else b


def _p_stem(s):
    b = _p_name(s)
    return b if b is None or b.rfind(".") <= 0 else b[:b.rfind(".")]


def _p_ext(s):
    b = _p_name(s)
    return None if b is None or b.rfind(".") <= 0 else b[b.rfind(".") + 1:]


def _p_comps(s):
    return (["/"] if s.startswith("/") else []) + [x for i, x in enumerate(s.split("/")) if x and (x != "." or i == 0)]


def _p_with_ext(s, x):
    b = _p_stem(s)
    if b is None:
        return s
    i = s.rfind(_p_name(s))
    return s[:i] + b + ("." + x if x else "")


def _p_with_name(s, x):
    a, b = path_split(s)
    return _p_join(a, x) if _p_name(s) is not None else _p_join(s, x)


def _p_join(a, b):
    return b if b.startswith("/") or a == "" else a + b if a.endswith("/") else a + "/" + b


PATHOPT = {"parent": _p_parent, "file_name": _p_name, "file_stem": _p_stem, "extension": _p_ext}
for _n, _f in PATHOPT.items():
    STROPS["path_" + _n] = lambda s, f=_f: f(s) or ""
STROPS["with_extension"], STROPS["with_file_name"] = _p_with_ext, _p_with_name
STRTESTS = {"path_has_" + _n: (lambda s, f=_f: f(s) is not None) for _n, _f in PATHOPT.items()}
STRTESTS["path_starts_with"] = lambda s, x: _p_comps(s)[:len(_p_comps(x))] == _p_comps(x)
STRTESTS["path_ends_with"] = lambda s, x: _p_comps(s)[len(_p_comps(s)) - len(_p_comps(x)):] == _p_comps(x) if len(_p_comps(x)) <= len(_p_comps(s)) else False
STRTESTS["path_is_absolute"] = STRTESTS["path_has_root"] = lambda s: s.startswith("/")
STRTESTS["path_eq"] = lambda s, x: _p_comps(s) == _p_comps(x)


def str_pred(c, nm, v, *x):
    if v.lit() is not None and all(y.lit() is not None for y in x):
        return STRTESTS[nm](v.lit(), *[y.lit() for y in x])
    return c.E.simp(c.st, strpred(nm, v, *x))


@reg(PATHM, "parent", "file_name", "file_stem", "extension")
def _ppart(c):
    v = as_str(val(c.E, c.st, c.args[0]))
    nm = last(c.fty["n"])
    g = str_pred(c, "path_has_" + nm, v)
    if g is False:
        return none(c)
    r = some(c, ValPtr(StrV([STROPS["path_" + nm](v.lit())]) if v.lit() is not None else StrV([("strop", "path_" + nm, v)])))
    return r if g is True else VIte(g, r, none(c))


@reg(PATHM, "starts_with", "ends_with", "is_absolute", "has_root")
def _ptest(c):
    return str_pred(c, "path_" + last(c.fty["n"]), *[as_str(val(c.E, c.st, a)) for a in c.args])


@reg(PATHM, "is_relative")
def _prel(c):
    return T.NOT(str_pred(c, "path_is_absolute", as_str(val(c.E, c.st, c.args[0]))))


@reg(PATHM, "with_extension", "with_file_name")
def _pwith(c):
    v, x = [as_str(val(c.E, c.st, a)) for a in c.args]
    nm = last(c.fty["n"])
    if v.lit() is not None and x.lit() is not None:
        return StrV([STROPS[nm](v.lit(), x.lit())])
    return StrV([("strop", nm, v, x)])


@reg(PATHM, "push")
def _ppush(c):
    b = as_str(val(c.E, c.st, c.args[1]))
    return str_update(c, lambda v: StrV([("pathjoin", v, b)]))


@reg(PATHM, "to_str")
def _ptostr(c):
    return some(c, c.args[0])


@reg(PATHM, "is_dir", "exists", "is_file", "try_exists")
def _isdir(c):
    s = as_str(val(c.E, c.st, c.args[0]))
    n = c.E.event(c.st, "probe", last(c.fty["n"]), s)
    b = T.bsym("%s:%d:%r" % (last(c.fty["n"]), n, s))
    return ok(c, b) if last(c.fty["n"]) == "try_exists" else b


# ------------------------------------------------------------------ hashed and ordered collections
# a history of insertions (condition, key, value); a removal is an insertion without value
def hist(c, i=0):
    v = c.E.resolve(c.st, unref(c.E, c.st, c.args[i]))
    if isinstance(v, VIte):
        raise Undecided("gated collection")
    if not isinstance(v, Obj) or v.kind != "hist":
        raise Undecided("collection")
    return v.d["h"]


def held(c, h, k):
    """condition under which the key is present"""
    r = False
    for g, kk, v in h:
        e = T.AND(g, deep_eq(c.E, c.st, kk, k))
        r = T.AND(T.NOT(e), r) if v is None else T.OR(e, r)
    return c.E.simp(c.st, r)


def hput(c, *item):
    p = final_ptr(c.E, c.st, c.args[0])
    c.E.store(c.st, p, Obj("hist", h=hist(c) + (item,)))


def _hnew(c):
    return Obj("hist", h=())


def _hinsert(c):
    k = unref(c.E, c.st, c.args[1]) if len(c.args) == 2 else c.args[1]
    old = held(c, hist(c), c.args[1])
    if len(c.args) == 2:
        hput(c, T.NOT(old), c.args[1], UNIT)
        return c.E.simp(c.st, T.NOT(old))
    r = _hfind(c, k)
    hput(c, True, c.args[1], c.args[2])
    return r


def _hfind(c, k, ptr=False):
    r = none(c)
    for g, kk, v in hist(c):
        e = c.E.simp(c.st, T.AND(g, deep_eq(c.E, c.st, kk, k)))
        x = none(c) if v is None else some(c, ValPtr(v) if ptr else v)
        r = x if e is True else r if e is False else VIte(e, x, r)
    return r


def _hremove(c):
    if last(c.fty["n"]) == "clear":
        c.E.store(c.st, final_ptr(c.E, c.st, c.args[0]), Obj("hist", h=()))
        return UNIT
    r = held(c, hist(c), c.args[1]) if "Set" in c.fty["n"] else _hfind(c, c.args[1])
    hput(c, True, unref(c.E, c.st, c.args[1]), None)
    return r


def _hlen(c):
    n, h = 0, hist(c)
    for i, (g, k, v) in enumerate(h):
        if v is None:
            raise Undecided("number of entries after a removal")
        new = T.AND(g, T.NOT(held(c, h[:i], k)))
        n = T.ibin("iadd", n, T.ITE(new, 1, 0))
    n = c.E.simp(c.st, n)
    return n if last(c.fty["n"]) == "len" else c.E.binop(c.st, "Eq", n, 0)


for _t in ("HashSet::<T", "HashMap::<K, V", "BTreeSet::<T", "BTreeMap::<K, V"):
    for _q in (">", ", S>", ", A>", ", S, A>"):
        for _m in ("hash::map::", "hash::set::", "btree::map::", "btree::set::", ""):
            _pre = "std::collections::" + _m + _t + _q + "::"
            for _n, _f in (("new", _hnew), ("with_capacity", _hnew), ("insert", _hinsert), ("contains", lambda c: held(c, hist(c), c.args[1])),
                           ("contains_key", lambda c: held(c, hist(c), c.args[1])), ("get", lambda c: _hfind(c, c.args[1], True)),
                           ("remove", _hremove), ("clear", _hremove), ("len", _hlen), ("is_empty", _hlen)):
                EXACT[_pre + _n] = _f


FS["exists"] = PATHM["exists"]

from .engine import Call  # noqa: E402


# ------------------------------------------------------------------ gated sequences
NOFORK = {id(f) for f in (_push, _vclear, _vtrunc, _vinsert)}
SEQMODELS = {id(f) for t in (ITER, VEC, SLICE, RAY) for f in t.values()} - NOFORK | {id(_vextend), id(ITER["into_iter"])}


def gated_seq(E, st, args):
    """condition that decides which sequence an operation works on, if there is one"""
    for v in args[:2]:
        v = unref(E, st, v)
        if type(v) is VIte:
            leaves = list(ite_leaves(v))
            if any(type(x) in (VecV, IterV) for x in leaves) or all(
                    type(x) is Agg and isinstance(x.ty, int) and E.types[x.ty].get("n", "").split("::")[-1] in ("Option", "Result")
                    for x in leaves):
                return v.c
    return None
