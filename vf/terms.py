"""Value numbers: hash-consed terms, an algebraic normal form, and random interpretation.

A term stands for the value of a scalar expression of the analysed program.  Two terms are the same
value number when they are the same object; `Canon` identifies more of them through a polynomial
normal form; `Interp` (random interpretation in the sense of Gulwani and Necula) refutes equality.
Nothing in here runs code of the analysed program.
"""
import hashlib
import math
import struct
from fractions import Fraction

import numpy as np

LD = np.longdouble


class Term:
    __slots__ = ("op", "args", "sort", "id")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def _key(x):
    if isinstance(x, Term):
        return x.id
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, int):
        return ("i", x)
    if isinstance(x, float):
        return ("f", struct.pack("<d", x))
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


def _mk(op, args, sort):
    k = (op, sort, tuple(_key(a) for a in args))
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        _next[0] += 1
        t.id = _next[0]
        _table[k] = t
    return t


def sym(name, sort="f"):
    return _mk("sym", (name,), sort)


def fsym(name):
    return _mk("sym", (name,), "f")


def isym(name):
    return _mk("sym", (name,), "i")


def bsym(name):
    return _mk("sym", (name,), "b")


def uf(name, idx, args, sort="f"):
    return _mk("uf", (name, idx, tuple(args)), sort)


def is_float(x):
    return isinstance(x, float) or (isinstance(x, Term) and x.sort == "f")


def is_bool(x):
    return isinstance(x, bool) or (isinstance(x, Term) and x.sort == "b")


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, Term) and x.sort == "i")


def is_scalar(x):
    return isinstance(x, (bool, int, float, Term))


# ---------------------------------------------------------------- booleans
def NOT(a):
    if isinstance(a, bool):
        return not a
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "b")


def AND(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is b:
        return a
    if NOT(a) is b:
        return False
    return _mk("and", (a, b), "b")


def OR(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if a is b:
        return a
    if NOT(a) is b:
        return True
    return _mk("or", (a, b), "b")


def conj(xs):
    r = True
    for x in xs:
        r = AND(r, x)
    return r


def disj(xs):
    r = False
    for x in xs:
        r = OR(r, x)
    return r


def ITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is type(b) and not isinstance(a, Term) and _key(a) == _key(b)):
        return a
    if isinstance(c, Term) and c.op == "not":
        return ITE(c.args[0], b, a)
    if is_bool(a) and is_bool(b):
        if a is True:
            return OR(c, b)
        if a is False:
            return AND(NOT(c), b)
        if b is True:
            return OR(NOT(c), a)
        if b is False:
            return AND(c, a)
        return _mk("ite", (c, a, b), "b")
    # collapse nested tests of the same condition
    if isinstance(a, Term) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    s = "f" if is_float(a) or is_float(b) else "i"
    return _mk("ite", (c, a, b), s)


def IFF(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return NOT(b)
    if b is False:
        return NOT(a)
    if a is b:
        return True
    return _mk("iff", (a, b), "b")


# ---------------------------------------------------------------- floats
def _cf(f, *xs):
    """constant folding in IEEE double"""
    try:
        with np.errstate(all="ignore"):
            return float(f(*[np.float64(x) for x in xs]))
    except Exception:
        return float("nan")


def _allc(*xs):
    return all(isinstance(x, float) for x in xs)


def fadd(a, b):
    if _allc(a, b):
        return _cf(lambda x, y: x + y, a, b)
    if isinstance(a, float) and a == 0.0:
        return b
    if isinstance(b, float) and b == 0.0:
        return a
    return _mk("add", (a, b), "f")


def fsub(a, b):
    if _allc(a, b):
        return _cf(lambda x, y: x - y, a, b)
    if isinstance(b, float) and b == 0.0:
        return a
    return _mk("sub", (a, b), "f")


def fmul(a, b):
    if _allc(a, b):
        return _cf(lambda x, y: x * y, a, b)
    if isinstance(a, float) and a == 1.0:
        return b
    if isinstance(b, float) and b == 1.0:
        return a
    return _mk("mul", (a, b), "f")


def fdiv(a, b):
    if _allc(a, b):
        return _cf(lambda x, y: x / y, a, b)
    if isinstance(b, float) and b == 1.0:
        return a
    return _mk("div", (a, b), "f")


def fneg(a):
    if isinstance(a, float):
        return -a
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,), "f")


UN = {
    "abs": abs,
    "sqrt": np.sqrt,
    "exp": np.exp,
    "ln": np.log,
    "log10": np.log10,
    "log2": np.log2,
    "sin": np.sin,
    "cos": np.cos,
    "tan": np.tan,
    "floor": np.floor,
    "ceil": np.ceil,
    "trunc": np.trunc,
    "sinh": np.sinh,
    "cosh": np.cosh,
    "asin": np.arcsin,
    "acos": np.arccos,
    "atan": np.arctan,
    "asinh": np.arcsinh,
    "acosh": np.arccosh,
    "atanh": np.arctanh,
    "round_ties_even": np.rint,
    "round": lambda x: np.sign(x) * np.floor(np.abs(x) + 0.5),
    "tanh": np.tanh,
    "cbrt": np.cbrt,
    "exp2": np.exp2,
    "ln_1p": np.log1p,
    "exp_m1": np.expm1,
}


def funary(name, a):
    if isinstance(a, float):
        return _cf(UN[name], a)
    return _mk(name, (a,), "f")


def fmin(a, b):
    if _allc(a, b):
        return _cf(np.fmin, a, b)
    if a is b:
        return a
    return _mk("min", (a, b), "f")


def fmax(a, b):
    if _allc(a, b):
        return _cf(np.fmax, a, b)
    if a is b:
        return a
    return _mk("max", (a, b), "f")


def fpow(a, b):
    if _allc(a, b):
        return _cf(np.power, a, b)
    if isinstance(b, float) and b == 2.0:
        return fmul(a, a)
    if isinstance(b, float) and b == 1.0:
        return a
    if isinstance(b, float) and b == 0.5:
        return funary("sqrt", a)
    return _mk("pow", (a, b), "f")


def powi(a, n):
    if isinstance(n, Term):
        return _mk("pow", (a, i2f(n)), "f")
    if n == 0:
        return 1.0
    if n < 0:
        return fdiv(1.0, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = fmul(r, a)
    return r


def flt(a, b):
    if _allc(a, b):
        return a < b
    if a is b:
        return False
    return _mk("lt", (a, b), "b")


def fle(a, b):
    if _allc(a, b):
        return a <= b
    return _mk("le", (a, b), "b")


def feq(a, b):
    if _allc(a, b):
        return a == b
    if isinstance(b, Term) and (isinstance(a, float) or a.id > b.id):
        a, b = b, a
    return _mk("eq", (a, b), "b")


def isfinite(a):
    if isinstance(a, float):
        return math.isfinite(a)
    return _mk("isfinite", (a,), "b")


def isnan(a):
    if isinstance(a, float):
        return a != a
    return _mk("isnan", (a,), "b")


def signneg(a):
    if isinstance(a, float):
        return math.copysign(1.0, a) < 0
    return _mk("signneg", (a,), "b")


def fsignum(a):
    if isinstance(a, float):
        return a if a != a else math.copysign(1.0, a)
    return ITE(isnan(a), float("nan"), ITE(signneg(a), -1.0, 1.0))


# ---------------------------------------------------------------- integers
def _ic(*xs):
    return all(isinstance(x, int) and not isinstance(x, bool) for x in xs)


def _lift2(f, a, b):
    """push an integer operation with one concrete operand through a finite choice"""
    if isinstance(a, Term) and a.op == "ite" and (not isinstance(b, Term)):
        return True
    return False


def _leafs(a, depth=0):
    if isinstance(a, Term):
        if a.op == "ite" and depth < 24:
            return _leafs(a.args[1], depth + 1) and _leafs(a.args[2], depth + 1)
        return False
    return True


def ibin(op, a, b):
    if _ic(a, b):
        if op == "iadd":
            return a + b
        if op == "isub":
            return a - b
        if op == "imul":
            return a * b
        if op == "idiv":
            return abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1) if b else 0
        if op == "irem":
            return (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else 0
        if op == "ilt":
            return a < b
        if op == "ile":
            return a <= b
        if op == "ieq":
            return a == b
        if op == "imin":
            return min(a, b)
        if op == "imax":
            return max(a, b)
        if op == "iband":
            return a & b
        if op == "ibor":
            return a | b
        if op == "ibxor":
            return a ^ b
        if op == "ishl":
            return a << b
        if op == "ishr":
            return a >> b
    if op == "iadd":
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
    if op == "isub" and isinstance(b, int) and b == 0:
        return a
    if op == "imul":
        if isinstance(a, int) and a == 1:
            return b
        if isinstance(b, int) and b == 1:
            return a
    if a is b and op in ("ieq", "ile"):
        return True
    if a is b and op == "ilt":
        return False
    if isinstance(a, Term) and a.op == "ite" and not isinstance(b, Term) and _leafs(a):
        return ITE(a.args[0], ibin(op, a.args[1], b), ibin(op, a.args[2], b))
    if isinstance(b, Term) and b.op == "ite" and not isinstance(a, Term) and _leafs(b):
        return ITE(b.args[0], ibin(op, a, b.args[1]), ibin(op, a, b.args[2]))
    if op in ("iadd", "imul", "ieq", "imin", "imax") and isinstance(b, Term) and (
        not isinstance(a, Term) or a.id > b.id
    ):
        a, b = b, a
    return _mk(op, (a, b), "b" if op in ("ilt", "ile", "ieq") else "i")


def ieq(a, b):
    return ibin("ieq", a, b)


def i2f(a):
    if isinstance(a, int):
        return float(a)
    if a.op == "ite" and _leafs(a):
        return ITE(a.args[0], i2f(a.args[1]), i2f(a.args[2]))
    return _mk("i2f", (a,), "f")


def f2i(a, lo=0, hi=2**64 - 1):
    if isinstance(a, float):
        if a != a:
            return 0
        if a >= hi:
            return hi
        if a <= lo:
            return lo
        return int(a)
    return _mk("f2i", (a, lo, hi), "i")


def b2i(a):
    return ITE(a, 1, 0) if isinstance(a, Term) else int(a)


# ---------------------------------------------------------------- display
def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "sym":
        return str(t.args[0])
    if depth > 6:
        return "…"
    r = lambda x: show(x, depth + 1)
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "and": "&", "or": "|",
           "iadd": "+", "isub": "-", "imul": "*", "ilt": "<", "ile": "<=", "ieq": "==", "iff": "<->"}
    if t.op in inf:
        return "(%s %s %s)" % (r(t.args[0]), inf[t.op], r(t.args[1]))
    if t.op == "uf":
        return "%s%s(%d args)#%d" % (t.args[0], list(t.args[1]), len(t.args[2]), t.id)
    if t.op == "neg":
        return "-" + r(t.args[0])
    if t.op == "not":
        return "!" + r(t.args[0])
    return "%s(%s)" % (t.op, ", ".join(r(x) for x in t.args))


def deps(ts):
    """names of the symbols a collection of terms depends on (and uf names)"""
    out, seen, st = set(), set(), [t for t in ts]
    while st:
        t = st.pop()
        if isinstance(t, tuple):
            st.extend(t)
            continue
        if not isinstance(t, Term) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "sym":
            out.add(t.args[0])
        elif t.op == "uf":
            out.add(t.args[0])
            st.extend(t.args[2])
        else:
            st.extend(t.args)
    return out


def subterms(ts):
    seen, st = {}, [t for t in ts]
    while st:
        t = st.pop()
        if isinstance(t, tuple):
            st.extend(t)
            continue
        if not isinstance(t, Term) or t.id in seen:
            continue
        seen[t.id] = t
        st.extend(t.args if t.op != "uf" else t.args[2])
        if t.op == "sym":
            pass
    return seen.values()


# ---------------------------------------------------------------- substitution
def rebuild(op, args, sort):
    F = {
        "add": fadd, "sub": fsub, "mul": fmul, "div": fdiv, "neg": fneg, "min": fmin, "max": fmax, "pow": fpow,
        "lt": flt, "le": fle, "eq": feq, "isfinite": isfinite, "isnan": isnan, "signneg": signneg, "not": NOT,
        "and": AND, "or": OR, "ite": ITE, "iff": IFF, "i2f": i2f, "f2i": f2i,
    }
    if op in F:
        return F[op](*args)
    if op in UN:
        return funary(op, *args)
    if op in ("iadd", "isub", "imul", "idiv", "irem", "ilt", "ile", "ieq", "imin", "imax", "iband", "ibor", "ibxor",
              "ishl", "ishr"):
        return ibin(op, *args)
    return _mk(op, args, sort)


def subst(t, m, memo=None):
    """replace symbols/terms according to m: Term -> value"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, Term):
        return t
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x in m:
            memo[x.id] = m[x]
            stack.pop()
            continue
        kids = [y for y in (x.args[2] if x.op == "uf" else x.args) if isinstance(y, Term)] if x.op != "sym" else []
        todo = [y for y in kids if y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        g = lambda y: memo[y.id] if isinstance(y, Term) else y
        if x.op == "sym":
            memo[x.id] = x
        elif x.op == "uf":
            memo[x.id] = uf(x.args[0], x.args[1], tuple(g(y) for y in x.args[2]), x.sort)
        else:
            memo[x.id] = rebuild(x.op, tuple(g(y) for y in x.args), x.sort)
        stack.pop()
    return memo[t.id]


def literals(c):
    """conditions that are settled where c holds: Term -> truth value"""
    m = {}
    for _ in range(4):
        n = len(m)
        todo = [(c, True)]
        while todo:
            x, v = todo.pop()
            if not isinstance(x, Term):
                continue
            if x.op == "not":
                todo.append((x.args[0], not v))
                continue
            m[x] = v
            if (x.op == "and") == v and x.op in ("and", "or"):
                todo += [(y, v) for y in x.args]
            elif x.op in ("and", "or"):
                a, b = x.args
                for y, z in ((a, b), (b, a)):
                    if known(y, m) == (not v):
                        todo.append((z, v))
        if len(m) == n:
            break
    return m


def known(x, m):
    if not isinstance(x, Term):
        return x
    if x.op == "not":
        k = known(x.args[0], m)
        return None if k is None else not k
    return m.get(x)


# ---------------------------------------------------------------- normal form
class Canon:
    """Laurent-polynomial normal form over atoms (exact rational coefficients)."""

    LIMIT = 400

    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.names = []

    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms[key] = i
        return i

    @staticmethod
    def _norm(p):
        return {m: c for m, c in p.items() if c != 0}

    def _const(self, x):
        if isinstance(x, float):
            if not math.isfinite(x):
                return {((self.atom(("const", repr(x))), 1),): Fraction(1)}
            x = Fraction(x)
        return {(): Fraction(x)} if x != 0 else {}

    def _single(self, key):
        return {((self.atom(key), 1),): Fraction(1)}

    @staticmethod
    def _mulm(a, b):
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
            if d[k] == 0:
                del d[k]
        return tuple(sorted(d.items()))

    def _mul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self._mulm(m, n)
                r[k] = r.get(k, 0) + c * d
        return self._norm(r)

    @staticmethod
    def fz(p):
        return tuple(sorted(p.items()))

    def key(self, t):
        p = self.poly(t) if is_float(t) or is_int(t) else self.boolean(t)
        return self.fz(p) if isinstance(p, dict) else p

    def poly(self, t):
        if not isinstance(t, Term):
            return self._const(t)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative descent to keep the Python stack small
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            kids = [y for y in (x.args[2] if x.op == "uf" else x.args) if isinstance(y, Term) and y.id not in self.memo]
            if x.op != "sym" and kids:
                stack.extend(kids)
                continue
            self.memo[x.id] = self._step(x)
            stack.pop()
        return self.memo[t.id]

    def boolean(self, t):
        if not isinstance(t, Term):
            return t
        return self.poly(t)

    def _k(self, y):
        if not isinstance(y, Term):
            if isinstance(y, bool):
                return y
            if isinstance(y, (int, float)):
                return self.fz(self._const(y))
            return y
        v = self.memo[y.id]
        return self.fz(v) if isinstance(v, dict) else v

    def _p(self, y):
        return self.memo[y.id] if isinstance(y, Term) else self._const(y)

    def _step(self, x):
        o, a = x.op, x.args
        if x.sort in ("f", "i"):
            if o == "sym":
                return self._single(("sym", a[0]))
            if o in ("add", "iadd", "sub", "isub"):
                p, q = self._p(a[0]), self._p(a[1])
                s = 1 if o in ("add", "iadd") else -1
                r = dict(p)
                for m, c in q.items():
                    r[m] = r.get(m, 0) + s * c
                r = self._norm(r)
                if len(r) <= self.LIMIT:
                    return r
                return self._single((o, self.fz(p), self.fz(q)))
            if o == "neg":
                return {m: -c for m, c in self._p(a[0]).items()}
            if o in ("mul", "imul"):
                p, q = self._p(a[0]), self._p(a[1])
                if len(p) * len(q) <= self.LIMIT:
                    return self._mul(p, q)
                return self._single(("mul", tuple(sorted([self.fz(p), self.fz(q)], key=repr))))
            if o == "div":
                p, q = self._p(a[0]), self._p(a[1])
                if not q:
                    return self._single(("div", self.fz(p), self.fz(q)))
                if len(q) == 1:
                    (m, c), = q.items()
                    inv = {tuple((k, -e) for k, e in m): 1 / c}
                    return self._mul(p, inv)
                # normalise the divisor by its first coefficient
                items = sorted(q.items())
                lead = items[0][1]
                nq = tuple((m, c / lead) for m, c in items)
                inv = {((self.atom(("inv", nq)), 1),): 1 / lead}
                if len(p) <= self.LIMIT:
                    return self._mul(p, inv)
                return self._single(("div", self.fz(p), self.fz(q)))
            if o in ("min", "max", "imin", "imax"):
                ks = set()
                for y in a:
                    k = self._k(y)
                    p = self._p(y)
                    if len(p) == 1:
                        (m, c), = p.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 1:
                            ak = self.names_of(m[0][0])
                            if ak and ak[0] == o:
                                ks |= set(ak[1])
                                continue
                    ks.add(k)
                return self._single((o, tuple(sorted(ks, key=repr))))
            if o == "abs":
                p = self._p(a[0])
                n = {m: -c for m, c in p.items()}
                return self._single(("abs", min(self.fz(p), self.fz(n), key=repr)))
            if o == "ite":
                # |x|, min and max written as comparisons
                return self._single(("ite", self._k(a[0]), self._k(a[1]), self._k(a[2])))
            if o == "uf":
                return self._single(("uf", a[0], a[1], tuple(self._k(y) for y in a[2])))
            return self._single((o,) + tuple(self._k(y) for y in a))
        # booleans
        if o == "sym":
            return ("bsym", a[0])
        if o in ("lt", "le", "ilt", "ile"):
            d = dict(self._p(a[0]))
            for m, c in self._p(a[1]).items():
                d[m] = d.get(m, 0) - c
            d = self._norm(d)
            lead = abs(sorted(d.items())[0][1]) if d else 1
            return (o.lstrip("i"), tuple((m, c / lead) for m, c in sorted(d.items())))
        if o in ("eq", "ieq"):
            d = dict(self._p(a[0]))
            for m, c in self._p(a[1]).items():
                d[m] = d.get(m, 0) - c
            d = self._norm(d)
            lead = sorted(d.items())[0][1] if d else 1
            return ("eq", tuple((m, c / lead) for m, c in sorted(d.items())))
        if o in ("and", "or"):
            ks = set()
            for y in a:
                k = self._k(y)
                if isinstance(k, tuple) and k and k[0] == o:
                    ks |= set(k[1])
                else:
                    ks.add(k)
            return (o, tuple(sorted(ks, key=repr)))
        if o == "uf":
            return ("uf", a[0], a[1], tuple(self._k(y) for y in a[2]))
        return (o,) + tuple(self._k(y) for y in a)

    def names_of(self, i):
        if len(self.names) < len(self.atoms):
            self.names = list(self.atoms.keys())
        return self.names[i]


# ---------------------------------------------------------------- random interpretation
def _rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


_UFC = {}


def uf_coefficients(name, idx, n):
    """coefficients of the quadratic that stands for an uninterpreted function"""
    k = (name, idx, n)
    if k not in _UFC:
        r = _rng("uf", name, idx)
        c0 = LD(r.uniform(0.5, 1.5))
        w = np.arange(1, n + 1, dtype=LD)
        _UFC[k] = (c0, (r.uniform(0.2, 1.0, n).astype(LD) / w)[:, None], (r.uniform(0.05, 0.2, n).astype(LD) / w)[:, None])
    return _UFC[k]


CHOICES = {}        # symbols that select one of a few variants


class Interp:
    """Random interpretation of terms over K points at once."""

    def __init__(self, sampler=None, K=48, seed=1, fixed=None, ufs=None):
        self.K = K
        self.seed = seed
        self.sampler = sampler
        self.memo = {}
        self.fixed = fixed or {}
        self.ufs = ufs
        self.stacks = {}
        self.track = []         # symbols whose value is being chosen
        self.symdeps = {}       # symbol -> symbols its sampler looked at

    def default(self, name, sort):
        r = _rng("s", self.seed, name)
        if sort == "f":
            v = r.uniform(0.25, 2.0, self.K) * np.where(r.random(self.K) < 0.35, -1.0, 1.0)
            return v.astype(LD)
        if sort == "b":
            return r.random(self.K) < 0.5
        if name in CHOICES:
            return r.integers(0, CHOICES[name], self.K).astype(object)
        return r.integers(1, 50, self.K).astype(object)

    def symbol(self, name, sort):
        if name in self.fixed:
            v = self.fixed[name]
            if sort == "f":
                return np.broadcast_to(np.asarray(v, dtype=LD), (self.K,)).copy()
            if sort == "b":
                return np.broadcast_to(np.asarray(v, dtype=bool), (self.K,)).copy()
            return np.broadcast_to(np.asarray(v, dtype=object), (self.K,)).copy()
        if self.sampler:
            self.track.append(set())
            v = self.sampler(name, sort, self)
            d = self.track.pop()
            if d:
                self.symdeps[name] = d
                if self.track:
                    self.track[-1] |= d
            if v is not None:
                return v
        return self.default(name, sort)

    def __call__(self, t):
        if not isinstance(t, Term):
            if isinstance(t, bool):
                return np.full(self.K, t)
            if isinstance(t, float):
                return np.full(self.K, LD(t))
            return np.full(self.K, t, dtype=object)
        memo = self.memo
        if self.track:
            for y in subterms([t]):
                if y.op == "sym":
                    self.track[-1].add(y.args[0])
                    self.track[-1] |= self.symdeps.get(y.args[0], set())
        if t.id in memo:
            return memo[t.id]
        stack = [t]
        with np.errstate(all="ignore"):
            while stack:
                x = stack[-1]
                if x.id in memo:
                    stack.pop()
                    continue
                if self._have(x):
                    stack.pop()
                    continue
                if x.op == "sym":
                    memo[x.id] = self.symbol(x.args[0], x.sort)
                    stack.pop()
                    continue
                args = x.args[2] if x.op == "uf" else x.args
                todo = [y for y in args if isinstance(y, Term) and y.id not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[x.id] = self._step(x)
                stack.pop()
        return memo[t.id]

    def _have(self, x):
        return False

    def _v(self, y):
        if isinstance(y, Term):
            return self.memo[y.id]
        if isinstance(y, bool):
            return np.full(self.K, y)
        if isinstance(y, float):
            return np.full(self.K, LD(y))
        return np.full(self.K, y, dtype=object)

    def _step(self, x):
        o = x.op
        if o == "uf":
            if self.ufs:
                v = self.ufs(x, self)
                if v is not None:
                    return v
            args = x.args[2]
            key = tuple(y.id if isinstance(y, Term) else (type(y), repr(y)) for y in args)
            vv = self.stacks.get(key)
            if vv is None:
                vs = np.zeros((len(args), self.K), LD)
                for n, y in enumerate(args):
                    v = self._v(y) if isinstance(y, (Term, bool, int, float)) else None
                    if v is None:
                        v = np.full(self.K, LD(_rng("k", repr(y)).uniform(0.5, 2)))
                    vs[n] = v
                bad = ~np.isfinite(vs).all(axis=0)      # arithmetic on NaN is slow
                vs[:, bad] = 0
                self.stacks[key] = vv = (vs, bad)
            c0, c1, c2 = uf_coefficients(x.args[0], x.args[1], len(args))
            if len(args):
                acc = c0 + (vv[0] * (c1 + c2 * vv[0])).sum(axis=0)
                acc[vv[1]] = LD(np.nan)
            else:
                acc = np.full(self.K, c0)
            if x.sort == "b":
                return np.sin(acc * 100) > 0
            if x.sort == "i":
                return np.array([int(abs(q)) % 50 + 1 if np.isfinite(q) else 0 for q in acc], dtype=object)
            return acc
        a = [self._v(y) for y in x.args]
        if o in ("add", "iadd"):
            return a[0] + a[1]
        if o in ("sub", "isub"):
            return a[0] - a[1]
        if o in ("mul", "imul"):
            return a[0] * a[1]
        if o == "div":
            return a[0] / a[1]
        if o == "neg":
            return -a[0]
        if o == "min":
            return np.fmin(a[0], a[1])
        if o == "max":
            return np.fmax(a[0], a[1])
        if o == "pow":
            return np.power(a[0], a[1])
        if o in UN:
            return UN[o](a[0]) if o != "abs" else np.abs(a[0])
        if o == "lt":
            return a[0] < a[1]
        if o == "le":
            return a[0] <= a[1]
        if o == "eq":
            return a[0] == a[1]
        if o == "isfinite":
            return np.isfinite(a[0])
        if o == "isnan":
            return np.isnan(a[0])
        if o == "signneg":
            return np.signbit(a[0])
        if o == "not":
            return ~a[0]
        if o == "and":
            return a[0] & a[1]
        if o == "or":
            return a[0] | a[1]
        if o == "iff":
            return a[0] == a[1]
        if o == "ite":
            return np.where(a[0], a[1], a[2])
        if o == "i2f":
            return np.array([LD(v) for v in a[0]], dtype=LD)
        if o == "f2i":
            lo, hi = x.args[1], x.args[2]
            return np.array([f2i(float(v), lo, hi) for v in a[0]], dtype=object)
        if o in ("ilt", "ile", "ieq", "idiv", "irem", "imin", "imax", "iband", "ibor", "ibxor", "ishl", "ishr"):
            r = [ibin(o, int(p), int(q)) for p, q in zip(a[0], a[1])]
            return np.array(r, dtype=bool if o in ("ilt", "ile", "ieq") else object)
        raise KeyError(o)


def close(a, b, rtol=1e-9, scale=None):
    """elementwise agreement of two interpreted values (NaN agrees with NaN, inf with inf)"""
    if a.dtype == bool or b.dtype == bool:
        return a.astype(bool) == b.astype(bool)
    a = np.asarray(a, dtype=LD)
    b = np.asarray(b, dtype=LD)
    with np.errstate(all="ignore"):
        m = np.maximum(np.abs(a), np.abs(b))
        if scale is not None:
            m = np.maximum(m, np.asarray(scale, dtype=LD))
        ok = np.abs(a - b) <= rtol * m + 1e-300
    return ok | (np.isnan(a) & np.isnan(b)) | (a == b)


# ---------------------------------------------------------------- interpretations that differ in a few symbols
_BIT, _MASK = {}, {}


def symmask(t):
    """bit set of the symbols in a term"""
    if t.id in _MASK:
        return _MASK[t.id]
    st = [t]
    while st:
        x = st[-1]
        if x.id in _MASK:
            st.pop()
            continue
        if x.op == "sym":
            _MASK[x.id] = 1 << _BIT.setdefault(x.args[0], len(_BIT))
            st.pop()
            continue
        args = x.args[2] if x.op == "uf" else x.args
        todo = [y for y in args if isinstance(y, Term) and y.id not in _MASK]
        if todo:
            st.extend(todo)
            continue
        m = 0
        for y in args:
            if isinstance(y, Term):
                m |= _MASK[y.id]
        _MASK[x.id] = m
        st.pop()
    return _MASK[t.id]


class Delta(Interp):
    """`base` with other values for a few symbols; everything else is shared"""

    def __init__(self, base, new):
        Interp.__init__(self, base.sampler, base.K, base.seed, {**base.fixed, **new}, base.ufs)
        self.base = base
        self.names = set(new)
        for n, d in base.symdeps.items():
            if d & self.names:
                self.names.add(n)
        self.mask = 0
        for n in self.names:
            self.mask |= 1 << _BIT.setdefault(n, len(_BIT))

    def _have(self, x):
        if not (symmask(x) & self.mask):
            self.memo[x.id] = self.base(x)
            return True
        return False

    def symbol(self, name, sort):
        if name not in self.names:
            return self.base(sym(name, sort))
        return Interp.symbol(self, name, sort)
