"""Gated value-flow analysis over monomorphic MIR.

Each function body is interpreted over abstract values (value numbers).  Loops whose trip count is a
compile-time constant are unrolled, branches on unknown conditions are analysed on both sides and
joined at the immediate post-dominator with a gate (ITE), calls into the analysed crate are followed,
calls into ndarray/std/rayon are replaced by models (models.py).  No path is enumerated on its own
and nothing is executed.
"""
import itertools
import json
import sys

from . import terms as T
from .terms import Term
from .values import *

EXIT = -1


def _argkey(args):
    return json.dumps([a for a in args if "l" not in a], sort_keys=True)


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.insts, self.roots = d["types"], d["insts"], d["roots"]
        self.vtables = {}
        for v in d["vtables"]:
            tr, targs = v["trait"].split("|", 1)
            self.vtables[(v["ty"], tr, _argkey(json.loads(targs)))] = v["m"]
        self.by_full = {}
        for n, i in enumerate(self.insts):
            self.by_full.setdefault(i["full"], []).append(n)
        self._pd = {}
        self._tn = {}

    def root(self, name):
        n = "corries_roots::" + name
        if n not in self.roots:
            raise Undecided("entry point %s not present" % name)
        return self.roots[n]

    def tname(self, t):
        """canonical type name (structure only)"""
        if t is None:
            return "?"
        r = self._tn.get(t)
        if r is None:
            self._tn[t] = "…"
            r = self._tname(t)
            self._tn[t] = r
        return r

    def _tname(self, t):
        x = self.types[t]
        k = x["k"]
        f = self.tname
        if k in ("int", "uint", "float"):
            return x["n"]
        if k == "ref":
            return "&" + ("mut " if x["m"] else "") + f(x["t"])
        if k == "ptr":
            return "*" + f(x["t"])
        if k == "tuple":
            return "(" + ", ".join(map(f, x["ts"])) + ")"
        if k == "adt":
            a = [f(a["t"]) if "t" in a else str(a.get("c")) for a in x["args"] if "l" not in a]
            return x["n"] + ("<" + ", ".join(a) + ">" if a else "")
        if k == "array":
            return "[%s; %s]" % (f(x["t"]), x["len"])
        if k == "slice":
            return "[%s]" % f(x["t"])
        if k in ("fndef", "closure"):
            return k + " " + x["n"]
        return k

    def postdom(self, inst):
        r = self._pd.get(inst)
        if r is None:
            r = self._postdom(self.insts[inst]["body"])
            self._pd[inst] = r
        return r

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "ret":
            return [EXIT]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    def _postdom(self, body):
        bl = body["blocks"]
        n = len(bl)
        succ = {i: self.succs(b["t"]) for i, b in enumerate(bl)}
        # blocks that can reach the return
        pred = {i: [] for i in range(n)}
        pred[EXIT] = []
        for i, ss in succ.items():
            for s in ss:
                pred[s].append(i)
        live = {EXIT}
        st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    st.append(p)
        # dominators on the reversed graph (Cooper/Harvey/Kennedy)
        order, seen = [], set()
        stack = [(EXIT, iter(pred[EXIT]))]
        seen.add(EXIT)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen and y in live:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        num = {b: i for i, b in enumerate(order)}
        idom = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if b == EXIT:
                    continue
                new = None
                for s in succ[b]:
                    if s in live and s in idom:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] < num[y]:
                                    x = idom[x]
                                while num[y] < num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom


class Cells(dict):
    """memory cells, with a record of the ones written since the last fork"""
    __slots__ = ("log", "outer")

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.log, self.outer = set(), ()

    def __setitem__(self, k, v):
        self.log.add(k)
        dict.__setitem__(self, k, v)

    def pop(self, k, *d):
        self.log.add(k)
        return dict.pop(self, k, *d)


class State:
    __slots__ = ("cells", "facts", "trace", "dead", "cnt")

    def __init__(self):
        self.cells, self.facts, self.trace, self.dead, self.cnt = Cells(), {}, [], None, {}

    def copy(self):
        s = State()
        s.cells = Cells(self.cells)
        s.cells.outer = self.cells.outer = self.cells.outer + (self.cells.log,)
        self.cells.log = set()
        s.facts = dict(self.facts)
        s.trace = list(self.trace)
        s.dead = self.dead
        s.cnt = dict(self.cnt)
        return s

    def close(self, o):
        """end of a fork into self and o, after one of the two was chosen for self"""
        c = self.cells
        log = c.outer[-1]
        log |= c.log
        log |= o.cells.log
        c.log, c.outer = log, c.outer[:-1]

    def take(self, o):
        self.cells, self.facts, self.trace, self.dead, self.cnt = o.cells, o.facts, o.trace, o.dead, o.cnt


class Frame:
    __slots__ = ("inst", "body", "loc", "visits", "pd")


class Engine:
    def __init__(self, facts, hooks=None, unroll=3):
        from . import models
        self.F = facts
        self.types, self.insts = facts.types, facts.insts
        self.hooks = hooks or {}
        self.par, self.par_direct, self.npar = None, False, 0
        self.log_errors = False  # record failing operations and functions that return an error
        self.nofail = False      # assume that environment operations succeed
        self.unroll = unroll
        self.models = models
        self.ncell = 0
        self.steps = 0
        self.calls = {}
        self.bodies = set()
        self.cuts = []
        self.line = None
        self.stack = []
        self.max_steps = 6_000_000
        self.sites = set()
        self.fails = []

    # ------------------------------------------------------------ memory
    def cell(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def newarr(self, st, shape, data):
        c = self.cell(st, tuple(data))
        strides, acc = [], 1
        for s in reversed(shape):
            strides.insert(0, acc)
            acc *= s
        return Arr(c, shape, strides, 0, True)

    def known(self, st, c):
        """truth value of condition c under the facts of the state"""
        if isinstance(c, bool):
            return c
        f = st.facts
        v = f.get(c.id)
        if v is not None:
            return v
        o = c.op
        if o == "not":
            v = self.known(st, c.args[0])
            return None if v is None else not v
        if o == "and":
            a, b = self.known(st, c.args[0]), self.known(st, c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        elif o == "or":
            a, b = self.known(st, c.args[0]), self.known(st, c.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        elif o == "iff":
            a, b = self.known(st, c.args[0]), self.known(st, c.args[1])
            if a is not None and b is not None:
                return a == b
        elif o == "ite":
            a = self.known(st, c.args[0])
            if a is not None:
                return self.known(st, c.args[1] if a else c.args[2])
        return None

    def assume(self, st, c, val=True):
        if isinstance(c, bool):
            return c == val
        k = st.facts.get(c.id)
        if k is not None:
            return k == val
        o = c.op
        if not (o == "not" or o == "and" and val or o == "or" and not val):
            # (the others are decided by their parts below)
            k = self.known(st, c)
            if k is not None:
                st.facts[c.id] = k
                return k == val
        st.facts[c.id] = val
        if o == "not":
            return self.assume(st, c.args[0], not val)
        if o == "and" and val:
            return self.assume(st, c.args[0], True) and self.assume(st, c.args[1], True)
        if o == "or" and not val:
            return self.assume(st, c.args[0], False) and self.assume(st, c.args[1], False)
        if o == "and" and not val:
            for x, y in ((0, 1), (1, 0)):
                if self.known(st, c.args[x]) is True:
                    return self.assume(st, c.args[y], False)
        if o == "or" and val:
            for x, y in ((0, 1), (1, 0)):
                if self.known(st, c.args[x]) is False:
                    return self.assume(st, c.args[y], True)
        return True

    def simp(self, st, c):
        k = self.known(st, c) if T.is_bool(c) else None
        return c if k is None else k

    def vmap(self, st, v, f):
        """apply f to every alternative of a gated value"""
        if isinstance(v, VIte):
            k = self.known(st, v.c)
            if k is not None:
                return self.vmap(st, v.a if k else v.b, f)
            return self.join(st, v.c, self.vmap(st, v.a, f), self.vmap(st, v.b, f))
        return f(v)

    def resolve(self, st, v):
        while isinstance(v, VIte):
            k = self.known(st, v.c)
            if k is None:
                return v
            v = v.a if k else v.b
        return v

    def settle(self, st, v):
        """a moved value: gated alternatives of owned buffers become one buffer of gated elements"""
        t = type(v)
        if t is VIte:
            a, b = self.settle(st, v.a), self.settle(st, v.b)
            return self.join(st, v.c, a, b, st, st)
        if t is Agg:
            fs = [self.settle(st, x) for x in v.fields]
            if all(x is y for x, y in zip(fs, v.fields)):
                return v
            return Agg(v.ty, v.variant, fs)
        if t is VecV:
            fs = [self.settle(st, x) for x in v.items]
            if all(x is y for x, y in zip(fs, v.items)):
                return v
            return VecV(fs)
        return v

    # ------------------------------------------------------------ merging
    def join(self, st, c, a, b, s1=None, s2=None):
        """value that is a if c else b (new cells go to st)"""
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if T.is_scalar(a) and T.is_scalar(b):
            return T.ITE(c, a, b)
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        ta, tb = type(a), type(b)
        if ta is tb:
            if ta is Agg and a.variant == b.variant and len(a.fields) == len(b.fields) and (
                    a.ty == b.ty or a.ty is None or b.ty is None or a.ty == "unit" or b.ty == "unit"):
                fs = [self.join(st, c, x, y, s1, s2) for x, y in zip(a.fields, b.fields)]
                return Agg(a.ty if a.ty is not None else b.ty, a.variant, fs)
            if ta is VecV and len(a.items) == len(b.items):
                return VecV([self.join(st, c, x, y, s1, s2) for x, y in zip(a.items, b.items)])
            if ta is tuple and len(a) == len(b):
                return tuple(self.join(st, c, x, y, s1, s2) for x, y in zip(a, b))
            if ta is Arr and a.shape == b.shape and a.owned and b.owned and a.buf != b.buf and s1 is not None:
                if a.buf not in s1.cells:
                    return b  # dropped on that side: the value is dead there
                if b.buf not in s2.cells:
                    return a
                da = [s1.cells[a.buf][i] for i in a.indices()]
                db = [s2.cells[b.buf][i] for i in b.indices()]
                return self.newarr(st, a.shape, [self.join(st, c, x, y, s1, s2) for x, y in zip(da, db)])
            if ta is StrV:
                if veq(a, b):
                    return a
                return StrV([("strite", c, a, b)])
            if ta is Obj and a.kind == b.kind and a.kind == "fmt":
                return Obj("fmt", s=self.join(st, c, a.d["s"], b.d["s"]), spec=a.d["spec"])
            if veq(a, b):
                return a
        if isinstance(c, Term) and c.op == "not":
            return VIte(c.args[0], b, a)
        if isinstance(a, VIte) and a.c is c:
            a = a.a
        if isinstance(b, VIte) and b.c is c:
            b = b.b
        return VIte(c, a, b)

    def merge(self, base_len, nfacts, c, s1, s2):
        """join two states that were forked on c; returns the joined state"""
        t1, t2 = s1.trace[base_len:], s2.trace[base_len:]
        if s1.dead and s2.dead:
            s2.trace = s2.trace[:base_len] + [("ite", c, t1, t2)]
            return s2
        if s1.dead or s2.dead:
            live = s2 if s1.dead else s1
            if t1 or t2:
                live.trace = live.trace[:base_len] + [("ite", c, t1, t2)]
            return live
        out = s2
        c1, c2 = s1.cells, s2.cells
        for k in sorted(c1.log | c2.log):
            v = c1.get(k)
            if v is None:
                continue
            w = c2.get(k)
            if w is None:
                c2[k] = v
            elif w is not v:
                c2[k] = self.join(out, c, v, w, s1, s2)
        if t1 or t2:
            out.trace = s2.trace[:base_len] + [("ite", c, t1, t2)]
        f1, f2 = s1.facts, s2.facts
        # (facts are only ever added: the first nfacts of both are the ones before the fork)
        for k, v in list(itertools.islice(f2.items(), nfacts, None)):
            if f1.get(k) != v:
                del f2[k]
        for k, v in s1.cnt.items():
            if out.cnt.get(k, 0) < v:
                out.cnt[k] = v
        return out

    # ------------------------------------------------------------ places
    def is_ptr(self, v):
        return isinstance(v, (Ref, SliceRef, ValPtr))

    def walk(self, st, v, path):
        """read along a path inside a value"""
        for n, e in enumerate(path):
            if isinstance(v, VIte):
                rest = path[n:]
                k = self.known(st, v.c)
                if k is None and e[0] == "dc":
                    # a downcast is only evaluated when the variant matches
                    pa, pb = self.may_variant(v.a, e[1]), self.may_variant(v.b, e[1])
                    if pa and not pb:
                        k = True
                    elif pb and not pa:
                        k = False
                if k is not None:
                    return self.walk(st, v.a if k else v.b, rest)
                return self.join(st, v.c, self.walk(st, v.a, rest), self.walk(st, v.b, rest))
            if e[0] == "f":
                if isinstance(v, Agg):
                    if e[1] < len(v.fields):
                        v = v.fields[e[1]]
                    else:
                        raise Undecided("field %s of %s" % (e[1], self.F.tname(v.ty) if isinstance(v.ty, int) else v.ty))
                elif self.is_ptr(v):
                    pass  # Box / Unique / NonNull wrappers
                elif v is UNINIT:
                    return UNINIT
                elif isinstance(v, (Arr, VecV, StrV)) and False:
                    pass
                else:
                    raise Undecided("field access on %s" % type(v).__name__)
            elif e[0] == "ix":
                if isinstance(v, Agg):
                    v = v.fields[e[1]]
                elif isinstance(v, VecV):
                    v = v.items[e[1]]
                elif isinstance(v, tuple):
                    v = v[e[1]]
                else:
                    raise Undecided("index into %s" % type(v).__name__)
            elif e[0] == "dc":
                if isinstance(v, Agg) and v.variant != e[1]:
                    return UNINIT
        return v

    def may_variant(self, v, k):
        if isinstance(v, VIte):
            return self.may_variant(v.a, k) or self.may_variant(v.b, k)
        if isinstance(v, Agg):
            return v.variant == k
        return True

    def load(self, st, p):
        if isinstance(p, Ref):
            if p.cell not in st.cells:
                raise Undecided("read of a freed cell")
            return self.walk(st, st.cells[p.cell], p.path)
        if isinstance(p, ValPtr):
            return p.v
        if isinstance(p, VIte):
            k = self.known(st, p.c)
            if k is not None:
                return self.load(st, p.a if k else p.b)
            return self.join(st, p.c, self.load(st, p.a), self.load(st, p.b))
        if isinstance(p, SliceRef):
            return p
        if isinstance(p, (StrV, Arr)):
            return p
        raise Undecided("load through %s" % type(p).__name__)

    def upd(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if isinstance(v, VIte):
            k = self.known(st, v.c)
            if k is None and e[0] == "dc":
                pa, pb = self.may_variant(v.a, e[1]), self.may_variant(v.b, e[1])
                if pa and not pb:
                    return VIte(v.c, self.upd(st, v.a, path, new), v.b)
                if pb and not pa:
                    return VIte(v.c, v.a, self.upd(st, v.b, path, new))
            if k is not None:
                return self.upd(st, v.a if k else v.b, path, new)
            return VIte(v.c, self.upd(st, v.a, path, new), self.upd(st, v.b, path, new))
        if e[0] == "dc":
            if v is UNINIT:
                v = Agg(None, e[1], ())
            return self.upd(st, v, path[1:], new)
        i = e[1]
        if v is UNINIT:
            if all(x[0] == "f" for x in path) and len(path) >= 2:
                return new  # transparent wrappers of a MaybeUninit
            v = Agg(None, 0, ())
        if isinstance(v, Agg):
            fs = list(v.fields)
            while len(fs) <= i:
                fs.append(UNINIT)
            fs[i] = self.upd(st, fs[i], path[1:], new)
            return Agg(v.ty, v.variant, fs)
        if isinstance(v, VecV):
            fs = list(v.items)
            fs[i] = self.upd(st, fs[i], path[1:], new)
            return VecV(fs)
        if isinstance(v, tuple):
            fs = list(v)
            fs[i] = self.upd(st, fs[i], path[1:], new)
            return tuple(fs)
        raise Undecided("write into %s" % type(v).__name__)

    def store(self, st, p, new):
        if isinstance(p, Ref):
            if p.path:
                st.cells[p.cell] = self.upd(st, st.cells.get(p.cell, UNINIT), p.path, new)
            else:
                st.cells[p.cell] = new
            return
        if isinstance(p, VIte):
            k = self.known(st, p.c)
            if k is not None:
                return self.store(st, p.a if k else p.b, new)
            oa, ob = self.load(st, p.a), self.load(st, p.b)
            self.store(st, p.a, self.join(st, p.c, new, oa, st, st))
            self.store(st, p.b, self.join(st, p.c, ob, new, st, st))
            return
        raise Undecided("store through %s" % type(p).__name__)

    def project(self, st, p, e, frame):
        if isinstance(p, VIte):
            k = self.known(st, p.c)
            if k is not None:
                return self.project(st, p.a if k else p.b, e, frame)
            return VIte(p.c, self.project(st, p.a, e, frame), self.project(st, p.b, e, frame))
        if e == "*":
            v = self.resolve(st, self.load(st, p))
            if isinstance(v, (Ref, SliceRef, ValPtr, VIte)):
                return v
            if isinstance(v, (StrV,)):
                return ValPtr(v)
            raise Undecided("deref of %s" % type(v).__name__)
        k = e[0]
        if k == "f":
            el = ("f", e[1])
        elif k == "dc":
            el = ("dc", e[1])
        elif k == "oc":
            return p
        elif k == "i":
            n = self.resolve(st, st.cells[frame.loc[e[1]]])
            if not isinstance(n, int):
                raise Undecided("symbolic index")
            el = ("ix", n)
        elif k == "ci":
            n = e[1]
            if e[3]:
                n = self.length(st, p) - e[1]
            el = ("ix", n)
        elif k == "ss":
            n = self.length(st, p)
            hi = n - e[2] if e[3] else e[2]
            return SliceRef(p.base if isinstance(p, SliceRef) else p, (p.off if isinstance(p, SliceRef) else 0) + e[1],
                            hi - e[1])
        else:
            raise Undecided("projection %r" % (e,))
        if isinstance(p, Ref):
            return Ref(p.cell, p.path + (el,))
        if isinstance(p, SliceRef):
            if el[0] != "ix":
                return p
            if not (0 <= el[1] < p.len):
                raise Undecided("slice index out of range")
            return self.project_el(p.base, ("ix", p.off + el[1]), st)
        if isinstance(p, ValPtr):
            if self.is_ptr(p.v) and el[0] == "f":
                return p
            return ValPtr(self.walk(st, p.v, (el,)))
        raise Undecided("project %s" % type(p).__name__)

    def project_el(self, p, el, st):
        if isinstance(p, Ref):
            return Ref(p.cell, p.path + (el,))
        if isinstance(p, ValPtr):
            return ValPtr(self.walk(st, p.v, (el,)))
        if isinstance(p, SliceRef):
            return self.project_el(p.base, ("ix", p.off + el[1]), st)
        if isinstance(p, VIte):
            return VIte(p.c, self.project_el(p.a, el, st), self.project_el(p.b, el, st))
        raise Undecided("element of %s" % type(p).__name__)

    def length(self, st, p):
        if isinstance(p, SliceRef):
            return p.len
        v = self.load(st, p)
        if isinstance(v, VecV):
            return len(v.items)
        if isinstance(v, Agg):
            return len(v.fields)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, SliceRef):
            return v.len
        raise Undecided("length of %s" % type(v).__name__)

    def place(self, st, fr, pl):
        p = Ref(fr.loc[pl[0]])
        for e in pl[1]:
            p = self.project(st, p, e, fr)
        return p

    # ------------------------------------------------------------ constants and operands
    def const(self, tid, v):
        t = self.types[tid]
        k = t["k"]
        if "u" in v:
            return Obj("unknown", ty=tid)
        if "i" in v:
            return int(v["i"])
        if "f" in v and "v" not in v:
            import struct
            return struct.unpack("<d", struct.pack("<Q", int(v["f"])))[0]
        if "b" in v:
            return bool(v["b"])
        if "c" in v:
            return CharV(chr(int(v["c"])))
        if "s" in v:
            return StrV([v["s"]])
        if "fn" in v:
            return FnV(tid, v["fn"])
        if "z" in v:
            if k == "fndef":
                return FnV(tid, t.get("i"))
            if k == "closure":
                return Agg(tid, 0, ())
            if k == "array":
                return Agg(tid, 0, ())
            if k == "tuple":
                return Agg(tid, 0, [self.const(x, {"z": 1}) for x in t["ts"]])
            if k == "adt":
                fs = []
                if t["v"] and len(t["v"]) == 1:
                    fs = [self.const(x[1], {"z": 1}) for x in t["v"][0]["f"]]
                return Agg(tid, 0, fs)
            return UNIT
        if "r" in v:
            inner = t.get("t")
            if k == "adt":
                inner = t["args"][0]["t"]
            return ValPtr(self.const_in(inner, v["r"]))
        if "static" in v:
            return Obj("static", name=v["static"])
        return self.const_in(tid, v)

    def const_in(self, tid, v):
        t = self.types[tid]
        k = t["k"]
        if "a" in v:
            el = t.get("t")
            return Agg(tid, 0, [self.const(el, x) for x in v["a"]])
        if "g" in v:
            if k == "tuple":
                return Agg(tid, 0, [self.const(e, x) for e, x in zip(t["ts"], v["g"])])
            return Agg(tid, 0, ())
        if "v" in v:
            if t["v"]:
                fs = [self.const(f[1], x) for f, x in zip(t["v"][v["v"]]["f"], v["f"])]
            else:
                fs = []
            return Agg(tid, v["v"], fs)
        return self.const(tid, v)

    def operand(self, st, fr, o):
        k = o[0]
        if k == "m":
            return self.settle(st, self.resolve(st, self.load(st, self.place(st, fr, o[1]))))
        if k == "p":
            return self.resolve(st, self.load(st, self.place(st, fr, o[1])))
        if k == "c":
            return self.const(o[1], o[2])
        if k == "rc":
            return True
        raise Undecided("operand")

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dest_ty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            return self.place(st, fr, r[2])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "cbin":
            op = r[1].replace("Unchecked", "")
            v = self.binop(st, op, self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
            ov = False
            if isinstance(v, int) and not isinstance(v, bool):
                ts = self.types[dest_ty]
                if ts["k"] == "tuple":
                    lo, hi = int_range(self.types[ts["ts"][0]])
                    ov = not (lo <= v <= hi)
            return Agg(dest_ty, 0, (v, ov))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if T.is_bool(v):
                    return T.NOT(v)
                if isinstance(v, int):
                    lo, hi = int_range(self.types[dest_ty])
                    return (hi - v) if lo == 0 else ~v
                raise Undecided("bitwise not of a symbolic integer")
            if r[1] == "Neg":
                if T.is_float(v):
                    return T.fneg(v)
                return T.ibin("isub", 0, v)
            if r[1] == "PtrMetadata":
                if isinstance(v, (SliceRef, Ref, ValPtr)):
                    return self.length(st, v)
            raise Undecided("unary " + r[1])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "discr":
            return self.discr(st, self.load(st, self.place(st, fr, r[1])))
        if k == "len":
            return self.length(st, self.place(st, fr, r[1]))
        if k == "rep":
            v = self.operand(st, fr, r[1])
            return Agg(dest_ty, 0, [v] * r[2])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kd = r[1]
            if kd[0] == "adt":
                if kd[3] is not None:  # union
                    return ops[0]
                return Agg(kd[1], kd[2], ops)
            if kd[0] == "closure":
                return Agg(kd[1], 0, ops)
            if kd[0] == "array":
                return Agg(dest_ty, 0, ops)
            if kd[0] == "tuple":
                return Agg(dest_ty, 0, ops)
            raise Undecided("aggregate %s" % kd[0])
        raise Undecided("rvalue %s" % k)

    def discr(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, VIte):
            return T.ITE(v.c, self.discr(st, v.a), self.discr(st, v.b))
        if isinstance(v, Agg):
            if isinstance(v.ty, int):
                vs = self.types[v.ty].get("v")
                if vs and self.types[v.ty]["kind"].lower().startswith("enum"):
                    return sdiscr(vs[v.variant]["d"])
            return v.variant
        if isinstance(v, Obj) and v.kind == "ordering":
            return v.d["v"]
        raise Undecided("discriminant of %s" % type(v).__name__)

    def binop(self, st, op, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        op = op.replace("Unchecked", "")
        if T.is_float(a) and T.is_float(b):
            f = {"Add": T.fadd, "Sub": T.fsub, "Mul": T.fmul, "Div": T.fdiv}
            if op in f:
                return f[op](a, b)
            if op == "Lt":
                return self.simp(st, T.flt(a, b))
            if op == "Gt":
                return self.simp(st, T.flt(b, a))
            if op == "Le":
                return self.simp(st, T.fle(a, b))
            if op == "Ge":
                return self.simp(st, T.fle(b, a))
            if op == "Eq":
                return self.simp(st, T.feq(a, b))
            if op == "Ne":
                return self.simp(st, T.NOT(T.feq(a, b)))
            if op == "Rem":
                return T.uf("frem", (), (a, b))
        if T.is_bool(a) and T.is_bool(b):
            if op == "BitAnd":
                return T.AND(a, b)
            if op == "BitOr":
                return T.OR(a, b)
            if op in ("BitXor", "Ne"):
                return T.NOT(T.IFF(a, b))
            if op == "Eq":
                return T.IFF(a, b)
        if T.is_int(a) and T.is_int(b):
            m = {"Add": "iadd", "Sub": "isub", "Mul": "imul", "Div": "idiv", "Rem": "irem", "Lt": "ilt", "Le": "ile",
                 "Eq": "ieq", "BitAnd": "iband", "BitOr": "ibor", "BitXor": "ibxor", "Shl": "ishl", "Shr": "ishr"}
            if op in m:
                return self.simp(st, T.ibin(m[op], a, b))
            if op == "Gt":
                return self.simp(st, T.ibin("ilt", b, a))
            if op == "Ge":
                return self.simp(st, T.ibin("ile", b, a))
            if op == "Ne":
                return self.simp(st, T.NOT(T.ibin("ieq", a, b)))
        if isinstance(a, CharV) and isinstance(b, CharV):
            if op == "Eq":
                return a.c == b.c
            if op == "Ne":
                return a.c != b.c
        if isinstance(a, VIte) and not isinstance(b, VIte):
            return self.join(st, a.c, self.binop(st, op, a.a, b), self.binop(st, op, a.b, b))
        if isinstance(b, VIte):
            return self.join(st, b.c, self.binop(st, op, a, b.a), self.binop(st, op, a, b.b))
        if op in ("Eq", "Ne") and self.is_ptr(a) and self.is_ptr(b):
            r = veq(a, b)
            return r if op == "Eq" else not r
        raise Undecided("binary %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    def cast(self, st, kind, v, to, frm):
        v = self.resolve(st, v)
        tt = self.types[to]
        tf = self.types[frm] if frm is not None else {}
        if kind == "IntToInt":
            if T.is_bool(v):
                return T.b2i(v)
            if isinstance(v, CharV):
                return ord(v.c)
            if isinstance(v, int):
                lo, hi = int_range(tt)
                n = hi - lo + 1
                return (v - lo) % n + lo
            if isinstance(v, VIte):
                return self.vmap(st, v, lambda x: self.cast(st, kind, x, to, frm))
            lo, hi = int_range(tt)
            flo, fhi = int_range(tf) if tf.get("k") in ("int", "uint") else (lo, hi)
            if tt.get("k") in ("int", "uint") and fhi > hi and fhi > 1 << 40 and isinstance(v, Term) and hi < 1 << 40:
                # the high bits are lost
                n = hi - lo + 1
                w = T.ibin("irem", T.ibin("isub", v, lo), n)
                if flo < 0:
                    w = T.ibin("irem", T.ibin("iadd", w, n), n)
                return T.ibin("iadd", w, lo)
            return v
        if kind == "IntToFloat":
            return T.i2f(v)
        if kind == "FloatToInt":
            lo, hi = int_range(tt)
            return T.f2i(v, lo, hi)
        if kind == "FloatToFloat":
            if tt.get("n") == "f32" or tf.get("n") == "f32":
                if isinstance(v, float):
                    import struct
                    return struct.unpack("<f", struct.pack("<f", v))[0]
                if tt.get("n") == "f32":
                    return T.uf("f32", (), (v,))
            return v
        if kind.startswith("Unsize"):
            return self.unsize(st, v, to, frm)
        if kind.startswith("ReifyFnPointer"):
            return v
        if kind.startswith("ClosureFnPointer"):
            return v
        if kind in ("Transmute", "BoxDerefTransmute", "PtrToPtr", "MutToConstPointer", "FnPtrToPtr", "ArrayToPointer") or \
                kind.startswith("UnsafeFnPointer") or kind.startswith("MutToConst"):
            return v
        raise Undecided("cast %s" % kind)

    def unsize(self, st, v, to, frm):
        def pointee(t):
            x = self.types[t]
            if x["k"] in ("ref", "ptr"):
                return x["t"]
            if x["k"] == "adt" and x["args"] and "t" in x["args"][0]:
                return x["args"][0]["t"]
            return None
        pt, pf = pointee(to), pointee(frm)
        if isinstance(v, VIte):
            return VIte(v.c, self.unsize(st, v.a, to, frm), self.unsize(st, v.b, to, frm))
        if pt is not None and self.types[pt]["k"] == "dyn":
            if isinstance(v, Ref) and not (pf is not None and self.types[pf]["k"] == "dyn"):
                return Ref(v.cell, v.path, pf)
            return v
        return v

    # ------------------------------------------------------------ functions
    def call_inst(self, st, n, args):
        """analyse the body of instance n"""
        I = self.insts[n]
        b = I["body"]
        if b is None:
            raise Undecided("no body for %s" % I["full"])
        if len(self.stack) > 120:
            raise Undecided("recursion too deep")
        self.bodies.add(n)
        fr = Frame()
        fr.inst, fr.body, fr.visits = n, b, {}
        fr.pd = self.F.postdom(n)
        fr.loc = {}
        for i in range(len(b["locals"])):
            self.ncell += 1
            fr.loc[i] = self.ncell
            st.cells[self.ncell] = UNINIT
        if b["spread"] is not None and len(args) == b["argc"] and len(args) >= 1:
            pass
        if len(args) != b["argc"]:
            # closures called through FnOnce::call_once(closure, (args,)) style tuples
            if len(args) == 2 and isinstance(args[1], Agg) and len(args[1].fields) + 1 == b["argc"]:
                args = [args[0]] + list(args[1].fields)
            else:
                raise Undecided("arity mismatch calling %s" % I["full"])
        for i, a in enumerate(args):
            st.cells[fr.loc[i + 1]] = a
        self.stack.append(fr)
        saved = self.line
        try:
            self.run(st, fr, 0, EXIT)
        except Undecided as e:
            if not getattr(e, "at", None):
                e.at = "%s:%s in %s" % (I["file"], self.line, I["full"])
            raise
        finally:
            self.stack.pop()
            self.line = saved
        if st.dead:
            return UNINIT
        rv = st.cells[fr.loc[0]]
        for c in fr.loc.values():
            st.cells.pop(c, None)
        t0 = self.types[b["locals"][0]]
        if rv is UNINIT and t0["k"] == "tuple" and not t0["ts"]:
            rv = UNIT
        if self.log_errors and I["crate"] == "corries" and t0["k"] == "adt" and t0["n"].endswith("result::Result"):
            c = self.err_cond(st, rv)
            if c is not False:
                self.event(st, "errret", c, I["n"])
        return rv

    def err_cond(self, st, v):
        """condition under which a Result is an error"""
        v = self.resolve(st, v)
        if isinstance(v, VIte):
            return T.ITE(v.c, self.err_cond(st, v.a), self.err_cond(st, v.b))
        return isinstance(v, Agg) and v.variant == 1

    def die(self, st, why):
        st.trace.append(("panic", why, self.where()))
        st.dead = why

    def where(self):
        for fr in reversed(self.stack):
            I = self.insts[fr.inst]
            if I["crate"] == "corries":
                return "%s:%s in %s" % (I["file"], self.line, I["n"])
        return "?"

    def event(self, st, kind, *a):
        n = st.cnt.get(kind, 0)
        st.cnt[kind] = n + 1
        st.trace.append(("ev", kind, n, a, self.where(), tuple(self.par) if self.par else None))
        return n

    def run(self, st, fr, bb, stop):
        body = fr.body
        blocks = body["blocks"]
        locs = body["locals"]
        while True:
            if bb == stop or st.dead:
                return
            if bb == EXIT:
                return
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("analysis budget exceeded")
            B = blocks[bb]
            for s in B["s"]:
                if s[0] == "=":
                    self.line = s[3]
                    pl = s[1]
                    dty = locs[pl[0]] if not pl[1] else None
                    v = self.rvalue(st, fr, s[2], dty)
                    if not pl[1]:
                        st.cells[fr.loc[pl[0]]] = v
                    else:
                        self.store(st, self.place(st, fr, pl), v)
                elif s[0] == "sd":
                    p = self.place(st, fr, s[1])
                    v = self.load(st, p)
                    fs = v.fields if isinstance(v, Agg) else ()
                    self.store(st, p, Agg(v.ty if isinstance(v, Agg) else None, s[2], fs))
                else:
                    raise Undecided("statement %s" % s[0])
            t = B["t"]
            k = t[0]
            if k == "goto":
                bb = t[1]
            elif k == "ret":
                bb = EXIT
            elif k == "call":
                self.line = t[5]
                nxt = self.do_call(st, fr, t)
                if st.dead:
                    return
                bb = nxt
            elif k == "drop":
                self.do_drop(st, fr, t)
                bb = t[2]
            elif k == "switch":
                self.line = t[5]
                bb = self.do_switch(st, fr, bb, t, stop)
                if bb is None:
                    return
            elif k == "assert":
                self.line = t[5]
                c = self.operand(st, fr, t[1])
                c = c if t[2] else T.NOT(c)
                c = self.simp(st, c)
                if c is False:
                    self.die(st, "assert " + t[3])
                    return
                if c is not True:
                    self.assume(st, c)
                bb = t[4]
            elif k == "unreach":
                st.dead = "unreachable"
                return
            else:
                self.die(st, k)
                return

    def do_drop(self, st, fr, t):
        try:
            v = self.load(st, self.place(st, fr, t[1]))
        except Undecided:
            return
        if isinstance(v, Arr) and v.owned:
            st.cells.pop(v.buf, None)
        elif isinstance(v, (Agg, VIte, Obj, VecV)):
            self.models.drop_value(self, st, v)

    def do_switch(self, st, fr, bb, t, stop):
        d = self.resolve(st, self.operand(st, fr, t[1]))
        sty = self.types[t[4]] if isinstance(t[4], int) else {}
        if sty.get("k") == "int":
            hi = int_range(sty)[1]
            targets = [(int(v) if int(v) <= hi else int(v) - 2 * (hi + 1), b) for v, b in t[2]]
        else:
            targets = [(v, b) for v, b in t[2]]
        other = t[3]
        if isinstance(d, CharV):
            d = ord(d.c)
        if isinstance(d, (bool, int)):
            x = int(d)
            for v, b in targets:
                if int(v) == x or (x < 0 and int(v) == x % (1 << 64)) or (x < 0 and int(v) in (x % 256, x % (1 << 32), x % (1 << 16), x % (1 << 128))):
                    return b
            return other
        if not isinstance(d, Term):
            raise Undecided("switch on %s" % type(d).__name__)
        # guards
        alts = []
        rest = True
        for v, b in targets:
            if d.sort == "b":
                c = d if int(v) == 1 else T.NOT(d)
            else:
                c = T.ieq(d, sdiscr(v))
            c = self.simp(st, c)
            alts.append((c, b))
            rest = T.AND(rest, T.NOT(c))
        alts = [(c, b) for c, b in alts if c is not False]
        rest = self.simp(st, rest)
        if rest is not False and fr.body["blocks"][other]["t"][0] != "unreach":
            alts.append((True, other))
        for i, (c, b) in enumerate(alts):
            if c is True:
                alts = alts[: i + 1]
                break
        if not alts:
            st.dead = "unreachable"
            return None
        # same target for everything
        if len({b for _, b in alts}) == 1:
            return alts[0][1]
        if alts[-1][0] is not True:
            # exhaustive over the listed values: the last one takes the rest
            alts[-1] = (True, alts[-1][1])
        # group consecutive equal targets
        join_bb = fr.pd.get(bb)
        if join_bb is None:
            join_bb = EXIT
        vis = fr.visits.get(bb, 0)
        if vis > self.unroll:
            self.cuts.append(self.where())
            st.trace.append(("cut", self.where()))
            st.dead = "cut"
            return None
        fr.visits[bb] = vis + 1
        try:
            self.branch(st, fr, alts, join_bb)
        finally:
            fr.visits[bb] = vis
        if st.dead:
            return None
        return join_bb

    def branch(self, st, fr, alts, join_bb):
        c, b = alts[0]
        if c is True or len(alts) == 1:
            self.run(st, fr, b, join_bb)
            return
        base, nfacts = len(st.trace), len(st.facts)
        s1 = st.copy()
        ok1 = self.assume(s1, c, True)
        if not ok1:
            s1.dead = "infeasible"
        else:
            self.run(s1, fr, b, join_bb)
        ok2 = self.assume(st, c, False)
        if not ok2:
            st.dead = "infeasible"
        else:
            self.branch(st, fr, alts[1:], join_bb)
        log2 = st.cells
        if ok1:
            if not ok2:
                st.take(s1)
            else:
                m = self.merge(base, nfacts, c, s1, st)
                if m is not st:
                    st.take(m)
        # (whichever of the two was kept)
        st.cells.log |= log2.log
        st.close(s1)

    def fork(self, st, c, f1, f2):
        """value of f1 where c holds, of f2 elsewhere; the state is joined afterwards"""
        k = self.known(st, c)
        if k is not None:
            return (f1 if k else f2)(st)
        base, nfacts = len(st.trace), len(st.facts)
        s1 = st.copy()
        ok1 = self.assume(s1, c, True)
        v1 = UNINIT
        if ok1:
            v1 = f1(s1)
        else:
            s1.dead = "infeasible"
        v2 = UNINIT
        if self.assume(st, c, False):
            v2 = f2(st)
        else:
            st.dead = "infeasible"
        d1, d2 = s1.dead, st.dead
        log2 = st.cells
        if not d1 and not d2:
            # values live in cells while the states are merged, so owned arrays are copied
            tmp = self.ncell = self.ncell + 1
            s1.cells[tmp], st.cells[tmp] = v1, v2
            m = self.merge(base, nfacts, c, s1, st)
            v = m.cells.pop(tmp)
            if m is not st:
                st.take(m)
            st.cells.log |= log2.log
            st.close(s1)
            return v
        m = self.merge(base, nfacts, c, s1, st)
        if m is not st:
            st.take(m)
        st.cells.log |= log2.log
        st.close(s1)
        return UNINIT if d1 and d2 else v2 if d1 else v1

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, t):
        args = [self.operand(st, fr, a) for a in t[2]]
        fty = self.types[t[6]]
        dest = t[3]
        # the destination place is evaluated before the call
        dp = self.place(st, fr, dest) if dest[1] else Ref(fr.loc[dest[0]])
        dty = fr.body["locals"][dest[0]] if not dest[1] else None
        if t[4] is None and fty["k"] == "fndef":
            # diverging call
            self.die(st, "panic: " + fty["n"])
            return None
        if fty["k"] == "fndef":
            v = self.call_fndef(st, fty, args, dty)
        else:
            f = self.resolve(st, self.operand(st, fr, t[1]))
            v = self.call_value(st, f, args, dty)
        if st.dead:
            return None
        self.store(st, dp, v)
        return t[4]

    def call_fndef(self, st, fty, args, dty):
        name = fty["n"]
        n = fty.get("i")
        I = self.insts[n] if n is not None else None
        full = I["n"] if I else name
        self.calls[name] = self.calls.get(name, 0) + 1
        for key in (full, name):
            h = self.hooks.get(key)
            if h is not None:
                r = h(self, st, args, fty, dty)
                if r is not NotImplemented:
                    return r
        if I is not None and isinstance(I["kind"], list) and I["kind"][0] == "virtual":
            return self.call_virtual(st, I, name, args, dty)
        if I is not None and I["body"] is not None and I["crate"] in ("corries", "corries_roots") and \
                I["kind"] != "shim" and not name.startswith("std::ops::Fn"):
            return self.call_inst(st, n, args)
        m = self.models.lookup(name, full)
        if m is not None and id(m) in self.models.SEQMODELS:
            g = self.models.gated_seq(self, st, args)
            if g is not None:
                return self.fork(st, g, lambda s: self.call_fndef(s, fty, args, dty), lambda s: self.call_fndef(s, fty, args, dty))
        if m is not None:
            if self.par is None and ("rayon" in full or "ndarray::parallel" in full or "::par_" in full):
                # a parallel consumer: its closure calls are the tasks
                self.npar += 1
                self.par, self.par_direct = [self.npar, -1], True
                try:
                    r = m(Call(self, st, args, fty, dty, I))
                finally:
                    self.par, self.par_direct = None, False
            else:
                r = m(Call(self, st, args, fty, dty, I))
            if r is not NotImplemented:
                return r
        if I is not None and I["body"] is not None:
            return self.call_inst(st, n, args)
        raise Undecided("no model for %s (%s)" % (name, full))

    def call_virtual(self, st, I, name, args, dty):
        idx = I["kind"][1]
        p = self.resolve(st, args[0])

        def one(p):
            v = p
            for _ in range(4):
                if isinstance(v, Ref) and v.vt is not None:
                    break
                if isinstance(v, Ref):
                    v = self.resolve(st, self.load(st, v))
            if not (isinstance(v, Ref) and v.vt is not None):
                raise Undecided("virtual call on an unknown object")
            want = _argkey(I["args"][1:])
            for (ty, tr, targs), ms in self.F.vtables.items():
                if ty == v.vt and targs == want and ms and idx < len(ms) and ms[idx] is not None:
                    mi = self.insts[ms[idx]]
                    if mi["n"].split("::")[-1] == name.split("::")[-1]:
                        return ms[idx], Ref(v.cell, v.path)
            raise Undecided("no vtable entry for %s" % name)
        if isinstance(p, VIte):
            return self.fork(st, p.c, lambda s: self.call_virtual(s, I, name, args, dty), lambda s: self.call_virtual(s, I, name, args, dty))
        n, r = one(p)
        return self.call_inst(st, n, [r] + list(args[1:]))

    def call_value(self, st, f, args, dty=None):
        """call a closure / fn item / fn pointer value with unpacked arguments"""
        if self.par_direct:
            self.par[1] += 1
            self.par_direct = False
            try:
                return self.call_value(st, f, args, dty)
            finally:
                self.par_direct = True
        f = self.resolve(st, f)
        if isinstance(f, VIte):
            return self.fork(st, f.c, lambda s: self.call_value(s, f.a, args, dty),
                             lambda s: self.call_value(s, f.b, args, dty))
        if isinstance(f, Ref):
            v = self.resolve(st, self.load(st, f))
            if isinstance(v, Agg) and isinstance(v.ty, int) and self.types[v.ty]["k"] == "closure":
                return self.call_closure(st, v, f, args)
            return self.call_value(st, v, args, dty)
        if isinstance(f, ValPtr):
            return self.call_value(st, f.v, args, dty)
        if isinstance(f, FnV):
            t = self.types[f.ty] if f.ty is not None else None
            if t is not None and t["k"] == "fndef":
                return self.call_fndef(st, t, args, dty)
            if f.inst is not None and self.insts[f.inst]["body"]:
                return self.call_inst(st, f.inst, args)
            raise Undecided("call of %s" % f)
        if isinstance(f, Agg) and isinstance(f.ty, int):
            k = self.types[f.ty]["k"]
            if k == "closure":
                c = self.cell(st, f)
                return self.call_closure(st, f, Ref(c), args)
            if k == "fndef":
                return self.call_fndef(st, self.types[f.ty], args, dty)
        if isinstance(f, OpaqueFn):
            h = self.hooks.get("fn:" + f.name)
            if h:
                return h(self, st, args, None, dty)
        if callable(f):
            return f(*args)
        raise Undecided("call of %s" % type(f).__name__)

    def call_closure(self, st, clo, ref, args):
        t = self.types[clo.ty]
        n = t["i"]
        if n is None or self.insts[n]["body"] is None:
            raise Undecided("closure without body")
        b = self.insts[n]["body"]
        l1 = self.types[b["locals"][1]] if b["argc"] >= 1 else {"k": ""}
        self_arg = ref if l1["k"] in ("ref", "ptr") else clo
        if b["argc"] == 0:
            return self.call_inst(st, n, [])
        if b["argc"] == len(args) + 1:
            return self.call_inst(st, n, [self_arg] + list(args))
        # non-capturing closure coerced to a fn pointer keeps its self parameter
        raise Undecided("closure arity")


class Call:
    """arguments of a modelled call"""
    __slots__ = ("E", "st", "args", "fty", "dty", "inst")

    def __init__(self, E, st, args, fty, dty, inst):
        self.E, self.st, self.args, self.fty, self.dty, self.inst = E, st, args, fty, dty, inst

    def targ(self, k):
        n = 0
        for a in self.fty["args"]:
            if "t" in a:
                if n == k:
                    return a["t"]
                n += 1
        return None


def sdiscr(v):
    v = int(v)
    return v if v < (1 << 63) else v - (1 << 64) if v < (1 << 64) else v - (1 << 128)


def int_range(t):
    n = t.get("n")
    if t.get("k") == "bool":
        return 0, 1
    if t.get("k") == "char":
        return 0, 0x10FFFF
    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32,
            "u64": 64, "u128": 128, "usize": 64}.get(n, 64)
    if t.get("k") == "int":
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def deep(f):
    """run f in a thread with a large stack"""
    import threading
    out = {}

    def g():
        try:
            out["r"] = f()
        except BaseException as e:  # noqa
            out["e"] = e
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    th = threading.Thread(target=g)
    th.start()
    th.join()
    if "e" in out:
        raise out["e"]
    return out["r"]
