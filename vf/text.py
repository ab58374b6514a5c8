"""Concretisation of analysed text and of gated event traces at one interpretation point.

A rendered text is a list of segments: literal strings and floating-point fields
("num", kind, value, precision, width, align, zero, plus), so that two texts can be compared
without fixing the digits of real-valued expressions."""
import numpy as np
from . import models
from . import terms as T
from .terms import _rng
from .values import *

SAMPLES = {
    "folder_name": ["out", "out/", "a/b", "/tmp/x/", "res.d"],
    "file_name": ["f", "run_1", "sod", "x.y"],
}


def samples_for(prefix):
    return SAMPLES.get(prefix.split(".")[-1], ["alpha", "", "b/"])


def column(it, k):
    """the full interpretation a slice was taken from, and the column there"""
    while hasattr(it, "base"):
        if hasattr(it, "idx"):
            k = int(it.idx[k])
        it = it.base
    return it, k


class Text:
    def __init__(self, it, strs=None):
        self.it, self.strs = it, strs
        self.cache = {}

    # ---- scalars
    def vec(self, t):
        if not isinstance(t, T.Term):
            return None
        k = id(t)
        if k not in self.cache:
            self.cache[k] = (t, self.it(t))
        return self.cache[k][1]

    def val(self, t, k):
        if isinstance(t, T.Term):
            x = self.vec(t)[k]
            return bool(x) if t.sort == "b" else int(x) if t.sort == "i" else float(x)
        return t

    def sval(self, prefix, k):
        if self.strs:
            s = self.strs(prefix, k)
            if s is not None:
                return s
        it, k = column(self.it, k)
        if prefix not in self.cache:
            self.cache[prefix] = _rng("str", it.seed, prefix).integers(0, 1 << 30, it.K)
        c = samples_for(prefix)
        return c[int(self.cache[prefix][k]) % len(c)]

    def at(self, v, k):
        while isinstance(v, VIte):
            v = v.a if self.val(v.c, k) else v.b
        return v

    # ---- strings
    def segs(self, v, k):
        v = self.at(v, k)
        if isinstance(v, str):
            return [v]
        if isinstance(v, CharV):
            return [v.c]
        if not isinstance(v, StrV):
            raise Undecided("text expected, found %s" % type(v).__name__)
        out = []
        for p in v.parts:
            for s in self.part(p, k):
                if isinstance(s, str) and out and isinstance(out[-1], str):
                    out[-1] += s
                elif s != "":
                    out.append(s)
        return out

    def lit(self, v, k):
        s = self.segs(v, k)
        if not s:
            return ""
        if len(s) == 1 and isinstance(s[0], str):
            return s[0]
        raise Undecided("not a literal text: %s" % (s,))

    def spec(self, sp, k):
        d = {a: (self.val(b, k) if isinstance(b, T.Term) else b) for a, b in sp}
        if not d.get("width"):
            d.pop("width", None)
            for n in ("align", "fill", "zero"):
                d.pop(n, None)
        return d

    def part(self, p, k):
        if isinstance(p, str):
            return [p]
        t = p[0]
        if t == "s":
            return [self.sval(p[1], k)]
        if t == "val":
            return self.segs(p[1], k)
        if t == "strite":
            return self.segs(p[2] if self.val(p[1], k) else p[3], k)
        if t == "fmt":
            return self.fmt(p[1], p[2], self.at(p[3], k), self.spec(p[4], k), k)
        if t == "pad":
            return self.pad(self.segs(p[1], k), self.spec(p[2], k), 0)
        if t == "pathjoin":
            a, b = self.lit(p[1], k), self.lit(p[2], k)
            return [b if b.startswith("/") or a == "" else a + b if a.endswith("/") else a + "/" + b]
        if t == "pop":
            s = self.segs(p[1], k)
            if s and isinstance(s[-1], str):
                return s[:-1] + [s[-1][:-1]]
            if not s:
                return []
        if t == "json":
            return [("opq", "json", p[1], self.tree(p[2], k))]
        if t == "lineof":
            return [("opq", "line", p[2]) + self.part(p[1], k)[0][1:]]
        if t == "debug":
            return [("opq", "debug", self.tree(p[1], k))]
        if t == "strop" and p[1] in models.STROPS:
            return [models.STROPS[p[1]](*[self.lit(x, k) for x in p[2:]])]
        raise Undecided("text part %s" % t)

    def tree(self, v, k):
        v = self.at(v, k)
        if isinstance(v, T.Term):
            return self.val(v, k)
        if isinstance(v, StrV):
            return tuple(self.segs(v, k))
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == "ite":
                return self.tree(v[2] if self.val(v[1], k) else v[3], k)
            return tuple(self.tree(x, k) for x in v)
        return v if isinstance(v, (str, int, float, bool, type(None))) else repr(v)

    def pad(self, s, d, dflt):
        if "prec" in d:
            if any(not isinstance(x, str) for x in s):
                raise Undecided("truncated number")
            s = ["".join(s)[:d["prec"]]]
        w = d.get("width")
        if not w:
            return s
        al = d.get("align", 3)
        al = dflt if al == 3 else al
        if len(s) == 1 and isinstance(s[0], tuple) and s[0][0] == "num" and s[0][4] is None and d.get("fill", " ") == " ":
            return [s[0][:4] + (w, al, False) + s[0][7:]]
        if any(not isinstance(x, str) for x in s):
            raise Undecided("padded mixed text")
        x = "".join(s)
        f = d.get("fill", " ")
        n = max(0, w - len(x))
        if d.get("zero"):
            i = 1 if x[:1] in ("+", "-") else 0
            return [x[:i] + "0" * n + x[i:]]
        return [f * n + x if al == 1 else x + f * n if al == 0 else f * (n // 2) + x + f * (n - n // 2)]

    def fmt(self, trait, tn, v, d, k):
        if isinstance(v, T.Term):
            s = v.sort
            v = self.val(v, k)
        else:
            s = "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f" if isinstance(v, float) else None
        if isinstance(v, (StrV, CharV)):
            x = self.segs(v, k)
            if trait == "Display":
                return self.pad(x, d, 0)
            return [("opq", trait, tuple(x), tuple(sorted(d.items())))]
        if trait in ("Display", "Debug") and s == "b":
            return self.pad(["true" if v else "false"], d, 0)
        if trait in ("Display", "Debug") and s == "i":
            x = str(v)
            if d.get("plus") and v >= 0:
                x = "+" + x
            d.pop("prec", None)
            return self.pad([x], d, 1)
        if s == "f" or (s == "i" and trait in ("LowerExp", "UpperExp")):
            al = d.get("align", 3)
            if d.get("fill", " ") != " ":
                raise Undecided("fill character")
            w = d.get("width")
            return [("num", {"LowerExp": "e", "UpperExp": "E", "Display": "f", "Debug": "?"}.get(trait, trait), float(v), d.get("prec"),
                     w, None if w is None else (1 if al == 3 else al), bool(d.get("zero")), bool(d.get("plus")))]
        return [("opq", trait, tn, self.tree(v, k), tuple(sorted(d.items())))]

    # ---- events
    def run(self, tr, k):
        """concrete event sequence at interpretation k"""
        out = []
        self._run(tr, k, out)
        return out

    def _run(self, tr, k, out):
        for e in tr:
            if e[0] == "ite":
                if not self._run(e[2] if self.val(e[1], k) else e[3], k, out):
                    return False
                continue
            if e[0] in ("cut", "panic"):
                out.append((e[0],) + tuple(e[1:]))
                return False
            kind, n, pl = e[1], e[2], e[3]
            if kind == "write":
                out.append(("write", self.target(pl[0], k), self.segs(pl[1], k), e))
            elif kind in ("print", "eprint"):
                out.append(("write", ("stdout" if kind == "print" else "stderr",), self.segs(pl[0], k), e))
            elif kind == "open":
                out.append(("open", self.lit(pl[0], k), {a: self.val(b, k) for a, b in pl[1]}, n))
            elif kind == "fs":
                out.append(("fs", pl[0]) + tuple(self.lit(x, k) for x in pl[1:]))
            elif kind == "probe":
                out.append(("probe", pl[0], self.lit(pl[1], k),
                            bool(self.val(T.bsym("%s:%d:%r" % (pl[0], n, pl[1])), k))))
            elif kind == "flush":
                pass
            else:
                out.append((kind, n) + tuple(pl))
        return True

    def target(self, o, k):
        o = self.at(o, k)
        if isinstance(o, Obj):
            if o.kind in ("stdout", "stderr"):
                return (o.kind,)
            if o.kind == "lock":
                return (o.d["of"], "lock", o.d["id"])
            if o.kind == "file":
                return ("file", o.d["n"])
        raise Undecided("unknown output stream %s" % (o,))


def seg_eq(a, b, rtol=1e-9, atol=1e-12):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif x[0] == "num" and y[0] == "num":
            if x[:2] + x[3:] != y[:2] + y[3:]:
                return False
            u, v = x[2], y[2]
            if not (u == v or (u != u and v != v) or abs(u - v) <= rtol * max(abs(u), abs(v)) + atol):
                return False
        elif x != y:
            return False
    return True


def join(*ss):
    out = []
    for s in ss:
        for x in ([s] if isinstance(s, (str, tuple)) else s):
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
    return out


def grow(out, s):
    """join(out, s) in place"""
    for x in s:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def show(s):
    return "".join(x if isinstance(x, str) else "{%s%s:%.6g}" % (x[1], "" if x[0] != "num" else ".%s>%s" % (x[3], x[4]), x[2])
                   if x[0] == "num" else "{%s}" % (str(x)[:60],) for x in s)


def strpred(text):
    """sampler for the string predicates of models.STRPRED, consistent with the sampled strings"""
    def f(name, sort, it):
        if sort not in ("b", "i"):
            return None
        p = models.STRPRED.get(name)
        if p is None:
            return None
        op, v, x = p
        tx = text(it)
        out = np.zeros(it.K, dtype=bool if sort == "b" else object)
        for k in range(it.K):
            a = tx.lit(v, k)
            if op == "strlen":
                out[k] = len(a.encode())
                continue
            b = tx.lit(x, k) if x is not None else None
            if op in models.STRTESTS:
                out[k] = models.STRTESTS[op](a) if b is None else models.STRTESTS[op](a, b)
                continue
            out[k] = {"strempty": lambda: a == "", "ends_with": lambda: a.endswith(b), "starts_with": lambda: a.startswith(b),
                      "contains": lambda: b in a, "streq": lambda: a == b}[op]()
        return out
    return f


# ---- file system semantics of the realised events
class Files:
    """contents of files and streams after a sequence of concrete events"""

    def __init__(self, existed=lambda path: False):
        self.existed = existed
        self.files = {}      # path -> segments
        self.streams = {"stdout": [], "stderr": []}
        self.handles = {}
        self.bad = []

    def old(self, path):
        if path not in self.files and self.existed(path):
            self.files[path] = [("opq", "old contents of", path)]
        return path in self.files

    def feed(self, ev):
        k = ev[0]
        if k == "open":
            _, path, fl, n = ev
            had = self.old(path)
            g = lambda x: bool(fl.get(x, False))
            if g("create_new"):
                if had:
                    self.bad.append("%s must not exist" % path)
                self.files[path] = []
            elif g("append"):
                if g("truncate"):
                    self.bad.append("append and truncate on %s" % path)
                if not had:
                    if not g("create"):
                        self.bad.append("%s is not created" % path)
                    self.files[path] = []
            elif g("write"):
                if not had:
                    if not g("create"):
                        self.bad.append("%s is not created" % path)
                    self.files[path] = []
                elif g("truncate"):
                    self.files[path] = []
                else:
                    self.files[path] = [("opq", "overwritten in place", path)] + self.files[path]
            elif not g("read"):
                self.bad.append("%s opened without access mode" % path)
            self.handles[n] = path
        elif k == "write":
            t = ev[1]
            if t[0] == "file":
                p = self.handles.get(t[1])
                if p is None:
                    raise Undecided("write to an unknown file")
                grow(self.files.setdefault(p, []), ev[2])
            else:
                grow(self.streams[t[0]], ev[2])
        elif k == "fs":
            if ev[1] in ("remove_file",):
                self.files.pop(ev[2], None)
            elif ev[1] in ("remove_dir_all", "remove_dir"):
                d = ev[2].rstrip("/") + "/"
                for p in [p for p in self.files if p.startswith(d)]:
                    self.files.pop(p)
            elif ev[1] == "rename" and ev[2] in self.files:
                self.files[ev[3]] = self.files.pop(ev[2])


def blocks(events, steps=("step",)):
    """alternating list: ('out', {target: text}) and the step events"""
    out, cur, h = [], {}, {}
    for e in events:
        if e[0] == "open":
            h[e[3]] = e[1]
        elif e[0] == "write":
            t = e[1]
            key = h.get(t[1], "?") if t[0] == "file" else t[0]
            grow(cur.setdefault(key, []), e[2])
        elif e[0] in steps or e[0] in ("cut", "panic"):
            if cur:
                out.append(("out", cur))
                cur = {}
            out.append(e)
    if cur:
        out.append(("out", cur))
    return out
