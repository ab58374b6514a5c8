"""Interpretations for obligations about gated event traces, directed by the trace's own conditions.

Every comparison in the gates (and in the payloads) of a trace is looked up in the random interpretations; one that never took
one of its two values is driven there by changing one input inside its domain.  Literals that symbolic texts are compared with
become sampled texts."""
import os
import re
import time
import numpy as np
from . import models
from . import terms as T
from .directed import Directed, Sub, atoms, impossible, robust
from .terms import LD
from .values import *


def terms_in(x):
    """all terms inside traces and values"""
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if isinstance(y, T.Term):
            out.append(y)
            continue
        if isinstance(y, (str, int, float, bool, type(None))) or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, (tuple, list)):
            st.extend(y)
        elif isinstance(y, dict):
            st.extend(y.values())
        elif isinstance(y, Agg):
            st.extend(y.fields)
        elif isinstance(y, VIte):
            st.extend((y.c, y.a, y.b))
        elif isinstance(y, (StrV, Report)):
            st.extend(y.parts)
        elif isinstance(y, VecV):
            st.extend(y.items)
        elif isinstance(y, Obj):
            st.extend(y.d.values())
        elif isinstance(y, IterV):
            st.extend(y.a)
    return out


def closure(ts):
    """terms, and the terms inside the texts that their text predicates look at"""
    todo, out, seen, lits = list(ts), [], set(), set()
    while todo:
        new = [x for x in T.subterms(todo) if x.id not in seen]
        todo = []
        for x in new:
            seen.add(x.id)
            out.append(x)
            if x.op == "sym" and x.args[0] in models.STRPRED:
                op, v, y = models.STRPRED[x.args[0]]
                for z in (v, y):
                    todo += terms_in(z)
                    for p in (z.parts if isinstance(z, StrV) else [z.c] if isinstance(z, CharV) else [z] if isinstance(z, str) else []):
                        if isinstance(p, str):
                            lits.add(p)
    return out, lits


INTS = [(re.compile(r"\.precision$"), 0, 60), (re.compile(r"output_counter_max$"), 1, 10 ** 12), (re.compile(r"iter_max$"), 1, 10 ** 18),
        (re.compile(r"^later$"), 4, 10 ** 15), (re.compile(r"(^|\.)iter\d*$"), 0, 10 ** 18)]
POS = re.compile(r"numerics_config\.(dt_min|dt_max|dt_cfl_param)$")


class Trace(Directed):
    def __init__(self, budget, dom=None):
        Directed.__init__(self, budget)
        self.end = time.time() + budget
        self.dom = dom

    def frozen(self, name, sort, base):
        if name in base.fixed:
            return True
        if self.dom:
            d = self.dom(name, sort)
            if d is not None:
                return d is False
        if sort == "i":
            return not any(r.search(name) for r, _, _ in INTS)
        return sort != "f" or not (POS.search(name) or re.search(r"numerics_config\.(t0|t_end)$|^(u|v)\d*\.cent\.|^ts\d*\.(t|dt)$", name))

    def in_domain(self, name, it, base):
        sort = it.sort.get(name)
        x = it(it.sym[name])
        if self.dom:
            d = self.dom(name, sort)
            if callable(d):
                return d(x, it, base)
        if sort == "i":
            for r, lo, hi in INTS:
                if r.search(name):
                    return ((x >= lo) & (x <= hi)).astype(bool)
            return (x >= 0).astype(bool)
        x = np.asarray(x, LD)
        ok = np.isfinite(x) & (np.abs(x) < 1e150)
        if POS.search(name):
            ok &= x > 1e-30
        if re.search(r"numerics_config\.(t0|t_end)$", name):
            p = name[:name.rindex(".")]
            a, b = it(T.fsym(p + ".t0")), it(T.fsym(p + ".t_end"))
            ok &= (a >= 0) & (b > a) & (b - a > 1e-9 * b)
        return ok


def focus(objs, its, budget=6.0, dom=None, per=4, limit=400):
    """interpretations that reach conditions of the traces which `its` do not reach; and what was (not) reached"""
    sub, lits = closure(terms_in(objs))
    ats = atoms(sub)
    d = Trace(budget, dom)
    out, stuck, n = [], 0, 0
    base = its[:2]
    for a in ats:
        seen = [False, False]
        for it in its:
            v = it(a).astype(bool)
            seen[0] |= bool((~v).any())
            seen[1] |= bool(v.any())
            if all(seen):
                break
        for b in (False, True):
            if seen[b] or impossible(a, b) or n >= limit:
                continue
            n += 1
            if d.over():
                stuck += 1
                continue
            ok = False
            for bs in base:
                it = d.drive(a, b, bs)
                if it is None:
                    continue
                hit = it.hit & robust(it, [a])
                idx = np.nonzero(hit)[0]
                if len(idx):
                    s = Sub(it, idx[np.linspace(0, len(idx) - 1, min(per, len(idx))).astype(int)])
                    s.why = (a, b)
                    out.append(s)
                    ok = True
            stuck += not ok
            if not ok and os.environ.get("VFDBG"):
                print("not reached:", b, T.show(a)[:200] if hasattr(T, "show") else a)
    return out, {"comparisons": len(ats), "one_sided": n, "not_reached": stuck, "extra_points": sum(i.K for i in out)}


def literals(objs):
    return closure(terms_in(objs))[1]


def extend(its, objs, dom=None, K=24, **kw):
    """the interpretations, one with the literals of the analysed texts, and those directed by the conditions of the traces"""
    from .terms import Interp
    lits = {x for x in literals(objs) if len(x) <= 60}
    out = list(its)
    if lits:
        b = its[0]
        it = Interp(b.sampler, K, b.seed + 7, b.fixed, b.ufs)
        it.lits = tuple(sorted(lits))
        out.append(it)
    pts, st = focus(objs, out, dom=dom, **kw)
    return out + pts, st
