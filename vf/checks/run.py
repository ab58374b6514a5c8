"""C13 run loop, C20 validation rejects invalid states, C21 validation is observation only."""
import numpy as np
from .. import focus
from .. import terms as T
from .. import text as X
from .. import trace
from ..check import Check
from ..sampling import Phys
from ..setup import Sim
from ..terms import Interp, LD, _rng
from ..values import *
from .phys import snapshot

STEP = "corries::TimeSolver::next_solution"
OUTS = {
    "stdout-scalar+file-vector": [("Stdout", "CSV", "Scalar", ("T", "Iter", "Dt", "DtKind")), ("File", "CSV", "Vector", (("Prim", 1), "T"))],
    "file-scalar": [("File", "CSV", "Scalar", ("T", "Iter", "DtKind"))],
    "file-vector+file-scalar": [("File", "CSV", "Vector", ("Iter", ("Cons", 0))), ("File", "CSV", "Scalar", ("DtKind", "T"))],
}


class Run:
    """init_corries and run_corries with an abstract time solver; N_STEPS steps are followed"""

    def __init__(self, chk, system, scheme, S, outs, unroll=4, mid=False):
        self.outs, self.mid = outs, mid
        s = self.s = Sim(chk.F, system, scheme, S, outs=outs, unroll=unroll)
        chk.watch(s.w)
        s.w.E.nofail = True
        s.w.E.hooks["fn:init"] = self.init
        r = s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")])
        self.init_err, v = s.w.ok(r)
        if v is None:
            raise Undecided("init always fails")
        self.sim = s.w.cell(v)
        self.simt = s.w.strip(s.w.root_ty(s.mod + "::run_corries", 1))
        st = s.w.st
        if st.dead:
            raise Undecided("initialisation never completes")
        st.trace = []
        if mid:
            midrun(s, self.sim)
        s.w.E.hooks[STEP] = self.step
        # the state at the beginning: whatever initialisation left (C15 decides its consistency)
        s.u = s.w.E.project_el(self.sim, ("f", 0), st)
        if mid:
            s.w.symbolize(s.u, "u0", st)
        self.u0 = snapshot(s, "cent")
        st.trace = []
        st.cnt.pop("step", None)
        self.ret = s.w.call(s.mod + "::run_corries", [self.sim])
        self.trace = st.trace

    def init(self, E, st, args, fty, dty):
        s = self.s
        p = args[0]
        s.w.symbolize(p, "u0", st)
        return Agg(dty, 0, (UNIT,))

    def step(self, E, st, args, fty, dty):
        s = self.s
        n = E.event(st, "step")
        ts = args[1]
        T0 = s.tst
        s.w.symbolize(args[2], "u%d" % (n + 1), st)
        f = T.bsym("fail:step:%d" % n)
        it = s.w.get(ts, T0, "iter", st)
        s.w.put(ts, T0, "iter", T.ibin("iadd", it, 1), st)
        s.w.put(ts, T0, "dt", T.fsym("run.dt:%d" % (n + 1)), st)
        told = s.w.get(ts, T0, "t", st)
        s.w.put(ts, T0, "t", T.ITE(f, told, T.fsym("run.t:%d" % (n + 1))), st)
        return VIte(f, Agg(dty, 1, (Report("env", "step", n),)), Agg(dty, 0, (UNIT,)))


class Sampled:
    """a sampler that knows whether the run starts at its beginning"""

    def __init__(self, f, mid):
        self.f, self.mid = f, mid

    def __call__(self, name, sort, it):
        return self.f(name, sort, it)


def TIMES(name, sort):
    """symbols that may be moved to reach a condition of the run loop"""
    if name.startswith("run.") and sort == "f" and not name.startswith("run.dt:"):
        return False
    return None


def midrun(s, sim):
    """induction hypothesis of the run loop: some outputs and steps have been made, all of them counted; the time coordinate, the next
    output time and the counters are arbitrary"""
    w, st = s.w, s.w.st
    el = lambda i: w.E.project_el(sim, ("f", i), st)
    u, so, m, wr = el(0), el(1), el(2), el(3)
    cent = w.at(u, s.ut, "cent")[0]
    ts = w.at(so, s.sot, "timestep")[0]
    snap = None
    for n in range(2):
        snap = w.ints(wr)
        w.call(s.phys + "::writer_update_data", [wr, cent, ts, m])
        w.call("misc::writer_write_output", [wr])
    if st.dead:
        raise Undecided("the first outputs never complete")
    if not w.generalise(wr, snap, w.ints(wr), "later"):
        raise Undecided("the output counter is not found")
    w.put(ts, s.tst, "iter", T.isym("run.iter"))
    for f, n in (("t", "run.t:0"), ("t_next_output", "run.tn"), ("dt", "run.dt:0")):
        w.put(ts, s.tst, f, T.fsym(n))
    st.trace = []


NOUT, NSTEP = 3, 6


def later(it):
    """sampled time and next output time in the middle of a run"""
    r = _rng("chain0", it.seed)
    K = it.K
    t0, te = it(T.fsym(C + "t0")), it(T.fsym(C + "t_end"))
    dm = it(T.fsym(C + "dt_min"))
    n = it(T.isym("cfg.output_counter_max"))
    do = (te - t0) / np.array([LD(int(x)) for x in n], dtype=LD)
    # (the next output time is t0 plus a number of intervals, at most one of them beyond the end)
    tn = t0 + do * np.array([LD(1 + int(x)) for x in r.integers(0, 1 << 30, K) % np.array([int(x) + 1 for x in n])], dtype=LD)
    t = tn - do * r.uniform(0, 1, K).astype(LD)
    near = np.array([0.005, 0.5, 0.95, 1.05, 1.3, 1.7])[r.integers(0, 6, K)].astype(LD)
    m = r.integers(0, 5, K)
    lim = np.minimum(tn, te)
    t = np.where(m == 0, lim, np.where(m <= 2, lim - np.minimum(dm * near, do / 2), np.minimum(t, lim)))
    return np.maximum(t, t0), tn


def chain(it):
    """sampled time coordinates: never beyond the next output time or the end"""
    r = _rng("chain", it.seed)
    K = it.K
    t0, te = it(T.fsym(C + "t0")), it(T.fsym(C + "t_end"))
    dm = it(T.fsym(C + "dt_min"))
    n = it(T.isym("cfg.output_counter_max"))
    do = (te - t0) / np.array([LD(int(x)) for x in n], dtype=LD)
    t, tn = (x.copy() for x in (later(it) if getattr(it.sampler, "mid", False) else (t0, t0 + do)))
    tn = np.where(t >= tn - dm, tn + do, tn) if getattr(it.sampler, "mid", False) else tn
    out = []
    for _ in range(NSTEP + 2):
        lim = np.minimum(tn, te)
        lim = np.where(lim > t, lim, te)
        m = r.integers(0, 6, K)
        gap = np.maximum(lim - t, 0)
        # on, shortly before (inside and outside the dt_min tolerance) or far from the next output time
        near = np.array([0.005, 0.5, 0.95, 1.05, 1.3, 1.7])[r.integers(0, 6, K)]
        x = np.where(m <= 1, lim, np.where(m == 2, t + gap * LD(0.5), lim - np.minimum(dm * near.astype(LD), gap / 2)))
        x = np.maximum(x, t)
        out.append(x)
        t = x
        tn = np.where(t >= tn - dm, tn + do, tn)
    return out


C = "cfg.numerics_config."


def sampler(mid=False):
    pred = X.strpred(lambda it: X.Text(it))
    scale = lambda it: np.power(LD(10), np.where(_rng("ts1", it.seed).random(it.K) < 0.5, 0, _rng("ts2", it.seed).uniform(-12, 9, it.K)).astype(LD))

    def f(name, sort, it):
        v = pred(name, sort, it)
        if v is not None:
            return v
        if name.startswith("fail:step"):
            return _rng("f", it.seed, name).random(it.K) < 0.12
        if name == "run.t:0":
            return later(it)[0]
        if name == "run.tn":
            return later(it)[1]
        if name.startswith("run.t:"):
            return chain(it)[int(name[6:]) - 1]
        if name == C + "t0":
            r = _rng("t1", it.seed)
            return np.abs(_rng("t0", it.seed).normal(0, 1, it.K)).astype(LD) * scale(it) * np.array([0, 1, 1, 100])[r.integers(0, 4, it.K)]
        if name == C + "t_end":
            return it(T.fsym(C + "t0")) + _rng("te", it.seed).uniform(0.5, 2.0, it.K).astype(LD) * scale(it)
        if name == C + "dt_min":
            return np.power(LD(10), _rng("dm", it.seed).uniform(-11, -2, it.K).astype(LD)) * scale(it)
        if name == C + "iter_max":
            if mid:
                return np.array([int(a) + int(b) for a, b in zip(it(T.isym("run.iter")), [[1, 2, 3, 4, 1000, 1000, 1000][x] for x in _rng("im", it.seed).integers(0, 7, it.K)])], dtype=object)
            return np.array([[1, 2, 3, 4, 1000, 1000, 1000][x] for x in _rng("im", it.seed).integers(0, 7, it.K)], dtype=object)
        if name == "cfg.output_counter_max":
            if mid:
                return np.array([[1, 2, 3, 10, 100, 1000, 10 ** 5, 10 ** 6, 257, 2 ** 16 + 5, 2 ** 32 + 5][x] for x in _rng("oc", it.seed).integers(0, 11, it.K)], dtype=object)
            return _rng("oc", it.seed).integers(1, NOUT + 1, it.K).astype(object)
        if name == "later":
            return np.array([int(10 ** x) for x in _rng("later", it.seed).uniform(0.4, 8, it.K)], dtype=object)
        if name == "run.iter":
            return np.array([int(10 ** x) for x in _rng("riter", it.seed).uniform(0.4, 15, it.K)], dtype=object)
        if name.endswith(".precision"):
            return _rng("pr", it.seed, name).integers(0, 20, it.K).astype(object)
        return None
    f.mid = mid
    return f


# ---- independent simulation of the documented loop
def fields(o, names, env, tx, k, prec):
    rows = [[]]
    for d in names:
        nm = d if isinstance(d, str) else d[0]
        if nm in ("Prim", "Cons"):
            vals = [("num", "e", float(tx.val(x, k)), prec, None, None, False, False) for x in env[nm][d[1]]]
            if len(rows) == 1:
                rows = [list(rows[0]) for _ in vals]
            for r, v in zip(rows, vals):
                r.append(v)
        else:
            v = env[nm]
            for r in rows:
                r.append(("num", "e", v, prec, None, None, False, False) if isinstance(v, float) else str(v))
    if o == "Vector" and len(rows) == 1:
        rows = [rows[0]] * env["n"]
    out = []
    for r in rows:
        for i, x in enumerate(r):
            out = X.join(out, "," if i else "", [x] if isinstance(x, tuple) else x)
        out = X.join(out, "\n")
    return out


HEAD = {"T": "t", "Iter": "iter", "Dt": "dt", "DtKind": "dt_kind"}


def strip_header(seg, want_header):
    """remove the header line (its contents are C17's business)"""
    if not want_header:
        return seg
    if seg and isinstance(seg[0], str) and "\n" in seg[0]:
        rest = seg[0].split("\n", 1)[1]
        return ([rest] if rest else []) + seg[1:]
    return [("opq", "missing header")] + seg


def expected(run, tx, k, kinds):
    """list of ('out', [text per output]) / ('step', n), and how it ends"""
    s = run.s
    it = tx.it
    num = lambda n: float(tx.val(T.fsym(C + n), k))
    L = lambda t: tx.vec(t)[k]
    t0, te, dm = L(T.fsym(C + "t0")), L(T.fsym(C + "t_end")), L(T.fsym(C + "dt_min"))
    im = int(tx.val(T.isym(C + "iter_max"), k))
    do = (te - t0) / LD(int(tx.val(T.isym("cfg.output_counter_max"), k)))
    t, tn, n, u, kind = t0, t0, 0, 0, None
    if run.mid:
        t, tn, n = L(T.fsym("run.t:0")), L(T.fsym("run.tn")), int(tx.val(T.isym("run.iter"), k))
    seq = []

    def out():
        row = []
        for i, o in enumerate(run.outs):
            prec = int(tx.val(T.isym("cfg.writer_config[%d].precision" % i), k))
            g = (lambda f, j: [T.fsym("u%d.cent.%s[%d,%d]" % (u, f, j, c)) for c in range(2, s.S - 2)])
            if u == 0:
                g = lambda f, j: run.u0[f][j][2:s.S - 2]
            env = {"T": float(t), "Iter": n, "Dt": float(L(T.fsym("run.dt:%d" % u))) if u or run.mid else None, "DtKind": kind,
                   "Prim": [g("prim", j) for j in range(s.Eq)], "Cons": [g("cons", j) for j in range(s.Eq)], "n": s.S - 4}
            row.append((o, prec, env))
        seq.append(("out", row))
    while True:
        if t >= tn - dm:
            tn = tn + do
            out()
        if t + LD(0.01) * dm >= te:
            return seq, "ok"
        m = u
        seq.append(("step", m))
        u, n = u + 1, n + 1
        if u > run.s.w.E.unroll + 2:
            return seq, "more"
        if tx.val(T.bsym("fail:step:%d" % m), k):
            kind = "err"
            out()
            return seq, ("err", "step", m)
        t = L(T.fsym("run.t:%d" % u))
        if n >= im:
            kind = "err"
            out()
            return seq, ("err", "iter_max")


def err_of(tx, v, k):
    """None for Ok, else the flattened report"""
    v = tx.at(v, k)
    if isinstance(v, Agg) and v.variant == 0:
        return None
    out = []

    def rec(x):
        x = tx.at(x, k)
        if isinstance(x, Report):
            out.append(x.parts[0])
            if x.parts[0] == "env":
                out.append(x.parts[1:])
            for y in x.parts[1:]:
                rec(y)
        elif isinstance(x, Agg):
            for y in x.fields:
                rec(y)
    rec(v.fields[0] if isinstance(v, Agg) else v)
    return out


def one_run(chk, name, system, scheme, S, outs, interps, mid=False):
    run = Run(chk, system, scheme, S, outs, 4 if not chk.thorough else 5, mid)
    s = run.s
    nfull = bad = 0
    kinds = {}
    interps, st = focus.extend(interps, (run.trace, run.ret), TIMES)
    chk.conditions(st)
    for it in interps:
        tx = X.Text(it)
        for k in range(it.K):
            if tx.val(run.init_err, k):
                continue
            ev = X.blocks(tx.run(run.trace, k))
            seq, end = expected(run, tx, k, None)
            why = compare(run, tx, k, ev, seq, end)
            if why == "partial":
                continue
            nfull += 1
            kinds[str(end)[:14]] = kinds.get(str(end)[:14], 0) + 1
            if why:
                bad += 1
                if bad <= 3:
                    chk.violate("%s: run follows the schedule" % name, why + witness(run, tx, k), key="%s: schedule" % name)
    if nfull < 40 or len(kinds) < 3:
        chk.undecide("%s: run follows the schedule" % name, "only %d runs could be followed to their end (%s)" % (nfull, kinds))
    elif not bad:
        for x in ("initial output", "scheduled outputs are current", "end", "error dump", "returned error"):
            if not (mid and x == "initial output"):
                chk.proved("%s: %s" % (name, x), "random-interpretation of the gated event trace")
    chk.extra.setdefault("runs_compared", {})[name] = kinds


def witness(run, tx, k):
    c = lambda n: "%.6g" % float(tx.val(T.fsym(C + n), k))
    return "\n  at t0=%s t_end=%s dt_min=%s output_counter_max=%d iter_max=%d, step times %s, failing steps %s" % (
        c("t0"), c("t_end"), c("dt_min"), tx.val(T.isym("cfg.output_counter_max"), k), tx.val(T.isym(C + "iter_max"), k),
        ["%.6g" % float(tx.val(T.fsym("run.t:%d" % i), k)) for i in range(1, 6)],
        [i for i in range(6) if tx.val(T.bsym("fail:step:%d" % i), k)])


def compare(run, tx, k, ev, seq, end):
    """None: agrees; 'partial': the analysis was cut before the end; else the difference"""
    first = [not run.mid] * len(run.outs)
    count = int(tx.val(T.isym("later"), k)) if run.mid else 0
    i = 0
    for want in seq:
        got = ev[i] if i < len(ev) else ("end",)
        if got[0] == "cut":
            return "partial"
        if got[0] == "panic":
            return "panics (%s)" % (got[1:],)
        if want[0] == "step":
            if got[0] != "step":
                return "expected step %d, found %s" % (want[1], describe(got))
            i += 1
            continue
        if got[0] != "out":
            return "expected output %d, found %s" % (count, describe(got))
        texts = dict(got[1])
        if i + 1 < len(ev) and ev[i + 1][0] == "cut":
            return "partial"
        for q, (o, prec, env) in enumerate(want[1]):
            key = target(run, tx, k, q, count)
            if key not in texts:
                return "output %d writes nothing to %s (but to %s)" % (count, key, sorted(texts))
            seg = texts.pop(key)
            seg = strip_header(seg, o[2] == "Vector" or first[q])
            names = o[3]
            if env["Dt"] is None or env["DtKind"] is None:
                free = {n for n in ("Dt", "DtKind") if env[n] is None}
            else:
                free = set()
            w = fields(o[2], names, env, tx, k, prec)
            if not same_free(seg, w, names, free):
                return "output %d of writer %d holds %r, required %r" % (count, q, X.show(seg)[:300], X.show(w)[:300])
            first[q] = False
        if texts:
            return "output %d also writes to %s" % (count, sorted(texts))
        count += 1
        i += 1
    rest = ev[i:]
    if end == "more":
        return "partial"
    if rest:
        if rest[0][0] == "cut":
            return "partial"
        return "after the end of the run: %s" % describe(rest[0])
    e = err_of(tx, run.ret, k)
    if end == "ok":
        return None if e is None else "a run that reached t_end returns an error %s" % (e,)
    if e is None:
        return "the run ends with success although it had to fail (%s)" % (end,)
    if end[1] == "step" and ("step", end[2]) not in [x[:2] for x in e if isinstance(x, tuple)]:
        return "the returned error is not the one of the failing step: %s" % (e,)
    return None


def same_free(a, b, names, free):
    """compare rows, ignoring the columns in `free` (not specified before the first step)"""
    if not free or not (free & set(n for n in names if isinstance(n, str))):
        return X.seg_eq(a, b)
    la, lb = rows(a), rows(b)
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if len(x) != len(y) or len(x) != len(names):
            return False
        for n, p, q in zip(names, x, y):
            if n in free:
                continue
            if not X.seg_eq(p, q):
                return False
    return True


def rows(seg):
    out, row, cell = [], [], []
    for s in seg:
        if isinstance(s, tuple):
            cell.append(s)
            continue
        for ch in s:
            if ch in ",\n":
                row.append(cell)
                cell = []
                if ch == "\n":
                    out.append(row)
                    row = []
            elif cell and isinstance(cell[-1], str):
                cell[-1] += ch
            else:
                cell.append(ch)
    if cell or row:
        out.append(row + [cell])
    return out


def target(run, tx, k, q, count):
    o = run.outs[q]
    if o[0] == "Stdout":
        return "stdout"
    pre = "cfg.writer_config[%d]." % q
    f, n = tx.sval(pre + "folder_name", k), tx.sval(pre + "file_name", k)
    p = f + ("" if f.endswith("/") else "/") + n
    if o[2] == "Vector":
        w = len(str(int(tx.val(T.isym("cfg.output_counter_max"), k))))
        p += "_" + str(count).zfill(w)
    return p + {"CSV": ".csv", "TSV": ".tsv"}[o[1]]


def describe(e):
    if e[0] == "out":
        return "an output (%s)" % ", ".join("%s: %r" % (a, X.show(b)[:80]) for a, b in e[1].items())
    return " ".join(str(x) for x in e[:2])


def c13():
    chk = Check("C13", "run_corries, with the time solver abstracted to an arbitrary sequence of successful (arbitrary new time) and failing "
                "steps, is joined into one gated event trace; at every interpretation the sequence of outputs (with their contents), steps and "
                "the returned result is the documented schedule")
    mk = lambda mid: [Interp(Sampled(Phys(True, "smooth", 0.6, sampler(mid)), mid), 80 if not chk.thorough else 300, chk.seed + 100 * n) for n in range(2)]
    for name, outs in OUTS.items():
        for system, scheme, S in (("a", "h", 8), ("i", "k", 8)) if not chk.thorough else (("a", "h", 8), ("i", "k", 8), ("a", "k", 11), ("i", "h", 11)):
            nm = "%s%d%s %s" % (system, S, scheme, name)
            if any(d == ("Prim", 2) for o in outs for d in o[3]) and system == "i":
                continue
            for mid in (False, True):
                n2 = nm + (", from the middle of a run" if mid else "")
                with chk.group(n2):
                    one_run(chk, n2, system, scheme, S, outs, mk(mid), mid)
    return chk


# ------------------------------------------------------------------ C20
def wild(nan):
    """right-hand sides of very different magnitude, some not finite"""
    import re

    def f(name, sort, it):
        if sort != "f" or not re.match(r"k\d+\[", name):
            return None
        r = _rng("wild", it.seed, name)
        mag = 10.0 ** _rng("wildmag", it.seed).uniform(-2, 3.2, it.K)
        v = (r.normal(0, 1, it.K) * mag).astype(LD)
        if nan:
            hit = r.random(it.K) < 0.02
            v = np.where(hit, np.array([np.nan, np.inf, -np.inf], dtype=LD)[r.integers(0, 3, it.K)], v)
        return v
    return f


def valid_of(arrs, eu, finite=True):
    c = []
    for i in range(len(arrs["prim"][0])):
        c.append(T.flt(0.0, arrs["prim"][0][i]))
        if eu.ad:
            c.append(T.flt(0.0, arrs["prim"][2][i]))
        if finite:
            for a in ("prim", "cons"):
                c += [T.isfinite(arrs[a][j][i]) for j in range(len(arrs[a]))]
    return T.conj(c)


def decide(chk, name, cond, its, where, pre=True, need=20, direct=False):
    """cond holds wherever pre does; `need` relevant interpretations"""
    n = 0
    if cond is True:
        return chk.proved(name)
    for it in its:
        p = it(pre).astype(bool) if pre is not True else np.ones(it.K, bool)
        c = it(cond).astype(bool)
        bad = p & ~c
        if bad.any():
            i = int(np.argmax(bad))
            chk.violate(name, "fails at an interpretation of the inputs" + chk.witness(it, (cond, pre), i), where)
            return
        n += int(p.sum())
    if n < need:
        chk.undecide(name, "only %d relevant interpretations" % n)
    else:
        if direct and chk.direct and isinstance(cond, T.Term):
            chk.later.append((T.OR(T.NOT(pre), cond) if pre is not True else cond, True, list(its), 0, 0, True, len(chk.obl), name, where))
        chk.proved(name, "random-interpretation")


def c20():
    from . import time as tm
    from . import flux as fx
    from ..setup import SYS
    from ..euler import col
    chk = Check("C20", "Value flow of a whole step with the validation feature on: the condition under which Ok is returned implies that every "
                "primitive and conservative value of every cell of the new state is finite and every density (and pressure) positive; on an "
                "error the time coordinate keeps its value; and the error condition is not met by steps whose stages and result are valid. The "
                "flux schemes' own checks only fire when a face flux or wave bound is not finite.")
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        K = 160 if not chk.thorough else 500
        mk = lambda nan, seed: [Interp(Phys(ad, "smooth", v, tm.clock(extra=wild(nan), spread=0.3)), K, chk.seed + seed + i) for i, v in enumerate((0.5, 1.5))]
        for rk in ("RK1", "SSPRK3", "RK4", "RKF12") if not chk.thorough else tm.RKS:
            for asc in (False, True) if rk in ("RKF12", "Heun2", "RKF45") else (False,):
                for bc in tm.BCS[sysk][:2] if rk == "RK1" else tm.BCS[sysk][:1]:
                    nm = "%s8 %s asc=%s %s" % (sysk, rk, asc, bc)
                    with chk.group(nm):
                        x = tm.Step(chk, sysk, rk, 8, asc, *bc, symbolic=True)
                        x.next()
                        v = valid_of(x.now, x.eu)
                        decide(chk, nm + ": success implies a valid state", v, mk(False, 1) + mk(True, 2), "Solver::next_solution", x.good, direct=True)
                        im = T.ibin("ilt", x.iter, T.isym(C + "iter_max"))
                        decide(chk, nm + ": time not advanced on a rejected step", T.feq(x.t, T.fsym("time.t")), mk(False, 3) + mk(True, 4),
                               "Solver::next_solution", T.AND(T.AND(x.err, T.NOT(x.cut)), im), direct=True)
                        if not asc:
                            # stage states and result, from the specification
                            ks = [[[T.fsym("k%d[%d,%d]" % (q, j, i)) if 2 <= i < 6 else 0.0 for i in range(8)] for j in range(x.s.Eq)]
                                  for q in range(len(tm.TAB[rk][0]))]
                            dt = x.cap(x.cfl())
                            allv = []
                            for w in [tm.TAB[rk][0][q][:q] for q in range(len(ks))] + [tm.TAB[rk][1]]:
                                allv.append(closed(x, x.comb(dt, w, ks)))
                            vv = T.conj(valid_of(a, x.eu) for a in allv)
                            bad = T.OR(T.NOT(T.isfinite(x.cfl())), T.flt(x.cfl(), x.cfgnum("dt_min")))
                            decide(chk, nm + ": valid steps are accepted", T.NOT(x.err), mk(False, 5), "Solver::next_solution",
                                   T.AND(T.AND(vv, im), T.NOT(T.OR(bad, x.cut))), direct=True)
    for sysk in "ia":
        for scheme in "hk":
            nm = "%s8%s calc_dflux_dxi" % (sysk, scheme)
            with chk.group(nm):
                s = fx.setup(chk, sysk, scheme, 8)
                d = fx.run(s)
                err = T.NOT(s.ok)
                its = [Interp(Phys(SYS[sysk]["ad"], "smooth", v), 64, chk.seed + i) for i, v in enumerate((0.5, 2.5))]
                decide(chk, nm + ": finite fluxes are accepted", s.ok, its, nm,
                       T.conj(T.isfinite(y) for r in d for y in r), direct=True)
    return chk


def closed(x, cons):
    """primitive and conservative values of a stage state, boundary conditions applied"""
    from .phys import closure, tr
    from ..euler import col
    from ..spec import bc_apply, modes_of
    s = x.s
    prim = tr([x.eu.prim(col(cons, i)) for i in range(s.S)])
    prim = bc_apply(prim, "west", modes_of(x.bc[0], s.Eq), x.xi)
    prim = bc_apply(prim, "east", modes_of(x.bc[1], s.Eq), x.xi)
    return {"prim": prim, "cons": tr([x.eu.cons(col(prim, i)) for i in range(s.S)])}


# ------------------------------------------------------------------ C21
def tree_diff(a, b, path="", rtol=1e-9):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return path + ": shape"
        for i, (x, y) in enumerate(zip(a, b)):
            d = tree_diff(x, y, "%s.%d" % (path, i), rtol)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-9:
            return None
        return "%s: %r with validation, %r without" % (path, a, b)
    return None if a == b else "%s: %r with validation, %r without" % (path, a, b)


def differing(a, b, path, out):
    """pairs of different expressions at the same place of two value trees"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            differing(x, y, "%s.%d" % (path, i), out)
    elif T.is_scalar(a) and T.is_scalar(b) and a is not b and (isinstance(a, T.Term) or isinstance(b, T.Term)):
        out.setdefault((a, b), (path, a, b))


def essential(pairs):
    """the pairs whose difference is not merely that of other pairs put into the same expression; small expressions first"""
    memo = {}

    def cores(a, b):
        if a is b or (not isinstance(a, T.Term) and not isinstance(b, T.Term) and a == b):
            return frozenset()
        if not (isinstance(a, T.Term) and isinstance(b, T.Term) and a.op == b.op and a.op != "sym" and len(a.args) == len(b.args)):
            return frozenset([(a, b)])
        k = (a.id, b.id)
        if k not in memo:
            memo[k] = frozenset([(a, b)])
            r = frozenset()
            for x, y in zip(a.args, b.args):
                if isinstance(x, T.Term) or isinstance(y, T.Term):
                    r |= cores(x, y)
                elif x != y:
                    r = frozenset([(a, b)])
                    break
                if len(r) > 40:
                    r = frozenset([(a, b)])
                    break
            memo[k] = r
        return memo[k]
    size = lambda p: len(T.subterms([x for x in p[1:] if isinstance(x, T.Term)]))
    out, seen = [], set()
    for p in sorted(pairs.values(), key=size):
        c = cores(p[1], p[2])
        if not c <= seen:
            seen |= c
            out.append(p)
    return out


def leaves_n(t):
    return sum(leaves_n(x) for x in t) if isinstance(t, tuple) else 1


def objects(w, refs):
    from ..models import canon_val
    return [(n, canon_val(w.E, w.st, r)) for n, r in refs]


def both(chk, name, build, its, need=20):
    """build(check) -> (objects, condition of success, events): once per feature set, then compared"""
    plain = Check("C21", "", "plain")
    ov, gv, ev = build(chk)
    op, gp, ep = build(plain)
    chk.worlds += plain.worlds
    n, bad = 0, None
    # values that are not literally the same expression in both builds: compared at guard-directed interpretations as well
    pairs = {}
    for (nm, a), (_, b) in zip(ov, op):
        differing(a, b, nm, pairs)
    for path, a, b in essential(pairs)[:400]:
        chk.same("%s: %s" % (name, path), b, a, its, name, under=T.AND(gv, gp))
    chk.extra["values_that_differ_as_expressions"] = chk.extra.get("values_that_differ_as_expressions", 0) + len(pairs)
    for it in its:
        tx = X.Text(it)
        good = it(gv).astype(bool)
        gplain = it(gp).astype(bool)
        for k in np.nonzero(good)[0]:
            n += 1
            if not gplain[k]:
                bad = "the build without validation fails where the validating build succeeds"
                break
            for (nm, a), (_, b) in zip(ov, op):
                d = tree_diff(tx.tree(a, k), tx.tree(b, k), nm)
                if d:
                    bad = d
                    break
            if not bad:
                a, b = events_of(tx, ev, k), events_of(tx, ep, k)
                if len(a) != len(b) or any(tree_diff(x, y) for x, y in zip(a, b)):
                    bad = "side effects differ: %s with validation, %s without" % (str(a)[:300], str(b)[:300])
            if bad:
                break
        if bad:
            break
    if bad:
        chk.violate(name, bad, name)
    elif n < need:
        chk.undecide(name, "only %d relevant interpretations" % n)
    else:
        chk.extra["values_compared"] = chk.extra.get("values_compared", 0) + sum(leaves_n(tx.tree(a, 0)) for _, a in ov)
        for nm, _ in ov:
            chk.proved("%s: %s unchanged" % (name, nm), "random-interpretation")
        chk.proved("%s: same side effects" % name, "random-interpretation")


def events_of(tx, tr, k):
    out = []
    for e in tx.run(tr, k):
        if e[0] == "open":
            e = ("open", e[1], tuple(sorted(e[2].items())))
        if e[0] == "write":
            e = ("write", e[1][0], tuple(e[2]))
        out.append(tuple(e))
    return out


def c21():
    from . import time as tm
    from . import flux as fx
    from ..setup import SYS
    chk = Check("C21", "The same entry points are analysed on the MIR of both builds (validation on and off); wherever the validating build "
                "succeeds, all values reachable from the arguments and results and all side effects are the same, and the condition under which "
                "a configuration is rejected is the same")
    tm_its = lambda ad: tm.sts(ad, chk.seed, 32, spread=0.05)
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        # (with a vanishing pressure in a ghost cell the validating build rejects every state, hence the second set of boundary conditions)
        for rk, asc, bc in ((("SSPRK3", False, 1), ("SSPRK3", False, 2), ("RKF12", True, 2)) if not chk.thorough else
                            [(r, False, b) for r in tm.RKS for b in (1, 2)] + [(r, True, b) for r in ("RKF12", "Heun2") for b in (0, 1, 2)]):
            nm = "%s8 step %s asc=%s boundaries %d" % (sysk, rk, asc, bc)
            with chk.group(nm):
                def build(c):
                    x = tm.Step(c, sysk, rk, 8, asc, *tm.BCS[sysk][bc])
                    x.next()
                    w = x.s.w
                    return objects(w, [("state", x.s.u), ("solver", x.s.so), ("mesh", x.s.m)]), x.good, [e for e in clean(w.st.trace)]
                both(chk, nm, build, tm_its(ad))
        for scheme in "hk":
            nm = "%s8%s calc_dflux_dxi" % (sysk, scheme)
            with chk.group(nm):
                def build(c):
                    s = fx.setup(c, sysk, scheme, 8)
                    fx.run(s)
                    return objects(s.w, [("state", s.u), ("scheme", s.n), ("result", s.d), ("mesh", s.m)]), s.ok, clean(s.w.st.trace)
                both(chk, nm, build, [Interp(Phys(ad, "smooth", v), 24, chk.seed + i) for i, v in enumerate((0.5, 2.5))])
    its = [Interp(Phys(True, "smooth", 0.6, sampler()), 40, chk.seed + 7)]
    for system, scheme, S in (("a", "h", 8), ("i", "k", 8)):
        nm = "%s%d%s init_corries and run_corries" % (system, S, scheme)
        with chk.group(nm):
            def build(c):
                run = Run(c, system, scheme, S, OUTS["stdout-scalar+file-vector"], 2)
                w = run.s.w
                return objects(w, [("simulation", run.sim), ("result", run.ret)]), T.NOT(run.init_err), clean(run.trace)
            both(chk, nm, build, its)
    for S in (8, 11):
        nm = "Mesh::new<%d>" % S
        with chk.group(nm):
            def build(c):
                s = Sim(c.F, "a", "h", S)
                c.watch(s.w)
                r = s.w.call("m%d::mesh_new" % S, [s.sub("mesh_config")])
                e, v = s.w.ok(r)
                return objects(s.w, [("mesh", s.w.cell(v))]), T.NOT(e), clean(s.w.st.trace)
            both(chk, nm, build, [Interp(Phys(True), 40, chk.seed)])
    for system, scheme, S in (("a", "h", 8), ("i", "k", 8)):
        nm = "%s%d%s rejected configurations" % (system, S, scheme)
        with chk.group(nm):
            e = []
            for c in (chk, Check("C21", "", "plain")):
                s = Sim(c.F, system, scheme, S, outs=OUTS["stdout-scalar+file-vector"])
                chk.watch(s.w)
                s.w.E.nofail = True
                s.w.E.hooks["fn:init"] = lambda E, st, args, fty, dty: Agg(dty, 0, (UNIT,))
                r = s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")])
                e.append(s.w.ok(r)[0])
            its2 = [Interp(Phys(True, "smooth", 0.6, broken(sampler())), 200, chk.seed + n) for n in range(2)]
            decide(chk, nm, T.NOT(T.AND(e[0], T.NOT(e[1]))), its2, "init_corries", e[0])
            decide(chk, nm + " (converse)", T.NOT(T.AND(e[1], T.NOT(e[0]))), its2, "init_corries", e[1])
    return chk


def clean(tr):
    """the trace without entries of the analysis itself"""
    out = []
    for e in tr:
        if e[0] == "ite":
            out.append(("ite", e[1], clean(e[2]), clean(e[3])))
        elif e[0] in ("cut", "panic"):
            out.append((e[0], "", ""))
        else:
            out.append(e)
    return out


def broken(f):
    """configurations with some fields out of range"""
    def g(name, sort, it):
        if name.startswith("cfg.") and sort in "fi" and not name.startswith("cfg.writer"):
            v = f(name, sort, it)
            if v is None:
                v = Phys(True, "smooth", 0.6)(name, sort, it)
            if v is None:
                v = it.default(name, sort)
            r = _rng("broken", it.seed, name)
            hit = r.random(it.K) < 0.08
            if sort == "i":
                return np.where(hit, 0, v).astype(object)
            if "mesh_config" in name:
                # (the numerical checks of the mesh positions belong to the validating build)
                return np.where(hit, it(T.fsym(name[:-3] + "in")), v).astype(LD) if name.endswith("xi_out") else v
            alt = np.array([0.0, -1.0, np.nan, np.inf, -np.inf, 1.0, 2.0], dtype=LD)[r.integers(0, 7, it.K)]
            return np.where(hit, alt, v).astype(LD)
        return f(name, sort, it)
    return g
