"""C03 no failure is swallowed, C19 schedule independence, C22 Send/Sync, C23 units."""
import re
import numpy as np
from .. import focus
from .. import terms as T
from .. import text as X
from .. import trace
from ..check import Check
from ..euler import Euler
from ..sampling import Phys, phys_interps
from ..setup import Sim, SYS
from ..terms import Interp, LD, _rng
from ..values import *
from .out import referenced, strip_gen, W, sampler as osampler, text as otext

FLUX = "corries::NumFlux::calc_dflux_dxi"
STEP = "corries::TimeSolver::next_solution"


# ------------------------------------------------------------------ C03
def injected(s, kind):
    """abstract callee that fails whenever the environment says so"""
    def h(E, st, args, fty, dty):
        n = st.cnt.get("fail", 0)
        st.cnt["fail"] = n + 1
        f = T.bsym("fail:%s:%d" % (kind, n))
        E.fails.append((f, kind, E.where()))
        E.event(st, "fault", f, kind)
        return VIte(f, Agg(dty, 1, (Report("env", kind, n),)), Agg(dty, 0, (UNIT,)))
    return h


def failing(E, base, extra=0.04):
    """interpretations in which exactly one, several or none of the operations fail"""
    names = {}
    for f, kind, where in E.fails:
        names.setdefault(f.args[0], len(names))
    N = len(names)

    def f(name, sort, it):
        if sort == "b" and name.startswith("fail:"):
            i = names.get(name, -1)
            k = np.arange(it.K)
            one = (k + 97 * it.seed) % (N + 2) == i
            many = _rng("many", it.seed, name).random(it.K) < extra
            return np.where(k % 3 == 2, many, one)
        return base(name, sort, it) if base else None
    f.mid = getattr(base, "mid", False)
    return f, N


def swallow(chk, name, w, tr, err, base, mktext=X.Text, seeds=2, K=None, need=5, where="", dom=None):
    smp, N = failing(w.E, base)
    K = K or max(60, min(3 * N + 30, 420))
    if chk.thorough:
        K, seeds = min(4 * K, 1500), seeds + 1
    ops, used, bad, n = set(), set(), {}, 0
    its, st = focus.extend([Interp(smp, K, chk.seed + 11 * e) for e in range(seeds)], (tr, err), dom, K, per=K)
    chk.conditions(st)
    for it in its:
        tx = mktext(it)
        ev_err = it(err).astype(bool) if isinstance(err, T.Term) else np.full(it.K, bool(err))
        for k in range(it.K):
            evs = tx.run(tr, k)
            fl = [x for x in evs if x[0] in ("fault", "errret") and tx.val(x[2], k)]
            if not fl:
                continue
            end = evs[-1][0]
            if end == "cut":
                continue
            n += 1
            what = ["%s (%s)" % (x[3], x[0]) for x in fl]
            used |= {x[3] for x in fl}
            if end == "panic":
                bad.setdefault("the failure ends in a panic", "%s, then %s" % (what[0], evs[-1][1:]))
            elif not ev_err[k]:
                bad.setdefault("the error reaches the caller", "success is returned although there was a failure in %s" % ", ".join(what[:4]))
    for b in ("the error reaches the caller", "the failure ends in a panic"):
        if b in bad:
            chk.violate("%s: %s" % (name, b), bad[b], where or name)
    if not bad:
        if n < need:
            chk.undecide(name, "only %d failing runs could be followed (%d operations)" % (n, N))
        else:
            for u in sorted(used):
                chk.proved("%s: a failure of %s reaches the caller" % (name, strip_gen(u)), "random-interpretation of the gated event trace")
    chk.extra.setdefault("failing_runs", {})[name] = n


def watch(chk, s, nofail=False):
    chk.watch(s.w)
    s.w.E.log_errors = True
    s.w.E.nofail = nofail
    s.w.E.unroll = 400
    return s


def c03():
    from . import cfg, run as rn, time as tm, flux as fx
    chk = Check("C03", "In the joined gated trace of each entry point, every operation of the environment (file system, streams, and the abstracted "
                "callee one level down) may fail, and every crate function that returns an error is recorded with its condition: wherever any of "
                "them fails, the entry point returns an error (and does not panic)")
    OUTS = [("File", "CSV", "Vector", ("XiCent", ("Prim", 1))), ("Stdout", "TSV", "Scalar", ("T", "Iter")), ("File", "TSV", "Scalar", ("Dt", "DtKind"))]
    # initialisation
    for feature in ("validation", "plain"):
        for system, scheme in (("a", "h"), ("i", "k")):
            c = chk if feature == chk.feature else Check("C03", "", feature)
            name = "%s8%s init_corries (%s)" % (system, scheme, feature)
            with chk.group(name):
                s = Sim(c.F, system, scheme, 8, outs=OUTS)
                watch(chk, s)
                s.w.E.hooks["fn:init"] = injected(s, "init_fn")
                err = s.w.ok(s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")]))[0]
                swallow(chk, name, s.w, s.w.st.trace, err, cfg.sampler(0.02), cfg.text, seeds=3, where="init_corries")
    # the writer
    for system, S, outs in (("a", 8, OUTS), ("i", 11, [OUTS[2], OUTS[1], OUTS[0]]), ("i", 8, [("Stdout", "CSV", "Vector", ("T", "XiWest"))])):
        for what in ("write_output", "write_metadata") if any(o[0] == "File" for o in outs) else ("write_output",):
            name = "%s%d Writer::%s, %d outputs" % (system, S, what, len(outs))
            with chk.group(name):
                x = W(chk, system, S, outs)
                v, e = x.fresh(0)
                x.update(v)
                watch(chk, x.s)
                for n in range(3):
                    if n == 2:
                        # any later call, after calls without failures
                        x = W(chk, system, S, outs)
                        v, e = x.fresh(0)
                        for q in range(2):
                            snap = x.w.ints(x.s.wr)
                            x.update(v)
                            x.write()
                        if not x.w.generalise(x.s.wr, snap, x.w.ints(x.s.wr), "later"):
                            chk.undecide("%s, call %d" % (name, n), "the output counter is not found")
                            break
                        x.update(v)
                        watch(chk, x.s)
                    x.w.st.trace = []
                    x.w.E.fails.clear()
                    x.w.st.cnt["fail"] = 0
                    if what == "write_output":
                        err = x.write()
                    else:
                        err = x.w.ok(x.w.call(x.s.mm + "::writer_write_metadata", [x.s.wr]))[0]
                    swallow(chk, "%s, call %d" % (name, n), x.w, x.w.st.trace, err, osampler(), otext, where="Writer::" + what)
        name = "%s%d Writer::update_data" % (system, S)
        with chk.group(name):
            for pos in range(2):
                d = ["T", "Iter"]
                d.insert(pos, ("Prim", 9))
                x = W(chk, system, S, [("Stdout", "CSV", "Vector", ("T",)), ("File", "CSV", "Vector", tuple(d)), ("Stdout", "CSV", "Scalar", ("T",))])
                x.w.E.log_errors = True
                v, e = x.fresh(0)
                x.w.st.trace = []
                err = x.update(v)
                swallow(chk, "%s, bad column %d" % (name, pos), x.w, x.w.st.trace, err, osampler(), otext, where="Writer::update_data")
    # the run loop
    for system, scheme, outs in (("a", "h", rn.OUTS["stdout-scalar+file-vector"]), ("i", "k", rn.OUTS["file-scalar"])):
        for mid in (False, True):
            name = "%s8%s run_corries%s" % (system, scheme, ", from the middle of a run" if mid else "")
            with chk.group(name):
                s, sim = running(chk, system, scheme, outs, mid)
                err = s.w.ok(s.w.call(s.mod + "::run_corries", [sim]))[0]
                swallow(chk, name, s.w, s.w.st.trace, err, rn.Sampled(rn.sampler(mid), mid), seeds=3, K=300, where="run_corries", dom=rn.TIMES)
    # steps
    for sysk in "ia":
        ad = SYS[sysk]["ad"]
        name = "%s8 Solver::next_solution, failing integrator" % sysk
        with chk.group(name):
            x = tm.Step(chk, sysk, "RK1", 8)
            watch(chk, x.s, True)
            x.s.w.E.hooks[STEP] = injected(x.s, "TimeSolver::next_solution")
            x.next()
            swallow(chk, name, x.s.w, x.s.w.st.trace, x.err, Phys(ad, "smooth", 0.5, tm.clock()), where="Solver::next_solution")
        for rk, asc in (("RK1", None), ("SSPRK3", None), ("RKF12", True), ("RKF45", False)):
            name = "%s8 step %s%s, failing flux" % (sysk, rk, " asc" if asc else "")
            with chk.group(name):
                x = Failing(chk, sysk, rk, 8, asc, symbolic=True)
                watch(chk, x.s, True)
                x.s.w.E.unroll = 3
                x.next()
                swallow(chk, name, x.s.w, x.s.w.st.trace, x.err,
                        Phys(ad, "smooth", 0.8, tm.clock(extra=rn.wild(True), spread=0.3, dtmin=(-6, -1))), K=150, where="next_solution")
    for sysk in "ia":
        for scheme in "hk":
            for feature in ("validation", "plain"):
                c = chk if feature == chk.feature else Check("C03", "", feature)
                name = "%s8%s Rhs::update (%s)" % (sysk, scheme, feature)
                with chk.group(name):
                    s = Sim(c.F, sysk, scheme, 8)
                    s.mesh(), s.state("u"), s.rhs()
                    watch(chk, s, True)
                    s.w.E.hooks[FLUX] = injected(s, "NumFlux::calc_dflux_dxi")
                    s.w.st.trace = []
                    err = s.w.ok(s.w.call(s.mod + "::rhs_update", [s.r, s.u, s.m]))[0]
                    swallow(chk, name, s.w, s.w.st.trace, err, Phys(SYS[sysk]["ad"]), where="Rhs::update")
            name = "%s8%s calc_dflux_dxi" % (sysk, scheme)
            with chk.group(name):
                s = fx.setup(chk, sysk, scheme, 8)
                watch(chk, s, True)
                s.w.st.trace = []
                fx.run(s)
                swallow(chk, name, s.w, s.w.st.trace, T.NOT(s.ok), nonfinite(Phys(SYS[sysk]["ad"], "smooth", 0.6)), K=200, where="calc_dflux_dxi")
    for S in (8, 11):
        name = "Mesh::new<%d>" % S
        with chk.group(name):
            s = Sim(chk.F, "a", "h", S)
            watch(chk, s, True)
            err = s.w.ok(s.w.call(s.mm + "::mesh_new", [s.sub("mesh_config")]))[0]
            swallow(chk, name, s.w, s.w.st.trace, err, cfg.sampler(0.2), cfg.text, K=200, where="Mesh::new")
    for sysk in "ia":
        for scheme, other in (("h", "Kt"), ("k", "Hll")):
            name = "%s8%s constructors with a configuration for %s" % (sysk, scheme, other)
            with chk.group(name):
                for entry, args in (("numflux_new", 0), ("rhs_new", 1), ("solver_new", 1)):
                    s = Sim(chk.F, sysk, scheme, 8, over={"numflux_config": other})
                    s.mesh()
                    watch(chk, s, True)
                    s.w.st.trace = []
                    a = [s.cfg] if args else [s.sub("numerics_config.numflux_config")]
                    err = s.w.ok(s.w.call(s.mod + "::" + entry, a + [s.m]))[0]
                    swallow(chk, "%s: %s" % (name, entry), s.w, s.w.st.trace, err, Phys(True), K=40, where=entry)
    # discarded results: a Result that is dropped without being looked at
    sites = discarded(chk.F)
    for f, c in sites:
        chk.violate("%s looks at the result of %s" % (strip_gen(f), c), "the Result is discarded", f, key="%s discards %s" % (strip_gen(f), c))
    chk.extra["call_sites_returning_results"] = results(chk.F)
    if not sites:
        chk.proved("no call site discards a Result", "def-use of the MIR")
    return chk


def nonfinite(base):
    def f(name, sort, it):
        v = base(name, sort, it)
        if v is not None and sort == "f" and re.match(r"u\.cent\.prim\[1", name):
            hit = _rng("nf", it.seed, name).random(it.K) < 0.05
            v = np.where(hit, np.array([np.nan, np.inf, -np.inf], dtype=LD)[_rng("nf2", it.seed, name).integers(0, 3, it.K)], v)
        return v
    return f


def running(chk, system, scheme, outs, mid=False):
    """initialised simulation whose steps and outputs are abstract and may fail"""
    from . import run as rn
    s = Sim(chk.F, system, scheme, 8, outs=outs, unroll=3)
    chk.watch(s.w)
    s.w.E.nofail = True
    s.w.E.hooks["fn:init"] = lambda E, st, args, fty, dty: (s.w.symbolize(args[0], "u0", st), Agg(dty, 0, (UNIT,)))[1]
    e, v = s.w.ok(s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")]))
    sim = s.w.cell(v)
    if mid:
        rn.midrun(s, sim)
    s.w.E.nofail = False
    s.w.E.log_errors = True
    s.w.E.fails.clear()
    s.w.st.cnt["fail"] = 0
    s.w.st.trace = []
    step = injected(s, "step")

    def next_(E, st, args, fty, dty):
        n = E.event(st, "step")
        ts = args[1]
        s.w.put(ts, s.tst, "iter", T.ibin("iadd", s.w.get(ts, s.tst, "iter", st), 1), st)
        s.w.put(ts, s.tst, "dt", T.fsym("run.dt:%d" % (n + 1)), st)
        s.w.put(ts, s.tst, "t", T.fsym("run.t:%d" % (n + 1)), st)
        return step(E, st, args, fty, dty)
    s.w.E.hooks[STEP] = next_
    for m in ("write_output", "update_data"):
        s.w.E.hooks["corries::Writer::" + m] = injected(s, "Writer::" + m)
    return s, sim


def Failing(*a, **k):
    from . import time as tm

    class F(tm.Step):
        def hook(self, E, st, args, fty, dty):
            super().hook(E, st, args, fty, dty)
            return injected(self.s, "NumFlux::calc_dflux_dxi")(E, st, args, fty, dty)
    return F(*a, **k)


def is_result(F, t):
    x = F.types[t]
    if x["k"] != "adt" or not x["n"].endswith("result::Result"):
        return False
    # (formatting into memory cannot fail)
    a = x["args"]
    return len(a) < 2 or "t" not in a[1] or not F.tname(a[1]["t"]).endswith("fmt::Error")


def calls(F, body):
    for bb in body["blocks"]:
        t = bb["t"]
        if t[0] == "call":
            yield t


def results(F):
    n = 0
    for I in F.insts:
        if I.get("crate") == "corries" and I.get("body"):
            for t in calls(F, I["body"]):
                if not t[3][1] and is_result(F, I["body"]["locals"][t[3][0]]):
                    n += 1
    return n


def discarded(F):
    """calls returning a Result in a local that nothing ever reads"""
    out = set()
    for I in F.insts:
        if I.get("crate") != "corries" or not I.get("body"):
            continue
        b = I["body"]
        reads = {}

        def rec(x, w):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and not isinstance(x[0], bool):
                    reads.setdefault(x[0], 0)
                    reads[x[0]] += 1
                for y in x:
                    rec(y, w)
            elif isinstance(x, dict):
                for y in x.values():
                    rec(y, w)
        for bb in b["blocks"]:
            for st in bb["s"]:
                if st[0] == "=":
                    rec(st[2], 0)
                    if st[1][1]:
                        rec(st[1], 0)
                else:
                    rec(st[1:], 0)
            t = bb["t"]
            if t[0] == "call":
                rec(t[2], 0)
                rec(t[1], 0)
            elif t[0] != "drop":
                rec(t[1:], 0)
        for t in calls(F, b):
            d = t[3]
            if not d[1] and d[0] != 0 and is_result(F, b["locals"][d[0]]) and not reads.get(d[0]):
                out.add((I["n"], strip_gen(F.types[t[6]]["n"]) if F.types[t[6]].get("n") else "a function value"))
    return sorted(out)


# ------------------------------------------------------------------ C22
def c22():
    chk = Check("C22", "Every hand-written implementation of a thread-safety marker is proved by the trait solver of the compiler: under the bounds "
                "of the implementation, each field type implements the marker (a field PhantomData holds no value); and the crate contains no "
                "other unsafe implementation, unsafe block, unsafe function, mutable static or foreign function")
    a = chk.F.audit
    sound_claims(chk, a)
    for u in a["unsafe_impls"]:
        ok = u["trait"].endswith("TrivialClone")
        chk.flag("unsafe impl %s for %s at %s is derived" % (u["trait"], u["ty"], rel(u["at"])), ok, "a hand-written unsafe implementation", u["at"])
    n = 0
    for u in a["unsafe_blocks"]:
        n += 1
        chk.flag("unsafe block %d in %s comes from a macro of a dependency" % (n, u["in"]), bool(u["foreign_macro"]), "unsafe block at %s" % u["at"], u["at"])
    for u in a["unsafe_fns"]:
        chk.violate("no unsafe function %s" % u["n"], "unsafe fn at %s" % u["at"], u["at"])
    for u in a["statics"]:
        chk.flag("static %s is not mutable" % u["n"], not u["mut"], "static mut at %s" % u["at"], u["at"])
    for u in a["externs"]:
        chk.violate("no foreign function block at %s" % rel(u), "extern block at %s" % u, u)
    chk.extra["audit"] = {k: (len(v) if hasattr(v, "__len__") else v) for k, v in a.items()}
    return chk


def rel(at):
    return at.split("/src/")[-1]


def sound_claims(chk, a):
    for u in a["auto_impls"]:
        name = "%s for %s" % (u["trait"].split("::")[-1], u["ty"])
        bad = [f for f in u["fields"] if not f["ok"] and not f["phantom"]]
        for f in bad:
            chk.violate("%s: field %s%s" % (name, "" if f["v"] == u["adt"].split("::")[-1] else f["v"] + ".", f["f"]),
                        "%s is claimed at %s, but the field type %s is not %s under the bounds of the implementation" % (
                            name, rel(u["at"]), f["ty"], u["trait"].split("::")[-1]), u["at"])
        if not bad:
            chk.proved("%s (%d fields)" % (name, len(u["fields"])), "trait-solver")


# ------------------------------------------------------------------ C19
SOURCES = [
    (r"^std::time::(Instant|SystemTime)", "the clock"), (r"^(chrono|time)::", "the clock"),
    (r"^std::env::", "the environment"), (r"^std::thread::(current|available_parallelism|ThreadId)", "the thread"),
    (r"^std::process::id", "the process"), (r"^(rand|fastrand|getrandom|oorandom)(_\w+)?::", "a random source"),
    (r"RandomState|hash_map::DefaultHasher|hash::DefaultHasher", "a randomly seeded hash"),
    (r"current_thread_index|current_num_threads|max_num_threads|thread_pool::", "the thread pool"),
    (r"^std::io::stdin|^std::io::Read|^std::fs::(read|read_to_string|metadata|read_dir)$|std::fs::File::open$", "input from outside"),
    (r"^std::ptr::.*::(addr|expose_provenance)|fmt::Pointer", "an address"),
]
HASHITER = re.compile(r"(HashMap|HashSet)\b.*::(iter|iter_mut|keys|values|values_mut|drain|retain|into_keys|into_values|into_iter|extract_if)$")
# parallel operations whose result does not depend on how the work is split
ORDERED = set("""for_each try_for_each par_for_each par_apply par_iter par_iter_mut into_par_iter map zip zip_eq enumerate filter filter_map flat_map
flat_map_iter cloned copied chunks par_chunks par_chunks_mut par_chunks_exact par_chunks_exact_mut par_windows par_split par_split_mut with_min_len with_max_len take skip rev
step_by inspect update collect collect_into_vec unzip_into_vecs unzip all any count min max min_by max_by min_by_key max_by_key find_first
find_last find_map_first position_first position_last par_map_inplace par_mapv_inplace par_map_collect par_map_assign_into par_map_collect_into
opt_len len join par_azip new and par_sort par_sort_by par_sort_by_key par_axis_iter drive drive_unindexed with_producer split_at into_producer
interleave chain panic_fuse from_par_iter par_extend as_parallel_slice as_parallel_slice_mut intersperse flatten flatten_iter fold_chunks fold_chunks_with partition eq ne
par_sort_by_cached_key""".split())
REDUCE = set("sum product reduce reduce_with fold fold_with try_reduce try_reduce_with try_fold try_fold_with par_fold fold_while".split())
SPLITS = set("""map_init map_with for_each_init for_each_with try_for_each_init try_for_each_with find_any find_map_any position_any par_bridge par_sort_unstable_x
while_some take_any skip_any take_any_while skip_any_while""".split())


def fndefs(F, body):
    """all function types mentioned in a body"""
    out = {}

    def rec(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "c" and isinstance(x[1], int) and x[1] < len(F.types) and F.types[x[1]]["k"] == "fndef":
                out[x[1]] = F.types[x[1]]
            for y in x:
                if isinstance(y, (list, dict)):
                    rec(y)
        elif isinstance(x, dict):
            for y in x.values():
                rec(y)
    rec(body["blocks"])
    return out


def inner_types(F, t, seen=None, depth=0):
    """types reachable through references, generic arguments, upvars and fields"""
    seen = set() if seen is None else seen
    if t is None or t in seen or depth > 24:
        return seen
    seen.add(t)
    x = F.types[t]
    nxt = []
    if x["k"] in ("ref", "ptr", "slice", "array"):
        nxt.append(x["t"])
    nxt += [a["t"] for a in x.get("args", []) if isinstance(a, dict) and "t" in a]
    nxt += list(x.get("ts", [])) + list(x.get("up", []))
    if x["k"] == "adt" and x.get("crate") in ("corries", "corries_roots"):
        for v in x.get("v") or []:
            nxt += [f[1] for f in v["f"]]
    for y in nxt:
        if isinstance(y, int):
            inner_types(F, y, seen, depth + 1)
    return seen


MUTABLE = re.compile(r"(^|::)(Mutex|RwLock|Atomic\w*|Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|SyncUnsafeCell|Condvar|Sender|Receiver|SyncSender)(<|$)")


def interior(F, t):
    """interior mutability reachable through shared captures"""
    for y in inner_types(F, t):
        x = F.types[y]
        if x["k"] == "adt" and MUTABLE.search(strip_gen(x["n"]) + ("<" if False else "")):
            return x["n"]
    return None


def has_float_arith(F, t):
    """an operation given as closure or function type that rounds: its order of application is visible"""
    x = F.types[t]
    n = x.get("i")
    if x["k"] == "fndef" and strip_gen(x["n"]).split("::")[-1] in ("max", "min", "maximum", "minimum", "cmp", "partial_cmp", "total_cmp"):
        return False
    if n is None or F.insts[n].get("body") is None:
        return None
    for bb in F.insts[n]["body"]["blocks"]:
        for st in bb["s"]:
            if st[0] == "=" and isinstance(st[2], list) and st[2] and st[2][0] in ("bin", "binop", "cbin"):
                if any(str(y) in ("Add", "Sub", "Mul", "Div", "Rem") for y in st[2][1:2]):
                    return True
        t_ = bb["t"]
        if t_[0] == "call":
            f = F.types[t_[6]]
            l = strip_gen(f.get("n", "")).split("::")[-1]
            if l in ("add", "sub", "mul", "div", "sum", "product", "fold", "mul_add", "add_assign", "sub_assign", "powi", "powf"):
                return True
    return False


def is_float(F, t):
    return any(F.types[y]["k"] == "float" for y in inner_types(F, t))


def c19():
    chk = Check("C19", "By the typing of safe Rust (and C22 for the markers written by hand), parallel closures cannot write what another one reads "
                "except through interior mutability; so every parallel closure is checked for captures with interior mutability, every parallel "
                "operation for independence of the partitioning (no order-sensitive reduction, no per-split state, no 'any' result), and all code "
                "of the crate for clocks, random sources, environment, thread identity, hash order, addresses and mutable global state")
    for feature in ("validation", "plain"):
        c = chk if feature == chk.feature else Check("C19", "", feature)
        F = c.F
        tag = "" if feature == chk.feature else " (plain)"
        sound_claims(chk, F.audit) if not tag else None
        for u in F.audit["unsafe_blocks"]:
            if not u["foreign_macro"]:
                chk.violate("no unsafe block%s in %s" % (tag, u["in"]), "at %s" % u["at"], u["at"])
        for u in F.audit["statics"]:
            chk.flag("static %s is immutable%s" % (u["n"], tag), u["freeze"] and not u["mut"], "global mutable state at %s" % u["at"], u["at"])
        if not F.audit["statics"]:
            chk.proved("no global state%s" % tag)
        nb = npar = 0
        hits = {}
        done = set()
        for I in F.insts:
            if I.get("crate") != "corries" or not I.get("body"):
                continue
            nb += 1
            for ti, f in fndefs(F, I["body"]).items():
                n = strip_gen(f["n"])
                for rx, what in SOURCES:
                    if re.search(rx, n):
                        hits.setdefault((I["n"], what), n)
                if HASHITER.search(n) or (n.endswith("into_iter") and any("Hash" in F.tname(a["t"]) for a in f.get("args", []) if "t" in a)):
                    hits.setdefault((I["n"], "hash order"), n)
                last = n.split("::")[-1]
                par = f.get("crate") in ("rayon", "rayon_core") or (f.get("crate") == "ndarray" and ("parallel" in f["n"] or last.startswith("par_")))
                par_arg = any("rayon" in F.types[a["t"]].get("crate", "") or "ndarray::parallel" in F.types[a["t"]].get("n", "")
                              for a in f.get("args", []) if "t" in a and F.types[a["t"]]["k"] == "adt")
                if not (par or par_arg and last in REDUCE | SPLITS):
                    if n.startswith("std::thread::") and last in ("spawn", "scope"):
                        chk.undecide("%s starts threads%s" % (strip_gen(I["n"]), tag), n)
                    continue
                npar += 1
                name = "%s: %s%s" % (strip_gen(I["n"]), last, tag)
                targs = [a["t"] for a in f.get("args", []) if "t" in a]
                bad = None
                for t in targs:
                    m = captures(F, t)
                    if m:
                        bad = "shares %s between parallel tasks" % m
                if last in SPLITS:
                    bad = "%s depends on how the work is split" % last
                elif last in REDUCE:
                    ops = [t for t in targs if F.types[t]["k"] in ("closure", "fndef")]
                    arith = [has_float_arith(F, t) for t in ops]
                    if last in ("sum", "product"):
                        if any(is_float(F, t) for t in targs):
                            bad = "a parallel %s of floating point numbers depends on the order" % last
                    elif any(arith):
                        bad = "a parallel %s with rounding arithmetic depends on the order" % last
                    elif None in arith:
                        chk.undecide(name, "operation of the reduction not found")
                        continue
                elif last not in ORDERED and bad is None:
                    chk.undecide(name, "unknown parallel operation %s" % n)
                    continue
                if (name, bad) in done:
                    continue
                done.add((name, bad))
                chk.flag(name + ": independent of the schedule", not bad, bad or "", I["n"], "type-based")
        for (f, what), n in sorted(hits.items()):
            chk.violate("%s does not depend on %s%s" % (strip_gen(f), what, tag), "refers to %s" % n, f)
        for rx, what in SOURCES:
            if not any(w == what for _, w in hits):
                chk.proved("nothing depends on %s%s [%s]" % (what, tag, rx), "census")
        chk.extra["functions_scanned" + tag] = nb
        chk.extra["parallel_operations" + tag] = npar
        if nb < 100:
            chk.undecide("functions scanned" + tag, "only %d" % nb)
        casts(chk, F, tag)
    return chk


def captures(F, t):
    x = F.types[t]
    if x["k"] != "closure":
        return None
    for u in x.get("up", []):
        m = interior(F, u)
        if m:
            return m
    return None


def casts(chk, F, tag):
    """pointer-to-integer casts"""
    bad = set()
    for I in F.insts:
        if I.get("crate") == "corries" and I.get("body"):
            for bb in I["body"]["blocks"]:
                for st in bb["s"]:
                    if "Expose" in str(st) or "PointerExposeProvenance" in str(st):
                        bad.add(I["n"])
    for b in sorted(bad):
        chk.violate("%s does not use addresses as numbers%s" % (strip_gen(b), tag), "pointer to integer cast", b)
    if not bad:
        chk.proved("no address is used as a number" + tag, "census")


# ------------------------------------------------------------------ C23
def c23():
    chk = Check("C23", "The value of every conversion function, for an arbitrary argument in both unit systems, is compared with the argument times "
                "the exact ratio of the units")
    from ..world import World
    ratio = {"CGS": {"len_si": 0.01, "time_si": 1.0, "mass_si": 0.001, "len_cgs": 1.0, "time_cgs": 1.0, "mass_cgs": 1.0},
             "SI": {"len_si": 1.0, "time_si": 1.0, "mass_si": 1.0, "len_cgs": 100.0, "time_cgs": 1.0, "mass_cgs": 1000.0}}

    def smp(name, sort, it):
        if name == "x":
            r = _rng("x", it.seed)
            return np.where(r.random(it.K) < 0.3, np.array([0.0, -0.0, 1.0, -1.0, 1e300, -1e-300, 5e-324, np.inf, -np.inf, 1e16], dtype=LD)[
                r.integers(0, 10, it.K)], (r.normal(0, 1, it.K) * 10.0 ** r.uniform(-12, 12, it.K)).astype(LD)).astype(LD)
        return None
    its = [Interp(smp, 200, chk.seed + i) for i in range(2)]
    w = chk.watch(World(chk.F))
    ut = w.strip(w.root_ty("misc::units_new", 1))
    for mode, r in ratio.items():
        with chk.group(mode):
            i = w.variant(ut, mode)
            u = w.call("misc::units_new", [Agg(ut, i, ())])
            x = T.fsym("x")
            v = w.E.resolve(w.st, w.call("misc::units_all", [w.cell(u), x]))
            for q, (f, c) in zip(v.fields, r.items()):
                chk.same("%s: %s" % (mode, f), q, T.fmul(x, c), its, "Units::convert", tol=4e-16, scale=0.0)
    # the two systems agree: SI(x given in CGS) is SI(ratio * x given in SI)
    return chk
