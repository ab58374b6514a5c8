"""Obligations, verdicts, evidence."""
import json, os, sys, time, traceback
from pathlib import Path
import numpy as np
from . import directed, terms as T
from .engine import Facts, deep
from .values import Undecided

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
_F = {}


def facts(feature="validation"):
    if feature not in _F:
        import build
        d = build.build(feature)
        f = Facts(str(Path(d) / "mono.json"))
        f.dir = Path(d)
        f.audit = json.load(open(f.dir / "audit.json"))
        f.missing = json.load(open(f.dir / "missing.json"))
        _F[feature] = f
    return _F[feature]


class Check:
    def __init__(self, pid, rule, feature="validation"):
        self.pid, self.rule, self.feature = pid, rule, feature
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obl = []        # (name, status, detail)
        self.keys = {}
        self.violations = []
        self.undecided = []
        self.worlds = []
        self.notes = []
        self.assumptions = []
        self.calls = set()
        self.roots = set()
        self.extra = {}
        self.canon = T.Canon()
        self.direct = os.environ.get("VFDIRECT", "1") == "1"
        self.directed = directed.Directed(300.0 if self.thorough else 40.0)
        self.later = []

    @property
    def F(self):
        return facts(self.feature)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- recording
    def proved(self, name, how="normal-form"):
        self.obl.append((name, how, ""))

    def violate(self, name, detail, where="", key=None):
        self.obl.append((name, "VIOLATED", detail))
        self.violations.append({"obligation": name, "key": key or name, "where": where, "detail": detail})

    def undecide(self, name, why):
        self.obl.append((name, "undecided", why))
        self.undecided.append((name, why))

    def flag(self, name, ok, detail="", where="", how="structural"):
        if ok:
            self.proved(name, how)
        else:
            self.violate(name, detail, where)
        return ok

    def group(self, name):
        return Group(self, name)

    def watch(self, w):
        self.worlds.append(w)
        return w

    def conditions(self, st):
        """account for the conditions of analysed traces"""
        c = self.extra.setdefault("trace_conditions", {})
        for a, b in st.items():
            c[a] = c.get(a, 0) + b

    # ---- value comparison
    def same(self, name, got, want, interps=(), where="", tol=1e-9, scale=1e-6, under=True):
        """got and want denote the same value (wherever `under` holds)"""
        r = self.compare(got, want, interps, tol, scale, under, defer=(name, where))
        if r[0] == "ok":
            self.proved(name, r[1])
            return True
        if r[0] == "undecided":
            self.undecide(name, r[1])
            return False
        self.violate(name, "%s\n  computed: %s\n  required: %s" % (r[1], str(got)[:600], str(want)[:600]), where)
        return False

    def compare(self, got, want, interps=(), tol=1e-9, scale=1e-6, under=True, defer=None):
        if got is want:
            return ("ok", "identical")
        if not (T.is_scalar(got) and T.is_scalar(want)):
            return ("undecided", "not a scalar: %s" % str(got)[:120])
        if not isinstance(got, T.Term) and not isinstance(want, T.Term) and type(got) is type(want):
            if got == want or (got != got and want != want):
                return ("ok", "constant")
        fl = T.is_float(got) if isinstance(got, T.Term) else isinstance(got, float)
        try:
            if self.canon.key(got) == self.canon.key(want):
                return ("ok", "normal-form")
        except (OverflowError, ZeroDivisionError, RecursionError):
            pass
        n = 0
        for it in interps:
            g, w = it(got), it(want)
            m = it(under).astype(bool) if under is not True else np.ones(it.K, bool)
            if fl and g.dtype != bool:
                ok = T.close(g, w, tol, scale)
                with np.errstate(all="ignore"):
                    live = m & np.isfinite(np.asarray(w, dtype=T.LD))
            else:
                ok = g == w
                live = m
            bad = m & ~ok.astype(bool)
            if bad.any():
                i = int(np.argmax(bad))
                return ("differ", "differs at an interpretation of the inputs: computed %s, required %s%s" %
                        (g[i], w[i], self.witness(it, (got, want), i)))
            n += int(live.sum())
        if n < 4:
            return ("undecided", "too few defined interpretations (%d)" % n)
        if self.direct and interps:
            task = (got, want, list(interps), tol, scale, under)
            if defer:
                self.later.append(task + (len(self.obl),) + defer)
            else:
                bad = self.drive(task, self.directed)
                if bad:
                    return ("differ", bad)
        return ("ok", "random-interpretation")

    def drive(self, task, d, novel_only=None):
        """a guard-directed interpretation at which the two terms differ"""
        got, want, interps, tol, scale, under = task[:6]
        if isinstance(under, T.Term):
            got, want = d.given(under, got), d.given(under, want)
            if got is want:
                return None
        fl = T.is_float(got) if isinstance(got, T.Term) else isinstance(got, float)
        for it, m in d.points(got, want, interps, under):
            if d.over():
                break
            g, w = it(got), it(want)
            if fl and g.dtype != bool:
                ok = directed.agree(it, got, want, g, w, tol, scale)
            else:
                ok = g == w
            bad = m & ~np.asarray(ok).astype(bool)
            if bad.any():
                bad &= directed.robust(it, (got, want, under))
            if bad.any():
                i = int(np.argmax(bad))
                return ("differs at a guard-directed interpretation of the inputs (%s changed): computed %s, required %s%s" %
                        (", ".join(it.sym), g[i], w[i], self.witness(it, (got, want), i)))
        return None

    def run_later(self):
        """guard-directed comparison of everything that agreed so far, in parallel"""
        seen, tasks = set(), []
        for t in self.later:
            k = tuple(id(x) for x in t[:2]) + (id(t[5]), id(t[2][0]))
            if k not in seen:
                seen.add(k)
                tasks.append(t)
        if not tasks:
            return
        res = directed.parallel(tasks, self.drive, self.directed.budget, self.seed)
        self.directed.flipped += res["flipped"]
        self.directed.stuck |= res["stuck"]
        self.directed.used += res["seconds"]
        self.extra["guard_directed_pairs"] = {"pairs": len(tasks), "visited": res["visited"]}
        for i, bad in sorted(res["bad"].items()):
            got, want, _, _, _, _, n, name, where = tasks[i]
            self.obl[n] = (name, "VIOLATED", bad)
            self.violations.append({"obligation": name, "key": name, "where": where, "detail": "%s\n  computed: %s\n  required: %s" %
                                    (bad, str(got)[:600], str(want)[:600])})

    def witness(self, it, ts, i, lim=14):
        try:
            names = sorted(t.args[0] for t in T.subterms([t for t in ts if isinstance(t, T.Term)]) if t.op == "sym")
        except Exception:
            return ""
        out = []
        for n in names[:lim]:
            for t in T.subterms([t for t in ts if isinstance(t, T.Term)]):
                if t.op == "sym" and t.args[0] == n:
                    v = it(t)[i]
                    out.append("%s=%s" % (n, ("%.6g" % float(v)) if t.sort == "f" else v))
                    break
        return "\n  at " + ", ".join(out) + (" …" if len(names) > lim else "")

    # ---- finish
    def finish(self):
        self.run_later()
        known = load_known(self.pid)
        viol = [v for v in self.violations if v["key"] not in known]
        hit = sorted({v["key"] for v in self.violations if v["key"] in known})
        how = {}
        for _, s, _ in self.obl:
            how[s] = how.get(s, 0) + 1
        bodies, steps, cuts = set(), 0, set()
        for w in self.worlds:
            F = w.F
            for b in w.E.bodies:
                I = F.insts[b]
                if I["crate"] == "corries":
                    bodies.add(I["n"])
            steps += w.E.steps
            cuts |= set(w.E.cuts)
        n_ok = sum(v for k, v in how.items() if k not in ("VIOLATED", "undecided"))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obl), "discharged": n_ok, "undecided": how.get("undecided", 0),
                "discharged_by": {k: v for k, v in sorted(how.items())},
                "functions_analysed": sorted(bodies), "n_functions": len(bodies),
                "basic_blocks_evaluated": steps,
                "loop_cuts": sorted(cuts),
                "undecided_obligations": [{"obligation": a, "why": b[:300]} for a, b in self.undecided[:30]],
                "samples": [{"obligation": n, "verdict": s} for n, s, _ in (self.obl[:6] + self.obl[-4:])],
                "missing_entry_points": (_F[self.feature].missing if self.feature in _F else []),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        ev["coverage"].update(self.extra)
        ev["coverage"]["guard_directed"] = {"comparisons_driven": self.directed.flipped, "comparisons_never_driven": len(self.directed.stuck),
                                            "seconds": round(self.directed.used, 1)}
        d = Path(os.environ.get("CORRIES_EVID") or VERIF / "evidence")
        d.mkdir(exist_ok=True)
        (d / (self.pid + ".json")).write_text(json.dumps(ev, indent=1, default=str) + "\n")
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs, %d corries functions)" %
              (self.pid, len(self.obl), n_ok, how.get("undecided", 0), len(self.violations), time.time() - self.t0, len(bodies)))
        for n, why in self.undecided[:20]:
            print("  undecided: %s: %s" % (n, why[:200]))
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if viol:
            rp = d / (self.pid + ".violation.txt")
            rp.write_text("\n\n".join("%s\n where: %s\n %s" % (v["obligation"], v["where"], v["detail"]) for v in viol) + "\n")
            for v in viol[:12]:
                print("  %s [%s]: %s" % (v["obligation"], v["where"], v["detail"][:700]))
            if len(viol) > 12:
                print("  … %d more in %s" % (len(viol) - 12, rp))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if n_ok == 0 or n_ok < how.get("undecided", 0):
            print("%s: most obligations could not be analysed, no verdict" % self.pid)
            return 3
        return 0


class Group:
    """a group of obligations; an analysis that cannot be completed leaves the group undecided"""

    def __init__(self, chk, name):
        self.chk, self.name = chk, name

    def __enter__(self):
        self.t0 = time.time()
        return self

    def __exit__(self, et, ev, tb):
        if os.environ.get("VFTIME") and time.time() - self.t0 > float(os.environ["VFTIME"]):
            print("   [%.1fs] %s" % (time.time() - self.t0, self.name), file=sys.stderr)
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        if issubclass(et, Undecided):
            self.chk.undecide(self.name, "%s at %s" % (ev, getattr(ev, "at", "?")))
        else:
            at = "".join(traceback.format_exception(et, ev, tb)[-3:])
            self.chk.undecide(self.name, "analysis failed: %s: %s | %s" % (et.__name__, ev, at[-400:]))
            if os.environ.get("VFDBG"):
                traceback.print_exception(et, ev, tb)
        return True


def load_known(pid):
    out = set()
    p = VERIF / "known_findings.txt"
    if p.exists():
        for l in p.read_text().splitlines():
            if l.startswith("finding: property=%s " % pid):
                out.add(l.split(" key=", 1)[1].strip())
    return out


def run(fn):
    """fn() -> Check; runs on a big stack, returns the exit code"""
    chk = deep(fn)
    return chk.finish()
