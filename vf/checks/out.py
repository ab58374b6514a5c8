"""C02 deletions, C17 output columns, C18 output files, C25 contiguous output blocks."""
import re
import numpy as np
from .. import terms as T
from .. import text as X
from .. import focus
from .. import trace
from ..check import Check
from ..sampling import Phys
from ..setup import Sim, SYS, data_name
from ..terms import Interp, LD, _rng
from ..values import *
from .phys import snapshot

KIND = {"Init": "init", "Cfl": "cfl", "ErrorDump": "err"}
HEAD = {"XiCent": "xi_cent", "XiWest": "xi_west", "XiEast": "xi_east", "CSound": "c_sound", "T": "t", "Iter": "iter", "Dt": "dt", "DtKind": "dt_kind"}
MESH = {"XiCent": "xi_cent", "XiWest": "xi_west", "XiEast": "xi_east"}
TIME = ("T", "Iter", "Dt", "DtKind")
nm = lambda d: d if isinstance(d, str) else d[0]


def head(d):
    return HEAD[d] if isinstance(d, str) else "%s_%d" % (d[0].lower(), d[1])


def names(E):
    return list(MESH) + [("Prim", j) for j in range(E)] + [("Cons", j) for j in range(E)] + ["CSound"] + list(TIME)


def strings(it):
    memo = {}
    root = X.column(it, 0)[0]
    around = lambda s: [s, s + "q", "q" + s, "q" + s + "r"]
    FO = FOLDERS + [y for s in getattr(root, "lits", ()) for y in around(s) if y and y.strip("/")]
    FI = FILE_NAMES + [y for s in getattr(root, "lits", ()) if "/" not in s for y in around(s)]

    def f(prefix, k):
        k = X.column(it, k)[1]
        if prefix not in memo:
            memo[prefix] = _rng("ostr", root.seed, prefix).integers(0, 1 << 20, root.K)
        i = int(memo[prefix][k])
        if prefix.endswith("folder_name"):
            return FO[i % len(FO)]
        if prefix.endswith("file_name"):
            # names of different outputs differ, so that they do not share a file
            n = "%dz" % int(prefix.split("[")[1].split("]")[0])
            x = FI[i % len(FI)]
            return x + n if (i >> 8) % 2 else n + x
        return None
    return f


FOLDERS = ["out", "out/", "a/b", "/tmp/x/", "res.d", "p q/r", ".", "res.", "Out", "a//b", "./out", "../out", " lead", "trail ", "a/b/c/", "~x", "\u00fcn\u00ef", "-o",
           "metadata", "x" * 40]
FILE_NAMES = ["f", "run_", "x.y", "", ".hid", "f.csv", "f.tsv", "F", "a b", "-f", "f_", "_metadata", "\u00e4", "n" * 40, "1", "0"]


def text(it):
    return X.Text(it, strings(it))


def sampler(it_name=None):
    pred = X.strpred(text)

    def f(name, sort, it):
        v = pred(name, sort, it)
        if v is not None:
            return v
        if name == "cfg.output_counter_max":
            return np.array([[1, 5, 9, 10, 11, 99, 100, 101, 999, 1000, 12345, 65536, 10 ** 6, 10 ** 7 - 1, 2 ** 32, 10 ** 12][x] for x in _rng("ocm", it.seed).integers(0, 16, it.K)], dtype=object)
        if name == "later":
            return np.array([[4, 5, 7, 9, 10, 42, 99, 100, 254, 255, 256, 1000, 65535, 99999, 2 ** 31, 2 ** 32, 10 ** 12][x] for x in _rng("later", it.seed).integers(0, 17, it.K)], dtype=object)
        if re.match(r"ts\d*\.iter$", name):
            return np.array([int(2.0 ** x) - 1 for x in _rng("iter", it.seed, name).uniform(0, 62, it.K)], dtype=object)
        if re.match(r"ts\d*\.(t|dt)$", name):
            r = _rng("tdt", it.seed, name)
            return np.where(r.random(it.K) < 0.1, 0.0, np.power(10.0, r.uniform(-20, 20, it.K))).astype(LD)
        if name.endswith(".precision"):
            return _rng("pr", it.seed, name).integers(0, 25, it.K).astype(object)
        if name.startswith("cfg.numerics_config.t0"):
            return np.abs(_rng("t0", it.seed).normal(0, 1, it.K)).astype(LD)
        if sort == "f" and re.match(r"(u|v\d+)\.cent\.", name):
            # whatever is in the state is written, whatever its class: infinities, NaN, zeros of both signs, subnormals
            r = _rng("cell", it.seed, name)
            v = r.normal(0, 1, it.K) * np.power(10.0, r.integers(-12, 13, it.K))
            w = np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, 3e-310, 5e-324, 1.7e308])[r.integers(0, 8, it.K)]
            return np.where(r.random(it.K) < 0.15, w, v).astype(LD)
        if name.endswith("t_end"):
            return it(T.fsym("cfg.numerics_config.t0")) + _rng("te", it.seed).uniform(0.5, 2.0, it.K).astype(LD)
        return None
    return f


def interps(chk, n=2, K=24):
    if chk.thorough:
        K *= 4
    return [Interp(Phys(True, "smooth", 0.6, sampler()), K, chk.seed + 50 * i) for i in range(n)]


def more(chk, name, its, objs, dom=None):
    """the interpretations, and those directed by the conditions of the analysed traces"""
    out, st = focus.extend(its, objs, dom)
    chk.conditions(st)
    return out


class W:
    """a writer, the state, the mesh and the time step it reads from"""

    def __init__(self, chk, system, S, outs, prec=None):
        self.outs = outs
        s = self.s = Sim(chk.F, system, "h", S, outs=outs, over={} if prec is None else {".precision": ("value", prec)})
        self.w = s.w
        chk.watch(s.w)
        s.w.E.nofail = True
        s.mesh()
        s.state("u")
        self.ts = s.w.cell(s.w.call("misc::timestep_new", [s.sub("numerics_config"), T.isym("cfg.output_counter_max")]))
        s.w.st.trace = []
        s.writer()
        self.vals = []

    def fresh(self, n):
        s, w = self.s, self.w
        v = w.at(s.u, s.ut, "cent")[0]
        w.symbolize(v, "v%d.cent" % n)
        for f in ("t", "dt"):
            w.put(self.ts, s.tst, f, T.fsym("ts%d.%s" % (n, f)))
        w.put(self.ts, s.tst, "iter", T.isym("ts%d.iter" % n))
        kt = w.at(self.ts, s.tst, "dt_kind")[1]
        self.kinds = [x["n"] for x in s.F.types[kt]["v"]]
        k = self.kind = w.sym(kt, "ts%d.dt_kind" % n)
        w.put(self.ts, s.tst, "dt_kind", k)
        b = snapshot(s, "cent")
        e = {"Prim": b["prim"], "Cons": b["cons"], "CSound": b["c_sound"], "T": T.fsym("ts%d.t" % n), "Dt": T.fsym("ts%d.dt" % n),
             "Iter": T.isym("ts%d.iter" % n), "DtKind": k}
        for d, f in MESH.items():
            e[d] = w.arr(s.m, s.mt, f)
        self.vals.append(e)
        return v, e

    def update(self, v):
        return self.w.ok(self.w.call(self.s.phys + "::writer_update_data", [self.s.wr, v, self.ts, self.s.m]))[0]

    def write(self):
        return self.w.ok(self.w.call("misc::writer_write_output", [self.s.wr]))[0]

    def kindname(self, tx, v, k):
        v = tx.at(v, k)
        return KIND.get(self.kinds[v.variant], "?")

    # ---- required contents
    def table(self, o, e, tx, k):
        """rows of required tokens"""
        s = self.s
        g = len(o) > 4 and o[4]
        lo, hi = (0, s.S) if g else (2, s.S - 2)
        n = hi - lo if o[2] == "Vector" else 1
        out = []
        for i in range(n):
            row = []
            for d in o[3]:
                v = e[nm(d)] if isinstance(d, str) else e[d[0]][d[1]]
                if d == "DtKind":
                    row.append(self.kindname(tx, v, k))
                elif d == "Iter":
                    row.append(str(tx.val(v, k)))
                elif d in TIME:
                    row.append(float(tx.val(v, k)))
                else:
                    row.append(float(tx.val(v[lo + i], k)))
            out.append(row)
        return out


def rows(seg, fmt):
    """lines of tokens; a token is a text or a number"""
    out, row, cell, after = [], [], [], False
    sep = "," if fmt == "CSV" else " "

    def end():
        nonlocal cell
        if sep == "," or cell:
            row.append(cell)
        cell = []
    for s in seg:
        if isinstance(s, tuple):
            if s[0] == "num" and sep == " " and s[4] and s[5] == 1 and not cell:
                pass
            cell.append(s)
            continue
        for ch in s:
            if ch == "\n":
                end()
                out.append(row)
                row = []
            elif ch == sep:
                end()
            elif cell and isinstance(cell[-1], str):
                cell[-1] += ch
            else:
                cell.append(ch)
    if cell or row:
        end()
        out.append(row + [["<no line end>"]])
    return out


def same_cell(c, want, prec):
    if isinstance(want, str):
        return len(c) == 1 and isinstance(c[0], str) and c[0].strip() == want
    c = [x for x in c if not (isinstance(x, str) and not x.strip())]
    return len(c) == 1 and isinstance(c[0], tuple) and c[0][0] == "num" and c[0][1] in "eE" and c[0][3] == prec and \
        same_number(c[0][2], want)


def same_number(a, b):
    if a != a or b != b or abs(a) == np.inf or abs(b) == np.inf:
        return a == b or (a != a and b != b)
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) and (a != 0 or np.copysign(1, a) == np.copysign(1, b))


def cell_str(c):
    return X.show(c).strip()


def check_block(seg, o, heads, table, prec):
    """None, or why the text is not header (if heads) plus table"""
    try:
        r = rows(seg, o[1])
    except Exception as e:
        raise Undecided("text %s: %s" % (X.show(seg)[:100], e))
    if heads:
        if not r:
            return "is empty"
        h = [cell_str(c) for c in r[0]]
        if o[1] == "TSV":
            if not h or not h[0].startswith("#"):
                return "does not start with a # header line: %r" % h
            h = ([h[0][1:]] if h[0] != "#" else []) + h[1:]
        if h != [head(d) for d in o[3]]:
            return "header %r instead of %r" % (h, [head(d) for d in o[3]])
        r = r[1:]
    if len(r) != len(table):
        return "%d rows instead of %d" % (len(r), len(table))
    for i, (a, b) in enumerate(zip(r, table)):
        if len(a) != len(b):
            return "row %d has %d columns instead of %d: %r" % (i, len(a), len(b), [cell_str(c) for c in a])
        for j, (x, y) in enumerate(zip(a, b)):
            if not same_cell(x, y, prec):
                return "row %d, column %s: %s instead of %s" % (i, head(o[3][j]), cell_str(x), y if isinstance(y, str) else "%.10g with precision %d" % (y, prec))
    return None


def tail(p, pre):
    """what follows pre in p, with repeated slashes counted once"""
    one = lambda s: re.sub("/+", "/", s)
    return one(p)[len(one(pre)):] if one(p).startswith(one(pre)) else None


def paths(o, q, tx, k, counter):
    pre = "cfg.writer_config[%d]." % q
    f, n = tx.sval(pre + "folder_name", k), tx.sval(pre + "file_name", k)
    p = f + ("" if f.endswith("/") else "/") + n
    if o[2] == "Vector":
        w = len(str(int(tx.val(T.isym("cfg.output_counter_max"), k))))
        p += "_" + str(counter).zfill(w)
    return p + {"CSV": ".csv", "TSV": ".tsv"}[o[1]]


def folder(q, tx, k):
    return tx.sval("cfg.writer_config[%d].folder_name" % q, k)


# ------------------------------------------------------------------ C17
LISTS = {
    "i": [[("File", "CSV", "Vector", tuple(names(2)))],
          [("Stdout", "TSV", "Vector", ("Iter", ("Cons", 1), "XiEast", "DtKind", ("Prim", 0), "T", "XiWest"), True)],
          [("File", "TSV", "Scalar", ("Dt", "DtKind", "Iter", "T")), ("File", "CSV", "Vector", ("CSound",), True)]],
    "a": [[("Stdout", "TSV", "Vector", tuple(names(3)))],
          [("File", "CSV", "Vector", tuple(reversed(names(3))), True), ("File", "CSV", "Scalar", ("T", "Iter", "Dt", "DtKind"))],
          [("File", "TSV", "Vector", (("Cons", 2), ("Cons", 2), ("Prim", 2))), ("Stdout", "CSV", "Scalar", ("DtKind",))]],
}


# large meshes, long lists
BIG = {k: [[("File", "TSV", "Vector", ("XiCent", ("Prim", 1), "Iter")), ("Stdout", "CSV", "Vector", (("Cons", 1), "T", "XiEast"), True)]] for k in "ia"}
for k, n in (("i", 2), ("a", 3)):
    LISTS[k].append([("File", "CSV", "Vector", tuple(names(n)) * 4), ("File", "TSV", "Scalar", ("Dt", "DtKind", "Iter", "T") * 10)])


def c17():
    chk = Check("C17", "Every data name collected from every component at both mesh offsets: the payload is the named quantity cell for cell, and "
                "a name sent to a wrong component or an index beyond the equations is an error; and the text written for lists of names in both "
                "formats and modes, parsed by the documented separators, has these names as header and these quantities as rows")
    for system in "ia":
        for S in (8, 11) if not chk.thorough or True else (8, 11):
            collect(chk, system, S)
    its = interps(chk)
    for system in "ia":
        for S in (8, 11, 300):
            for outs in LISTS[system] if S < 99 else BIG[system]:
                name = "%s%d %s" % (system, S, " + ".join("%s %s %s(%d names%s)" % (o[0], o[1], o[2], len(o[3]), ", ghosts" if len(o) > 4 else "") for o in outs))
                with chk.group(name):
                    if S < 99:
                        by_precision(lambda n, i, p: pipeline(chk, n, system, S, outs, i, p), name, its)
                    else:
                        pipeline(chk, name, system, S, outs, [Interp(i.sampler, 4, i.seed) for i in its[:1]])
    return chk


def collect(chk, system, S):
    E = SYS[system]["E"]
    its = interps(chk, 1, 16)
    s = Sim(chk.F, system, "h", S)
    w = chk.watch(s.w)
    s.mesh(), s.state("u")
    w.E.nofail = True
    ts = w.cell(w.call("misc::timestep_new", [s.sub("numerics_config"), T.isym("cfg.output_counter_max")]))
    for f in ("t", "dt"):
        w.put(ts, s.tst, f, T.fsym("ts." + f))
    w.put(ts, s.tst, "iter", T.isym("ts.iter"))
    kt = w.at(ts, s.tst, "dt_kind")[1]
    w.put(ts, s.tst, "dt_kind", w.sym(kt, "ts.kind"))
    kinds = [x["n"] for x in s.F.types[kt]["v"]]
    v = w.at(s.u, s.ut, "cent")[0]
    dnt = w.strip(w.root_ty(s.mm + "::data_new", 1))
    dt = w.root_ty(s.mm + "::data_new", 0)
    b = snapshot(s, "cent")
    comps = {"mesh": (s.mm + "::collect_mesh", s.m), "state": (s.phys + "::collect_vars", v), "time": ("misc::collect_time", ts)}
    for d in names(E) + [("Prim", E), ("Cons", E), ("Prim", E + 7)]:
        for off in (0, 2):
            # data_new takes the number of hidden cells, as the writer does
            for comp, (entry, ref) in comps.items():
                name = "%s%d %s from %s, offset %d" % (system, S, head(d), comp, off)
                with chk.group(name):
                    w.st.dead = False
                    w.st.trace = []
                    D = w.cell(w.call(s.mm + "::data_new", [w.cell(data_name(s.F, dnt, d)), off]))
                    r = w.call(entry, [ref, D, off])
                    pan = trace.panic(w.st.trace)
                    if pan is True or w.st.dead:
                        chk.violate(name + ": is an error", "the collection aborts the program", entry)
                        continue
                    err = w.ok(r)[0]
                    own = "mesh" if d in MESH else "time" if d in TIME else "state"
                    exists = isinstance(d, str) or d[1] < E
                    if comp != own or not exists:
                        chk.flag(name + ": is an error", err is True, "accepted", entry)
                        continue
                    if not chk.flag(name + ": succeeds", err is False, "error condition %s" % str(err)[:200], entry):
                        continue
                    pl = w.get(D, dt, "payload")
                    if d in TIME:
                        if d == "DtKind":
                            kv = w.get(ts, s.tst, "dt_kind")
                            bad = None
                            for it in its:
                                tx = text(it)
                                for k in range(it.K):
                                    p = tx.at(pl, k)
                                    if tx.lit(p.fields[0], k) != KIND.get(kinds[tx.at(kv, k).variant]):
                                        bad = "collected %r for %s" % (tx.lit(p.fields[0], k), kinds[tx.at(kv, k).variant])
                            chk.flag(name + ": value", not bad, bad or "", entry, "random-interpretation")
                        else:
                            want = {"T": T.fsym("ts.t"), "Dt": T.fsym("ts.dt"), "Iter": T.isym("ts.iter")}[d]
                            chk.same(name + ": value", pl.fields[0], want, its, entry)
                        continue
                    want = w.arr(s.m, s.mt, MESH[d]) if d in MESH else b["c_sound"] if d == "CSound" else b[d[0].lower()][d[1]]
                    want = want[off:S - off]
                    got = w.elems(pl.fields[0])
                    if chk.flag(name + ": length", len(got) == len(want), "%d instead of %d values" % (len(got), len(want)), entry):
                        for i, (x, y) in enumerate(zip(got, want)):
                            chk.same("%s: cell %d" % (name, i), x, y, its, entry)
    # a list with a non-existing variable is refused as a whole
    for d in (("Prim", E), ("Cons", E + 1)):
        name = "%s%d output list with %s" % (system, S, head(d))
        with chk.group(name):
            x = W(chk, system, S, [("File", "CSV", "Vector", ("XiCent", d, "T"))])
            v, e = x.fresh(0)
            err = x.update(v)
            chk.flag(name + ": is an error", err is True, "accepted: %s" % str(err)[:200], "Writer::update_data")


def by_precision(f, name, its):
    """for every precision at once; one by one where the analysis cannot"""
    try:
        f(name, its, None)
    except Undecided as e:
        if "symbolic" not in str(e):
            raise
        for p in (1, 4, 10, 17):
            f("%s, precision %d" % (name, p), [Interp(i.sampler, i.K, i.seed, {"cfg.writer_config[%d].precision" % q: p for q in range(4)}) for i in its], p)


def pipeline(chk, name, system, S, outs, its, prec=None):
    x = W(chk, system, S, outs, prec)
    es = []
    errs = []
    counters = [0, 1, T.isym("later")]
    for n, c in enumerate(counters):
        if n == 2 and not x.w.generalise(x.s.wr, snap, x.w.ints(x.s.wr), c):
            counters.pop()
            break
        snap = x.w.ints(x.s.wr)
        v, e = x.fresh(n)
        errs.append(x.update(v))
        errs.append(x.write())
        es.append(e)
    tr = x.w.st.trace
    bad = None
    cnt = 0
    its = more(chk, name, its, (tr, errs))
    for it in its:
        tx = text(it)
        for k in range(it.K):
            fs = X.Files()
            pos = []
            for ev in tx.run(tr, k):
                if ev[0] in ("cut", "panic"):
                    raise Undecided("writing is not followed to its end (%s)" % (ev,))
                fs.feed(ev)
            if any(tx.val(e, k) if e is not False else False for e in errs):
                bad = bad or "writing fails although no operation fails"
            for q, o in enumerate(outs):
                prec = int(tx.val(T.isym("cfg.writer_config[%d].precision" % q), k))
                if o[0] == "Stdout":
                    if sum(1 for p in outs if p[0] == "Stdout") > 1:
                        continue
                    seg = fs.streams["stdout"]
                    tab = [x.table(o, e, tx, k) for e in es]
                    seg_why = check_many(seg, o, tab, prec)
                elif o[2] == "Vector":
                    seg_why = None
                    for n, c in enumerate(counters):
                        p = paths(o, q, tx, k, c if isinstance(c, int) else int(tx.val(c, k)))
                        if p not in fs.files:
                            raise Undecided("no file %s (but %s): see C18" % (p, sorted(fs.files)[:4]))
                        seg_why = seg_why or check_block(fs.files[p], o, True, x.table(o, es[n], tx, k), prec)
                else:
                    p = paths(o, q, tx, k, 0)
                    if p not in fs.files:
                        raise Undecided("no file %s (but %s): see C18" % (p, sorted(fs.files)[:4]))
                    seg_why = check_many(fs.files[p], o, [x.table(o, e, tx, k) for e in es], prec)
                if seg_why:
                    bad = bad or "output %d %s" % (q, seg_why)
                cnt += 1
    if bad:
        chk.violate("%s: header and rows are the configured quantities" % name, bad, "Writer::update_data, Writer::write_output")
    elif cnt < 10:
        chk.undecide(name, "only %d texts compared" % cnt)
    else:
        for o in outs:
            for d in o[3]:
                chk.proved("%s: column %s" % (name, head(d)), "random-interpretation")


def check_many(seg, o, tabs, prec):
    """the texts of several outputs one after the other"""
    if o[2] == "Scalar":
        return check_block(seg, o, True, [r for t in tabs for r in t], prec)
    # split at header lines
    lines = split_lines(seg)
    n = 1 + len(tabs[0])
    if len(lines) != n * len(tabs):
        return "%d lines instead of %d" % (len(lines), n * len(tabs))
    for i, t in enumerate(tabs):
        why = check_block(X.join(*lines[i * n:(i + 1) * n]), o, True, t, prec)
        if why:
            return "(output %d) %s" % (i, why)
    return None


def split_lines(seg):
    out, cur = [], []
    for s in seg:
        if isinstance(s, tuple):
            cur.append(s)
            continue
        ls = s.split("\n")
        for i, l in enumerate(ls):
            if i < len(ls) - 1:
                out.append(X.join(cur, l + "\n"))
                cur = []
            elif l:
                cur.append(l)
    if cur:
        out.append(cur)
    return out


# ------------------------------------------------------------------ C18
FILES = {
    "vector csv": [("File", "CSV", "Vector", ("XiCent", ("Prim", 1)))],
    "vector tsv with ghosts": [("File", "TSV", "Vector", ("T", ("Cons", 0)), True)],
    "scalar csv": [("File", "CSV", "Scalar", ("T", "Iter", "DtKind"))],
    "scalar tsv": [("File", "TSV", "Scalar", ("Dt", "T"))],
    "scalar, vector and stdout": [("File", "CSV", "Scalar", ("T", "Iter")), ("Stdout", "CSV", "Vector", ("XiCent",)), ("File", "TSV", "Vector", (("Prim", 0), "XiEast"))],
    "two vectors": [("File", "CSV", "Vector", ("XiCent",)), ("File", "CSV", "Vector", (("Cons", 1),))],
}


def c18():
    chk = Check("C18", "File-system semantics of the gated trace of Writer::new, write_metadata and a sequence of outputs (three from the start, one "
                "with an arbitrary later counter), over random folder and file names, pre-existing files and counter widths: the final contents "
                "of every file are exactly the documented ones, no other file is touched, and a folder to be cleared is cleared before anything "
                "is written")
    its = interps(chk, 2, 30)
    for system, S in (("a", 8), ("i", 11)) if not chk.thorough else (("a", 8), ("i", 11), ("i", 8), ("a", 11)):
        for nmx, outs in FILES.items():
            name = "%s%d %s" % (system, S, nmx)
            with chk.group(name):
                by_precision(lambda n, i, p: files(chk, n, system, S, outs, i, prec=p), name, its)
    return chk


def json_ok(seg, tx, k, cfgtree):
    """the metadata is the configuration as JSON"""
    segs = list(seg)
    if len(segs) >= 3 and [x[:3] if isinstance(x, tuple) else x for x in segs[:3]] == [("opq", "line", 0), "\n", ("opq", "line", 1)] \
            and segs[0][3:] == segs[2][3:]:
        # (written line by line)
        segs[:3] = [("opq",) + segs[0][3:]]
    if segs and isinstance(segs[-1], str) and not segs[-1].strip():
        segs = segs[:-1]
    if len(segs) != 1 or not isinstance(segs[0], tuple) or segs[0][:2] != ("opq", "json"):
        return "is %s, not the configuration as JSON" % X.show(seg)[:120]
    return None if segs[0][3] == cfgtree else "is the JSON of something else than the configuration"


def files(chk, name, system, S, outs, its, steps=3, prec=None):
    from ..models import canon_val
    x = W(chk, system, S, outs, prec)
    w, s = x.w, x.s
    cfg0 = canon_val(w.E, w.st, s.cfg)
    setup = len(w.st.trace)
    errs = [w.ok(w.call(s.mm + "::writer_write_metadata", [s.wr]))[0]]
    es, counters = [], []
    snap = []
    for n in range(steps):
        snap.append(w.ints(s.wr))
        v, e = x.fresh(n)
        errs += [x.update(v), x.write()]
        es.append(e)
        counters.append(n)
    # whatever was counted so far may have reached any later value
    if w.generalise(s.wr, snap[-1], w.ints(s.wr), "later"):
        for i in range(2):
            v, e = x.fresh(steps + i)
            errs += [x.update(v), x.write()]
            es.append(e)
            counters.append(T.ibin("iadd", T.isym("later"), i) if i else T.isym("later"))
    else:
        chk.undecide(name + ": arbitrary later counter", "the output counter is not found")
    tr = w.st.trace
    its = more(chk, name, its, (tr, errs, [e for e in es]))
    bad = {}
    cnt = 0
    for it in its:
        tx = text(it)
        exr = _rng("exists", it.seed, name)
        ex = {}
        for k in range(it.K):
            existed = lambda p: ex.setdefault((p, k), bool(exr.random() < 0.6))
            cs = [c if isinstance(c, int) else int(tx.val(c, k)) for c in counters]
            if len(set(cs)) < len(cs):
                continue
            fs = X.Files(existed)
            evs = tx.run(tr, k)
            if any(ev[0] in ("cut", "panic") for ev in evs):
                raise Undecided("writing is not followed to its end")
            begun = False
            cleared, made = set(), set()
            for ev in evs:
                if ev[0] in ("write", "open"):
                    begun = True
                if ev[0] == "fs" and ev[1] == "create_dir_all":
                    made.add(ev[2].rstrip("/"))
                if ev[0] == "fs" and ev[1] == "create_dir":
                    d = ev[2].rstrip("/")
                    up = d.rsplit("/", 1)[0] if "/" in d else ""
                    seen = any(p[0] == "probe" and p[2].rstrip("/") == up and p[3] for p in evs)
                    if up.strip("./") and not seen and not any(m == up or m.startswith(up + "/") for m in made):
                        bad.setdefault("a missing folder is created", "%s, although %s need not exist" % (ev[:3], up))
                    made.add(d)
                if ev[0] == "fs" and ev[1] == "remove_dir_all":
                    cleared.add(ev[2].rstrip("/"))
                    if begun:
                        bad.setdefault("no output folder is removed after writing began", "%s" % (ev,))
                fs.feed(ev)
            for b in fs.bad:
                bad.setdefault("files can be opened whatever existed before", b)
            if any(tx.val(e, k) if e is not False else False for e in errs):
                bad.setdefault("no error without a failing operation", "writing fails")
            want = {}
            for q, o in enumerate(outs):
                g = lambda f: bool(tx.val(T.bsym("cfg.writer_config[%d].%s" % (q, f)), k))
                prec = int(tx.val(T.isym("cfg.writer_config[%d].precision" % q), k))
                if o[0] != "File":
                    continue
                f = folder(q, tx, k)
                isdir = [ev[3] for ev in evs if ev[0] == "probe" and ev[1] in ("is_dir", "exists") and ev[2].rstrip("/") == f.rstrip("/")]
                alone = sum(1 for r, p in enumerate(outs) if p[0] == "File" and folder(r, tx, k).rstrip("/") == f.rstrip("/")) == 1
                if alone and g("should_clear_out_folder") and isdir and isdir[0] and f.rstrip("/") not in cleared:
                    bad.setdefault("the folder is cleared when asked to", "folder %r of output %d is not" % (f, q))
                if isdir and not any(isdir) and not any(ev[0] == "fs" and ev[1] in ("create_dir_all", "create_dir") and ev[2].rstrip("/") == f.rstrip("/") for ev in evs):
                    bad.setdefault("a missing folder is created", "folder %r of output %d is not" % (f, q))
                tabs = [x.table(o, e, tx, k) for e in es]
                if o[2] == "Vector":
                    for i, (c, t) in enumerate(zip(cs, tabs)):
                        want[paths(o, q, tx, k, c)] = ("output %d of a vector output goes to its own file" % i, o, t, prec)
                else:
                    want[paths(o, q, tx, k, 0)] = ("a scalar output keeps one file", o, [r for t in tabs for r in t], prec)
            metas = [p for p in fs.files if p not in want]
            opened = {ev[1] for ev in evs if ev[0] == "open"}
            for p, (what, o, t, prec) in want.items():
                if p not in opened:
                    bad.setdefault(what, "%s is not written (but %s)" % (p, sorted(opened)[:6]))
                    continue
                why = check_block(fs.files[p], o, True, t, prec)
                if why:
                    bad.setdefault(what, "%s %s%s" % (p, why, " (the file existed before)" if existed(p) else ""))
            # metadata: one file per output that asks for it, inside its folder
            mine = [[] for _ in outs]
            for p in metas:
                for q, o in enumerate(outs):
                    pre = folder(q, tx, k).rstrip("/") + "/" + tx.sval("cfg.writer_config[%d].file_name" % q, k)
                    if o[0] == "File" and (t := tail(p, pre)) is not None and "metadata" in t and "/" not in t:
                        mine[q].append(p)
                        break
                else:
                    bad.setdefault("nothing else is written", "%s is written" % p)
            for q, o in enumerate(outs):
                ask = bool(tx.val(T.bsym("cfg.writer_config[%d].should_print_metadata" % q), k))
                if o[0] != "File":
                    continue
                if ask != (len(mine[q]) == 1):
                    bad.setdefault("metadata goes to its own file exactly when asked for", "output %d: asked %s, files %s" % (q, ask, mine[q]))
                for p in mine[q]:
                    why = json_ok(fs.files[p], tx, k, tx.tree(cfg0, k))
                    if why:
                        bad.setdefault("the metadata file holds the configuration", "%s %s" % (p, why))
            cnt += 1
    obligations = ["output %d of a vector output goes to its own file" % c for c in range(steps + 2)] if any(o[2] == "Vector" and o[0] == "File" for o in outs) else []
    obligations += ["a scalar output keeps one file"] if any(o[2] == "Scalar" and o[0] == "File" for o in outs) else []
    obligations += ["no output folder is removed after writing began", "files can be opened whatever existed before", "no error without a failing operation",
                    "the folder is cleared when asked to", "a missing folder is created", "nothing else is written", "metadata goes to its own file exactly when asked for",
                    "the metadata file holds the configuration"]
    for b, why in bad.items():
        chk.violate("%s: %s" % (name, b), why, "Writer, Output")
    if cnt < 10:
        chk.undecide(name, "only %d histories compared" % cnt)
    else:
        for b in obligations:
            if b not in bad:
                chk.proved("%s: %s" % (name, b), "random-interpretation of file-system semantics")


# ------------------------------------------------------------------ C02
REMOVERS = ("remove_dir_all", "remove_dir", "remove_file", "rename")
CLEAR = {
    "one file": [("File", "CSV", "Vector", ("T",))],
    "one stdout": [("Stdout", "CSV", "Vector", ("T",))],
    "stdout, file": [("Stdout", "TSV", "Scalar", ("T",)), ("File", "CSV", "Scalar", ("T",))],
    "three files": [("File", "CSV", "Vector", ("T",)), ("File", "TSV", "Scalar", ("T",)), ("File", "CSV", "Vector", ("Iter",))],
    "file, stdout, file": [("File", "TSV", "Vector", ("T",)), ("Stdout", "CSV", "Vector", ("T",)), ("File", "CSV", "Scalar", ("Iter",))],
    "no outputs": [],
}


def other_names(it):
    """folder names that differ between outputs, or (every third time) are the same for all"""
    f = strings(it)

    def g(prefix, k):
        if prefix.endswith("folder_name") and k % 3 == 2:
            return f("cfg.writer_config[0].folder_name", k)
        s = f(prefix, k)
        return s if s is None or not prefix.endswith("folder_name") else "d" + prefix.split("[")[1][0] + "/" + s
    return g


def c02():
    chk = Check("C02", "Gated event trace of init_corries for every list of outputs: each realised removal targets exactly the folder of a file output "
                "that asks for clearing, after a successful test that it is a directory, and in the complete trace of run_corries and of every "
                "writer entry point there is no removal; all functions of the crate whose code calls a removing operation (or could start a "
                "process) are among those analysed here")
    pred = X.strpred(lambda it: X.Text(it, other_names(it)))
    base = sampler()
    smp = lambda n, so, it: (lambda v: base(n, so, it) if v is None else v)(pred(n, so, it))
    its = [Interp(Phys(True, "smooth", 0.6, smp), 60 if not chk.thorough else 300, chk.seed + i) for i in range(2)]
    seen = set()
    for nmx, outs in CLEAR.items():
        for system, scheme in (("a", "h"), ("i", "k")):
            name = "%s8%s %s" % (system, scheme, nmx)
            with chk.group(name):
                s = Sim(chk.F, system, scheme, 8, outs=outs)
                chk.watch(s.w)
                s.w.E.nofail = nmx != "three files"
                s.w.E.hooks["fn:init"] = lambda E, st, args, fty, dty: (E.event(st, "init_fn"), Agg(dty, 0, (UNIT,)))[1]
                r = s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")])
                tr = s.w.st.trace
                seen |= set(s.w.E.bodies)
                bad, n = {}, 0
                for it in more(chk, name, its, tr):
                    tx = X.Text(it, other_names(it))
                    for k in range(it.K):
                        isdir = {}
                        late = False
                        allowed = [folder(q, tx, k).rstrip("/") for q, o in enumerate(outs) if o[0] == "File" and
                                   tx.val(T.bsym("cfg.writer_config[%d].should_clear_out_folder" % q), k)]
                        cleared = {}
                        for ev in tx.run(tr, k):
                            if ev[0] == "probe" and ev[1] in ("is_dir", "exists", "try_exists", "metadata"):
                                isdir[ev[2].rstrip("/")] = ev[3]
                            elif ev[0] in ("write", "init_fn"):
                                late = True
                            elif ev[0] == "fs" and ev[1] in REMOVERS:
                                n += 1
                                p = ev[2].rstrip("/")
                                if ev[1] == "rename" or ev[1] == "remove_file":
                                    bad.setdefault("nothing but output folders is deleted", "%s of %r" % (ev[1], ev[2:]))
                                elif p not in allowed:
                                    bad.setdefault("only folders to be cleared are deleted", "%s(%r), but only %s may be cleared" % (ev[1], p, sorted(allowed)))
                                elif not isdir.get(p):
                                    bad.setdefault("only existing directories are deleted", "%s(%r) without a successful test that it is a directory" % (ev[1], p))
                                elif cleared.get(p, 0) >= allowed.count(p):
                                    bad.setdefault("only folders to be cleared are deleted", "%s(%r) for an output that does not ask for it" % (ev[1], p))
                                cleared[p] = cleared.get(p, 0) + 1
                                if late:
                                    bad.setdefault("only while the writer is set up", "%s(%r)" % (ev[1], ev[2]))
                for b in ("nothing but output folders is deleted", "only folders to be cleared are deleted", "only existing directories are deleted", "only while the writer is set up"):
                    if b in bad:
                        chk.violate("%s: %s" % (name, b), bad[b], "init_corries", key="%s: %s" % (nmx, b))
                    elif n or not any(o[0] == "File" for o in outs):
                        chk.proved("%s: %s" % (name, b), "random-interpretation of the gated event trace")
                    else:
                        chk.undecide("%s: %s" % (name, b), "no removal was ever reached")
    from . import run as rn
    for nmx, outs in list(rn.OUTS.items()):
        for system, scheme in (("a", "h"), ("i", "k")):
            name = "%s8%s run_corries %s" % (system, scheme, nmx)
            with chk.group(name):
                R = rn.Run(chk, system, scheme, 8, outs, 2)
                seen |= set(R.s.w.E.bodies)
                ev = [e for g, e in trace.events(R.trace) if e[0] == "ev" and e[1] == "fs" and e[3][0] in REMOVERS]
                chk.flag(name + ": deletes nothing", not ev, str([e[3][0] for e in ev])[:200], "run_corries")
    # census of the calls
    sites = census(chk.F, lambda n: is_remover(n))
    chk.extra["removal_call_sites"] = sorted("%s in %s" % (c, f) for f, c in sites)
    for f, c in sorted(set(sites)):
        ok = in_seen(chk.F, seen, f)
        chk.flag("%s calls %s within the analysed set-up" % (strip_gen(f), c), ok, "%s calls %s and is not reached by the analysed entry points" % (f, c), f)
    if not sites:
        chk.proved("no removal call in the crate")
    return chk


def strip_gen(n):
    out, d = [], 0
    for i, ch in enumerate(n):
        if ch == "<":
            d += 1
        elif ch == ">" and (i == 0 or n[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("::::", "::")


def in_seen(F, seen, f):
    return any(F.insts[b]["n"] == f for b in seen)


def is_remover(n):
    b = strip_gen(n)
    last = b.split("::")[-1]
    if b.startswith("std::fs::") and (last.startswith("remove_") or last in ("rename", "hard_link", "copy", "write")):
        return last in ("rename",) or last.startswith("remove_")
    return "std::process::Command" in n or last in ("unlink", "rmdir", "unlinkat", "renameat") and "libc" in b


def census(F, pred):
    """(corries function, callee) for every call of a matching function in the code of the crate"""
    out = []
    for i, I in enumerate(F.insts):
        if I.get("crate") != "corries" or not I.get("body"):
            continue
        for n in referenced(F, I["body"]):
            if pred(n):
                out.append((I["n"], strip_gen(n)))
    return sorted(set(out))


def referenced(F, body):
    """names of all functions called or mentioned in a body"""
    out = set()

    def rec(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "c" and isinstance(x[1], int) and x[1] < len(F.types) and F.types[x[1]]["k"] == "fndef":
                out.add(F.types[x[1]]["n"])
            for y in x:
                if isinstance(y, (list, dict)):
                    rec(y)
        elif isinstance(x, dict):
            for y in x.values():
                rec(y)
    rec(body["blocks"])
    return out


# ------------------------------------------------------------------ C25
STREAMS = {
    "two stdout": [("Stdout", "CSV", "Vector", ("XiCent", "T")), ("Stdout", "TSV", "Scalar", ("T", "Iter"))],
    "stdout, file, stdout": [("Stdout", "TSV", "Vector", ("XiCent",), True), ("File", "CSV", "Vector", ("T", ("Prim", 1))), ("Stdout", "CSV", "Vector", (("Cons", 0), "T"))],
    "two files and stdout": [("File", "CSV", "Vector", ("XiCent",)), ("File", "TSV", "Scalar", ("T", "Dt")), ("Stdout", "CSV", "Scalar", ("DtKind",))],
}


def c25():
    chk = Check("C25", "In the gated trace of write_output and write_metadata, every event carries the parallel task it belongs to and the stream or "
                "the lock guard it goes through: within one parallel region all stdout writes of a task go through one lock guard (or are a "
                "single write), different tasks never share a guard, and every file is written by one task only")
    its = interps(chk, 1, 24)
    for system, S in (("a", 8), ("i", 11), ("i", 300)):
        for nmx, outs in STREAMS.items():
            if S > 99:
                # (one large case)
                if nmx != next(iter(STREAMS)):
                    continue
                its = [Interp(i.sampler, 4, i.seed) for i in its]
            for what in ("write_output", "write_metadata"):
                name = "%s%d %s %s" % (system, S, what, nmx)
                with chk.group(name):
                    x = W(chk, system, S, outs)
                    w, s = x.w, x.s
                    for n in range(3):
                        if n == 2:
                            w.generalise(s.wr, snap, w.ints(s.wr), "later")
                        snap = w.ints(s.wr)
                        v, e = x.fresh(n)
                        x.update(v)
                        w.st.trace = []
                        if what == "write_output":
                            x.write()
                        else:
                            w.call(s.mm + "::writer_write_metadata", [s.wr])
                        blocks(chk, "%s, call %d" % (name, n), w.st.trace, its, outs, what)
    return chk


def blocks(chk, name, tr, its, outs, what):
    bad, n, par = {}, 0, 0
    for it in more(chk, name, its, tr):
        tx = text(it)
        for k in range(it.K):
            task, files_, opens = {}, {}, {}
            order = []
            for ev in tx.run(tr, k):
                if ev[0] in ("cut", "panic"):
                    raise Undecided("writing is not followed to its end (%s)" % (ev,))
                if ev[0] == "open":
                    opens[ev[3]] = ev[1]
                if ev[0] != "write":
                    continue
                raw = ev[3]
                p = raw[5]
                n += 1
                tgt = ev[1]
                if tgt[0] == "file":
                    files_.setdefault(opens.get(tgt[1], "file %s" % tgt[1]), set()).add(p)
                    continue
                if p is not None:
                    par += 1
                    task.setdefault(p, []).append(tgt)
                else:
                    order.append(tgt)
            for p, ts in task.items():
                if len(ts) > 1 and (len(set(ts)) > 1 or ts[0][1:2] != ("lock",)):
                    bad.setdefault("stdout is locked for a whole block", "%d separate writes to stdout, through %s, in a parallel task" % (
                        len(ts), "no lock" if ts[0][1:2] != ("lock",) else "%d different locks" % len(set(ts))))
            for p, ts in task.items():
                for q, us in task.items():
                    if p < q and any(t[1:2] == ("lock",) and t in us for t in ts):
                        bad.setdefault("parallel tasks do not share a lock guard", "guard %s" % (ts[0],))
            for f, ps in files_.items():
                if len(ps) > 1:
                    bad.setdefault("a file is written by one thread", "%s is written by %d tasks" % (f, len(ps)))
    for b in ("stdout is locked for a whole block", "parallel tasks do not share a lock guard", "a file is written by one thread"):
        if b in bad:
            chk.violate("%s: %s" % (name, b), bad[b], "Output::" + what, key="%s: %s" % (what, b))
        elif n == 0:
            chk.undecide("%s: %s" % (name, b), "nothing is written")
        else:
            chk.proved("%s: %s" % (name, b), "gated event trace")
    c = chk.extra.setdefault("writes_examined", {"parallel stdout": 0, "all": 0})
    c["parallel stdout"] += par
    c["all"] += n
