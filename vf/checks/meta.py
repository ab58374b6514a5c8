"""C32 the metadata is the complete configuration."""
import numpy as np
from .. import focus
from .. import terms as T
from .. import text as X
from .. import trace
from ..check import Check
from ..models import canon_val
from ..sampling import Phys
from ..setup import Sim, short
from ..terms import Interp
from ..values import *
from ..world import World

ROOTS = ["corries_config", "mesh_config", "mesh_mode", "physics_config", "units_mode", "boundary_mode", "custom_boundary_mode", "numerics_config",
         "numflux_config", "limiter_mode", "time_integration_config", "rkf_config", "rkf_mode", "output_config", "stream_mode", "formatting_mode",
         "string_conversion_mode", "data_name"]


def lit(E, st, v):
    v = E.resolve(st, v)
    while isinstance(v, (Ref, ValPtr)):
        v = E.resolve(st, E.load(st, v))
    if isinstance(v, str):
        return v
    if isinstance(v, StrV) and all(isinstance(p, str) for p in v.parts):
        return "".join(v.parts)
    raise Undecided("name of a field is not constant")


def where(p):
    return (p.cell, tuple(e for e in p.path if e[0] != "dc")) if isinstance(p, Ref) else ("value", id(p.v)) if isinstance(p, ValPtr) else None


def chooser(F, k):
    def ch(p, t):
        x = F.types[t]
        if x["k"] == "adt" and x["n"].endswith("vec::Vec"):
            return (2, 0, 1)[k % 3]
        if x["k"] == "adt" and x["v"] and len(x["v"]) > 1 and any(v["f"] for v in x["v"]):
            return x["v"][(k + len(p)) % len(x["v"])]["n"]
        return None
    return ch


def parts(F, t, out):
    """types of the analysed program below t"""
    x = F.types[t]
    if x["k"] in ("ref", "ptr"):
        return parts(F, x["t"], out)
    if x["k"] == "tuple":
        for y in x["ts"]:
            parts(F, y, out)
    if x["k"] == "array":
        parts(F, x["t"], out)
    if x["k"] == "adt":
        n = x["n"]
        if n.startswith("corries::") and not n.endswith("PhantomData"):
            out.add(t)
        else:
            for a in x.get("args") or ():
                if isinstance(a, dict) and "t" in a:
                    parts(F, a["t"], out)
    return out


def anything(name, sort):
    """a configuration value may be any finite one"""
    return (lambda x, it, base: np.isfinite(np.asarray(x, T.LD))) if sort == "f" else (lambda x, it, base: (x >= 0).astype(bool)) if sort == "i" else None


def analyse(chk, root, t, variant, k):
    """gated record of what serialising one value emits: (world, trace, error, {pointer: field}, fields)"""
    F = chk.F
    w = World(F)
    w.E.unroll = 50
    chk.watch(w)
    vs = F.types[t]["v"]
    ch = chooser(F, k)
    v = Agg(t, variant, [w.sym(ft, "v." + fn, ch) for fn, ft in vs[variant]["f"]])
    p = w.value = w.cell(v)
    own = {}
    for i in range(len(vs[variant]["f"])):
        own[where(w.E.project_el(p, ("f", i), w.st))] = i

    def begin(E, st, args, fty, dty):
        E.event(st, "begin", *[lit(E, st, a) for a in args])
        return UNIT

    def field(E, st, args, fty, dty):
        key = lit(E, st, args[0])
        q = args[1]
        y = E.resolve(st, q)
        for _ in range(3):
            if where(y) in own:
                E.event(st, "field", key, own[where(y)])
                return UNIT
            z = E.resolve(st, E.load(st, y)) if isinstance(y, (Ref, ValPtr)) else None
            if not isinstance(z, (Ref, ValPtr)):
                break
            y = z
        E.event(st, "field", key, None)
        E.call_inst(st, fty["i"], args)
        E.event(st, "close")
        return UNIT

    def skipped(E, st, args, fty, dty):
        E.event(st, "skipped", lit(E, st, args[0]))
        return UNIT

    def leaf(E, st, args, fty, dty):
        v = E.resolve(st, args[0])
        while isinstance(v, (Ref, ValPtr)):
            v = E.resolve(st, E.load(st, v))
        E.event(st, "leaf", v)
        return UNIT

    for f in (begin, field, skipped, leaf):
        w.E.hooks["corries_roots::rec::" + f.__name__] = f
    ok = lambda dty: Agg(dty, 0, (UNIT,))

    def plain(E, st, args, fty, dty):
        leaf(E, st, args, fty, dty)
        return ok(dty)
    for ty in ("bool", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "char", "str", "std::string::String"):
        w.E.hooks["serde::ser::impls::<impl serde::Serialize for %s>::serialize" % ty] = plain
    err = w.ok(w.call("ser::" + root, [p]))[0]
    return w, w.st.trace, err, vs[variant]["f"]


def emitted(evs, w, v):
    """[(key, field number or None, [leaves])] and the shape announced"""
    shape, fields, depth = None, [], 0
    for e in evs:
        if e[0] not in ("begin", "field", "close", "skipped", "leaf"):
            continue
        a = e[2:]
        if e[0] == "close":
            depth -= 1
        elif depth:
            # inside a value that is not one of the fields
            if e[0] == "field" and a[1] is None:
                depth += 1
            fields[-1][2].append(a[0] if e[0] == "leaf" else (e[0],) + tuple(a))
        elif e[0] == "begin":
            if shape is not None:
                raise Undecided("two values are emitted")
            shape = a
        elif e[0] == "field":
            fields.append([a[0], a[1], []])
            depth += a[1] is None
        elif e[0] == "leaf":
            if shape is not None:
                raise Undecided("two values are emitted")
            shape = ("leaf", a[0])
    return shape, fields


def c32():
    chk = Check("C32", "Abstract run of the Serialize implementation of every configuration type on a recording serializer: the gated record is compared, under "
                "every interpretation, with the fields and variants the type declares")
    F = chk.F
    types = {}
    w0 = World(F)
    for r in ROOTS:
        with chk.group("serialisation of " + r):
            types[w0.strip(w0.root_ty("ser::" + r, 1))] = r
    enum = lambda t: F.types[t].get("kind") == "enum"
    seen, todo = set(), [t for t, r in types.items() if r == "corries_config"]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        name = short(F.tname(t))
        if t not in types:
            chk.undecide("metadata of " + name, "no recording root for this type")
            continue
        vs = F.types[t]["v"]
        for i, v in enumerate(vs):
            for fn, ft in v["f"]:
                todo += parts(F, ft, set())
        label = {}
        for i, v in enumerate(vs):
            nm = name if not enum(t) else name + "::" + v["n"]
            with chk.group("metadata of " + nm):
                bad, n = {}, 0
                for k in range(3 if v["f"] else 1):
                    w, tr, err, fields = analyse(chk, types[t], t, i, k)
                    its, st = focus.extend([Interp(None, 60, chk.seed + 7 * k)], (tr, err), anything, 60, per=60)
                    chk.conditions(st)
                    for it in its:
                        tx = X.Text(it)
                        for q in range(it.K):
                            evs = tx.run(tr, q)
                            if evs and evs[-1][0] == "cut":
                                continue
                            n += 1
                            if evs and evs[-1][0] == "panic":
                                bad["serialising ends in a panic"] = str(evs[-1][1:])
                                continue
                            if tx.val(err, q):
                                bad["serialising fails"] = "an error is returned although the serializer accepts everything"
                                continue
                            judge(chk, tx, q, w, vs, i, name, enum(t), emitted(evs, w, None), fields, bad, label)
                for b, why in bad.items():
                    chk.violate("metadata of %s: %s" % (nm, b), why, "Serialize for " + name)
                if n < 4:
                    chk.undecide("metadata of " + nm, "only %d runs" % n)
                elif not bad:
                    for fn, ft in v["f"]:
                        chk.proved("metadata of %s: `%s` is recorded once, under its name, unchanged" % (nm, fn), "random-interpretation of the gated record")
                    if enum(t):
                        chk.proved("metadata of %s: the variant is named" % nm, "random-interpretation of the gated record")
        if enum(t) and len(label) == len(vs):
            chk.flag("metadata of %s: variants have distinct names" % name, len(set(label.values())) == len(vs), "names: %s" % label, "Serialize for " + name)
    written(chk)
    chk.extra["types"] = sorted(short(F.tname(t)) for t in seen)
    return chk


SETS = [[("File", "CSV", "Vector", ("XiCent", ("Prim", 1)))], [("Stdout", "TSV", "Scalar", ("T", "Iter")), ("File", "TSV", "Scalar", ("Dt", "DtKind"))],
        [("Stdout", "CSV", "Vector", ("T", "XiWest"))]]


def written(chk):
    """whatever metadata set-up writes is made from the configuration it was given"""
    from .out import sampler, text
    base = sampler()
    its0 = [Interp(Phys(True, "smooth", 0.6, base), 40, chk.seed + i) for i in range(2)]
    for system, scheme, m in (("a", "h", 0), ("i", "k", 1), ("a", "k", 2)):
        outs = SETS[m]
        name = "%s8%s metadata written by init_corries, %s" % (system, scheme, ", ".join(o[0] for o in outs))
        with chk.group(name):
            s = Sim(chk.F, system, scheme, 8, outs=outs)
            chk.watch(s.w)
            s.w.E.nofail = True
            s.w.E.hooks["fn:init"] = lambda E, st, args, fty, dty: Agg(dty, 0, (UNIT,))
            cfg0 = canon_val(s.w.E, s.w.st, s.cfg)
            s.w.call(s.mod + "::init_corries", [s.cfg, OpaqueFn("init")])
            bad, n, none = {}, 0, 0
            its, st = focus.extend(its0, s.w.st.trace, None, 40, per=40)
            chk.conditions(st)
            for it in its:
                tx = text(it)
                for k in range(it.K):
                    evs = tx.run(s.w.st.trace, k)
                    if evs and evs[-1][0] in ("cut", "panic"):
                        continue
                    want = tx.tree(cfg0, k)
                    found = 0
                    for ev in evs:
                        if ev[0] != "write":
                            continue
                        for x in ev[2]:
                            if isinstance(x, tuple) and x[:2] in (("opq", "json"), ("opq", "line")):
                                found += 1
                                if x[3] != want:
                                    bad.setdefault("the metadata is the configuration of the run", "the JSON written is that of something else")
                    ask = any(tx.val(T.bsym("cfg.writer_config[%d].should_print_metadata" % q), k) for q in range(len(outs)))
                    n += bool(ask)
                    none += not ask
                    if bool(found) != bool(ask):
                        bad.setdefault("metadata is written exactly when asked for", "asked for: %s, written: %d" % (ask, found))
            for b in ("the metadata is the configuration of the run", "metadata is written exactly when asked for"):
                if b in bad:
                    chk.violate("%s: %s" % (name, b), bad[b], "init_corries")
                elif n < 4 or none < 4:
                    chk.undecide("%s: %s" % (name, b), "only %d and %d runs" % (n, none))
                else:
                    chk.proved("%s: %s" % (name, b), "random-interpretation of the gated event trace")


def judge(chk, tx, q, w, vs, i, name, enum, em, fields, bad, label):
    shape, got = em
    if shape is None:
        bad["something is recorded"] = "nothing is emitted"
        return
    kind = shape[0]
    if enum:
        if kind == "leaf" and isinstance(shape[1], (StrV, str)) and not fields:
            nm = tx.lit(shape[1], q)
        elif kind.endswith("_variant"):
            nm = shape[2]
        elif kind in ("unit", "none"):
            nm = None
        else:
            raise Undecided("shape %s for a variant of %s" % (kind, name))
        label[i] = nm
        if nm != vs[i]["n"]:
            bad["the variant is recorded under its own name"] = "variant %s is recorded as %r" % (vs[i]["n"], nm)
    elif kind not in ("struct", "map", "newtype_struct", "tuple_struct", "unit_struct"):
        raise Undecided("shape %s for %s" % (kind, name))
    if kind == "map":
        flat, key = [], None
        for e in got:
            if e[0] == "key":
                if len(e[2]) != 1:
                    raise Undecided("key of a map")
                key = tx.lit(e[2][0], q)
            else:
                flat.append([key, e[1], e[2]])
        got = flat
    named = kind in ("struct", "map", "struct_variant")
    for j, (fn, ft) in enumerate(fields):
        mine = [e for e in got if e[0] == fn] if named else [e for e in got[j:j + 1]]
        if not mine:
            bad["`%s` is recorded" % fn] = "the field does not appear in the metadata"
            continue
        if len(mine) > 1:
            bad["`%s` is recorded once" % fn] = "%d entries of this name" % len(mine)
            continue
        e = mine[0]
        if e[1] == j:
            continue
        if e[1] is not None:
            bad["`%s` holds its own value" % fn] = "the value recorded under `%s` is the field `%s`" % (fn, fields[e[1]][0])
            continue
        # a derived value: a plain one must be the field
        want = T_field(w, j)
        if len(e[2]) == 1 and T.is_scalar(e[2][0]) and T.is_scalar(want):
            a, b = tx.val(e[2][0], q), tx.val(want, q)
            if type(a) is not type(b) or not (a == b or (a != a and b != b)):
                bad["`%s` is recorded unchanged" % fn] = "recorded %r for the value %r" % (a, b)
        elif len(e[2]) == 1 and isinstance(e[2][0], (StrV, str)) and isinstance(want, (StrV, str)):
            if tx.segs(e[2][0], q) != tx.segs(want, q):
                bad["`%s` is recorded unchanged" % fn] = "recorded %s for %s" % (X.show(tx.segs(e[2][0], q)), X.show(tx.segs(want, q)))
        else:
            raise Undecided("the value recorded for `%s` is not followed (%s)" % (fn, e[2]))


def T_field(w, j):
    v = w.E.resolve(w.st, w.E.load(w.st, w.value))
    return w.E.resolve(w.st, v.fields[j])
