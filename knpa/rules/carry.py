"""The network a backend holds is the network it was given, and the one it gives back."""
import re

from .. import interp
from .. import terms as T
from ..lib import P, S, bulks, check, ewhere, fld, guards, mutations, rets, this, where
from .backend import NAMES, canon, covers, extra, step
from .lifecycle import targs

KINDS = {"populations": ("populations_", None), "projections": ("projections_", "arg_")}


def inner(ctx, unit, kind):
    """Types the backend's container of this kind can hold."""
    store, wrapped = KINDS[kind]
    for rec in ctx.prog.records.values():
        for f in rec["f"]:
            if wrapped and f["n"] == wrapped and rec["qn"].startswith(NAMES[unit]):
                return targs(f["ty"])
            if not wrapped and f["n"] == store and rec["qn"] == NAMES[unit]:
                return targs(targs(f["ty"])[0])
    return []


def element(t, src):
    """The term is an element of the container `src` the surrounding loop visits."""
    t = canon(P(t))
    return t[:1] in (("elem",), ("at",), ("each",)) and t[1] == canon(src)


def one_each(e, v, src):
    return v is not None and element(v, src) and covers(e, canon(v)) is None and not extra(e)


def tname(t):
    return re.sub(r"knp::\w+::", "", t)


def plain_type(t):
    t = t.strip()
    while t.startswith("const "):
        t = t[6:]
    while t.endswith("&"):
        t = t[:-1].strip()
    return t[:-6].strip() if t.endswith(" const") else t


def carried(v, wrapped):
    """The element an insertion puts in, out of its wrapper."""
    v = P(v)
    while v[:1] in (("copy",), ("moved",), ("cast",)) and len(v) > 1 and isinstance(v[-1], tuple):
        v = v[-1]
    if wrapped and v[:1] == ("agg",):
        return next((carried(x, None) for n, x in v[2] if n == wrapped), None)
    return v


def load(ctx, unit, fn, kind):
    store, wrapped = KINDS[kind]
    r = ctx.run(fn)
    src = ("parm", fn.params[0]["n"] or "arg0", 0)
    root = this(store)
    every = {plain_type(t) for t in targs(targs(fn.ptype(0).replace("const ", "", 1))[0])}
    held = {plain_type(t) for t in inner(ctx, unit, kind)}
    key = "%s/load/%s/%s" % (unit, kind, "all" if every != held or "load_all" in fn.name else "own")
    muts = [e for e in mutations(r, root) if e.name not in ("reserve", "shrink_to_fit")]
    adds = [e for e in muts if e.loops]
    pre = [e for e in muts if not e.loops]
    whole = [b.e for b in bulks(r) if b.src == src and b.dst == root and not b.loops and not b.e.loops]
    asg = [e for e in pre if (P(e.val) if e.kind == "write" else P(e.args[-1]) if e.name == "operator=" and e.args
                              else None) == src] + [e for e in whole if e.name == "assign"]
    first = [e for e in pre if e not in whole and e not in asg]
    fresh = all(e.name in ("clear", "swap", "erase", "resize", "operator=", "assign") or e.kind == "write"
                for e in first)
    order = max((e.ix for e in first), default=-1)
    ctx.ob(key + "/replace", (first or asg) and fresh and all(order < e.ix for e in adds + whole + asg) and
           all(not guards(e) for e in first + asg), where(fn),
           "loading replaces what the backend held before", "; ".join(ewhere(e) for e in first) or "nothing emptied")
    if (whole or asg) and every == held:
        for t in sorted(every):
            ctx.ob(key + "/one/" + tname(t), len(set(whole + asg)) == 1 and not guards((whole + asg)[0]) and not adds,
                   where(fn), "every loaded element of a supported type enters the backend exactly once, in order",
                   "bulk insertion is not unconditional or not the only one")
        return
    throws = [e for e in r.events if e.kind == "throw"]
    for t in sorted(every):
        name = tname(t)
        mine = []
        for e in adds:
            a = {plain_type(x) for g in guards(e) for c in interp.conj(g) if c[:1] == ("alt",) and element(c[1], src)
                 for x in [c[2]]}
            if not a or t in a:
                mine.append(e)
        if t in held:
            ok = [e for e in mine if e.name in ("push_back", "emplace_back") and e.args and
                  one_each(e, carried(e.args[-1], wrapped), src)]
            ctx.ob(key + "/one/" + name, len(mine) == 1 and len(ok) == 1, ewhere(mine[0]) if mine else where(fn),
                   "every loaded element of a supported type enters the backend exactly once, in order",
                   "%d insertions, %d of them of the element itself on every path" % (len(mine), len(ok)))
        else:
            bad = [e for e in throws if [plain_type(c[2]) for g in guards(e) for c in interp.conj(g)
                                         if c[:1] == ("alt",) and element(c[1], src)] == [t] and
                   all(not lp.early or lp.kind == "foreach" for lp in e.loops)]
            ctx.ob(key + "/refused/" + name, bad and not mine, where(fn),
                   "an element of a type the backend cannot run is refused with an exception",
                   "no exception" if not bad else "inserted")


def result_range(r, field):
    out = []
    for x in rets(r):
        v = P(x.val)
        if v[:1] == ("agg",):
            out += [y for n, y in v[2] if n == field]
    return out


def ends(v):
    return [x for x in v[1]] if v[:1] == ("tuple",) else [x[1] for x in v[2]] if v[:1] == ("agg",) else list(v[2]) \
        if v[:1] == ("call",) else []


def gives_back(ctx, unit, kind):
    store, wrapped = KINDS[kind]
    fn = ctx.prog.fn(NAMES[unit] + "::get_network_data")[0]
    r = ctx.run(fn)
    key = "%s/data/%s" % (unit, kind)
    vs = result_range(r, kind[:-1] + "_range")
    root = this(store)
    ok = bool(vs)
    for v in vs:
        es = ends(v)
        ok = ok and len(es) == 2
        for e, want in zip(es, ("begin", "end")):
            mine = {x for x in T.subterms(e) if isinstance(x, tuple) and len(x) == 2 and x[0] in ("begin", "end", "iter")}
            moved = any(isinstance(x, tuple) and (x[:1] == ("bin",) or x[:2] in (("call", "std::next"), ("call", "std::prev")))
                        for x in T.subterms(e))
            ok = ok and mine == {(want, root)} and not moved
    ctx.ob(key + "/range", ok, where(fn), "reading the network back walks the backend's own %s from first to last" % kind,
           "; ".join(S(v)[:120] for v in vs) or "no range returned")


def iterators(ctx, unit, kind):
    """The concrete iterator: first/next/equal over the stored container, yielding the stored element itself."""
    store, wrapped = KINDS[kind]
    ns = NAMES[unit].rsplit("::", 1)[0] + "::"
    holders = []
    for rec in ctx.prog.records.values():
        if rec["qn"].startswith(ns) and any("::const_iterator" in f["ty"] or "__normal_iterator" in f["ty"] or
                                             "iterator" in f["ty"] for f in rec["f"]):
            holders.append(rec["qn"])
    found = 0
    for qn in sorted(set(holders)):
        fns = ctx.prog.fn(qn + "::operator*")
        if not fns:
            continue
        fn = fns[0]
        r = ctx.run(fn)
        vals = [P(x.val) for x in rets(r)]
        field = None
        shape = []
        for v in vals:
            m = [x for x in T.subterms(v) if isinstance(x, tuple) and x[:1] == ("fld",) and x[1] == ("this",)]
            field = m[0] if m else field
            shape.append(v)
        is_proj = any("knp::core::Projection<" in (f["ty"] or "") or "ProjectionWrapper" in f["ty"] for rec in
                      ctx.prog.records.values() if rec["qn"] == qn for f in rec["f"])
        if is_proj != (kind == "projections"):
            continue
        found += 1
        name = "%s/walk/%s" % (unit, kind)
        want = {("deref", field), ("fld", ("deref", field), wrapped)} if wrapped else {("deref", field)}
        ctx.ob(name + "/value", field and shape and all(v in want and (not wrapped or v[:1] == ("fld",)) for v in shape),
               where(fn), "the walk yields the stored element itself", "; ".join(S(v)[:100] for v in shape))
        for fn in ctx.prog.fn(qn + "::operator++")[:1]:
            r = ctx.run(fn)
            ws = [e for e in r.events if e.kind == "write" and P(e.loc) == field]
            one = len(ws) == 1 and not guards(ws[0]) and not ws[0].loops and \
                S(ws[0].val) in ("(%s + 1)" % S(field), "next(%s)" % S(field), "next(%s, 1)" % S(field))
            ctx.ob(name + "/next", one, where(fn), "each step of the walk moves on by one element",
                   "; ".join(S(w.val)[:80] for w in ws) or "position never changed")
        for fn in ctx.prog.fn(qn + "::operator==")[:1]:
            r = ctx.run(fn)
            vs = [P(x.val) for x in rets(r)]
            good = [v for v in vs if v[:1] == ("eq",) and field in T.subterms(v) and
                    any(isinstance(x, tuple) and x[:1] == ("fld",) and x[-1] == field[-1] and x != field
                        for x in T.subterms(v))]
            rest = [v for v in vs if v not in good]
            ctx.ob(name + "/end", good and all(v == T.FALSE or any(g in T.subterms(v) for g in good) and
                                               v[:1] == ("and",) for v in rest), where(fn),
                   "two positions of the walk are equal exactly when they point at the same element",
                   "; ".join(S(v)[:80] for v in vs))
    ctx.floor(unit + " iterators over " + kind, found, 1)


@check("B04", ["st"])
def b04_st(ctx):
    carry(ctx, "st")


@check("B04", ["mt"])
def b04_mt(ctx):
    carry(ctx, "mt")


def carry(ctx, unit):
    n = 0
    for kind in KINDS:
        for m in ("load_", "load_all_"):
            for fn in ctx.prog.fn(NAMES[unit] + "::" + m + kind):
                load(ctx, unit, fn, kind)
                n += 1
        gives_back(ctx, unit, kind)
        iterators(ctx, unit, kind)
    ctx.floor(unit + " load functions", n, 4)
    s = step(ctx, unit)
    for e in s.r.events:
        if e.kind == "throw" and not e.locks and e.guards is not None:
            rest = [g for q in guards(e) for g in interp.conj(q) if g[:1] != ("alt",)]
            if not rest and not (e.tries or ()):
                ctx.ob("%s/runs/%s" % (unit, S(("and",) + tuple(sorted(guards(e), key=repr)))[:120]), False, ewhere(e),
                       "an element of a supported type can be stepped", "always throws")
    ctx.ob(unit + "/runs", True, "", "no supported type is rejected during a step")
