"""Message handlers: winner-takes-all and union (F05)."""
from .. import interp
from .. import terms as T
from ..lib import Bulk, P, S, appends, bulks, check, ewhere, guards, mutations, this, where
from .backend import plus
from .network import conds, norm, parameter
from .wiring import complete, lv, replace

MOD = "knp::framework::modifier::"


class View:
    """The run with locals that are copies named after their source and local containers named after the variable."""

    def __init__(self, ctx, fn):
        self.fn = fn
        self.r = ctx.run(fn)
        self.copies, self.made = {}, {}
        for e in self.r.events:
            if e.kind == "decl" and e.loc is not None and e.val is not None:
                v, x = P(e.loc), P(e.val)
                if x[:1] == ("new",):
                    old = self.made.get(x) if len(x) > 2 and x[2] else None
                    if len(x) > 2 and x[2]:
                        self.made[x] = v
                    if old is not None and old != v and old[2][:1] != v[2][:1]:
                        self.copies[old] = v        # returned by the function that made it
                else:
                    self.copies.setdefault(v, x)

    def __call__(self, t, again=3):
        t = lv(norm(t))
        for new, v in self.made.items():
            t = replace(t, new, v)
        for v, x in self.copies.items():
            if T.mentions(t, v) and not T.mentions(x, v):
                t = replace(t, v, lv(norm(x)))
        n = lv(t)
        return n if not again or n == t and again < 3 else self(n, again - 1)

    def conds(self, gs):
        out = set()
        for g in gs:
            for c in interp.conj(self(g)):
                out |= flat(c)
        return out

    def source(self, v):
        for e in self.r.events:
            if e.kind == "decl" and e.loc is not None and P(e.loc) == v:
                return P(e.val)
        return None


def transfers(view):
    """`bulks` with the names of the view."""
    out = bulks(view.r)
    have = {b.ix for b in out}
    for e in view.r.events:
        if e.kind == "call" and e.obj is not None and e.name in ("push_back", "emplace_back", "insert", "emplace") and e.args and \
                e.ix not in have and e.loops and not (e.meta or {}).get("inroot"):
            v = view(e.args[-1])
            lp = e.loops[-1]
            if v[:1] == ("elem",) and lp.kind == "foreach" and not lp.early and view(lp.over) == v[1]:
                out.append(Bulk(e, v[1], P(e.obj), e.loops[:-1]))
    return out


def flat(c):
    """Conjuncts of a condition, negated disjunctions included."""
    if c[:1] == ("and",):
        return set().union(*[flat(x) for x in c[1:]])
    if c[:1] == ("not",) and isinstance(c[1], tuple) and c[1][:1] == ("or",):
        return set().union(*[flat(T.neg(x)) for x in c[1][1:]])
    return {c}


def cases(view, v, cs):
    """[(value, conditions)] a conditional value stands for."""
    v = view(v)
    if v[:1] == ("ite",):
        a = cases(view, v[2], cs | flat(v[1]))
        b = cases(view, v[3], cs | flat(T.neg(v[1])))
        return a + b
    return [(v, cs)]


def ways(c):
    """Alternatives under which a condition holds."""
    if c[:1] == ("not",) and isinstance(c[1], tuple) and c[1][:1] == ("and",):
        return [T.neg(x) for x in c[1][1:]]
    if c[:1] == ("or",):
        return list(c[1:])
    return [c]


def linear(t):
    return {k: v for k, v in plus(t).items() if v}


def less(a, b):
    """a - b as a linear form."""
    d = dict(linear(a))
    for k, v in linear(b).items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}


class Sample:
    """Where `count` elements are drawn from `pool` without drawing one twice."""

    def __init__(self, e, out, pool, count, rest):
        self.e, self.out, self.pool, self.count, self.rest = e, out, pool, count, rest


def draws(view):
    """Random draws found in a run: [(Sample or None, event, why)]."""
    r, out = view.r, []
    for e, v, c in appends(r):
        v, c = view(v), view(c)
        if v[:1] != ("at",) or not e.loops or not drawn(view, v[2]):
            continue
        pool, index = v[1], v[2]
        lp = e.loops[-1]
        if lp.kind != "range" or lp.early:
            out.append((None, e, "the draws are not a plain count"))
            continue
        lo, hi, step = [view(x) if isinstance(x, tuple) else x for x in P(lp.over)]
        i = ("idx", lo, hi, step)
        rest = limit(view, index)
        if lo != T.ZERO or step not in (1, ("lit", "1")):
            out.append((None, e, "the draws are counted from %s" % S(lo)))
            continue
        # the pool shrinks from its end: the last element left takes the place of the drawn one
        last = None
        for w in r.events:
            if w.kind == "write" and w.ix > e.ix and w.loops[:len(e.loops)] == e.loops and view(w.loc) == ("at", pool, index) and \
                    not (view.conds(w.guards) - view.conds(e.guards)):
                last = view(w.val)
        gone = any(w.kind == "call" and w.name == "pop_back" and w.obj is not None and view(w.obj) == pool and
                   w.loops == e.loops and w.ix > e.ix for w in r.events)
        erased = any(w.kind == "call" and w.name == "erase" and w.obj is not None and view(w.obj) == pool and
                     w.loops == e.loops and w.ix > e.ix and len(w.args) == 1 and
                     less(offset(view(w.args[0]), pool), index) == {} for w in r.events)
        left = ("size", pool) if gone or erased else ("bin", "-", ("size", pool), i)
        end = ("back", pool) if gone else ("at", pool, ("bin", "-", left, ("lit", "1")))
        if rest is None or less(rest, left):
            out.append((None, e, "drawn from the first %s elements, not from those left" % (S(rest) if rest else "?")))
        elif not erased and not same_place(last, end):
            out.append((None, e, "a drawn element can be drawn again"))
        else:
            out.append((Sample(e, c, pool, hi, rest), e, ""))
    for e in r.events:
        if e.kind == "call" and e.qn == "std::sample" and len(e.args) == 5:
            a = [view(x) for x in e.args]
            if a[0][:1] == ("begin",) and a[1] == ("end", a[0][1]) and a[2][:2] == ("call", "std::back_inserter"):
                out.append((Sample(e, a[2][2][0], a[0][1], a[3], None), e, ""))
    return out


def offset(it, pool):
    if it[:1] == ("call",) and str(it[1]).endswith("operator+") and it[2][0] == ("begin", pool):
        return it[2][1]
    if it[:2] == ("bin", "+") and it[2] == ("begin", pool):
        return it[3]
    return ("?",)


def same_place(a, b):
    if a is None:
        return False
    if a == b:
        return True
    return a[:1] == ("at",) and b[:1] == ("at",) and a[1] == b[1] and not less(a[2], b[2])


def drawn(view, t):
    return any(x[:2] == ("call", "std::uniform_int_distribution::operator()") or
               len(x) > 1 and x[:1] == ("call",) and "mersenne_twister" in str(x[1]) for x in T.subterms(t) if len(x) > 1)


def limit(view, index):
    """How many values the random index can take, from 0 on."""
    if index[:2] == ("bin", "%") and drawn(view, index[2]) and not drawn(view, index[3]):
        return index[3]
    if index[:2] == ("call", "std::uniform_int_distribution::operator()"):
        d = index[2][0]
        made = view.source(d) if d[:1] == ("var",) else d
        if len(index[2]) > 2 and view(index[2][2])[:1] == ("new",):
            made = index[2][2]
        if made is not None and made[:1] == ("new",) and len(made[2]) == 2 and view(made[2][0]) == T.ZERO:
            return ("bin", "+", view(made[2][1]), ("lit", "1"))
    return None


@check("F05", ["fw"])
def f05(ctx):
    n = 0
    for fn in ctx.prog.fn(MOD + "KWtaRandomHandler::operator()"):
        winners(ctx, fn)
        n += 1
    for fn in ctx.prog.fn(MOD + "KWtaPerGroup::operator()"):
        per_group(ctx, fn)
        n += 1
    for fn in ctx.prog.fn(MOD + "GroupWtaRandomHandler::operator()"):
        best_groups(ctx, fn)
        n += 1
    for fn in ctx.prog.fn(MOD + "SpikeUnionHandler::operator()"):
        union(ctx, fn)
        n += 1
    for cls in ("KWtaPerGroup", "GroupWtaRandomHandler"):
        for fn in ctx.prog.fn("%s%s::%s" % (MOD, cls, cls)):
            if fn.params and "vector" in fn.ptype(0):
                sorted_borders(ctx, fn, cls)
                n += 1
    for fn in ctx.prog.fn("knp::framework::projection::add_wta_handlers"):
        registered(ctx, fn)
        n += 1
    ctx.floor("handlers", n, 7)


def spikes_of(fn):
    return ("fld", ("at", parameter(fn, 0), T.ZERO), "neuron_indexes_")


def enough(pool, n):
    """Conditions that say the pool has no more than n elements."""
    return ({T.neg(("lt", n, ("size", pool)))}, {("lt", ("size", pool), n)}, {T.eq(("size", pool), n)}, {("empty", pool)})


def too_many(pool, n):
    return ({("lt", n, ("size", pool))}, {T.neg(("lt", ("size", pool), n))})


def has(cs, options):
    return any(o <= cs for o in options)


def one_draw(ctx, view, key, pool, n):
    ds = draws(view)
    ok = len(ds) == 1 and ds[0][0] is not None
    s = ds[0][0] if ok else None
    if ok:
        ok = s.pool == pool and s.count == n
    ctx.ob(key + "/draw", ok, ewhere(ds[0][1]) if ds else where(view.fn),
           "the winners are drawn at random, as many as allowed, none twice",
           "; ".join(w or "from %s, %s times" % (S(d.pool)[:50], S(d.count)[:50]) for d, _, w in ds) if ds else "no draw without repetition found")
    if s is not None:
        others = [e for e, v, c in appends(view.r, None) if view(c) == s.out and e is not s.e]
        ctx.ob(key + "/only", not others, where(view.fn), "the winners are only what was drawn", "%d other insertions" % len(others))
    return s


def winners(ctx, fn):
    view = View(ctx, fn)
    n, all_ = this("num_winners_"), spikes_of(fn)
    none = ("empty", parameter(fn, 0))
    s = one_draw(ctx, view, "kwta", all_, n)
    bad = []
    for st, v, line in view.r.exits:
        for v, cs in cases(view, v, view.conds(st.guards)):
            if v == all_:
                ok = has(cs, enough(all_, n)) and T.neg(none) in cs
            elif s is not None and v == s.out:
                ok = has(cs, too_many(all_, n)) and T.neg(none) in cs
            elif v[:1] == ("new",) and not v[2]:
                ok = none in cs or ("empty", all_) in cs or T.eq(n, T.ZERO) in cs
            else:
                ok = False
            if not ok:
                bad.append("%s when %s" % (S(v)[:60], ", ".join(S(c)[:60] for c in sorted(cs, key=repr))))
    ctx.ob("kwta/result", not bad, where(fn),
           "all spikes win when there are no more than winners, otherwise the drawn ones; no message gives no winners", "; ".join(bad))


def group_table(ctx, view, key, n):
    """The groups of the spikes: table variable, or None."""
    fn, r = view.fn, view.r
    all_, borders = spikes_of(fn), this("group_borders_")
    el = ("elem", all_)
    puts = []
    for e, v, c in appends(r):
        v, c = view(v), view(c)
        if c[:1] == ("at",) and v == el:
            puts.append((e, c))
    ok = len(puts) == 1
    why = "%d insertions into groups" % len(puts)
    t = None
    if ok:
        e, c = puts[0]
        t = c[1]
        base = {T.neg(("empty", parameter(fn, 0))), T.neg(("empty", all_)), T.neg(T.eq(n, T.ZERO)),
                T.neg(("lt", ("size", borders), n))}
        cs = {c2 for g in e.guards for w in [view(g)] for c2 in flat(w)} - base
        ok = rank(c[2], borders, el) and len(e.loops) == 1 and e.loops[0].kind == "foreach" and not e.loops[0].early and \
            view(e.loops[0].over) == all_ and not cs
        why = "spike goes to group %s%s" % (S(c[2])[:120], " when " + ", ".join(S(x)[:60] for x in cs) if cs else "")
        d = view.source(t) if t[:1] == ("var",) else None
        size = d[2][0] if d and d[:1] == ("new",) and d[2] else None
        for w in r.events:
            if w.kind == "call" and w.name == "resize" and w.obj is not None and P(w.obj) == t and w.ix < e.ix:
                size = w.args[0]
        ctx.ob(key + "/groups", size is not None and less(view(size), ("bin", "+", ("size", borders), ("lit", "1"))) == {}, where(fn),
               "there is one group below each border and one above the last", S(view(size)) if size is not None else "?")
    ctx.ob(key + "/grouping", ok, ewhere(puts[0][0]) if puts else where(fn),
           "every spike belongs to the group between its two neighbouring borders, a border to the group above it", why)
    return t


def rank(t, borders, el):
    first, search = None, None
    if t[:2] == ("bin", "-"):
        search, first = t[2], t[3]
    elif t[:1] == ("call",) and str(t[1]).endswith("operator-"):
        search, first = t[2]
    elif t[:2] == ("call", "std::distance"):
        first, search = t[2]
    else:
        return False
    return first == ("begin", borders) and search[:2] == ("call", "std::upper_bound") and \
        search[2][:3] == (("begin", borders), ("end", borders), el) and \
        (len(search[2]) == 3 or search[2][3] == ("lt", el, ("elem", borders)))


def per_group(ctx, fn):
    view = View(ctx, fn)
    n = this("winners_per_group_")
    t = group_table(ctx, view, "per-group", n)
    if t is None:
        return
    group = ("elem", t)
    s = one_draw(ctx, view, "per-group", group, n)
    outs = {}
    for st, v, line in view.r.exits:
        for v, cs in cases(view, v, view.conds(st.guards)):
            if v[:1] == ("new",) and not v[2]:
                ok = ("empty", parameter(fn, 0)) in cs or ("empty", spikes_of(fn)) in cs or T.eq(n, T.ZERO) in cs
                ctx.ob("per-group/empty", ok, where(fn), "no winners are returned only when there are no spikes", S(v))
            else:
                outs[v] = cs
    ctx.ob("per-group/one-result", len(outs) == 1, where(fn), "the winners of all groups are returned together", "%d results" % len(outs))
    if len(outs) != 1:
        return
    out = list(outs)[0]
    got = {}
    for b in transfers(view):
        if view(b.dst) != out:
            continue
        for v, cs in cases(view, b.src, view.conds(b.guards)):
            got.setdefault("draw" if s is not None and v == s.out else "all" if v == group else S(v), []).append((b.e, cs))
    if s is not None and s.out == out:
        got["draw"] = [(s.e, view.conds(s.e.guards))]
    ok = set(got) == {"draw", "all"} and all(len(x) == 1 for x in got.values())
    if ok:
        e, cs = got["draw"][0]
        ok = has(cs, too_many(group, n)) and over_groups(view, e, t, n)
        e, cs = got["all"][0]
        ok = ok and has(cs, enough(group, n)) and over_groups(view, e, t, n)
    ctx.ob("per-group/result", ok, where(fn),
           "every group contributes its spikes when there are no more than winners, otherwise the drawn ones",
           "contributed: " + ", ".join(sorted(got)))


def over_groups(view, e, t, n):
    """The event happens for every group."""
    lp = e.loops[0] if e.loops else None
    if lp is None or lp.early or lp.kind != "foreach" or view(lp.over) != t:
        return False
    group = ("elem", t)
    base = {T.neg(("empty", parameter(view.fn, 0))), T.neg(("empty", spikes_of(view.fn))), T.neg(T.eq(n, T.ZERO)),
            T.neg(("empty", group)), T.eq(n, ("size", group))}
    for o in enough(group, n) + too_many(group, n):
        base |= o
    return not (view.conds(e.guards) - base)


def best_groups(ctx, fn):
    view = View(ctx, fn)
    r, n, all_ = view.r, this("num_winners_"), spikes_of(fn)
    t = group_table(ctx, view, "best", n)
    if t is None:
        return
    more = ("lt", ("size", ("elem2", t)), ("size", ("elem", t)))
    order = []
    for e in r.events:
        if e.kind != "call":
            continue
        a = [view(x) for x in e.args or ()]
        if e.qn in ("std::sort", "std::stable_sort"):
            order.append((e, "sort", a[:2] == [("begin", t), ("end", t)] and compares(view, e, more), e.qn))
        elif e.qn == "std::shuffle":
            order.append((e, "shuffle", a[:2], e.qn))
    sorts = [x for x in order if x[1] == "sort"]
    ok = len(sorts) == 1 and sorts[0][2] and not sorts[0][0].loops
    ctx.ob("best/sorted", ok, ewhere(sorts[0][0]) if sorts else where(fn), "the groups are ordered by their number of spikes, most first",
           "%d sorts%s" % (len(sorts), "" if not sorts else " with another order"))
    shuffles = [x for x in order if x[1] == "shuffle"]
    ok, why = len(shuffles) == 1, "%d shuffles" % len(shuffles)
    if ok:
        e, _, span, _ = shuffles[0]
        why = "shuffled: " + ", ".join(S(x)[:100] for x in span)
        if span == [("begin", t), ("end", t)]:
            ok = bool(sorts) and e.ix < sorts[0][0].ix and sorts[0][3] == "std::stable_sort" or bool(sorts) and e.ix < sorts[0][0].ix
        else:
            kth = ("at", t, ("bin", "-", n, ("lit", "1")))
            ok = bool(sorts) and e.ix > sorts[0][0].ix and ties(span, t, kth)
    ctx.ob("best/ties", ok, ewhere(shuffles[0][0]) if shuffles else where(fn),
           "groups with as many spikes as the last winner are put in random order", why)
    outs = {}
    for st, v, line in r.exits:
        for v, cs in cases(view, v, view.conds(st.guards)):
            if v[:1] == ("new",) and not v[2]:
                ws = {w for c in cs for w in ways(c)}
                ok = all_in(ws, {("empty", parameter(fn, 0)), T.eq(n, T.ZERO), ("empty", all_)})
                ctx.ob("best/empty", ok, where(fn), "no winners are returned only when there is nothing to choose from",
                       ", ".join(S(c)[:80] for c in cs))
            elif v == all_:
                b = ("size", this("group_borders_"))
                ctx.ob("best/all", ("lt", b, n) in cs or T.neg(("lt", n, ("bin", "+", b, ("lit", "1")))) in cs, where(fn),
                       "all spikes are returned only when every group wins", ", ".join(S(c)[:80] for c in cs))
            else:
                outs[v] = cs
    got = []
    for b in transfers(view):
        if len(outs) == 1 and view(b.dst) in outs:
            src = view(b.src)
            ls = b.loops
            good = len(ls) == 1 and ls[0].kind == "range" and not ls[0].early
            if good:
                lo, hi, step = [view(x) if isinstance(x, tuple) else x for x in P(ls[0].over)]
                good = (lo, hi) == (T.ZERO, n) and src == ("at", t, ("idx", lo, hi, step)) and \
                    all(b.e.ix > x[0].ix for x in order)
            got.append(good)
    ctx.ob("best/result", got == [True], where(fn), "the spikes of the first groups, as many as win, are returned", "%d transfers" % len(got))


def all_in(ws, ok):
    """The conditions include one of `ok` (a disjunction of only such is one)."""
    return bool(ws & ok)


def compares(view, e, want):
    v = [x for x in view.r.events if x.kind == "ret" and x.loops[-1:] and getattr(x.loops[-1], "alg", None) == e.qn and
         x.ix > e.ix]
    return bool(v) and view(v[0].val) == want


def ties(span, t, kth):
    first = ("lt", ("size", kth), ("size", ("elem", t)))        # elements before the range
    second = ("lt", ("size", ("elem", t)), ("size", kth))       # elements after the range
    out = []
    for i, x in enumerate(span):
        if x[:1] == ("get",) and x[1] == str(i) and x[2][:2] == ("call", "std::equal_range"):
            a = x[2][2]
            out.append(a[:3] == (("begin", t), ("end", t), kth) and a[3] in (first, second))
        elif i == 0 and x[:2] == ("call", "std::lower_bound"):
            out.append(x[2][:3] == (("begin", t), ("end", t), kth) and x[2][3] == first)
        elif i == 1 and x[:2] == ("call", "std::upper_bound"):
            out.append(x[2][1:3] == (("end", t), kth) and x[2][3] == second)
        else:
            out.append(False)
    return out == [True, True]


def union(ctx, fn):
    view = View(ctx, fn)
    ms = parameter(fn, 0)
    idx = ("fld", ("elem", ms), "neuron_indexes_")
    sets = {}
    for e in view.r.events:
        if e.kind == "decl" and e.val is not None and P(e.val)[:1] == ("new",):
            sets[P(e.loc)] = P(e.val)[1]
    ins = []
    for b in transfers(view):
        if view(b.src) == idx:
            ok = len(b.loops) == 1 and b.loops[0].kind == "foreach" and not b.loops[0].early and view(b.loops[0].over) == ms
            ins.append((b, ok and not (view.conds(b.guards) - {T.neg(("empty", ms)), T.neg(("empty", idx))})))
    ok = len(ins) == 1 and ins[0][1]
    ctx.ob("union/all", ok, ewhere(ins[0][0].e) if ins else where(fn), "the spikes of every message are collected",
           "%d collections" % len(ins))
    if not ok:
        return
    dst = P(ins[0][0].dst)
    kind = sets.get(dst, "")
    single = kind.startswith(("std::set", "std::unordered_set"))
    if not single:
        seen = [(e.qn, [view(a) for a in e.args or ()]) for e in view.r.events if e.kind == "call" and e.ix > ins[0][0].ix and not e.loops]
        s = [i for i, (q, a) in enumerate(seen) if q == "std::sort" and a[:2] == [("begin", dst), ("end", dst)] and len(a) == 2]
        u = [i for i, (q, a) in enumerate(seen) if q == "std::unique" and a[:2] == [("begin", dst), ("end", dst)]]
        x = [i for i, (q, a) in enumerate(seen) if (q or "").endswith("::erase") and a and a[0][:2] == ("call", "std::unique") and
             a[1:] == [("end", dst)]]
        single = bool(s and u and x and s[0] < u[0] < x[0])
    ctx.ob("union/once", single, where(fn), "a neuron that spiked in several messages is returned once", "collected in %s" % kind[:60])
    cut = [e for e in mutations(view.r, dst) if e.ix != ins[0][0].ix and e.name not in ("reserve", "unique", "sort", "insert") and
           not (e.name == "erase" and view(e.args[0])[:2] == ("call", "std::unique"))]
    ctx.ob("union/kept", not cut, ewhere(cut[0]) if cut else where(fn), "no collected spike is dropped", "changed by " + ", ".join(
        str(e.name) for e in cut))
    for st, v, line in view.r.exits:
        v = P(v)
        whole = v == dst or any(P(b.dst) == v and P(b.src) == dst and not b.loops and not (
            view.conds(b.guards) - view.conds(st.guards)) for b in transfers(view)) or \
            v[:1] == ("new",) and v[2][:2] == (("begin", dst), ("end", dst)) or \
            v[:1] == ("var",) and (view.source(v) or ())[:1] == ("new",) and view.source(v)[2][:2] == (("begin", dst), ("end", dst)) or \
            v[:1] == ("new",) and ("empty", ms) in view.conds(st.guards)
        ctx.ob("union/result", whole, where(fn), "all collected spikes are returned", S(v)[:100])


def sorted_borders(ctx, fn, cls):
    r = ctx.run(fn)
    b = this("group_borders_")
    src = parameter(fn, 0)
    s = [e for e in r.events if e.kind == "call" and e.qn in ("std::sort", "std::stable_sort") and
         [norm(a) for a in e.args] in ([("begin", b), ("end", b)], [("begin", src), ("end", src)]) and not guards(e)]
    w = [e for e in r.events if e.kind == "write" and P(e.loc) == b]
    ok = len(s) >= 1 and all(e.ix < s[0].ix for e in w) and any(norm(e.val) == src for e in w)
    ctx.ob("borders/" + cls, ok, where(fn), "the group borders are kept sorted", "not all of the given borders, sorted")


def registered(ctx, fn):
    add = "knp::framework::ModelExecutor::add_spike_message_handler"
    r = ctx.run(fn, opaque=lambda m, f: m["qn"] == add, okey="wta")
    data, borders, count = parameter(fn, 3), parameter(fn, 2), parameter(fn, 1)
    each = ("elem", data)
    adds = [e for e in r.events if e.kind == "call" and e.qn == add]
    ok = len(adds) == 1 and complete(adds[0], data) and not guards(adds[0])
    ctx.ob("register/every", ok, ewhere(adds[0]) if adds else where(fn), "one handler is added for every pair of senders and receivers",
           "%d additions" % len(adds))
    if not ok:
        return
    e = adds[0]
    a = [norm(x) for x in e.args]
    made = [x for x in r.events if x.kind in ("ctor", "enter") and (x.qn or "").endswith("KWtaPerGroup::KWtaPerGroup") and
            len(x.args) >= 2 and x.ix < e.ix]
    ok = len(made) >= 1 and [norm(x) for x in made[0].args[:2]] == [borders, count]
    ctx.ob("register/handler", ok, ewhere(e), "the handler has the given borders and number of winners",
           "; ".join(", ".join(S(norm(x))[:50] for x in m.args) for m in made) or S(a[0])[:100])
    half = lambda t, k: t in (("fld", each, ("first", "second")[k]), ("get", str(k), each))
    ctx.ob("register/peers", half(a[1], 0) and half(a[2], 1), ewhere(e), "it receives from the senders and sends to the receivers",
           ", ".join(S(x)[:80] for x in a[1:3]))
    kept = [(x, c) for x, v, c in appends(r) if len(x.loops) == 1 and complete(x, data) and not guards(x)]
    outs = {P(x) for s, v, _ in r.exits for x in T.alts(v)} | {P(e.val) for e in r.events if e.kind == "moved" and e.val is not None}
    same = [x for x, c in kept if P(c) in outs and e.raw and x.raw and P(x.raw[-1]) == P(e.raw[3])] if len(e.args) > 3 else []
    ctx.ob("register/uids", len(same) == 1 and same[0].ix > e.ix, ewhere(e), "the UID of every handler is returned",
           "%d of them kept" % len(kept))
