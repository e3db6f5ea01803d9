"""Network validators (F09)."""
from .. import terms as T
from ..lib import P, S, appends, check, ewhere, must, this, where
from .metrics import Names, sign
from .network import parameter, uid_of
from .wiring import loop_conds, replace

NS = "knp::framework::network_validation::"
KINDS = {"population": ("population_validators_", "populations_"), "projection": ("projection_validators_", "projections_"),
         "network": ("network_validators_", None)}


@check("F09", ["fw"])
def f09(ctx):
    n = 0
    for fn in ctx.prog.fn(NS + "Executor::add_validator"):
        register(ctx, fn)
        n += 1
    ctx.floor("registrations of validators", n, 6)
    m = 0
    for fn in ctx.prog.fn(NS + "Executor::run_validators"):
        execute(ctx, fn)
        m += 1
    for fn in ctx.prog.fn(NS + "Connectivity::operator()"):
        connectivity(ctx, fn)
        m += 1
    ctx.floor("validation", m, 2)


def kind_of(fn):
    t = fn.ptype(len(fn.params) - 1)
    return next(k for k, x in (("population", "Population"), ("projection", "Projection"), ("network", "Network")) if x in t)


def register(ctx, fn):
    kind = kind_of(fn)
    store = this(KINDS[kind][0])
    named = len(fn.params) == 2
    key = "add/%s/%s" % (kind, "named" if named else "unnamed")
    r = ctx.run(fn)
    n = Names(r)
    last = parameter(fn, len(fn.params) - 1)
    puts = []
    for e in r.events:
        if e.kind == "write" and P(e.loc)[:1] == ("at",) and P(e.loc)[1] == store:
            puts.append((e, P(e.loc)[2], n(P(e.val))))
        elif e.kind == "call" and e.obj is not None and P(e.obj) == store and e.name in ("emplace", "insert", "insert_or_assign", "try_emplace"):
            a = [n(x) for x in e.args]
            if len(a) == 1 and a[0][:1] == ("tuple",):
                a = list(a[0][1])
            if len(a) == 2:
                puts.append((e, a[0], a[1]))
    others = [e for e in r.events if e.kind == "write" and P(e.loc)[:1] == ("at",) and P(e.loc)[1][:2] == ("fld", ("this",)) and
              P(e.loc)[1] != store]
    why = []
    if len(puts) != 1 or others:
        why.append("%d places store it" % (len(puts) + len(others)))
    for e, k, v in puts:
        if v[:1] == ("tuple",):
            name, what = v[1]
        elif v[:1] in (("obj",), ("new",), ("agg",)) and len(v) > 2 and len(v[2]) == 2:
            name, what = [x[1] if v[0] == "agg" else x for x in v[2]]
        else:
            why.append("stores " + S(v)[:120])
            continue
        if what != last:
            why.append("the validator stored is " + S(what)[:120])
        if named and name != parameter(fn, 0):
            why.append("the name stored is " + S(name)[:120])
        if e.loops or any(not must(e, s) for s, _, _ in r.exits):
            why.append("not always stored")
        if any(uid_of(n(x)) != uid_of(n(P(k))) and n(x) != n(P(k)) for _, x, _ in r.exits):
            why.append("returns %s, stores it under %s" % (S(r.exits[0][1])[:80], S(k)[:80]))
    fresh = [e for e in r.events if e.kind == "call" and "random_generator" in (e.qn or "")]
    if len(fresh) != 1:
        why.append("%d new UIDs are made" % len(fresh))
    ctx.ob(key, not why, where(fn), "the validator is stored, with its name, under the new UID that is returned", "; ".join(why))


def execute(ctx, fn):
    r = ctx.run(fn)
    n = Names(r)
    net = parameter(fn, 0)
    outs = set()
    for kind, (store, items) in KINDS.items():
        v = ("elem", this(store))
        arg = net if items is None else ("elem", ("fld", net, items))
        f = ("get", "1", ("get", "1", v))
        cs = [e for e in r.events if e.kind == "call" and e.name == "operator()" and e.obj is not None and n(P(e.obj)) == f]
        why = [] if len(cs) == 1 else ["%d places run them" % len(cs)]
        for e in cs:
            if n(e.args[0]) != arg:
                why.append("given " + S(n(e.args[0]))[:100])
            want = [this(store)] + ([("fld", net, items)] if items else [])
            why += iterated(n, e, want, {T.neg(("empty", this(store)))} | ({T.neg(("empty", ("fld", net, items)))} if items else set()))
            res = ("call", "std::function::operator()", (f, arg))
            puts = [(p, n(x), n(c)) for p, x, c in appends(r) if T.mentions(n(x), res)]
            if len(puts) != 1:
                why.append("%d results kept" % len(puts))
            for p, x, c in puts:
                outs.add(c)
                m = dict(x[2]) if x[:1] == ("agg",) else {}
                if m.get("uid_") != ("get", "0", v) or m.get("validator_name_") != ("get", "0", ("get", "1", v)) or m.get("report_") != res:
                    why.append("keeps " + S(x)[:200])
                if p.loops != e.loops or n.conds(p.guards) - n.conds(e.guards) - raised(n, r, e, p):
                    why.append("the result is not always kept")
        ctx.ob("run/" + kind, not why, ewhere(cs[0]) if cs else where(fn),
               "every %s validator is run once on every %s and its report is kept under its UID and name" % (kind, kind), "; ".join(why))
    got = [n(v) for _, v, _ in r.exits]
    ctx.ob("run/result", len(outs) == 1 and bool(got) and all(T.mentions(v, next(iter(outs))) for v in got), where(fn),
           "all reports are returned", "%d lists" % len(outs))


def raised(n, r, e, p):
    """Conditions a path satisfies because the other one threw in between."""
    out = set()
    for t in r.events:
        if t.kind == "throw" and e.ix < t.ix < p.ix:
            out |= {T.neg(c) for c in n.conds(t.guards)}
    return out


def iterated(n, e, want, allowed):
    """Why the event does not happen once for every element of every container of `want`."""
    why = []
    overs = [n(lp.over) if lp.kind == "foreach" else None for lp in e.loops]
    if sorted(map(repr, overs)) != sorted(map(repr, want)):
        why.append("run for each of %s" % [S(x) if x else "?" for x in overs])
    if any(lp.early for lp in e.loops):
        why.append("the loop may end early")
    more = n.conds(e.guards) - allowed
    for lp in e.loops:
        more |= n.conds(loop_conds(lp)) - allowed if lp.kind != "foreach" else set()
    more = {c for c in more if c[:1] != ("alt",)}
    if more:
        why.append("only if " + "; ".join(S(c)[:100] for c in more))
    return why


def connectivity(ctx, fn):
    r = ctx.run(fn)
    n = Names(r)
    net = parameter(fn, 0)
    pops, projs = ("fld", net, "populations_"), ("fld", net, "projections_")
    pop, proj = ("elem", pops), ("elem", projs)
    ends = {"pre": ("fld", proj, "presynaptic_uid_"), "post": ("fld", proj, "postsynaptic_uid_")}

    def nil(c):
        """(end, the condition says that the projection has no such end)."""
        t, k = sign(c)
        if t[:1] == ("call",) and t[1].endswith("::is_nil"):
            u = uid_of(t[2][0])
            for name, x in ends.items():
                if u == x:
                    return name, k
        return None

    issues = {}
    for e, v, c in appends(r):
        v = n(v)
        if v[:1] != ("agg",) or not v[1].endswith("::Issue"):
            continue
        m = dict(v[2])
        code = m["code_"][2][0] if m["code_"][:1] == ("new",) and m["code_"][2] else ()
        issues.setdefault(code[1].rsplit("::", 1)[-1] if code[:1] == ("enum",) else S(m["code_"])[:60], []).append((e, m, n(c)))
    unknown = sorted(set(issues) - {"projection_not_connected", "population_not_connected"})
    ctx.ob("connectivity/codes", not unknown, where(fn), "issues have the codes of the validator", ", ".join(unknown))
    lists = {c for x in issues.values() for _, _, c in x}
    ctx.ob("connectivity/report", len(lists) == 1 and all(T.mentions(n(v), next(iter(lists))) for _, v, _ in r.exits), where(fn),
           "all issues are in the report", "%d lists" % len(lists))
    # projections
    why = []
    hits = issues.get("projection_not_connected", [])
    if not hits:
        why.append("never reported")
    for e, m, c in hits:
        cs = {x for x in n.conds(e.guards) if x[:1] != ("alt",)}
        if {nil(x) for x in cs} != {("pre", True), ("post", True)}:
            why.append("reported if " + "; ".join(S(x)[:80] for x in cs))
        if [n(lp.over) if lp.kind == "foreach" and not lp.early else None for lp in e.loops] != [projs]:
            why.append("not for every projection")
        why += named_after(n, r, e, m, {proj, uid_field(proj)})
    ctx.ob("connectivity/projection", not why, ewhere(hits[0][0]) if hits else where(fn),
           "exactly the projections with neither a presynaptic nor a postsynaptic population are reported, as errors", "; ".join(sorted(set(why))))
    # populations
    why = []
    hits = issues.get("population_not_connected", [])
    if len(hits) != 1 and len({e.line for e, _, _ in hits}) != 1:
        why.append("%d places report it" % len(hits))
    for e, m, c in hits:
        if len(e.loops) != 1 or e.loops[0].kind != "foreach" or e.loops[0].early:
            why.append("not for every population")
            continue
        over = n(P(e.loops[0].over))
        seen = ("elem", over)
        if over != pops:
            n.lists.append(over)
        cs = {x for x in n.conds(e.guards) if x[:1] != ("alt",)}
        if over == pops:
            uid = uid_field(seen)
        else:
            uid = ("get", "0", seen)
            full = [w for w in r.events if entry(n, w, over) is not None and entry(n, w, over)[0] == uid_field(pop) and
                    [n(lp.over) if lp.kind == "foreach" and not lp.early else None for lp in w.loops] == [pops] and
                    not {x for x in n.conds(w.guards) if x[:1] != ("alt",)}]
            if not full:
                why.append("not every population is looked at")
            if any(not falsy(entry(n, w, over)[1]) for w in full):
                why.append("a population starts as connected")
            if any(w.ix > x.ix for w in full for x in marks(n, r, over)):
                why.append("marks are made before the populations are listed")
        marked = set()
        for x in cs:
            t, k = sign(x)
            w = mark(n, r, t, k, over, seen, uid, ends, nil)
            if isinstance(w, str):
                why.append(w)
            else:
                marked |= w
        if marked != {"pre", "post"}:
            why.append("populations that are only %s are reported" % " or ".join(sorted({"pre", "post"} - marked)))
        why += named_after(n, r, e, m, {seen, uid})
    ctx.ob("connectivity/population", not why, ewhere(hits[0][0]) if hits else where(fn),
           "exactly the populations no projection comes from or goes to are reported, as errors", "; ".join(sorted(set(why))))


def uid_field(x):
    return ("fld", ("fld", x, "base_"), "uid_")


def entry(n, w, over):
    """(key, value) the event puts in the map."""
    if w.kind == "write" and n(P(w.loc))[:2] == ("at", over):
        return n(P(w.loc))[2], n(P(w.val))
    if w.kind == "call" and w.name in ("emplace", "try_emplace", "insert", "insert_or_assign") and w.obj is not None and n(P(w.obj)) == over:
        a = [n(x) for x in w.args]
        a = list(a[0][1]) if len(a) == 1 and a[0][:1] == ("tuple",) else a
        if len(a) == 2:
            return a[0], a[1]
    return None


def falsy(v):
    return v[:1] == ("tuple",) and all(x == ("lit", "false") for x in v[1]) or v == ("lit", "false")


def marks(n, r, over):
    return [w for w in r.events if w.kind == "write" and T.mentions(n(P(w.loc)), over) and n(P(w.val)) == ("lit", "true")]


def mark(n, r, t, k, over, seen, uid, ends, nil):
    """Ends of projections a condition of a report is about; a text when it is about something else."""
    def ends_of(events):
        out = set()
        for w, u in events:
            name = next((x for x, y in ends.items() if uid_of(u) == y), None)
            cs = {x for x in n.conds(w.guards) if x[:1] != ("alt",)}
            more = [x for x in cs if nil(x) != (name, False)]
            if name is None or more or [lp.kind for lp in w.loops] != ["foreach"] or w.loops[0].early:
                return "marked for %s if %s" % (S(u)[:60], "; ".join(S(x)[:80] for x in more))
            out.add(name)
        return out

    t1 = unmade(t, over, n, r)
    if t1[:1] == ("get",) and not k:                     # a flag of the entry
        path, x = [], t1
        while x[:1] == ("get",) and x != seen:
            path.append(x[1])
            x = x[2]
        if x == seen and path[-1] == "1":
            hits = []
            for w in marks(n, r, over):
                y, p = n(P(w.loc)), []
                while y[:1] == ("get",):
                    p.append(y[1])
                    y = y[2]
                if p == path[:-1] and y[:2] == ("at", over):
                    hits.append((w, y[2]))
            return ends_of(hits)
    if t1[:1] in (("exists",), ("in",), ("haskey",)) and not k or t1[:1] == ("isend",) and k or t1[:1] == ("eq",) and k or \
            t1[:1] in (("call",), ("count",)) and not k or t1[:1] == ("truth",):
        for e in r.events:                               # membership of a set of connected populations
            if e.kind == "call" and e.name in ("insert", "emplace") and e.obj is not None and T.mentions(unmade(t, n(P(e.obj)), n, r), n(P(e.obj))):
                box = n(P(e.obj))
                if T.mentions(t1, uid) or T.mentions(unmade(t, box, n, r), uid):
                    return ends_of([(w, n(w.args[0])) for w in r.events if w.kind == "call" and w.name in ("insert", "emplace") and
                                    w.obj is not None and n(P(w.obj)) == box])
    return "reported if " + ("" if k else "not ") + S(t)[:120]


def unmade(t, box, n, r):
    """The term with the container named where it was empty at first."""
    for e in r.events:
        if e.kind == "decl" and e.loc is not None and n(P(e.loc)) == box and e.val is not None:
            return replace(t, n(P(e.val)) if P(e.val)[:1] != ("new",) else P(e.val), box)
    return t


def named_after(n, r, e, m, wanted):
    """The issue is an error whose message names the object."""
    why = []
    if m["severity_"][:1] != ("enum",) or not m["severity_"][1].endswith("::error"):
        why.append("severity " + S(m["severity_"])[:60])
    msg = n(m["message_"])
    shown = {uid_of(n(a)) for w in r.events if w.kind == "call" and w.name == "operator<<" and w.ix < e.ix and w.loops == e.loops for a in w.args[1:]}
    shown |= {uid_of(x) for x in wanted if T.mentions(msg, x)}
    keep = {uid_of(x) for x in wanted}
    box = e.loops[0].over if e.loops else None
    shown = {uid_of(unmade(x, n(P(box)), n, r)) if box is not None else x for x in shown}
    if not shown & keep:
        why.append("the message does not name it")
    return why
