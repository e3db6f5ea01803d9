"""The network container: unique UIDs, lookups, removal, walking."""
from .. import interp
from .. import terms as T
from ..lib import P, S, appends, check, ewhere, guards, mutations, rets, this, where

NET = "knp::framework::Network"
KINDS = {"population": "populations_", "projection": "projections_"}


def norm(t):
    """Plain term with one spelling of `the search found something`."""
    return canon(P(t))


def canon(t):
    if not isinstance(t, tuple):
        return frozenset(canon(x) for x in t) if isinstance(t, frozenset) else t
    t = tuple(canon(x) for x in t)
    if t[:1] == ("isend",) and len(t) == 3 and isinstance(t[1], tuple) and t[1][:1] == ("findif",) and t[1][1] == t[2]:
        return T.neg(("exists", t[1][1], t[1][2]))
    if t[:1] == ("not",) and len(t) == 2 and isinstance(t[1], tuple) and t[1][:1] == ("not",):
        return t[1][1]
    if t[:1] == ("truth",) and len(t) == 2 and isinstance(t[1], tuple) and t[1][:1] in (("exists",), ("not",), ("eq",)):
        return t[1]
    return t


def under(t, cs):
    """The term on a path where these conditions hold."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("ite",) and len(t) == 4:
        if t[1] in cs:
            return under(t[2], cs)
        if T.neg(t[1]) in cs:
            return under(t[3], cs)
    return tuple(under(x, cs) for x in t)


def uid_of(x):
    """Which object a UID term belongs to: the object itself and the field that holds it."""
    while x[:1] == ("fld",) and x[2] in ("tag", "uid_", "base_"):
        x = x[1]
    # A core object constructed from a UID has that UID (its constructors store their first argument).
    if x[:1] in (("obj",), ("new",)) and len(x) > 2 and len(x[2]) > 1 and x[1].split("<")[0].rsplit("::", 1)[-1] in ("Projection", "Population"):
        return uid_of(x[2][0])
    return x


def same_uid(store, owner):
    """The condition `the visited element has the UID of owner` (owner: a UID or an element that has one)."""
    def f(p):
        if p[:1] != ("eq",):
            return False
        a, b = uid_of(p[1]), uid_of(p[2])
        el = ("elem", store)
        return a == el and b == uid_of(owner) or b == el and a == uid_of(owner)
    return f


def conds(gs):
    return {x for g in gs for x in interp.conj(norm(g))}


def absent(gs, store, match):
    """The path is taken only when no element of the store matches."""
    return any(x[:1] == ("not",) and x[1][:1] == ("exists",) and x[1][1] == store and match(x[1][2]) for x in conds(gs))


def present(gs, store, match):
    return any(x[:1] == ("exists",) and x[1] == store and match(x[2]) for x in conds(gs))


def parameter(fn, i):
    return ("parm", fn.params[i]["n"] or "arg%d" % i, i)


def uid_params(fn):
    return [i for i in range(len(fn.params)) if fn.ptype(i).replace("const ", "").rstrip(" &") == "knp::core::UID"]


def stripped(v):
    """The element a stored value is made of (get<T>, copies and conversions do not matter)."""
    while isinstance(v, tuple) and len(v) > 1:
        if v[0] == "get" and len(v) == 3:
            v = v[2]
        elif v[0] in ("copy", "moved", "cast", "wrap"):
            v = v[-1]
        elif v[0] == "obj" and len(v) > 2 and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == "agg" and len(v[2]) == 1 and v[1].startswith("variant"):
            v = v[2][0][1]
        else:
            break
    return v


@check("F01", ["fw"])
def f01(ctx):
    for kind, field in KINDS.items():
        store = this(field)
        adds = ctx.prog.fn("%s::add_%s" % (NET, kind))
        ctx.floor("add_%s overloads" % kind, len(adds), 3)
        for fn in adds:
            added(ctx, fn, kind, store)
        for fn in ctx.prog.fn("%s::is_%s_exists" % (NET, kind)):
            r = ctx.run(fn)
            match = same_uid(store, parameter(fn, 0))
            vals = [(norm(x.val), guards(x)) for x in rets(r)]
            ok = bool(vals)
            for s, v, _ in r.exits:
                v = norm(v)
                if v == T.TRUE:
                    ok = ok and present(s.guards, store, match)
                elif v == T.FALSE:
                    ok = ok and absent(s.guards, store, match)
                else:
                    ok = ok and v[:1] == ("exists",) and v[1] == store and match(v[2])
            ctx.ob("exists/" + kind, ok, where(fn), "a %s exists exactly when an element with that UID is stored" % kind,
                   "; ".join(S(v)[:140] for v, _ in vals))
        gets = [f for f in ctx.prog.fn("%s::get_%s" % (NET, kind)) if f.params]
        ctx.floor("get_%s overloads" % kind, len(gets), 2)
        for fn in gets:
            r = ctx.run(fn)
            match = same_uid(store, parameter(fn, 0))
            ok = bool(r.exits)
            for s, v, _ in r.exits:
                x = stripped(under(norm(v), conds(s.guards)))
                ok = ok and x[:1] == ("deref",) and x[1][:1] == ("findif",) and x[1][1] == store and match(x[1][2]) and \
                    present(s.guards, store, match)
            ctx.ob("get/" + kind, ok, where(fn), "looking up a UID returns the stored element that has it",
                   "; ".join(S(norm(v))[:140] for _, v, _ in r.exits) or "never returns")
            refused(ctx, r, fn, "get/%s/missing" % kind, store, match)
        for fn in ctx.prog.fn("%s::remove_%s" % (NET, kind)):
            r = ctx.run(fn)
            match = same_uid(store, parameter(fn, 0))
            ms = [e for e in mutations(r, store) if e.name != "shrink_to_fit"]
            ms += [e for e in r.events if e.kind == "write" and e.loc is not None and e not in ms and
                   any(x[:1] == ("findif",) and x[1] == store for x in T.subterms(P(e.loc)))]
            one = len(ms) == 1 and ms[0].name == "erase" and not ms[0].loops
            if one:
                a = [under(norm(x), conds(ms[0].guards)) for x in ms[0].args]
                single = len(a) == 1 and a[0][:1] == ("findif",) and a[0][1] == store and match(a[0][2])
                tail = len(a) == 2 and a[0][:2] == ("call", "std::remove_if") and a[1] == ("end", store) and \
                    match(a[0][2][-1])
                one = single and present(ms[0].guards, store, match) or tail
            ctx.ob("remove/" + kind, one and len(r.exits) >= 1 and all(present(s.guards, store, match) for s, _, _ in r.exits),
                   where(fn), "removing a UID takes the element that has it out of the network, and no other",
                   "; ".join(S(("call", e.name or "write", tuple(P(x) for x in e.args or ())))[:140] for e in ms) or "nothing is removed")
            refused(ctx, r, fn, "remove/%s/missing" % kind, store, match)
        walk(ctx, kind, store)


def refused(ctx, r, fn, key, store, match):
    hit = [x for x in r.throws if absent(x[0].guards, store, match)]
    ctx.ob(key, hit and not any(absent(s.guards, store, match) for s, _, _ in r.exits), where(fn),
           "a UID the network does not hold is reported with an exception", "no exception on that path")


def added(ctx, fn, kind, store):
    r = ctx.run(fn)
    uids = uid_params(fn)
    key = "add/%s/%s" % (kind, "made" if uids else "given")
    new = parameter(fn, 0)
    match = same_uid(store, new)
    puts = [x for x in appends(r) if x[2] == store and x[0].name in ("push_back", "emplace_back")]
    ms = [e for e in mutations(r, store) if e.name != "reserve"]
    good = len(puts) == 1 and len(ms) == 1 and not puts[0][0].loops
    what = good and (T.mentions(puts[0][1], new) if uids else stripped(norm(puts[0][1])) == new or
                     any(x == new for x in T.subterms(stripped(norm(puts[0][1])))))
    ctx.ob(key + "/stored", good and what, where(fn), "adding puts the given element into the network once, at the end",
           "; ".join(S(x[1])[:120] for x in puts) or "nothing is stored")
    ok = bool(r.exits) and all(absent(s.guards, store, match) for s, _, _ in r.exits) and \
        all(absent(e.guards, store, match) for e in ms)
    ctx.ob(key + "/unique", ok, where(fn), "an element is stored only if no stored element has its UID",
           "stored without that condition")
    hit = [x for x in r.throws if present(x[0].guards, store, match)]
    ctx.ob(key + "/refused", bool(hit), where(fn), "a second element with the same UID is refused with an exception",
           "no exception")
    other = [x for x in r.throws if not present(x[0].guards, store, match)]
    ctx.ob(key + "/accepted", not other, where(fn), "an element with a new UID is accepted", "refused on another condition")
    if kind == "projection":
        for e in r.events:
            if e.kind != "log":
                continue
            for x in conds(e.guards):
                n = x[:1] == ("not",)
                y = x[1] if n else x
                if y[:1] == ("exists",) and y[1] == this("populations_"):
                    ctx.ob("add/projection/warning", n, ewhere(e),
                           "a missing population of a new projection is reported when it is missing", "reported when it exists")


def walk(ctx, kind, store):
    for end in ("begin", "end"):
        for fn in ctx.prog.fn("%s::%s_%ss" % (NET, end, kind)):
            r = ctx.run(fn)
            vs = [norm(x.val) for x in rets(r)]
            ctx.ob("walk/%s/%s" % (kind, end), vs and all(v == (end, store) for v in vs), where(fn),
                   "walking the network visits every stored %s" % kind, "; ".join(S(v) for v in vs))
    for fn in ctx.prog.fn("%s::get_%ss" % (NET, kind)):
        vs = [norm(x.val) for x in rets(ctx.run(fn))]
        ctx.ob("walk/%s/all" % kind, vs and all(v == store for v in vs), where(fn),
               "the list of %ss is the stored one" % kind, "; ".join(S(v) for v in vs))
    for fn in ctx.prog.fn("%s::%ss_count" % (NET, kind)):
        vs = [norm(x.val) for x in rets(ctx.run(fn))]
        ctx.ob("walk/%s/count" % kind, vs and all(v == ("size", store) for v in vs), where(fn),
               "the count of %ss is the number of stored ones" % kind, "; ".join(S(v) for v in vs))
