"""Observers and loggers (F06)."""
from .. import terms as T
from ..lib import P, S, appends, check, ewhere, mutations, this, where
from .algebra import equal
from .metrics import Names, sign, text
from .network import norm, parameter, uid_of
from .wiring import loop_conds, lv, replace

NS = "knp::framework::monitoring::"
M = ("parm", "messages", 0)
STEP = None


class Part:
    """The events of a part of a run, with the interface of a run."""

    def __init__(self, r, events, exits):
        self.interp, self.events, self.exits = r.interp, events, exits


class Logger:
    """The registration a logger makes and the events of one call of its observer function."""

    def __init__(self, ctx, fn):
        def opaque(m, f):
            return isinstance(m, dict) and m.get("qn", "").endswith("ModelExecutor::add_observer")
        self.fn = fn
        self.r = ctx.run(fn, opaque=opaque, okey="observers")
        self.added = [e for e in self.r.events if e.kind == "call" and e.name == "add_observer"]
        self.n = Names(self.r)
        self.call = None
        if len(self.added) != 1:
            return
        f = self.added[0].args[0]
        while f[:1] == ("new",) and len(f) > 2 and len(f[2]) == 1:
            f = f[2][0]
        it = self.r.interp
        if f[:1] != ("lam",) or f[2] not in it.closures or not self.r.exits:
            return
        n0 = len(it.events)
        dfr = it.closures[f[2]][1]
        out, val = it.call_lambda(f, [M], self.r.exits[0][0].copy(), dfr, 0)
        self.call = Part(self.r, it.events[n0:], [(out, val, 0)] if out is not None else [])
        it.events = it.events[:n0]
        self.cn = Names(self.call)
        self.cn.made.update(self.n.made)
        self.cn.copies.update({k: v for k, v in self.n.copies.items()})


@check("F06", ["fw"])
def f06(ctx):
    n = 0
    for name, f in (("add_aggregated_spikes_logger", aggregated), ("add_projection_weights_logger", weights),
                    ("add_spikes_logger", spikes), ("add_status_logger", status)):
        for fn in ctx.prog.fn(NS + "model::" + name):
            lg = Logger(ctx, fn)
            key = name[4:]
            ok = lg.call is not None
            ctx.ob(key + "/observer", ok and not lg.added[0].loops and not lg.n.conds(lg.added[0].guards), where(fn),
                   "the logger adds its observer of spikes", "%d observers are added" % len(lg.added))
            if ok:
                f(ctx, fn, lg, key)
            n += 1
    ctx.floor("loggers", n, 4)
    m = 0
    for fn in ctx.prog.fn(NS + "MessageObserver::subscribe"):
        r = ctx.run(fn, opaque=lambda m, f: isinstance(m, dict) and "MessageEndpoint::" in m.get("qn", ""), okey="endpoint")
        n_ = Names(r)
        es = [e for e in r.events if e.kind == "call" and e.name == "subscribe"]
        ok = len(es) == 1 and own(n_(es[0].args[0])) and n_(es[0].args[1]) == parameter(fn, 0) and not es[0].loops and not es[0].guards
        ctx.ob("observer/subscribe", ok, where(fn), "an observer subscribes itself to the messages of the given senders", "%d subscriptions" % len(es))
        m += 1
    ctx.floor("observers", m, 1)


def own(t):
    """The observer's UID."""
    return uid_of(t) in (this("base_data_"), ("this",), this("base_data_"))


def senders(ctx, lg, key, want, src):
    """The observer is subscribed to exactly the UIDs of a container (None: to nothing)."""
    n, e = lg.n, lg.added[0]
    box = n(e.args[1])
    if box[:1] == ("phi",):
        cs = {x for x in (lv(y) for y in box[1]) if x[:1] == ("var",)}
        box = cs.pop() if len(cs) == 1 else box
    puts = [(p, n(v)) for p, v, c in appends(lg.r) if n(c) == box]
    why = []
    if want is None:
        if puts or not (box[:1] == ("new",) and box[2] == ()):
            why.append("senders " + S(box)[:100])
    else:
        good = [p for p, v in puts if uid_of(v) in want]
        if len(good) != len(puts):
            why.append("subscribes to " + "; ".join(S(v)[:80] for p, v in puts if uid_of(v) not in want))
        if not puts:
            why.append("subscribes to " + S(box)[:100])
        for p in good:
            overs = [n(P(lp.over)) if lp.kind == "foreach" and not lp.early else None for lp in p.loops]
            if overs != [src] and not (p.kind == "produce" and overs in ([], [src])):
                why.append("not for every sender")
            if {c for c in n.conds(p.guards) if c[:1] != ("alt",)}:
                why.append("not for every sender")
            if p.kind == "produce" and not sized(lg, box, src):
                why.append("the list has other UIDs as well")
    ctx.ob(key + "/senders", not why, ewhere(e), "the observer gets the spikes of exactly the senders given", "; ".join(sorted(set(why))))


def sized(lg, box, src):
    """A list written from its beginning has as many elements as are written."""
    for d in lg.r.events:
        if d.kind == "decl" and d.loc is not None and P(d.loc) == box:
            v = P(d.val)
            return v[:1] == ("new",) and (not v[2] or v[2][0] in (("size", src), T.ZERO))
    return False


def shown(part, n, stream):
    """[(event, item or text, loops, conditions)] written to the stream."""
    out = []
    for e in part.events:
        if e.kind != "call" or e.name != "operator<<":
            continue
        x = n(e.args[-1])
        to = n(P(e.obj)) if e.obj is not None else n(e.args[0])
        if not T.mentions(to, stream):
            continue
        if x[:2] == ("fn", "std::flush"):
            continue
        if "std::endl" in repr(x)[:60]:
            x = ("str", "\n")
        t = text(x)
        out.append((e, t if t is not None else x, [n(P(lp.over)) if lp.kind == "foreach" else lp.kind for lp in e.loops], n.conds(e.guards)))
    return out


def merge(items):
    """Texts next to each other in one loop are one text."""
    out = []
    for e, x, ls, cs in items:
        if isinstance(x, str) and out and isinstance(out[-1][1], str) and out[-1][2] == ls and out[-1][3] == cs:
            out[-1] = (out[-1][0], out[-1][1] + x, ls, cs)
        else:
            out.append((e, x, ls, cs))
    return out


def step_of(executor):
    b = ("deref", ("fld", ("fld", executor, "loader_"), "backend_"))
    return ("fld", b, "step_")


def period_cond(c, step, period):
    t, k = sign(c)
    q = ("bin", "%", step, period)
    return t == q and not k or t[:1] == ("eq",) and k and T.ZERO in t[1:] and q in t[1:] or t[:1] == ("lt",) and k and t[1] == q and t[2] == ("lit", "1")


def spaced(got, key, ctx, fn, want, what):
    ctx.ob(key, [x[1] for x in got] == [w[0] for w in want] and [x[2] for x in got] == [w[1] for w in want],
           where(fn), what, "writes " + " ".join(repr(x[1]) if isinstance(x[1], str) else S(x[1])[:60] for x in got)[:300])


def aggregated(ctx, fn, lg, key):
    names, executor, acc, log, period = [parameter(fn, i) for i in (1, 2, 3, 4, 5)]
    sender = ("elem", names)
    senders(ctx, lg, key, {("get", "0", sender)}, names)
    n, cn = lg.n, lg.cn
    # header: one column for each name
    head = merge(shown(lg.r, n, log))
    cols = [x for x in head if not isinstance(x[1], str)]
    ok = len(cols) == 1 and cols[0][1][:1] == ("elem",) and columns(lg, n, cols[0], names, acc, sender)
    ctx.ob(key + "/header", ok and all(not x[3] for x in head), ewhere(head[0][0]) if head else where(fn),
           "the header has a column for every name, in the order of the rows", "; ".join(S(x[1])[:100] for x in cols) or "no columns")
    lead = [x[1] for x in head[:1]] + [x[2] for x in head[:1]]
    ctx.ob(key + "/header/index", bool(head) and isinstance(lead[0], str) and lead[0].strip(", ") == "Index" and lead[1] == [], where(fn),
           "the first column is the index", repr(lead))
    # start
    start = resets(lg.r, n, names, acc, sender, {})
    ctx.ob(key + "/start", start is None, where(fn), "every count starts from 0", start or "")
    # row
    step = step_of(executor)
    row = merge(shown(lg.call, cn, log))
    why = []
    vals = [x for x in row if not isinstance(x[1], str)]
    if [(x[1], x[2]) for x in vals] != [(step, []), (("get", "1", ("elem", acc)), [acc])]:
        why.append("writes " + ", ".join(S(x[1])[:80] for x in vals))
    if any(len(x[3]) != 1 or not period_cond(next(iter(x[3])), step, period) for x in row):
        why.append("not exactly at every step that is a multiple of the period")
    if not row or row[-1][1] != "\n" or row[-1][2]:
        why.append("the row has no end")
    ctx.ob(key + "/row", not why, ewhere(row[0][0]) if row else where(fn), "at every period a row has the step and the count of every name", "; ".join(why))
    last = row[-1][0].ix if row else 0
    again = resets(lg.call, cn, names, acc, sender, {"step": step, "period": period}, after=last)
    ctx.ob(key + "/restart", again is None, where(fn), "counts start again after a row is written", again or "")
    # counting
    why, n_up = [], 0
    msg = ("elem", M)
    who = ("fld", ("fld", msg, "header_"), "sender_uid_")
    for w in lg.call.events:
        if w.kind != "write" or not T.mentions(cn(P(w.loc)), acc) or cn(P(w.loc))[:1] != ("at",):
            continue
        if T.lit_val(cn(P(w.val))) == 0:
            continue
        n_up += 1
        loc, val = cn(P(w.loc)), cn(P(w.val))
        name = loc[2]
        entry = name[2] if name[:1] == ("get",) else ()
        if name[:1] == ("get",) and name[1] == "1" and entry[:1] == ("deref",) and T.mentions(entry, names) and T.mentions(entry, who) or \
                name == ("at", names, who):
            pass
        else:
            why.append("counted for " + S(name)[:120])
        if not equal(val, ("bin", "+", loc, ("size", ("fld", msg, "neuron_indexes_")))):
            why.append("adds " + S(val)[:120])
        if [cn(P(lp.over)) if lp.kind == "foreach" and not lp.early else None for lp in w.loops] != [M]:
            why.append("not for every message")
        more = [c for c in cn.conds(w.guards) if not (T.mentions(c, names) and T.mentions(c, who) and positive(c))]
        if more:
            why.append("only if " + "; ".join(S(c)[:80] for c in more))
        if w.ix < last:
            why.append("before the row of earlier steps is written")
    if n_up != 1:
        why.append("%d places count" % n_up)
    ctx.ob(key + "/count", not why, where(fn), "the spikes of every message are counted for the name of its sender", "; ".join(sorted(set(why))))


def positive(c):
    t, k = sign(c)
    return t[:1] in (("has",), ("exists",), ("in",), ("haskey",), ("count",)) and k or t[:1] == ("isend",) and not k or t[:1] == ("eq",) and not k or \
        t[:1] == ("call",) and k


def columns(lg, n, col, names, acc, sender):
    """The list of columns has every name once, in order."""
    box = col[1][1] if col[1][:1] == ("elem",) else None
    e = col[0]
    if col[2] and col[2][0] == acc and col[1] == ("get", "0", ("elem", acc)):
        return True
    lst = next((P(lp.over) for lp in e.loops if lp.kind == "foreach" and not lp.early), None)
    if lst is None or len(e.loops) != 1:
        return False
    lst = n(lst)
    d = [x for x in lg.r.events if x.kind == "decl" and x.loc is not None and n(P(x.loc)) == lst]
    if not d:
        return False
    ty = P(d[-1].val)
    ty = ty[1] if ty[:1] in (("new",), ("obj",)) else ""
    puts = [(p, n(v)) for p, v, c in appends(lg.r) if n(c) == lst]
    if not puts or any(v != ("get", "1", sender) for _, v in puts):
        return False
    for p, _ in puts:
        if {c for c in n.conds(p.guards)} or p.kind != "produce" and [n(P(lp.over)) for lp in p.loops] != [names]:
            return False
    if ty.startswith(("std::set<", "const std::set<")):
        return True
    seq = [x.name for x in lg.r.events if x.kind == "call" and x.name in ("sort", "unique", "erase") and puts[0][0].ix < x.ix < e.ix]
    return seq == ["sort", "unique", "erase"]


def resets(part, n, names, acc, sender, period, after=-1):
    """None if the accumulator becomes 0 for every name, else what is wrong."""
    cleared = [e for e in part.events if e.ix > after and
               (e.kind == "call" and e.name == "clear" and e.obj is not None and n(P(e.obj)) == acc or
                e.kind == "write" and n(P(e.loc)) == acc)]
    zero = []
    for e in part.events:
        if e.ix <= after:
            continue
        if e.kind == "write" and n(P(e.loc)) in (("at", acc, ("get", "1", sender)),) and T.lit_val(n(P(e.val))) == 0:
            zero.append((e, [names]))
        elif e.kind == "write" and n(P(e.loc)) == ("get", "1", ("elem", acc)) and T.lit_val(n(P(e.val))) == 0:
            zero.append((e, [acc]))
        elif e.kind == "call" and e.name in ("insert", "emplace", "try_emplace", "insert_or_assign") and e.obj is not None and n(P(e.obj)) == acc:
            a = [n(x) for x in e.args]
            a = list(a[0][1]) if len(a) == 1 and a[0][:1] == ("tuple",) else a
            if len(a) == 2 and a[0] == ("get", "1", sender) and T.lit_val(a[1]) == 0:
                zero.append((e, [names]))
    if not zero:
        return "no count is set to 0"
    over = any(z[1] == [acc] for z in zero)
    if not cleared and not over:
        return "old counts stay"
    for e, ls in [(c, []) for c in cleared] + zero:
        if [n(P(lp.over)) if lp.kind == "foreach" and not lp.early else None for lp in e.loops] != ls:
            return "not for every name"
        cs = n.conds(e.guards)
        if cs and not (period and len(cs) == 1 and period_cond(next(iter(cs)), period["step"], period["period"])):
            return "only if " + "; ".join(S(c)[:80] for c in cs)
    if cleared and not over and cleared[0].ix > zero[0][0].ix:
        return "the counts set are removed again"
    return None


def spikes(ctx, fn, lg, key):
    names, log = parameter(fn, 1), parameter(fn, 2)
    senders(ctx, lg, key, {("get", "0", ("elem", names))}, names)
    cn = lg.cn
    row = merge(shown(lg.call, cn, log))
    msg = ("elem", M)
    who = ("fld", ("fld", msg, "header_"), "sender_uid_")
    vals = [x for x in row if not isinstance(x[1], str)]
    want = [("fld", ("fld", msg, "header_"), "send_time_"), "name", ("elem", ("fld", msg, "neuron_indexes_"))]
    why = []
    if len(vals) != 3 or vals[0][1] != want[0] or vals[2][1] != want[2] or not (T.mentions(vals[1][1], names) and T.mentions(vals[1][1], who)):
        why.append("writes " + ", ".join(S(x[1])[:80] for x in vals))
    elif [x[2] for x in vals] != [[M], [M], [M, want[2][1]]]:
        why.append("not for every message and spike")
    found = lambda c: T.mentions(c, names) and T.mentions(c, who) and positive(c)   # noqa: E731
    if any(c for x in row for c in x[3] if not found(c)):
        why.append("only under conditions")
    if any(lp.early for x in row for lp in x[0].loops):
        why.append("the loop may end early")
    ctx.ob(key + "/rows", not why, ewhere(row[0][0]) if row else where(fn),
           "the step, the sender's name and all spikes of every message are written", "; ".join(why))
    labels = [x[1] for x in row if isinstance(x[1], str)]
    ctx.ob(key + "/text", labels == ["Step: ", "\nSender: ", "\n", " ", "\n"], where(fn), "every value has its label", repr(labels)[:200])


def status(ctx, fn, lg, key):
    executor, model, log, period = [parameter(fn, i) for i in range(4)]
    pops = ("fld", ("fld", model, "network_"), "populations_")
    senders(ctx, lg, key, {("elem", pops)}, pops)
    cn = lg.cn
    row = merge(shown(lg.call, cn, log))
    vals = [x for x in row if not isinstance(x[1], str)]
    step = step_of(executor)
    timed = bool(vals) and all(any(period_cond(c, step, period) for c in x[3]) for x in vals)
    ctx.ob(key + "/period" + ("" if timed else "/unused" if not any(T.mentions(c, period) for x in vals for c in x[3]) else ""), timed,
           ewhere(vals[0][0]) if vals else where(fn), "the number of messages is written at every period",
           "written under " + "; ".join(S(c)[:80] for x in vals for c in x[3]))
    ok = len(vals) == 1 and not vals[0][2] and (vals[0][1] == ("size", M) or timed) and \
        all(c == ("not", ("empty", M)) or period_cond(c, step, period) for x in vals for c in x[3])
    ctx.ob(key + "/count", ok, ewhere(vals[0][0]) if vals else where(fn), "the number of messages is written", "; ".join(S(x[1])[:80] for x in vals))


def weights(ctx, fn, lg, key):
    log, executor, uid, period = [parameter(fn, i) for i in range(4)]
    senders(ctx, lg, key, None, None)
    names = lg.cn
    cn = lambda t: one(names(t))   # noqa: E731
    cn.conds = lambda gs: {one(c) for c in names.conds(gs)}
    step = step_of(executor)
    row = merge(shown(lg.call, cn, log))
    vals = [x for x in row if not isinstance(x[1], str)]

    def plain_conds(cs):
        return [c for c in cs if not period_cond(c, step, period) and not (sign(c)[1] and sign(c)[0][:1] == ("call",) and
                sign(c)[0][1].endswith("::good"))]

    why = []
    if not vals or vals[0][1] != step or plain_conds(vals[0][3]) or not any(period_cond(c, step, period) for c in vals[0][3]):
        why.append("begins with " + (S(vals[0][1])[:80] if vals else "nothing"))
    ctx.ob(key + "/step", not why, ewhere(row[0][0]) if row else where(fn), "the step is written at every period", "; ".join(why))
    # the list of synapses
    puts = [(e, cn(v), cn(c)) for e, v, c in appends(lg.call) if cn(v)[:1] == ("agg",)]
    ctx.ob(key + "/synapses", len(puts) == 1, where(fn), "the synapses of the projection are collected", "%d places" % len(puts))
    if len(puts) != 1:
        return
    e, v, box = puts[0]
    m = dict(v[2])
    roles = {}
    for k, x in m.items():
        s = repr(x)
        roles["weight" if "synaptic_resource_" in s else "update" if "last_spike_step_" in s else
              "sender" if x[:2] == ("get", "1") else "receiver" if x[:2] == ("get", "2") else k] = k
    ok = set(roles) == {"weight", "update", "sender", "receiver"}
    srcs = {y for x in m.values() for y in T.subterms(x) if y[:1] == ("elem",)}
    loops = [cn(P(lp.over)) for lp in e.loops if lp.kind == "foreach" and not lp.early]
    ok = ok and len(srcs) == 1 and any(("elem", x) in srcs for x in loops)
    inner = e.loops[-1] if e.loops else None
    extra = [c for c in plain_conds(cn.conds(e.guards)) if not about_projection(c, uid)]
    ctx.ob(key + "/synapses/values", ok and not extra and inner is not None and not inner.early, ewhere(e),
           "every synapse is listed with its weight, its last spike, its source and its target", "lists " + S(v)[:200] +
           "".join("; only if " + S(c)[:80] for c in extra))
    same = [c for c in cn.conds(e.guards) if same_uid_cond(c, uid)]
    ctx.ob(key + "/projection", bool(same), ewhere(e), "the projection shown is the one with the given UID", "any projection")
    # order
    sorts = [x for x in lg.call.events if x.kind == "call" and x.name in ("sort", "stable_sort") and x.ix > e.ix and
             cn(x.args[0]) == ("begin", box) and cn(x.args[1]) == ("end", box)]
    rets = [cn(P(x.val)) for x in lg.call.events if x.kind == "ret" and sorts and e.ix < x.ix <= sorts[0].ix and x.val is not None]
    a, b = ("elem", box), ("elem2", box)
    # writing
    vals = [x for x in vals if x[0].ix > e.ix]
    it = next((y for x in vals for y in T.subterms(x[1]) if y[:1] == ("elem",)), None)
    field = lambda k: ("fld", it, roles.get(k, k))   # noqa: E731
    want = [field("receiver"), field("weight"), field("update")]
    got = [x[1] for x in vals]
    root = next((P(c) for x, _, c in appends(lg.call) if x is e), box)
    late = [x for x in mutations(lg.call, lv(one(root))) if x.ix > e.ix and x is not e and x not in sorts]
    ctx.ob(key + "/synapses/kept", not late, ewhere(late[0]) if late else ewhere(e), "no collected synapse is lost or changed",
           "the list is changed by " + ", ".join(x.name or x.kind for x in late))
    ctx.ob(key + "/sorted", len(sorts) == 1 and ordered(sorts, lg, cn, roles, e), where(fn), "synapses are in the order of their targets", "%d sorts" % len(sorts))
    why = []
    if got != want:
        why.append("writes " + ", ".join(S(x)[:80] for x in got))
    else:
        for x in vals:
            lp = x[0].loops[-1] if x[0].loops else None
            if lp is None or lp.kind != "foreach" or lp.early:
                why.append("not for every synapse")
        for x in vals[1:]:
            if [c for c in plain_conds(x[3]) if not about_projection(c, uid)]:
                why.append("weights are written only if " + "; ".join(S(c)[:80] for c in plain_conds(x[3]) if not about_projection(c, uid)))
    labels = [x[1] for x in row if isinstance(x[1], str) and x[0].ix > e.ix]
    if labels != ["\nNeuron ", "\n", "|", " ", "\n"]:
        why.append("texts %r" % labels)
    ctx.ob(key + "/rows", not why, where(fn), "every synapse is written under its target neuron", "; ".join(sorted(set(why))))
    news = [c for c in plain_conds(vals[0][3]) if not about_projection(c, uid)] if vals else []
    kept = [w for w in lg.call.events if w.kind == "write" and it is not None and cn(P(w.val)) == field("receiver")]
    mark = cn(P(kept[0].loc)) if kept else ()
    first = [cn(P(x.val)) for x in lg.call.events if x.kind == "decl" and x.loc is not None and cn(P(x.loc)) == mark]
    top = any(v[:2] == ("call", "std::numeric_limits::max") or T.lit_val(v) in (-1, 2 ** 64 - 1) for v in first)
    ok = len(news) == 1 and len(kept) == 1 and top and cn.conds(kept[0].guards) == vals[0][3] and \
        T.mentions(news[0], field("receiver")) and not sign(news[0])[1]
    ctx.ob(key + "/neuron", ok, where(fn), "a target neuron is named when it changes", "; ".join(S(c)[:100] for c in news))


def one(t):
    """A place that is the same before and after a loop is one place."""
    if not isinstance(t, tuple):
        return frozenset(one(x) for x in t) if isinstance(t, frozenset) else t
    if t[:1] == ("phi",) and len(t) == 2 and isinstance(t[1], frozenset):
        xs = {lv(one(x)) for x in t[1]}
        if len(xs) == 1:
            return xs.pop()
        return ("phi", frozenset(xs))
    return tuple(one(x) for x in t)


def ordered(sorts, lg, cn, roles, e):
    """The comparison is by target first."""
    rs = [x for x in lg.call.events if x.kind == "ret" and x.val is not None and x.ix > e.ix]
    f = roles.get("receiver")
    for x in rs:
        v = one(cn(P(x.val)))
        for t in T.subterms(v):
            if t[:1] == ("lt",) and len(t) == 3 and t[1][:1] == t[2][:1] == ("tuple",) and t[1][1] and t[2][1]:
                t = ("lt", t[1][1][0], t[2][1][0])
            if t[:1] == ("lt",) and len(t) == 3 and t[1][:1] == ("fld",) and t[2][:1] == ("fld",) and t[1][2] == t[2][2] == f and \
                    t[1][1][:1] == ("elem",) and t[2][1][:1] == ("elem2",):
                return True
    return False


def about_projection(c, uid):
    """A condition of walking the projections."""
    return same_uid_cond(c, uid) or "projection_range" in repr(c)


def same_uid_cond(c, uid):
    t, k = sign(c)
    return k and t[:1] == ("eq",) and any(uid_of(x) == uid for x in t[1:])
