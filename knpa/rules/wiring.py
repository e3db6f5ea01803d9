"""Between a model and a backend: channel loading (F02), the composite step loop (F03), buffers and converters (F04)."""
from .. import interp
from .. import terms as T
from ..lib import P, S, appends, bulks, check, ewhere, final, guards, mutations, rets, this, where
from .backend import canon as bcanon, extra, plus
from .network import canon, conds, norm, parameter, present, absent, refused, same_uid, stripped, uid_of, under

LOADER = "knp::framework::ModelLoader"
EXEC = "knp::framework::ModelExecutor"
OUT = "knp::framework::io::output"
IN = "knp::framework::io::input"
ENDPOINT = "knp::core::MessageEndpoint::"
BUS = ("deref", ("fld", ("deref", this("backend_")), "message_bus_"))


def quiet(m, f):
    return m["qn"].startswith((ENDPOINT, "knp::core::Backend::load", "knp::core::Backend::get_message_endpoint"))


def lv(t):
    """Term without the marks of values that change in a loop."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("lv",) and len(t) == 2:
        return lv(t[1])
    return tuple(lv(x) for x in t)


def replace(t, a, b):
    if t == a:
        return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t


def loop_conds(lp):
    return {lv(x) for x in interp.conj(norm(lp.over))} if lp.over is not None else set()


# ---------------------------------------------------------------------- F02
class Channels:
    """How the loader goes through the channel table `chan`: one visit for every distinct channel."""

    def __init__(self, r, chan):
        self.r, self.chan = r, chan
        self.decls = {}
        for e in r.events:
            if e.kind == "decl" and e.loc is not None and e.val is not None:
                self.decls.setdefault(P(e.loc), P(e.val))
        self.writes = {}
        for e in r.events:
            if e.kind == "write":
                self.writes.setdefault(P(e.loc) if e.loc is not None else None, []).append(e)

    def term(self, e, t):
        """Normal form of a term of an event; the element of a local container is named after the container."""
        t = lv(norm(t))
        for lp in e.loops:
            v = P(lp.over) if lp.kind == "foreach" and lp.over is not None else None
            if v is not None and v[:1] == ("var",) and self.decls.get(v, ())[:1] == ("new",):
                t = replace(t, ("elem", self.decls[v]), ("elem", v))
        return t

    def key(self, it):
        return ("get", "0", ("deref", it))

    def peer(self, it):
        return ("get", "1", ("deref", it))

    def outer(self, e):
        """(loop, UID of the channel, how to recognise its peers) of the visit an event belongs to."""
        for i, lp in enumerate(e.loops):
            if lp.kind == "foreach" and lp.over is not None and self.decls.get(P(lp.over)) is not None and \
                    P(lp.over)[:1] == ("var",) and self.grouped(P(lp.over)):
                el = ("elem", P(lp.over))
                return i, ("get", "0", el), ("get", "1", el), None
            if lp.kind in ("for", "while"):
                for c in loop_conds(lp):
                    if c[:1] == ("not",) and c[1][:1] == ("isend",) and c[1][2] == self.chan and \
                            self.decls.get(c[1][1]) == ("begin", self.chan):
                        return i, self.key(c[1][1]), None, c[1][1]
        return None

    def grouped(self, g):
        """The local map g holds, for every channel, all its peers."""
        ps = [x for x in appends(self.r) if x[2][:1] == ("at",) and x[2][1] == g]
        el = ("elem", self.chan)
        return len(ps) == 1 and ps[0][2] == ("at", g, ("get", "0", el)) and ps[0][1] == ("get", "1", el) and \
            len(ps[0][0].loops) == 1 and P(ps[0][0].loops[0].over) == self.chan and not ps[0][0].loops[0].early and \
            not guards(ps[0][0])

    def problem(self, e):
        """Why the visits do not go through every channel exactly once (None: they do)."""
        o = self.outer(e)
        if o is None:
            return "not done in a loop over the channels"
        i, uid, peers, it = o
        if e.loops[i].early and any(x[0] != "throw" for x in e.loops[i].early):
            return "the loop over the channels can be left early"
        if it is None:
            return None
        end = ("end", ("equal_range", self.chan, uid))
        moves = [x for x in self.writes.get(it, []) if e.loops[i] in x.loops]
        fine = lambda c: in_map(c, uid, True)
        if len(moves) == 1 and norm(moves[0].val) == end and len(moves[0].loops) == i + 1 and \
                not known_ok(extra_conds(moves[0], e.loops[:i + 1]), fine):
            return None
        if moves and all(len(x.loops) == i + 2 and self.same_key(x.loops[i + 1], it, uid) for x in moves) and \
                len(moves) == 1 and not known_ok(extra_conds(moves[0], moves[0].loops), fine):
            return None
        return "the next channel visited is not the one after the last peer of this one"

    def same_key(self, lp, it, uid):
        cs = loop_conds(lp)
        cur = ("iterfrom", it, self.chan)
        eq = [c for c in cs if c[:1] == ("eq",)]
        a = eq and {uid_of(eq[0][1]), uid_of(eq[0][2])} == {uid_of(self.key(cur)), uid_of(uid)}
        return bool(a) and T.neg(("isend", cur, self.chan)) in cs and len(cs) == 2 and not lp.early

    def collects(self, v, e):
        """The local container v holds the peers of the channel of event e when e happens (None or a reason)."""
        o = self.outer(e)
        i, uid, peers, it = o
        if peers is not None:
            return None if v == peers else "not the peers of the channel"
        end = ("end", ("equal_range", self.chan, uid))
        starts = (it, ("begin", ("equal_range", self.chan, uid)))
        outer = e.loops[i]
        fills = []
        for k, x in enumerate(self.r.events):
            if x.kind == "call" and x.qn == "std::transform" and len(x.args) == 4:
                a = [norm(y) for y in x.args]
                ins = [y for y in self.r.events[:k] if y.kind == "call" and y.qn == "std::back_inserter"][-1:]
                pr = [y for y in self.r.events[k:] if y.kind == "produce"][:1]
                if ins and pr and ins[0].raw and P(ins[0].raw[0]) == v:
                    good = a[0] in starts and a[1] == end and norm(pr[0].val)[:2] == ("get", "1") and \
                        norm(pr[0].val)[2][:1] in (("algelem",), ("elem",))
                    fills.append((x, good and len(x.loops) == i + 1 and x.loops[i] is outer and
                                  not extra_conds(x, x.loops)))
        for x, val, c in appends(self.r, v):
            if x.kind != "call" or x.name not in ("push_back", "emplace_back"):
                fills.append((x, False)) if x.kind == "call" and x.obj is not None and P(x.obj) == v else None
                continue
            good = len(x.loops) == i + 2 and x.loops[i] is outer and not extra_conds(x, x.loops)
            good = good and self.peers_in(x, self.term(x, val), it, uid, end, starts)
            fills.append((x, good))
        if len(fills) != 1:
            return "the peers of the channel are collected %d times" % len(fills)
        if not fills[0][1] or fills[0][0].ix > e.ix:
            return "something else than exactly the peers of the channel is collected"
        return None

    def peers_in(self, x, val, it, uid, end, starts):
        """The innermost loop of x visits exactly the peers of the channel and val is the visited one."""
        lp = x.loops[-1]
        if val[:2] != ("get", "1") or lp.early:
            return False
        rng = ("equal_range", self.chan, uid)
        if lp.kind == "foreach":
            return norm(lp.over) == rng and val[2] == ("elem", rng)
        j = val[2]
        if j[:1] != ("deref",) or j[1][:1] != ("iterfrom",):
            return False
        if j[1] == ("iterfrom", it, self.chan):
            return self.same_key(lp, it, uid)
        return j[1][1] in starts and j[1][2] == rng and loop_conds(lp) == {T.neg(("isend", j[1], rng))}


def extra_conds(e, loops):
    """Conditions of an event beyond those of the loops around it."""
    own = set()
    for lp in loops:
        own |= loop_conds(lp)
    out = []
    for g in guards(e):
        for c in interp.conj(norm(g)):
            c = lv(c)
            if c in own or c[:1] == ("alt",):
                continue
            out.append(c)
    return out


def known_ok(cs, *ok):
    return [c for c in cs if not any(f(c) for f in ok)]


@check("F02", ["fw"])
def f02(ctx):
    fn = ctx.prog.fn(LOADER + "::load")[0]
    r = ctx.run(fn, opaque=quiet, okey="load")
    model = parameter(fn, 0)
    for kind, chan, mine, store in (("input", "in_channels_", this("in_channels_"), "projections_"),
                                    ("output", "out_channels_", this("out_channels_"), "populations_")):
        table = ("fld", model, chan)
        items = ("fld", ("fld", model, "network_"), store)
        channels(ctx, r, fn, kind, table, mine, items)
    last = max((e.ix for e in r.events if e.kind in ("write", "call") and e.loops), default=-1)
    for kind in ("populations", "projections"):
        es = [e for e in r.events if e.kind == "call" and e.qn == "knp::core::Backend::load_all_" + kind]
        whole = ("fld", ("fld", model, "network_"), kind + "_")
        ok = len(es) == 1 and not guards(es[0]) and not es[0].loops and P(es[0].args[0]) == whole and es[0].ix > last and \
            norm(es[0].obj) == ("deref", this("backend_"))
        ctx.ob("load/" + kind, ok, ewhere(es[0]) if es else where(fn),
               "the backend gets all %s of the network, once, after the channels were connected and tagged" % kind,
               "%d calls" % len(es) if len(es) != 1 else "not unconditional, not the whole network, or too early")
    for kind, store in (("input", this("in_channels_")), ("output", this("out_channels_"))):
        gets = ctx.prog.fn("%s::get_%s_channel" % (LOADER, kind))
        ctx.floor("get_%s_channel" % kind, len(gets), 2)
        for g in gets:
            rr = ctx.run(g)
            match = same_uid(store, parameter(g, 0))
            ok = bool(rr.exits)
            for s, v, _ in rr.exits:
                x = under(norm(v), conds(s.guards))
                found = x[:1] == ("deref",) and x[1][:1] == ("findif",) and x[1][1] == store and match(x[1][2]) and \
                    present(s.guards, store, match)
                loop = x == ("elem", store) and any(match(c) for c in conds(s.guards))
                ok = ok and (found or loop)
            ctx.ob("get/" + kind, ok, where(g), "looking up a channel UID returns the loaded channel that has it",
                   "; ".join(S(norm(v))[:140] for _, v, _ in rr.exits) or "never returns")
            refused(ctx, rr, g, "get/%s/missing" % kind, store, match)
    model_channels(ctx)


def channels(ctx, r, fn, kind, table, mine, items):
    ch = Channels(r, table)
    what = "every distinct %s channel of the model becomes one channel of the executor" % kind
    puts = [x for x in appends(r, mine)]
    muts = [e for e in mutations(r, mine, deep=False) if e.name != "reserve"]
    if len(puts) != 1 or len(muts) != 1:
        ctx.ob(kind + "/created", False, where(fn), what, "%d insertions" % len(muts))
        return
    e, val, _ = puts[0]
    why = ch.problem(e)
    if why:
        ctx.ob(kind + "/created", False, ewhere(e), what, why)
        return
    i, uid, peers, it = ch.outer(e)
    val = ch.term(e, val)
    args = list(val) if isinstance(val, tuple) and val and isinstance(val[0], tuple) else [val]
    if len(args) == 1 and args[0][:1] in (("new",), ("obj",), ("agg",)):
        args = list(args[0][2])
    one = len(args) >= 2 and uid_of(canon(args[0])) == uid_of(uid) and len(e.loops) == i + 1
    ok_guard = lambda c: in_map(c, uid, True)
    one = one and not known_ok(extra_conds(e, e.loops), ok_guard)
    ctx.ob(kind + "/created", one, ewhere(e), what, "not once per channel with its own UID")
    ep = P(args[1]) if len(args) > 1 else None
    made = ch.decls.get(ep, ep)
    made = stripped(norm(made)) if made is not None else None
    ctx.ob(kind + "/endpoint", made is not None and made[:2] == ("call", "knp::core::MessageBus::create_endpoint") and
           made[2] == (BUS,), ewhere(e), "a channel talks over an endpoint of its own on the bus of the backend",
           S(made) if made else "none")
    if kind == "input":
        gen = norm(args[2]) if len(args) > 2 else None
        at = ("at", this("i_map_"), uid)
        fd = ("get", "1", ("deref", ("find", this("i_map_"), uid)))
        idx = [x for x in r.events if x.kind == "index" and norm(x.obj) == this("i_map_")]
        checked = gen == fd and any(in_map(c, uid, True) for c in extra_conds(e, e.loops)) or \
            gen == at and idx and all(x.qn.endswith("::at") for x in idx)
        ctx.ob("input/generator", gen in (at, fd) and checked, ewhere(e),
               "an input channel is fed by the generator registered for its UID", S(gen) if gen else "none")
        throws = [x for x in r.events if x.kind == "throw" and
                  any(c[:1] == ("caught",) or in_map(c, uid, False) for c in extra_conds(x, x.loops))]
        caught = [x for x in r.events if any(g[:1] == ("caught",) for g in guards(x))]
        on = all(not (x.kind in ("call", "write") and not in_throw(x, throws)) for x in caught if x.kind == "call" and
                 (x.meta or {}).get("inroot") and not x.name.startswith("operator"))
        ctx.ob("input/unknown", bool(throws) and on, where(fn),
               "a channel without a generator is refused with an exception", "no exception")
    subs = [x for x in r.events if x.kind == "call" and x.qn == ENDPOINT + "subscribe" and ch.outer(x) is not None]
    tags = [x for x in r.events if x.kind == "write" and ch.outer(x) is not None and
            any(y[:1] == ("glob",) or "io_type_tag" in S(y) for y in [P(x.loc)]) and ".tags_" in S(P(x.loc))]
    if kind == "input":
        ok, why = len(subs) == 1, "%d subscriptions" % len(subs)
        if ok:
            s = subs[0]
            a = [ch.term(s, x) for x in s.args]
            why = per_peer(ch, s, a[0], i)
            ok = why is None and senders(a[1]) == [uid] and \
                norm(s.obj)[:2] == ("call", "knp::core::Backend::get_message_endpoint")
            why = why or "receiver %s, senders %s" % (S(a[0]), S(a[1]))
    else:
        ok, why = len(subs) == 1, "%d subscriptions" % len(subs)
        if ok:
            s = subs[0]
            a = [ch.term(s, x) for x in s.args]
            own = P(s.obj) == ep or P(s.obj)[:1] == ("fld",) and P(s.obj)[2] == "endpoint_"
            why = ch.collects(a[1], s) if a[1][:1] in (("var",), ("get",)) else "not all peers"
            ok = own and uid_of(a[0]) == uid_of(uid) and why is None and not extra_conds(s, s.loops)
            why = why or "receiver %s, senders %s" % (S(a[0]), S(a[1]))
    ctx.ob(kind + "/connected", ok, ewhere(subs[0]) if subs else where(fn),
           "every input projection of a channel is subscribed to that channel" if kind == "input" else
           "an output channel is subscribed to every population it was given", why)
    want = "output" if kind == "output" else "input"
    ok, why = bool(tags), "no tag is written"
    for x in tags:
        loc = ch.term(x, x.loc)
        root = [y for y in T.subterms(loc) if y[:1] == ("findif",) and len(y) == 3]
        val = P(x.val)
        peer = None
        if root and root[0][1] == items:
            c = root[0][2]
            sides = [uid_of(y) for y in c[1:]] if c[:1] == ("eq",) else []
            peer = [y for y in sides if y != ("elem", items)]
        w = per_peer(ch, x, peer[0], i) if peer else "not the element of the network"
        good = w is None and ("IOType::" + want) in S(val) or w is None and S(val).endswith(want)
        if not good:
            ok, why = False, w or "tagged %s" % S(val)
    ctx.ob(kind + "/tagged", ok, ewhere(tags[0]) if tags else where(fn),
           "the %ss of a channel are marked as %s in the network the backend loads" %
           (("projection", "input") if kind == "input" else ("population", "output")), why)


def in_throw(x, throws):
    return any(t.ix > x.ix for t in throws)


def in_map(c, uid, there):
    n = c[:1] == ("not",)
    y = c[1] if n else c
    f = ("find", this("i_map_"), uid)
    if y[:1] == ("isend",) and y[1] == f:
        return n is there
    if y[:1] in (("has",), ("contains",)) and y[1:] == (this("i_map_"), uid):
        return n is not there
    if y[:1] == ("haskey",):
        return n is not there
    return False


def senders(t):
    """Elements of a sender list written in place."""
    while isinstance(t, tuple) and t[:1] in (("new",), ("obj",), ("copy",), ("moved",)) and t[-1]:
        t = t[2][0] if len(t) > 2 and isinstance(t[2], tuple) and t[2] else t[-1]
    return list(t[1]) if t[:1] == ("list",) else None


def per_peer(ch, e, peer, i):
    """The event happens exactly once for every peer of the channel; `peer` is the UID it is about."""
    o = ch.outer(e)
    if o is None:
        return "outside the loop over the channels"
    _, uid, peers, it = o
    if ch.problem(e):
        return ch.problem(e)
    fine = lambda c: c[:1] == ("exists",) or in_map(c, uid, True)
    if known_ok(extra_conds(e, e.loops), fine):
        return "only when " + ", ".join(S(c)[:100] for c in known_ok(extra_conds(e, e.loops), fine))
    if len(e.loops) != i + 2:
        return "not once per peer"
    lp = e.loops[-1]
    if any(x[0] != "throw" for x in lp.early):
        return "the loop over the peers can be left early"
    if lp.kind == "foreach":
        v = P(lp.over)
        if peers is not None and v == peers or peers is None and v[:1] == ("var",) and ch.collects(v, e) is None:
            return None if lv(peer) == ("elem", v) else "about %s" % S(peer)
        return ch.collects(v, e) if v[:1] == ("var",) else "not over the peers of the channel"
    end = ("end", ("equal_range", ch.chan, uid))
    starts = (it, ("begin", ("equal_range", ch.chan, uid)))
    return None if ch.peers_in(e, lv(peer), it, uid, end, starts) else "not over the peers of the channel"


def pair(t):
    """The two halves of a pair, however it is made."""
    if t[:1] == ("tuple",):
        x = t[1:] if len(t) == 3 else t[1]
        return [stripped(y) for y in x]
    if t[:1] == ("agg",):
        return [stripped(y) for _, y in t[2]]
    if t[:1] in (("new",), ("obj",), ("call",)) and len(t) > 2:
        return pair(t[2][0]) if len(t[2]) == 1 else [stripped(y) for y in t[2]]
    return []


def model_channels(ctx):
    for kind, store, items in (("input", "in_channels_", "projections_"), ("output", "out_channels_", "populations_")):
        for fn in ctx.prog.fn("knp::framework::Model::add_%s_channel" % kind):
            r = ctx.run(fn)
            coll = this("network_", items)
            match = same_uid(coll, parameter(fn, 1))
            ms = mutations(r, this(store))
            ok = len(ms) == 1 and present(ms[0].guards, coll, match) and not ms[0].loops and \
                all(present(s.guards, coll, match) for s, _, _ in r.exits)
            if ok:
                a = [norm(x) for x in ms[0].args]
                a = a[0] if len(a) == 1 else ("tuple",) + tuple(a)
                ok = pair(a) == [parameter(fn, 0), parameter(fn, 1)]
            ctx.ob("model/%s/added" % kind, ok, where(fn), "a channel keeps the UID it was given together with its peer",
                   "not one unconditional insertion of (channel, peer) for a peer that exists")
            refused(ctx, r, fn, "model/%s/missing" % kind, coll, match)
        for fn in ctx.prog.fn("knp::framework::Model::get_%s_channels" % kind):
            vs = [norm(x.val) for x in rets(ctx.run(fn))]
            ctx.ob("model/%s/list" % kind, vs and all(v == this(store) for v in vs), where(fn),
                   "the channels of a model are the ones that were added", "; ".join(S(v) for v in vs))


# ---------------------------------------------------------------------- F03
RUN = ("fld", ("fld", ("this",), "loader_"), "backend_")


def endpoint_only(m, f):
    return m["qn"].startswith(ENDPOINT)


def mentions(t, what):
    return any(x == what for x in T.subterms(t))


class Loop:
    """The composite step loop: ModelExecutor::start with Backend::start and all callbacks entered."""

    def __init__(self, ctx, fn):
        self.r = ctx.run(fn, opaque=endpoint_only, okey="start")
        self.fn = fn
        pred = parameter(fn, 0)
        self.step_no = fld_of(RUN, "step_")
        self.pred = [e for e in self.r.events if e.kind == "call" and e.obj is not None and norm(e.obj) == pred and
                     e.name == "operator()"]
        self.step = [e for e in self.r.events if e.kind == "call" and e.qn == "knp::core::Backend::_step"]
        self.base = {c for c in conds(self.step[0].guards)} if len(self.step) == 1 else set()
        self.root = self.step[0].loops if len(self.step) == 1 else []

    def truth(self):
        return ("truth", ("call", "std::function::operator()", (parameter(self.fn, 0), self.step_no)))

    def of(self, e, *over):
        """The event happens in every executed step, once for every element of the containers (outermost first)."""
        n = len(self.root)
        if e.loops[:n] != self.root:
            return "not in the step loop"
        rest = e.loops[n:]
        if len(rest) != len(over):
            return "not once per element"
        for lp, c in zip(rest, over):
            if lp.kind != "foreach" or norm(lp.over) != c:
                return "in a loop over %s" % (S(norm(lp.over)) if lp.over else lp.kind)
            if lp.early:
                return "the loop over %s can be left early" % S(c)
        return None

    def when(self, e, *ok):
        return [c for c in conds(e.guards) - self.base if c[:1] != ("alt",) and c not in ok and
                not vac(c, [norm(lp.over) for lp in e.loops if lp.kind == "foreach"])]


def vac(c, over):
    return c[:1] == ("not",) and c[1][:1] == ("empty",) and c[1][1] in over or \
        c[:1] == ("lt",) and c[1] == T.ZERO and c[2][:1] == ("size",) and c[2][1] in over


def fld_of(ptr, name):
    return ("fld", ("deref", ptr), name)


@check("F03", ["fw", "core"])
def f03(ctx):
    starts = ctx.prog.fn(EXEC + "::start")
    fn = [f for f in starts if f.params][0]
    lo = Loop(ctx, fn)
    r = lo.r
    if len(lo.step) != 1:
        ctx.ob("start/step", False, where(fn), "starting the executor runs the step of the backend", "%d calls" % len(lo.step))
        return
    step = lo.step[0]
    n = len(lo.root)
    one = len(lo.pred) == 1 and lo.pred[0].loops == lo.root and lo.pred[0].ix < step.ix and n == 1
    ctx.ob("start/predicate", one and [norm(a) for a in lo.pred[0].args] == [lo.step_no], ewhere(lo.pred[0]) if lo.pred else where(fn),
           "the run predicate is asked once per step, with the number of the step", "%d calls" % len(lo.pred))
    asked = [c for c in lo.base if any(x[:1] == ("call",) and parameter(fn, 0) in x[2] for x in T.subterms(c) if len(x) == 3)]
    started = fld_of(RUN, "started_")
    other = [c for c in lo.base if c not in asked and not mentions(c, started)]
    ctx.ob("start/allowed", len(asked) == 1 and asked[0][:1] != ("not",) and not other, ewhere(step),
           "a step is executed exactly when the run predicate allows it", ", ".join(S(c)[:120] for c in lo.base))
    if asked and lo.root:
        leaves = [set().union(*[interp.conj(norm(c)) for c in lv_]) if lv_ else set() for lv_ in lo.root[0].leaves]
        ok = all(T.neg(asked[0]) in x for x in leaves) and len(lo.root[0].early) <= 1
        ctx.ob("start/stops", ok, where(fn), "the executor stops by itself only when the run predicate says so",
               "the loop can be left under another condition")
    inputs, outputs = this("loader_", "in_channels_"), this("loader_", "out_channels_")
    handlers, observers = this("message_handlers_"), this("observers_")
    sends = [e for e in r.events if e.kind in ("call", "enter") and (e.qn or "").endswith("InputChannel::send")]
    ok, why = len(sends) == 1, "%d calls" % len(sends)
    if ok:
        why = lo.of(sends[0], inputs) or (lo.when(sends[0]) and "only when " + S(lo.when(sends[0])[0])[:120]) or \
            (norm(sends[0].obj) != ("elem", inputs) and "not the visited channel") or \
            ([norm(a) for a in sends[0].args] != [lo.step_no] and "not for the current step") or \
            (sends[0].ix > step.ix and "after the step") or \
            (asked and asked[0] not in conds(sends[0].guards) and "even if the predicate stops the run")
        ok = not why
    ctx.ob("start/inputs", ok, ewhere(sends[0]) if sends else where(fn),
           "before an executed step every input channel sends once, for that step", why)
    received(ctx, lo, "outputs", outputs, ("elem", outputs), "endpoint_", ("base_", "uid_"), step, [None])
    received(ctx, lo, "handlers", handlers, ("deref", ("elem", handlers)), "endpoint_", ("base_", "uid_"), step, [None])
    alts = observer_alternatives(ctx)
    ctx.floor("observer alternatives", len(alts), 2)
    received(ctx, lo, "observers", observers, ("elem", observers), "endpoint_", ("base_data_", "uid_"), step, alts)
    buffered(ctx, lo, outputs)
    handled(ctx, lo, handlers)
    observed(ctx, lo, observers, alts)
    free = [f for f in starts if not f.params]
    for f in free:
        rr = ctx.run(f, opaque=lambda m, g: m["qn"] == EXEC + "::start", okey="always")
        cs = [e for e in rr.events if e.kind == "call" and e.qn == EXEC + "::start"]
        ok = len(cs) == 1 and not guards(cs[0]) and always_true(ctx, rr, cs[0])
        ctx.ob("start/always", ok, where(f), "without a predicate the executor runs until it is stopped",
               "not a predicate that is always true")
    input_channel(ctx)
    registered(ctx)


def always_true(ctx, r, e):
    a = e.args[0]
    lam = [x for x in T.subterms(a) if x[:1] == ("lam",)]
    if not lam:
        return False
    clo = r.interp.closures.get(lam[0][2])
    if clo is None:
        return False
    nn, dfr, _ = clo
    fs = [ctx.prog.functions.get(dfr.tu.fns[o]["id"]) for o in nn["ops"]]
    return all(f is not None and [norm(x.val) for x in rets(ctx.run(f))] == [T.TRUE] for f in fs) and bool(fs)


def observer_alternatives(ctx):
    from .lifecycle import targs
    seen = set()
    for rec in ctx.prog.records.values():
        if rec["qn"] == EXEC:
            for f in rec["f"]:
                if f["n"] == "observers_":
                    t = targs(f["ty"])[0]
                    seen = set(targs(t)) if "variant<" in t else {t}
    return sorted(seen)


def alt_of(e):
    return [c[2].replace("const ", "").rstrip(" &") for c in conds(e.guards) if c[:1] == ("alt",)]


def received(ctx, lo, name, cont, el, ep, uid, step, alts):
    r = lo.r
    end = ("fld", el, ep)
    own = el
    for u in uid:
        own = ("fld", own, u)
    for alt in alts:
        pick = lambda e: alt is None or alt in alt_of(e) or not alt_of(e)
        recv = [e for e in r.events if e.kind == "call" and e.qn == ENDPOINT + "receive_all_messages" and norm(e.obj) == end and pick(e)]
        take = [e for e in r.events if e.kind == "call" and e.qn == ENDPOINT + "unload_messages" and norm(e.obj) == end and pick(e)]
        why = None
        if not recv or len(take) != 1:
            why = "%d receptions, %d unloads" % (len(recv), len(take))
        else:
            rc, tk = recv[0], take[0]
            why = lo.of(rc, cont) or lo.of(tk, cont) or (lo.when(rc) + lo.when(tk) and "only under a condition") or \
                (not step.ix < rc.ix < tk.ix and "not after the step, reception first") or \
                (uid_of(norm(tk.args[0])) != uid_of(own) and "unloads for another receiver")
        ctx.ob("start/%s/received%s" % (name, "" if alt is None else "/" + alt.split("::")[-1].rstrip(">")), not why,
               ewhere(take[0]) if take else where(lo.fn),
               "after every step each of the %s takes all messages that arrived for it" % name, why or "")


def taken(t, end):
    return t[:2] == ("call", ENDPOINT + "unload_messages") and t[2][0] == end


def source(r, t):
    """What a local variable was made from."""
    d = {P(e.loc): norm(e.val) for e in r.events if e.kind == "decl" and e.loc is not None and e.val is not None}
    return d.get(t, t)


def named(r, t):
    d = {P(e.loc): norm(e.val) for e in r.events if e.kind == "decl" and e.loc is not None and e.val is not None}

    def go(x, depth=0):
        if not isinstance(x, tuple) or depth > 30:
            return x
        if x in d and d[x] != x:
            return go(d[x], depth + 1)
        return tuple(go(y, depth + 1) for y in x)
    return go(norm(t))


def buffered(ctx, lo, outputs):
    r = lo.r
    el = ("elem", outputs)
    buf = ("fld", el, "message_buffer_")
    end = ("fld", el, "endpoint_")
    adds = []
    for e, v, c in appends(r):
        if norm(c) == buf and e.name != "reserve":
            adds.append((e, v))
    ms = [e for e in mutations(r, buf, deep=False) if e.name not in ("reserve", "shrink_to_fit") and
          e.qn not in ("std::back_inserter", "std::copy", "std::move")]
    whole = [b for b in bulks(r) if norm(b.dst) == buf and b.e.qn in ("std::copy", "std::move")]
    if len(whole) == 1 and not adds and not ms:
        b = whole[0]
        ok = taken(named(r, b.src), end) and not lo.of(b.e, outputs) and not lo.when(b.e)
        ctx.ob("start/outputs/kept", ok, ewhere(b.e),
               "an output channel keeps every message it takes, in order, after the ones it has",
               "not every message, once, at the end")
        return
    ok, why = len(adds) == 1 and len(ms) == 1, "%d insertions, %d changes" % (len(adds), len(ms))
    if ok:
        e, v = adds[0]
        v = named(r, v)
        n = len(lo.root)
        rest = e.loops[n:]
        if e.name == "insert" and len(rest) == 1:
            a = [named(r, x) for x in e.args]
            ok = a[0] == ("end", buf) and unmoved(a[-2])[:1] == ("begin",) and taken(unmoved(a[-2])[1], end) and \
                unmoved(a[-1]) == ("end", unmoved(a[-2])[1])
        else:
            ok = len(rest) == 2 and v[:1] == ("elem",) and taken(v[1], end) and e.name in ("push_back", "emplace_back") and \
                rest[1].kind == "foreach" and named(r, rest[1].over) == v[1] and not rest[1].early
        ok = ok and not rest[0].early and norm(rest[0].over) == outputs and not lo.when(e)
        why = "not every message, once, at the end"
    ctx.ob("start/outputs/kept", ok, ewhere(adds[0][0]) if adds else where(lo.fn),
           "an output channel keeps every message it takes, in order, after the ones it has", why)


def unmoved(t):
    while t[:1] == ("call",) and t[1] in ("std::make_move_iterator", "std::move") and t[2]:
        t = t[2][0]
    return t


def handled(ctx, lo, handlers):
    r = lo.r
    el = ("deref", ("elem", handlers))
    end = ("fld", el, "endpoint_")
    runs = [e for e in r.events if e.kind == "call" and e.name == "operator()" and e.obj is not None and
            norm(e.obj) == ("fld", el, "message_handler_function_")]
    ok, why = len(runs) == 1, "%d calls" % len(runs)
    if ok:
        why = lo.of(runs[0], handlers) or (lo.when(runs[0]) and "only under a condition") or \
            (not taken(named(r, runs[0].args[0]), end) and "not called with the messages it received")
        ok = not why
    ctx.ob("start/handlers/run", ok, ewhere(runs[0]) if runs else where(lo.fn),
           "every message handler is called once per step with all messages it received", why)
    sends = [e for e in r.events if e.kind == "call" and e.qn == ENDPOINT + "send_message" and e.obj is not None and
             norm(e.obj) == end]
    ok, why = len(sends) == 1, "%d sends" % len(sends)
    if ok and runs:
        s = sends[0]
        m = named(r, s.args[0])
        parts = agg(m)
        hd = agg(parts.get("header_", ()))
        spikes = parts.get("neuron_indexes_", ())
        isrun = spikes[:2] == ("call", "std::function::operator()") and spikes[2][0] == norm(runs[0].obj)
        g = [c for c in lo.when(s)]
        nonempty = lambda c: c[:1] == ("not",) and c[1][:1] == ("empty",) or \
            c[:1] == ("lt",) and c[1] == T.ZERO and c[2][:1] == ("size",)
        extra_c = [c for c in g if not nonempty(c)]
        why = lo.of(s, handlers) or (extra_c and "only when " + S(extra_c[0])[:100]) or \
            (not isrun and "does not carry what the handler returned") or \
            (uid_of(hd.get("sender_uid_", ("?",))) != uid_of(("fld", ("fld", el, "base_"), "uid_")) and "not under the UID of the handler") or \
            (hd.get("send_time_") != lo.step_no and "not with the current step")
        ok = not why
    ctx.ob("start/handlers/sent", ok, ewhere(sends[0]) if sends else where(lo.fn),
           "what a handler returns is sent under its UID with the current step, unless there is nothing to send", why)


def agg(t):
    """Fields of an aggregate or of an object built from values in place."""
    while isinstance(t, tuple) and t[:1] in (("copy",), ("moved",)):
        t = t[-1]
    if isinstance(t, tuple) and t[:1] == ("agg",):
        return dict(t[2])
    return {}


def observed(ctx, lo, observers, alts):
    r = lo.r
    el = ("elem", observers)
    end = ("fld", el, "endpoint_")
    for alt in alts:
        runs = [e for e in r.events if e.kind == "call" and e.name == "operator()" and e.obj is not None and
                norm(e.obj) == ("fld", el, "process_messages_") and (alt in alt_of(e) or not alt_of(e))]
        ok, why = len(runs) == 1, "%d calls" % len(runs)
        if ok:
            why = lo.of(runs[0], observers) or (lo.when(runs[0]) and "only under a condition") or \
                (not taken(named(r, runs[0].args[0]), end) and "not called with the messages it received")
            ok = not why
        ctx.ob("start/observers/run/" + alt.split("::")[-1].rstrip(">"), ok, ewhere(runs[0]) if runs else where(lo.fn),
               "every observer is called once per step with all messages it received", why)


def input_channel(ctx):
    for fn in ctx.prog.fn(IN + "::InputChannel::send"):
        r = ctx.run(fn, opaque=endpoint_only, okey="send")
        step = parameter(fn, 0)
        gen = ("call", "std::function::operator()", (this("generator_"), step))
        gens = [e for e in r.events if e.kind == "call" and e.name == "operator()" and e.obj is not None and
                norm(e.obj) == this("generator_")]
        ctx.ob("input/generated", len(gens) == 1 and not guards(gens[0]) and [norm(a) for a in gens[0].args] == [step],
               where(fn), "an input channel asks its generator exactly once per step, with the step",
               "%d calls" % len(gens))
        sends = [e for e in r.events if e.kind == "call" and e.qn == ENDPOINT + "send_message"]
        ok, why = len(sends) == 1 and not sends[0].loops, "%d sends" % len(sends)
        nonempty = lambda c: (c[:1] == ("not",) and c[1][:1] == ("empty",) and named(r, c[1][1]) == gen or
                              c[:1] == ("lt",) and c[1] == T.ZERO and c[2][:1] == ("size",) and named(r, c[2][1]) == gen)
        if ok:
            s = sends[0]
            m = agg(named(r, s.args[0]))
            hd = agg(m.get("header_", ()))
            bad = [c for c in conds(s.guards) if not nonempty(c)]
            why = (bad and "only when " + S(bad[0])[:100]) or \
                (norm(s.obj) != this("endpoint_") and "not over its endpoint") or \
                (m.get("neuron_indexes_") != gen and "not the generated spikes") or \
                (uid_of(hd.get("sender_uid_", ("?",))) != uid_of(this("base_", "uid_")) and "not under its UID") or \
                (hd.get("send_time_") != step and "not with the step")
            ok = not why
        ctx.ob("input/sent", ok, where(fn),
               "the generated spikes are sent under the UID of the channel with the step, unless there are none", why)
        for s, v, _ in r.exits:
            v = norm(v)
            cs = conds(s.guards)
            if v in (T.TRUE, T.FALSE):
                known = any(nonempty(c if v == T.TRUE else T.neg(c)) for c in cs)
                ctx.ob("input/result", known, where(fn), "sending says whether there was anything to send",
                       "returns %s otherwise" % S(v))
            else:
                ctx.ob("input/result", nonempty(v) or named(r, v)[:1] == ("not",), where(fn),
                       "sending says whether there was anything to send", S(v))


def registered(ctx):
    for fn in ctx.prog.fn(EXEC + "::add_spike_message_handler"):
        r = ctx.run(fn, opaque=endpoint_only, okey="reg")
        sub = [e for e in r.events if e.kind == "call" and e.qn.endswith("::subscribe") and (e.meta or {}).get("inroot") and
               e.qn.startswith(("knp::core::Backend", ENDPOINT))]
        uid = parameter(fn, 3)
        senders_p, rec = parameter(fn, 1), parameter(fn, 2)
        own = [e for e in sub if len(e.args) == 2 and not e.loops and norm(e.args[1]) == senders_p and not guards(e)]
        ok = len(own) == 1 and handler_uid(ctx, r, own[0].args[0], uid)
        ctx.ob("handler/senders", ok, where(fn), "a message handler receives what its senders send",
               "not subscribed to the senders under its own UID")
        peer = [e for e in sub if e not in own]
        ok = len(peer) == 1 and len(peer[0].loops) == 1 and norm(peer[0].loops[0].over) == rec and \
            not peer[0].loops[0].early and not guards(peer[0]) and norm(peer[0].args[0]) == ("elem", rec) and \
            senders(norm(peer[0].args[1])) == [uid] and \
            norm(peer[0].obj) in (("deref", RUN), fld_of(RUN, "message_endpoint_"))
        ctx.ob("handler/receivers", ok, where(fn), "every receiver of a message handler is subscribed to it",
               "%d subscriptions" % len(peer))
        puts = [x for x in appends(r, this("message_handlers_")) if x[0].kind == "call"]
        ctx.ob("handler/kept", len(puts) == 1 and not puts[0][0].loops and not guards(puts[0][0]), where(fn),
               "a message handler that is added is run by the executor", "%d insertions" % len(puts))


def handler_uid(ctx, r, t, uid):
    """The receiver of the subscription is the UID the handler was made with."""
    t = norm(t)
    if uid_of(t) == uid_of(uid):
        return True
    cls = EXEC + "::SpikeMessageHandler"
    made = [e for e in r.events if e.kind in ("enter", "ctor", "call") and (e.qn or "") == cls + "::SpikeMessageHandler"]
    if not (t[:1] == ("fld",) and t[2] == "uid_") or len(made) != 1 or uid not in [norm(a) for a in made[0].args]:
        return False
    k = [norm(a) for a in made[0].args].index(uid)
    for f in ctx.prog.fn(cls + "::SpikeMessageHandler"):
        if len(f.params) > k and f.ptype(k).replace("const ", "").rstrip(" &") == "knp::core::UID":
            vs = final(ctx.run(f), this("base_", "uid_"))
            if not vs or any(norm(v) != parameter(f, k) for v, _ in vs):
                return False
    return True


# ---------------------------------------------------------------------- F04
BUF = this("message_buffer_")


@check("F04", ["fw", "drv"])
def f04(ctx):
    for fn in ctx.prog.fn(OUT + "::OutputChannel::read_some_from_buffer"):
        read_some(ctx, fn)
    gets = ctx.prog.fn(OUT + "::output_channel_get")
    for fn in gets:
        taking(ctx, fn)
    for name, one in (("converter_bitwise", "mark"), ("converter_count", "count")):
        for fn in ctx.prog.fn("%s::%s" % (OUT, name)):
            table(ctx, fn, name, one)
    for fn in ctx.prog.fn(OUT + "::ConvertToSet::operator()"):
        as_set(ctx, fn)
    for fn in ctx.prog.fn(IN + "::SequenceConverter::operator()"):
        sequence(ctx, fn)
    for fn in ctx.prog.fn(IN + "::IndexConverter::operator()"):
        indexes(ctx, fn)


def read_some(ctx, fn):
    r = ctx.run(fn)
    lo, hi = parameter(fn, 0), parameter(fn, 1)
    when = ("fld", ("fld", ("elem", BUF), "header_"), "send_time_")
    inside = {T.neg(("lt", when, lo)), T.neg(("lt", hi, when))}
    empty = ("lt", hi, lo)
    first = lambda t: t[:2] == ("call", "std::lower_bound") and t[2][0] == ("begin", BUF) and t[2][1] == ("end", BUF) and \
        t[2][2] == lo and t[2][3] == ("lt", when, lo)
    last = lambda t: t[:2] == ("call", "std::upper_bound") and (t[2][0] == ("begin", BUF) or first(t[2][0])) and \
        t[2][1] == ("end", BUF) and t[2][2] == hi and t[2][3] == ("lt", hi, when)
    span = lambda a: len(a) >= 2 and first(unmoved(a[-2])) and last(unmoved(a[-1]))
    ms = [e for e in mutations(r, BUF) if e.name not in ("reserve", "shrink_to_fit") and e.kind == "call" and
          not (e.qn in ("std::lower_bound", "std::upper_bound"))]
    ok, why = False, "; ".join(S(("call", e.name, tuple(norm(a) for a in e.args))) for e in ms)[:300]
    if len(ms) == 1 and ms[0].name == "erase" and not ms[0].loops:
        a = [norm(x) for x in ms[0].args]
        cs = conds(ms[0].guards)
        if span(a):
            ok = cs <= {T.neg(empty)} and (bool(cs) or True)
        elif len(a) == 2 and a[0][:2] == ("call", "std::remove_if") and a[1] == ("end", BUF):
            ok = set(interp.conj(a[0][2][-1])) == inside and cs <= {T.neg(empty)}
    elif len(ms) == 2 and {e.name for e in ms} == {"remove_if", "erase"}:
        er = [e for e in ms if e.name == "erase"][0]
        a = [norm(x) for x in er.args]
        ok = len(a) == 2 and a[0][:2] == ("call", "std::remove_if") and a[1] == ("end", BUF) and \
            set(interp.conj(a[0][2][-1])) == inside and conds(er.guards) <= {T.neg(empty)} and not er.loops
    ctx.ob("buffer/removed", ok, where(fn), "reading takes exactly the messages of the steps asked for out of the buffer", why)
    took = []
    for e in r.events:
        if e.kind == "call" and e.qn in ("std::move", "std::copy") and len(e.args) == 3 and not e.loops:
            a = [norm(x) for x in e.args]
            if a[2][:2] == ("call", "std::back_inserter"):
                took.append((e, span(a[:2])))
        elif e.kind == "call" and e.qn in ("std::copy_if", "std::remove_copy_if") and not e.loops:
            a = [norm(x) for x in e.args]
            took.append((e, e.qn == "std::copy_if" and a[0] == ("begin", BUF) and a[1] == ("end", BUF)))
        elif e.kind == "call" and e.obj is not None and P(e.obj)[:1] == ("var",) and e.name in ("insert", "assign") and \
                len(e.args) >= 2:
            took.append((e, span([norm(x) for x in e.args])))
        elif e.kind == "call" and e.obj is not None and P(e.obj)[:1] == ("var",) and e.name in ("push_back", "emplace_back"):
            own = [c for c in conds(e.guards) if c not in (T.neg(empty),)]
            took.append((e, norm(e.args[0]) == ("elem", BUF) and set(own) == inside and len(e.loops) == 1 and
                         norm(e.loops[0].over) == BUF and not e.loops[0].early))
        elif e.kind == "ctor" and len(e.args) >= 2 and "SpikeMessage" in (e.qn or "") + str(e.types):
            a = [norm(x) for x in e.args]
            if any(first(unmoved(x)) for x in a):
                took.append((e, span([x for x in a if unmoved(x)[:1] == ("call",)])))
        elif e.kind == "decl" and e.val is not None:
            v = norm(e.val)
            if v[:1] == ("new",) and "vector" in v[1] and len(v[2]) >= 2 and any(first(unmoved(x)) for x in v[2]):
                took.append((e, span([x for x in v[2][:2]])))
    took = [(e, ok) for e, ok in took if e.kind != "ctor"] or took
    ok = len(took) == 1 and took[0][1] and all(took[0][0].ix < m.ix for m in ms)
    ctx.ob("buffer/taken", ok, ewhere(took[0][0]) if took else where(fn),
           "reading returns exactly the messages of the steps asked for, before they are dropped",
           "%d transfers, %s" % (len(took), "not of exactly these messages" if took else ""))
    for s, v, _ in r.exits:
        v = norm(v)
        plain = v[:1] in (("var",), ("new",), ("phi",)) or v[:1] == ("ite",)
        ctx.ob("buffer/result", plain, where(fn), "reading returns what it took", S(v)[:140])
    stop = {c for s, _, _ in r.exits for c in conds(s.guards)} | {c for e in ms for c in conds(e.guards)}
    ctx.ob("buffer/empty", stop <= {empty, T.neg(empty)} and any(T.neg(empty) in conds(e.guards) or span([norm(x) for x in e.args]) is False
                                                                 for e in ms), where(fn),
           "an empty interval of steps takes nothing", "taken although the last step is before the first")


def taking(ctx, fn):
    r = ctx.run(fn, opaque=lambda m, f: m["qn"].startswith(OUT + "::OutputChannel::"), okey="get")
    chan, conv, a, b = [parameter(fn, i) for i in range(4)]
    ups = [e for e in r.events if e.kind == "call" and e.qn == OUT + "::OutputChannel::update"]
    reads = [e for e in r.events if e.kind == "call" and e.qn == OUT + "::OutputChannel::read_some_from_buffer"]
    ok = len(ups) >= 1 and len(reads) == 1 and ups[0].ix < reads[0].ix and [norm(x) for x in reads[0].args] == [a, b] and \
        norm(reads[0].obj) == chan and norm(ups[0].obj) == chan and not guards(ups[0]) and not guards(reads[0])
    ctx.ob("get/read", ok, where(fn), "getting a result updates the channel and reads the steps asked for, both ends included",
           "not update, then one read of [from, to]")
    vs = [named(r, x.val) for x in rets(r)]
    want = ("call", "std::function::operator()", (conv, ("call", OUT + "::OutputChannel::read_some_from_buffer", (chan, a, b))))
    ctx.ob("get/converted", vs and all(v == want for v in vs), where(fn), "the result is the conversion of the messages read",
           "; ".join(S(v)[:120] for v in vs))


def complete(e, *over):
    if len(e.loops) != len(over):
        return False
    return all(lp.kind == "foreach" and not lp.early and norm(lp.over) == c for lp, c in zip(e.loops, over))


def table(ctx, fn, name, one):
    r = ctx.run(fn)
    ms, n = parameter(fn, 0), parameter(fn, 1)
    idx = ("fld", ("elem", ms), "neuron_indexes_")
    el = ("elem", idx)
    decl = {P(e.loc): norm(e.val) for e in r.events if e.kind == "decl" and e.val is not None}
    tables = [v for v, d in decl.items() if d[:1] == ("new",) and d[2] and d[2][0] == n]
    blank = [v for v in tables if len(decl[v][2]) == 1 or decl[v][2][1] in (T.FALSE, T.ZERO) or decl[v][2][1][:1] != ("lit",)]
    ws = [e for e in r.events if e.kind == "write" and norm(e.loc)[:1] == ("at",)]
    ok, why = len(blank) == 1 and len(ws) == 1, "%d tables, %d entries written" % (len(blank), len(ws))
    if ok:
        w = ws[0]
        loc = norm(w.loc)
        ok = loc == ("at", blank[0], el) and complete(w, ms, idx) and conds(w.guards) == {("lt", el, n)}
        val = norm(w.val)
        ok = ok and (val == T.TRUE if one == "mark" else
                     plus(val).get(None) == 1 and [k for k in plus(val) if k is not None] == [loc])
        why = "entry %s becomes %s when %s" % (S(loc)[:60], S(val)[:80], ", ".join(S(c)[:60] for c in conds(w.guards)))
    ctx.ob("convert/" + name, ok, ewhere(ws[0]) if ws else where(fn),
           "every spike of a neuron below the size %s its entry; other spikes change nothing" %
           ("sets" if one == "mark" else "adds one to"), why)
    vs = {norm(x.val) for x in rets(r)}
    ctx.ob("convert/%s/result" % name, bool(blank) and vs <= {blank[0], decl[blank[0]]}, where(fn),
           "the converter returns one entry per neuron", "; ".join(S(v)[:100] for v in vs))


def as_set(ctx, fn):
    r = ctx.run(fn)
    ms = parameter(fn, 0)
    n = this("output_size_")
    idx = ("fld", ("elem", ms), "neuron_indexes_")
    el = ("elem", idx)
    puts, cut = [], []
    for e in r.events:
        if e.kind != "call" or e.obj is None or P(e.obj)[:1] != ("var",):
            continue
        a = [norm(x) for x in e.args]
        if e.name in ("insert", "emplace"):
            if len(a) == 2 and a == [("begin", idx), ("end", idx)]:
                puts.append((e, complete(e, ms) and not guards(e), False))
            else:
                c = conds(e.guards)
                puts.append((e, a == [el] and complete(e, ms, idx) and c <= {("lt", el, n)}, ("lt", el, n) in c))
        elif e.name in ("erase", "clear", "extract"):
            lb = a and a[0][:2] == ("call", "std::set::lower_bound") and a[0][2][-1] == n or \
                a and a[0][:1] == ("lower_bound",) and a[0][-1] == n
            cut.append((e, e.name == "erase" and len(a) == 2 and bool(lb) and a[1][:1] == ("end",) and not e.loops and not guards(e)))
    ok = len(puts) == 1 and puts[0][1]
    ctx.ob("convert/set/all", ok, where(fn), "the set gets the neurons of every message", "%d insertions" % len(puts))
    inside = puts and puts[0][2]
    ok = (not cut and inside or len(cut) == 1 and cut[0][1] and (inside or cut[0][0].ix > puts[0][0].ix)) if puts else False
    ctx.ob("convert/set/below", ok, where(fn), "the set keeps exactly the neurons below the size", "not cut at the size")


def sequence(ctx, fn):
    r = ctx.run(fn)
    n = this("data_size_")
    asks = [e for e in r.events if e.kind == "call" and e.name == "operator()" and e.obj is not None and
            norm(e.obj) == this("interpret_")]
    reads = [e for e in r.events if e.kind == "call" and e.name == "operator>>"]
    puts = [e for e in r.events if e.kind == "call" and e.name in ("push_back", "emplace_back")]
    stream = ("deref", this("stream_"))
    one = len(reads) == 1 and len(asks) == 1 and norm(reads[0].obj) == stream and len(reads[0].loops) == 1 and \
        reads[0].loops == asks[0].loops and reads[0].ix < asks[0].ix and reads[0].loops[0].kind == "range" and \
        norm(reads[0].loops[0].over)[0:1] != ()
    if one:
        over = reads[0].loops[0].over
        lohi = [norm(x) for x in over[:3]] if over[:1] not in (("range",),) else [norm(x) for x in over[1:4]]
        one = lohi[0] == T.ZERO and lohi[1] == n and lohi[2] in (("lit", "1"), 1, T.lit(1) if hasattr(T, "lit") else 1)
        leave = [set().union(*[interp.conj(norm(c)) for c in x]) if x else set() for x in reads[0].loops[0].leaves]
        one = one and all(any(read_fails(c) for c in x) for x in leave)
        one = one and asks[0].raw and reads[0].raw and reads[0].raw[-1] == asks[0].raw[-1] or \
            one and norm(asks[0].args[0])[:1] == ("var",)
    ctx.ob("sequence/read", one, where(fn),
           "one value is read from the stream for every neuron, in order, until the stream has no more", "not one read per neuron")
    ok, why = len(puts) == 1 and len(asks) == 1, "%d insertions" % len(puts)
    if ok:
        p = puts[0]
        cs = conds(p.guards)
        own = [c for c in cs if not read_fails(T.neg(c))]
        v = norm(p.args[0])
        ok = v[:1] == ("idx",) and v[1] == T.ZERO and v[2] == n and len(own) == 1 and own[0][:1] != ("not",) and \
            any(x[:2] == ("call", "std::function::operator()") and x[2][0] == this("interpret_") for x in T.subterms(own[0]) if len(x) == 3)
        why = "neuron %s when %s" % (S(v)[:40], ", ".join(S(c)[:80] for c in own))
    ctx.ob("sequence/spikes", ok, where(fn), "a neuron spikes exactly when its value is interpreted as a spike", why)


def read_fails(c):
    """The condition is `reading from the stream failed`."""
    odd = False
    while True:
        if c[:1] == ("not",):
            c, odd = c[1], not odd
        elif c[:1] == ("truth",):
            c = c[1]
        elif c[:1] == ("call",) and str(c[1]).endswith("operator!"):
            c, odd = c[2][0], not odd
        elif c[:1] == ("call",) and str(c[1]).endswith("::fail"):
            return not odd
        elif c[:1] == ("call",) and "operator conv" in str(c[1]):
            c = c[2][0]
        else:
            return odd and c[:1] == ("call",) and "operator>>" in str(c[1])


def mentions_read(c):
    return any(x[:1] == ("call",) and "operator>>" in str(x[1]) for x in T.subterms(c) if len(x) > 1)


def indexes(ctx, fn):
    r = ctx.run(fn)
    lines = [e for e in r.events if e.kind == "call" and e.qn == "std::getline"]
    ok = len(lines) == 1 and norm(lines[0].args[0]) == ("deref", this("stream_")) and not lines[0].loops and not guards(lines[0])
    ctx.ob("index/line", ok, where(fn), "one line of the stream makes one message", "%d lines read" % len(lines))
    puts = [e for e in r.events if e.kind == "call" and e.name in ("push_back", "emplace_back")]
    nums = [e for e in puts if norm(e.args[0])[:1] == ("call",) and norm(e.args[0])[1] in (
        "std::stoul", "std::stoull", "std::stoi", "std::stol", "std::stoll")]
    free = [e for e in nums if len(e.loops) == 1 and all(c in loop_conds(e.loops[0]) or c[:1] == ("not",) and "isend" in S(c) or
                                                        mentions_read(c) for c in map(lv, conds(e.guards)))]
    once = len(puts) == 1 and not [e for e in mutations(r, P(puts[0].obj)) if e is not puts[0] and e.name != "reserve"]
    ctx.ob("index/numbers", once and len(puts) == 1 and len(nums) == 1 and len(free) == 1, where(fn),
           "every number of the line becomes one spike", "%d insertions, %d of them unconditional" % (len(puts), len(free)))
    find = [e for e in r.events if e.kind == "call" and e.name in ("find", "getline", "find_first_of") and e.loops]
    ctx.ob("index/delimiter", any(this("delim_") in [norm(a) for a in e.args] for e in find), where(fn),
           "the numbers of a line are separated by the given delimiter", "the delimiter is not looked for")
