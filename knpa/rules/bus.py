"""Rules for the message bus and its endpoints."""
from .. import interp
from .. import terms as T
from ..facts import AnalysisBroken
from ..lib import (P, S, appends, bulks, calls, check, entered, ewhere, fld, guards, inst, loops_over, mutations, must,
                   on_path, rets, spent, this, under, unmove, where, GROWERS)

C = "knp::core::"
EP = C + "MessageEndpoint"
IMPL = C + "messaging::impl::"
SUBS = this("subscriptions_")
SENDERS = this("senders_")
SETLOC = ("deref", SENDERS)


def is_sender_set(loc):
    return SETLOC in T.alts(loc)


def sub_ctor(m, f):
    return m["qn"] == C + "Subscription::Subscription"


def recomputes(r):
    """Points where the sender set is replaced by the union over all subscriptions."""
    out = []
    for b in bulks(r):
        if b.src != fld(("get", "1", ("elem", SUBS)), "senders_") and not (
                b.src[:1] == ("fld",) and b.src[2] == "senders_" and T.mentions(b.src, ("elem", SUBS))):
            continue
        lp = loops_over(b.e, SUBS)
        if not lp or lp[-1].early or len(b.loops) != 1:
            continue
        inside = {g for g in b.guards if g[:1] != ("alt",)}
        if is_sender_set(b.dst):
            cl = [e for e in r.events if e.kind == "call" and e.name == "clear" and is_sender_set(P(e.obj)) and
                  e.ix < b.ix and not e.loops]
            if cl and inside <= guards(cl[-1]):
                out.append((cl[-1], b))
        else:
            for e in r.events:
                if e.ix < b.ix or e.loops or not inside <= guards(e):
                    continue
                if e.kind == "write" and is_sender_set(P(e.loc)) and P(e.val) == b.dst:
                    out.append((e, b))
                elif e.kind == "call" and e.name in ("swap", "operator=") and e.obj is not None and e.args and (
                        is_sender_set(P(e.obj)) and P(e.args[0]) == b.dst or
                        is_sender_set(P(e.args[0])) and P(e.obj) == b.dst):
                    out.append((e, b))
    return out


def sender_set_writes(r):
    """Everything that changes the sender set or replaces the set object."""
    out = []
    for e in r.events:
        if e.kind == "write" and P(e.loc) == SENDERS:
            out.append(("object", e))
        elif e.kind == "write" and is_sender_set(P(e.loc)):
            out.append(("content", e))
        elif e.kind == "call" and e.obj is not None and is_sender_set(P(e.obj)) and \
                e.name in ("clear", "erase", "insert", "emplace", "swap", "operator=", "merge", "extract"):
            out.append(("content", e))
        elif e.kind == "call" and e.obj is not None and P(e.obj) == SENDERS and e.name in ("reset", "swap", "operator="):
            out.append(("object", e))
    return out


@check("C02", ["core"], ["core", "st", "mt", "fw"])
def c02(ctx):
    rcv, snd = ("receiver", "senders"), None
    n = 0
    for f in ctx.prog.fn(EP + "::subscribe"):
        n += 1
        r = ctx.run(f, opaque=sub_ctor, okey="sub")
        receiver, senders = [("parm", p["n"], i) for i, p in enumerate(f.params)]
        lab = "subscribe<%s>" % inst(f)
        # both the subscription and the sender set gain every sender, on every way out
        for s, v, line in r.exits:
            v = P(v)
            bs = [b for b in bulks(r) if b.src == senders and must(b.e, s) and not b.loops]
            rec = [a for a, b in recomputes(r) if must(a, s)]
            cur = [b for b in bs if b.dst[:1] == ("fld",) and b.dst[2] == "senders_" and T.mentions(b.dst, SUBS)]
            new = []
            for e, val, c in appends(r):
                if c == SUBS and must(e, s):
                    ok = any(x[:1] in (("new",), ("agg",), ("call",)) and senders in x[-1] and receiver in x[-1]
                             for x in T.subterms(val) if len(x) > 2 and isinstance(x[-1], tuple))
                    if ok:
                        new.append((e, val))
            existing = any(g[:1] == ("has",) and g[1] == SUBS for g in map(P, s.guards))
            kind = "existing" if existing else "new"
            ctx.ob("subscribe/subscription-%s" % kind, cur or new, where(f, line),
                   "subscribing adds every listed sender to the %s subscription" % kind,
                   "on the way to the return the senders never reach the subscription")
            inset = [b for b in bs if is_sender_set(b.dst)]
            last = max([x.ix for x in cur] + [e.ix for e, _ in new], default=-1)
            ctx.ob("subscribe/sender-set-%s" % kind, inset or [a for a in rec if a.ix > last], where(f, line),
                   "subscribing adds every listed sender to the set the bus consults",
                   "on the way to the return the senders never reach the sender set")
            # the returned subscription is the one of this receiver and message type
            keys = {x for x in T.subterms(v) if x[:1] == ("tuple",) and receiver in x[1]}
            gi = [x[1] for x in T.subterms(v) if x[:1] == ("get",) and len(x) == 3 and x[1].isdigit()]
            ok = len(keys) == 1 and gi and keys and next(iter(keys))[1][0] == ("lit", gi[0])
            ctx.ob("subscribe/key-%s" % kind, ok, where(f, line),
                   "the subscription is looked up and stored under its message type and its receiver", S(v))
        for e in mutations(r, SUBS):
            bad = e.kind == "call" and P(e.obj) == SUBS and e.name not in ("emplace", "try_emplace", "insert")
            if e.kind == "call" and P(e.obj) == SUBS and e.name in ("insert_or_assign", "operator[]"):
                bad = not any(g[:1] == ("not",) and g[1][:1] == ("has",) for g in guards(e))
            if e.kind == "call" and e.obj is not None and P(e.obj) != SUBS:
                bad = e.name in ("clear", "erase", "swap") and T.mentions(P(e.obj), SUBS)
            ctx.ob("subscribe/keeps-others", not bad, ewhere(e),
                   "subscribing never drops a subscription, a sender or a message already held", "%s of %s" % (
                       e.name or e.op, S(e.obj or e.loc)))
        for kind, e in sender_set_writes(r):
            if kind == "object":
                ctx.ob("subscribe/same-set", T.neg(("truth", SENDERS)) in guards(e), ewhere(e),
                       "the set object shared with the bus is created once and never replaced", "replaced")
            else:
                isrec = any(e is a for a, _ in recomputes(r))
                ctx.ob("subscribe/set-grows", isrec or (e.kind == "call" and e.name in ("insert", "emplace")), ewhere(e),
                       "subscribing only adds to the sender set", "%s" % (e.name or e.op))
        del lab
    ctx.floor("subscribe instantiations", n, 2)
    for f in ctx.prog.fn(C + "Subscription::Subscription"):
        if f.meta.get("cm") or f.implicit or f.dflt or len(f.params) != 2:
            continue
        r = ctx.run(f)
        ini = {P(e.loc)[2]: P(e.val) for e in r.events if e.kind == "write" and P(e.loc)[:1] == ("fld",)}
        ctx.ob("subscription/receiver", ini.get("receiver_") == ("parm", f.params[0]["n"], 0), where(f),
               "a subscription keeps the receiver it was made for", S(ini.get("receiver_")))
        got = [b for b in bulks(r) if b.src == ("parm", f.params[1]["n"], 1) and not b.guards and not b.loops]
        ctx.ob("subscription/senders", bool(got) or T.mentions(ini.get("senders_"), ("parm", f.params[1]["n"], 1)),
               where(f), "a subscription starts with every sender it was made for", "senders are not taken over")
    for f in ctx.prog.fn(C + "Subscription::has_sender"):
        r = ctx.run(f)
        for e in rets(r):
            ctx.ob("subscription/has-sender", P(e.val) == ("has", this("senders_"), ("parm", f.params[0]["n"], 0)),
                   ewhere(e), "a subscription accepts exactly the senders in its set", S(e.val))
    own = this("senders_")
    for nm, may in (("add_sender", ("insert", "emplace")), ("add_senders", ("insert", "emplace", "merge", "copy", "move")),
                    ("remove_sender", ("erase",)), ("add_message", ()), ("clear_messages", ()), ("get_messages", ())):
        for f in ctx.prog.fn(C + "Subscription::" + nm, required=False):
            r = ctx.run(f)
            for e in mutations(r, own):
                ok = e.name in may and (nm == "add_senders" or [P(a) for a in e.args] == [("parm", f.params[0]["n"], 0)])
                ctx.ob("subscription/" + nm, ok, ewhere(e), "a subscription's senders change only by the operation asked for",
                       "%s %s" % (e.name or e.op, S(e.args)))
            if nm == "add_senders":
                got = [b for b in bulks(r) if b.src == ("parm", f.params[0]["n"], 0) and b.dst == own and not b.guards and not b.loops]
                ctx.ob("subscription/add_senders/all", len(got) == 1, where(f), "every listed sender is added", "%d places" % len(got))
            elif nm in ("add_sender", "remove_sender"):
                m = [e for e in mutations(r, own) if not guards(e)]
                ctx.ob("subscription/%s/done" % nm, len(m) == 1, where(f), "the sender is added or removed", "%d places" % len(m))
    # removal
    n = 0
    for f in ctx.prog.fn(EP + "::unsubscribe"):
        n += 1
        r = ctx.run(f)
        receiver = ("parm", f.params[0]["n"], 0)
        erases = [e for e in r.events if e.kind == "call" and e.obj is not None and P(e.obj) == SUBS and
                  e.name in ("erase", "extract")]
        ctx.ob("unsubscribe/erases", bool(erases), where(f), "unsubscribing removes the subscription",
               "nothing is erased")
        keys = set()
        for e in erases:
            a = P(e.args[0]) if e.args else ()
            key = [x for x in T.subterms(a) if x[:1] == ("tuple",) and receiver in x[1]]
            exact = a[:1] == ("find",) or len(key) == 1 and (a == key[0] or ("has", SUBS, key[0]) in guards(e) or any(
                x[:1] == ("eq",) and key[0] in x[1:] for x in guards(e)))
            ctx.ob("unsubscribe/key", len(key) == 1 and key[0][1][0][:1] == ("lit",) and exact, ewhere(e),
                   "unsubscribing removes the subscription of the given receiver and message type, nothing else", S(a))
            keys |= set(key)
        for e in mutations(r, SUBS):
            ctx.ob("unsubscribe/keeps-others", any(e is x for x in erases), ewhere(e),
                   "unsubscribing leaves other subscriptions alone", "%s" % (e.name or e.op))
        for s, v, line in r.exits:
            er = [e for e in erases if on_path(e, s)]
            mu = [e for e in erases if must(e, s)]
            for a in T.alts(P(v)):
                truthy = T.truth(a)
                if truthy == T.TRUE:
                    ok = bool(mu)
                elif truthy == T.FALSE:
                    ok = not er
                else:
                    ok = bool(er)
                ctx.ob("unsubscribe/reports", ok, where(f, line),
                       "unsubscribing reports true exactly when a subscription was removed", S(v))
            if er:
                rec = [a for a, _ in recomputes(r) if all(a.ix > e.ix for e in er) and (must(a, s) or all(
                    g in guards(e) or did(g, e) for e in er for g in guards(a)))]
                ctx.ob("unsubscribe/sender-set", bool(rec), where(f, line),
                       "after unsubscribing, the set the bus consults is the union over the remaining subscriptions",
                       "the sender set is not recomputed from all subscriptions after the removal")
        for kind, e in sender_set_writes(r):
            if kind == "object":
                ctx.ob("unsubscribe/same-set", T.neg(("truth", SENDERS)) in guards(e), ewhere(e),
                       "the set object shared with the bus is never replaced", "replaced")
    ctx.floor("unsubscribe instantiations", n, 2)
    # which message type a key stands for is the same in every operation
    idx = {}
    for nm in ("subscribe", "unsubscribe", "unload_messages"):
        for f in ctx.prog.fn(EP + "::" + nm):
            r = ctx.run(f, opaque=sub_ctor, okey="sub")
            receiver = ("parm", f.params[0]["n"], 0)
            for e in r.events:
                for t in [x for x in (e.args or ()) if isinstance(x, tuple)]:
                    for x in T.subterms(P(t)):
                        if x[:1] == ("tuple",) and len(x[1]) == 2 and x[1][1] == receiver:
                            idx.setdefault(inst(f), {}).setdefault(x[1][0], (f, e))
    for ty, d in sorted(idx.items()):
        f, e = next(iter(d.values()))
        ctx.ob("type-key/" + ty.split("::")[-1].strip("<>"), len(d) == 1, ewhere(e),
               "every endpoint operation uses the same type index for one message type", str(sorted(map(S, d))))
    ctx.ob("type-key/distinct", len({next(iter(d)) for d in idx.values()}) == len(idx), where(f),
           "different message types have different indices", str(idx))
    f = ctx.prog.one(EP + "::remove_receiver")
    r = ctx.run(f)
    receiver = ("parm", f.params[0]["n"], 0)
    erases = [e for e in r.events if e.kind == "call" and e.obj is not None and P(e.obj) == SUBS and e.name == "erase"]
    good = []
    for e in erases:
        lp = loops_over(e, SUBS)
        g = [x for x in guards(e)]
        ok = bool(lp) and not lp[-1].early and len(g) == 1 and is_receiver_eq(g[0], ("get", "1", ("elem", SUBS)), receiver) \
            and len(e.args) == 1 and T.plain(e.args[0])[:1] in (("iter",), ("elem",), ("idx",))
        good.append(ok)
        ctx.ob("remove-receiver/erases", ok, ewhere(e),
               "removing a receiver erases every subscription of that receiver and no other",
               "erases %s under %s" % (S(e.args), [S(x) for x in g]))
    ctx.ob("remove-receiver/some", bool(erases) or bool(calls(r, "std::erase_if")), where(f),
           "removing a receiver erases its subscriptions", "nothing is erased")
    for s, v, line in r.exits:
        rec = [a for a, _ in recomputes(r) if all(a.ix > e.ix for e in erases) and must(a, s)]
        ctx.ob("remove-receiver/sender-set", bool(rec), where(f, line),
               "after removing a receiver, the set the bus consults is the union over the remaining subscriptions",
               "the sender set is not recomputed from all subscriptions after the removal")
    for f in ctx.prog.fn(EP + "::update_senders", required=False)[:1]:
        r = ctx.run(f)
        ctx.ob("recompute/union", bool(recomputes(r)), where(f),
               "recomputing takes the union of the senders of all subscriptions", "some subscription can be left out")
        for kind, e in sender_set_writes(r):
            if kind == "object":
                ctx.ob("recompute/same-set", T.neg(("truth", SENDERS)) in guards(e), ewhere(e),
                       "the set object shared with the bus is never replaced", "replaced")
    f = ctx.prog.one(EP + "::get_senders_ptr")
    r = ctx.run(f)
    for s, v, line in r.exits:
        ctx.ob("shared-set", T.mentions(P(v), SENDERS), where(f, line), "the bus is given the endpoint's own sender set",
               S(v))
    # an endpoint that moves takes its subscriptions and its sender set along
    for f in ctx.prog.methods(EP):
        if f.meta.get("cm") == "move" and f.body is not None:
            r = ctx.run(f)
            ini = {P(e.loc)[2]: P(e.val) for e in r.events if e.kind == "write" and P(e.loc)[:2] == ("fld", ("this",))}
            for nm in ("impl_", "subscriptions_", "senders_"):
                ctx.ob("move/" + nm, ini.get(nm) == fld(("parm", f.params[0]["n"], 0), nm), where(f),
                       "a moved endpoint keeps its connection, its subscriptions and its sender set",
                       "%s becomes %s" % (nm, S(ini.get(nm, ("str", "default")))))


def did(g, e):
    """The condition says that the removal `e` removed something."""
    t, k = (g[1], False) if g[:1] == ("not",) else (g, True)
    res = P(e.res) if e.res is not None else None
    t = t[1] if t[:1] == ("truth",) else t
    if t == res:
        return k
    return res is not None and (t[:1] == ("eq",) and res in t[1:] and T.ZERO in t[1:] and not k or
                                t[:1] == ("lt",) and t[1:] == (T.ZERO, res) and k)


def is_receiver_eq(g, sub, receiver):
    if g[:1] != ("eq",):
        return False
    a, b = g[1], g[2]
    for x, y in ((a, b), (b, a)):
        while x[:1] == ("fld",) and y[:1] == ("fld",) and x[2] == y[2]:
            x, y = x[1], y[1]
            if x == fld(sub, "receiver_") and y == receiver:
                return True
        if x == fld(sub, "receiver_") and y == receiver:
            return True
        k = ("get", "1", ("get", "0", sub[2])) if sub[:1] == ("get",) else None
        if x == k and y == receiver:
            return True
    return False


# ----------------------------------------------------------------------------------------------- C07
@check("C07", ["core"], ["core", "st", "mt", "fw"])
def c07(ctx):
    f = ctx.prog.one(EP + "::receive_message")
    r = ctx.run(f)
    got = [e for e in r.events if e.kind == "call" and e.name == "receive_message" and T.mentions(P(e.obj), this("impl_"))]
    ctx.ob("receive/one", len(got) == 1 and not got[0].loops, where(f), "one call receives one message",
           "%d receive call sites" % len(got))
    if not got:
        return
    msg = P(got[0].res) if hasattr(got[0], "res") else None
    types = set()
    for e in r.events:
        if e.kind == "call" and e.name in ("push_back", "emplace_back") and P(e.obj)[:1] == ("fld",) and \
                P(e.obj)[2] == "messages_":
            a = P(e.args[0])
            sub = P(e.obj)[1]
            lp = loops_over(e, SUBS)
            ctx.ob("route/all-subscriptions", bool(lp) and not lp[-1].early, ewhere(e),
                   "every subscription is considered for a received message", "the walk over subscriptions can stop early")
            g = guards(e)
            has = [x for x in g if x[:1] == ("has",) and x[1] == fld(sub, "senders_")]
            sender = has and has[0][2][:1] == ("fld",) and has[0][2][2] == "sender_uid_" and \
                (msg is None or T.mentions(has[0][2], msg))
            ctx.ob("route/sender", bool(has) and bool(sender), ewhere(e),
                   "a message is stored only by subscriptions that list its sender", str([S(x) for x in g]))
            key = ("get", "0", ("get", "0", ("elem", SUBS)))     # subscriptions are stored under the index of their type (C02)
            typ = [x for x in g if x[:1] == ("eq",) and all(y[:1] == ("call",) and y[1].endswith("variant::index") or y == key
                                                           for y in x[1:]) and x[1] != x[2]]
            alt = [x for x in g if x[:1] == ("alt",)]
            ctx.ob("route/type", bool(typ) or any(x[:1] == ("call",) and "holds_alternative" in str(x) for x in g),
                   ewhere(e), "a message is stored only by subscriptions to its type", str([S(x) for x in g]))
            extra = [x for x in g if x not in has + typ + alt and not (msg and x == ("truth", msg))]
            ctx.ob("route/no-other-condition", not extra, ewhere(e),
                   "a subscription to the type that lists the sender always stores the message",
                   "also requires " + ", ".join(S(x) for x in extra))
            gone = spent(r, e.loops)
            ctx.ob("route/every-copy", not gone, ewhere(gone[0]) if gone else ewhere(e),
                   "a message stored by one subscription is still whole for the next", "moved out of in the loop")
            ctx.ob("route/payload", a[:1] == ("get",) and (msg is None or T.mentions(a, msg)), ewhere(e),
                   "the message stored is the one received", S(a))
            types |= {x[2] for x in alt}
    ctx.ob("route/types", len(types) >= 2, where(f), "every message type is routed", "routed: %s" % sorted(types))
    for s, v, line in r.exits:
        g = frozenset(map(P, s.guards))
        val = T.truth(P(v))
        pos = msg is not None and (("truth", msg) in g or T.neg(("truth", msg)) not in g)
        neg = msg is not None and (T.neg(("truth", msg)) in g)
        ctx.ob("receive/reports", (val == T.TRUE and pos) or (val == T.FALSE and neg) or val == ("truth", msg),
               where(f, line), "receiving reports true exactly when there was a message", S(v))
    # drain
    f = ctx.prog.one(EP + "::receive_all_messages")
    r = ctx.run(f, opaque=lambda m, g: m["qn"] == EP + "::receive_message", okey="drain")
    rc = [e for e in r.events if e.kind == "call" and e.qn == EP + "::receive_message"]
    ctx.ob("drain/calls", bool(rc), where(f), "receiving all messages receives", "no call")
    for e in rc:
        lp = [x for x in e.loops]
        ok = len(lp) == 1 and not lp[0].early and lp[0].kind in ("while", "for", "do") and \
            T.mentions(P(lp[0].over), P(e.res))
        first = not lp and any(x.loops for x in rc)
        ctx.ob("drain/until-empty", ok or first, ewhere(e),
               "receiving all messages goes on exactly until there is none left",
               "loop: %s" % [(x.kind, S(x.over), x.early) for x in lp])
    # unloading
    n = 0
    for f in ctx.prog.fn(EP + "::unload_messages"):
        n += 1
        r = ctx.run(f)
        for s, v, line in r.exits:
            g = frozenset(map(P, s.guards))
            v = P(v)
            has = [x for x in g if x[:1] == ("has",) and x[1] == SUBS]
            if any(x[:1] == ("not",) and x[1][:1] == ("has",) and x[1][1] == SUBS for x in g):
                ctx.ob("unload/none", v[:1] in (("new",), ("agg",), ("obj",), ("ctor",)) or not T.mentions(v, SUBS),
                       where(f, line), "without a subscription nothing is returned", S(v))
                continue
            src = [x for x in T.subterms(v) if x[:1] == ("fld",) and x[2] == "messages_" and T.mentions(x, SUBS)]
            ctx.ob("unload/returns", len(src) == 1 and bool(has), where(f, line),
                   "unloading returns the messages the receiver's subscription holds", S(v))
            if src:
                cl = [e for e in r.events if e.kind in ("call", "write", "moved") and must(e, s) and
                      (e.kind == "call" and e.obj is not None and P(e.obj) == src[0] and e.name in ("clear", "swap") or
                       e.kind == "write" and P(e.loc) == src[0])]
                ctx.ob("unload/empties", bool(cl), where(f, line),
                       "messages that were unloaded are gone from the subscription", "it keeps them")
    ctx.floor("unload_messages instantiations", n, 2)
    for f in ctx.prog.fn(C + "Subscription::add_message"):
        r = ctx.run(f)
        a = [x for x in appends(r, this("messages_")) if not guards(x[0])]
        ctx.ob("subscription/add-message", len(a) == 1 and a[0][1] == ("parm", f.params[0]["n"], 0), where(f),
               "a stored message is appended as it is", str([S(x[1]) for x in a]))
    f = ctx.prog.one(EP + "::send_message")
    r = ctx.run(f)
    for e in r.events:
        if e.kind == "call" and e.name == "send_message":
            ctx.ob("send/forward", P(e.args[0]) == ("parm", f.params[0]["n"], 0) and not guards(e) and not e.loops,
                   ewhere(e), "a message given to the endpoint is sent once, unchanged", S(e.args))


# ----------------------------------------------------------------------------------------------- C03
BUS = IMPL + "MessageBusCPUImpl"
CEP = IMPL + "MessageEndpointCPUImpl"
DATA = this("endpoint_data_")
ROUTE = this("messages_to_route_")
EL = ("elem", DATA)


def at_back(b, c):
    """The bulk is put behind what the container holds."""
    if b.e.name in ("push_back", "emplace_back"):
        return True
    if b.e.name == "insert":
        return P(b.e.args[0]) == ("end", c)
    return any(t[:2] == ("call", "std::back_inserter") or t == ("call", "std::inserter", (c, ("end", c)))
               for a in (b.e.args or ()) + ((b.e.loc,) if b.e.loc else ()) for t in T.subterms(P(a)))


def slot(i):
    return ("get", str(i), EL)


@check("C03", ["core"])
def c03(ctx):
    # which slot of the endpoint record is what, from the function that fills it
    f = ctx.prog.one(BUS + "::create_endpoint")
    r = ctx.run(f)
    reg = appends(r, DATA)
    ctx.ob("register/once", len(reg) == 1 and not guards(reg[0][0]) and not reg[0][0].loops, where(f),
           "every endpoint is registered on the bus exactly once", "%d registrations" % len(reg))
    impl = [e for e in entered(r, CEP + "::MessageEndpointCPUImpl")]
    if not reg or not impl:
        raise AnalysisBroken("C03: endpoint registration not found")
    rec = reg[0][1]
    if rec[:1] in (("tuple",),):
        rec = rec[1]
    elif rec[:1] in (("new",),) and len(rec) > 2:
        rec = rec[2]
    cf = ctx.prog.one(CEP + "::MessageEndpointCPUImpl")
    cr = ctx.run(cf)
    ini = {P(e.loc)[2]: P(e.val) for e in cr.events if e.kind == "write" and P(e.loc)[:2] == ("fld", ("this",))}
    args = [P(a) for a in impl[0].args]
    holds = {}
    for nm, v in ini.items():
        if v[:1] == ("parm",) and v[2] < len(args):
            holds[nm] = args[v[2]]
    # roles by what the endpoint does with its members
    sf, rf = ctx.prog.one(CEP + "::send_message"), ctx.prog.one(CEP + "::receive_message")
    sr, rr = ctx.run(sf), ctx.run(rf)
    outm = {P(e.obj)[1][2] for e, v, c in appends(sr) if c[:1] == ("deref",) and c[1][:2] == ("fld", ("this",))}
    inm = {P(e.obj)[1][2] for e in rr.events if e.kind == "call" and e.name in ("pop_back", "erase", "pop_front") and
           P(e.obj)[:1] == ("deref",) and P(e.obj)[1][:2] == ("fld", ("this",))}
    ctx.ob("endpoint/outbox", len(outm) == 1, where(sf), "sending puts the message into the endpoint's outbox", str(outm))
    ctx.ob("endpoint/inbox", len(inm) == 1 and inm != outm, where(rf), "receiving takes a message out of the endpoint's inbox",
           str(inm))
    if len(outm) != 1 or len(inm) != 1:
        return
    OUT, IN = outm.pop(), inm.pop()
    ctx.ob("register/outbox", len(rec) == 3 and OUT in holds and rec[0] == holds[OUT], ewhere(reg[0][0]),
           "the bus collects from the container the endpoint sends into", S(rec))
    ctx.ob("register/inbox", len(rec) == 3 and IN in holds and rec[1] == holds[IN], ewhere(reg[0][0]),
           "the bus delivers into the container the endpoint receives from", S(rec))
    ctx.ob("register/distinct", OUT in holds and IN in holds and holds[OUT] != holds[IN], ewhere(reg[0][0]),
           "the two containers are different objects", S(rec))
    sset = [P(e.val) for e in r.events if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.loc)[2] == "senders_"]
    ctx.ob("register/senders", len(rec) == 3 and any(T.mentions(rec[2], v) for v in sset), ewhere(reg[0][0]),
           "the bus consults the endpoint's own sender set", S(rec))
    # send: once, unconditionally
    a = appends(sr)
    ctx.ob("send/append", len(a) == 1 and not guards(a[0][0]) and not a[0][0].loops and
           a[0][1] == ("parm", sf.params[0]["n"], 0) and a[0][0].name in ("push_back", "emplace_back"), where(sf),
           "a sent message is appended to the outbox exactly once", str([S(x[1]) for x in a]))
    # receive: takes exactly what it returns
    box = ("deref", this(IN))
    pops = [e for e in mutations(rr, box)]
    for s, v, line in rr.exits:
        v = P(v)
        g = frozenset(map(P, s.guards))
        if v[:1] == ("none",) or v == ("lit", "nullopt"):
            ctx.ob("receive/empty", ("empty", box) in g and not [e for e in pops if on_path(e, s)], where(rf, line),
                   "receiving reports nothing exactly when the inbox is empty", str([S(x) for x in g]))
            continue
        p = [e for e in pops if must(e, s)]
        end = {("back", box): "pop_back", ("front", box): "pop_front"}
        val = v[1] if v[:1] == ("some",) else v
        want = end.get(val)
        ok = len(p) == 1 and len([e for e in pops if on_path(e, s)]) == 1 and (
            p[0].name == want or p[0].name == "erase" and val[:1] in (("front",), ("at",)))
        ctx.ob("receive/takes", ok and T.neg(("empty", box)) in g, where(rf, line),
               "receiving removes exactly the message it returns", "returns %s, removes by %s" % (
                   S(v), [e.name for e in p]))
    RECV_END = "back" if any(e.name == "pop_back" for e in pops) else "front"
    # collecting
    f = ctx.prog.one(BUS + "::update")
    r = ctx.run(f)
    outbox = ("deref", slot(0))
    bs = [b for b in bulks(r) if b.dst == ROUTE]
    ctx.ob("collect/some", len(bs) == 1 and bs[0].src == outbox, where(f),
           "a routing round collects what every endpoint has sent", str([S(b.src) for b in bs]))
    for b in bs:
        lp = loops_over(b.e, DATA)
        ok = len(lp) == 1 and not lp[0].early and b.guards <= {("truth", slot(0))}
        ctx.ob("collect/every-endpoint", ok, ewhere(b.e), "every live endpoint is collected from, whatever the others do",
               str([S(x) for x in b.guards]))
        at_end = at_back(b, ROUTE)
        ctx.ob("collect/appends", at_end, ewhere(b.e), "messages collected are put behind those already waiting", S(b.e.args))
        cl = [e for e in r.events if e.kind == "call" and e.obj is not None and P(e.obj) == b.src and e.name == "clear" and
              e.ix > b.ix and guards(e) == b.guards]
        ctx.ob("collect/empties", bool(cl), ewhere(b.e), "a collected message is not collected again",
               "the outbox is not emptied after collecting")
    for e in mutations(r, ROUTE):
        ctx.ob("collect/keeps", any(b.e is e for b in bs), ewhere(e), "collecting never drops a waiting message",
               "%s" % (e.name or e.op))
    for e in mutations(r, DATA, deep=False):
        ctx.ob("collect/drops-expired-only", e.name == "erase" and T.neg(("truth", slot(0))) in guards(e), ewhere(e),
               "only endpoints that no longer exist are forgotten", "%s under %s" % (e.name, [S(x) for x in guards(e)]))
    # one delivery
    f = ctx.prog.one(BUS + "::step")
    r = ctx.run(f)
    taken = [e for e in mutations(r, ROUTE)]
    inbox = ("deref", slot(1))
    dl = [x for x in appends(r) if x[2] == inbox]
    ctx.ob("deliver/some", len(dl) == 1, where(f), "a step delivers a message", "%d delivery sites" % len(dl))
    for e, v, c in dl:
        lp = loops_over(e, DATA)
        ctx.ob("deliver/every-endpoint", len(lp) == 1 and len(e.loops) == 1 and not lp[0].early, ewhere(e),
               "every endpoint is considered for a delivery, once", str([(x.kind, x.early) for x in e.loops]))
        g = guards(e)
        sender = None
        rest = []
        for x in g:
            if x in (("truth", slot(1)), ("truth", slot(2)), T.neg(("empty", ROUTE))):
                continue
            if x[:1] == ("has",) and x[1] == ("deref", slot(2)):
                sender = x[2]
                continue
            rest.append(x)
        ctx.ob("deliver/only-subscribed", sender is not None and sender[:1] == ("fld",) and sender[2] == "sender_uid_" and
               T.mentions(sender, v), ewhere(e), "an endpoint gets a message only if its sender set has the message's sender",
               S(sender) if sender else "not checked")
        ctx.ob("deliver/all-subscribed", not rest, ewhere(e),
               "every live endpoint whose sender set has the sender gets the message",
               "also requires " + ", ".join(S(x) for x in rest))
        want = {("back", ROUTE): "pop_back", ("front", ROUTE): "erase"}
        ctx.ob("deliver/same-message", v in want and any(t.name == want[v] for t in taken), ewhere(e),
               "the message delivered is the one taken from the queue, delivered as a copy", S(v))
        gone = spent(r, e.loops)
        ctx.ob("deliver/every-copy", not gone, ewhere(gone[0]) if gone else ewhere(e),
               "a message delivered to one endpoint is still whole for the next", "moved out of in the loop")
        end = "back" if v == ("back", ROUTE) else "front"
        ctx.ob("deliver/order", end == RECV_END and e.name in ("push_back", "emplace_back"), ewhere(e),
               "a receiver gets the messages of one round in the order they were sent",
               "queue is emptied from the %s, inbox from the %s" % (end, RECV_END))
    nonempty = [e for e in taken if guards(e) == {T.neg(("empty", ROUTE))} and not e.loops]
    ctx.ob("deliver/takes-one", len(taken) == 1 and len(nonempty) == 1, where(f),
           "a step takes exactly one message from a non-empty queue", str([(e.name, [S(x) for x in guards(e)]) for e in taken]))
    for s, v, line in r.exits:
        g = frozenset(map(P, s.guards))
        n = T.lit_val(P(v))
        ok = (n == 0 and ("empty", ROUTE) in g) or (n == 1 and T.neg(("empty", ROUTE)) in g)
        ctx.ob("deliver/counts", ok, where(f, line), "a step returns the number of messages it took", S(v))
    # route_messages
    f = ctx.prog.one(C + "MessageBus::route_messages")
    r = ctx.run(f)
    up = [e for e in r.events if e.kind == "call" and e.name == "update"]
    st = [e for e in r.events if e.kind == "call" and e.name == "step"]
    ctx.ob("route/collects-first", len(up) == 1 and not up[0].loops and not guards(up[0]) and st and up[0].ix < st[0].ix,
           where(f), "routing collects before it delivers", "%d update calls" % len(up))
    lp = [x for e in st for x in e.loops]
    ok = lp and all(not x.early for x in lp) and all(
        T.mentions(P(x.over), P(e.res)) for e in st for x in e.loops)
    ctx.ob("route/until-empty", bool(ok), where(f), "routing delivers until the queue is empty",
           str([(x.kind, S(x.over), x.early) for x in lp]))


# ----------------------------------------------------------------------------------------------- C04
@check("C04", ["core"])
def c04(ctx):
    guarded = 0
    mutex = None
    shared = [ROUTE, DATA]
    for nm in ("update", "step", "create_endpoint"):
        f = ctx.prog.one(BUS + "::" + nm)
        r = ctx.run(f)
        for e in r.events:
            if e.kind not in ("call", "find", "write", "query", "index"):
                continue
            roots = [x for x in (e.obj, e.loc) if x is not None] + [a for a in (e.args or ()) if isinstance(a, tuple)]
            roots = [P(x) for x in roots]
            hit = [x for x in roots if any(T.mentions(x, y) for y in shared)]
            if not hit or e.qn in ("std::make_move_iterator",):
                continue
            guarded += 1
            held = {P(x) for x in e.locks}
            set_access = any(T.mentions(x, ("deref", slot(2))) for x in roots)
            mutex = mutex or next(iter(held), None)
            key = "bus/" + nm if not set_access else "bus/senders-set"
            ctx.ob(key, bool(held) and mutex in held, ewhere(e),
                   "the bus touches its queues and endpoint records only under its mutex", "locks held: %s" % (
                       sorted(map(S, held)) or "none"))
    ctx.floor("guarded bus accesses", guarded, 6)
    f = ctx.prog.one(BUS + "::create_endpoint")
    r = ctx.run(f)
    impl = entered(r, CEP + "::MessageEndpointCPUImpl")
    cf = ctx.prog.one(CEP + "::MessageEndpointCPUImpl")
    cr = ctx.run(cf)
    ini = {P(e.loc)[2]: P(e.val) for e in cr.events if e.kind == "write" and P(e.loc)[:2] == ("fld", ("this",))}
    args = [P(a) for a in impl[0].args] if impl else []
    n = 0
    for nm in ("send_message", "receive_message"):
        f = ctx.prog.one(CEP + "::" + nm)
        r = ctx.run(f)
        for e in r.events:
            if e.kind not in ("call", "find", "write", "query", "index"):
                continue
            roots = [P(x) for x in (e.obj, e.loc) if x is not None] + [P(a) for a in (e.args or ()) if isinstance(a, tuple)]
            if not any(x[:1] == ("deref",) and x[1][:2] == ("fld", ("this",)) and ini.get(x[1][2], ())[:1] == ("parm",)
                       for x in roots):
                continue
            n += 1
            held = {P(x) for x in e.locks}
            ok = False
            why = "locks held: %s" % (sorted(map(S, held)) or "none")
            for m in held:
                if m[:1] == ("deref",) and m[1][:2] == ("fld", ("this",)):
                    v = ini.get(m[1][2], ())
                    if v[:1] == ("parm",) and v[2] < len(args) and ("deref", args[v[2]]) == mutex:
                        ok = True
            if held and not ok:
                why += ": not the mutex the bus holds when it touches the same container"
            ctx.ob("endpoint/" + nm, ok, ewhere(e),
                   "an endpoint touches the containers it shares with the bus only under the bus's mutex", why)
    ctx.floor("guarded endpoint accesses", n, 2)
    # nothing waits for another endpoint or user code while the mutex is held
    for nm in ("update", "step", "create_endpoint"):
        f = ctx.prog.one(BUS + "::" + nm)
        r = ctx.run(f)
        for e in r.events:
            if e.kind == "lock" and e.locks:
                ctx.ob("no-nesting/" + nm, P(e.loc) not in {P(x) for x in e.locks}, ewhere(e),
                       "the mutex is never taken twice", "nested")
    # the endpoint's subscription methods share the sender set with the bus
    for nm in ("subscribe", "unsubscribe", "remove_receiver"):
        for f in ctx.prog.fn(EP + "::" + nm)[:1]:
            r = ctx.run(f, opaque=sub_ctor, okey="sub")
            for kind, e in sender_set_writes(r):
                if kind == "content":
                    ctx.ob("senders-set/" + nm, bool(e.locks), ewhere(e),
                           "the sender set the bus consults is changed only under the bus's mutex",
                           "changed without any lock")
