"""Rules for one simulation step of the CPU backends (both backends are judged by the same rules)."""
import re

from .. import interp
from .. import terms as T
from ..facts import AnalysisBroken
from ..lib import (P, S, appends, bulks, calls, check, ewhere, fld, guards, nonconst_ref, this, unmove, where, GROWERS,
                   MUTATORS, on_path)

NAMES = {"st": "knp::backends::single_threaded_cpu::SingleThreadedCPUBackend",
         "mt": "knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend"}
CLOSED = {"knp::core::MessageBus::route_messages", "knp::core::MessageEndpoint::receive_all_messages",
          "knp::core::MessageEndpoint::unload_messages", "knp::core::MessageEndpoint::send_message",
          "knp::core::Projection::find_synapses", "knp::backends::cpu_executors::ThreadPool::join"}
STEP = this("step_")
POPS = this("populations_")
PROJS = this("projections_")
WRAP = ("elem", PROJS)
PROJ = fld(WRAP, "arg_")
QUEUE = fld(WRAP, "messages_")
POP = ("elem", POPS)


def role_of(f):
    """What a function does for the step, from the types it takes (not from its name)."""
    if not f.params:
        return None
    ts = [f.ptype(i) for i in range(len(f.params))]
    if re.match(r"knp::neuron_traits::neuron_parameters<.*> &$", ts[0]):
        if len(ts) == 1:
            return "post" if f.tu.types[f.meta["rt"]] == "bool" else "pre"
        if "SynapticImpact &" in ts[1]:
            return "impact"
    if ts[0].startswith("knp::core::Population<") and len(ts) > 2 and \
            "reference_wrapper<knp::core::Projection" in ts[1]:
        return "train"
    if f.qn.startswith("knp::backends::cpu::projections::impl::training::") and f.tu.types[f.meta["rt"]] != "bool":
        return "stdp"
    return None


class Op:
    def __init__(self, kind, e, **kw):
        self.kind, self.e, self.ix = kind, e, e.ix
        self.__dict__.update(kw)


class Step:
    """The event stream of one `_step`, with the operations that matter picked out."""

    def __init__(self, ctx, unit):
        fns = ctx.prog.fn(NAMES[unit] + "::_step")
        if not fns:
            raise AnalysisBroken("no _step in " + NAMES[unit])
        self.unit, self.fn = unit, fns[0]
        roles = self.roles = {}

        def opaque(m, f):
            k = roles.get(m["id"])
            if k is None:
                k = roles[m["id"]] = ("closed" if m["qn"] in CLOSED else role_of(f)) or ""
            return bool(k)

        self.r = r = ctx.run(self.fn, opaque=opaque, okey="step")
        self.origin, self.init = origins(r)
        focus(self)
        self.ops, wrap = [], None
        for e in r.events:
            if e.kind == "wrap":
                wrap = e
            if e.kind == "write" and P(e.loc) == STEP:
                self.ops.append(Op("clock", e))
            if e.kind != "call":
                continue
            k = "closed" if e.qn in CLOSED else roles.get((e.meta or {}).get("id"), "")
            if e.name in ("route_messages", "receive_all_messages") and k == "closed":
                self.ops.append(Op("route" if e.name[1] == "o" else "receive", e))
            elif e.name == "unload_messages" and k == "closed":
                ta = (e.meta or {}).get("ta", "")
                self.ops.append(Op("unload", e, what="spikes" if "SpikeMessage" in ta else "impacts",
                                   val=("call", e.qn, (P(e.obj),) + tuple(P(a) for a in e.args)), uid=P(e.args[0])))
            elif e.name == "send_message" and k == "closed":
                src = (wrap.types or [""])[0] if wrap is not None else ""
                self.ops.append(Op("send", e, what="spikes" if "SpikeMessage" in src else
                                   "impacts" if "SynapticImpactMessage" in src else "?", val=P(e.args[0])))
            elif e.name == "join" and k == "closed":
                self.ops.append(Op("join", e))
            elif k in ("pre", "post", "impact"):
                self.ops.append(Op(k, e, target=canon(P((e.raw or e.args)[0]))))
            elif k == "train":
                self.ops.append(Op(k, e, target=canon(P((e.raw or e.args)[0]))))
            elif k == "stdp":
                self.ops.append(Op(k, e))
            elif e.qn == "boost::asio::post":
                self.ops.append(Op("submit", e))
        self.alts = {}
        for e in r.events:
            for g in e.guards:
                g = P(g)
                if g[:1] == ("alt",):
                    self.alts.setdefault(canon(g[1]), set()).add(bare(g[2]))

    def of(self, kind, what=None):
        return [o for o in self.ops if o.kind == kind and (what is None or o.what == what)]

    def alt(self, e, of):
        for g in e.guards:
            g = P(g)
            if g[:1] == ("alt",) and canon(g[1]) == of:
                return bare(g[2])
        return None


def bare(ty):
    return re.sub(r"^const | &+$", "", ty)


def short(alt):
    return re.sub(r"knp::[a-z_]+::|^knp::core::| &$", "", alt or "any")


ORIGIN = {}


def origins(r):
    """Local containers that start as the result of a call or as a sized container, and the value they start as; and
    for every other local variable its initial value."""
    out, init = {}, {}
    for e in r.events:
        if e.kind == "decl" and e.val is not None:
            v, x = P(e.loc), P(e.val)
            init.setdefault(v, set()).add(x)
    for v, xs in init.items():
        if len(xs) == 1:
            x = next(iter(xs))
            if x[:1] == ("call",) or x[:1] == ("new",) and x[2] and "<" in x[1]:
                out[v] = x
    return out, init


def canon(t):
    """Normal form: a local container is named by what it was made from, c[i] with i over all of c is its element."""
    if not isinstance(t, (tuple, frozenset)) or not t:
        return t
    c = CACHE.get(t)
    if c is None:
        c = CACHE[t] = canon1(t)
    return c


CACHE = {}
INIT = {}


def canon1(t):
    if isinstance(t, frozenset):
        return frozenset(canon(x) for x in t)
    if t[0] == "var" and t in ORIGIN:
        return canon(ORIGIN[t])
    if t[0] == "phi":
        vs = [x for x in t[1] if isinstance(x, tuple) and x[:1] == ("var",) and x in INIT]
        if vs and all(x == vs[0] or x in INIT[vs[0]] for x in t[1]):
            return canon(vs[0])
        xs = frozenset(canon(x) for x in t[1])
        return next(iter(xs)) if len(xs) == 1 else ("phi", xs)
    t = tuple(canon(x) for x in t)
    if t[0] == "get" and str(t[1]) == "0" and isinstance(t[2], tuple) and t[2][:1] == ("call",) and \
            re.match(r"std::(unordered_)?map::(try_emplace|emplace|insert|insert_or_assign)$", str(t[2][1])):
        a = t[2][2]
        pr = tuple(a[1:]) if len(a) == 3 else pair_of(a[1]) if len(a) == 2 else None
        if pr is not None and len(pr) == 2:
            return ("find", a[0], pr[0])
    if len(t) == 3 and t[0] == "at" and isinstance(t[2], tuple) and t[2][:1] == ("idx",) and t[2][1] == T.ZERO and \
            t[2][3] in (1, ("lit", "1")):
        c, hi = t[1], t[2][2]
        if hi == ("size", c) or c[:1] == ("new",) and c[2] and c[2][0] == hi:
            return ("elem", c)
    if t[0] == "elem" and isinstance(t[1], tuple) and t[1][:1] == ("phi",):
        xs = t[1][1]
        if sum(1 for x in xs if x[:1] != ("new",)) == 1 and all(x[:1] != ("new",) or not x[2] for x in xs
                                                                if x[:1] == ("new",)):
            return ("elem", [x for x in xs if x[:1] != ("new",)][0])
    return t


def plus(t):
    """Sum as {atom: coefficient}; constants under None."""
    t = P(t)
    n = T.lit_val(t)
    if n is not None:
        return {None: n}
    if isinstance(t, tuple) and t[:1] == ("bin",) and t[1] in ("+", "-"):
        out = dict(plus(t[2]))
        for k, v in plus(t[3]).items():
            out[k] = out.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in out.items() if v or k is None}
    if isinstance(t, tuple) and t[:1] == ("cast",) and len(t) == 3:
        return plus(t[2])
    return {t: 1}


def same_sum(t, atoms, const):
    s = dict(plus(t))
    c = s.pop(None, 0)
    return c == const and s == {a: 1 for a in atoms}


def is_min(t, a, b):
    if t[:1] == ("min",) and set(t[1:]) == {a, b}:
        return True
    if t[:1] == ("call",) and t[1] == "std::min" and set(t[2]) == {a, b}:
        return True
    return t[:1] == ("ite",) and set(t[2:]) == {a, b} and t[1] in (
        ("lt", t[2], t[3]), ("not", ("lt", t[3], t[2])))


def part_end(hi, lo, size, part):
    """hi = min(lo + part, size)"""
    if hi[:1] in (("min",), ("call",), ("ite",)):
        xs = [x for x in (hi[1:] if hi[0] == "min" else hi[2] if hi[0] == "call" else hi[2:])]
        if len(xs) == 2:
            for a, b in (xs, xs[::-1]):
                if b == size and same_sum(a, [lo, part], 0) and is_min(hi, a, b):
                    return True
    return False


def consume(loops, target):
    """Loops left when those that visit every element `target` of its container exactly once are taken away, or a
    reason why they do not."""
    loops = list(loops)
    if target[:1] == ("elem",):
        for i, lp in enumerate(loops):
            if lp.kind in ("foreach", "range") and loop_over(lp) == target[1]:
                return loops[:i] + loops[i + 1:], loops[i:i + 1], None
        return loops, [], "no loop runs over all of " + S(target[1])
    if target[:1] == ("at",) and target[2][:1] == ("idx",):
        c, ix = target[1], target[2]
        lo, hi, st = ix[1], ix[2], ix[3]
        size = ("size", c)
        inner = [lp for lp in loops if lp.kind == "range" and canon(P(lp.over)) == (lo, hi, st)]
        if not inner or st not in (1, ("lit", "1")):
            return loops, [], "the index of %s does not come from a loop of step one" % S(c)
        rest = [lp for lp in loops if lp is not inner[-1]]
        if lo[:1] == ("idx",) and lo[1] == T.ZERO and lo[2] == size:
            outer = [lp for lp in rest if lp.kind == "range" and canon(P(lp.over)) == (lo[1], lo[2], lo[3])]
            if not outer:
                return loops, [], "no loop posts the parts of " + S(c)
            if not part_end(hi, lo, size, lo[3]):
                return loops, [], "the part that starts at i runs to %s, the next part starts at i + %s" % (
                    S(hi), S(lo[3]))
            return [lp for lp in rest if lp is not outer[-1]], [outer[-1], inner[-1]], None
        return loops, [], "the index runs over [%s, %s), not over all of %s" % (S(lo), S(hi), S(c))
    return loops, [], "%s is not an element visited by a loop" % S(target)


def loop_over(lp):
    if lp.kind == "foreach":
        return canon(P(lp.over))
    if lp.kind == "range":
        lo, hi, st = P(lp.over)
        if lo == T.ZERO and hi[:1] == ("size",) and st in (1, ("lit", "1")):
            return canon(hi[1])
    return None


def covers(e, *targets):
    """The event happens once for every element of every target (outermost first), in no other loop."""
    loops = list(e.loops)
    used = []
    for t in targets:
        loops, u, why = consume(loops, t)
        if why:
            return why
        used += u
    if loops:
        return "it also runs once for every iteration of a loop over " + S(P(loops[-1].over) if loops[-1].over else "?")
    for lp in used:
        if lp.early:
            return "the loop over %s can be left early (line %s)" % (S(P(lp.over)), lp.early[0][1])
    return None


def extra(e, *allowed):
    """Branch conditions of an event that are not among those the rule knows."""
    out = []
    for g in guards(e):
        g = canon(g)
        if g[:1] == ("alt",) or vacuous(g, e.loops) or any(a(g) if callable(a) else a == g for a in allowed):
            continue
        out.append(g)
    return out


def vacuous(g, loops, *more):
    """The condition fails only when a loop around the event has nothing to visit."""
    c = None
    if g[:1] == ("not",) and g[1][:1] == ("empty",):
        c = g[1][1]
    elif g[:1] == ("lt",) and g[1] == T.ZERO and g[2][:1] == ("size",):
        c = g[2][1]
    if c is None:
        return False
    over = [canon(P(lp.over)) for lp in loops if lp.kind == "foreach"] + list(more)
    return any(same_list(c, o) for o in over)


def conds(gs):
    return "only when " + " and ".join(sorted(S(g)[:160] for g in gs))


def step(ctx, unit):
    k = "step-" + unit
    if k not in ctx.cache:
        ctx.cache[k] = Step(ctx, unit)
    focus(ctx.cache[k])
    return ctx.cache[k]


def focus(s):
    """`canon` names the local variables of this event stream from now on."""
    ORIGIN.clear()
    ORIGIN.update(s.origin)
    INIT.clear()
    INIT.update(s.init)
    CACHE.clear()


def population(target):
    """Population of a neuron location."""
    c = target[1] if target[:1] in (("elem",), ("at",)) else None
    return c[1] if c is not None and c[:1] == ("fld",) else None


# ---------------------------------------------------------------------------------------------------- B01
@check("B01", ["st"])
def b01_st(ctx):
    phases(ctx, "st")


@check("B01", ["mt"])
def b01_mt(ctx):
    phases(ctx, "mt")


def phases(ctx, unit):
    s = step(ctx, unit)
    w = where(s.fn)
    clock = s.of("clock")
    others = [o for o in s.ops if o.kind not in ("clock",)]
    last = max((o.ix for o in others), default=0)
    plain = [o for o in clock if not o.e.guards and not o.e.loops and o.e.task is None and
             same_sum(o.e.val, [STEP], 1)]
    ctx.ob("clock/%s" % unit, len(clock) == 1 and len(plain) == 1 and plain[0].ix > last, w,
           "a step advances the step number by exactly one, after everything else it does",
           "%d change(s) of the step number%s" % (len(clock), "" if not clock or clock[0].ix > last else
                                                  ", one of them before the step has done its work"))

    def uncond(o):
        return not guards(o.e) and not o.e.loops and o.e.task is None

    route = [o for o in s.of("route") if uncond(o)]
    recv = [o for o in s.of("receive") if uncond(o)]
    for what, name in (("spikes", "spike"), ("impacts", "synaptic impact")):
        sends, loads = s.of("send", what), s.of("unload", what)
        ctx.floor("%s %s sends" % (unit, name), len(sends), 1)
        ctx.floor("%s %s takes" % (unit, name), len(loads), 1)
        smin, smax = min(o.ix for o in sends), max(o.ix for o in sends)
        umin, umax = min(o.ix for o in loads), max(o.ix for o in loads)
        if what == "spikes":
            order = smax < umin
            ctx.ob("order/%s/spikes" % unit, order, w,
                   "projections take spikes after all populations of the same step have sent theirs",
                   "a projection takes its spike messages before a population sends its own")
            ok = any(smax < a.ix < b.ix < umin for a in route for b in recv)
        else:
            order = umax < smin
            ctx.ob("order/%s/impacts" % unit, order, w,
                   "projections send impacts after all populations of the same step have taken theirs",
                   "a population takes its impacts after a projection of the same step sends its own")
            ok = any(smax < a.ix < b.ix for a in route for b in recv) or \
                any(a.ix < b.ix < umin for a in route for b in recv) or \
                any(a.ix > smax for a in route) and any(b.ix < umin for b in recv)
        ctx.ob("delivery/%s/%s" % (unit, what), ok, w,
               "between the sending and the taking of %s messages the bus is routed and then the backend's endpoint "
               "receives, unconditionally" % name,
               "no unconditional route_messages followed by receive_all_messages lies between them")
    ends = [o for o in s.ops if o.kind in ("pre", "impact", "post", "train") and o.ix > min(
        [x.ix for x in s.ops if x.kind == "unload" and x.what == "spikes"])]
    ctx.ob("order/%s/phases" % unit, not ends, w, "populations are calculated before projections",
           "%s is calculated after projections" % (S(P(ends[0].e.obj)) if ends and ends[0].e.obj else "a neuron"))
    early = [x for x in s.r.exits] if len(s.r.exits) > 1 else []
    ctx.ob("exits/%s" % unit, not early, w, "a step that does not throw runs to its end",
           "%d ways out" % len(early))


# ---------------------------------------------------------------------------------------------------- B07
@check("B07", ["st"])
def b07_st(ctx):
    coverage(ctx, "st")


@check("B07", ["mt"])
def b07_mt(ctx):
    coverage(ctx, "mt")


def epoch_end(s, o):
    """First join that surely follows the operation and is outside its loops (None outside tasks)."""
    if o.e.task is None:
        return o.ix
    p = o.e.task.post
    for j in s.of("join"):
        if j.ix > p.ix and j.e.task is None and guards(j.e) <= guards(p) and \
                all(lp in p.loops for lp in j.e.loops):
            return j.ix
    return None


def coverage(ctx, unit):
    s = step(ctx, unit)
    roots = [x for x in s.alts if x == POP or x == PROJ]
    if POP not in roots or PROJ not in roots:
        raise AnalysisBroken("the population or projection variants are not visited by _step")
    for alt in sorted(s.alts[POP]):
        n = short(alt)
        got = {}
        for kind, what in (("pre", "starts the step of"), ("post", "finishes the step of")):
            ops = [o for o in s.of(kind) if s.alt(o.e, POP) == alt]
            key = "%s/%s/%s" % (kind, unit, n)
            if len(ops) != 1:
                ctx.ob(key, False, where(s.fn), "every step %s every neuron of a %s exactly once" % (what, n),
                       "%d operations do" % len(ops))
                continue
            o = ops[0]
            got[kind] = o
            pop = population(o.target)
            why = None
            if pop != POP:
                why = "%s is not a neuron of the population" % S(o.target)
            why = why or covers(o.e, POP, o.target)
            g = extra(o.e)
            if not why and g:
                why = conds(g)
            ctx.ob(key, why is None, ewhere(o.e),
                   "every step %s every neuron of a %s exactly once" % (what, n), why or "")
        ops = [o for o in s.of("impact") if s.alt(o.e, POP) == alt]
        loads = [u for u in s.of("unload", "impacts") if canon(u.uid) == fld(POP, "base_", "uid_") and
                 (s.alt(u.e, POP) in (alt, None))]
        ctx.ob("take/%s/%s" % (unit, n), len(loads) == 1 and not covers(loads[0].e, POP) and not extra(loads[0].e),
               ewhere(loads[0].e) if loads else where(s.fn),
               "a %s takes the impacts addressed to it once in every step" % n,
               "%d unconditional take(s) with the identifier of the population" % len(loads))
        key = "impact/%s/%s" % (unit, n)
        what = "every impact of every message a %s takes is applied exactly once, to the neuron it names" % n
        if len(ops) != 1 or not loads:
            ctx.ob(key, False, where(s.fn), what, "%d operations apply impacts" % len(ops))
        else:
            o = ops[0]
            got["impact"] = o
            lp = [x for x in o.e.loops]
            msgs = [canon(P(x.over)) for x in lp if x.kind == "foreach"]
            why = None
            imp = canon(P(o.e.args[1]))
            if imp[:1] != ("elem",) or imp[1][:1] != ("fld",) or imp[1][2] != "impacts_" or \
                    imp[1][1][:1] != ("elem",):
                why = "%s is not an impact of a message" % S(imp)
            else:
                m = imp[1][1]
                src = [u.val for u in loads] + [("var", "messages")]
                if not from_take(s, m[1], loads[0]):
                    why = "the messages come from %s" % S(m[1])
                why = why or loops_exact(o.e, [POP, m, imp])
                if not why and o.target != ("at", fld(POP, "neurons_"), fld(imp, "postsynaptic_neuron_index_")):
                    why = "the impact goes to %s" % S(o.target)
                if not why and len(o.e.args) > 2 and canon(P(o.e.args[2])) != fld(m, "is_forcing_"):
                    why = "the forcing flag is %s" % S(P(o.e.args[2]))
                g = extra(o.e)
                if not why and g:
                    why = conds(g)
            ctx.ob(key, why is None, ewhere(o.e), what, why or "")
        seq = [got[k] for k in ("pre", "impact", "post") if k in got]
        seq += [o for o in s.of("train") if s.alt(o.e, POP) == alt]
        bad = None
        for a, b in zip(seq, seq[1:]):
            if a.ix > b.ix:
                bad = (a, b)
            elif a.e.task is not b.e.task:
                end = epoch_end(s, a)
                start = b.e.task.post.ix if b.e.task is not None else b.ix
                if end is None or end > start:
                    bad = (a, b)
        ctx.ob("order/%s/%s" % (unit, n), bad is None, where(s.fn),
               "in a %s all neurons start the step, then all impacts are applied, then all neurons finish it, then "
               "synapses are trained" % n, "%s does not finish before %s starts" % (
                   bad[0].kind, bad[1].kind) if bad else "")
    ctx.floor("%s population kinds" % unit, len(s.alts[POP]), 3)
    ctx.floor("%s projection kinds" % unit, len(s.alts[PROJ]), 2)
    for alt in sorted(s.alts[PROJ]):
        n = short(alt)
        loads = [u for u in s.of("unload", "spikes") if canon(u.uid) == fld(PROJ, "base_", "uid_") and
                 s.alt(u.e, PROJ) in (alt, None)]
        ctx.ob("take/%s/%s" % (unit, n), len(loads) == 1 and not covers(loads[0].e, WRAP) and not extra(loads[0].e),
               ewhere(loads[0].e) if loads else where(s.fn),
               "a %s takes the spikes addressed to it once in every step" % n,
               "%d unconditional take(s) with the identifier of the projection" % len(loads))
        if not loads:
            continue
        ent = entries(s, alt)
        what = "every spike of every message a %s takes queues one impact for every synapse of the neuron" % n
        if not ent:
            ctx.ob("spikes/%s/%s" % (unit, n), False, where(s.fn), what, "no impact is queued")
        for x in ent:
            why = spike_cover(s, x, loads[0])
            ctx.ob("spikes/%s/%s/%s" % (unit, n, x.how), why is None, ewhere(x.e), what, why or "")
        has = [x for x in ent if x.present is not False]
        hasnt = [x for x in ent if x.present is not True]
        ctx.ob("spikes/%s/%s/both" % (unit, n), bool(has) and bool(hasnt), where(s.fn),
               "an impact is queued whether or not the queue already has a message for its step",
               "it is queued only when it %s" % ("does not" if hasnt else "has one"))


def from_take(s, src, load):
    """The container is the result of the take."""
    for a in T.alts(src):
        if a == load.val or a[:1] == ("call",) and a[1] == load.e.qn and canon(a[2][-1]) == canon(load.uid):
            return True
        if a[:1] == ("var",):
            for e in s.r.events:
                if e.kind == "decl" and P(e.loc) == a and e.val is not None and P(e.val) != a and \
                        P(e.val)[:1] == ("call",) and canon(P(e.val)) == canon(load.val):
                    return True
    return False


def loops_exact(e, targets):
    """Loops of the event are exactly the complete loops over the containers of the targets."""
    loops = list(e.loops)
    for t in targets:
        hit = [lp for lp in loops if lp.kind in ("foreach", "range") and loop_over(lp) is not None and
               (loop_over(lp) == t[1] or overlap_alts(loop_over(lp), t[1]))]
        if not hit:
            return "no loop runs over all of " + S(t[1])
        if hit[0].early:
            return "the loop over %s can be left early (line %s)" % (S(t[1]), hit[0].early[0][1])
        loops.remove(hit[0])
    if loops:
        return "it also runs once for every iteration of a loop over " + S(P(loops[-1].over) if loops[-1].over else "?")
    return None


def overlap_alts(a, b):
    return bool(T.alts(a) & T.alts(b))


class Entry:
    pass


def queue_value(t, q):
    """(key, how) when the location is the queue's message for a key."""
    t = unwrap(t)
    if t[:1] == ("get",) and str(t[1]) == "1" and t[2][:1] == ("deref",):
        f = unwrap(t[2][1])
        if f[:1] == ("find",) and f[1] == q:
            return f[2]
    if t[:1] == ("at",) and t[1] == q:
        return t[2]
    return None


def unwrap(t):
    while isinstance(t, tuple) and t[:1] == ("new",) and len(t[2]) == 1 and "terator" in t[1]:
        t = t[2][0]
    return t


def pair_of(t):
    if isinstance(t, tuple) and t[:1] == ("tuple",):
        return t[1] if isinstance(t[1], tuple) and len(t) == 2 else t[1:]
    if isinstance(t, tuple) and t[:1] == ("agg",) and "pair" in t[1]:
        return tuple(v for _, v in t[2])
    if isinstance(t, tuple) and t[:1] == ("new",) and "pair" in t[1] and len(t[2]) == 2:
        return t[2]
    if isinstance(t, tuple) and len(t) == 2 and not isinstance(t[0], str):
        return t
    return None


def agg(t, name):
    for a in T.alts(t):
        if a[:1] == ("agg",) and a[1].rsplit("::", 1)[-1].startswith(name):
            return dict(a[2])
        if a[:1] == ("new",) and T.short_type(a[1]) == name and len(a[2]) == 1:
            return agg(a[2][0], name)
    return None


def entries(s, alt):
    """Every impact that is put into the queue of a projection of the given kind."""
    k = "entries-" + alt
    if hasattr(s, k):
        return getattr(s, k)
    out = []
    for e in s.r.events:
        if e.kind != "call" or s.alt(e, PROJ) != alt or e.obj is None:
            continue
        obj = canon(P(e.obj))
        x = None
        if e.name in ("push_back", "emplace_back") and obj[:1] == ("fld",) and obj[2] == "impacts_":
            key = queue_value(obj[1], QUEUE)
            if key is not None:
                x = Entry()
                x.key, x.impact, x.message, x.how = canon(key), canon(P(e.args[0])), None, "append"
        elif e.name in ("insert", "emplace", "try_emplace", "insert_or_assign") and obj == QUEUE:
            a = [P(v) for v in e.args]
            pr = pair_of(a[0]) if len(a) == 1 else tuple(a)
            if pr is None or len(pr) != 2:
                continue
            m = agg(pr[1], "SynapticImpactMessage")
            x = Entry()
            x.key, x.message, x.how = canon(pr[0]), m, "insert"
            imps = (m or {}).get("impacts_")
            lst = list_items(imps)
            x.impact = canon(lst[0]) if lst is not None and len(lst) == 1 else None
        if x is None:
            continue
        x.e, x.alt, x.via = e, alt, []
        x.loops, x.guards, x.src = list(e.loops), guards(e), None
        x.present = None
        for g in guards(e):
            for sign, h in ((True, g), (False, T.neg(g))):
                if h[:1] == ("has",) and canon(h[1]) == QUEUE:
                    x.present = sign
        resolve(s, x)
        out.append(x)
    setattr(s, k, out)
    return out


def list_items(t):
    if t is None:
        return None
    for a in T.alts(t):
        if a[:1] in (("new",), ("list",), ("agg",)):
            xs = a[2] if a[0] in ("new", "agg") else a[1:]
            xs = [x for x in xs if not (isinstance(x, tuple) and x[:1] == ("new",) and "std::allocator<" in x[1])]
            if a[0] == "list" and len(xs) == 1 and isinstance(xs[0], tuple) and xs[0] and \
                    not isinstance(xs[0][0], str):
                return list(xs[0])
            if len(xs) == 1 and isinstance(xs[0], tuple) and xs[0][:1] in (("list",), ("tuple",)):
                return list_items(xs[0]) if xs[0][0] == "list" else list(pair_of(xs[0]))
            return list(xs)
        if a[:1] == ("tuple",):
            return list(pair_of(a))
    return None


def resolve(s, x):
    """An impact that waits in a local container first: take what was put there."""
    base = None
    for t in (x.impact, x.key):
        if t is None:
            continue
        for y in T.subterms(t):
            if y[:1] == ("elem",) and any(a[:1] == ("var",) for a in T.alts(y[1])):
                base = y
    if base is None:
        return
    var = [a for a in T.alts(base[1]) if a[:1] == ("var",)][0]
    puts = [(e, canon(v)) for e, v, c in appends(s.r) if canon(P(c)) == var]
    if len(puts) != 1:
        return
    e, v = puts[0]
    pr = pair_of(v) or agg_values(v)
    if pr is None:
        return

    def sub(t):
        if not isinstance(t, tuple):
            return t
        if t[:1] == ("get",) and t[2] == base:
            return pr[int(t[1])]
        if t == base:
            return v
        return tuple(sub(y) if isinstance(y, tuple) else y for y in t)

    lp = [l for l in x.e.loops if l.kind == "foreach" and overlap_alts(canon(P(l.over)), base[1])]
    if not lp or lp[0].early:
        x.why = "the loop that queues the collected impacts can be left early"
        return
    x.loops = [l for l in x.e.loops if l is not lp[0]]
    x.via = [canon(base[1])]
    extra_l = [l for l in e.loops if l not in x.loops]
    x.loops += extra_l
    x.guards = x.guards | guards(e)
    x.key, x.src = canon(sub(x.key)), e
    x.impact = sub(x.impact) if x.impact is not None else None


def agg_values(v):
    return tuple(y for _, y in v[2]) if isinstance(v, tuple) and v[:1] == ("agg",) and len(v[2]) == 2 else None


def synapse_of(x):
    """Synapse location of an entry, from the fields of its impact."""
    f = agg(x.impact, "SynapticImpact") if x.impact is not None else None
    if f is None:
        return None, None
    ix = f.get("connection_index_")
    if ix is None:
        return f, None
    return f, canon(("at", fld(PROJ, "parameters_"), P(ix)))


SRC, DST, DATA = "1", "2", "0"


def spike_cover(s, x, load):
    """None when the entry is queued for each synapse of each spiking neuron, as often as the neuron spiked."""
    if getattr(x, "why", None):
        return x.why
    f, syn = synapse_of(x)
    if syn is None:
        return "the queued value is not an impact of a synapse of the projection"
    loops = list(x.loops)
    ix = canon(P(f["connection_index_"]))
    msgs = [lp for lp in loops if lp.kind == "foreach" and from_take(s, canon(P(lp.over)), load)]

    def queue_guard(g):
        h = g if g[:1] == ("has",) else T.neg(g)
        return h[:1] == ("has",) and canon(h[1]) == QUEUE

    def messages(g):
        h = T.neg(g) if g[:1] == ("not",) else g
        return g[:1] == ("not",) and h[:1] == ("empty",) and from_take(s, canon(h[1]), load)

    class E:
        pass
    ev = E()
    ev.loops = loops
    if ix[:1] == ("elem",) and msgs:
        found = [a for a in T.alts(ix[1]) if a[:1] == ("call",) and a[1].endswith("::find_synapses")]
        if not found:
            found = found_by_decl(s, ix[1])
        if not found:
            return "the synapses come from " + S(ix[1])
        c = found[0]
        if canon(c[2][0]) != PROJ:
            return "the synapses are looked up in " + S(c[2][0])
        neuron = canon(c[2][1])
        if c[2][2][:1] != ("enum",) or not c[2][2][1].endswith("by_presynaptic"):
            return "the synapses of a spiking neuron are looked up " + S(c[2][2])
        m = ("elem", canon(P(msgs[0].over)))
        if neuron[:1] != ("elem",) or neuron[1][:1] != ("fld",) or neuron[1][2] != "neuron_indexes_" or \
                neuron[1][1][:1] != ("elem",) or not from_take(s, neuron[1][1][1], load):
            return "the spiking neuron is " + S(neuron)
        why = loops_exact(ev, [WRAP, neuron[1][1], neuron, ix])
        if why:
            return why
        g = [y for y in (canon(z) for z in x.guards) if y[:1] != ("alt",) and not queue_guard(y) and
             not messages(y) and not vacuous(y, loops, *x.via)]
        return conds(g) if g else None
    # every synapse is visited and compared with a table of spike counts
    src = ("get", SRC, syn)
    has = [g for g in (canon(z) for z in x.guards) if g[:1] == ("has",) and g[2] == src]
    if not has:
        return "it is not queued for the synapses whose source neuron spiked"
    table = has[0][1]
    why = covers_loops(loops, [WRAP, syn])
    if why:
        return why
    g = [y for y in (canon(z) for z in x.guards) if y[:1] != ("alt",) and not queue_guard(y) and not messages(y) and
         y != has[0] and not vacuous(y, loops, *x.via)]
    if g:
        return conds(g)
    val = canon(P(f.get("impact_value_", T.ZERO)))
    cnt = ("get", "1", ("deref", ("find", table, src)))
    if not T.mentions(val, cnt) and not T.mentions(val, ("at", table, src)):
        return "a neuron that spikes in two messages of the same step counts only once"
    return count_table(s, x, load)


def found_by_decl(s, t):
    out = []
    for a in T.alts(t):
        if a[:1] != ("var",):
            continue
        for e in s.r.events:
            if e.kind == "decl" and P(e.loc) == a and e.val is not None and P(e.val)[:1] == ("call",) and \
                    P(e.val)[1].endswith("::find_synapses"):
                out.append(P(e.val))
    return out


def covers_loops(loops, targets):
    class E:
        pass
    e = E()
    e.loops = loops
    return covers(e, *targets)


def count_table(s, x, load):
    """The table of spike counts has, for every neuron index of every message, the number of times it occurs."""
    add, inc = [], []
    for e in s.r.events:
        lp = [l for l in e.loops if l.kind == "foreach" and from_take(s, canon(P(l.over)), load)]
        if not lp:
            continue
        idx = [l for l in e.loops if l.kind == "foreach" and canon(P(l.over))[:1] == ("fld",) and
               canon(P(l.over))[2] == "neuron_indexes_"]
        if not idx:
            continue
        el = ("elem", canon(P(idx[0].over)))
        if e.kind == "call" and e.name in ("insert", "emplace", "try_emplace") and e.obj is not None and \
                not (e.meta or {}).get("inroot"):
            a = [P(v) for v in e.args]
            pr = pair_of(a[0]) if len(a) == 1 else tuple(a)
            if pr and canon(pr[0]) == el and T.lit_val(pr[1]) in (1, 0):
                add.append((e, idx[0], lp[0], P(e.obj), T.lit_val(pr[1]), el))
        elif e.kind == "write":
            loc = canon(P(e.loc))
            key = None
            if loc[:1] == ("get",) and loc[2][:1] == ("deref",) and unwrap(loc[2][1])[:1] == ("find",):
                key, tab = unwrap(loc[2][1])[2], unwrap(loc[2][1])[1]
            elif loc[:1] == ("at",):
                key, tab = loc[2], loc[1]
            if key is not None and canon(key) == el and same_sum(canon(P(e.val)), [loc], 1):
                inc.append((e, idx[0], lp[0], tab, loc[:1] == ("at",), el))
    ok = None
    for e, i, m, tab, auto, el in inc:
        if i.early or m.early:
            ok = "the loop over the messages can be left early"
            continue
        own = [g for g in (canon(z) for z in guards(e)) if T.mentions(g, el)]
        if auto and not own:
            return None
        for e2, i2, m2, tab2, val, _ in add:
            own2 = [g for g in (canon(z) for z in guards(e2)) if T.mentions(g, el)]
            if i2 is i and val == 1 and len(own) == 1 and len(own2) == 1 and own[0] == T.neg(own2[0]):
                return None
            if i2 is i and val == 0 and not own:
                return None
    return ok or "the number of spikes of a neuron is not counted over all messages"


# ---------------------------------------------------------------------------------------------------- B08
@check("B08", ["st"])
def b08_st(ctx):
    impact_fields(ctx, "st")


@check("B08", ["mt"])
def b08_mt(ctx):
    impact_fields(ctx, "mt")


def uncast(t):
    t = P(t)
    while isinstance(t, tuple) and t[:1] == ("cast",) and len(t) == 3:
        t = t[2]
    return canon(t)


def impact_fields(ctx, unit):
    s = step(ctx, unit)
    for alt in sorted(s.alts.get(PROJ, ())):
        n = short(alt)
        ent = entries(s, alt)
        ctx.floor("%s queued impacts of %s" % (unit, n), len(ent), 1)
        plastic = "STDP" in alt
        for x in ent:
            f, syn = synapse_of(x)
            key = "%s/%s/%s" % (unit, n, x.how)
            if syn is None:
                ctx.ob("impact/" + key, False, ewhere(x.e), "a queued impact describes one synapse of the projection",
                       "the queued value is " + (S(x.impact)[:200] if x.impact is not None else "not an impact"))
                continue
            data = ("get", DATA, syn)
            want = {"synapse_type_": fld(data, "output_type_"), "presynaptic_neuron_index_": ("get", SRC, syn),
                    "postsynaptic_neuron_index_": ("get", DST, syn)}
            for k, v in sorted(want.items()):
                got = uncast(f[k]) if k in f else None
                ctx.ob("impact/%s/%s" % (key, k), got == v, ewhere(x.e),
                       "the %s of an impact is that of its synapse" % k.strip("_").replace("_", " "),
                       "it is " + (S(got) if got is not None else "not set"))
            val = uncast(f.get("impact_value_", T.ZERO))
            weight = fld(data, "weight_")
            ok = val == weight or val[:1] == ("bin",) and val[1] == "*" and weight in (uncast(val[2]), uncast(val[3]))
            if ok and val != weight:
                o = uncast(val[3]) if uncast(val[2]) == weight else uncast(val[2])
                ok = T.mentions(o, ("get", SRC, syn)) and (o[:1] == ("get",) or o[:1] == ("at",))
            ctx.ob("impact/%s/value" % key, ok, ewhere(x.e),
                   "the value of an impact is the weight of its synapse for every spike", "it is " + S(val)[:200])
            ctx.ob("delay/" + key, same_sum(x.key, [fld(data, "delay_"), STEP], -1), ewhere(x.e),
                   "an impact of a synapse with delay d is queued for the step d - 1 after the spike's",
                   "it is queued for " + S(x.key)[:200])
            if x.message is not None:
                m = dict(x.message)
                h = agg(m.get("header_"), "MessageHeader") if m.get("header_") is not None else None
                got = {"sender": uncast(h["sender_uid_"]) if h and "sender_uid_" in h else None,
                       "send time": uncast(h["send_time_"]) if h and "send_time_" in h else None,
                       "presynaptic population": uncast(m.get("presynaptic_population_uid_", T.ZERO)),
                       "postsynaptic population": uncast(m.get("postsynaptic_population_uid_", T.ZERO))}
                want = {"sender": fld(PROJ, "base_", "uid_"), "send time": STEP,
                        "presynaptic population": fld(PROJ, "presynaptic_uid_"),
                        "postsynaptic population": fld(PROJ, "postsynaptic_uid_")}
                for k, v in sorted(want.items()):
                    ctx.ob("message/%s/%s" % (key, k), got[k] == v, ewhere(x.e),
                           "the %s of an impact message is the projection's (its send time the current step)" % k,
                           "it is " + (S(got[k])[:160] if got[k] is not None else "not set"))
                fz = P(m.get("is_forcing_", T.ZERO))
                ctx.ob("message/%s/forcing" % key, fz == (T.FALSE if plastic else T.TRUE), ewhere(x.e),
                       "impacts of projections without plasticity are forcing, those of plastic projections are not",
                       "the flag is " + S(fz)[:160])
        ctx.ob("message/%s/%s" % (unit, n), any(x.message is not None for x in ent), where(s.fn),
               "a projection of kind %s makes a message for a step that has none yet" % n, "none is made")


# ---------------------------------------------------------------------------------------------------- B09
@check("B09", ["st"])
def b09_st(ctx):
    due(ctx, "st")


@check("B09", ["mt"])
def b09_mt(ctx):
    due(ctx, "mt")


def iter_of(t):
    """(queue, key) of the iterator or node a message is taken from."""
    t = unwrap(t)
    if t[:1] == ("get",) and str(t[1]) == "1" and t[2][:1] == ("deref",):
        f = unwrap(t[2][1])
        if f[:1] == ("find",):
            return f[1], f[2]
    if t[:1] == ("at",):
        return t[1], t[2]
    return None


def queue_present(g, q):
    """The condition says that the queue has a message for the current step (or that the iterator to it is valid)."""
    if g == ("has", q, STEP):
        return True
    if g[:1] == ("not",) and g[1][:1] == ("isend",) and g[1][2] == q:
        it = unwrap(g[1][1])
        return it[:1] == ("find",) and it[2] == STEP
    return g[:1] == ("not",) and g[1] == ("empty", q)


def due(ctx, unit):
    s = step(ctx, unit)
    sends = s.of("send", "impacts")
    ctx.floor("%s impact sends" % unit, len(sends), 1)
    for alt in sorted(s.alts.get(PROJ, ())):
        n = short(alt)
        mine = [o for o in sends if s.alt(o.e, PROJ) in (alt, None)]
        key = "due/%s/%s" % (unit, n)
        what = "in every step a %s sends the message queued for this step, if there is one, and only that" % n
        if len(mine) != 1:
            ctx.ob(key, False, where(s.fn), what, "%d places send impacts" % len(mine))
            continue
        o = mine[0]
        val = canon(unmove(o.val))
        q = iter_of(val)
        why = None
        if q is None or q[0] != QUEUE:
            why = "the message sent is " + S(val)[:200]
        elif q[1] != STEP:
            why = "the message sent is the one queued for " + S(q[1])[:200]
        why = why or covers(o.e, WRAP)
        g = extra(o.e, lambda x: queue_present(x, QUEUE))
        if not why and g:
            why = conds(g)
        ent = entries(s, alt)
        find = [e for e in s.r.events if e.kind == "find" and e.obj is not None and canon(P(e.obj)) == QUEUE and
                e.args and canon(P(e.args[0])) == STEP and e.ix < o.ix and s.alt(e, PROJ) in (alt, None)]
        at = max([e.ix for e in find], default=o.ix)
        if not why and any(x.e.ix > at for x in ent):
            why = "impacts are queued after the message is looked up"
        ctx.ob(key, why is None, ewhere(o.e), what, why or "")
        gone = [e for e in s.r.events if e.kind == "call" and e.obj is not None and canon(P(e.obj)) == QUEUE and
                e.name in ("erase", "extract") and s.alt(e, PROJ) in (alt, None)]
        good = [e for e in gone if e.ix > o.ix and guards(e) <= guards(o.e) and not covers(e, WRAP) and (
            canon(P(e.args[0])) == STEP or (unwrap(canon(P(e.args[0])))[:1] == ("find",) and
                                            unwrap(canon(P(e.args[0])))[2] == STEP))]
        ctx.ob("sent-once/%s/%s" % (unit, n), bool(good), ewhere(gone[0]) if gone else ewhere(o.e),
               "a message that was sent leaves the queue of its %s" % n, "it stays in the queue")
        other = [e for e in s.r.events if s.alt(e, PROJ) in (alt, None) and e not in good and loses(e)]
        ctx.ob("kept/%s/%s" % (unit, n), not other, ewhere(other[0]) if other else where(s.fn),
               "an impact queued for a later step stays in the queue until that step",
               "%s changes the queue" % (S(P(other[0].obj)) + "." + other[0].name if other and other[0].obj is not None
                                         else S(P(other[0].loc)) if other else ""))


def loses(e):
    if e.kind == "call" and e.obj is not None and canon(P(e.obj)) == QUEUE:
        return e.name in ("erase", "clear", "extract", "swap", "operator=", "insert_or_assign", "merge")
    if e.kind == "call" and e.obj is not None:
        o = canon(P(e.obj))
        return o[:1] == ("fld",) and o[2] == "impacts_" and queue_value(o[1], QUEUE) is not None and \
            e.name in ("clear", "pop_back", "erase", "resize", "swap", "operator=", "assign")
    if e.kind == "write":
        loc = canon(P(e.loc))
        return loc == QUEUE or queue_value(loc, QUEUE) is not None
    return False


# ---------------------------------------------------------------------------------------------------- B10
@check("B10", ["st"])
def b10_st(ctx):
    spikes(ctx, "st")


@check("B10", ["mt"])
def b10_mt(ctx):
    spikes(ctx, "mt")


def spikes(ctx, unit):
    s = step(ctx, unit)
    r = s.r
    sends = s.of("send", "spikes")
    app = appends(r)
    blk = bulks(r)

    def gather(cont, seen=()):
        """Everything that ends up in a list of spiking neurons: (event, value)."""
        out = []
        for e, v, c in app:
            if c is not None and same_list(canon(c), cont) and not any(b.e is e for b in blk):
                out.append((e, v))
        got = []
        for b in blk:
            if same_list(canon(b.dst), cont):
                src = canon(b.src)
                if src not in seen:
                    got.append((b, src))
        for b, src in got:
            out += [("bulk", b, src)]
        return out

    for alt in sorted(s.alts[POP]):
        n = short(alt)
        mine = [o for o in sends if s.alt(o.e, POP) in (alt, None)]
        key = "%s/%s" % (unit, n)
        what = "a %s sends one spike message in a step in which a neuron of it spikes, and none otherwise" % n
        if len(mine) != 1:
            ctx.ob("send/" + key, False, where(s.fn), what, "%d places send spikes" % len(mine))
            continue
        o = mine[0]
        lst, hdr, why = spike_parts(s, o)
        if why is None:
            left = loops_left(o.e)
            if left:
                why = left
            g = [canon(x) for x in guards(o.e)]
            g = [x for x in g if x[:1] != ("alt",)]
            ne = [x for x in g if x[:1] == ("not",) and x[1][:1] == ("empty",) and same_list(canon(x[1][1]), lst)]
            if not ne:
                why = why or "an empty message is sent too"
            if len(ne) != len(g):
                why = why or conds([x for x in g if x not in ne])
        ctx.ob("send/" + key, why is None, ewhere(o.e), what, why or "")
        if lst is None:
            continue
        uid, time = hdr
        ctx.ob("header/%s/sender" % key, uid == fld(POP, "base_", "uid_"), ewhere(o.e),
               "the sender of a spike message is the population", "it is " + (S(uid)[:200] if uid else "not set"))
        ctx.ob("header/%s/time" % key, time == STEP, ewhere(o.e),
               "the send time of a spike message is the current step", "it is " + (S(time)[:200] if time else "not set"))
        fin = [x for x in s.of("post") if s.alt(x.e, POP) == alt]
        if len(fin) != 1:
            ctx.ob("index/" + key, False, where(s.fn), "spikes come from finishing the step of neurons", "not found")
            continue
        chain, cont, why, via = [], lst, None, []
        for _ in range(4):
            got = [x for x in gather(cont) if s.alt((x[1].e if x[0] == "bulk" else x[0]), POP) == alt]
            if len(got) != 1:
                why = "%d places add neurons to the message" % len(got)
                break
            if got[0][0] == "bulk":
                b = got[0][1]
                g = [x for x in extra(b.e) if not vacuous(x, (), got[0][2])]
                if g:
                    why = "the spikes of a part are passed on " + conds(g)
                    break
                via.append(b)
                cont = got[0][2]
                continue
            chain = got[0]
            break
        else:
            why = "the neurons of the message cannot be traced"
        e = None
        if why is None:
            e, v = chain
            f = fin[0]
            v = canon(uncast(v))
            ix = index_of(f.target)
            if not (v == ix or canon(("at", fld(POP, "neurons_"), v)) == f.target):
                why = "the index added is " + S(v)[:160]
            if why is None and [lp for lp in e.loops] != [lp for lp in f.e.loops]:
                why = "it is not added in the loop that finishes the neurons"
            if why is None:
                cond = ("truth", ("call", f.e.qn, tuple(P(a) for a in f.e.args)))
                g = [x for x in guards(e) if canon(x)[:1] != ("alt",)]
                hit = [x for x in g if T.mentions(x, f.e.qn) or any(y[:1] == ("call",) and y[1] == f.e.qn
                                                                   for y in T.subterms(x))]
                if not hit or hit[0][:1] == ("not",):
                    why = "the index of a neuron is added without its having spiked"
                elif len(g) > 1:
                    why = conds([x for x in g if x not in hit])
        ctx.ob("index/" + key, why is None, ewhere(e) if e is not None else where(s.fn),
               "the message lists exactly the neurons whose step ended with a spike", why or "")
        if via and why is None:
            for b in via:
                left = [lp for lp in b.e.loops]
                ends = [x for x in b.e.loops if x.early]
                ctx.ob("parts/" + key, not ends, ewhere(b.e), "the spikes of every part reach the message",
                       "the loop over the parts can be left early")


def index_of(target):
    return target[2] if target[:1] == ("at",) else ("idx", T.ZERO, ("size", target[1]), 1)


def same_list(a, b):
    if a == b or overlap_alts(a, b):
        return True
    return False


def loops_left(e):
    loops = [lp for lp in e.loops]
    if len(loops) != 1:
        return "it is sent in %d nested loops" % len(loops)
    if loops[0].early:
        return "the loop that sends the messages can be left early (line %s)" % loops[0].early[0][1]
    return None


def spike_parts(s, o):
    """(list of spiking neurons, (sender, time), reason) of a sent spike message."""
    val = canon(unmove(o.val))
    lists = []
    for g in guards(o.e):
        h = T.neg(g)
        if h[:1] == ("empty",) and canon(h[1])[:1] == ("fld",) and canon(h[1])[2] == "neuron_indexes_":
            lists.append(canon(h[1]))
    a = agg(val, "SpikeMessage")
    var = None
    for e in s.r.events:
        if e.ix == o.ix and e.raw:
            var = canon(P(e.raw[0]))
    root = None
    if lists:
        root = lists[0][1]
    elif var is not None and var[:1] in (("var",), ("elem",), ("at",)):
        root = var
    elif val[:1] in (("var",), ("elem",), ("at",)):
        root = val
    if a is not None:
        h = agg(a.get("header_"), "MessageHeader") if a.get("header_") is not None else None
        uid = canon(uncast(h["sender_uid_"])) if h and "sender_uid_" in h else None
        t = uncast(h["send_time_"]) if h and "send_time_" in h else None
        if root is None:
            return None, (uid, t), "the message cannot be traced"
        return fld(root, "neuron_indexes_"), (uid, t), None
    if root is None or root[:1] not in (("elem",), ("at",)):
        return None, (None, None), "the message sent is " + S(val)[:160]
    # a message in a container: its header is written there
    cont = root[1]
    uid = t = None
    for e in s.r.events:
        if e.kind != "write" or e.ix > o.ix:
            continue
        loc = canon(P(e.loc))
        if loc[:1] != ("fld",) or loc[2] not in ("sender_uid_", "send_time_", "header_"):
            continue
        b = loc[1][1] if loc[2] != "header_" else loc[1]
        if not (isinstance(b, tuple) and b[:1] in (("elem",), ("at",)) and overlap_alts(b[1], cont)):
            continue
        lp = [l for l in e.loops]
        v = canon(uncast(e.val))
        ok = len(lp) == 1 and not lp[0].early and not extra(e)
        ok = ok and b[0] == "elem" and loop_over(lp[0]) in (POPS, b[1])
        if not ok:
            v = ("conditional", v)
        if loc[2] == "header_":
            h = agg(v, "MessageHeader") or {}
            uid, t = h.get("sender_uid_"), h.get("send_time_")
        elif loc[2] == "sender_uid_":
            uid = v
        else:
            t = v
    return fld(root, "neuron_indexes_"), (uid, t), None

