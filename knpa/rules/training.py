"""Rules for training: conservation of the synaptic resource, elapsed steps, additive spike histories."""
import itertools
from collections import Counter
from fractions import Fraction

from .. import interp
from .. import terms as T
from ..facts import AnalysisBroken
from ..lib import P, S, appends, check, ewhere, fld, guards, unmove
from .backend import NAMES, STEP, canon, conds, short, step, vacuous
from .lifecycle import formula, value

PKG = "knp::backends::cpu::"
RES, FREE = "synaptic_resource_", "free_synaptic_resource_"


def roots(ctx, s, *kinds):
    """Functions the step hands over to, with the parameter that receives the current step."""
    out = {}
    for o in s.ops:
        if o.kind in kinds:
            f = ctx.prog.functions.get((o.e.meta or {}).get("id")) if isinstance(ctx.prog.functions, dict) else None
            if f is None:
                continue
            now = [i for i, a in enumerate(o.e.args or ()) if canon(P(a)) == STEP]
            out[f.id] = (f, now, o)
    return list(out.values())


def closed(m, f):
    return m["qn"] in ("knp::core::Projection::find_synapses",)


def terms_of(t, sign=1, out=None):
    """A value as a signed multiset of summands."""
    out = Counter() if out is None else out
    if t[:1] == ("bin",) and t[1] in ("+", "-"):
        terms_of(t[2], sign, out)
        terms_of(t[3], sign if t[1] == "+" else -sign, out)
    elif t[:2] == ("un", "-"):
        terms_of(t[2], -sign, out)
    elif not T.is_zero(t):
        out[t] += sign
    return out


def delta(e):
    d = terms_of(P(e.val))
    for k, v in terms_of(P(e.res)).items():
        d[k] -= v
    return Counter({k: v for k, v in d.items() if v})


def opposite(c):
    return Counter({k: -v for k, v in c.items()})


def text(c):
    return " ".join("%s %s" % ("+" if v > 0 else "-", S(k)[:90]) for k, v in sorted(c.items(), key=repr)) or "nothing"



def loop_ids(loops):
    return tuple((x.kind, P(x.over) if x.over else None, x.line) for x in loops)


def resource(loc):
    loc = P(loc)
    if loc[:1] == ("fld",) and loc[2] == RES and loc[1][:1] == ("fld",):
        return loc[1][1]
    return None


def free(loc):
    loc = P(loc)
    return loc[1] if loc[:1] == ("fld",) and loc[2] == FREE else None


def neuron_index(n):
    """The index of a neuron within its population."""
    if n[:1] == ("at",):
        return n[2]
    if n[:1] == ("elem",):
        return ("idx", T.ZERO, ("size", n[1]), 1)
    return None


def same_index(a, b):
    def norm(x):
        if isinstance(x, tuple) and x[:1] == ("idx",) and len(x) > 3 and x[3] in (1, ("lit", "1")):
            return x[:3]
        return x
    return norm(a) == norm(b)


# ------------------------------------------------------------------ B12
@check("B12", ["st"])
def b12_st(ctx):
    conserve(ctx, "st")


@check("B12", ["mt"])
def b12_mt(ctx):
    conserve(ctx, "mt")


def conserve(ctx, unit):
    s = step(ctx, unit)
    n = 0
    for f, now, o in roots(ctx, s, "train"):
        r = ctx.run(f, opaque=closed, okey="train")
        n += conserve1(ctx, unit, r)
    ctx.floor("synaptic resource updates (%s)" % unit, n, 3)


def conserve1(ctx, unit, r):
    rs = [e for e in r.events if e.kind == "write" and resource(e.loc)]
    fs = [e for e in r.events if e.kind == "write" and free(e.loc)]
    seen = Counter()

    def name(e, what):
        fn = e.stack[-1].rsplit("::", 1)[-1].split("(")[0] if e.stack else "?"
        k = "%s/%s/%s" % (unit, what, fn)
        seen[k] += 1
        return k if seen[k] == 1 else "%s/%d" % (k, seen[k])

    groups = {}
    spread = []
    for e in rs:
        d = delta(e)
        x = shared(e, d)
        if x:
            spread.append((e, x))
            continue
        groups.setdefault((loop_ids(e.loops), when(e)), [[], []])[0].append(e)
    for e in fs:
        if T.is_zero(P(e.val)):
            continue
        groups.setdefault((loop_ids(e.loops), when(e)), [[], []])[1].append(e)
    for (loops, g), (a, b) in groups.items():
        total = Counter()
        for e in a + b:
            for k, v in delta(e).items():
                total[k] += v
        total = Counter({k: v for k, v in total.items() if v})
        e = (a or b)[0]
        owners = {free(x.loc) for x in b}
        ok = bool(a) and bool(b) and not total and len(owners) == 1
        if not a:
            why = "the free resource changes by %s, no synapse of the neuron does by the opposite under the same " \
                  "conditions" % text(delta(b[0]))
        elif not b:
            why = "the resource of the synapse changes by %s, the free resource of the neuron stays" % text(delta(a[0]))
        elif len(owners) > 1:
            why = "the free resource of different neurons changes"
        else:
            why = "together the resource of the synapse and of the neuron change by " + text(total)
        ctx.ob(name(e, "balance"), ok, ewhere(e), "what a synapse gains its neuron's free resource loses, and the "
               "other way round", why)
    for e, x in spread:
        nrn, lst = x
        lp = e.loops[-1]
        why = None
        if lp.early:
            why = "the loop over the synapses can be left at line %s" % lp.early[0][1]
        zero = [z for z in fs if free(z.loc) == nrn and T.is_zero(P(z.val)) and loop_ids(z.loops) ==
                loop_ids(e.loops[:-1])]
        after = [z for z in zero if z.ix > e.ix and when(z) == when(e, 1)]
        if not why and not after:
            why = "the free resource is handed out to the synapses but %s" % (
                "set to zero before" if [z for z in zero if z.ix < e.ix] else
                "set to zero only when " + conds(when(zero[0]) - when(e, 1)) if zero else "never set to zero")
        ctx.ob(name(e, "spread"), not why, ewhere(e), "handing the free resource out gives every synapse an equal share "
               "and empties it", why or "")
    for z in fs:
        if T.is_zero(P(z.val)):
            ok = [e for e, x in spread if x[0] == free(z.loc) and e.ix < z.ix and when(z) == when(e, 1)]
            ctx.ob(name(z, "emptied"), ok, ewhere(z), "the free resource of a neuron is emptied only by handing it out",
                   "it is set to zero without having been handed out to the synapses")
    # whose synapses, and their weights
    for e in rs:
        lp = e.loops[-1] if e.loops else None
        if lp is None:
            ctx.ob(name(e, "synapses"), False, ewhere(e), "resources change for the synapses of a neuron",
                   "the change is in no loop over synapses")
            continue
        outer = loop_ids(e.loops[:-1])
        mates = [x for x in fs if loop_ids(x.loops)[:len(outer)] == outer]
        own = {free(x.loc) for x in mates}
        ctx.ob(name(e, "synapses"), *connected(r, e, outer, own))
        ctx.ob(name(e, "weight"), *reweighed(r, e, outer))
    return len(rs)


def when(e, loops=0):
    """Conditions of an event; with `loops` those that concern only the innermost loops around it do not count."""
    out = frozenset(g for g in guards(e) if not vacuous(g, e.loops))
    if loops:
        inner = e.loops[len(e.loops) - loops:]
        out = frozenset(g for g in out if not vacuous(g, inner) and
                        not any(T.mentions(g, P(x.over)) and T.mentions(g, ("elem", P(x.over))) for x in inner))
    return out


def shared(e, d):
    """(neuron, synapse list) when the change is an equal share of the neuron's free resource."""
    if len(d) != 1:
        return None
    (k, v), = d.items()
    if v != 1 or k[:2] != ("bin", "/") or not free(k[2]):
        return None
    den = terms_of(k[3])
    if any(x != 1 for x in den.values()) or not e.loops:
        return None
    nrn = free(k[2])
    over = P(e.loops[-1].over) if e.loops[-1].over else None
    need = {("size", over), fld(nrn, "resource_drain_coefficient_")}
    return (nrn, over) if set(den) == need else None


def connected(r, e, outer, own):
    what = "the synapses whose resource changes are those that lead to the neuron whose free resource changes"
    look = [x for x in r.events if x.kind == "call" and x.name == "find_synapses" and x.ix < e.ix and
            loop_ids(x.loops)[:len(outer)] == outer and on_way(x, e)]
    if not look:
        return False, ewhere(e), what, "no search for the synapses of the neuron comes before the change"
    x = look[-1]
    if len(own) != 1:
        return False, ewhere(e), what, "the neuron that pays cannot be told"
    ix = neuron_index(next(iter(own)))
    a = [P(t) for t in x.args]
    if not a or not same_index(a[0], ix):
        return False, ewhere(x), what, "synapses are looked up for %s, the free resource belongs to %s" % (
            S(a[0]) if a else "?", S(ix))
    if len(a) < 2 or not S(a[1]).endswith("by_postsynaptic"):
        return False, ewhere(x), what, "synapses are looked up %s" % (S(a[1]) if len(a) > 1 else "by default")
    lp = x.loops[len(outer):]
    if len(lp) != 1 or P(x.obj) != ("elem", P(lp[0].over)) or lp[0].early:
        return False, ewhere(x), what, "the search does not run over every projection being trained"
    if not P(lp[0].over)[:1] == ("parm",):
        return False, ewhere(x), what, "the search runs over %s" % S(P(lp[0].over))
    inner = [g for g in when(x) if g not in when(e) and not vacuous(g, x.loops)]
    if inner:
        return False, ewhere(x), what, "projections are searched " + conds(inner)
    # everything found goes into the list
    found = ("call", x.qn, (P(x.obj),) + tuple(a))
    got = [y for y in r.events if y.kind in ("produce", "call") and y.ix > x.ix and T.mentions(
        (P(y.val) if y.kind == "produce" else tuple(P(t) for t in y.args or ())), ("elem", found)) and
        (y.kind == "produce" or y.name in ("push_back", "emplace_back", "insert"))]
    if got and [g for g in when(got[0]) if g not in when(x) and not vacuous(g, got[0].loops, found)]:
        return False, ewhere(got[0]), what, "a synapse is taken " + conds(
            [g for g in when(got[0]) if g not in when(x)])
    if any(l.early for l in (got[0].loops if got else ())):
        return False, ewhere(got[0]), what, "the loop that collects the synapses can be left early"
    if not got and not T.mentions(P(e.loc), found):
        return False, ewhere(e), what, "what the search finds is not what changes"
    return True, ewhere(e), what, ""


def on_way(x, e):
    return not any(T.neg(g) in e.guards for g in x.guards)


def reweighed(r, e, outer):
    what = "after a change of the resource the weight is recomputed as w_min + d * r / (d + r), d = w_max - w_min, " \
           "r = max(resource, 0), for every synapse of the list"
    over = P(e.loops[-1].over) if e.loops[-1].over else None
    after = [w for w in r.events if w.kind == "write" and P(w.loc)[:1] == ("fld",) and P(w.loc)[2] == "weight_" and
             w.ix > e.ix and loop_ids(w.loops[:-1]) == outer and w.loops and w.loops[-1].over is not None]
    # the resource write may itself sit in the loop that recomputes the weight
    ok = [w for w in after if P(w.loops[-1].over) == over and not w.loops[-1].early and
          not [g for g in when(w) if g not in when(e)]]
    if not ok:
        if not after:
            return False, ewhere(e), what, "the weight is not recomputed in the same iteration"
        w = after[0]
        g = [g for g in when(w) if g not in when(e)]
        return False, ewhere(w), what, "the weight is recomputed %s" % (
            conds(g) if g else "over %s%s" % (S(P(w.loops[-1].over)), ", leaving the loop early" if w.loops[-1].early
                                               else ""))
    why = curve(ok[-1])
    return not why, ewhere(ok[-1]), what, why


def curve(w):
    """The value is compared with the formula by evaluating both terms over exact numbers."""
    syn = P(w.loc)[1]
    rule = fld(syn, "rule_")
    rloc = fld(rule, RES)
    for lo, hi, res in ((0, 1, 0), (0, 1, 3), (0, 1, -2), (-5, 2, 7), (-5, 2, -7), (3, 11, 1), (-1, 4, Fraction(1, 3)),
                        (2, 3, 1000)):
        env = {fld(rule, "w_min_"): Fraction(lo), fld(rule, "w_max_"): Fraction(hi)}

        def atom(t):
            if t in env:
                return env[t]
            if t == rloc or t[:1] == ("phi",) and T.mentions(t, rloc):
                return Fraction(res)
            if t[:1] == ("ite",) and not T.mentions(t[1], rloc) and T.mentions(t[2], rloc) and T.mentions(t[3], rloc):
                return Fraction(res)
            return None
        try:
            got = number(P(w.val), atom)
        except ValueError as x:
            return "it is %s (%s)" % (S(P(w.val))[:200], x)
        except ZeroDivisionError:
            return "it divides by zero for w_min = %s, w_max = %s, resource = %s" % (lo, hi, res)
        pos = max(Fraction(res), 0)
        d = Fraction(hi - lo)
        want = lo + d * pos / (d + pos)
        if got != want:
            return "for w_min = %s, w_max = %s, resource = %s it is %s, not %s" % (lo, hi, res, got, want)
    return ""


def number(t, atom):
    v = atom(t)
    if v is not None:
        return v
    if t[:1] == ("lit",):
        return Fraction(str(t[1]).rstrip("fFuUlL"))
    if t[:1] == ("bin",):
        a, b = number(t[2], atom), number(t[3], atom)
        if t[1] == "+":
            return a + b
        if t[1] == "-":
            return a - b
        if t[1] == "*":
            return a * b
        if t[1] == "/":
            return a / b
    if t[:2] == ("un", "-"):
        return -number(t[2], atom)
    if t[:1] in (("max",), ("min",)):
        xs = t[1] if len(t) == 2 and isinstance(t[1], frozenset) else t[1:]
        return (max if t[0] == "max" else min)(number(x, atom) for x in xs)
    if t[:1] == ("call",) and t[1] in ("std::max", "std::min", "std::fmax", "std::fmin"):
        return (max if "max" in t[1] else min)(number(x, atom) for x in t[2][:2])
    if t[:1] == ("ite",):
        return number(t[2] if holds(t[1], atom) else t[3], atom)
    raise ValueError("not a function of w_min, w_max and the resource alone: " + S(t)[:80])


def holds(c, atom):
    if c[:1] == ("not",):
        return not holds(c[1], atom)
    if c[:1] == ("lt",):
        return number(c[1], atom) < number(c[2], atom)
    if c[:1] == ("eq",):
        return number(c[1], atom) == number(c[2], atom)
    if c in (T.TRUE, T.FALSE):
        return c == T.TRUE
    raise ValueError("depends on " + S(c)[:80])


# ------------------------------------------------------------------ B15
DURATIONS = {"delay_", "dopamine_plasticity_period_", "dopamine_plasticity_time_", "isi_max_"}
HISTORIES = {"presynaptic_spike_times_", "postsynaptic_spike_times_"}


class Clock:
    """What a value is in terms of time: the current step, a recorded step, a duration."""

    def __init__(self, now, past):
        self.now, self.past = set(now), past

    def kind(self, t):
        t = P(t)
        if t in self.now or canon(t) in self.now:
            return "now"
        h = t[:1]
        if h == ("fld",):
            if t[2] in self.past or t[2] == "send_time_":
                return "past"
            if t[2] in DURATIONS:
                return "duration"
            return None
        if h == ("elem",) or h == ("at",):
            return "past" if t[1][:1] == ("fld",) and t[1][2] in HISTORIES else None
        if h in (("phi",), ("ite",)):
            xs = {self.kind(x) for x in (t[1] if h == ("phi",) else t[2:])}
            return xs.pop() if len(xs) == 1 else "past" if xs <= {"now", "past"} else "mixed" if xs - {None} else None
        if h == ("bin",):
            a, b = self.kind(t[2]), self.kind(t[3])
            if t[1] == "+" and ({a, b} & {"now", "past"}):
                return "later"
            if t[1] == "-" and {a, b} & {"now", "past", "duration", "later", "elapsed"}:
                if a in ("later", "duration") and T.lit_val(t[3]) == 1:
                    return a
                return "elapsed"
            if {a, b} & {"duration", "elapsed"}:
                return "duration"
            return None
        if h in (("max",), ("min",), ("call",)) and len(t) > 1:
            xs = t[2] if h == ("call",) else t[1] if isinstance(t[1], frozenset) else t[1:]
            ks = {self.kind(x) for x in xs if isinstance(x, tuple)} - {None}
            return ks.pop() if len(ks) == 1 else "mixed" if ks else None
        return None

    def label(self, t):
        t = P(t)
        if self.kind(t) == "now":
            return "step"
        if t[:1] == ("fld",):
            return t[2]
        if t[:1] in (("elem",), ("at",)) and t[1][:1] == ("fld",):
            return t[1][2]
        if t[:1] == ("bin",):
            return "(%s %s %s)" % (self.label(t[2]), t[1], self.label(t[3]))
        if t[:1] == ("lit",):
            return str(t[1])
        if t[:1] == ("phi",):
            return self.label(sorted((x for x in t[1] if self.kind(x) != "now"), key=repr)[0])
        return t[0]


def least(t):
    """Terms a value is certainly not smaller than."""
    t = P(t)
    if t[:1] in (("max",),):
        return set(t[1]) if isinstance(t[1], frozenset) else set(t[1:])
    if t[:1] == ("call",) and t[1] == "std::max":
        return {P(x) for x in t[2]}
    return {t}


def most(t):
    t = P(t)
    if t[:1] in (("min",),):
        return set(t[1]) if isinstance(t[1], frozenset) else set(t[1:])
    if t[:1] == ("call",) and t[1] == "std::min":
        return {P(x) for x in t[2]}
    return {t}


def ordered(e, a, b):
    """The branch conditions (or max/min) say a >= b."""
    if least(a) & most(b):
        return True
    gs = {g for x in e.guards for g in interp.conj(P(x))}
    return any(("lt", y, x) in gs or ("not", ("lt", x, y)) in gs for x in least(a) for y in most(b))


def part(o):
    """Which part of the step an event stream belongs to."""
    if o is None:
        return "step"
    ty = (o.e.types or [""])[0]
    return "%s<%s>" % (o.kind, short(ty).replace("knp::neuron_traits::", "").replace("knp::synapse_traits::", ""))


def time_runs(ctx, unit):
    """The step and the functions it hands over to: (event stream, terms that are the current step, what it is)."""
    s = step(ctx, unit)
    out = [(s.r, [STEP], None)]
    for f, now, o in roots(ctx, s, "train", "stdp", "pre", "post", "impact"):
        out.append((ctx.run(f, opaque=closed, okey="train"),
                    [("parm", f.params[i]["n"] or "arg%d" % i, i) for i in now], o))
    return s, out


@check("B15", ["st"])
def b15_st(ctx):
    elapsed(ctx, "st")


@check("B15", ["mt"])
def b15_mt(ctx):
    elapsed(ctx, "mt")


def elapsed(ctx, unit):
    s, runs = time_runs(ctx, unit)
    past = {P(e.loc)[2] for r, now, o in runs for e in r.events
            if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.val) in now} - {"step_", "send_time_"}
    ctx.floor("fields that record a step (%s)" % unit, len(past), 3)
    n = 0
    anchors = []
    for r, now, o in runs:
        c = Clock(now, past)
        for e in r.events:
            if e.kind != "usub":
                continue
            a, b = P(e.args[0]), P(e.args[1])
            ka, kb = c.kind(a), c.kind(b)
            if not {ka, kb} - {None}:
                continue
            n += 1
            ok = ka == "now" and kb in ("now", "past") or ordered(e, a, b) or \
                ka in ("later", "duration") and T.lit_val(b) == 1 and T.mentions_field(a, "delay_")
            if T.lit_val(b) == 1 and T.mentions_field(a, "delay_"):
                anchors.append((r, e, a))
            ctx.ob("%s/elapsed/%s/%s - %s" % (unit, part(o), c.label(a), c.label(b)), ok, ewhere(e),
                   "an unsigned difference of steps never goes below zero",
                   "%s - %s is computed in unsigned arithmetic and wraps when the second is the larger (%s minus %s)" %
                   (c.label(a), c.label(b), ka or "a value", kb or "a value"))
        for e in r.events:
            if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.loc)[2] in past:
                # a field that keeps a step is only ever set to the current one
                ctx.ob("%s/recorded/%s/%s" % (unit, part(o), P(e.loc)[2]), P(e.val) in now, ewhere(e),
                       "a field that records a step is set to the current step", "it is set to " + S(P(e.val))[:120])
    ctx.floor("differences of steps (%s)" % unit, n, 4)
    recorded(ctx, unit, s, runs, anchors)


def recorded(ctx, unit, s, runs, anchors):
    """Synapses and neurons of the resource rule record the steps their windows are measured from."""
    marks = []
    for e in s.r.events:
        if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.loc)[2] == "last_spike_step_" and \
                canon(P(e.val)) == STEP and P(e.loc)[1][:1] == ("fld",):
            marks.append((canon(P(e.loc)[1][1]), e))
    for r, now, o in runs:
        if o is None or o.kind != "stdp":
            continue
        f = r.fn
        p0 = ("parm", f.params[0]["n"] or "arg0", 0)
        if any(e.kind == "write" and P(e.loc) == fld(p0, "rule_", "last_spike_step_") and P(e.val) in now and
               not guards(e) and not e.loops for e in r.events):
            for q in s.of("stdp"):
                if (q.e.meta or {}).get("id") == f.id:
                    marks.append((canon(P((q.e.raw or q.e.args)[0])), q.e))
    n = 0
    for r, e, a in anchors:
        if r is not s.r:
            continue
        alt = next((g for g in e.guards if P(g)[:1] == ("alt",) and "Projection<" in str(P(g)[2])), None)
        if alt is None or "SynapticResource" not in str(P(alt)[2]):
            continue
        n += 1
        syn = next(canon(x[1]) for x in T.subterms(a) if x[:1] == ("fld",) and x[2] == "delay_")
        have = [m for x, m in marks if x == syn and loop_ids(m.loops) == loop_ids(e.loops)]
        why = None
        if not have:
            why = "last_spike_step_ of the synapse is not set"
        else:
            g = [x for x in when(have[-1]) if x not in when(e)]
            why = "last_spike_step_ is set " + conds(g) if g else None
        ctx.ob("%s/arrival" % unit, not why, ewhere(e), "a spike that reaches a synapse of the resource rule records the "
               "step in the synapse", why or "")
    ctx.floor("arrivals at resource synapses (%s)" % unit, n, 1)
    n = 0
    for r, now, o in runs:
        if o is None or o.kind != "train" or not any(e.kind == "write" and resource(e.loc) for e in r.events):
            continue
        n += 1
        f = r.fn
        msg = [("parm", p["n"] or "arg%d" % i, i) for i, p in enumerate(f.params) if "SpikeMessage" in f.ptype(i)]
        for name in ("last_spike_step_",):
            es = [e for e in r.events if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.loc)[2] == name and
                  P(e.loc)[1][:1] in (("at",), ("elem",)) and P(e.val) in now]
            good = [e for e in es if len(e.loops) == 1 and msg and P(e.loops[0].over) == fld(msg[0], "neuron_indexes_") and
                    not e.loops[0].early and not when(e) and P(e.loc)[1][:1] == ("at",) and
                    P(e.loc)[1][2] == ("elem", P(e.loops[0].over))]
            ctx.ob("%s/fired" % unit, good, ewhere(es[0]) if es else ewhere(o.e), "every neuron that fires records the "
                   "step", "it is recorded only " + conds(when(es[0])) if es and when(es[0]) else
                   "no write of it covers all neurons of the message")
    ctx.floor("training functions of resource neurons (%s)" % unit, n, 1)


# ------------------------------------------------------------------ B16
TYPES = ("STDPOnly", "STDPAndSpike")


def enum_in(a):
    """The message processing type a comparison asks for."""
    if a[:1] != ("eq",):
        return None
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        if x[:1] == ("enum",) and "ProcessingType" in x[1] and T.mentions_field(y, "stdp_populations_") and \
                T.mentions_field(y, "sender_uid_"):
            return x[1].rsplit("::", 1)[-1]
    return None


def types_of(gs, known):
    """(types for which the conditions hold, conditions that are about something else)."""
    atoms = {}
    fs = [(g, formula(g, atoms)) for g in sorted(gs, key=repr)]
    other, mine = [], []
    for g, f in fs:
        ids = {i for a, i in atoms.items() if ("atom", i) == f or ("atom", i) in flat(f)}
        names = {a for a, i in atoms.items() if i in ids}
        if all(enum_in(a) or known(a) for a in names):
            mine.append(f)
        else:
            other.append(g)
    out = set()
    for ty in TYPES:
        env = {i: True if known(a) else enum_in(a) == ty for a, i in atoms.items()}
        if all(value(f, env) for f in mine):
            out.add(ty)
    return out, other


def flat(f):
    if isinstance(f, tuple):
        yield f
        for x in f:
            yield from flat(x)


def history(loc):
    """(synapse location, history field)."""
    loc = P(loc)
    if loc[:1] == ("fld",) and loc[2] in HISTORIES and loc[1][:1] == ("fld",):
        return loc[1][1], loc[2]
    return None


@check("B16", ["st"])
def b16(ctx):
    s = step(ctx, "st")
    runs = [(ctx.run(f, opaque=closed, okey="train"), f, o) for f, now, o in roots(ctx, s, "stdp")
            if "Additive" in f.ptype(0)]
    rec = [(r, f, o) for r, f, o in runs if any(c and history(c) for e, v, c in appends(r))]
    mod = [(r, f, o) for r, f, o in runs if any(e.kind == "write" and P(e.loc)[:1] == ("fld",) and
                                                P(e.loc)[2] == "weight_" for e in r.events)]
    if not rec:
        ctx.ob("record/none", False, where_fn(s), "spikes are put into the histories", "no function of the step does")
        return
    if not mod:
        ctx.ob("weight/none", False, where_fn(s), "the weight follows the histories", "no function of the step writes it")
        return
    for r, f, o in rec:
        record(ctx, s, r, f)
    for r, f, o in mod:
        follow(ctx, s, r, f)
    for kind, fs in (("record", rec), ("weight", mod)):
        for r, f, o in fs:
            es = [q.e for q in s.of("stdp") if (q.e.meta or {}).get("id") == f.id]
            e = es[0]
            g = [x for x in when(e) if x[:1] != ("alt",)]
            bad = conds(g) if g else "the loop around it can be left early" if any(l.early for l in e.loops) else \
                "%d loops around it" % len(e.loops) if len(e.loops) != 1 else ""
            ctx.ob(kind + "/every-step", not bad, ewhere(e), "it happens once for every additive projection in every step",
                   "it happens " + bad)
            alt = next((P(x) for x in e.guards if P(x)[:1] == ("alt",)), None)
            grow = [x for x in s.r.events if x.kind == "usub" and T.mentions_field(P(x.args[0]), "delay_") and
                    alt in [P(y) for y in x.guards]]
            wrong = [x for x in grow if (x.ix < e.ix) == (kind == "record")]
            ctx.ob(kind + "/order", not wrong, ewhere(e), "spikes are recorded and training-only messages emptied before "
                   "impacts are made, weights follow afterwards",
                   "impacts are made %s it" % ("before" if kind == "record" else "after"))


def where_fn(s):
    return "%s:%s (%s)" % (s.fn.file, s.fn.line, s.fn.label())


def limit(g, loc):
    """size(history) < tau_plus + tau_minus"""
    neg = g[:1] == ("not",)
    g = g[1] if neg else g
    if g[:1] != ("lt",):
        return None
    syn, name = history(loc)
    if g[1] == ("size", P(loc)) and terms_of(g[2]) == Counter(
            {fld(syn, "rule_", "tau_plus_"): 1, fld(syn, "rule_", "tau_minus_"): 1}):
        return "full" if neg else "room"
    return None


def record(ctx, s, r, f):
    msgs = [("parm", p["n"] or "arg%d" % i, i) for i, p in enumerate(f.params) if "SpikeMessage" in f.ptype(i)]
    if not msgs:
        raise AnalysisBroken("additive histories are filled by a function without messages: " + f.qn)
    msg = ("elem", msgs[0])
    proj = ("parm", f.params[0]["n"] or "arg0", 0)

    def known(a):
        return a[:1] == ("has",) and T.mentions_field(a[1], "stdp_populations_") and a[2] == fld(msg, "header_", "sender_uid_")

    got = {h: Counter() for h in HISTORIES}
    seen = Counter()
    last = 0
    for e, v, c in appends(r):
        if not c or not history(c):
            continue
        syn, name = history(c)
        short_name = name.split("_")[0]
        seen[name] += 1
        key = "record/%s%s" % (short_name, "/%d" % seen[name] if seen[name] > 1 else "")
        last = max(last, e.ix)
        found = next((x for x in T.subterms(syn) if x[:1] == ("call",) and x[1].endswith("::find_synapses")), None)
        ix = ("elem", fld(msg, "neuron_indexes_"))
        want = ("call", found[1], (proj, ix)) if found else None
        why = ""
        if not found or found[2][:2] != want[2]:
            why = "it is the history of %s" % S(syn)[:120]
        elif len(found[2]) < 3 or not S(found[2][2]).endswith("by_" + short_name):
            why = "the synapses are looked up %s" % (S(found[2][2]) if len(found[2]) > 2 else "by default")
        ctx.ob(key + "/synapses", not why, ewhere(e), "a spike goes into the %s history of the synapses whose %s neuron "
               "fired" % (short_name, short_name), why)
        ctx.ob(key + "/time", v == fld(msg, "header_", "send_time_"), ewhere(e), "the history keeps the step the spike was "
               "sent in", "it keeps " + S(v)[:120])
        over = [P(l.over) for l in e.loops if l.over]
        ok = [msgs[0], ix[1], found] == over and not any(l.early for l in e.loops)
        ctx.ob(key + "/all", ok, ewhere(e), "every spike of every message reaches every synapse found for it",
               "a loop can be left early" if [msgs[0], ix[1], found] == over else "loops run over " +
               ", ".join(S(x)[:60] for x in over))
        tys, other = types_of(when(e), known)
        got[name].update(tys)
        other = [g for g in other if limit(g, c) != "room"]
        ctx.ob(key + "/when", not other, ewhere(e), "a spike is recorded unless the history is full", "it is recorded " +
               conds(other))
    for name, want in (("postsynaptic_spike_times_", set(TYPES)), ("presynaptic_spike_times_", {"STDPAndSpike"})):
        for ty in TYPES:
            n = got[name][ty]
            ctx.ob("record/%s/%s" % (name.split("_")[0], ty), n == (1 if ty in want else 0), where_fn(s) if not n else
                   ewhere(r.events[-1]), "spikes of a population marked %s %s the %s history" % (
                       ty, "go once into" if ty in want else "stay out of", name.split("_")[0]),
                   "they are put into it %d times" % n)
    empties = [e for e in r.events if (e.kind == "write" and P(e.loc) == fld(msg, "neuron_indexes_")) or (
        e.kind == "call" and e.obj is not None and P(e.obj) == fld(msg, "neuron_indexes_") and
        e.name in ("clear", "erase", "resize", "swap"))]
    done = Counter()
    for e in empties:
        tys, other = types_of(when(e), known)
        ok = not other and not any(l.early for l in e.loops) and (e.kind == "call" and e.name == "clear" or
                                                                  e.kind == "write" and nothing(P(e.val)))
        for ty in tys:
            done[ty] += ok
        ctx.ob("emptied/after", e.ix > last, ewhere(e), "messages are emptied after their spikes were recorded",
               "they are emptied before")
        ctx.ob("emptied/kept", "STDPAndSpike" not in tys, ewhere(e), "messages of a population marked STDPAndSpike stay",
               "they are emptied")
    ctx.ob("emptied/training-only", done["STDPOnly"] >= 1, ewhere(empties[0]) if empties else where_fn(s),
           "messages of a population marked STDPOnly are emptied, so that they produce no impacts",
           "they are emptied only " + conds(when(empties[0])) if empties else "they are never emptied")


def nothing(v):
    return v[:1] == ("new",) and (len(v) < 3 or not v[2]) or "{}" in S(v)


def follow(ctx, s, r, f):
    proj = ("parm", f.params[0]["n"] or "arg0", 0)
    params = fld(proj, "parameters_")
    ws = [e for e in r.events if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.loc)[2] == "weight_"]
    for e in ws:
        syn = P(e.loc)[1]
        hist = {n: fld(syn, "rule_", n) for n in HISTORIES}
        over = [P(l.over) for l in e.loops if l.over]
        ok = syn in (("get", "0", ("elem", params)), ("get", "0", ("elem", proj))) and over == [syn[2][1]] and \
            not e.loops[0].early
        ctx.ob("weight/every-synapse", ok, ewhere(e), "every synapse of the projection is considered",
               "the loop can be left early" if over in ([params], [proj]) else "loops run over " + ", ".join(map(S, over)))
        full = {n for n in hist for g in when(e) if limit(g, hist[n]) == "full"}
        rest = [g for g in when(e) if not any(limit(g, hist[n]) == "full" for n in hist)]
        ctx.ob("weight/when", full == set(hist) and not rest, ewhere(e), "the weight changes when both histories are full",
               "it changes " + (conds(when(e)) or "always"))
        cl = {n: [x for x in r.events if x.kind == "call" and x.name == "clear" and x.obj is not None and
                  P(x.obj) == hist[n]] for n in hist}
        for n, xs in sorted(cl.items()):
            good = [x for x in xs if x.ix > e.ix and when(x) == when(e)]
            ctx.ob("weight/clear-" + n.split("_")[0], good and len(xs) == 1, ewhere(xs[0]) if xs else ewhere(e),
                   "the history is emptied after the weight took it into account, and only then",
                   "it is emptied %s" % ("before the weight is updated" if xs and xs[0].ix < e.ix else
                                         conds(when(xs[0])) if xs else "never"))
        why = pairs(r, hist)
        ctx.ob("weight/pairs", not why, ewhere(e), "the change sums exp(-|d| / tau) over all pairs of a presynaptic and a "
               "postsynaptic spike, tau being tau_plus when the postsynaptic one is later", why)


def pairs(r, hist):
    pre, post = ("elem", hist["presynaptic_spike_times_"]), ("elem", hist["postsynaptic_spike_times_"])
    rule = hist["presynaptic_spike_times_"][1]
    ex = [e for e in r.events if e.kind == "call" and e.qn in ("std::exp", "exp", "expf", "std::expf") and
          T.mentions(P(e.args[0]), pre)]
    if not ex:
        return "no exponential of the time difference is computed"
    for e in ex:
        over = {P(l.over) for l in e.loops}
        if not {pre[1], post[1]} <= over or any(l.early for l in e.loops):
            return "not all pairs of spikes are taken"
    for tp, tm, a, b in ((5, 7, 10, 13), (5, 7, 13, 10), (3, 2, 0, 1), (3, 2, 9, 4), (2, 3, 1, 5)):
        env = {pre: Fraction(a), post: Fraction(b), fld(rule, "tau_plus_"): Fraction(tp),
               fld(rule, "tau_minus_"): Fraction(tm)}
        vals = []
        for e in ex:
            try:
                gs = [P(g) for g in e.guards if T.mentions(P(g), pre) or T.mentions(P(g), post)]
                if all(holds(g, env.get) for g in gs):
                    vals.append(number(P(e.args[0]), env.get))
            except ValueError as x:
                return str(x)
        want = -Fraction(abs(b - a), tp if b > a else tm)
        if vals != [want]:
            return "for spikes at %d (before) and %d (after), tau_plus %d, tau_minus %d the exponent is %s, not %s" % (
                a, b, tp, tm, ", ".join(map(str, vals)) or "none", want)
    return ""
