"""Projection and population creators: which synapses and neurons they make (F10)."""
from .. import interp
from .. import terms as T
from ..lib import P, S, check, guards, this, where
from .backend import plus
from .network import canon, norm, parameter
from .wiring import lv, replace

PC = "knp::framework::projection::creators::"
PROJ = "knp::framework::projection::"
POP = "knp::framework::population::creators::"
I = ("parm", "index", 0)
ONE = ("lit", "1")
ASK = ("call", "std::function::operator()")


def factors(t):
    if t[:2] == ("bin", "*"):
        return factors(t[2]) + factors(t[3])
    return [t]


def product(t):
    return sorted((factor(x) for x in factors(t)), key=repr)


def factor(t):
    """A factor, sums in one order."""
    if t[:1] == ("bin",) and t[1] in "+-":
        d = {k: v for k, v in plus(t).items() if v}
        return ("sum", tuple(sorted(d.items(), key=repr)))
    return t


def same(a, b):
    return product(a) == product(b)


def mod(a, b):
    return ("bin", "%", a, b)


def div(a, b):
    return ("bin", "/", a, b)


class Made:
    """What a creator makes: the two UIDs, how many times the generator is asked, and what it yields for an index."""

    def __init__(self, ctx, fn, args, st, r):
        self.fn, self.r = fn, r
        self.count = norm(args[-1])
        self.uids = [norm(x) for x in args[-4:-2]] if len(args) >= 4 else []
        self.outcomes = None
        g = args[-2]
        g = interp.read(st, g) if g[:1] in (("var",), ("tmp",)) else g
        self.gen = g
        it = r.interp
        if g[:1] == ("lam",):
            nn, dfr, _ = it.closures[g[2]]
            n0 = len(it.events)
            out, val = it.call_lambda(g, [I], st.copy(), dfr, 0)
            evs = it.events[n0:]
            top = [e for e in evs if e.kind == "ret" and len(e.stack) == min([len(x.stack) for x in evs if x.kind == "ret"] or [0])]
            base = frozenset(P(x) for x in st.guards)
            self.outcomes = [(norm(e.val), frozenset(norm(x) for x in guards(e) - base)) for e in top] or [(norm(val), frozenset())]
            self.after = {}
        elif g[:1] in (("agg",), ("obj",), ("new",)):
            self.functor(ctx, g, st)

    def functor(self, ctx, g, st):
        fields = dict(g[2]) if g[:1] == ("agg",) else {}
        cls = g[1]
        ops = [f for f in ctx.prog.functions.values() if f.qn.endswith("::operator()") and "index" not in f.file and
               same_class(cls, f)]
        if len(ops) != 1:
            return
        r = ctx.run(ops[0])
        self.op = ops[0]

        def sub(t):
            t = norm(t)
            for k, v in fields.items():
                if k != "*":
                    t = replace(t, this(k), norm(v))
            return canon(replace(t, parameter(ops[0], 0), I))
        self.outcomes = [(sub(e.val), frozenset(sub(x) for x in guards(e))) for e in r.events if e.kind == "ret" and len(e.stack) == 1]
        self.after = {}
        for e in r.events:
            if e.kind == "write" and P(e.loc)[:2] == ("fld", ("this",)):
                self.after.setdefault(P(e.loc)[2], []).append((sub(e.val), len(e.loops), guards(e)))
        self.raw_fields = fields


def same_class(cls, f):
    import re
    bare = lambda s: re.sub(r"\s+", "", str(s))
    base = bare(cls).split("<", 1)[0]
    return f.qn.rsplit("::", 1)[0].rsplit("::", 1)[-1] == base.rsplit("::", 1)[-1]


def made(ctx, fn):
    """[Made] for every way out of a creator."""
    opaque = lambda m, f: m["qn"].startswith(("knp::core::Projection::Projection", "knp::core::Population::Population"))
    r = ctx.run(fn, opaque=opaque, okey="creators")
    out = []
    for st, v, line in r.exits:
        if v[:1] != ("new",):
            v = interp.read(st, v)
        if v[:1] == ("new",) and len(v[2]) >= 2:
            out.append(Made(ctx, fn, v[2], st, r))
        else:
            out.append(None)
    return out


def unpack(v):
    """(parameters, source, target) of a synapse that is yielded."""
    if v[:1] == ("some",):
        v = v[1]
    if v[:1] == ("tuple",) and len(v[1]) == 3:
        return v[1]
    return None


def only(ctx, key, m, want_guards=None):
    """The single outcome of a generator that always yields a synapse."""
    o = [x for x in (m.outcomes or []) if x[0] != ("none",)]
    t = unpack(o[0][0]) if len(o) == 1 and len(m.outcomes) == 1 else None
    ctx.ob(key + "/always", t is not None and not [c for c in o[0][1]], where(m.fn), "a synapse is made for every index",
           "; ".join(S(x[0])[:80] + (" when " + ", ".join(S(c)[:60] for c in x[1]) if x[1] else "") for x in m.outcomes or []) or "generator not resolved")
    return t


def ask2(gen, a, b):
    return ASK + ((gen, a, b),)


def ask1(gen, a):
    return ASK + ((gen, a),)


def ends(ctx, key, m, a, b):
    ctx.ob(key + "/ends", m.uids == [a, b], where(m.fn), "the projection goes from the given source to the given target population",
           " -> ".join(S(x)[:60] for x in m.uids))


def pairs(i, p, q):
    """The ways to number all pairs of p sources and q targets."""
    return [(mod(i, p), div(i, p)), (div(i, q), mod(i, q))]


def full(ctx, key, m, p, q, gen):
    ctx.ob(key + "/count", product(m.count) == product(("bin", "*", p, q)), where(m.fn),
           "the generator is asked once for every pair of neurons", S(m.count))
    t = only(ctx, key, m)
    if t is not None:
        ok = tuple(t[1:]) in pairs(I, p, q)
        ctx.ob(key + "/pairs", ok, where(m.fn), "every source neuron is connected to every target neuron once",
               "synapse %s: %s -> %s" % (S(I), S(t[1]), S(t[2])))
        if gen is not None:
            ctx.ob(key + "/parameters", t[0] == ask2(gen, t[1], t[2]), where(m.fn),
                   "the parameters of a synapse are those given for its two neurons", S(t[0])[:160])


def cases(t):
    """[(term, conditions)] without conditional values."""
    for x in T.subterms(t):
        if x[:1] == ("ite",) and len(x) == 4 and not any(T.has_head(y, "ite") for y in x[1:2]):
            a = cases(settle(t, x[1], True))
            b = cases(settle(t, x[1], False))
            return [(v, c | {x[1]}) for v, c in a] + [(v, c | {T.neg(x[1])}) for v, c in b]
    return [(t, frozenset())]


def settle(t, c, yes):
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("ite",) and len(t) == 4:
        if t[1] == c or T.neg(t[1]) == c:
            pick = t[2] if (t[1] == c) == yes else t[3]
            return settle(pick, c, yes)
    return tuple(settle(x, c, yes) for x in t)


@check("F10", ["drv"])
def f10(ctx):
    n = 0
    rules = dict(all_to_all=all_to_all, aligned=aligned, exclusive=exclusive, one_to_one=one_to_one, from_container=container,
                 from_map=from_map, fixed_probability=probability, index_based=index_based, fixed_number_post=fixed_post,
                 fixed_number_pre=fixed_pre, clone_projection=clone)
    for name, rule in rules.items():
        for fn in ctx.prog.fn(PC + name):
            for m in made(ctx, fn):
                ctx.ob(name + "/made", m is not None and m.outcomes is not None, where(fn),
                       "the creator returns a projection filled by a known generator", "not recognised")
                if m is not None and m.outcomes is not None:
                    rule(ctx, name, m, fn)
                    n += 1
    for fn in ctx.prog.fn(PROJ + "connect_populations"):
        for m in made(ctx, fn):
            if m is None or not m.uids:
                ctx.ob("connect/made", False, where(fn), "connecting populations returns a projection", "not recognised")
                continue
            a, b = parameter(fn, 0), parameter(fn, 1)
            ctx.ob("connect/ends", [owner(x) for x in m.uids] == [a, b], where(fn),
                   "the projection goes from the first population to the second", " -> ".join(S(x) for x in m.uids))
            if len(fn.params) == 3:
                p, q = pop_size(a), pop_size(b)
                full(ctx, "connect", m, p, q, parameter(fn, 2))
            else:
                ctx.ob("connect/generator", norm(m.gen) == parameter(fn, 2) and m.count == parameter(fn, 3), where(fn),
                       "the given generator is asked the given number of times", "%s, %s" % (S(norm(m.gen))[:60], S(m.count)))
            n += 1
    for name in ("from_container", "make_default", "make_clone"):
        for fn in ctx.prog.fn(POP + name):
            for m in made(ctx, fn):
                neurons(ctx, name, m, fn)
                n += 1
    for fn in ctx.prog.fn(PROJ + "parameters_generators::CopySynapseGen::operator()"):
        r = ctx.run(fn)
        ctx.ob("copy/base", all(norm(v) == this("base_synapse_") for s, v, _ in r.exits), where(fn),
               "every synapse gets the parameters given", "; ".join(S(norm(v))[:80] for s, v, _ in r.exits))
    ctx.floor("creators", n, 16)


def owner(u):
    while u[:1] == ("fld",):
        u = u[1]
    return u


def pop_size(p):
    return ("size", ("fld", p, "neurons_"))


def all_to_all(ctx, key, m, fn):
    a, b, p, q, g = [parameter(fn, i) for i in range(5)]
    ends(ctx, key, m, a, b)
    full(ctx, key, m, p, q, g)


def aligned(ctx, key, m, fn):
    a, b, p, q, g = [parameter(fn, i) for i in range(5)]
    ends(ctx, key, m, a, b)
    big = {("max",) + tuple(sorted((p, q), key=repr))}
    ok = all(c in (p, q) or c in big for c, _ in cases(m.count))
    for c, cs in cases(m.count):
        if c in (p, q):
            other = q if c == p else p
            ok = ok and (T.neg(("lt", c, other)) in cs or ("lt", other, c) in cs)
    ctx.ob(key + "/count", ok, where(fn), "there is one synapse for every neuron of the larger population", S(m.count))
    outs = []
    for v, gs in m.outcomes or []:
        for v, cs in cases(v):
            outs.append((unpack(v), cs | gs))
    bad = []
    for t, cs in outs:
        if t is None:
            bad.append("no synapse when " + ", ".join(S(c) for c in cs))
            continue
        more_sources = T.neg(("lt", p, q)) in cs or ("lt", q, p) in cs
        more_targets = ("lt", p, q) in cs or T.neg(("lt", q, p)) in cs
        if t[0] != ask2(g, t[1], t[2]):
            bad.append("parameters " + S(t[0])[:80])
        elif more_sources:
            if not (t[1] == I and scaled(t[2], q, p)):
                bad.append("%s -> %s with more sources" % (S(t[1])[:60], S(t[2])[:60]))
        elif more_targets:
            if not (t[2] == I and scaled(t[1], p, q)):
                bad.append("%s -> %s with more targets" % (S(t[1])[:60], S(t[2])[:60]))
        else:
            bad.append("%s -> %s in any case" % (S(t[1])[:60], S(t[2])[:60]))
    ctx.ob(key + "/pairs", outs and not bad, where(fn),
           "each neuron of the larger population is aligned with the neuron at the same relative place of the smaller one", "; ".join(bad))


def scaled(t, small, large):
    """index * small / large: below small for every index below large."""
    return t[:2] == ("bin", "/") and t[3] == large and product(t[2]) == product(("bin", "*", I, small))


def exclusive(ctx, key, m, fn):
    a, b, p, g = [parameter(fn, i) for i in range(4)]
    ends(ctx, key, m, a, b)
    less = ("bin", "-", p, ONE)
    ok = product(m.count) == product(("bin", "*", p, less)) or \
        factor(m.count) == factor(("bin", "-", ("bin", "*", p, p), p))
    ctx.ob(key + "/count", ok, where(fn), "there is one synapse for every pair of different neurons", S(m.count))
    q, r = div(I, less), mod(I, less)
    outs = [(unpack(v), cs | gs) for x, gs in m.outcomes or [] for v, cs in cases(x)]
    bad = []
    for t, cs in outs:
        if t is None or t[0] != ask2(g, t[1], t[2]):
            bad.append("parameters" if t else "no synapse")
            continue
        x, y = (t[1], t[2]) if t[1] == q else (t[2], t[1])
        below, above = ("lt", r, q) in cs, T.neg(("lt", r, q)) in cs
        if not (x == q and (below and y == r or above and factor(y) == factor(("bin", "+", r, ONE)))):
            bad.append("%s -> %s when %s" % (S(t[1])[:60], S(t[2])[:60], ", ".join(S(c)[:60] for c in cs)))
    ctx.ob(key + "/pairs", outs and not bad, where(fn), "every neuron is connected to every other one once and never to itself", "; ".join(bad))


def one_to_one(ctx, key, m, fn):
    a, b, p, g = [parameter(fn, i) for i in range(4)]
    ends(ctx, key, m, a, b)
    ctx.ob(key + "/count", m.count == p, where(fn), "there is one synapse for every neuron", S(m.count))
    t = only(ctx, key, m)
    if t is not None:
        ctx.ob(key + "/pairs", tuple(t) == (ask1(g, I), I, I), where(fn),
               "each neuron is connected to the neuron of the same index", "%s -> %s, %s" % (S(t[1]), S(t[2]), S(t[0])[:80]))


def container(ctx, key, m, fn):
    a, b, c = [parameter(fn, i) for i in range(3)]
    ends(ctx, key, m, a, b)
    ctx.ob(key + "/count", m.count == ("size", c), where(fn), "every element is taken", S(m.count))
    ok = len(m.outcomes) == 1 and m.outcomes[0][0] in (("some", ("at", c, I)), ("at", c, I)) and not m.outcomes[0][1]
    ctx.ob(key + "/elements", ok, where(fn), "synapse number n is element number n", "; ".join(S(v)[:80] for v, _ in m.outcomes))


def from_map(ctx, key, m, fn):
    a, b, c = [parameter(fn, i) for i in range(3)]
    ends(ctx, key, m, a, b)
    ctx.ob(key + "/count", m.count == ("size", c), where(fn), "every entry of the map is taken", S(m.count))
    its = [k for k, v in getattr(m, "raw_fields", {}).items() if norm(v) == ("begin", c)]
    ctx.ob(key + "/first", len(its) == 1, where(fn), "the entries are taken from the first one on", "no iterator that starts at the first entry")
    if len(its) != 1:
        return
    now = ("begin", c)
    steps = m.after.get(its[0], [])
    ok = len(steps) == 1 and steps[0][1] == 0 and not steps[0][2] and steps[0][0] in (
        ("next", now), ("iterfrom", now), ("bin", "+", now, ONE), ("call", "std::next", (now,)))
    ctx.ob(key + "/next", ok, where(m.op), "each call takes the next entry", "; ".join(S(x[0]) for x in steps) or "the iterator stays")
    t = only(ctx, key, m)
    if t is not None:
        key_, val = ("get", "0", ("deref", now)), ("get", "1", ("deref", now))
        ok = tuple(halves(x) for x in t) == (val, ("get", "0", key_), ("get", "1", key_))
        ctx.ob(key + "/pairs", ok, where(m.op), "an entry becomes a synapse from its first to its second index with its parameters",
               ", ".join(S(x)[:60] for x in t))


def halves(t):
    """The parts of a pair under one name."""
    if not isinstance(t, tuple):
        return t
    t = tuple(halves(x) for x in t)
    if t[:1] == ("fld",) and t[2] in ("first", "second"):
        return ("get", "0" if t[2] == "first" else "1", t[1])
    return t


def uniform(t, n):
    """A random value from 0 to n - 1."""
    if t[:2] == ("bin", "%"):
        return t[3] == n and "uniform" in S(t[2]) + str(t[2])
    if t[:2] == ("call", "std::uniform_int_distribution::operator()"):
        d = t[2][0]
        return d[:1] == ("new",) and len(d[2]) == 2 and d[2][0] == T.ZERO and factor(d[2][1]) == factor(("bin", "-", n, ONE))
    return False


def fixed_post(ctx, key, m, fn):
    fixed(ctx, key, m, fn, 1)


def fixed_pre(ctx, key, m, fn):
    fixed(ctx, key, m, fn, 0)


def fixed(ctx, key, m, fn, rnd):
    a, b, p, q, k, g = [parameter(fn, i) for i in range(6)]
    ends(ctx, key, m, a, b)
    own, other = (p, q) if rnd == 1 else (q, p)
    ctx.ob(key + "/count", product(m.count) == product(("bin", "*", own, k)), where(fn),
           "every neuron of the fixed side gets the number of synapses asked for", S(m.count))
    t = only(ctx, key, m)
    if t is not None:
        fix, free = (t[1], t[2]) if rnd == 1 else (t[2], t[1])
        ctx.ob(key + "/fixed", fix in (mod(I, own), div(I, k)), where(m.op), "the synapses are spread evenly over that side", S(fix))
        ctx.ob(key + "/random", uniform(free, other), where(m.op), "the other end is any neuron of the other population", S(free)[:200])
        ctx.ob(key + "/parameters", t[0] == ask2(g, t[1], t[2]), where(m.op),
               "the parameters of a synapse are those given for its two neurons", S(t[0])[:160])


def probability(ctx, key, m, fn):
    a, b, p, q, pr, g = [parameter(fn, i) for i in range(6)]
    ends(ctx, key, m, a, b)
    ctx.ob(key + "/count", product(m.count) == product(("bin", "*", p, q)), where(fn),
           "every pair of neurons gets its chance", S(m.count))
    bad, yes = [], 0
    for v, gs in m.outcomes:
        draw = [c for c in gs]
        lt = [c for c in draw if c[:1] == ("lt",) and c[2] == pr and "uniform_real_distribution" in str(c[1][1] if len(c[1]) > 1 else "")]
        le = [c for c in draw if c[:1] == ("not",) and c[1][:1] == ("lt",) and c[1][2] == pr]
        if v == ("none",):
            if len(draw) != 1 or not le:
                bad.append("no synapse when " + ", ".join(S(c)[:80] for c in draw))
            continue
        yes += 1
        t = unpack(v)
        if t is None or tuple(t[1:]) not in pairs(I, p, q) or t[0] != ask2(g, t[1], t[2]):
            bad.append("synapse " + S(v)[:120])
        elif len(draw) != 1 or not lt or not unit(lt[0][1]):
            bad.append("a synapse when " + (", ".join(S(c)[:80] for c in draw) or "in any case"))
    ctx.ob(key + "/pairs", yes == 1 and not bad, where(fn), "a pair is connected exactly when its draw from [0, 1) is below the probability",
           "; ".join(bad) or "%d outcomes" % yes)
    no = [frozenset(norm(x) for x in guards(e)) for e in m.r.events if e.kind == "throw"]
    flat = set()
    for cs in no:
        for c in cs:
            if c[:1] == ("not",) and c[1][:1] == ("and",):
                flat |= {T.neg(x) for x in c[1][1:]}
            elif c[:1] == ("or",):
                flat |= set(c[1:])
            else:
                flat.add(c)
    hi = any(c[:1] == ("lt",) and c[2] == pr and S(c[1]) in ("1", "1.0") for c in flat)
    lo = any(c[:1] == ("lt",) and c[1] == pr and S(c[2]) in ("0", "0.0") for c in flat)
    ctx.ob(key + "/range", hi and lo, where(fn), "a probability outside [0, 1] is refused", ", ".join(S(c) for c in flat) or "never")


def unit(t):
    d = t[2][0] if len(t) > 2 and t[2] else ()
    return d[:1] == ("new",) and (not d[2] or [S(x) for x in d[2]] in (["0", "1"], ["0.0", "1.0"]))


def index_based(ctx, key, m, fn):
    a, b, p, q, g = [parameter(fn, i) for i in range(5)]
    ends(ctx, key, m, a, b)
    ctx.ob(key + "/count", product(m.count) == product(("bin", "*", p, q)), where(fn), "every pair of neurons is asked for", S(m.count))
    outs = [(v, cs | gs) for x, gs in m.outcomes for v, cs in cases(x)]
    bad, yes = [], 0
    for v, gs in outs:
        ok = False
        for s, d in pairs(I, p, q):
            asked = ask2(g, s, d)
            there = [c for c in gs if c[:1] != ("not",) and T.mentions(c, asked)]
            gone = [c for c in gs if c[:1] == ("not",) and T.mentions(c, asked)]
            t = unpack(v)
            if v == ("none",):
                ok = ok or len(gone) == len(gs) == 1
            elif t is not None:
                good = tuple(t[1:]) == (s, d) and t[0] in (("deref", asked), ("get", asked), asked) and len(there) == len(gs) == 1
                yes += good
                ok = ok or good
        if not ok:
            bad.append(S(v)[:100] + " when " + ", ".join(S(c)[:80] for c in gs))
    ctx.ob(key + "/pairs", yes == 1 and not bad, where(fn),
           "a pair is connected exactly when the given function yields parameters for it, with those", "; ".join(bad))


def clone(ctx, key, m, fn):
    src, g, a, b = [parameter(fn, i) for i in range(4)]
    have = lambda u: ("fld", src, u)
    ok = True
    for u, given, own in zip(m.uids, (a, b), ("presynaptic_uid_", "postsynaptic_uid_")):
        alts = {S(v): (v, cs) for v, cs in cases(u)}
        ok = ok and len(alts) == 2
        for v, cs in alts.values():
            present = any(c[:1] != ("not",) and T.mentions(c, given) for c in cs)
            ok = ok and (v == ("deref", given) if present else v == have(own))
    ctx.ob(key + "/ends", ok, where(fn), "the populations are the given ones, or those of the source projection",
           " -> ".join(S(x)[:80] for x in m.uids))
    syn = ("fld", src, "parameters_")
    ctx.ob(key + "/count", m.count == ("size", syn), where(fn), "every synapse of the source is cloned", S(m.count))
    t = only(ctx, key, m)
    if t is not None:
        one = ("at", syn, I)
        ok = tuple(t) == (ask1(g, I), ("get", "1", one), ("get", "2", one))
        ctx.ob(key + "/pairs", ok, where(fn), "a clone connects the same neurons as its source, with the parameters given",
               "%s -> %s, %s" % (S(t[1])[:60], S(t[2])[:60], S(t[0])[:60]))


def neurons(ctx, name, m, fn):
    key = "population/" + name
    if m is None or m.outcomes is None:
        ctx.ob(key + "/made", False, where(fn), "the creator returns a population filled by a known generator", "not recognised")
        return
    v = [x[0][1] if x[0][:1] == ("some",) else x[0] for x in m.outcomes]
    plain = len(m.outcomes) == 1 and not m.outcomes[0][1]
    if name == "from_container":
        c = parameter(fn, 0)
        count, one = ("size", c), ("at", c, I)
        ok = plain and v[0] == one
        what = "neuron number n is element number n"
    elif name == "make_clone":
        count = parameter(fn, 0)
        ok = plain and v[0] == parameter(fn, 1)
        what = "every neuron is a copy of the given one"
    else:
        count = parameter(fn, 0)
        ok = plain and (v[0][:1] == ("new",) and not v[0][2] or v[0][:1] in (("agg",), ("obj",), ("zero",)))
        what = "every neuron has the default parameters"
    ctx.ob(key + "/count", m.count == count, where(fn), "the population has the number of neurons asked for", S(m.count))
    ctx.ob(key + "/neurons", ok, where(fn), what, "; ".join(S(x)[:100] for x in v))
