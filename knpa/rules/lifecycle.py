"""Rules for the life of a backend: starting, stopping, subscriptions, training locks, device selection."""
import itertools
import re

from .. import interp
from .. import terms as T
from ..lib import P, S, appends, calls, check, entered, ewhere, fld, guards, mutations, rets, this, where
from .backend import NAMES, PROJ, PROJS, WRAP, step

BACKEND = "knp::core::Backend"
STARTED = this("started_")
INIT = this("initialized_")
STEP = this("step_")


# ------------------------------------------------------------------ boolean meaning of branch conditions
def formula(t, atoms):
    """Nested tuples over atom numbers; everything that is no connective is an atom."""
    t = P(t)
    if t == T.TRUE:
        return True
    if t == T.FALSE:
        return False
    if isinstance(t, tuple) and t:
        h = t[0]
        if h == "not":
            return ("not", formula(t[1], atoms))
        if h in ("and", "or", "oneof"):
            xs = t[1] if h == "oneof" and isinstance(t[1], frozenset) else t[1:]
            return ("and" if h == "and" else "or",) + tuple(formula(x, atoms) for x in sorted(xs, key=repr))
        if h == "ite":
            return ("ite",) + tuple(formula(x, atoms) for x in t[1:])
        if h == "truth":
            return formula(t[1], atoms)
        if h == "bin" and t[1] in ("&&", "||"):
            return ("and" if t[1] == "&&" else "or", formula(t[2], atoms), formula(t[3], atoms))
    return ("atom", atoms.setdefault(t, len(atoms)))


def value(f, env):
    if f is True or f is False:
        return f
    h = f[0]
    if h == "atom":
        return env[f[1]]
    if h == "not":
        return not value(f[1], env)
    if h == "and":
        return all(value(x, env) for x in f[1:])
    if h == "or":
        return any(value(x, env) for x in f[1:])
    return value(f[2] if value(f[1], env) else f[3], env)


class Conditions:
    """Branch conditions of a run loop as truth functions of: running, has-predicate, predicate-says-go."""

    def __init__(self, params):
        self.params = params
        self.atoms = {}
        self.unknown = set()
        self.true = set()

    def meaning(self, a):
        if a in self.true:
            return "true"
        if a == ("call", "std::atomic::operator conv", (STARTED,)):
            return "run"
        s = [p for p in self.params if T.mentions(a, p)]
        if len(s) == 1 and a[:1] == ("call",) and a[1] == "std::function::operator()":
            return ("go", self.params.index(s[0]), a[2][-1:])
        if len(s) == 1 and (a[:1] == ("call",) and a[1] in ("std::function::operator conv",) or a == s[0] or
                            a[:1] == ("eq",) and "nullptr" in S(a)):
            return ("has", self.params.index(s[0]), a[:1] == ("eq",))
        return None

    def conj(self, gs):
        return ("and",) + tuple(formula(g, self.atoms) for g in sorted(gs, key=repr))

    def rows(self, fs):
        """[(scenario, [truth of each formula])] for every combination of the known facts; None where it depends."""
        known = {}
        for a, i in self.atoms.items():
            m = self.meaning(a)
            if m is None:
                self.unknown.add(S(a))
            known[i] = m
        base = [("run",)] + [(k, n) for n in range(len(self.params)) for k in ("has", "go")]
        free = [i for i in known if known[i] is None]
        for bits in itertools.product((False, True), repeat=len(base)):
            sc = dict(zip(base, bits))
            out = [set() for _ in fs]
            for fb in itertools.product((False, True), repeat=min(len(free), 6)):
                env = dict(zip(free, fb))
                for i in free:
                    env.setdefault(i, False)
                for i, m in known.items():
                    if m in ("run", "true"):
                        env[i] = m == "true" or sc[("run",)]
                    elif m is not None:
                        v = sc[(m[0], m[1])]
                        env[i] = (not v) if m[0] == "has" and m[2] else v
                for k, f in enumerate(fs):
                    out[k].add(value(f, env))
            yield sc, [x.pop() if len(x) == 1 else None for x in out]


def loop_flags(r, lp):
    """Local flags that start true and keep the loop going."""
    if lp.over is None:
        return []
    out = []
    for x in interp.conj(P(lp.over)):
        x = x[1] if x[:1] == ("truth",) else x
        while x[:1] == ("lv",):
            x = x[1]
        if x[:1] == ("var",) and any(e.kind == "decl" and P(e.loc) == x and P(e.val) == T.TRUE for e in r.events):
            out.append(x)
    return out


def uncaught(e, r, loc, val):
    """Ways out of the call `e` by an exception that leave `loc` something other than `val`."""
    for t in reversed(e.tries or ()):
        for w in r.events:
            if w.kind == "write" and P(w.loc) == loc and P(w.val) == val and \
                    all(g == ("caught", t) or g in e.guards for g in w.guards) and ("caught", t) in w.guards:
                return False
    return True


# ------------------------------------------------------------------ B02
@check("B02", ["core"])
def b02(ctx):
    starts = ctx.prog.fn(BACKEND + "::start")
    ctx.floor("start overloads", len(starts), 3)
    for fn in starts:
        r = ctx.run(fn)
        key = "start/%d" % len(fn.params)
        seen = {x[1]: x for e in r.events for t in list(e.args or ()) + [e.obj] if t is not None
                for x in T.subterms(P(t)) if isinstance(x, tuple) and x[:1] in (("var",), ("parm",)) and len(x) > 1}
        params = [seen.get(p["n"], ("unused", p["n"])) for p in fn.params]
        steps = calls(r, BACKEND + "::_step")
        if not ctx.ob(key + "/step", len(steps) == 1, where(fn),
                      "a run executes exactly one simulation step per iteration of its loop",
                      "%d calls of _step" % len(steps)):
            continue
        e = steps[0]
        loops = [lp for lp in e.loops]
        if not ctx.ob(key + "/loop", len(loops) == 1 and loops[0].kind in ("while", "for", "do"), ewhere(e),
                      "steps are executed in the run loop", "%d loops around the step" % len(loops)):
            continue
        lp = loops[0]
        inits = [x for x in entered(r, BACKEND + "::_init") if x.ix < e.ix]
        ons = [w for w in r.events if w.kind == "write" and P(w.loc) == STARTED and P(w.val) == T.TRUE and w.ix < e.ix]
        # R1 initialisation
        isinit = ("call", "std::atomic::operator conv", (INIT,))
        ison = ("call", "std::atomic::operator conv", (STARTED,))
        ok = len(inits) == 1 and T.neg(T.truth(isinit)) in guards(inits[0]) and not inits[0].loops and \
            guards(inits[0]) <= {T.neg(T.truth(isinit)), T.neg(T.truth(ison))}
        ctx.ob(key + "/init", ok, ewhere(inits[0]) if inits else where(fn),
               "a backend that is not initialised is initialised before its first step, once",
               "initialisation is %s" % ("missing" if not inits else "under " + ", ".join(S(g) for g in guards(inits[0]))))
        marks = [w for w in r.events if w.kind == "write" and P(w.loc) == INIT and P(w.val) == T.TRUE]
        ctx.ob(key + "/initialised", bool(inits) and any(guards(w) <= guards(inits[0]) and w.ix > inits[0].ix and
                                                         w.ix < e.ix for w in marks),
               where(fn), "an initialised backend is marked as such, after its initialisation and before the first step",
               "initialized_ is not set to true after _init")
        ctx.ob(key + "/on", any(guards(w) <= {T.neg(T.truth(ison))} for w in ons) and
               all(not inits or w.ix > inits[0].ix for w in ons), where(fn),
               "a started backend is marked as running before its first step and after its initialisation",
               "started_ is not set to true between _init and the run loop")
        # R2 / R3 the conditions of a step and of leaving the loop
        c = Conditions(params)
        over = c.conj([lp.over]) if lp.over is not None and lp.kind != "do" else True
        do = c.conj(guards(e))
        outs = [c.conj(P(g) for g in x) for x in lp.leaves]
        for flag in loop_flags(r, lp):
            c.true.add(flag)
            outs += [("and", c.conj(guards(w)), ("not", formula(P(w.val), c.atoms))) for w in r.events
                     if w.kind == "write" and P(w.loc) == flag and lp in w.loops]
        leave = ("or",) + tuple(outs) + ((("not", over),) if over is not True else ()) + \
            ((("not", c.conj([lp.over])),) if lp.kind == "do" and lp.over is not None else ())
        preds = [x for x in r.events if x.kind == "call" and x.qn == "std::function::operator()" and
                 P(x.obj) in params]
        pos = {}
        for x in preds:
            n = params.index(P(x.obj))
            pos.setdefault(n, []).append(x.ix)
            ctx.ob(key + "/predicate-step", tuple(P(a) for a in x.args) == (STEP,), ewhere(x),
                   "a run predicate is asked about the current step", "argument %s" % [S(P(a)) for a in x.args])
        for n in range(len(fn.params)):
            ctx.ob("%s/predicate-%d" % (key, n), len(pos.get(n, ())) == 1 and
                   (pos[n][0] < e.ix) == (n == 0 or len(fn.params) == 1), where(fn),
                   "%s predicate is asked once per iteration, %s the step" %
                   (("the first", "before") if n == 0 else ("the second", "after")),
                   "asked %d time(s)%s" % (len(pos.get(n, ())), "" if len(pos.get(n, ())) != 1 else ", on the wrong side"))
        why = ""
        opt = len(fn.params) > 1
        for sc, (d, l) in c.rows([("and", over, do) if over is not True else do, leave]):
            if opt is False:
                for n in range(len(fn.params)):
                    if not sc[("has", n)]:
                        sc = None
                        break
                if sc is None:
                    continue
            ask = [sc[("has", n)] and not sc[("go", n)] for n in range(len(fn.params))]
            pre = bool(ask) and ask[0]
            post = len(ask) > 1 and ask[1]
            want = sc[("run",)] and not pre
            if d is not want:
                why = why or "with %s a step is %s" % (show(sc), "executed" if d else "skipped" if d is False else
                                                      "subject to " + ", ".join(sorted(c.unknown)))
            if sc[("run",)]:
                wl = pre or post
                if l is not wl and not why:
                    why = "with %s the run %s" % (show(sc), "ends" if l else "goes on" if l is False else
                                                  "depends on " + ", ".join(sorted(c.unknown)))
        ctx.ob(key + "/conditions", not why, ewhere(e),
               "a step is executed exactly while the backend is running and its predicates agree; a predicate that "
               "returns false ends the run", why)
        # R4 the running mark is cleared
        ctx.ob(key + "/throw", not uncaught(e, r, STARTED, T.FALSE), ewhere(e),
               "an exception in a step leaves the backend stopped", "no handler of the step's exceptions clears started_")
        swallowed = [t for t in e.tries or () if not any(
            x.kind == "throw" and any(g[:2] == ("caught", t) for g in x.guards) and len(x.guards - e.guards) == 1
            for x in r.events)]
        ctx.ob(key + "/rethrow", not swallowed, where(fn), "an exception in a step reaches the caller of start",
               "start returns normally after an exception")
        if fn.params:
            for s, v, line in r.exits:
                off = [w for w in r.events if w.kind == "write" and P(w.loc) == STARTED and P(w.val) == T.FALSE and
                       w.ix > e.ix and not w.loops and guards(w) <= frozenset(P(g) for g in s.guards) | {T.truth(ison)}]
                ctx.ob(key + "/off", bool(off), where(fn, line), "a backend whose run was ended by a predicate is not running",
                       "started_ is still true when start returns")
    # R5, R6 stopping
    for name, tgt in (("stop", [STARTED]), ("~Backend", [STARTED]), ("_uninit", [STARTED, INIT])):
        for fn in ctx.prog.fn(BACKEND + "::" + name):
            r = ctx.run(fn)
            for loc in tgt:
                cur = ("call", "std::atomic::operator conv", (loc,))
                off = [w for w in r.events if w.kind == "write" and P(w.loc) == loc and P(w.val) == T.FALSE]
                okd = {T.truth(cur), T.truth(("call", "std::atomic::operator conv", (INIT,)))} if name == "_uninit" \
                    else {T.truth(cur)}
                ctx.ob("%s/%s" % (name, loc[2]), any(guards(w) <= okd and not w.loops for w in off) and
                       not any(w.kind == "write" and P(w.loc) == loc and P(w.val) != T.FALSE for w in r.events),
                       where(fn), "%s leaves %s false" % (name, loc[2]), "%s is not cleared on every path" % loc[2])
    for fn in ctx.prog.fn(BACKEND + "::running"):
        r = ctx.run(fn)
        vs = [P(e.val) for e in rets(r)]
        ctx.ob("running", vs == [("call", "std::atomic::operator conv", (STARTED,))], where(fn),
               "running() reports the mark that start and stop maintain", "returns %s" % [S(v) for v in vs])
    for rec in ctx.prog.record(BACKEND):
        for n in ("started_", "initialized_"):
            ty = [f["ty"] for f in rec["f"] if f["n"] == n]
            ctx.ob("atomic/" + n, ty and "std::atomic<bool>" in ty[0], BACKEND,
                   "the running and initialised marks can be used from several threads", "%s is %s" % (n, ty))


def show(sc):
    return ", ".join("%s=%s" % ("-".join(map(str, k)), v) for k, v in sorted(sc.items(), key=repr))


# ------------------------------------------------------------------ B03
def alternatives(ctx, unit):
    ty = None
    for rec in ctx.prog.records.values():
        for f in rec["f"]:
            if f["n"] == "arg_" and rec["qn"].startswith(NAMES[unit]):
                ty = f["ty"]
    return len(targs(ty)) if ty else 0


def targs(ty):
    body, depth, out, cur = ty[ty.index("<") + 1:ty.rindex(">")], 0, [], ""
    for ch in body:
        depth += (ch in "<(") - (ch in ">)")
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def complete(lp):
    return lp.kind == "foreach" and not lp.early


@check("B03", ["st", "mt"])
def b03(ctx):
    for unit in ("st", "mt"):
        n = alternatives(ctx, unit)
        ctx.floor(unit + " synapse types", n, 2)
        for name, val in (("start_learning", T.FALSE), ("stop_learning", T.TRUE)):
            for fn in ctx.prog.fn(NAMES[unit] + "::" + name):
                r = ctx.run(fn)
                ws = [e for e in r.events if e.kind == "write" and P(e.loc)[-1] == "is_locked_"]
                seen = set()
                for e in ws:
                    ctx.ob("%s/%s/value" % (unit, name), P(e.val) == val, ewhere(e),
                           "%s %s weights" % (name, "unlocks" if val == T.FALSE else "locks"), "sets %s" % S(P(e.val)))
                    g = [x for x in guards(e) if x[0] != "alt"]
                    alt = [x for x in guards(e) if x[0] == "alt"]
                    ls = [lp for lp in e.loops if P(lp.over) == PROJS]
                    if not g and len(e.loops) == 1 and ls and complete(ls[0]) and len(alt) <= 1 and \
                            T.mentions(P(e.loc), WRAP):
                        seen |= set(alt) or set(range(n))
                ctx.ob("%s/%s/every" % (unit, name), len(seen) == n, where(fn),
                       "%s reaches every projection of every supported synapse type" % name,
                       "%d of %d synapse types are reached unconditionally" % (len(seen), n))
        s = step(ctx, unit)
        trains = [o.e for o in s.of("train")] or [e for e in s.r.events if e.kind == "call" and s.roles.get((e.meta or {}).get("id")) == "train"]
        ctx.floor(unit + " training calls", len(trains), 1)
        picks = []
        for e, v, c in appends(s.r):
            if v[:1] == ("ref",):
                v = v[1]
            if T.mentions(v, WRAP) and v[:1] in (("get",), ("fld",), ("deref",)) and "reference_wrapper" in \
                    str((e.meta or {}).get("clst") or (e.meta or {}).get("cls") or e.qn):
                picks.append((e, v))
        for t in trains:
            alt = [g for g in guards(t) if g[0] == "alt" and P(g[1])[:1] == ("elem",)]
            mine = [(e, v) for e, v in picks if e.ix < t.ix and all(g in guards(e) for g in alt)]
            k = "%s/train" % unit
            if not ctx.ob(k + "/selected", bool(mine), ewhere(t), "training works on projections selected for it",
                          "no projection is selected for this training"):
                continue
            for e, v in mine:
                base = ("fld", v, "is_locked_")
                gs = guards(e)
                rest = [g for g in gs if g not in alt]
                lock = [g for g in rest if g == T.neg(T.truth(base))]
                post = [g for g in rest if g[0] == "eq" and T.mentions(g, ("fld", v, "postsynaptic_uid_")) and
                        any("uid_" in S(x) and not T.mentions(x, v) for x in g[1:])]
                kind = [g for g in rest if g not in lock and g not in post and T.mentions(g, PROJ) and
                        (T.has_head(g, "holds_alternative", "get_if", "alt") or "index" in S(g))]
                other = [g for g in rest if g not in lock + post + kind]
                ctx.ob(k + "/unlocked", bool(lock), ewhere(e), "a projection with locked weights is not trained",
                       "selected without a test of its lock")
                ctx.ob(k + "/incoming", bool(post), ewhere(e),
                       "only projections that end in the population are trained with it",
                       "selected without comparing its postsynaptic population")
                ctx.ob(k + "/all", not other and any(P(lp.over) == PROJS and complete(lp) for lp in e.loops), ewhere(e),
                       "every unlocked incoming projection of the trained type is selected",
                       "further conditions: " + ", ".join(S(g) for g in other) if other else
                       "the search does not visit every projection")


# ------------------------------------------------------------------ B13
def single(t):
    """The only element of an initializer-list built container."""
    xs = [x for x in T.subterms(P(t)) if isinstance(x, tuple) and x[:1] == ("list",)]
    if len(xs) != 1:
        return None
    it = xs[0][1] if len(xs[0]) == 2 and isinstance(xs[0][1], tuple) and xs[0][1] and isinstance(xs[0][1][0], tuple) \
        else xs[0][1:]
    return it[0] if len(it) == 1 else None


def valid(u):
    """Spellings of 'this identifier is set'."""
    return {T.neg(("call", "boost::uuids::uuid::is_nil", (("fld", u, "tag"),)))}


@check("B13", ["st", "mt"])
def b13(ctx):
    for unit in ("st", "mt"):
        for fn in ctx.prog.fn(NAMES[unit] + "::_init"):
            r = ctx.run(fn, opaque=lambda m, f: m.get("qn") == "knp::core::MessageEndpoint::subscribe", okey="subs")
            subs = [e for e in r.events if e.kind == "call" and e.qn == "knp::core::MessageEndpoint::subscribe"]
            k = unit + "/subscribe"
            want = {
                "spikes": ("SpikeMessage", fld(PROJ, "base_", "uid_"), fld(PROJ, "presynaptic_uid_"),
                           "a projection receives the spikes of its presynaptic population"),
                "impacts": ("SynapticImpactMessage", fld(PROJ, "postsynaptic_uid_"), fld(PROJ, "base_", "uid_"),
                            "a population receives the impacts of every projection that ends in it"),
                "training": ("SpikeMessage", fld(PROJ, "base_", "uid_"), None,
                             "a trained projection receives the spikes of its registered training populations"),
            }
            found = {x: [] for x in want}
            for e in subs:
                ty = (e.meta or {}).get("ta", "")
                a = [P(x) for x in e.args]
                snd = single(a[1]) if len(a) > 1 else None
                hit = None
                for n, (mt, rcv, s, _) in want.items():
                    if mt not in ty or a[0] != rcv:
                        continue
                    if s is None and snd is not None and "stdp_populations_" in S(snd) or s is not None and snd == s:
                        hit = n
                ctx.ob(k + "/known", hit is not None, ewhere(e),
                       "every subscription made at initialisation connects a projection with its own populations",
                       "%s: receiver %s, sender %s" % (ty, S(a[0]), S(snd) if snd else S(a[1])))
                if hit:
                    found[hit].append((e, snd))
            for n, (mt, rcv, s, what) in want.items():
                ok, why, types = False, "no such subscription", set()
                for e, snd in found[n]:
                    nil = [g for g in guards(e) if g[0] == "not" and "is_nil" in S(g)]
                    tested = (fld(PROJ, "presynaptic_uid_") if n == "spikes" else
                              fld(PROJ, "postsynaptic_uid_") if n == "impacts" else snd)
                    badnil = [g for g in nil if not T.mentions(g, tested) or not T.mentions(g, fld(tested, "tag"))]
                    other = [g for g in guards(e) if g not in nil and g[0] != "alt"]
                    ls = [lp for lp in e.loops if P(lp.over) == PROJS and complete(lp)]
                    inner = [lp for lp in e.loops if P(lp.over) != PROJS]
                    if badnil or other:
                        why = "subscribed only if " + ", ".join(S(g) for g in badnil + other)
                    elif not ls or not all(complete(lp) for lp in inner):
                        why = "not every projection is visited"
                    elif n != "training" and inner:
                        why = "inside a further loop"
                    elif n == "training" and not any("stdp_populations_" in S(P(lp.over)) for lp in inner):
                        why = "not every training population is visited"
                    else:
                        ok = True
                        types |= {g for g in guards(e) if g[0] == "alt"}
                if n == "training" and ok:
                    stdp = sum(1 for rec in ctx.prog.records.values() for f in rec["f"]
                               if f["n"] == "arg_" and rec["qn"].startswith(NAMES[unit])
                               for x in targs(f["ty"]) if "STDP" in x)
                    if types and len(types) < stdp:
                        ok, why = False, "%d of %d trained synapse types" % (len(types), stdp)
                elif ok and types:
                    n_alt = alternatives(ctx, unit)
                    if len(types) < n_alt:
                        ok, why = False, "%d of %d synapse types" % (len(types), n_alt)
                ctx.ob("%s/%s" % (k, n), ok, where(fn), what, why)


# ------------------------------------------------------------------ B14
@check("B14", ["core"])
def b14(ctx):
    dev = this("devices_")
    for fn in ctx.prog.fn(BACKEND + "::select_devices"):
        r = ctx.run(fn)
        puts = appends(r, dev)
        clears = [e for e in mutations(r, dev, deep=False) if e.kind == "call" and e.name == "clear" and not e.guards and
                  not e.loops]
        uids = None
        ctx.ob("select_devices/put", len(puts) >= 1, where(fn), "selected devices are kept", "nothing is stored")
        for e, v, c in puts:
            has = [g for g in guards(e) if g[0] == "has" and T.mentions(g[2], v)]
            uids = has[0][1] if has else uids
            rest = [g for g in guards(e) if g not in has]
            lp = [x for x in e.loops if x.kind == "foreach" and ("elem", P(x.over)) == v]
            ctx.ob("select_devices/listed", bool(has) and "uid_" in S(has[0][2]), ewhere(e),
                   "a device is selected only if its identifier was asked for", "stored without looking up its identifier")
            ctx.ob("select_devices/all", not rest and bool(lp) and complete(lp[0]) and
                   any(g[0] == "has" for g in guards(e)), ewhere(e),
                   "every available device that was asked for is selected",
                   "further conditions or an incomplete search: " + ", ".join(S(g) for g in rest))
            ctx.ob("select_devices/fresh", any(x.ix < e.ix for x in clears), ewhere(e),
                   "a new selection replaces the previous one", "devices_ is not cleared first")
        for s, v, line in r.exits:
            same = [g for g in s.guards if P(g)[0] == "eq" and ("size", dev) in P(g)[1:] and uids and
                    ("size", uids) in P(g)[1:]]
            ctx.ob("select_devices/missing", bool(same) and bool(r.throws), where(fn, line),
                   "selecting a device that is not available is an error", "returns without comparing the numbers")
    for fn in ctx.prog.fn(BACKEND + "::select_device"):
        r = ctx.run(fn)
        ms = mutations(r, dev, deep=False)
        puts = appends(r, dev)
        ok = len(puts) == 1 and not puts[0][0].guards and not puts[0][0].loops and \
            puts[0][1][:1] in (("var",), ("parm",), ("ref",)) and \
            [e.name for e in ms if e.kind == "call"][:1] == ["clear"]
        ctx.ob("select_device", ok, where(fn), "selecting one device replaces the previous selection by it",
               "stores %s" % [S(v) for _, v, _ in puts])
