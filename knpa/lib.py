"""Obligations, queries on event streams, evidence and verdicts."""
import json
import os
import time

from . import facts, interp
from . import terms as T
from .facts import AnalysisBroken

VERIF = facts.VERIF
MUTATORS = {"push_back", "emplace_back", "pop_back", "pop_front", "push_front", "emplace", "insert", "erase", "clear",
            "resize", "assign", "swap", "try_emplace", "insert_or_assign", "merge", "extract", "emplace_hint",
            "emplace_front", "shrink_to_fit", "splice", "remove", "remove_if", "sort", "unique", "reverse", "operator=",
            "move", "fetch_add"}
GROWERS = {"push_back", "emplace_back", "emplace", "insert", "push_front", "emplace_front", "try_emplace",
           "insert_or_assign", "emplace_hint", "push"}
RANGE_MUTATORS = {"std::remove_if", "std::remove", "std::sort", "std::stable_sort", "std::rotate", "std::reverse",
                  "std::unique", "std::partition", "std::stable_partition", "std::shuffle", "std::fill",
                  "std::iter_swap", "std::swap_ranges", "std::generate", "std::iota", "std::nth_element"}

REGISTRY = {}


def check(pid, units, deep_units=None):
    def deco(f):
        REGISTRY.setdefault(pid, []).append((f, tuple(units), tuple(deep_units or units)))
        return f
    return deco


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.prog = prog
        self.obs = []
        self.fns = {}
        self.cache = {}
        self.events = 0
        self.notes = {}

    # ---------------------------------------------------------------- running the analysis
    def run(self, fn, opaque=None, okey=None, devirt=None, tagger=None, this=None, args=None, depth=14,
            watch=()):
        key = (fn.id, okey if okey is not None else (id(opaque) if opaque else 0), id(devirt) if devirt else 0,
               id(tagger) if tagger else 0, this, tuple(args or ()), depth, tuple(watch))
        if key in self.cache:
            return self.cache[key]
        it = interp.Interp(self.prog, opaque=opaque, devirt=devirt, tagger=tagger, depth=depth)
        it.watch = tuple(watch)
        r = it.run(fn, this or interp.THIS, args)
        r.fn = fn
        r.interp = it
        self.events += len(r.events)
        for f in it.analysed.values():
            self.fns[f.id] = f
        self.cache[key] = r
        return r

    def saw(self, *fns):
        for f in fns:
            self.fns[f.id] = f

    # ---------------------------------------------------------------- obligations
    def ob(self, key, ok, where, what, why=""):
        """One obligation: `key` identifies the construct (no line numbers), `what` states it, `why` the failure."""
        self.obs.append({"key": key, "ok": bool(ok), "where": where, "what": what, "why": why if not ok else ""})
        return bool(ok)

    def floor(self, what, n, least):
        """A rule that found fewer instances than confirmed by inspection decides nothing."""
        self.notes[what] = n
        if n < least and all(o["ok"] for o in self.obs):
            raise AnalysisBroken("%s: only %d instance(s) of '%s' found, at least %d exist" % (self.pid, n, what, least))


def where(fn, line=None):
    return "%s:%s (%s)" % (fn.file, line or fn.line, fn.label())


def ewhere(e):
    return "%s:%s (in %s)" % (e.file, e.line, e.stack[-1] if e.stack else "?")


def S(t):
    return T.show(T.plain(t))


P = T.plain


def fld(base, *names):
    for n in names:
        base = ("fld", base, n)
    return base


def this(*names):
    return fld(("this",), *names)


def guards(e, drop=()):
    """Plain branch conditions of an event."""
    return frozenset(P(g) for g in e.guards if not (g and g[0] in drop))


def under(root, loc):
    return loc == root or interp.prefix_of(root, loc)


INSERTERS = ("std::back_inserter", "std::inserter", "std::front_inserter")


def mutations(r, root, deep=True):
    """Events that change the object at location `root` (its own structure, or with deep also what it contains)."""
    out = []
    root = P(root)
    for e in r.events:
        if e.kind == "write":
            loc = P(e.loc)
            if loc == root or interp.prefix_of(loc, root) or (deep and interp.prefix_of(root, loc)):
                out.append(e)
        elif e.kind == "call":
            if e.qn in INSERTERS:
                continue        # what is written through it is the change
            if e.qn and e.qn.startswith("std::") and any(P(a)[:1] == ("call",) and P(a)[1] in INSERTERS and P(a)[2][0] == root
                                                         for a in e.args or () if isinstance(a, tuple)):
                out.append(e)
            elif e.obj is not None and P(e.obj) == root and e.name in MUTATORS and not (e.meta or {}).get("const"):
                out.append(e)
            elif e.qn in RANGE_MUTATORS and any(is_range_of(P(a), root) for a in e.args or ()):
                out.append(e)
            elif e.obj is not None and P(e.obj) == root and not (e.meta or {}).get("const") and \
                    (e.meta or {}).get("inroot"):
                out.append(e)
            elif e.raw and e.types:
                if not (e.meta or {}).get("inroot") and e.name.startswith(interp.FORWARDERS):
                    continue
                for a, ty in zip(e.raw, e.types):
                    if isinstance(a, tuple) and P(a) == root and nonconst_ref(ty):
                        out.append(e)
                        break
    return out


def nonconst_ref(ty):
    ty = ty.rstrip()
    return ty.endswith("&") and not ty.endswith("&&") and "const" not in interp.first_const(ty)


def is_range_of(a, root):
    return isinstance(a, tuple) and len(a) > 1 and a[0] in ("begin", "iter") and a[1] == root


def appends(r, to=None):
    """(event, value, container) of everything that is put at the end of / into a container."""
    out = []
    for e in r.events:
        if e.kind == "produce":
            c = P(e.loc) if e.loc else None
            if isinstance(c, tuple) and c and c[0] == "call" and c[1] in ("std::back_inserter", "std::inserter"):
                c = c[2][0]
            elif isinstance(c, tuple) and c and c[0] in ("begin", "iter"):
                c = c[1]
            out.append((e, P(e.val), c))
        elif e.kind == "call" and e.obj is not None and e.name in GROWERS and not (e.meta or {}).get("inroot"):
            a = tuple(P(x) for x in e.args)
            out.append((e, a[0] if len(a) == 1 else a, P(e.obj)))
        elif e.kind == "call" and e.qn == "std::copy" and len(e.args) == 3:
            src, end, dst = [P(x) for x in e.args]
            if isinstance(dst, tuple) and dst[0] == "call" and dst[1] in ("std::back_inserter", "std::inserter"):
                out.append((e, (src, end), dst[2][0]))
    if to is not None:
        out = [x for x in out if x[2] == to]
    return out


def unmove(t):
    while isinstance(t, tuple) and t[:1] == ("call",) and t[1] in ("std::make_move_iterator", "std::move") and t[2]:
        t = t[2][0]
    return t


class Bulk:
    """`dst` receives every element of `src` (how it is spelled does not matter)."""

    def __init__(self, e, src, dst, loops):
        self.e, self.src, self.dst, self.loops = e, src, dst, loops
        self.guards = guards(e)
        self.ix = e.ix


def bulks(r):
    out = []
    for e in r.events:
        if e.kind == "call" and e.obj is not None and e.name in ("insert", "assign", "append") and len(e.args) >= 2:
            a, b = [unmove(P(x)) for x in e.args[-2:]]
            if a[:1] == ("begin",) and b == ("end", a[1]):
                out.append(Bulk(e, a[1], P(e.obj), e.loops))
        elif e.kind == "call" and e.qn in ("std::copy", "std::move") and len(e.args) == 3:
            a, b, d = [unmove(P(x)) for x in e.args]
            if a[:1] == ("begin",) and b == ("end", a[1]) and d[:1] == ("call",) and d[1] in INSERTERS:
                out.append(Bulk(e, a[1], d[2][0], e.loops))
        elif e.kind == "call" and e.obj is not None and e.name in GROWERS and e.args and not (e.meta or {}).get("inroot"):
            v = P(e.args[-1])
            if v[:1] == ("elem",) and e.loops and e.loops[-1].kind == "foreach" and not e.loops[-1].early and \
                    P(e.loops[-1].over) == v[1]:
                out.append(Bulk(e, v[1], P(e.obj), e.loops[:-1]))
    return out


def spent(r, loops):
    """Locals moved out of in every iteration of loops they were declared outside of (and not given a new value there)."""
    out = []
    for m in r.events:
        if m.kind != "moved" or not any(lp in loops for lp in m.loops):
            continue
        v = P(m.loc)
        while v[:1] in (("fld",), ("get",), ("deref",)) and isinstance(v[-1] if v[0] == "get" else v[1], tuple):
            v = v[-1] if v[0] == "get" else v[1]
        if v[:1] in (("var",), ("parm",)):
            d = [x for x in r.events if x.kind in ("decl", "write") and P(x.loc) == v and
                 any(lp in loops and lp in m.loops for lp in x.loops)]
            if not d:
                out.append(m)
        elif v[:1] == ("call",):
            made = [x for x in r.events if x.kind == "call" and x.res is not None and P(x.res) == v]
            if made and not any(lp in loops and lp in m.loops for x in made for lp in x.loops):
                out.append(m)
    return out


def loops_over(e, over):
    return [lp for lp in e.loops if lp.kind == "foreach" and P(lp.over) == over]


def calls(r, *names):
    return [e for e in r.events if e.kind == "call" and (e.qn in names or e.name in names)]


def entered(r, *names):
    return [e for e in r.events if e.kind in ("call", "enter") and (e.qn in names or (e.qn or "").rsplit("::", 1)[-1] in names)]


def rets(r):
    """Returns of the analysed function itself."""
    return [e for e in r.events if e.kind == "ret" and len(e.stack) == 1]


def on_path(e, s):
    """The event can lie on a path that ends in state s (their branch conditions do not exclude each other)."""
    return not any(T.neg(g) in s.guards for g in e.guards)


def must(e, s):
    """The event has happened whenever the function ends in state s."""
    have = frozenset(P(g) for g in s.guards)
    return guards(e) <= have and not any(lp.kind not in ("foreach",) or lp.early for lp in e.loops)


def final(r, loc):
    """[(value at exit, line)] of a location."""
    return [(P(interp.read(s, loc)), line) for s, v, line in r.exits]


def inst(fn):
    """Short label of a template instantiation (for keys)."""
    c = fn.clst or ""
    ta = fn.meta.get("ta", "")
    x = (c if "<" in c else "") or ta
    import re
    x = re.sub(r"\b[a-z_]+::", "", x)
    return x


def dedupe(obs):
    seen = {}
    for o in obs:
        k = (o["key"], o["ok"])
        if k not in seen:
            seen[k] = dict(o, n=1)
        else:
            seen[k]["n"] += 1
    return list(seen.values())


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x.get("status") == "known"]


def run_property(pid, tier, seed):
    t0 = time.time()
    parts = REGISTRY[pid]
    obs, fns, events, notes, units = [], {}, 0, {}, []
    progs = {}
    for f, quick, deep in parts:
        u = quick if tier == "quick" else deep
        if u not in progs:
            progs[u] = facts.load(u)
        ctx = Ctx(pid, tier, progs[u])
        f(ctx)
        obs += ctx.obs
        fns.update(ctx.fns)
        events += ctx.events
        notes.update(ctx.notes)
        units += [x for x in progs[u].units if x not in units]
    if not obs:
        raise AnalysisBroken("no obligations were generated for " + pid)
    kf = {x["key"]: x for x in known() if x["property"] == pid}
    bad = [o for o in dedupe(obs) if not o["ok"]]
    viol = [o for o in bad if o["key"] not in kf]
    found = [o for o in bad if o["key"] in kf]
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for o in found:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kf[o["key"]]["what"], o["where"]))
    lines = []
    rpath = os.path.join(rdir, pid + ".txt")
    if viol:
        with open(rpath, "w") as fh:
            for o in viol:
                fh.write("key:   %s\nwhere: %s\nmust:  %s\nfound: %s\n(%d instantiation(s))\n\n" %
                         (o["key"], o["where"], o["what"], o["why"], o["n"]))
                lines.append(o)
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        for o in lines:
            print("  %s\n    must: %s\n    found: %s\n    key: %s" % (o["where"], o["what"], o["why"], o["key"]))
    elif os.path.exists(rpath):
        os.unlink(rpath)
    d = dedupe(obs)
    ok = sum(1 for o in obs if o["ok"])
    rules = {}
    for o in d:
        rules.setdefault(o["key"].split("/")[0], set()).add(o["what"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the resolved program (typed syntax trees of %d translation units of the "
                           "current tree): %d functions (template instantiations counted) were abstractly interpreted, "
                           "%d events (calls, writes, returns, throws with their branch conditions, locks and "
                           "loops) were produced, %d obligations at %d distinct constructs were decided, %d hold. "
                           "Every obligation is universally quantified over inputs and histories of the construct it "
                           "names; nothing was executed." % (len(units), len(fns), events, len(obs), len(d), ok),
            "obligations": len(obs), "discharged": ok, "distinct_constructs": len(d),
            "functions_analysed": len(fns), "events": events, "translation_units": len(units),
            "known_findings_seen": len(found), "instances": notes,
            "rules": {k: sorted(v)[:12] for k, v in sorted(rules.items())},
            "constructs": [{"key": o["key"], "where": o["where"], "ok": o["ok"], "instantiations": o["n"]}
                           for o in d][:400],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ASSUMPTIONS,
        "violations": [{"summary": o["what"] + " -- " + o["why"], "replay": rpath} for o in viol],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d obligations at %d constructs, %d violation(s), %d known finding(s), %.1fs" %
          (pid, tier, len(obs), len(d), len(viol), len(found), time.time() - t0))
    return 1 if viol else 0


ASSUMPTIONS = [
    "clang 18 resolves the sources as the build does (same flags, flatbuffers headers regenerated from the current .fbs)",
    "standard library and boost containers behave as specified (modelled, not analysed)",
    "distinct access paths denote distinct objects unless the code copies a reference or pointer between them",
]
