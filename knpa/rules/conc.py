"""Rules for the work the multi-threaded backend hands to its thread pool."""
import re

from .. import terms as T
from ..facts import AnalysisBroken
from ..lib import P, S, appends, check, ewhere, fld, guards, nonconst_ref, where, GROWERS, MUTATORS
from .backend import CLOSED, canon, part_end, same_sum, step

NODE_BASED = ("std::list", "std::deque", "std::map", "std::unordered_map", "std::set", "std::unordered_set",
              "std::multimap", "std::forward_list")


def path(t):
    """Steps from the root of a location, or None when it is no location."""
    if not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    if k in ("var", "this", "glob", "call", "obj", "parm"):
        return (t,)
    if k == "phi":
        ps = {path(x) for x in t[1]}
        return ps.pop() if len(ps) == 1 else None
    if k == "hav":
        return path(t[1])
    if k == "fld":
        b = path(t[1])
        return b and b + (("f", t[2]),)
    if k in ("elem", "back", "front"):
        b = path(t[1])
        return b and b + ("*",)
    if k == "at":
        b = path(t[1])
        return b and b + ("*",)
    if k == "get":
        b = path(t[2])
        return b and b + (("g", str(t[1])),)
    if k == "deref":
        x = t[1]
        while isinstance(x, tuple) and x[:1] == ("new",) and len(x[2]) == 1:
            x = x[2][0]
        if isinstance(x, tuple) and x[:1] in (("find",), ("begin",), ("iter",)):
            b = path(x[1])
            return b and b + ("*",)
        return None
    if k == "new" and t[2]:
        return (t,)
    return None


def root(t):
    p = path(t)
    return p[0] if p else None


def overlap(a, b):
    for x in T.alts(a):
        for y in T.alts(b):
            p, q = path(x), path(y)
            if p and q and p[:len(q)] == q[:len(p)]:
                return True
    return False


def locations(t, out=None):
    """The largest locations a term reads."""
    out = set() if out is None else out
    if isinstance(t, frozenset):
        for x in t:
            locations(x, out)
    elif isinstance(t, tuple) and t:
        if t[0] in ("ref", "addr", "lam"):
            return out
        kind = t[0] in ("size", "empty") and len(t) == 2
        if kind or t[0] == "call" and t[1] == "std::variant::index" and len(t[2]) == 1:
            for x in T.alts(t[1] if kind else t[2][0]):
                if path(x):
                    out.add(("fld", x, "#size"))
                else:
                    locations(x, out)
            return out
        if t[0] in ("fld", "elem", "at", "get", "var", "deref", "back") and path(t) and t[0] != "call":
            if root(t)[:1] in (("var",), ("this",), ("new",)):
                out.add(t)
            else:
                locations(root(t), out)
            if t[0] == "at":
                locations(t[2], out)
            return out
        for x in t[1:] if isinstance(t[0], str) else t:
            if isinstance(x, (tuple, frozenset)):
                locations(x, out)
    return out


def ref_return(e):
    return e.kind == "ret" and e.fn.meta.get("rt", -1) >= 0 and e.fn.tu.types[e.fn.meta["rt"]].rstrip().endswith("&")


class Use:
    def __init__(self, loc, e, write, guards):
        self.loc, self.e, self.write, self.guards = loc, e, write, guards


class Concurrency:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.r = ctx, s, s.r
        self.posts = [o.e for o in s.of("submit")]
        self.tasks = {}
        for e in self.r.events:
            if e.task is not None:
                self.tasks.setdefault(e.task.post.ix, e.task)
        self.decls = {}
        for e in self.r.events:
            if e.kind == "decl":
                self.decls.setdefault(P(e.loc), e)
        self.joins = [o.e for o in s.of("join")]
        self.uses = {}
        for p in self.posts:
            t = self.tasks.get(p.ix)
            self.uses[p.ix] = self.task_uses(t) if t else []

    def own(self, e):
        """Everything an event touches: (location, is it a write)."""
        out = []
        if e.kind == "write":
            out.append((P(e.loc), True))
        if e.kind == "find":
            out.append((P(e.obj), False))
        if e.kind == "index" and e.name == "operator[]" and re.match(r"std::(unordered_)?map::", e.qn or ""):
            out.append((P(e.obj), True))
        if e.kind in ("call", "erase", "grow") and e.obj is not None:
            w = e.name in MUTATORS or e.name == "find_synapses" or \
                (e.meta is not None and e.meta.get("inroot") and not e.meta.get("const") and
                 (bool(e.args) or P(e.obj) != ("this",)))
            if P(e.obj) != ("this",) and e.qn != "std::variant::index":
                out.append((P(e.obj), bool(w)))
        if e.kind == "call":
            raw = e.raw or e.args or ()
            for i, a in enumerate(raw):
                if not isinstance(a, tuple):
                    continue
                ty = (e.types or ())[i] if i < len(e.types or ()) else ""
                w = nonconst_ref(ty) and (e.meta or {}).get("inroot")
                if path(P(a)):
                    out.append((P(a), bool(w)))
        return out

    def reads(self, e):
        out = set()
        if e.kind in ("write", "ret", "produce") and e.val is not None and not ref_return(e):
            locations(P(e.val), out)
        if e.kind == "call":
            for i, t in enumerate(e.args or ()):
                ty = (e.types or ())[i] if i < len(e.types or ()) else ""
                if not nonconst_ref(ty) or (e.meta or {}).get("inroot"):
                    locations(P(t), out)
        for g in guards(e):
            if g[:1] != ("alt",):
                locations(P(g), out)
        return out

    def task_uses(self, t):
        out = []
        byval = {P(c) for c, ref in t.caps if not ref and isinstance(c, tuple)}
        evs = [e for e in self.r.events if e.task is t]
        local = {P(e.loc) for e in evs if e.kind == "decl"} | byval
        mine = {f for e in evs for f in e.frames} - set(t.post.frames)

        def is_local(loc):
            b = root(loc)
            return b is None or b[:1] in (("call",), ("obj",)) or b in local or \
                b[:1] == ("var",) and len(b) > 2 and isinstance(b[2], tuple) and b[2][0] in mine

        def add(loc, e, w, g):
            for a in T.alts(loc):
                c = canon(a)
                for x in (T.alts(c)):
                    if path(x) is None:
                        continue
                    if is_local(a):
                        # a local list of references: what it refers to
                        if w and e.kind == "call" and root(a) in local and (e.meta or {}).get("inroot"):
                            for e2, v, cont in appends(self.r):
                                v = P(v)
                                while isinstance(v, tuple) and v[:1] in (("ref",), ("addr",)):
                                    v = v[1]
                                if e2.task is t and P(cont) == root(a) and path(v) and not is_local(v):
                                    for f in self.fields_changed(e):
                                        x = canon(fld(v, f) if f else v)
                                        out.append(Use(x, e2, True, frozenset(canon(q) for q in guards(e2))))
                        continue
                    out.append(Use(x, e, w, g))
        for e in evs:
            g = frozenset(canon(x) for x in guards(e))
            for loc, w in self.own(e):
                add(loc, e, w, g)
            for loc in self.reads(e):
                add(loc, e, False, g)
        seen, res = set(), []
        for u in out:
            k = (u.loc, u.write, u.e.line, u.e.locks)
            if k not in seen:
                seen.add(k)
                res.append(u)
        return res

    def fields_changed(self, e):
        """Fields of the projections in its list that a training function changes (None: the whole projection)."""
        f = self.ctx.prog.functions.get((e.meta or {}).get("id"))
        if f is None or self.s.roles.get(f.id) != "train":
            return [None]
        r = self.ctx.run(f, opaque=lambda m, g: m["qn"] in CLOSED, okey="train")
        app = appends(r)
        out = set()

        def bare(v):
            while isinstance(v, tuple) and v[:1] in (("ref",), ("addr",), ("some",)):
                v = v[1]
            return v

        def collect(loc, depth=0):
            p = path(loc)
            if p is None:
                return
            if p[0][:1] == ("var",) and "*" in p[1:2] and depth < 4:
                own = [bare(P(v)) for _, v, c in app if c is not None and p[0] in T.alts(P(c))]
                if own:
                    for v in own:
                        collect(v, depth + 1)
                    return
            if p[0][:1] == ("parm",) and p[0][2] == 1 and p[1:2] == ("*",):
                nxt = [x for x in p[2:] if isinstance(x, tuple) and x[0] == "f"]
                out.add(nxt[0][1] if nxt else None)
        for x in r.events:
            if x.kind == "write":
                for a in T.alts(P(x.loc)):
                    collect(a)
            elif x.kind == "call" and x.obj is not None:
                for a in T.alts(P(x.obj)):
                    if x.name == "find_synapses":
                        collect(fld(a, "index_"))
                    elif x.name in MUTATORS or (x.meta or {}).get("inroot") and not (x.meta or {}).get("const"):
                        collect(a)
        return sorted(out, key=str) if out else []

    def join_of(self, p):
        for j in self.joins:
            if j.ix > p.ix and j.task is None and guards(j) <= guards(p) and all(lp in p.loops for lp in j.loops):
                return j
        return None

    def separate(self, u, p):
        """None when tasks posted in different iterations of the posting loops touch different locations, otherwise
        the loop whose iterations share the location."""
        inner = [lp for lp in u.e.loops if lp not in p.loops]
        for lp in p.loops:
            over = canon(P(lp.over)) if lp.over is not None else None
            if lp.kind == "foreach":
                el = ("elem", over)
                if any(l.kind == "foreach" and canon(P(l.over)) == over for l in inner):
                    return lp
                if T.mentions(u.loc, el):
                    continue
                if any(ties(g, u.loc, el) for g in u.guards):
                    continue
                if u.loc[:1] == ("back",) or any(x[:1] == ("back",) for x in T.subterms(u.loc)):
                    if self.fresh_back(u, lp):
                        continue
                return lp
            if lp.kind == "range":
                lo, hi, st = over
                ix = ("idx", lo, hi, st)
                if lo == T.ZERO and hi[:1] == ("size",) and T.mentions(u.loc, ("elem", hi[1])):
                    continue
                if not any(x == ix or own_part(x, ix, st) for y in T.subterms(u.loc) if y[:1] == ("at",)
                           for x in (y[2],)):
                    return lp
                continue
            return lp
        return None

    def fresh_back(self, u, lp):
        for x in T.subterms(u.loc):
            if x[:1] == ("back",):
                for e in self.r.events:
                    if e.kind == "call" and e.name in GROWERS and e.obj is not None and canon(P(e.obj)) == x[1] and \
                            lp in e.loops and e.task is None:
                        return True
        return False

    def roomy(self, c, e):
        """Growing the container at e does not move its elements: it was reserved for all it will get, or never moves."""
        d = self.decls.get(c)
        ty = (d.types if d is not None else "") or ""
        ty = ty if isinstance(ty, str) else " ".join(ty)
        if any(n in ty for n in NODE_BASED) and "std::vector" not in ty.split("<")[0]:
            return True
        for x in self.r.events:
            if x.kind == "call" and x.name == "reserve" and x.obj is not None and P(x.obj) == c and x.ix < e.ix and \
                    len(e.loops) == 1 and not x.loops:
                n = canon(P(x.args[0]))
                lp = e.loops[0]
                if lp.kind == "foreach" and n == ("size", canon(P(lp.over))):
                    return True
                if lp.kind == "range" and canon(P(lp.over))[1] == n:
                    return True
        return False


def ties(g, loc, el):
    """The condition compares an identifier held by the location with that of the loop's element."""
    if g[:1] != ("eq",) or len(g) < 3:
        return False
    a, b = [x[1] if isinstance(x, tuple) and x[:1] == ("fld",) and x[2] == "tag" else x for x in g[1:3]]
    for x, y in ((a, b), (b, a)):
        if T.mentions(y, el) and isinstance(x, tuple) and x[:1] == ("fld",) and x[2].endswith("uid_"):
            base = root_elem(loc)
            if base is not None and T.mentions(x, base):
                return True
    return False


def own_part(x, ix, st):
    """Indexes from the start of the part to less than the start of the next one."""
    return x[:1] == ("idx",) and x[1] == ix and x[2][:1] in (("min",), ("ite",), ("call",)) and \
        any(same_sum(a, [ix, st], 0) and part_end(x[2], ix, b, st)
            for a, b in two(x[2]))


def two(hi):
    xs = [x for x in (hi[1:] if hi[0] == "min" else hi[2] if hi[0] == "call" else hi[2:])]
    return [tuple(xs), tuple(xs[::-1])] if len(xs) == 2 else []


def root_elem(loc):
    """Innermost element of a container on the way to the location."""
    t = loc
    while isinstance(t, tuple) and t and t[0] in ("fld", "get", "at", "elem"):
        if t[0] == "elem" and isinstance(t[1], tuple) and t[1][:2] == ("fld", ("this",)):
            return t
        t = t[2] if t[0] == "get" else t[1]
    return None


def conc(ctx):
    if "conc" not in ctx.cache:
        ctx.cache["conc"] = Concurrency(ctx, step(ctx, "mt"))
    step(ctx, "mt")
    return ctx.cache["conc"]


def tname(c, p):
    from .backend import POP, PROJ, short
    a = c.s.alt(p, POP) or c.s.alt(p, PROJ)
    t = c.tasks.get(p.ix)
    fn = ""
    if t is not None:
        ev = [e for e in c.r.events if e.task is t and e.stack]
        fn = ev[0].stack[len(p.stack)] if ev and len(ev[0].stack) > len(p.stack) else ""
    order = [x for x in c.posts if (c.s.alt(x, POP) or c.s.alt(x, PROJ)) == a].index(p)
    return "%s/%d" % (short(a), order)


# ---------------------------------------------------------------------------------------------------- B05
@check("B05", ["mt"])
def b05(ctx):
    c = conc(ctx)
    ctx.floor("posted tasks", len(c.posts), 10)
    for p in c.posts:
        k = tname(c, p)
        j = c.join_of(p)
        ctx.ob("joined/" + k, j is not None, ewhere(p), "work handed to the pool is waited for in the same step",
               "no join follows that runs whenever the work is posted")
        if j is None:
            continue
        t = c.tasks.get(p.ix)
        if t is None:
            raise AnalysisBroken("body of posted work not found at " + ewhere(p))
        refs = [P(a) for a, r in zip(t.args, t.refs) if r] + [P(a) for a, r in t.caps if r]
        bad = None
        for a in refs:
            for x in T.alts(a):
                b = root(x)
                d = c.decls.get(b)
                if d is None:
                    if b is not None and b[:1] == ("var",) and b[2][0] not in j.frames:
                        bad = "%s is gone when the step waits for the work" % S(b)
                    continue
                if b[2][0] not in j.frames:
                    bad = "%s is gone when the step waits for the work" % S(b)
                elif [lp for lp in d.loops if lp not in j.loops]:
                    bad = "%s ends with its loop iteration, before the step waits for the work" % S(b)
        ctx.ob("lifetime/" + k, bad is None, ewhere(p),
               "what a task uses by reference outlives the wait for the task", bad or "")
        bad = None
        uses = c.uses[p.ix]
        for e in c.r.events:
            if e.task is not None or e is p or e.ix > j.ix:
                continue
            common = [lp for lp in e.loops if lp in p.loops and lp not in j.loops]
            if e.ix < p.ix and not common:
                continue
            if e.kind == "decl":
                continue
            touched = [(loc, w) for loc, w in c.own(e)] + [(x, False) for x in c.reads(e)]
            for loc, w in touched:
                loc0, loc = loc, canon(loc)
                if path(loc) is None or root(loc)[:1] in (("call",), ("obj",)):
                    continue
                for u in uses:
                    if not (w or u.write) or not overlap(loc, u.loc):
                        continue
                    if e.ix < p.ix and any(lp_names(lp, loc) for lp in common):
                        continue
                    if w and e.kind == "call" and e.name in GROWERS and e.obj is not None and \
                            canon(P(e.obj)) == loc and path(loc) != path(u.loc) and c.roomy(loc0, e):
                        continue
                    if any(x.name == "join" for x in ()):
                        continue
                    bad = bad or "%s:%s %s %s, which the task %s" % (
                        e.file.rsplit("/", 1)[-1], e.line, "changes" if w else "reads", S(loc)[:120],
                        "changes" if u.write else "uses")
        ctx.ob("quiet/" + k, bad is None, ewhere(p),
               "between posting a task and waiting for it, the step neither reads what the task changes nor changes "
               "what it uses", bad or "")


def lp_names(lp, loc):
    over = canon(P(lp.over)) if lp.over is not None else None
    if lp.kind == "foreach":
        return T.mentions(loc, ("elem", over)) or any(x[:1] == ("back",) for x in T.subterms(loc))
    if lp.kind == "range":
        lo, hi, st = over
        return T.mentions(loc, ("idx", lo, hi, st)) or lo == T.ZERO and hi[:1] == ("size",) and \
            T.mentions(loc, ("elem", hi[1]))
    return False


# ---------------------------------------------------------------------------------------------------- B06
@check("B06", ["mt"])
def b06(ctx):
    c = conc(ctx)
    ctx.floor("posted tasks", len(c.posts), 10)
    epochs = {}
    for p in c.posts:
        j = c.join_of(p)
        epochs.setdefault(j.ix if j is not None else None, []).append(p)
    for j, ps in sorted(epochs.items(), key=lambda x: (x[0] is None, x[0])):
        for p in ps:
            k = tname(c, p)
            n = 0
            for u in c.uses[p.ix]:
                if not u.write:
                    continue
                n += 1
                why = clash(c, u, p, ps)
                ctx.ob("write/%s/%s" % (k, name_of(u)), why is None, ewhere(u.e),
                       "a location that a pool task changes is used by no other task of the same phase, or only under "
                       "one lock", "%s: %s" % (S(u.loc)[:120], why))
            ctx.floor("writes of task " + k, n, 1)


def name_of(u):
    return S(u.loc)[:90] + "/" + u.e.kind + (":" + u.e.name if u.e.kind == "call" else "")


def locks_of(e):
    return {canon(P(x)) for x in (e.locks or ())}


def clash(c, u, p, ps):
    mine = locks_of(u.e)
    shared = c.separate(u, p)
    for q in ps:
        for v in c.uses[q.ix]:
            if not overlap(u.loc, v.loc):
                continue
            if q is p:
                if shared is None and c.separate(v, p) is None:
                    continue
                if shared is None and not v.write and covers_part(u, v):
                    pass
            else:
                if different(c, u, p, v, q):
                    continue
            if mine & locks_of(v.e):
                continue
            if shared is not None:
                return "tasks of different iterations of the loop over %s share it without a common lock (%s:%s)" % (
                    S(P(shared.over))[:80], v.e.file.rsplit("/", 1)[-1], v.e.line)
            return "%s:%s %s it in another task without a common lock" % (
                v.e.file.rsplit("/", 1)[-1], v.e.line, "changes" if v.write else "reads")
    return None


def covers_part(u, v):
    return False


def different(c, u, p, v, q):
    """Tasks posted at two places: they are exclusive alternatives of one element, or touch their own elements only."""
    if c.separate(u, p) is None and c.separate(v, q) is None:
        from .backend import POP, PROJ
        for root_ in (POP, PROJ):
            a, b = c.s.alt(p, root_), c.s.alt(q, root_)
            if a and b and a != b:
                return True
    return False
