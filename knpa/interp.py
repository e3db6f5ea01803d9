"""Guarded effect extraction: a flow-sensitive, interprocedural abstract interpreter over the typed syntax tree.

Nothing is executed and no path is handed to a solver.  Starting from an entry function the interpreter walks the
resolved tree once per call context, joins states where control flow joins, iterates loops to a fixpoint on a finite
abstract domain, and records *events* -- calls, writes, returns, throws -- together with

  guards   the branch conditions that hold on every path to the event (control dependence, as canonical terms),
  locks    the locks that are held on every path to the event,
  must/may the rule-defined tags of events that happened before on all / on some paths (typestate),
  loops    the enclosing iterations, normalised (range-for, index loop, iterator loop and std algorithms look alike).

Values are canonical terms obtained by copy propagation; helpers in the repository are looked through by inlining.
"""
import re
import zlib

from . import terms as T
from .facts import AnalysisBroken

THIS = ("this",)
VOID = ("void",)
IDENT = {"std::move", "std::forward", "std::as_const", "std::move_if_noexcept"}
SMART = ("std::unique_ptr", "std::shared_ptr", "std::optional", "std::weak_ptr", "std::reference_wrapper")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
MUTEXES = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex")
NOTHROW = {"std::condition_variable::notify_all", "std::condition_variable::notify_one",
           "std::condition_variable_any::notify_all", "std::condition_variable_any::notify_one"}
PURE_ALGS = {"std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::count_if"}
LIM = 90


class St:
    __slots__ = ("heap", "parents", "guards", "facts", "must", "may", "locks", "havocs")

    def __init__(self):
        self.heap = {}
        self.parents = set()
        self.guards = frozenset()
        self.facts = frozenset()
        self.must = frozenset()
        self.may = frozenset()
        self.locks = frozenset()
        self.havocs = ()

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.parents = set(self.parents)
        s.guards, s.facts, s.must, s.may, s.locks = self.guards, self.facts, self.must, self.may, self.locks
        s.havocs = self.havocs
        return s


def prefix_of(p, loc):
    """p is a proper prefix of location loc."""
    while isinstance(loc, tuple) and loc:
        h = loc[0]
        if h in ("fld", "at", "elem", "deref", "back"):
            loc = loc[1]
        elif h == "get":
            loc = loc[2]
        else:
            return False
        if loc == p:
            return True
    return False


def parent(loc):
    if isinstance(loc, tuple) and loc:
        if loc[0] in ("fld", "at", "elem", "deref", "back"):
            return loc[1]
        if loc[0] == "get":
            return loc[2]
    return None


def is_bool(a, b):
    """One of two alternatives of a value is a truth value, so both are."""
    return b in (T.TRUE, T.FALSE) or T.truth(a) == a


def mk_ite(c, a, b):
    if a == b:
        return a
    if c == T.TRUE:
        return a
    if c == T.FALSE:
        return b
    if isinstance(c, tuple) and c and c[0] == "not":
        return mk_ite(c[1], b, a)
    if isinstance(a, tuple) and T.truth(a) == c:
        a = T.TRUE if is_bool(a, b) else a
    if isinstance(b, tuple) and T.truth(b) == c and is_bool(b, a):
        b = T.FALSE
    if a == b:
        return a
    if a == T.TRUE and b == T.FALSE:
        return c
    if a == T.FALSE and b == T.TRUE:
        return T.neg(c)
    if isinstance(c, tuple) and c and c[0] == "exists" and a == ("findif", c[1], c[2]) and b == ("end", c[1]):
        return a
    if isinstance(c, tuple) and c and c[0] == "lt" and {c[1], c[2]} == {a, b}:
        # x < y ? y : x
        return ("max" if c[2] == a else "min",) + tuple(sorted((a, b), key=repr))
    r = ("ite", c, a, b)
    if T.size(r) > LIM:
        return T.phi(a, b) if T.size(a) + T.size(b) < LIM else ("big", zlib.crc32(repr((a, b)).encode()))
    return r


def join(states, cond=None):
    """Join of live states.  With two states and a condition the values that differ become conditional values."""
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    out = states[0].copy()
    for nxt in states[1:]:
        keys = set(out.heap) | set(nxt.heap)
        for k in keys:
            a = out.heap.get(k)
            b = nxt.heap.get(k)
            if a == b and a is not None:
                continue
            # A missing local means "not declared on that path": keep the known one.
            if a is None:
                a = initial(out, k)
            if b is None:
                b = initial(nxt, k)
            if a is None or b is None:
                out.heap[k] = a if b is None else b
            elif a != b:
                out.heap[k] = mk_ite(cond, a, b) if cond is not None else bounded_phi(a, b, k)
        out.parents |= nxt.parents
        d = either(out.guards, nxt.guards)
        out.guards = (out.guards & nxt.guards) | d
        out.facts = (out.facts & nxt.facts) | d
        out.must &= nxt.must
        out.may |= nxt.may
        out.locks &= nxt.locks
        if nxt.havocs != out.havocs:
            out.havocs = tuple(dict.fromkeys(out.havocs + nxt.havocs))
    return out


def moved_to(v, at, over):
    """A value that names the visited element, after the search loop that stopped there."""
    if not isinstance(v, tuple):
        return v
    return T.subst(T.subst(v, ("elem", over), ("deref", at)), ("iter", over), at)


def conj_of(atoms):
    c = T.TRUE
    for x in sorted(atoms, key=repr):
        c = mk_and(c, x)
    return c


def either(g1, g2):
    """What is known where two paths meet besides what both know: nothing if one of them is always taken."""
    r1, r2 = g1 - g2, g2 - g1
    if not r1 or not r2 or any(x[0] in ("alt", "caught", "oneof") or x[0] == "not" and x[1][0] in ("alt", "oneof")
                               for x in r1 | r2):
        return frozenset()
    for a, b in ((r1, r2), (r2, r1)):
        for c in a:
            parts = frozenset(conj(T.neg(c)))
            if not parts <= b:
                continue
            a1, b1 = a - {c}, b - parts
            if not a1 and not b1:
                return frozenset()
            if not a1:  # c or (not c and B) is c or B
                return disjunction(frozenset([c]), b1)
            if not b1 and len(parts) == 1:
                return disjunction(a1, parts)
    return disjunction(r1, r2)


def disjunction(a, b):
    c = T.neg(mk_and(T.neg(conj_of(a)), T.neg(conj_of(b))))
    if c in (T.TRUE, T.FALSE) or T.size(c) > 120:
        return frozenset()
    return frozenset(conj(c))


def bounded_phi(a, b, k):
    v = T.phi(a, b)
    if T.size(v) > LIM:
        return ("lv", k)
    return v


def initial(st, k):
    """Value of a location nothing was recorded for on this path (None for undeclared locals)."""
    root = k
    while parent(root) is not None:
        root = parent(root)
    if root and root[0] in ("var", "obj") and root not in st.heap and root not in st.parents:
        return None
    return read(st, k)


def project(v, n):
    if isinstance(v, tuple) and v:
        if v[0] == "agg":
            for k, x in v[2]:
                if k == n:
                    return x
            for k, x in v[2]:
                if str(k).startswith("<base>") and isinstance(x, tuple):
                    r = project(x, n)
                    if r[0] != "fld":
                        return r
            for k, x in v[2]:
                if k == "*":
                    return ("fld", x, n)
            return ("fld", v, n)
        if v[0] == "ite":
            return mk_ite(v[1], project(v[2], n), project(v[3], n))
        if v[0] == "phi":
            return T.phi(*[project(x, n) for x in v[1]])
    return ("fld", v, n)


def read(st, loc):
    if not isinstance(loc, tuple) or not loc:
        return loc
    h = loc[0]
    if loc in st.heap:
        v = st.heap[loc]
    elif h == "fld":
        b = read_nofields(st, loc[1])
        v = project(b, loc[2]) if b != loc[1] else loc
        if v == loc and st.havocs:
            for p, site in st.havocs:
                if prefix_of(p, loc):
                    return ("hav", loc, site)
    elif h in ("at", "elem", "deref", "back"):
        b = read_nofields(st, loc[1])
        if b != loc[1] and isinstance(b, tuple) and b:
            nl = mk_deref(b) if h == "deref" else (mk_at(b, loc[2]) if h == "at" else (h, b))
            v = st.heap.get(nl, nl)
            if isinstance(nl, tuple) and nl and nl != loc and nl[0] in ("fld",) and nl not in st.heap:
                v = read(st, nl)
        else:
            v = loc
    elif h == "get":
        b = read_nofields(st, loc[2])
        v = mk_get(loc[1], b) if b != loc[2] else loc
    else:
        v = loc
    return compose(st, loc, v)


def compose(st, loc, v, inner=False):
    """Value v of a location with the values of its fields that are known better."""
    if loc not in st.parents:
        return v
    h = loc[0]
    ov = {}
    for k, x in st.heap.items():
        if k[0] == "fld" and k[1] == loc:
            ov[k[2]] = read(st, k)
    if h not in ("this", "parm"):
        for k in st.parents:
            if k[0] == "fld" and k[1] == loc and k not in st.heap:
                b = project(v, k[2]) if v != loc else k
                x = compose(st, k, b, True)
                if x != b:
                    ov[k[2]] = x
    if ov:
        if isinstance(v, tuple) and v and v[0] == "agg":
            d = dict(v[2])
            d.update(ov)
            return ("agg", v[1], tuple(sorted(d.items())))
        if v == loc or inner or (isinstance(v, tuple) and v and v[0] in ("obj", "new", "zero")):
            if h == "this" or h == "parm":
                return v
            return ("agg", v[1] if v[0] in ("obj", "new", "zero") else "?", tuple(sorted(ov.items())) + (("*", v),))
    return v


def read_nofields(st, loc):
    if not isinstance(loc, tuple) or not loc:
        return loc
    if loc in st.heap:
        return st.heap[loc]
    h = loc[0]
    if h == "fld":
        b = read_nofields(st, loc[1])
        return project(b, loc[2]) if b != loc[1] else loc
    if h in ("at", "elem", "deref", "back", "get"):
        return read(st, loc)
    return loc


def mk_deref(p):
    if isinstance(p, tuple) and p:
        if p[0] == "addr":
            return p[1]
        if p[0] == "iter":
            return ("elem", p[1])
        if p[0] == "begin":
            return ("at", p[1], T.ZERO)
        if p[0] == "some":
            return p[1]
        if p[0] == "ite":
            return mk_ite(p[1], mk_deref(p[2]), mk_deref(p[3]))
        if p[0] == "bin" and p[1] == "+" and isinstance(p[2], tuple) and p[2] and p[2][0] == "begin":
            return mk_at(p[2][1], p[3])
    return ("deref", p)


def mk_at(c, i):
    if isinstance(i, tuple) and i and i[0] == "idx" and T.is_zero(i[1]) and i[2] == ("size", c) and i[3] == 1:
        return ("elem", c)
    if isinstance(c, tuple) and c and c[0] == "list" and T.lit_val(i) is not None and T.lit_val(i) < len(c[1]):
        return c[1][T.lit_val(i)]
    return ("at", c, i)


def mk_get(n, b):
    if n.endswith("UL") and n[:-2].isdigit():
        n = n[:-2]
    if isinstance(b, tuple) and b:
        if b[0] == "tuple":
            try:
                return b[1][int(n)]
            except (ValueError, IndexError):
                pass
        if b[0] == "ite":
            return mk_ite(b[1], mk_get(n, b[2]), mk_get(n, b[3]))
    return ("get", n, b)


def unsigned(fr, n):
    return re.sub(r"^const ", "", fr.tu.types[n["t"]]) in UNSIGNED if "t" in n else False


UNSIGNED = {"unsigned long", "unsigned int", "unsigned long long", "unsigned short", "unsigned char"}


class Event:
    __slots__ = ("kind", "qn", "obj", "args", "raw", "val", "loc", "op", "fn", "line", "file", "guards", "facts",
                 "must", "may", "locks", "loops", "stack", "meta", "ix", "st", "res", "types", "pointees", "task", "frames", "tries")

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    @property
    def name(self):
        return self.qn.rsplit("::", 1)[-1] if self.qn else None

    def where(self):
        return "%s:%s" % (self.file, self.line)

    def __repr__(self):
        if self.kind == "write":
            return "<write %s := %s @%s>" % (T.show(self.loc), T.show(self.val), self.where())
        if self.kind == "call":
            return "<call %s obj=%s args=%s @%s>" % (self.qn, T.show(self.obj), [T.show(a) for a in self.args or ()],
                                                     self.where())
        return "<%s %s @%s>" % (self.kind, T.show(self.val), self.where())


class Frame:
    _n = 0

    def __init__(self, fn, tu, this, parent=None):
        Frame._n += 1
        self.serial = Frame._n
        self.fn = fn
        self.tu = tu
        self.this = this
        self.refs = {}
        self.vals = {}
        self.parent = parent
        self.rets = []
        self.names = {}
        self.declared = set()

    def lookup(self, vid, name):
        f = self
        while f is not None:
            if vid in f.refs:
                return f.refs[vid]
            if vid in f.declared:
                return ("var", name, (f.serial, vid))
            f = f.parent
        return ("var", name, (self.serial, vid))


class Loop:
    def __init__(self, kind, over=None, line=None, file=None):
        self.kind = kind        # foreach | range | while | do
        self.over = over        # container term / (lo, hi, step) / condition term
        self.how = "index"
        self.cvar = None        # variable declared in the condition
        self.early = []         # lines of break / return / throw that leave the loop before it is exhausted
        self.leaves = []        # branch conditions under which it is left early
        self.line = line
        self.file = file

    def __repr__(self):
        return "<loop %s %s early=%s>" % (self.kind, T.show(self.over) if self.over else None, self.early)


class Task:
    def __init__(self, n, fn, args, post):
        self.n, self.fn, self.args, self.post = n, fn, args, post

    def __repr__(self):
        return "task%d" % self.n


def runnable(v):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ("lam", "fn"):
        return True
    return v[0] == "call" and v[1] == "std::bind" and bool(v[2]) and runnable(v[2][0])


class Result:
    def __init__(self, events, exits, throws):
        self.events = events
        self.exits = exits
        self.throws = throws

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (e.qn in names or e.name in names)]

    def writes(self, field=None):
        return [e for e in self.events if e.kind == "write" and
                (field is None or (e.loc and e.loc[0] == "fld" and e.loc[2] == field))]


# Library functions whose deduced reference parameters are only forwarded to a constructor.
FORWARDERS = ("emplace", "push", "insert", "make_", "try_emplace", "visit", "apply", "allocate")


class Interp:
    def __init__(self, prog, opaque=None, tagger=None, devirt=None, depth=14, inline_ctors=True, on_event=None,
                 budget=400000):
        self.prog = prog
        self.opaque = opaque or (lambda m, f: False)
        self.tagger = tagger
        self.devirt = devirt
        self.depth = depth
        self.events = []
        self.quiet = 0
        self.loops = []
        self.stack = []
        self.loopctl = []
        self.handlers = []
        self.tries = []
        self.lockof = {}
        self.throws = []
        self.closures = {}
        self.lamn = 0
        self.inline_ctors = inline_ctors
        self.on_event = on_event
        self.analysed = {}
        self.fdef = None
        self.steps = 0
        self.budget = budget
        self.lock_scopes = []
        self.watch = ()
        self.task = None        # the task of a thread pool whose body is being interpreted
        self.tasks = []

    # ------------------------------------------------------------------ entry
    def run(self, fn, this=THIS, args=None, st=None):
        st = st or St()
        fr = Frame(fn, fn.tu, this)
        for i, p in enumerate(fn.params):
            loc = ("parm", p["n"] or "arg%d" % i, i)
            fr.refs[p["id"]] = args[i] if args and i < len(args) else loc
        base = len(self.events)
        end, val, exits = self.body(fn, fr, st)
        th = self.throws
        self.throws = []
        return Result(self.events[base:], exits, th)

    def body(self, fn, fr, st):
        self.analysed[fn.id] = fn
        self.stack.append((fn, fr))
        try:
            if fn.ci is not None:
                for i in fn.ci:
                    if "m" in i:
                        n = i["e"]
                        loc = ("fld", fr.this, i["m"])
                        if self.construct_into(n, loc, st, fr):
                            continue
                        v = self.ev(n, st, fr) if n else ("zero", "")
                        self.write(st, loc, v, fr, (n or {}).get("l", fn.line), init=True)
                    elif i.get("e"):
                        # Base or delegated constructor: runs on this object.
                        if not self.construct_into(i["e"], fr.this, st, fr, force=True):
                            v = self.ev(i["e"], st, fr)
                            self.emit("base", st, fr, i["e"].get("l", fn.line), loc=fr.this, val=v,
                                      qn=i.get("base"))
            nxt = self.block(fn.body, st, fr) if fn.body else st
            exits = list(fr.rets)
            if nxt is not None:
                exits.append((nxt, VOID, fn.eline))
            if not exits:
                return None, VOID, exits
            if len(exits) == 1:
                return exits[0][0], exits[0][1], exits
            val = self.ret_merge([(e[0].guards, e[1]) for e in exits])
            merged = self.state_merge([e[0] for e in exits])
            return merged, val, exits
        finally:
            self.stack.pop()

    def state_merge(self, ss):
        """Join of the exit states of a call, told apart by the branch condition they exclude each other with."""
        if len(ss) == 1:
            return ss[0]
        if len(ss) <= 8:
            common = frozenset.intersection(*[s.guards for s in ss])
            atoms = set().union(*[s.guards for s in ss]) - common
            for a in sorted(atoms, key=repr):
                A = [s for s in ss if a in s.guards]
                B = [s for s in ss if T.neg(a) in s.guards]
                if A and B and len(A) + len(B) == len(ss):
                    return join([self.state_merge(A), self.state_merge(B)], a)
        return join(ss)

    def ret_merge(self, rs):
        vals = {v for _, v in rs}
        if len(vals) == 1:
            return next(iter(vals))
        common = frozenset.intersection(*[g for g, _ in rs])
        atoms = set().union(*[g for g, _ in rs]) - common
        for a in sorted(atoms, key=repr):
            A = [(g, v) for g, v in rs if a in g]
            B = [(g, v) for g, v in rs if T.neg(a) in g]
            if A and B and len(A) + len(B) == len(rs):
                return mk_ite(a, self.ret_merge(A), self.ret_merge(B))
        return T.phi(*vals)

    # ------------------------------------------------------------------ events
    def emit(self, kind, st, fr, line, **kw):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken("analysis budget exceeded in " + str(fr.fn.qn))
        e = Event(kind=kind, fn=fr.fn, line=line, file=fr.fn.file, guards=st.guards, facts=st.facts, must=st.must,
                  may=st.may, locks=st.locks, loops=tuple(self.loops), stack=tuple(f.qn for f, _ in self.stack),
                  ix=len(self.events), st=None, task=self.task,
                  frames=tuple(f.serial for _, f in self.stack) + (fr.serial,), tries=tuple(self.tries), **kw)
        if kw.get("args"):
            e.pointees = {a[1]: read(st, a[1]) for a in kw["args"]
                          if isinstance(a, tuple) and len(a) == 2 and a[0] == "addr" and isinstance(a[1], tuple)} or None
        if self.watch:
            e.st = {w: read(st, w) for w in self.watch}
        if self.tagger:
            tags = self.tagger(e, st, self)
            if tags:
                tags = frozenset(t for t in tags if not (isinstance(t, tuple) and t and t[0] == "-"))
                drop = frozenset()
                st.must = (st.must - drop) | tags
                st.may = st.may | tags
        if not self.quiet:
            if self.on_event:
                self.on_event(e, st, self)
            self.events.append(e)
        if self.handlers and kind == "call" and kw.get("qn") not in NOTHROW:
            self.handlers[-1].append(st.copy())
        return e

    # ------------------------------------------------------------------ memory
    def write(self, st, loc, val, fr, line, op="=", init=False):
        if not isinstance(loc, tuple) or not loc:
            return
        old = read(st, loc)
        for k in [k for k in st.heap if prefix_of(loc, k)]:
            del st.heap[k]
        st.heap[loc] = val
        p = parent(loc)
        while p is not None:
            st.parents.add(p)
            p = parent(p)
        if loc[0] in ("at", "elem", "deref", "back"):
            # Another element of the same container may be the same object.
            for k in [k for k in st.heap if k != loc and k[0] in ("at", "elem", "back") and k[1] == loc[1]]:
                del st.heap[k]
        if st.facts:
            st.facts = frozenset(f for f in st.facts if not T.mentions(f, loc))
        local = loc[0] == "var"
        if not (init and local):
            self.emit("write", st, fr, line, loc=loc, val=val, op=op, res=old)

    def mutate(self, st, loc, line, deep=False):
        if not isinstance(loc, tuple) or not loc or loc[0] in ("lit", "str", "enum", "void"):
            return
        for k in [k for k in st.heap if prefix_of(loc, k)]:
            if deep:
                st.heap[k] = ("hav", k, line)
            else:
                del st.heap[k]
        if loc in st.heap:
            st.heap[loc] = loc
        # Sizes remembered from before the change are not the size after it.
        for k, v in st.heap.items():
            if isinstance(v, tuple) and T.mentions(v, ("size", loc)):
                st.heap[k] = T.subst(v, ("size", loc), ("oldsize", loc))
        if deep:
            st.havocs = st.havocs + ((loc, line),)
        if st.facts:
            st.facts = frozenset(f for f in st.facts if not T.mentions(f, loc))

    # ------------------------------------------------------------------ statements
    def block(self, n, st, fr):
        """Execute a compound statement with its scope (locks taken here are released at its end)."""
        if n is None:
            return st
        if n["k"] != "block":
            return self.stmt(n, st, fr)
        mine = []
        self.lock_scopes.append(mine)
        marks = (len(fr.rets), [len(c["break"]) for c in self.loopctl], [len(c["cont"]) for c in self.loopctl])
        try:
            for s in n["s"]:
                st = self.stmt(s, st, fr)
                if st is None:
                    break
        finally:
            self.lock_scopes.pop()
        if mine:
            rel = frozenset(mine)
            if st is not None:
                st.locks = st.locks - rel
            for r in fr.rets[marks[0]:]:
                r[0].locks = r[0].locks - rel
            for c, nb, nc in zip(self.loopctl, marks[1], marks[2]):
                for s in c["break"][nb:]:
                    s.locks = s.locks - rel
                for s in c["cont"][nc:]:
                    s.locks = s.locks - rel
        return st

    def stmt(self, n, st, fr):
        if n is None:
            return st
        k = n["k"]
        if k == "block":
            return self.block(n, st, fr)
        if k == "decl":
            for v in n["v"]:
                self.declare(v, st, fr)
            return st
        if k == "if":
            if n.get("init"):
                st = self.stmt(n["init"], st, fr)
                if st is None:
                    return None
            if n.get("var"):
                self.declare(n["var"], st, fr)
            if "cx" in n:
                return self.block(n["t"] if n["cx"] else n.get("e"), st, fr)
            a, b, c = self.assume(n["c"], st, fr)
            a = self.block(n["t"], a, fr) if a is not None else None
            if n.get("e"):
                b = self.block(n["e"], b, fr) if b is not None else None
            if a is None or b is None:
                return b if a is None else a
            return join([a, b], c)
        if k == "rfor":
            return self.rangefor(n, st, fr)
        if k == "for":
            if n.get("init"):
                st = self.stmt(n["init"], st, fr)
            return self.loop(n, st, fr, n.get("c"), n.get("inc"), n["b"], "for")
        if k == "while":
            return self.loop(n, st, fr, n["c"], None, n["b"], "while")
        if k == "do":
            return self.loop(n, st, fr, n["c"], None, n["b"], "do")
        if k == "switch":
            return self.switch(n, st, fr)
        if k in ("case", "default"):
            return self.stmt(n["s"], st, fr)
        if k == "ret":
            v = VOID
            if n.get("e"):
                rt = fr.tu.types[fr.fn.meta["rt"]] if fr.fn.meta.get("rt", -1) >= 0 else ""
                v = self.lv(n["e"], st, fr) if rt.rstrip().endswith("&") else self.ev(n["e"], st, fr)
            self.emit("ret", st, fr, n["l"], val=v)
            fr.rets.append((st, v, n["l"]))
            for lp in self.loops[self.frame_loops(fr):]:
                lp.early.append(("return", n["l"]))
                lp.leaves.append(st.guards)
            return None
        if k == "break":
            if self.loopctl:
                self.loopctl[-1]["break"].append(st)
                if not self.loopctl[-1].get("switch") and self.loops:
                    self.loops[-1].early.append(("break", n["l"]))
                    self.loops[-1].leaves.append(st.guards)
            return None
        if k == "continue":
            for c in reversed(self.loopctl):
                if not c.get("switch"):
                    c["cont"].append(st)
                    break
            return None
        if k == "nop":
            return st
        if k == "try":
            snap = []
            self.handlers.append(snap)
            start = st.copy()
            nt = len(self.throws)
            self.try_depth = getattr(self, "try_depth", 0)
            self.tries.append(n["l"])
            body = self.block(n["b"], st, fr)
            self.tries.pop()
            self.handlers.pop()
            thrown = [t[0] for t in self.throws[nt:]]
            del self.throws[nt:]
            outs = [body]
            entry = join([start] + snap + thrown)
            catch_all = any("t" not in h for h in n["h"])
            for h in n["h"]:
                s = entry.copy()
                if h.get("v"):
                    fr.declared.add(h["v"]["id"])
                    s.heap[("var", h["v"]["n"], (fr.serial, h["v"]["id"]))] = ("exception", h.get("t") is not None)
                s.guards = s.guards | {("caught", n["l"]) + (("typed",) if "t" in h else ())}
                self.caught = getattr(self, "caught", [])
                self.caught.append(s)
                outs.append(self.block(h["b"], s, fr))
                self.caught.pop()
            del catch_all
            outs = [o for o in outs if o is not None]
            return join(outs) if outs else None
        if k == "others":
            return st
        if k == "throw":
            self.ev(n, st, fr)
            return None
        if k == "cond" and n.get("b", {}).get("k") == "throw" or k == "cond" and n.get("a", {}).get("k") == "throw":
            self.ev(n, st, fr)
            return st
        # expression statement
        v = self.ev(n, st, fr, stmt=True)
        if v == ("noreturn",):
            return None
        return st

    def frame_loops(self, fr):
        for i, lp in enumerate(self.loops):
            if getattr(lp, "frame", None) == fr.serial:
                return i
        return len(self.loops)

    def declare(self, v, st, fr):
        vid = v["id"]
        ty = fr.tu.types[v["t"]]
        name = v["n"]
        init = v.get("init")
        isref = ty.rstrip().endswith("&")
        loc = ("var", name, (fr.serial, vid))
        if v.get("static"):
            loc = ("glob", fr.fn.qn + "::" + name)
            fr.refs[vid] = loc
            if init:
                self.ev(init, st, fr)
            return
        base = ty.replace("const ", "")
        if base.startswith(LOCKS) and init is not None:
            self.take_lock(init, loc, st, fr, v["l"])
            fr.declared.add(vid)
            return
        fr.declared.add(vid)
        if isref and init is not None:
            tgt = self.lv(init, st, fr)
            fr.refs[vid] = tgt
        else:
            if init is not None:
                if self.construct_into(init, loc, st, fr):
                    pass
                else:
                    val = self.ev(init, st, fr)
                    for k in [k for k in st.heap if prefix_of(loc, k)]:
                        del st.heap[k]
                    st.heap[loc] = val if val != VOID else loc
                    self.emit("decl", st, fr, v["l"], loc=loc, val=val, types=ty)
            else:
                st.heap[loc] = ("uninit", name)
        for b in v.get("binds", ()):
            src = fr.refs.get(vid, loc)
            e = b.get("e")
            tgt = None
            if e is not None:
                if b.get("hid") is not None:
                    tgt = self.lv(e, st, fr)
                else:
                    tgt = self.lv(e, st, fr)
            if tgt is None:
                tgt = ("bind", b["n"], src)
            fr.refs[b["id"]] = tgt
            if b.get("hid") is not None:
                fr.refs[b["hid"]] = tgt

    def take_lock(self, init, loc, st, fr, line):
        args = init.get("a") or []
        if init["k"] in ("init",):
            args = init["a"]
        deferred = False
        taken = []
        for a in args:
            if a is None:
                continue
            if a["k"] == "ref" and a.get("n") in ("defer_lock", "adopt_lock", "try_to_lock"):
                deferred = deferred or a["n"] in ("defer_lock", "try_to_lock")
                continue
            taken.append(self.lv(a, st, fr))
        st.heap[loc] = ("lock", tuple(taken))
        self.lockof[loc] = st.heap[loc]
        if not deferred:
            for t in taken:
                self.acquire(st, t, fr, line)
        for t in taken:
            if self.lock_scopes:
                self.lock_scopes[-1].append(t)

    def acquire(self, st, t, fr, line):
        self.emit("lock", st, fr, line, loc=t)
        st.locks = st.locks | {t}

    # ------------------------------------------------------------------ conditions
    def assume(self, n, st, fr):
        """-> (state if true | None, state if false | None, condition term)"""
        k = n["k"] if n else None
        if n is None:
            return st, None, T.TRUE
        if k == "bin" and n["op"] == "&&":
            a, b, c1 = self.assume(n["a"], st, fr)
            if a is None:
                return None, b, T.FALSE
            a2, b2, c2 = self.assume(n["b"], a, fr)
            f = join([x for x in (b, b2) if x is not None])
            return a2, f, mk_and(c1, c2)
        if k == "bin" and n["op"] == "||":
            a, b, c1 = self.assume(n["a"], st, fr)
            if b is None:
                return a, None, T.TRUE
            a2, b2, c2 = self.assume(n["b"], b, fr)
            t = join([x for x in (a, a2) if x is not None])
            return t, b2, T.neg(mk_and(T.neg(c1), T.neg(c2)))
        if k == "un" and n["op"] == "!":
            a, b, c = self.assume(n["e"], st, fr)
            return b, a, T.neg(c)
        v = self.ev(n, st, fr)
        c = T.truth(v)
        self.emit("cond", st, fr, n.get("l", fr.fn.line), val=c)
        return self.split(c, st) + (c,)

    def split(self, c, st):
        if c == T.TRUE:
            return st, None
        if c == T.FALSE:
            return None, st
        if c[0] == "and":
            t = st.copy()
            for x in c[1:]:
                t = self.assert_fact(t, x) if t is not None else None
            f = st.copy()
            f = self.assert_atom(f, T.neg(c))
            return t, f
        if c[0] == "not" and c[1][0] == "and":
            f = st.copy()
            for x in c[1][1:]:
                f = self.assert_fact(f, x) if f is not None else None
            t = st.copy()
            t = self.assert_atom(t, c)
            return t, f
        return self.assert_fact(st.copy(), c), self.assert_fact(st.copy(), T.neg(c))

    def assert_fact(self, st, c):
        if c == T.TRUE:
            return st
        if c == T.FALSE:
            return None
        if c[0] == "and":
            for x in c[1:]:
                st = self.assert_fact(st, x)
                if st is None:
                    return None
            return st
        if T.neg(c) in st.facts:
            return None
        # x == a excludes x == b for different constants
        if c[0] == "eq":
            for f in st.facts:
                if f[0] == "eq":
                    for x, y in ((c[1], c[2]), (c[2], c[1])):
                        if x in (f[1], f[2]):
                            o = f[2] if f[1] == x else f[1]
                            if y != o and is_const(y) and is_const(o):
                                return None
        return self.assert_atom(st, c)

    def assert_atom(self, st, c):
        st.guards = st.guards | {c}
        st.facts = st.facts | {c}
        return st

    # ------------------------------------------------------------------ loops
    def rangefor(self, n, st, fr):
        if n.get("init"):
            st = self.stmt(n["init"], st, fr)
        over = self.lv(n["r"], st, fr)
        rv = read(st, over) if isinstance(over, tuple) else over
        if isinstance(rv, tuple) and rv and rv[0] in ("list",):
            over = rv
        lp = Loop("foreach", over, n["l"], fr.fn.file)
        lp.frame = fr.serial
        lp.how = "rfor"
        self.emit("loop", st, fr, n["l"], loc=over, val=over)
        v = n["v"]

        def bind(s):
            ty = fr.tu.types[v["t"]]
            el = ("elem", over)
            loc = ("var", v["n"], (fr.serial, v["id"]))
            if ty.rstrip().endswith("&"):
                fr.refs[v["id"]] = el
            else:
                fr.declared.add(v["id"])
                for k in [k for k in s.heap if prefix_of(loc, k)]:
                    del s.heap[k]
                s.heap[loc] = read(s, el)
            for b in v.get("binds", ()):
                src = el
                fr.refs[v["id"]] = el
                e = b.get("e")
                tgt = self.lv(e, s, fr) if e is not None else ("bind", b["n"], src)
                fr.refs[b["id"]] = tgt
                if b.get("hid") is not None:
                    fr.refs[b["hid"]] = tgt
            return s

        return self.fix(n, st, fr, lp, None, None, n["b"], bind)

    def loop(self, n, st, fr, cond, inc, body, kind):
        lp = Loop("do" if kind == "do" else "while", None, n["l"], fr.fn.file)
        lp.cvar = n.get("var")
        lp.frame = fr.serial
        return self.fix(n, st, fr, lp, cond, inc, body, None, post=(kind == "do"))

    def once(self, st, fr, cond, inc, body, bind, post, counted=False):
        """One abstract iteration. -> (end state, false exit state, break states, condition term)"""
        ctl = {"break": [], "cont": []}
        f = None
        c = None
        s = st
        if bind:
            s = bind(s.copy())
            f = st
        elif cond is not None and not post:
            g0 = s.guards
            if self.loops[-1].cvar:
                s = s.copy()
                self.declare(self.loops[-1].cvar, s, fr)
            s, f, c = self.assume(cond, s, fr)
            if counted and s is not None:
                s.guards = g0 | frozenset(x for x in s.guards - g0
                                          if not T.has_head(x, "idx", "iter", "iterfrom", "lv"))
        elif cond is None:
            f = None
        self.loopctl.append(ctl)
        if s is not None:
            s = self.block(body, s, fr)
        self.loopctl.pop()
        outs = [x for x in [s] + ctl["cont"] if x is not None]
        s = join(outs) if outs else None
        if s is not None and inc is not None:
            self.ev(inc, s, fr, stmt=True)
        if post and s is not None:
            s, f, c = self.assume(cond, s, fr)
        return s, f, ctl["break"], c

    def fix(self, n, st, fr, lp, cond, inc, body, bind, post=False):
        base = st
        cur = st.copy()
        nret, nthrow = len(fr.rets), len(self.throws)
        self.quiet += 1
        self.loops.append(lp)
        widened = {}
        counters = {}
        try:
            for it in range(4):
                s, f, br, c = self.once(cur.copy(), fr, cond, inc, body, bind, post)
                del fr.rets[nret:]
                del self.throws[nthrow:]
                if s is None:
                    break
                changed = [k for k in set(s.heap) | set(cur.heap)
                           if k in base_keys(base, cur, k) and s.heap.get(k) != cur.heap.get(k)]
                if not changed and s.must >= cur.must and cur.facts <= s.facts:
                    break
                merged = join([cur, s])
                for k in sorted(changed, key=lambda k: self.at_begin(cur, k)):
                    if k in widened:
                        merged.heap[k] = widened[k]
                        continue
                    v0 = cur.heap.get(k)
                    if v0 is None:
                        v0 = initial(cur, k)
                    v1 = s.heap.get(k)
                    if v0 is None:
                        merged.heap.pop(k, None)
                        continue
                    w = self.widen(k, v0, v1, cond, cur, fr, it)
                    if w == ("lv", k) and T.is_zero(v0) and v1 == ("bin", "+", v0, ("lit", "1")):
                        over = lp.over if lp.kind == "foreach" else next((x[1] for x in widened.values() if x[0] == "iter"), None)
                        if over is not None:
                            w = ("idx", T.ZERO, ("size", over), 1)
                            counters[k] = ("size", over)
                    if w is not None:
                        widened[k] = w
                        merged.heap[k] = w
                    else:
                        merged.heap[k] = bounded_phi(v0, v1, k) if it < 2 else ("lv", k)
                # Every element is visited once: what an iteration wrote to "its" element is not there yet in the next.
                own = [lp.over] if lp.kind == "foreach" and lp.over is not None else []
                own += [w[1] for w in widened.values() if w[0] == "iter"]
                own += [w[2][1] for w in widened.values() if w[0] == "idx" and w[2][:1] == ("size",) and
                        T.is_zero(w[1]) and w[3] == 1]
                for c in own:
                    el = ("elem", c)
                    for k in [k for k in merged.heap if k == el or prefix_of(el, k)]:
                        if k in base.heap:
                            merged.heap[k] = base.heap[k]
                        else:
                            del merged.heap[k]
                cur = merged
        finally:
            self.quiet -= 1
            self.loops.pop()
        # normalised description of the iteration
        if lp.kind != "foreach":
            lp.over = None
            for k, w in widened.items():
                if w[0] == "iter":
                    lp.kind, lp.over, lp.how = "foreach", w[1], "iter"
                    break
                if w[0] == "idx" and isinstance(w[2], tuple) and w[2] and w[2][0] == "size" and T.is_zero(w[1]) \
                        and w[3] == 1:
                    lp.kind, lp.over = "foreach", w[2][1]
                    break
                if w[0] == "idx":
                    lp.kind, lp.over = "range", (w[1], w[2], w[3])
        lp.early = []
        lp.leaves = []
        self.loops.append(lp)
        s, f, br, c = self.once(cur.copy(), fr, cond, inc, body, bind, post, lp.kind in ("foreach", "range"))
        self.loops.pop()
        if lp.over is None and c is not None:
            lp.over = c
        outs = [x for x in [f] if x is not None]
        if bind and s is not None:
            outs.append(s)
        hit = self.search(lp, base, fr.rets[nret:], br, self.throws[nthrow:])
        if hit is not None:
            found, at = hit
            for i in range(nret, len(fr.rets)):
                s1, v1, l1 = fr.rets[i]
                fr.rets[i] = (self.located(s1, base, found, at, lp.over), moved_to(v1, at, lp.over), l1)
            br = [self.located(b, base, found, at, lp.over) for b in br]
            if outs:
                outs = [join(outs)]
                outs[0].guards = base.guards | {T.neg(found)}
                for k, v in list(outs[0].heap.items()):
                    if v == ("iter", lp.over):
                        outs[0].heap[k] = ("end", lp.over)
            if br:
                b = join(br)
                outs = [join([b] + outs, found)]
                base = base.copy()
                base.guards = base.guards | (outs[0].guards if len(outs) == 1 and not fr.rets[nret:] else frozenset())
            elif outs:
                base = base.copy()
                base.guards = outs[0].guards
        else:
            outs += br
        if not outs:
            return None
        out = join(outs)
        out.guards = base.guards
        if not lp.early:
            for k, v in counters.items():
                out.heap[k] = v
        # Facts about the loop variable or the visited element do not describe the state after the loop.
        out.facts = frozenset(x for x in out.facts if x in base.facts or
                              not T.has_head(x, "idx", "iter", "iterfrom", "lv", "elem"))
        return out

    def search(self, lp, base, rets, brs, throws):
        """A loop over a whole container that is left at the first element that meets a condition: the condition
        (there is such an element) and the position of the first one."""
        if lp.kind != "foreach" or lp.over is None or throws or not (rets or brs):
            return None
        conds = set()
        for st in [x[0] for x in rets] + brs:
            c = frozenset(g for g in st.guards - base.guards if g[0] != "alt")
            if not c or any(T.has_head(g, "lv", "idx", "big", "oneof", "phi", "caught") for g in c) or \
                    not any(T.mentions(g, ("elem", lp.over)) or T.mentions(g, ("iter", lp.over)) for g in c):
                return None
            conds.add(c)
        if len(conds) != 1:
            return None
        g = T.subst(conj_of(conds.pop()), ("deref", ("iter", lp.over)), ("elem", lp.over))
        if T.mentions(g, ("iter", lp.over)):
            return None
        return ("exists", lp.over, g), ("findif", lp.over, g)

    def located(self, st, base, found, at, over):
        s = st.copy()
        s.guards = base.guards | {found}
        s.facts = frozenset(moved_to(x, at, over) for x in s.facts) | {found}
        for k in list(s.heap):
            s.heap[k] = moved_to(s.heap[k], at, over)
        return s

    def at_begin(self, st, k):
        v = st.heap.get(k)
        return (not (isinstance(v, tuple) and v[:1] in (("begin",), ("rbegin",))), repr(k))

    def widen(self, k, v0, v1, cond, st, fr, it):
        """Recognise induction variables."""
        if not (isinstance(v1, tuple) and v1):
            return None
        step = None
        if v1[0] == "bin" and v1[1] == "+" and v1[2] == v0 and T.lit_val(v1[3]) is not None:
            step = T.lit_val(v1[3])
        elif v1[0] == "bin" and v1[1] == "+" and v1[2] == v0:
            step = v1[3]
        elif advances(v1, v0):
            step = "next"
        if step is None:
            return None
        if isinstance(v0, tuple) and v0 and v0[0] == "begin" and step in ("next", 1):
            return ("iter", v0[1])
        if isinstance(v0, tuple) and v0 and v0[0] == "rbegin" and step in ("next", 1):
            return ("iter", ("rev", v0[1]))
        if cond is None:
            return ("lv", k)
        ph = ("ph", k)
        s = st.copy()
        s.heap[k] = ph
        s.facts = frozenset()
        a, b, c = self.assume(cond, s, fr)
        for x in conj(c):
            if x[0] == "lt" and x[1] == ph:
                return ("idx", v0, x[2], step)
            if x[0] == "not" and x[1][0] == "eq" and ph in x[1][1:]:
                o = x[1][2] if x[1][1] == ph else x[1][1]
                return ("idx", v0, o, step)
            if x[0] == "not" and x[1][0] == "lt" and x[1][2] == ph:
                return ("idx", v0, ("bin", "+", x[1][1], ("lit", "1")), step)
            if x[0] == "not" and x[1][0] == "isend" and x[1][1] == ph:
                return ("iterfrom", v0, x[1][2])
        return ("lv", k)

    def switch(self, n, st, fr):
        if n.get("init"):
            st = self.stmt(n["init"], st, fr)
        if n.get("var"):
            self.declare(n["var"], st, fr)
        v = self.ev(n["c"], st, fr)
        ctl = {"break": [], "cont": [], "switch": True}
        # continue inside a switch belongs to the enclosing loop
        self.loopctl.append(ctl)
        items = []

        def flatten(b):
            for s in b:
                labels = []
                x = s
                while x and x["k"] in ("case", "default"):
                    labels.append(x)
                    x = x["s"]
                items.append((labels, x))
        flatten(n["b"]["s"] if n["b"]["k"] == "block" else [n["b"]])
        cases = []
        has_default = False
        for labels, _ in items:
            for c in labels:
                if c["k"] == "case":
                    cv = self.ev(c["v"], st, fr)
                    cases.append(cv)
                else:
                    has_default = True
        cur = None
        rest = st.copy()
        for cv in cases:
            if rest is not None:
                rest = self.assert_fact(rest, T.neg(T.eq(v, cv)))
        for labels, body in items:
            ins = [cur] if cur is not None else []
            for c in labels:
                if c["k"] == "case":
                    cv = self.ev(c["v"], st, fr)
                    s = self.assert_fact(st.copy(), T.eq(v, cv))
                    if s is not None:
                        ins.append(s)
                elif rest is not None:
                    ins.append(rest.copy())
            if not ins:
                continue
            if len(ins) > 1:
                s0 = join(ins)
                eqs = tuple(sorted((T.eq(v, self.ev(c["v"], st, fr)) for c in labels if c["k"] == "case"), key=repr))
                if len(eqs) > 1:
                    s0.guards = s0.guards | {("oneof",) + eqs}
                cur = s0
            else:
                cur = ins[0]
            cur = self.stmt(body, cur, fr) if body is not None else cur
        self.loopctl.pop()
        outs = ctl["break"] + ([cur] if cur is not None else [])
        if not has_default and rest is not None:
            outs.append(rest)
        return join(outs) if outs else None

    # ------------------------------------------------------------------ expressions
    def lv(self, n, st, fr):
        k = n["k"]
        if k == "ref":
            dk = n["dk"]
            if "cv" in n:
                return ("lit", n["cv"])
            if dk in ("var", "parm"):
                return fr.lookup(n["id"], n["n"])
            if dk == "bind":
                r = fr.lookup(n["id"], n["n"])
                return r
            if dk == "global":
                f = fr
                while f is not None:
                    if n["id"] in f.refs:
                        return f.refs[n["id"]]
                    f = f.parent
                return ("glob", n.get("qn") or n["n"])
            if dk == "enum":
                return ("enum", n["qn"], n.get("v"))
            if dk == "func":
                m = fr.tu.fns[n["f"]]
                return ("fn", m["qn"], m["id"])
            return ("other", n.get("n"))
        if k == "mem":
            if "f" in n:
                m = fr.tu.fns[n["f"]]
                return ("fn", m["qn"], m["id"])
            if n.get("arrow"):
                b = mk_deref(self.ev(n["b"], st, fr))
            else:
                b = self.lv(n["b"], st, fr)
            if isinstance(b, tuple) and b and b[0] == "agg":
                return project(b, n["n"])
            if n["n"] in ("first", "second") and n.get("cls", "").startswith("std::"):
                return mk_get("0" if n["n"] == "first" else "1", b)
            return ("fld", b, n["n"])
        if k == "this":
            return ("addr", fr.this)
        if k == "un":
            op = n["op"]
            if op == "*":
                return mk_deref(self.ev(n["e"], st, fr))
            if op in ("++", "--"):
                loc = self.lv(n["e"], st, fr)
                v = read(st, loc)
                nv = self.incr(v, op)
                self.write(st, loc, nv, fr, n["l"], op=op)
                return loc
        if k == "bin":
            op = n["op"]
            if op == ",":
                self.ev(n["a"], st, fr)
                return self.lv(n["b"], st, fr)
            if op in (".*", "->*"):
                base = self.lv(n["a"], st, fr) if op == ".*" else mk_deref(self.ev(n["a"], st, fr))
                m = self.ev(n["b"], st, fr)
                if m[:1] == ("addr",) and m[1][:1] == ("other",):
                    return ("fld", base, m[1][1])
                return ("at", base, m)
            if op == "=":
                val = self.ev(n["b"], st, fr)
                loc = self.lv(n["a"], st, fr)
                self.write(st, loc, val, fr, n["l"])
                return loc
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                val = self.ev(n["b"], st, fr)
                loc = self.lv(n["a"], st, fr)
                old = read(st, loc)
                if op == "-=" and unsigned(fr, n):
                    self.emit("usub", st, fr, n["l"], args=(old, val))
                self.write(st, loc, mk_bin(op[:-1], old, val), fr, n["l"], op=op)
                return loc
        if k == "sub":
            b = self.lv(n["b"], st, fr)
            i = self.ev(n["i"], st, fr)
            return mk_at(b, i)
        if k == "cond":
            a, b, c = self.assume(n["c"], st.copy(), fr)
            self.ev_quiet_cond(n, st, fr)
            va = self.lv(n["a"], a, fr) if a is not None else None
            vb = self.lv(n["b"], b, fr) if b is not None else None
            if va is None or vb is None:
                return vb if va is None else va
            return mk_ite(c, va, vb)
        if k == "cast":
            return self.cast(n, st, fr, True)
        if k in ("call", "log"):
            return self.call(n, st, fr, want_loc=True)
        return self.ev(n, st, fr)

    def ev_quiet_cond(self, n, st, fr):
        return None

    def incr(self, v, op):
        if isinstance(v, tuple) and v and v[0] in ("begin", "rbegin", "iter", "next", "find", "iterfrom"):
            return ("next", v) if op.endswith("++") else ("prev", v)
        return ("bin", "+" if op.endswith("++") else "-", v, ("lit", "1"))

    def cast(self, n, st, fr, want_loc):
        ck = n.get("ck")
        inner = self.lv(n["e"], st, fr) if want_loc else self.ev(n["e"], st, fr)
        if ck == "Dynamic":
            return ("dyncast", fr.tu.types[n["t"]], inner)
        if ck == "ToVoid":
            return VOID
        if ck == "Narrow":
            self.emit("narrow", st, fr, n["l"], val=inner, types=(fr.tu.types[n["st"]], fr.tu.types[n["t"]]))
        return inner

    def ev(self, n, st, fr, stmt=False):
        if n is None:
            return VOID
        k = n["k"]
        if k in ("ref",):
            loc = self.lv(n, st, fr)
            return read(st, loc)
        if k == "mem":
            loc = self.lv(n, st, fr)
            return read(st, loc)
        if k == "this":
            return ("addr", fr.this)
        if k == "lit":
            return ("lit", n["v"])
        if k == "str":
            return ("str", n["v"])
        if k in ("call",):
            return self.call(n, st, fr)
        if k == "log":
            self.quiet_args(n, st, fr)
            self.emit("log", st, fr, n["l"])
            return VOID
        if k == "ctor":
            return self.construct(n, st, fr)
        if k == "lambda":
            return self.closure(n, st, fr)
        if k == "bin":
            op = n["op"]
            if op in ("&&", "||"):
                a, b, c = self.assume(n, st.copy(), fr)
                j = join([x for x in (a, b) if x is not None])
                if j is not None:
                    self.replace(st, j)
                return c
            if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=")) or op in (",", ".*", "->*"):
                loc = self.lv(n, st, fr)
                return read(st, loc)
            a = self.ev(n["a"], st, fr)
            b = self.ev(n["b"], st, fr)
            if op == "-" and unsigned(fr, n):
                self.emit("usub", st, fr, n["l"], args=(a, b))
            return mk_bin(op, a, b)
        if k == "un":
            op = n["op"]
            if op == "&":
                loc = self.lv(n["e"], st, fr)
                if isinstance(loc, tuple) and loc and loc[0] == "deref":
                    return loc[1]
                if isinstance(loc, tuple) and loc and loc[0] == "fn":
                    return loc
                return ("addr", loc)
            if op == "*":
                return read(st, self.lv(n, st, fr))
            if op in ("++", "--"):
                return read(st, self.lv(n, st, fr))
            if op in ("p++", "p--"):
                loc = self.lv(n["e"], st, fr)
                v = read(st, loc)
                self.write(st, loc, self.incr(v, op), fr, n["l"], op=op[1:])
                return v
            e = self.ev(n["e"], st, fr)
            if op == "!":
                return T.neg(T.truth(e))
            if op == "-":
                iv = T.lit_val(e)
                if iv is not None:
                    return ("lit", str(-iv))
            if op == "+":
                return e
            return ("un", op, e)
        if k == "cond":
            a, b, c = self.assume(n["c"], st, fr)
            va = self.ev(n["a"], a, fr) if a is not None else None
            vb = self.ev(n["b"], b, fr) if b is not None else None
            if va is None and vb is None:
                return VOID
            if va == ("noreturn",):
                self.replace(st, b)
                return vb
            if vb == ("noreturn",):
                self.replace(st, a)
                return va
            if va is None or vb is None:
                self.replace(st, b if va is None else a)
                return vb if va is None else va
            self.replace(st, join([a, b], c))
            return mk_ite(c, va, vb)
        if k == "cast":
            return self.cast(n, st, fr, False)
        if k == "init":
            return self.initlist(n, st, fr)
        if k == "throw":
            v = self.ev(n["e"], st, fr) if n.get("e") else ("rethrow",)
            self.emit("throw", st, fr, n["l"], val=v, types=fr.tu.types[n["t"]] if "t" in n else None)
            self.throws.append((st.copy(), v, n["l"], fr.fn))
            for lp in self.loops[self.frame_loops(fr):]:
                lp.early.append(("throw", n["l"]))
                lp.leaves.append(st.guards)
            return ("noreturn",)
        if k == "sub":
            return read(st, self.lv(n, st, fr))
        if k == "new":
            e = self.ev(n["e"], st, fr) if n.get("e") else VOID
            return ("addr", ("obj", fr.tu.types[n["t"]], (e,), n["l"]))
        if k == "del":
            v = self.ev(n["e"], st, fr)
            self.emit("delete", st, fr, n["l"], val=v)
            return VOID
        if k == "zero":
            return ("zero", fr.tu.types[n["t"]])
        if k in ("block", "decl", "if", "rfor", "for", "while"):
            return VOID
        if k == "otherx":
            return ("otherx", n.get("c"), tuple(self.ev(x, st, fr) for x in n.get("a", ()) if x))
        return ("otherx", k)

    def replace(self, st, other):
        if other is None or other is st:
            return
        for s in St.__slots__:
            setattr(st, s, getattr(other, s))

    def quiet_args(self, n, st, fr):
        """Arguments of a log statement: evaluated on a copy, they are not part of the behaviour."""
        self.quiet += 1
        s = st.copy()
        try:
            for a in n.get("a", ()):
                if a is not None:
                    self.ev(a, s, fr)
        finally:
            self.quiet -= 1

    def initlist(self, n, st, fr):
        ty = fr.tu.types[n["t"]]
        vals = tuple(self.ev(a, st, fr) for a in n["a"])
        if "fn" in n and n["fn"]:
            names = n["fn"]
            if len(vals) == 1 and len(names) != 1 and n["a"][0].get("t") == n["t"]:
                return vals[0]
            return ("agg", ty, tuple((names[i] if i < len(names) else str(i), v) for i, v in enumerate(vals)))
        if "cls" in n and not vals:
            return ("agg", ty, ())
        if len(vals) == 1 and not ty.endswith("]") and "initializer_list" not in ty:
            return vals[0]
        if len(vals) == 0 and not ty.endswith("]"):
            return ("zero", ty)
        return ("list", vals)

    def closure(self, n, st, fr):
        lid = "%s:%s:%s" % (fr.fn.file, n["l"], ",".join(fr.tu.fns[o]["id"][-40:] for o in n["ops"][:1]))
        key = (lid, fr.serial)
        binds = {}
        for c in n["caps"]:
            if c.get("e") is not None:
                binds[c["id"]] = self.lv(c["e"], st, fr) if c.get("ref") else self.ev(c["e"], st, fr)
        self.closures[key] = (n, fr, binds)
        return ("lam", lid, key)

    # ------------------------------------------------------------------ calls
    def known_function(self, v):
        """The free function of this repository a callable value names, if its body can be entered."""
        f = self.prog.functions.get(v[2]) if isinstance(v, tuple) and v[:1] == ("fn",) and len(v) == 3 else None
        return f if f is not None and f.body is not None and not f.meta.get("virt") and not self.opaque(f.meta, f) else None

    def call_lambda(self, lam, args, st, fr, line, locs=None, guard=None, only=None):
        if lam[0] == "fn":
            f = self.known_function(lam)
            self.emit("enter", st, fr, line, qn=f.qn, args=tuple(read(st, a) for a in args), raw=tuple(args), meta=f.meta)
            r = self.inline(f, None, args, st, fr, line)
            return r if r is not None else (None, ("noreturn",))
        n, dfr, binds = self.closures[lam[2]]
        outs = []
        vals = []
        fns = [self.prog.functions.get(dfr.tu.fns[o]["id"]) for o in n["ops"]]
        fns = [f for f in fns if f is not None and (only is None or f is only)]
        if not fns:
            return st, ("call", "lambda", tuple(args))
        for f in fns:
            s = st.copy() if len(fns) > 1 else st
            if len(fns) > 1:
                alt = f.ptype(0) if f.params else "?"
                if guard is not None:
                    s.guards = s.guards | {("alt", guard, alt)}
            if any(f is x for x, _ in self.stack) or len(self.stack) > self.depth:
                vals.append(("call", f.qn, tuple(args)))
                outs.append(s)
                continue
            nf = Frame(f, f.tu, dfr.this, parent=dfr)
            for vid, v in binds.items():
                nf.refs[vid] = v
            self.bind_params(f, nf, args, s)
            end, val, _ = self.body(f, nf, s)
            if end is not None:
                outs.append(end)
                vals.append(val)
        if not outs:
            return None, ("noreturn",)
        out = join(outs)
        return out, (vals[0] if len(set(vals)) == 1 else T.phi(*vals))

    def bind_params(self, f, nf, args, st):
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else ("lamarg", i, f.qn)
            ty = f.ptype(i)
            if ty.rstrip().endswith("&"):
                nf.refs[p["id"]] = a
            else:
                nf.declared.add(p["id"])
                loc = ("var", p["n"], (nf.serial, p["id"]))
                st.heap[loc] = read(st, a) if isinstance(a, tuple) else a

    def eval_args(self, n, m, st, fr):
        raw = []
        vals = []
        pts = [fr.tu.types[i] for i in m["pt"]] if m else []
        for i, a in enumerate(n.get("a", ())):
            if a is None:
                raw.append(VOID)
                vals.append(VOID)
                continue
            ty = pts[i] if i < len(pts) else ""
            if ty.rstrip().endswith("&") or not pts:
                loc = self.lv(a, st, fr)
                raw.append(loc)
                vals.append(read(st, loc) if isinstance(loc, tuple) else loc)
            else:
                v = self.ev(a, st, fr)
                raw.append(v)
                vals.append(v)
        return raw, vals, pts

    def call(self, n, st, fr, want_loc=False):
        m = fr.tu.fns[n["f"]] if "f" in n else None
        line = n["l"]
        if m is None:
            # call through a value
            fe = n.get("fe")
            fv = self.ev(fe, st, fr) if fe else VOID
            raw, vals, _ = self.eval_args(n, None, st, fr)
            if isinstance(fv, tuple) and fv and fv[0] == "lam":
                out, v = self.call_lambda(fv, raw, st, fr, line)
                if out is None:
                    return ("noreturn",)
                self.replace(st, out)
                return v
            r = self.call_pointer(fe, fv, raw, vals, st, fr, line)
            if r is not None:
                return r
            self.emit("call", st, fr, line, qn="<indirect>", obj=fv, args=tuple(vals), raw=tuple(raw))
            return ("call", "<indirect>", (fv,) + tuple(vals))
        qn = m["qn"]
        name = qn.rsplit("::", 1)[-1]
        obj = None
        if n.get("o") is not None:
            if n.get("arrow"):
                obj = mk_deref(self.ev(n["o"], st, fr))
            else:
                obj = self.lv(n["o"], st, fr)
        raw, vals, pts = self.eval_args(n, m, st, fr)
        r = self.dispatch(n, m, qn, name, obj, raw, vals, pts, st, fr, line)
        rt = fr.tu.types[m["rt"]].rstrip() if m.get("rt", -1) >= 0 else ""
        if not want_loc and isinstance(r, tuple) and r and rt.endswith("&"):
            return read(st, r)
        return r

    def call_pointer(self, fe, fv, raw, vals, st, fr, line):
        """A call through a pointer whose target is known: (this->*f)(...) or f(...)."""
        obj = None
        if fe and fe.get("k") == "bin" and fe.get("op") in ("->*", ".*"):
            fv = self.ev(fe["b"], st, fr)
            obj = mk_deref(self.ev(fe["a"], st, fr)) if fe["op"] == "->*" else self.lv(fe["a"], st, fr)
        if not (isinstance(fv, tuple) and fv[:1] == ("fn",) and len(fv) == 3):
            return None
        f = self.prog.functions.get(fv[2])
        if f is None or f.body is None or f.meta.get("virt") or self.opaque(f.meta, f):
            return None
        self.emit("enter", st, fr, line, qn=f.qn, obj=obj, args=tuple(vals), raw=tuple(raw), meta=f.meta)
        r = self.inline(f, obj, raw, st, fr, line)
        if r is None:
            return ("noreturn",)
        self.replace(st, r[0])
        return r[1]

    def dispatch(self, n, m, qn, name, obj, raw, vals, pts, st, fr, line):
        foreign = not m.get("inroot")
        if foreign and any(isinstance(v, tuple) and v and v[0] == "dead" for v in vals):
            self.emit("step", st, fr, line, val=[v for v in vals if v[:1] == ("dead",)][0])
        if foreign:
            r = self.std_model(n, m, qn, name, obj, raw, vals, pts, st, fr, line)
            if r is not None:
                return r
        f = self.resolve(n, m, obj, fr)
        if isinstance(f, list):
            # several possible targets of a virtual call
            outs, rs = [], []
            for g in f:
                s = st.copy()
                r = self.inline(g, obj, raw, s, fr, line)
                if r is not None:
                    outs.append(r[0])
                    rs.append(r[1])
            if not outs:
                return ("noreturn",)
            self.replace(st, join(outs))
            return T.phi(*rs)
        if f is not None:
            if not self.opaque(m, f):
                if f.dflt and m.get("cm") in ("copy=", "move="):
                    self.write(st, obj, vals[0], fr, line)
                    return obj
                self.emit("enter", st, fr, line, qn=qn, obj=obj, args=tuple(vals), raw=tuple(raw), meta=m)
                lam = read(st, obj) if name == "operator()" and obj is not None else None
                if isinstance(lam, tuple) and lam[:1] == ("lam",) and lam[2] in self.closures:
                    out, v = self.call_lambda(lam, raw, st, fr, line, only=f)
                    if out is None:
                        return ("noreturn",)
                    self.replace(st, out)
                    return v
                r = self.inline(f, obj, raw, st, fr, line)
                if r is None:
                    return ("noreturn",)
                self.replace(st, r[0])
                return r[1]
        if m.get("cm") in ("copy=", "move=") and m.get("dflt"):
            self.write(st, obj, vals[0], fr, line)
            return obj
        # opaque
        e = self.emit("call", st, fr, line, qn=qn, obj=obj, args=tuple(vals), raw=tuple(raw), meta=m, types=pts)
        self.call_effects(m, obj, raw, pts, st, line)
        if qn == "std::copy" and len(vals) == 3 and isinstance(vals[2], tuple) and vals[2][:1] == ("begin",) and \
                isinstance(vals[0], tuple) and vals[0][:1] == ("begin",) and vals[1] == ("end", vals[0][1]):
            self.write(st, vals[2][1], ("copyof", vals[0][1]), fr, line, op="copy")
        if name == "erase" and foreign and len(vals) == 1 and isinstance(vals[0], tuple):
            # The erased iterator is invalid from here on.
            for k, v in list(st.heap.items()):
                if k[0] == "var" and v == vals[0] and is_iter_val(v):
                    st.heap[k] = ("dead", v)
        if m.get("noret"):
            self.throws.append((st.copy(), ("call", qn, ()), line, fr.fn))
            return ("noreturn",)
        t = ((obj,) if obj is not None else ()) + tuple(vals)
        if name == "get" and obj is not None and not vals and m.get("ta"):
            t = t + (("tag", first_targ(m["ta"])),)
        res = ("call", qn, t)
        e.res = res
        return res

    def call_effects(self, m, obj, raw, pts, st, line):
        foreign = not m.get("inroot")
        if obj is not None and not m.get("const") and not m.get("static") and m.get("fk") != "ctor":
            self.mutate(st, obj, line, deep=not foreign)
        if foreign and (m.get("name") or m["qn"].rsplit("::", 1)[-1]).startswith(FORWARDERS):
            return
        for a, ty in zip(raw, pts):
            ty = ty.rstrip()
            if ty.endswith("&") and not ty.endswith("&&") and "const" not in first_const(ty):
                self.mutate(st, a, line, deep=not foreign)

    def resolve(self, n, m, obj, fr):
        if n.get("virt") and m.get("virt"):
            if self.devirt:
                r = self.devirt(m, obj, self)
                if r is not None:
                    return r
            return None
        f = self.prog.functions.get(m["id"])
        if f is None or f.body is None:
            return None
        return f

    def inline(self, f, obj, raw, st, fr, line):
        if len(self.stack) > self.depth or any(f is x for x, _ in self.stack):
            self.emit("call", st, fr, line, qn=f.qn, obj=obj, args=tuple(raw), raw=tuple(raw), meta=f.meta)
            if obj is not None and not f.meta.get("const"):
                self.mutate(st, obj, line, deep=True)
            return st, ("call", f.qn, ((obj,) if obj is not None else ()) + tuple(raw))
        nf = Frame(f, f.tu, obj if obj is not None else THIS)
        self.bind_params(f, nf, raw, st)
        saved = self.loopctl
        self.loopctl = []
        end, val, _ = self.body(f, nf, st)
        self.loopctl = saved
        if end is None:
            return None
        return end, val

    # -------- construction
    def construct_into(self, n, loc, st, fr, force=False):
        """If n constructs a repository class with a user-written constructor, run it on loc."""
        if n is None or n["k"] != "ctor":
            return False
        m = fr.tu.fns[n["f"]]
        f = self.prog.functions.get(m["id"])
        if f is None or not m.get("inroot"):
            return False
        if n.get("cm") and (f.dflt or f.implicit):
            return False
        if self.opaque(m, f):
            return False
        if len(self.stack) > self.depth or any(f is x for x, _ in self.stack):
            return False
        raw, vals, pts = self.eval_args(n, m, st, fr)
        self.emit("enter", st, fr, n["l"], qn=m["qn"], obj=loc, args=tuple(vals), raw=tuple(raw), meta=m)
        if loc[0] in ("var", "obj"):
            for k in [k for k in st.heap if prefix_of(loc, k)]:
                del st.heap[k]
            st.heap[loc] = ("obj", m.get("clst") or m.get("cls"), tuple(vals))
        r = self.inline(f, loc, raw, st, fr, n["l"])
        if r is None:
            return True
        self.replace(st, r[0])
        return True

    def construct_by_name(self, ty, loc, raw, vals, st, fr, line):
        """Run the repository constructor std::make_shared/make_unique calls."""
        cands = [f for f in self.prog.methods(ty.split("<", 1)[0])
                 if f.meta.get("fk") == "ctor" and f.body is not None and not f.meta.get("cm") and
                 len(f.params) == len(vals) and not f.implicit and not f.dflt and
                 ("<" not in ty or (f.clst or ty) == ty)]
        if len(cands) != 1:
            self.emit("ctor", st, fr, line, qn=ty, args=tuple(vals), raw=tuple(raw))
            return
        f = cands[0]
        if self.opaque(f.meta, f) or len(self.stack) > self.depth or any(f is x for x, _ in self.stack):
            self.emit("ctor", st, fr, line, qn=f.qn, args=tuple(vals), raw=tuple(raw), meta=f.meta)
            return
        self.emit("enter", st, fr, line, qn=f.qn, obj=loc, args=tuple(vals), raw=tuple(raw), meta=f.meta)
        for k in [k for k in st.heap if prefix_of(loc, k)]:
            del st.heap[k]
        r = self.inline(f, loc, list(vals), st, fr, line)
        if r is not None:
            self.replace(st, r[0])

    def construct(self, n, st, fr):
        m = fr.tu.fns[n["f"]]
        cls = m.get("clst") or m.get("cls")
        qcls = m.get("cls") or ""
        ty = fr.tu.types[n["t"]]
        raw, vals, pts = self.eval_args(n, m, st, fr)
        if n.get("cm") and len(vals) >= 1:
            f = self.prog.functions.get(m["id"])
            if f is None or f.dflt or f.implicit or self.opaque(m, f):
                if n.get("cm") == "move" and isinstance(raw[0], tuple):
                    self.emit("moved", st, fr, n["l"], loc=raw[0], val=vals[0])
                return vals[0]
        if len(vals) == 1 and is_iter(qcls) and is_iter_val(vals[0]):
            return vals[0]
        if len(vals) == 1 and qcls.startswith(("std::function", "std::variant", "std::any", "std::reference_wrapper",
                                               "std::shared_ptr", "std::unique_ptr", "std::__shared_ptr",
                                               "boost::uuids")):
            if qcls.startswith("std::variant"):
                self.emit("wrap", st, fr, n["l"], val=vals[0], types=pts)
            if qcls.startswith("std::reference_wrapper") and isinstance(raw[0], tuple) and raw[0] and \
                    raw[0][0] not in ("ref", "moved"):
                return ("ref", raw[0])
            return vals[0]
        if qcls.startswith("std::optional"):
            if not vals or vals[0] == ("glob", "std::nullopt") or \
                    (isinstance(vals[0], tuple) and vals[0][:1] == ("agg",) and "nullopt" in str(vals[0][1])):
                return ("none",)
            if len(vals) == 1:
                return ("some", vals[0])
        if qcls in ("std::pair", "std::tuple"):
            if len(vals) == 1 and isinstance(vals[0], tuple) and vals[0] and vals[0][0] == "tuple":
                return vals[0]
            return ("tuple", tuple(vals))
        if qcls.startswith(("__gnu_cxx::__normal_iterator", "std::move_iterator")) and len(vals) == 1:
            return vals[0]
        f = self.prog.functions.get(m["id"])
        if f is not None and m.get("inroot") and not self.opaque(m, f) and \
                not (len(self.stack) > self.depth or any(f is x for x, _ in self.stack)):
            loc = ("obj", cls, tuple(vals))
            self.emit("enter", st, fr, n["l"], qn=m["qn"], obj=loc, args=tuple(vals), raw=tuple(raw), meta=m)
            for k in [k for k in st.heap if prefix_of(loc, k)]:
                del st.heap[k]
            r = self.inline(f, loc, raw, st, fr, n["l"])
            if r is not None:
                self.replace(st, r[0])
            return read(st, loc)
        if m.get("dflt") and not vals and m.get("inroot"):
            return ("obj", cls, ())
        self.emit("ctor", st, fr, n["l"], qn=m["qn"], args=tuple(vals), raw=tuple(raw), meta=m, types=ty)
        if len(vals) >= 2 and qcls in ("std::vector", "std::deque", "std::list", "std::basic_string"):
            a, b = [x[2][0] if isinstance(x, tuple) and x[:2] == ("call", "std::make_move_iterator") else x for x in vals[:2]]
            if isinstance(a, tuple) and a[:1] == ("begin",) and b == ("end", a[1]):
                return a[1]  # a copy of the whole range
        return ("new", ty, tuple(vals))

    # -------- models of standard library operations
    def std_model(self, n, m, qn, name, obj, raw, vals, pts, st, fr, line):
        cls = m.get("cls") or ""
        op = n.get("op")
        nargs = len(vals)
        # --- locks
        if cls.startswith(LOCKS) or cls.startswith(MUTEXES):
            if name in ("lock", "unlock", "try_lock"):
                tgt = self.lockof.get(obj, read(st, obj)) if cls.startswith(LOCKS) else ("lock", (obj,))
                if isinstance(tgt, tuple) and tgt and tgt[0] == "lock":
                    if name == "lock":
                        for t in tgt[1]:
                            self.acquire(st, t, fr, line)
                    elif name == "unlock":
                        st.locks = st.locks - frozenset(tgt[1])
                return VOID
        if qn in IDENT and nargs:
            if qn == "std::move" and nargs == 1:
                self.emit("moved", st, fr, line, loc=raw[0], val=vals[0])
            if nargs == 1:
                return raw[0]
        if qn == "std::addressof":
            return ("addr", raw[0])
        if qn in ("std::make_unique", "std::make_shared"):
            ty = first_targ(m.get("ta", ""))
            loc = ("obj", ty, tuple(vals), line)
            self.construct_by_name(ty, loc, raw, vals, st, fr, line)
            return ("addr", loc)
        if qn in ("std::make_pair", "std::make_tuple", "std::forward_as_tuple"):
            return ("tuple", tuple(vals))
        if qn in ("std::tie",):
            return ("tuple", tuple(raw))
        if qn in ("std::get", "std::get_if", "std::any_cast", "std::holds_alternative"):
            ta = first_targ(m.get("ta", ""))
            if qn == "std::get" and nargs:
                b = raw[0]
                rb = read(st, b) if isinstance(b, tuple) else b
                if isinstance(rb, tuple) and rb and rb[0] == "tuple":
                    return mk_get(ta, rb)
                return mk_get(ta, b)
            return (qn.rsplit("::", 1)[-1], ta, raw[0])
        if op and cls.startswith(SMART) or (cls.startswith(("std::__shared_ptr",)) and op):
            if op in ("*",):
                return mk_deref(read(st, obj))
            if op == "->":
                return read(st, obj)
        if cls.startswith(SMART + ("std::__shared_ptr",)):
            if name in ("get", "lock") or name in ("operator conv",) and cls.startswith("std::reference_wrapper"):
                v = read(st, obj)
                return v[1] if isinstance(v, tuple) and v[:1] == ("ref",) else v
            if name == "value":
                return mk_deref(read(st, obj))
            if name in ("has_value", "operator conv", "operator bool"):
                if cls.startswith("std::reference_wrapper"):
                    return read(st, obj)
                v = read(st, obj)
                if isinstance(v, tuple) and v and v[0] == "some":
                    return T.TRUE
                if v == ("none",):
                    return T.FALSE
                return ("truth", v)
            if name == "value_or":
                v = read(st, obj)
                return mk_ite(("truth", v), mk_deref(v), vals[0])
            if op == "=" and nargs == 1:
                self.write(st, obj, vals[0], fr, line)
                return obj
            if op in ("==", "!=") and nargs == 1:
                c = T.eq(read(st, obj), vals[0])
                return c if op == "==" else T.neg(c)
        # --- iterators and comparison operators
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a = read(st, obj) if obj is not None else vals[0]
            b = vals[-1]
            if isinstance(a, tuple) and isinstance(b, tuple):
                self.emit("cmp", st, fr, line, qn=qn, args=(a, b), op=op, meta=m)
                return mk_bin(op, a, b)
        if op in ("*", "->") and obj is not None and nargs == 0 and is_iter(cls):
            v = read(st, obj)
            self.emit("deref", st, fr, line, val=v, loc=obj)
            return mk_deref(v) if op == "*" else (("addr", mk_deref(v)))
        if op in ("++", "--") and obj is not None and (is_iter(cls)):
            v = read(st, obj)
            self.emit("step", st, fr, line, val=v, loc=obj)
            post = nargs == 1
            self.write(st, obj, self.incr(v, op), fr, line, op=op)
            return v if post else obj
        if op in ("+", "-", "+=", "-=") and is_iter(cls) and obj is not None and nargs == 1:
            v = read(st, obj)
            if op in ("+", "-"):
                return mk_bin(op, v, vals[0])
            self.write(st, obj, mk_bin(op[0], v, vals[0]), fr, line, op=op)
            return obj
        if op == "-" and nargs == 2 and is_iter_val(vals[0]):
            if vals[0][0] == "end" and vals[1][0] == "begin" and vals[0][1] == vals[1][1]:
                return ("size", vals[0][1])
            return mk_bin("-", vals[0], vals[1])
        if qn == "std::distance" and nargs == 2 and is_iter_val(vals[0]):
            if vals[1][0] == "end" and vals[0][0] == "begin" and vals[0][1] == vals[1][1]:
                return ("size", vals[0][1])
            return mk_bin("-", vals[1], vals[0])
        if qn in ("std::next", "std::prev") and nargs >= 1:
            if nargs == 2 and T.lit_val(vals[1]) != 1:
                return mk_bin("+" if qn == "std::next" else "-", vals[0], vals[1])
            return ("next" if qn == "std::next" else "prev", vals[0])
        if qn == "std::advance" and nargs == 2:
            self.write(st, raw[0], mk_bin("+", read(st, raw[0]), vals[1]), fr, line, op="+=")
            return VOID
        # --- containers
        c = obj
        if c is None and qn in ("std::begin", "std::end", "std::size", "std::empty", "std::cbegin", "std::cend",
                                "std::data") and nargs == 1:
            c = raw[0]
        if c is not None and (m.get("const") or name in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "find",
                                                         "front", "back", "at", "operator[]", "data", "size",
                                                         "empty", "equal_range", "lower_bound", "upper_bound")) \
                and not cls.startswith(SMART) and not is_iter(cls):
            cc = norm_container(read_container(st, c))
            nargs_o = nargs if obj is not None else nargs - 1
            if name in ("size", "length", "empty", "begin", "cbegin", "end", "cend", "count", "contains"):
                self.emit("query", st, fr, line, qn=qn, obj=cc, args=tuple(vals), meta=m)
            if name in ("size", "length") and nargs_o == 0:
                return ("size", cc)
            if name == "empty" and nargs_o == 0:
                return ("empty", cc)
            if name in ("begin", "cbegin") and nargs_o == 0:
                return ("begin", cc)
            if name in ("end", "cend") and nargs_o == 0:
                return ("end", cc)
            if name in ("rbegin", "rend", "crbegin", "crend") and nargs_o == 0:
                return (name.replace("crb", "rb").replace("cre", "re"), cc)
            if name == "find" and nargs == 1 and not cls.startswith("std::basic_string"):
                self.emit("find", st, fr, line, qn=qn, obj=cc, args=tuple(vals), meta=m)
                return ("find", cc, vals[0])
            if name == "count" and nargs == 1:
                return ("count", cc, vals[0])
            if name == "contains" and nargs == 1:
                return ("has", cc, vals[0])
            if name == "front" and nargs_o == 0:
                self.emit("index", st, fr, line, qn=qn, obj=c, args=(T.ZERO,), meta=m)
                return mk_at(c, T.ZERO)
            if name == "back" and nargs_o == 0:
                self.emit("index", st, fr, line, qn=qn, obj=c, args=(T.ZERO,), meta=m)
                return ("back", c)
            if name in ("operator[]", "at") and nargs == 1:
                self.emit("index", st, fr, line, qn=qn, obj=c, args=tuple(vals), meta=m)
                ci = norm_container(c)
                if vals[0][:1] == ("idx",) and mk_at(cc, vals[0])[0] == "elem":
                    return ("elem", cc)
                return mk_at(ci, vals[0])
            if name == "equal_range" and nargs == 1 and obj is not None:
                self.emit("call", st, fr, line, qn=qn, obj=obj, args=tuple(vals), raw=tuple(raw), meta=m)
                return ("tuple", (("begin", ("equal_range", cc, vals[0])), ("end", ("equal_range", cc, vals[0]))))
        # --- atomics: every spelling of a load or of a store is the same thing
        if cls.startswith(("std::atomic", "std::__atomic_base")) and obj is not None:
            old = ("call", "std::atomic::operator conv", (obj,))
            if name in ("load", "operator conv"):
                self.emit("call", st, fr, line, qn="std::atomic::operator conv", obj=obj, args=(), raw=(), meta=m)
                return old
            if name in ("store", "exchange") and vals:
                self.write(st, obj, vals[0], fr, line)
                return old if name == "exchange" else VOID
        if cls.startswith("std::function") and name in ("operator conv", "operator bool") and obj is not None:
            v = read(st, obj)
            if isinstance(v, tuple) and v[:1] in (("new",), ("obj",), ("zero",)) and len(v) > 2 and v[2] == ():
                return T.FALSE
            if runnable(v):
                return T.TRUE
        # --- whole-object assignment of standard types
        if op == "=" and obj is not None and nargs == 1:
            self.write(st, obj, vals[0], fr, line)
            return obj
        if op in ("+=",) and obj is not None and nargs == 1 and cls.startswith("std::basic_string"):
            self.write(st, obj, mk_bin("+", read(st, obj), vals[0]), fr, line, op="+=")
            return obj
        if qn in ("std::swap",) and nargs == 2:
            a, b = vals
            self.write(st, raw[0], b, fr, line, op="swap")
            self.write(st, raw[1], a, fr, line, op="swap")
            return VOID
        if name == "swap" and obj is not None and nargs == 1:
            a, b = read(st, obj), vals[0]
            self.write(st, obj, b, fr, line, op="swap")
            self.write(st, raw[0], a, fr, line, op="swap")
            return VOID
        if qn in ("std::exchange",) and nargs == 2:
            old = vals[0]
            self.write(st, raw[0], vals[1], fr, line)
            return old
        if qn in ("std::min", "std::max") and nargs == 2:
            a, b = sorted(vals, key=repr)
            return (qn[5:], a, b)
        if qn in ("std::ref", "std::cref") and nargs == 1:
            v = vals[0]
            return v if isinstance(v, tuple) and v[:1] == ("ref",) else ("ref", raw[0])
        if qn in ("boost::asio::post", "boost::asio::dispatch", "boost::asio::defer") and nargs >= 2 and \
                runnable(vals[1]):
            return self.post_task(m, qn, raw, vals, pts, st, fr, line)
        # --- std::function call
        if cls == "std::function" and op == "()":
            v = read(st, obj)
            if isinstance(v, tuple) and v and v[0] == "lam":
                out, r = self.call_lambda(v, raw, st, fr, line)
                if out is None:
                    return ("noreturn",)
                self.replace(st, out)
                return r
            self.emit("call", st, fr, line, qn=qn, obj=v, args=tuple(vals), raw=tuple(raw), meta=m, types=pts)
            return ("call", "std::function::operator()", (v,) + tuple(vals))
        # --- higher-order calls
        lams = [i for i, v in enumerate(vals) if isinstance(v, tuple) and v and v[0] == "lam"]
        if not lams and qn.startswith("std::") and len(vals) > 2 and is_iter_val(vals[0]) and is_iter_val(vals[1]) and \
                self.known_function(vals[-1]):
            lams = [len(vals) - 1]
        if lams and qn.startswith(("std::", "boost::mp11")):
            r = self.higher_order(n, m, qn, name, obj, raw, vals, lams, st, fr, line)
            if r is not None:
                return r
        fnargs = [i for i, v in enumerate(vals) if isinstance(v, tuple) and v and v[0] == "fn"]
        del fnargs
        return None

    def post_task(self, m, qn, raw, vals, pts, st, fr, line):
        """A task handed to an executor: its body is interpreted where it is posted, its events carry the task."""
        e = self.emit("call", st, fr, line, qn=qn, args=tuple(vals), raw=tuple(raw), meta=m, types=pts)
        b = vals[1]
        fv, args = (b[2][0], list(b[2][1:])) if b[0] == "call" else (b, [])
        t = Task(len(self.tasks), fv, args, e)
        self.tasks.append(t)
        outer, self.task = self.task, t
        locks, st2 = st.locks, st.copy()
        st2.locks = type(locks)()
        passed = [a[1] if isinstance(a, tuple) and a[:1] == ("ref",) else a for a in args]
        t.args = passed
        t.refs = [isinstance(a, tuple) and a[:1] == ("ref",) for a in args]
        t.caps = []
        if fv[0] == "lam":
            nn, dfr, binds = self.closures[fv[2]]
            t.caps = [(("this",) if c.get("this") else binds.get(c["id"]) or dfr.lookup(c["id"], c.get("n")),
                       bool(c.get("ref")) or bool(c.get("this"))) for c in nn["caps"]]
        out = None
        if fv[0] == "lam":
            out, _ = self.call_lambda(fv, passed, st2, fr, line)
        else:
            f = self.prog.functions.get(fv[2])
            if f is not None and f.body is not None and not self.opaque(f.meta, f):
                self.emit("enter", st2, fr, line, qn=f.qn, args=tuple(read(st2, a) for a in passed), raw=tuple(passed),
                          meta=f.meta)
                r = self.inline(f, None, passed, st2, fr, line)
                out = r[0] if r is not None else None
            else:
                self.emit("call", st2, fr, line, qn=fv[1], args=tuple(read(st2, a) for a in passed), raw=tuple(passed),
                          meta=f.meta if f is not None else None,
                          types=[f.ptype(i) for i in range(len(f.params))] if f is not None else None)
                out = st2
        self.task = outer
        if out is not None:
            out.locks = locks
            self.replace(st, out)
        return VOID

    def higher_order(self, n, m, qn, name, obj, raw, vals, lams, st, fr, line):
        if name in ("thread", "async", "bind", "emplace_back", "push_back", "insert", "emplace", "post",
                    "make_pair", "make_tuple", "function"):
            return None
        over = whole = None
        if is_iter_val(vals[0]) and vals[0][0] in ("begin", "rbegin"):
            over = whole = vals[0][1]
            if name not in ("partial_sort", "nth_element", "rotate", "for_each_n", "generate_n", "copy_n") and \
                    isinstance(vals[1], tuple) and vals[1][:1] != vals[0][:1] and \
                    vals[1] != (vals[0][0].replace("begin", "end"), over):
                over = None     # only a part of the container
        self.emit("call", st, fr, line, qn=qn, obj=obj, args=tuple(vals), raw=tuple(raw), meta=m)
        if qn == "std::visit":
            lam = vals[lams[0]]
            targets = [("alt", x) for x in raw[1:]]
            targets = [x for x in raw[1:]]
            out, v = self.call_lambda(lam, targets, st, fr, line, guard=raw[1] if len(raw) > 1 else None)
            if out is None:
                return ("noreturn",)
            self.replace(st, out)
            return v
        if qn == "std::apply":
            lam = vals[lams[0]]
            n_par = 0
            nn, dfr, _ = self.closures[lam[2]]
            for o in nn["ops"]:
                n_par = max(n_par, len(dfr.tu.fns[o]["pn"]))
            out, v = self.call_lambda(lam, [mk_get(str(i), raw[1]) for i in range(n_par)], st, fr, line)
            if out is None:
                return ("noreturn",)
            self.replace(st, out)
            return v
        # algorithms over one range
        lam = vals[lams[-1]]
        if lam[0] == "fn":
            npar = len(self.prog.functions[lam[2]].params)
        else:
            nn, dfr, _ = self.closures[lam[2]]
            npar = max([len(dfr.tu.fns[o]["pn"]) for o in nn["ops"]] or [0])
        el = ("elem", over) if over is not None else ("algelem", name)
        if qn in ("std::accumulate", "std::reduce") and npar == 2:
            args = [("acc", line), el]
        elif qn in ("std::transform",) and npar == 2:
            args = [el, ("elem", vals[2][1]) if is_iter_val(vals[2]) and len(vals[2]) > 1 else ("algelem", 2)]
        elif qn in ("std::generate", "std::generate_n"):
            args = []
        elif qn in ("std::upper_bound", "std::lower_bound", "std::equal_range", "std::binary_search") and npar == 2:
            if over is None and isinstance(vals[1], tuple) and vals[1][:1] == ("end",):
                el = ("elem", vals[1][1])       # the searched part of a range consists of its elements
            args = [vals[2], el] if name == "upper_bound" else [el, vals[2]]
        elif name in TWO_ELEMENTS and npar == 2 and over is not None:
            args = [el, ("elem2", over)]
        else:
            args = [el] * npar
        lp = Loop("foreach", over, line, fr.fn.file)
        lp.alg = qn
        lp.frame = fr.serial
        self.loops.append(lp)
        s = st.copy()
        out, v = self.call_lambda(lam, args, s, fr, line)
        lp.early = []
        lp.leaves = []
        self.loops.pop()
        if out is not None:
            merged = join([st.copy(), out])
            self.replace(st, merged)
        if name in ("any_of", "all_of", "none_of"):
            t = ("exists", over, v) if name == "any_of" else (
                T.neg(("exists", over, T.neg(T.truth(v)))) if name == "all_of" else T.neg(("exists", over, v)))
            return t
        if name in ("find_if",):
            self.emit("find", st, fr, line, qn=qn, obj=over, args=(v,), meta=m)
            return ("findif", over, v)
        if name in ("remove_if", "partition", "stable_partition"):
            self.mutate(st, whole, line) if whole is not None else None
            return ("call", qn, tuple(vals[:-1]) + (v,))
        if name == "transform":
            dst = vals[2] if len(vals) > 3 else None
            self.emit("produce", st, fr, line, qn=qn, obj=over, loc=dst, val=v)
        return ("call", qn, tuple(x for i, x in enumerate(vals) if i not in lams) + (v,))


TWO_ELEMENTS = ("sort", "stable_sort", "partial_sort", "nth_element", "max_element", "min_element", "is_sorted", "unique")


# ---------------------------------------------------------------------- helpers
def base_keys(base, cur, k):
    return (k,)


def advances(v, v0):
    """The value is the successor of iterator v0 on every path (++it, it = erase(it), erase(it++))."""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ("ite",):
        return advances(v[2], v0) and advances(v[3], v0)
    if v[0] == "phi":
        return all(advances(x, v0) for x in v[1])
    if v[0] == "next":
        return v[1] == v0 or v[1] == ("dead", v0) or (v[1][:1] == ("ite",) and all(
            x in (v0, ("dead", v0)) for x in T.alts(v[1])))
    if v[0] == "call" and v[1].endswith("::erase"):
        return v0 in v[2]
    return False


def conj(c):
    if isinstance(c, tuple) and c and c[0] == "and":
        out = []
        for x in c[1:]:
            out += conj(x)
        return out
    return [c]


def mk_and(a, b):
    if a == T.FALSE or b == T.FALSE:
        return T.FALSE
    if a == T.TRUE:
        return b
    if b == T.TRUE:
        return a
    parts = []
    for x in conj(a) + conj(b):
        if x not in parts:
            parts.append(x)
    return ("and",) + tuple(sorted(parts, key=repr))


def is_const(t):
    return isinstance(t, tuple) and t and t[0] in ("lit", "enum", "str")


def first_const(ty):
    """The part of a reference type that says whether the referee is const."""
    t = ty.rstrip("& ").rstrip()
    if t.startswith("const ") or t.endswith(" const"):
        return "const"
    return ""


def first_targ(ta):
    """First template argument of '<a, b>' text."""
    if not ta.startswith("<"):
        return ta
    depth = 0
    out = ""
    for ch in ta[1:]:
        if ch == "<":
            depth += 1
        if ch == ">":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            break
        out += ch
    return out.strip()


def is_iter(cls):
    return "iterator" in cls.lower() or cls.startswith(("boost::operators_impl::dereferenceable",
                                                        "boost::operators_impl::incrementable", "std::_Rb_tree_", "std::_Bit_", "std::__detail::_Node",
                                                        "std::_Deque", "std::_List"))


def is_iter_val(v):
    return isinstance(v, tuple) and len(v) > 1 and v[0] in ("begin", "end", "iter", "rbegin", "rend", "find", "findif",
                                                            "next", "prev", "iterfrom", "lv")


def read_container(st, c):
    """Identity of the container a location denotes (its location; looks through by-value copies only when fresh)."""
    if isinstance(c, tuple) and c and c[0] == "var":
        v = st.heap.get(c)
        if isinstance(v, tuple) and v and v != c and v[0] in ("fld", "elem", "at", "deref", "parm", "call", "var",
                                                              "get", "equal_range"):
            return v
    if isinstance(c, tuple) and c and c[0] == "fld":
        v = read(st, c)
        if isinstance(v, tuple) and v and v[0] in ("fld", "elem", "at", "deref", "parm", "call", "var", "get") and \
                not (v[0] == "call" and not v[2]):
            return v
    return c


def norm_container(c):
    return c


def mk_bin(op, a, b):
    if op == "==":
        return T.eq(a, b)
    if op == "!=":
        return T.neg(T.eq(a, b))
    if op == "<":
        return T.lt(a, b)
    if op == ">":
        return T.lt(b, a)
    if op == "<=":
        return T.neg(T.lt(b, a))
    if op == ">=":
        return T.neg(T.lt(a, b))
    va, vb = T.lit_val(a), T.lit_val(b)
    if va is not None and vb is not None and op in ("*",):
        return ("lit", str(va * vb))
    if op in ("*",) and repr(a) > repr(b):
        a, b = b, a
    return ("bin", op, a, b)
