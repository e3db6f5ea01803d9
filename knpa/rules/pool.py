"""Rules for the thread pool the multi-threaded backend relies on."""
from .. import terms as T
from ..facts import AnalysisBroken
from ..lib import P, S, check, ewhere, guards, mutations, this, where
from .lifecycle import complete, uncaught

NS = "knp::backends::cpu_executors::"
CTXT = NS + "ThreadPoolContext"
EXEC = NS + "ThreadPoolExecutor"


class Pool:
    def __init__(self, ctx):
        self.ctx = ctx

        def field(cls, *heads):
            for rec in ctx.prog.record(cls):
                for f in rec["f"]:
                    if f["ty"].startswith(heads) or f["ty"].endswith(heads):
                        return f["n"]
            raise AnalysisBroken("no field of type %s in %s" % (heads[0], cls))
        self.M = this(field(CTXT, "std::mutex", "std::timed_mutex", "std::recursive_mutex"))
        self.CV = this(field(CTXT, "std::condition_variable"))
        self.Q = this(field(CTXT, "std::queue", "std::deque", "std::list"))
        self.U = this(field(CTXT, CTXT + "::Usage", "::Usage"))
        self.back = this(field(EXEC, CTXT + " &"))
        self.C = this(field(EXEC, "std::shared_ptr<unsigned long>", "std::shared_ptr<std::atomic"))

    def run(self, fn, **kw):
        r = self.ctx.run(fn, **kw)
        if not hasattr(r, "pool"):
            r.pool = True
        return r

    def n(self, t):
        """The context's members look the same from the context and from an executor."""
        return T.subst(P(t), self.back, ("this",)) if t is not None else None

    def held(self, e):
        return self.M in {self.n(x) for x in e.locks or ()}

    def g(self, e):
        return frozenset(self.n(x) for x in e.guards)

    # operations
    def pushes(self, r):
        return [e for e in r.events if e.kind == "call" and self.n(e.obj) == self.Q and
                e.name in ("push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front")]

    def pops(self, r):
        return [e for e in r.events if e.kind == "call" and self.n(e.obj) == self.Q and e.name in ("pop", "pop_front")]

    def is_count(self, loc):
        loc = self.n(loc)
        return loc[:1] == ("deref",) and (loc[1] == self.C or T.mentions(loc, self.Q) or
                                          loc[1][:1] in (("var",), ("parm",)))

    def counts(self, r, d):
        out = []
        for e in r.events:
            if e.kind == "write" and self.is_count(e.loc):
                v, l = self.n(e.val), self.n(e.loc)
                if v == ("bin", "+" if d > 0 else "-", l, ("lit", "1")) or \
                        v[:1] == ("bin",) and v[1] == ("+" if d > 0 else "-") and v[3] == ("lit", "1") and \
                        T.mentions(v[2], l):
                    out.append(e)
        return out

    def notifies(self, r, *names):
        return [e for e in r.events if e.kind == "call" and self.n(e.obj) == self.CV and e.name in (names or ("notify_all",))]

    def waits(self, r):
        return [e for e in r.events if e.kind == "call" and self.n(e.obj) == self.CV and e.name.startswith("wait")]

    def taskcalls(self, r):
        return [e for e in r.events if e.kind == "call" and (e.qn == "<indirect>" or e.name == "operator()") and
                (T.mentions(self.n(e.obj), self.Q) if e.obj is not None else any(T.mentions(self.n(a), self.Q) for a in e.args))]

    def access(self, e):
        """Does the event read or change what the mutex protects?"""
        if e.kind == "write":
            loc = self.n(e.loc)
            return loc == self.U or self.is_count(loc) and self.counts_like(e)
        if e.kind in ("call", "index"):
            return self.n(e.obj) == self.Q
        if e.kind in ("cond", "ret"):
            v = self.n(e.val)
            return v is not None and (v != ("void",)) and (
                any(T.mentions(v, x) for x in (("empty", self.Q), ("size", self.Q), self.U, ("deref", self.C))))
        return False

    def counts_like(self, e):
        v = self.n(e.val)
        return isinstance(v, tuple) and v[:1] == ("bin",)


def zero_known(p, gs, count):
    """The conditions say that the count is zero."""
    for g in gs:
        if g == T.eq(count, T.ZERO) or g == T.neg(("lt", T.ZERO, count)) or g == T.neg(T.truth(count)):
            return True
    return False


def positive(c, count):
    return c in (("lt", T.ZERO, count), T.neg(T.eq(count, T.ZERO)), T.truth(count))


def consume(ctx, p, fn, r, key):
    """A thread that takes tasks from the queue: one task per removal, run unlocked, counted down once, waiters woken."""
    w = where(fn)
    pops, runs, downs = p.pops(r), p.taskcalls(r), p.counts(r, -1)
    if not ctx.ob(key + "/takes", len(pops) == 1 and len(runs) == 1, w,
                  "a thread takes one task from the queue and runs it",
                  "%d removals, %d runs of a task" % (len(pops), len(runs))):
        return
    pop, run = pops[0], runs[0]
    ctx.ob(key + "/nonempty", T.neg(("empty", p.Q)) in p.g(pop), ewhere(pop), "a task is taken from a non-empty queue only",
           "removed without a test")
    ctx.ob(key + "/same", p.g(pop) <= p.g(run) and pop.ix < run.ix, ewhere(run),
           "a task is removed from the queue before it runs, so that it runs once",
           "the task is run before or without its removal")
    ctx.ob(key + "/unlocked", not p.held(run), ewhere(run), "a task runs without holding the pool's lock",
           "the lock is held while the task runs")
    fronts = [e for e in r.events if e.kind == "index" and p.n(e.obj) == p.Q]
    relock = [e for e in r.events if e.kind == "lock" and any(f.ix < e.ix < pop.ix for f in fronts)]
    ctx.ob(key + "/atomic-take", not relock, ewhere(pop), "reading and removing a task is one locked action",
           "the lock is taken again in between")
    ctx.ob(key + "/run-always", not [g for g in p.g(run) - p.g(pop)], ewhere(run), "every task that is taken is run",
           "run only if " + ", ".join(S(g) for g in p.g(run) - p.g(pop)))
    normal = [e for e in downs if not any(g[0] == "caught" for g in e.guards)]
    caught = [e for e in downs if any(g[0] == "caught" for g in e.guards)]
    for nm, es in (("done", normal), ("thrown", caught)):
        what = "a task that %s is counted as finished, once" % ("returns" if nm == "done" else "throws")
        ok = len(es) == 1 and es[0].ix > run.ix and \
            not [g for g in p.g(es[0]) - p.g(run) if g[0] != "caught"]
        if nm == "thrown":
            ok = ok and any(("caught", t) in es[0].guards for t in run.tries or ())
        ctx.ob("%s/%s" % (key, nm), ok, ewhere(es[0]) if es else w, what,
               "%d count-downs on that path" % len(es) if len(es) != 1 else
               "counted before the task ran or only under a condition")
        for e in es:
            loc = p.n(e.loc)
            left = ("bin", "-", loc, ("lit", "1"))
            val = p.n(e.val)
            wakes = [x for x in p.notifies(r) if x.ix > e.ix and
                     all(g in p.g(e) or zero_known(p, [g], val) or zero_known(p, [g], left) for g in p.g(x)) and
                     (nm == "thrown") == any(g[0] == "caught" for g in x.guards)]
            ctx.ob("%s/%s-wake" % (key, nm), bool(wakes), ewhere(e),
                   "finishing the last task wakes every thread that waits for it", "no notify_all follows the count-down")
            us = [x for x in r.events if x.kind == "write" and p.n(x.loc) == p.U and x.ix > e.ix and
                  (nm == "thrown") == any(g[0] == "caught" for g in x.guards)]
            fin = [x for x in us if "FINISHED" in S(p.n(x.val)) and "STOPPING" in S(p.n(x.val)) + str([S(g) for g in p.g(x)])]
            late = [x for x in fin if not any(y.ix > x.ix for y in wakes)]
            ctx.ob("%s/%s-finish" % (key, nm), bool(fin) and not late, ewhere(e),
                   "a pool that is being stopped finishes with its last task and wakes its threads",
                   "the stopping state is not turned into the finished state before the wake-up")
    for x in p.waits(r):
        ctx.ob(key + "/wait-empty", ("empty", p.Q) in p.g(x), ewhere(x),
               "a thread sleeps only when the queue is empty", "waits under " + ", ".join(S(g) for g in p.g(x)))
        ctx.ob(key + "/wait-loop", any(lp.kind in ("while", "for", "do") for lp in x.loops) and
               pop.loops and pop.loops[0] is x.loops[0], ewhere(x),
               "a woken thread looks at the queue and at its condition again", "the wait is outside the loop")
    ctx.ob(key + "/sleeps", len(p.waits(r)) >= 1, w, "a thread without work waits to be woken", "no wait")


@check("B11", ["pool", "mt"])
def b11(ctx):
    p = Pool(ctx)
    lambdas = [f for f in ctx.prog.functions.values() if f.meta.get("lam") and (f.qn or "").startswith(CTXT + "::") and
               f.qn.endswith("operator()")]
    entries = []
    ctors = [f for f in ctx.prog.fn(CTXT + "::ThreadPoolContext") if f.params]
    workers = [(f, p.run(f)) for f in lambdas]
    workers = [(f, r) for f, r in workers if p.pops(r) or p.waits(r)]
    if not workers:
        # The workers run a method.
        workers = [(f, p.run(f)) for f in ctx.prog.functions.values() if f.cls == CTXT and not f.params]
        workers = [(f, r) for f, r in workers if p.pops(r) and p.waits(r)]
    ctx.ob("worker", len(workers) >= 1, where(ctors[0]), "the pool has threads that execute queued tasks",
           "no worker that takes tasks from the queue")
    for fn, r in workers:
        consume(ctx, p, fn, r, "worker")
        entries.append((fn, r, "worker"))
        for x in p.pops(r):
            lp = x.loops[0] if x.loops else None
            over = p.n(lp.over) if lp is not None and lp.over is not None else T.TRUE
            fin = [t for t in T.subterms(over) if isinstance(t, tuple) and t[:1] == ("eq",) and p.U in t[1:] and
                   "FINISHED" in S(t)]
            ok = lp is not None and not lp.early and over == T.neg(fin[0]) if fin else False
            if lp is not None and not ok:
                ls = [frozenset(p.n(g) for g in x) for x in lp.leaves]
                ok = bool(ls) and (over == T.TRUE or bool(fin)) and \
                    all(any(g[:1] == ("eq",) and p.U in g[1:] and "FINISHED" in S(g) for g in gs) for gs in ls)
            ctx.ob("worker/until-finished", ok, ewhere(x), "a worker goes on exactly until the pool is finished",
                   "loop condition " + S(over))
    # joining
    for name in ("join", "~ThreadPoolExecutor"):
        for fn in ctx.prog.fn(EXEC + "::" + name):
            r = p.run(fn)
            entries.append((fn, r, name))
            consume(ctx, p, fn, r, name)
            count = ("deref", p.C)
            for x in p.waits(r)[:1]:
                lp = x.loops[0] if x.loops else None
                over = p.n(lp.over) if lp is not None and lp.over is not None else T.TRUE
                ls = [frozenset(p.n(g) for g in y) for y in lp.leaves] if lp is not None else []
                ok = lp is not None and (positive(over, count) or over == T.TRUE and ls) and \
                    all(zero_known(p, gs, count) for gs in ls)
                ctx.ob(name + "/until-zero", ok, ewhere(x),
                       "joining returns only when no task of this executor is queued or running",
                       "leaves its loop while %s" % S(over) + (" or early" if ls else ""))
                ctx.ob(name + "/any-thread", not [g for g in p.g(x) if g != ("empty", p.Q) and not positive(g, count)],
                       ewhere(x), "a joining thread waits or helps until its tasks are finished", "further conditions")
    # posting
    posts = ctx.prog.fn(EXEC + "::post")
    for fn in posts[:1] if ctx.tier == "quick" else posts:
        r = p.run(fn)
        entries.append((fn, r, "post"))
        pushes, ups, wakes = p.pushes(r), p.counts(r, 1), p.notifies(r, "notify_one", "notify_all")
        k = "post"
        if not ctx.ob(k + "/once", len(pushes) == 1 and len(ups) == 1 and not pushes[0].guards and not ups[0].guards and
                      not pushes[0].loops, where(fn), "posting queues a task once and counts it once",
                      "%d insertions, %d count-ups" % (len(pushes), len(ups))):
            continue
        a, b = sorted((pushes[0], ups[0]), key=lambda e: e.ix)
        ctx.ob(k + "/together", not [e for e in r.events if e.kind == "lock" and a.ix < e.ix < b.ix], ewhere(b),
               "queueing a task and counting it is one locked action", "the lock is released in between")
        ctx.ob(k + "/counted", p.n(ups[0].loc) == ("deref", p.C), ewhere(ups[0]),
               "a task is counted for the executor it was posted to", "counts " + S(p.n(ups[0].loc)))
        ctx.ob(k + "/wake", any(x.ix > pushes[0].ix and not x.guards for x in wakes), ewhere(pushes[0]),
               "a posted task wakes a thread", "no notification follows")
        mk = [x for x in r.events if x.kind in ("call", "enter", "ctor") and any(p.n(y) == p.C for y in x.args or ()) and
              any(p.n(y)[:1] in (("var",), ("parm",)) and p.n(y)[1] == fn.params[0]["n"] for y in x.args or ()
                  if isinstance(p.n(y), tuple) and len(p.n(y)) > 1)]
        ctx.ob(k + "/task", bool(mk), where(fn), "the queued task carries the posted function and the executor's counter",
               "the task is not made from them")
    tasks = [f for f in ctx.prog.functions.values() if (f.cls or "").startswith(EXEC + "::Task") and
             f.meta.get("fk") == "ctor" and len(f.params) >= 2 and f.body is not None]
    ctx.floor("task constructors", len(tasks), 1)
    for fn in tasks:
        r = p.run(fn)
        ws = [P(e.val) for e in r.events if e.kind == "write" and P(e.loc)[:1] == ("fld",) and P(e.loc)[1] == ("this",) and
              e.fn is fn]
        named = {x[1] for v in ws for x in T.subterms(v) if isinstance(x, tuple) and x[:1] in (("var",), ("parm",)) and len(x) > 1}
        ctx.ob("task/make", all(q["n"] in named for q in fn.params), where(fn),
               "a task keeps the function and the counter it was made from",
               "kept: %s" % sorted(named))
    execs = [f for f in ctx.prog.functions.values() if f.meta.get("lam") and (f.qn or "").startswith(EXEC + "::Task") and
             f.qn.endswith("operator()") and f.body is not None]
    ctx.floor("task bodies", len(execs), 1)
    for fn in execs:
        r = p.run(fn)
        n = [e for e in r.events if e.kind in ("call", "enter") and e.name == "operator()" or e.kind == "call" and
             e.qn == "<indirect>"]
        ctx.ob("task/run", len(n) == 1 and not n[0].guards and not n[0].loops, where(fn),
               "running a task calls its function once", "%d calls" % len(n))
    # stopping
    for fn in ctx.prog.fn(CTXT + "::~ThreadPoolContext"):
        r = p.run(fn)
        entries.append((fn, r, "stop"))
        us = [e for e in r.events if e.kind == "write" and p.n(e.loc) == p.U]
        joins = [e for e in r.events if e.kind == "call" and e.name in ("join", "wait") and e.obj is not None and
                 "thread_pool" in (e.qn or "")]
        ok = bool(us) and bool(joins) and all(u.ix < joins[0].ix for u in us) and not joins[0].guards
        ctx.ob("stop/joins", ok and not p.held(joins[0]) if joins else False, where(fn),
               "destroying the pool stops its threads and waits for them, without holding the lock",
               "no wait for the threads after the stop")
        vals = set()
        for u in us:
            for v in outcomes(p.n(u.val), p.g(u)):
                vals.add(v)
        bad = [S(v) for v, g in vals if not any(x in S(v) for x in ("FINISHED", "STOPPING"))]
        early = [1 for v, g in vals if "FINISHED" in S(v) and not any(
            x[:1] == ("eq",) and p.U in x[1:] and any(y in S(x) for y in ("READY", "FINISHED")) for x in g)]
        ctx.ob("stop/state", bool(us) and not bad and not early, where(fn),
               "a pool with unfinished tasks is stopped only after its last task, an idle one at once",
               "sets %s%s" % (sorted({S(v) for v, g in vals}), "; finished while tasks may be left" if early else ""))
        wakes = [e for e in p.notifies(r) if us and e.ix > us[-1].ix and p.g(e) <= p.g(us[-1])]
        ctx.ob("stop/wake", bool(wakes) and bool(joins) and wakes[0].ix < joins[0].ix, where(fn),
               "stopping the pool wakes every thread", "no notify_all before the threads are joined")
    for fn in ctors:
        r = p.run(fn, opaque=lambda m, f: bool(m.get("lam")), okey="lam")
        ps = [e for e in r.events if e.kind == "call" and e.qn in ("boost::asio::post", "boost::asio::dispatch")]
        num = ("var", fn.params[0]["n"])
        ok = any(lp.kind == "range" and not lp.early and P(lp.over)[0] == T.ZERO and P(lp.over)[2] in (1, ("lit", "1")) and
                 S(P(lp.over)[1]) == fn.params[0]["n"] for e in ps for lp in e.loops) if ps else False
        ctx.ob("threads", ok and len(ps) == 1 and not [g for g in ps[0].guards], where(fn),
               "the pool starts as many workers as it was asked for", "the workers are not started in a loop over the number")
    # every access under the lock
    for fn, r, key in entries:
        n = 0
        for e in r.events:
            if p.access(e):
                n += 1
                ctx.ob("%s/locked" % key, p.held(e), ewhere(e),
                       "the queue, the task counts and the pool's state are used under the pool's lock only",
                       "%s without the lock" % (S(p.n(e.loc)) if e.kind == "write" else S(p.n(e.val)) if e.val is not None else e.qn))
        ctx.floor(key + " accesses", n, 1)


def outcomes(v, gs):
    if v[:1] == ("ite",):
        return outcomes(v[2], gs | {v[1]}) + outcomes(v[3], gs | {T.neg(v[1])})
    return [(v, gs)]
