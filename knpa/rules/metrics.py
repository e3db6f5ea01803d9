"""Evaluation of classification results (F07)."""
from .. import interp
from .. import terms as T
from ..lib import P, S, appends, bulks, check, ewhere, must, mutations, this, where
from .algebra import equal, form
from .handlers import flat
from .network import norm, parameter
from .wiring import complete, loop_conds, lv, replace

NS = "knp::framework::inference_evaluation::"
PROC = NS + "classification::InferenceResultsProcessor::"
RES = NS + "classification::InferenceResult::"
FORMULAS = ("precision", "recall", "prevalence", "accuracy", "f_score")
RESULTS = this("inference_results_")


def B(op, a, b):
    return ("bin", op, a, b)


def add(*ts):
    out = ts[0]
    for t in ts[1:]:
        out = B("+", out, t)
    return out


@check("F07", ["fw"])
def f07(ctx):
    n = 0
    p = [("parm", "arg%d" % i) for i in range(4)]
    spec = {"precision": (p[0], add(p[0], p[1])), "recall": (p[0], add(p[0], p[1])),
            "prevalence": (add(p[0], p[1]), add(*p)), "accuracy": (add(p[0], p[3]), add(*p)),
            "f_score": (B("*", ("lit", "2"), B("*", p[0], p[1])), add(p[0], p[1]))}
    for name, (num, den) in spec.items():
        for fn in ctx.prog.fn(NS + "get_" + name):
            ratio(ctx, fn, name, num, den)
            n += 1
    for fn in ctx.prog.fn(RES + "get_total_votes"):
        r = ctx.run(fn)
        want = add(this("true_positives_"), this("false_negatives_"), this("false_positives_"))
        got = [norm(v) for _, v, _ in r.exits]
        ctx.ob("total_votes", bool(got) and all(equal(v, want) for v in got), where(fn),
               "the votes of a class are its true positives, false negatives and false positives", "; ".join(S(v) for v in got))
        n += 1
    for fn in ctx.prog.fn(PROC + "process_inference_results"):
        evaluate(ctx, fn)
        n += 1
    for fn in ctx.prog.fn(PROC + "write_inference_results_to_stream_as_csv"):
        table(ctx, fn)
        n += 1
    ctx.floor("functions evaluating results", n, 8)


def sign(t):
    """(positive term, truth): strips negations."""
    k = True
    while t[:1] in (("not",), ("truth",)):
        t, k = t[1], k if t[0] == "truth" else not k
    return t, k


def product_zero(c, terms):
    """The condition says that the product (or only sum of unsigned numbers) is zero: (known, truth)."""
    t, k = sign(c)
    if t[:1] == ("eq",) and T.ZERO in t[1:]:
        x = t[1] if t[2] == T.ZERO else t[2]
    elif t[:1] == ("lt",) and t[1] == T.ZERO:
        x, k = t[2], not k
    elif t[:1] == ("lt",) and t[2] in (("lit", "1"),):
        x = t[1]
    else:
        x, k = t, not k
    return (True, k) if any(equal(x, y) for y in terms) else (False, k)


def ratio(ctx, fn, name, num, den):
    r = ctx.run(fn)
    zero = [den] + ([B("*", ("parm", "arg0"), ("parm", "arg1"))] if name == "f_score" else [])
    given = [parameter(fn, i) for i in range(len(fn.params))]
    back = {g: ("parm", "arg%d" % i) for i, g in enumerate(given)}

    def canon(t):
        t = lv(norm(t))
        for g, a in back.items():
            t = replace(t, g, a)
        return t

    good, zeros, why = 0, 0, []
    if integer_division(ctx, fn):
        why.append("an integer division")
    for s, v, line in r.exits:
        v = canon(v)
        outs = [(v, frozenset(P(g) for g in s.guards))]
        while any(x[:1] == ("ite",) for x, _ in outs):
            nxt = []
            for x, cs in outs:
                if x[:1] == ("ite",):
                    nxt += [(x[2], cs | {x[1]}), (x[3], cs | {T.neg(x[1])})]
                else:
                    nxt.append((x, cs))
            outs = nxt
        for x, cs in outs:
            cs = {canon(c) for g in cs for c in flat(canon(g))}
            known = [k for ok, k in (product_zero(c, zero) for c in cs) if ok]
            if x == T.ZERO or T.lit_val(x) == 0:
                zeros += 1
                if True not in known:
                    why.append("0 although the denominator is not zero")
            elif fraction(x, num, den):
                good += 1
                if False not in known:
                    why.append("divides by zero")
            else:
                why.append("returns " + S(x)[:160])
    ctx.ob("formula/" + name, good > 0 and zeros > 0 and not why, where(fn),
           "%s is %s / %s, and 0 when that has no value" % (name, S(num), S(den)), "; ".join(why) or "no such value returned")


def integer_division(ctx, fn):
    """A division of integers is written in the function."""
    todo = [fn.body]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += x
        elif isinstance(x, dict):
            if x.get("k") == "bin" and x.get("op") == "/" and fn.tu.types[x["t"]].split()[-1] not in ("float", "double"):
                return True
            todo += list(x.values())
    return False


def fraction(x, num, den):
    """x is num / den for real arithmetic, the division not an integer one."""
    if x[:1] != ("bin",):
        return False
    a, b = parts(x)
    return equal(B("*", a, den), B("*", num, b))


def parts(t):
    """Numerator and denominator."""
    if t[:1] == ("bin",) and t[1] == "/":
        a, b = parts(t[2])
        c, d = parts(t[3])
        return B("*", a, d), B("*", b, c)
    if t[:1] == ("bin",) and t[1] == "*":
        a, b = parts(t[2])
        c, d = parts(t[3])
        return B("*", a, c), B("*", b, d)
    return t, ("lit", "1")


class Names:
    """Terms with references resolved; variables that change keep their names."""

    def __init__(self, r):
        self.r, self.made, self.copies = r, {}, {}
        changed = set()
        for e in r.events:
            if e.kind == "write":
                changed.add(lv(norm(P(e.loc))))
            elif e.kind == "step":
                changed.add(P(e.obj) if e.obj is not None else None)
        for e in r.events:
            if e.kind == "decl" and e.loc is not None and e.val is not None:
                v, x = P(e.loc), P(e.val)
                if x[:1] == ("new",) and len(x) > 2 and x[2]:
                    self.made.setdefault(x, v)
                elif v not in changed and x[:1] != ("new",):
                    self.copies.setdefault(v, x)
            elif e.kind == "write":
                x = P(e.val)
                if x[:1] == ("new",) and len(x) > 2 and x[2]:
                    self.made.setdefault(x, P(e.loc))
        self.lists = []

    def __call__(self, t):
        for _ in range(4):
            n = lv(norm(t))
            for new, v in self.made.items():
                n = replace(n, new, v)
            for v, x in self.copies.items():
                if T.mentions(n, v) and not T.mentions(x, v):
                    n = replace(n, v, lv(norm(x)))
            n = self.merged(n)
            if n == t:
                break
            t = n
        return t

    def merged(self, t):
        """An element of what a container may be is an element of the container."""
        if not isinstance(t, tuple):
            return t
        t = tuple(self.merged(x) for x in t)
        for c in self.lists:
            if t[:1] == ("elem",) and t[1] != c and T.mentions(t[1], c):
                return ("elem", c)
            if t[:1] == ("size",) and t[1] != c and T.mentions(t[1], c):
                return ("size", c)
        return t

    def conds(self, gs):
        out = set()
        for g in gs:
            for c in interp.conj(self(g)):
                out |= flat(c)
        return out


def incremented(n, r):
    """[(event, location)] of everything counted up by one."""
    out = []
    for e in r.events:
        if e.kind == "write":
            x, v = n(P(e.loc)), n(P(e.val))
            if equal(v, B("+", x, ("lit", "1"))):
                out.append((e, x))
    return out


def evaluate(ctx, fn):
    r = ctx.run(fn)
    n = Names(r)
    spikes, data = parameter(fn, 0), parameter(fn, 1)
    f = lambda x: ("fld", data, x)   # noqa: E731
    classes, per = n(f("classes_amount_")), n(f("steps_per_frame_"))
    steps = B("*", f("frames_amount_for_inference_"), f("steps_per_frame_"))
    ups = incremented(n, r)
    votes = [(e, x) for e, x in ups if x[:1] == ("at",) and x[2][:2] == ("bin", "%") and equal(x[2][3], classes)]
    ctx.ob("votes", len(votes) == 1, where(fn), "every spike votes for the class of its neuron number modulo classes",
           "%d places count votes" % len(votes))
    if len(votes) != 1:
        return
    ve, vx = votes[0]
    table, voter = vx[1], vx[2][2]
    step = next((lp for lp in ve.loops if lp.kind == "range"), None)
    ok = step is not None and not step.early
    if ok:
        lo, hi, by = [n(x) if isinstance(x, tuple) else x for x in step.over]
        ok = lo == T.ZERO and equal(hi, n(steps)) and by in (1, ("lit", "1"))
    ctx.ob("steps", ok and ve.loops[0] is step, ewhere(ve), "every inference step is gone through, from 0",
           "the loop goes over " + (", ".join(S(n(x)) if isinstance(x, tuple) else str(x) for x in step.over) if step else "nothing"))
    if step is None:
        return
    now = ("idx",) + tuple(n(x) if isinstance(x, tuple) else x for x in step.over)
    spikes_of_step(ctx, fn, r, n, ve, voter, spikes, step, now)
    frame_end(ctx, fn, r, n, data, table, classes, per, step, now, ups)


def spikes_of_step(ctx, fn, r, n, ve, voter, spikes, step, now):
    """The votes of a step are the neurons of the messages sent at the step."""
    inner = ve.loops[ve.loops.index(step) + 1:]
    extra = n.conds(ve.guards)
    pool = voter[1] if voter[:1] == ("elem",) else None
    at = None
    if pool is not None and pool[:1] == ("fld",) and pool[2] == "neuron_indexes_":
        at, cs, ev, base = pool[1], extra, ve, inner[:-1]
        drop = []
    else:
        ctx.ob("votes/all", pool is not None and not extra and len(inner) == 1 and not inner[0].early and inner[0].kind == "foreach",
               ewhere(ve), "all spikes of the step vote", "voter %s, under %s" % (S(voter), "; ".join(S(c) for c in extra)))
        src = [b for b in bulks(r) if n(b.dst) == pool and n(b.src)[:1] == ("fld",) and n(b.src)[2] == "neuron_indexes_"]
        have = {b.ix for b in src}
        other = [x for x in bulks(r) if n(x.dst) == pool and x.ix not in have]
        other += [x for x, _, c in appends(r) if n(c) == pool and x.ix not in have]
        ctx.ob("collect", len(src) == 1 and not other, where(fn), "the spikes that vote are the neurons of messages",
               "%d sources, %d others" % (len(src), len(other)))
        if len(src) != 1:
            return
        b = src[0]
        ev, at, cs = b.e, n(b.src)[1], n.conds(b.e.guards)
        base = [lp for lp in b.loops if lp is not step]
        # before the next step the collection is emptied
        emptied = [e for e in r.events if e.loops[:1] == ve.loops[:1] and not n.conds(e.guards) and len(e.loops) == 1 and
                   (e.kind == "call" and e.name == "clear" and n(P(e.obj)) == pool or
                    e.kind == "decl" and e.loc is not None and n(P(e.loc)) == pool or
                    e.kind == "write" and n(P(e.loc)) == pool)]
        ctx.ob("collect/fresh", any(e.ix > ve.ix or e.ix < ev.ix for e in emptied), ewhere(ev),
               "spikes of a step do not vote again at the next one", "the collected spikes stay")
    it = at[1] if at is not None and at[:1] == ("deref",) else None
    same = {T.eq(fieldof(at, "header_", "send_time_"), now)}
    if it is not None and it[:1] == ("iterfrom",):
        ends = {("not", ("isend", it, spikes))}
        lp = next((x for x in base if x.kind in ("while", "for") or x.kind == "range" and x is not step), None)
        loopc = set()
        for x in base:
            loopc |= n.conds(loop_conds(x))
        # the loop goes on while messages of the step are left, whatever else
        got = {form(c) for c in cs | loopc}
        want = {form(c) for c in same | ends}
        ctx.ob("collect/step", want == got, ewhere(ev), "a step takes exactly the messages sent at that step",
               "taken under %s" % "; ".join(S(c) for c in cs | loopc))
        moves = [e for e in r.events if e.kind == "write" and lp is not None and lp in e.loops and n(P(e.val)) == ("next", it)]
        free = [e for e in moves if {form(c) for c in n.conds(e.guards)} <= want]
        other = [e for e in r.events if e.kind == "write" and e not in moves and moves and P(e.loc) == P(moves[0].loc) and e.loops]
        start = n(it[1])
        var = moves[0].loc if moves else None
        begins = [e for e in r.events if e.kind == "decl" and var is not None and P(e.loc) == P(var)]
        began = any(n(P(e.val)) == ("begin", spikes) and not e.loops for e in begins) or start == ("begin", spikes)
        ctx.ob("collect/next", bool(free) and not other and began, ewhere(ev),
               "messages are gone through from the first one, each once", "begins at %s; %d steps on" % (S(start), len(free)))
    elif at is not None and at == ("elem", spikes):
        ok = {form(c) for c in cs} == {form(c) for c in same} and all(x.kind == "foreach" and not x.early for x in base)
        ctx.ob("collect/step", ok, ewhere(ev), "a step takes exactly the messages sent at that step",
               "taken under " + "; ".join(S(c) for c in cs))
    else:
        ctx.ob("collect/step", False, ewhere(ev), "a step takes exactly the messages sent at that step", "takes " + S(at or ()))


def fieldof(x, *names):
    for k in names:
        x = ("fld", x, k)
    return x


def last_step(c, now, per):
    """The condition says that the step is the last of a frame."""
    t, k = sign(c)
    nxt = B("+", now, ("lit", "1"))
    if t[:2] == ("bin", "%"):
        return not k and equal(t[2], nxt) and equal(t[3], per)
    if t[:1] == ("eq",) and k:
        a, b = t[1], t[2]
        for x, y in ((a, b), (b, a)):
            if x[:2] == ("bin", "%") and equal(x[3], per):
                if equal(x[2], nxt) and y == T.ZERO or equal(x[2], now) and equal(y, B("-", per, ("lit", "1"))):
                    return True
    if t[:1] == ("lt",) and k and t[2] == ("lit", "1"):
        return equal(t[1], B("%", nxt, per))
    return False


def frame_end(ctx, fn, r, n, data, table, classes, per, step, now, ups):
    # the class with most votes
    made = [(e, n(v), n(c)) for e, v, c in appends(r) if e.loops == (step,) or list(e.loops) == [step]]
    made = [x for x in made if x[1][:1] in (("agg",), ("tuple",)) or len(x[0].args) > 1]
    ctx.ob("prediction", len(made) == 1, where(fn), "every frame has one prediction", "%d places make predictions" % len(made))
    if len(made) != 1:
        return
    e, v, preds = made[0]
    cs = n.conds(e.guards)
    ctx.ob("prediction/frame", len(cs) == 1 and last_step(next(iter(cs)), now, per), ewhere(e),
           "a prediction is made at the last step of every frame", "under " + "; ".join(S(c) for c in cs))
    members = record(v) or {i: n(a) for i, a in enumerate(e.args)}
    best, most = argmax(ctx, fn, r, n, table, classes, e, members, cs, step)
    ctx.ob("prediction/best", best is not None and most is not None, ewhere(e),
           "the prediction is a class with the most votes, with these votes", "predicts " + S(v)[:200])
    empty = [w for w in r.events if step in w.loops and w.ix > e.ix and n.conds(w.guards) <= cs and emptied(n, w, table, classes)]
    ctx.ob("votes/reset", bool(empty), ewhere(e), "the votes of a frame are gone before the next one", "votes are kept")
    start = [w for w in r.events if w.kind in ("write", "decl") and not w.loops and w.loc is not None and n(P(w.loc)) == table]
    ctx.ob("votes/start", bool(start) and all(zeros(n, w, classes) for w in start), where(fn),
           "voting starts with no votes for each class", "; ".join(S(P(w.val))[:100] for w in start))
    if best is None or most is None:
        return
    # counting
    n.lists.append(preds)
    p = ("elem", preds)
    pick = lambda k: ("fld", p, k) if isinstance(k, str) else ("get", str(k), p)   # noqa: E731
    voted, guess = pick(best[1]), pick(best[0])
    want = {"false_negatives_": [{(voted, False)}], "false_positives_": [{(voted, True), ("guess", False)}],
            "true_positives_": [{(voted, True), ("guess", True)}]}
    seen = {}
    for u, x in incremented(n, r):
        if x[:1] == ("fld",) and x[2] in want and x[1][:1] == ("at",):
            seen.setdefault(x[2], []).append((u, x[1]))
    for field, alts in want.items():
        hits = seen.get(field, [])
        why = [] if len(hits) == 1 else ["%d places count it" % len(hits)]
        for u, slot in hits:
            if not label_ok(n(slot[2]), data, preds):
                why.append("counted for class " + S(slot[2])[:200])
            got = set()
            for c in n.conds(u.guards):
                t, k = sign(c)
                if t == voted:
                    got.add((voted, k))
                elif t[:1] == ("eq",) and voted in t[1:] and T.ZERO in t[1:]:
                    got.add((voted, not k))
                elif t[:1] == ("lt",) and t[1] == T.ZERO and t[2] == voted:
                    got.add((voted, k))
                elif t[:1] == ("eq",) and guess in t[1:] and label_ok(t[2] if t[1] == guess else t[1], data, preds):
                    got.add(("guess", k))
                else:
                    got.add((c, None))
            if got not in alts:
                why.append("counted under " + "; ".join((S(c) if isinstance(c, tuple) else "right class") + (" is false" if k is False else "")
                                                        for c, k in got))
            over = u.loops
            if len(over) != 1 or over[0].early or not whole(n, over[0], preds):
                why.append("not for every frame")
        ctx.ob("count/" + field.rstrip("_"), not why, where(fn) if not hits else ewhere(hits[0][0]),
               {"false_negatives_": "a frame without votes is missed by its class",
                "false_positives_": "a frame given to another class counts as a wrong one of its class",
                "true_positives_": "a frame given to its class counts as a right one"}[field], "; ".join(why))
    res = {h[1][1] for hs in seen.values() for h in hs}
    ctx.ob("count/same", len(res) == 1, where(fn), "all counts go to one list of results", "; ".join(S(x) for x in res))
    if len(res) != 1:
        return
    res = res.pop()
    n.lists.append(res)
    el = ("elem", res)
    rest = B("-", B("-", B("-", ("size", preds), ("fld", el, "true_positives_")), ("fld", el, "false_negatives_")), ("fld", el, "false_positives_"))
    tn = [w for w in r.events if w.kind == "write" and n(P(w.loc))[:1] == ("fld",) and n(P(w.loc))[2] == "true_negatives_"
          and T.mentions(n(P(w.loc)), res)]
    last = max([h[0].ix for hs in seen.values() for h in hs] or [0])
    ok = len(tn) == 1
    why = "" if ok else "%d places set true negatives" % len(tn)
    for w in tn:
        x, val = n(P(w.loc)), n(P(w.val))
        if x[1][:1] == ("at",):
            val = replace(val, x[1], el)
        if not equal(val, rest):
            ok, why = False, "set to " + S(val)[:200]
        if n.conds(w.guards) or len(w.loops) != 1 or not (complete(w, res) or whole(n, w.loops[0], res) or
                                                         classes_loop(n, w.loops[0], classes)):
            ok, why = False, "not for every class"
        if w.ix < last:
            ok, why = False, "before the other counts are ready"
    ctx.ob("count/true_negatives", ok, where(fn), "all other frames are true negatives of a class", why)
    out = [w for w in r.events if w.kind == "write" and P(w.loc) == RESULTS]
    start = [w for w in r.events if w.kind in ("decl", "write") and w.loc is not None and n(P(w.loc)) == res]
    sized = any(T.mentions(n(P(w.val)) if P(w.val)[:1] != ("new",) else tuple(n(a) for a in P(w.val)[3:] if isinstance(a, tuple)), classes)
                or T.mentions(norm(P(w.val)), classes) for w in start if w.val is not None)
    ctx.ob("result", len(out) == 1 and not out[0].loops and not n.conds(out[0].guards) and n(P(out[0].val)) == res and sized, where(fn),
           "the results kept are the counts, one for each class", "; ".join(S(n(P(w.val)))[:100] for w in out) + ("" if sized else "; size"))


def emptied(n, w, table, classes):
    """The event sets every element to 0."""
    if w.kind == "write" and T.lit_val(n(P(w.val))) == 0:
        return n(P(w.loc)) in (("elem", table), ("at", table, ("idx", T.ZERO, classes, 1))) and not w.loops[-1].early
    if w.kind == "write":
        return n(P(w.loc)) == table and zeros(n, w, classes)
    if w.kind != "call":
        return False
    a = [n(x) for x in w.args]
    if w.name == "fill":
        return a[:2] == [("begin", table), ("end", table)] and T.lit_val(a[2]) == 0
    size = lambda x: equal(x, classes) or x == ("size", table)   # noqa: E731
    if w.name == "fill_n":
        return a[0] == ("begin", table) and size(a[1]) and T.lit_val(a[2]) == 0
    return w.name == "assign" and w.obj is not None and n(P(w.obj)) == table and size(a[0]) and T.lit_val(a[1]) == 0


def zeros(n, w, classes):
    v = norm(P(w.val)) if w.val is not None else ()
    return T.mentions(v, classes) and T.mentions(v, T.ZERO) or v == ()


def record(v):
    """Members of a record value."""
    if v[:1] == ("agg",):
        return dict(v[2])
    if v[:1] == ("tuple",):
        return dict(enumerate(v[1]))
    return {}


def argmax(ctx, fn, r, n, table, classes, e, members, cs, step):
    """((member of the best class, member of its votes), True) when the two members are the index and value of the greatest element."""
    for a in members:
        for b in members:
            if a == b:
                continue
            if greatest(r, n, table, classes, e, members[a], members[b], cs, step):
                return (a, b), True
    return None, None


def greatest(r, n, table, classes, e, best, most, cs, step):
    i = ("idx", T.ZERO, classes, 1)
    at = ("at", table, i)
    mx = ("maxelem", table)
    wb = [w for w in r.events if w.kind == "write" and w.ix < e.ix and n(P(w.loc)) == best and step in w.loops and len(w.loops) > 1]
    wm = [w for w in r.events if w.kind == "write" and w.ix < e.ix and n(P(w.loc)) == most and step in w.loops and len(w.loops) > 1]
    vote = lambda t: t in (at, ("elem", table))   # noqa: E731
    best, most = owner(r, n, best), owner(r, n, most)
    wb = wb or [w for w in r.events if w.kind == "write" and w.ix < e.ix and P(w.loc) == best and step in w.loops and len(w.loops) > 1]
    wm = wm or [w for w in r.events if w.kind == "write" and w.ix < e.ix and P(w.loc) == most and step in w.loops and len(w.loops) > 1]
    if best[:1] == ("var",) or wb:
        if len(wb) != 1 or len(wm) != 1:
            return False
        b, m = wb[0], wm[0]
        if not vote(n(P(m.val))) or n(P(b.val)) not in (i, ("idx", T.ZERO, ("size", table), 1)) or b.loops != m.loops:
            return False
        lp = b.loops[-1]
        if lp.early or not (classes_loop(n, lp, classes) or whole(n, lp, table)):
            return False
        gb, gm = n.conds(b.guards) - cs, n.conds(m.guards) - cs
        if gb != gm or len(gb) != 1:
            return False
        t, k = sign(next(iter(gb)))
        if t[:1] not in (("lt",), ("le",)):
            return False
        x, y = (t[1], t[2]) if k else (t[2], t[1])
        if not (owner(r, n, x) == most and vote(y)):
            return False
        return starts(r, n, most, e) and starts(r, n, best, e)
    # std::max_element
    return maxelement(n, best, most, table)


def owner(r, n, v):
    """The variable a merged value is the value of."""
    if v[:1] != ("phi",):
        return v
    out = []
    for d in r.events:
        if d.kind == "decl" and d.loc is not None and P(d.loc)[:1] == ("var",) and n(P(d.val)) in v[1]:
            ws = [w for w in r.events if w.kind == "write" and P(w.loc) == P(d.loc)]
            if ws and all(n(P(w.val)) in {n(x) for x in v[1]} for w in ws):
                out.append(P(d.loc))
    return out[0] if len(set(out)) == 1 else v


def counts(r, n, v, loops):
    """The variable counts the rounds of the loop from 0."""
    while v[:1] == ("lv",):
        v = v[1]
    ds = [d for d in r.events if d.kind == "decl" and d.loc is not None and P(d.loc) == v]
    ws = [w for w in r.events if w.kind == "write" and P(w.loc) == v]
    return len(ds) == 1 and T.lit_val(n(P(ds[0].val))) == 0 and len(ds[0].loops) == len(loops) - 1 and len(ws) == 1 and \
        ws[0].loops == loops and not n.conds(ws[0].guards) and equal(lv(norm(P(ws[0].val))), B("+", v, ("lit", "1"))) and ws[0]


def starts(r, n, v, e):
    """The variable is 0 before the search."""
    ds = [d for d in r.events if d.kind == "decl" and d.ix < e.ix and d.loc is not None and P(d.loc) == v]
    return bool(ds) and T.lit_val(n(P(ds[-1].val))) == 0 and len(ds[-1].loops) >= 1


def maxelement(n, best, most, table):
    t = most
    if t[:1] == ("deref",):
        t = t[1]
    if not (isinstance(t, tuple) and "max_element" in repr(t)[:60] or t[:1] in (("maxelem",), ("max",))):
        return False
    return T.mentions(best, t) and T.mentions(t, table)


def classes_loop(n, lp, classes):
    if lp.kind != "range":
        return False
    lo, hi, by = [n(x) if isinstance(x, tuple) else x for x in lp.over]
    return lo == T.ZERO and equal(hi, classes) and by in (1, ("lit", "1")) and not lp.early


def whole(n, lp, c):
    if lp.early:
        return False
    if lp.kind == "foreach":
        return n(lp.over) == c
    if lp.kind == "range":
        lo, hi, by = [n(x) if isinstance(x, tuple) else x for x in lp.over]
        return lo == T.ZERO and hi == ("size", c) and by in (1, ("lit", "1"))
    return False


def label_ok(t, data, preds):
    """The label of inference frame i."""
    t = form(t)
    if t[:1] == ("get",) and len(t) == 3:
        inner, k = t[2], t[1]
    elif t[:1] == ("fld",) and t[2] in ("first",):
        inner, k = t[1], 0
    else:
        return False
    if str(k) not in ("0", "first"):
        return False
    want = frame_forms(data, preds)
    return any(form(inner) == form(w) for w in want)


def frame_forms(data, preds):
    i = ("idx", T.ZERO, ("size", preds), 1)
    first = B("+", ("begin", ("fld", data, "dataset_")), ("fld", data, "frames_amount_for_training_"))
    k = B("+", ("fld", data, "frames_amount_for_training_"), i)
    return [("deref", B("+", first, i)), ("at", ("fld", data, "dataset_"), k), ("at", first, i),
            ("call", "__gnu_cxx::__normal_iterator::operator[]", (first, i))]


# ---- CSV

COLUMNS = ("CLASS", "TOTAL_VOTES", "TRUE_POSITIVES", "FALSE_NEGATIVES", "FALSE_POSITIVES", "TRUE_NEGATIVES",
           "PRECISION", "RECALL", "PREVALENCE", "ACCURACY", "F_SCORE")


def table(ctx, fn):
    def opaque(m, f):
        return isinstance(m, dict) and m.get("qn", "").startswith(NS + "get_")
    r = ctx.run(fn, opaque=opaque, okey="formulas")
    n = Names(r)
    el = ("elem", RESULTS)
    tp, fn_, fp, tn = [("fld", el, x + "_") for x in ("true_positives", "false_negatives", "false_positives", "true_negatives")]
    head, row = [], []
    loops = set()
    for e in r.events:
        if e.kind != "call" or e.name != "operator<<":
            continue
        x = n(e.args[-1])
        if x[:1] in (("fn",), ("fnref",)) or "std::endl" in repr(x):
            x = ("str", "\n")
        if not e.loops:
            head.append(x)
        else:
            row.append((e, x))
            loops.add(e.loops)
    names = "".join(text(x) or "?" for x in head).strip().split(",")
    ctx.ob("csv/header", tuple(names) == COLUMNS, where(fn), "the header names the columns", ",".join(names)[:200])
    ok = len(loops) == 1 and all(len(x) == 1 and whole(n, x[0], RESULTS) for x in loops) and not any(n.conds(e.guards) for e, _ in row)
    ctx.ob("csv/rows", ok, where(fn), "every class has a row", "%d loops" % len(loops))
    cells, sep = [], []
    for e, x in row:
        t = text(x)
        if t is None:
            cells.append((e, x))
            sep.append("")
        elif sep:
            sep[-1] += t
    ctx.ob("csv/separators", sep == [","] * (len(COLUMNS) - 1) + ["\n"], where(fn), "values are separated by commas, rows by lines", repr(sep))
    if len(cells) != len(COLUMNS):
        return ctx.ob("csv/cells", False, where(fn), "a row has a value for every column", "%d values" % len(cells))
    call = lambda name, *a: (name, a)   # noqa: E731
    prec, rec = cells[6][1], cells[7][1]
    want = {"CLASS": [("idx", T.ZERO, ("size", RESULTS), 1)], "TOTAL_VOTES": [add(tp, fn_, fp)], "TRUE_POSITIVES": [tp],
            "FALSE_NEGATIVES": [fn_], "FALSE_POSITIVES": [fp], "TRUE_NEGATIVES": [tn],
            "PRECISION": call("precision", tp, fp), "RECALL": call("recall", tp, fn_),
            "PREVALENCE": call("prevalence", tp, fn_, fp, tn), "ACCURACY": call("accuracy", tp, fn_, fp, tn),
            "F_SCORE": call("f_score", prec, rec)}
    for name, (e, x) in zip(COLUMNS, cells):
        w = want[name]
        if isinstance(w, list):
            ok, key = any(equal(x, y) for y in w), name
            if name == "CLASS" and not ok:
                up = counts(r, n, x, e.loops)
                ok = bool(up) and up.ix > e.ix
        else:
            got = callee(x)
            ok = got is not None and got[0].endswith("get_" + w[0]) and got[1] == w[1]
            key = name
            if not ok and got is not None:
                key = "%s/%s(%s)" % (name, got[0].split("::")[-1],
                                     ", ".join(a[2] if a[:1] == ("fld",) else S(a)[:40] for a in got[1]))
        ctx.ob("csv/" + key, ok, ewhere(e), "the column %s has its own value" % name, "writes " + S(x)[:200])


def text(x):
    if x[:1] == ("str",):
        s = x[1]
        return s[1:-1].replace("\\n", "\n") if s[:1] == '"' else s
    if x[:1] == ("lit",):
        s = str(x[1])
        if s[:1] == '"':
            return s[1:-1].replace("\\n", "\n")
        if s[:1] == "'":
            s = s.strip("'")
            return chr(int(s)) if s.isdigit() else s
    return None


def callee(x):
    return (x[1], x[2]) if x[:1] == ("call",) and len(x) == 3 else None
