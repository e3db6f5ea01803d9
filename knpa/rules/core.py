"""Rules for the core library: projections, populations, identifiers, messages, message bus."""
import re

from .. import interp
from .. import terms as T
from ..facts import AnalysisBroken

from ..lib import (P, S, appends, calls, check, entered, ewhere, final, fld, guards, inst, is_range_of, mutations,
                   nonconst_ref, on_path, rets, this, under, where, GROWERS, MUTATORS)

C = "knp::core::"
PROJ = C + "Projection"
FLAG = this("is_index_updated_")
PARAMS = this("parameters_")
INDEX = this("index_")


# ----------------------------------------------------------------------------------------------- C01
def index_roles(ctx):
    """tag -> field of Connection the view is keyed by, from the declared type of the index."""
    recs = [r for r in ctx.prog.record(PROJ) if r["f"]]
    roles = None
    for r in recs:
        ty = [f["ty"] for f in r["f"] if f["n"] == "index_"]
        if not ty:
            raise AnalysisBroken("Projection::index_ vanished")
        m = re.findall(r"tag<([\w:]+),.*?::(\w+)>(?=, mpl_::na, mpl_::na>|>)", ty[0].replace("&", ""))
        m = re.findall(r"boost::multi_index::tag<([\w:]+)[^>]*>, boost::multi_index::member<.*?::(\w+)>, mpl_", ty[0])
        roles = dict((a.rsplit("::", 1)[-1], b) for a, b in m)
    return roles


def rebuild_points(r):
    """Indices of events that complete a rebuild (clear + one unconditional insert per synapse) of the index."""
    out = []
    for e in r.events:
        if e.kind == "call" and e.obj is not None and P(e.obj) == INDEX and e.name in GROWERS:
            if any(lp.kind == "foreach" and P(lp.over) == PARAMS and not lp.early for lp in e.loops):
                cl = [x for x in r.events if x.ix < e.ix and x.kind == "call" and x.obj is not None and
                      P(x.obj) == INDEX and x.name == "clear"]
                if cl and guards(e) == guards(cl[-1]):
                    out.append((cl[-1].ix, e))
    return out


@check("C01", ["core"], ["core", "devices", "st", "mt", "fw"])
def c01(ctx):
    roles = index_roles(ctx)
    rec = ctx.prog.record(PROJ)[0]
    w = "%s:%s" % (rec["file"], rec["line"])
    ctx.ob("index-key/presynaptic", roles.get("mi_presynaptic") == "from_", w,
           "the presynaptic view of the index is keyed by the source neuron", str(roles))
    ctx.ob("index-key/postsynaptic", roles.get("mi_postsynaptic") == "to_", w,
           "the postsynaptic view of the index is keyed by the target neuron", str(roles))
    n = 0
    for f in ctx.prog.fn(PROJ + "::find_synapses"):
        n += 1
        r = ctx.run(f, watch=(FLAG,))
        # every rebuild writes what the synapse says
        rb = rebuild_points(r)
        ins = [e for e in r.events if e.kind == "call" and e.obj is not None and P(e.obj) == INDEX and
               e.name in GROWERS]
        ctx.ob("rebuild/complete", bool(rb), where(f),
               "a stale index is rebuilt before a query: cleared, then every synapse inserted once",
               "no clear followed by an unconditional insertion per synapse on the way to the query")
        for e in ins:
            a = P(e.args[0]) if e.args else ()
            got = dict(a[2]) if a[:1] == ("agg",) else {}
            el = ("elem", PARAMS)
            ok = got.get("from_") == ("get", "1", el) and got.get("to_") == ("get", "2", el) and \
                got.get("index_") == ("idx", T.ZERO, ("size", PARAMS), 1)
            ctx.ob("rebuild/entry", ok, ewhere(e),
                   "the index entry of a synapse holds its source, its target and its position", S(a))
            ctx.ob("rebuild/when-stale", guards(e) <= {T.neg(("truth", FLAG))}, ewhere(e),
                   "a rebuild happens exactly when the index is marked stale", str([S(g) for g in guards(e)]))
        # the view asked is the view of the criterion
        found = {}
        for e, v, c in appends(r):
            for t in T.subterms(v):
                if t and t[0] == "equal_range" and t[1][:1] == ("call",) and t[1][2][0] == INDEX:
                    tag = t[1][2][-1]
                    tag = tag[1].rsplit("::", 1)[-1] if tag[:1] == ("tag",) else "?"
                    crit = [g for g in guards(e) if g[0] == "eq"]
                    en = [x for g in crit for x in g[1:] if x[:1] == ("enum",)]
                    name = en[0][1].rsplit("::", 1)[-1] if len(en) == 1 else "?"
                    found[name] = (tag, t[2], v, e)
                    fl = P((e.st or {}).get(FLAG))
                    ctx.ob("query/fresh-index", fl == T.TRUE, ewhere(e),
                           "the index is up to date whenever a query reads it", "marked " + S(fl))
        want = {"by_presynaptic": "from_", "by_postsynaptic": "to_"}
        for crit, field in want.items():
            if crit not in found:
                ctx.ob("query/" + crit, False, where(f), "a %s query returns what the index lists" % crit,
                       "nothing is returned for it")
                continue
            tag, key, v, e = found[crit]
            ok = roles.get(tag) == field and key[:1] == ("parm",) and key[2] == 0 and v[:1] == ("fld",) and \
                v[2] == "index_"
            ctx.ob("query/" + crit, ok, ewhere(e),
                   "a %s query returns the positions listed under %s for the neuron asked for" % (crit, field),
                   "%s from view %s" % (S(v), tag))
    ctx.floor("find_synapses instantiations", n, 3)
    # every method leaves the index rebuilt or marked stale
    nm = 0
    for f in sorted(ctx.prog.methods(PROJ), key=lambda f: f.id):
        if f.body is None or f.meta.get("fk") == "dtor" or f.dflt or f.implicit or f.meta.get("lam"):
            continue
        if f.meta.get("const") and f.name not in ("reindex",):
            continue
        r = ctx.run(f)
        mut = [e for e in mutations(r, PARAMS, deep=False)]
        stale_ok = True
        why = ""
        idx_mut = [e for e in mutations(r, INDEX, deep=False)]
        if not mut and not idx_mut:
            if not r.writes("is_index_updated_"):
                continue
        nm += 1
        ctor = f.meta.get("fk") == "ctor"
        rb = rebuild_points(r)
        all_mut, all_idx, all_rb = mut, idx_mut, rb
        for s, v, line in r.exits:
            fl = P(interp.read(s, FLAG))
            mut = [e for e in all_mut if on_path(e, s)]
            idx_mut = [e for e in all_idx if on_path(e, s)]
            rb = [x for x in all_rb if on_path(x[1], s)]
            for a in T.alts(fl):
                if a == T.FALSE:
                    continue
                done = []
                # marked fresh (or unchanged): every change must be followed by a rebuild or undone by clearing both
                last = max([e.ix for e in mut], default=-1)
                fresh = [ix for ix, e in rb if ix > last]
                if fresh and a == T.TRUE:
                    continue
                if ctor and not mut and a != T.TRUE:
                    continue
                cleared = mut and all(e.kind == "call" and e.name == "clear" for e in mut) and \
                    any(e.kind == "call" and e.name == "clear" for e in idx_mut) and not [e for e in idx_mut if e.name != "clear"]
                if cleared and a == FLAG:
                    continue
                if not mut and not idx_mut and a == FLAG:
                    continue
                del done
                stale_ok = False
                why = "synapses change at %s while the index stays marked %s" % (
                    ewhere(mut[-1]) if mut else (ewhere(idx_mut[-1]) if idx_mut else "?"), S(a))
        ctx.ob("stale-after-change/" + f.name, stale_ok, where(f),
               "after %s the index is rebuilt or marked stale" % f.name, why)
    ctx.floor("Projection methods that change synapses", nm, 15)


# ----------------------------------------------------------------------------------------------- C09
POP = C + "Population"
NEURONS = this("neurons_")


def declared(r, t):
    """The value a local that is never reassigned was initialised with (`t` itself for anything else)."""
    if t[:1] != ("var",):
        return t
    d = [e for e in r.events if e.kind == "decl" and P(e.loc) == t]
    w = [e for e in r.events if e.kind == "write" and P(e.loc) == t]
    return P(d[0].val) if len(d) == 1 and not w else t


def generated(ctx, r, f, key, cont, what):
    """Exactly one element per generator call that yields one, for every index below the count asked for."""
    gi = [i for i, p in enumerate(f.params) if "function" in f.ptype(i)]
    ni = [i for i, p in enumerate(f.params) if i > gi[0] and "long" in f.ptype(i) or f.ptype(i) in ("size_t",)]
    gen = ("parm", f.params[gi[0]]["n"], gi[0])
    cnt = ("parm", f.params[ni[-1]]["n"], ni[-1])
    ix = ("idx", T.ZERO, cnt, 1)
    made = ("call", "std::function::operator()", (gen, ix))
    aps = appends(r, cont)
    ctx.ob(key + "/once", len(aps) == 1, where(f), "every generated %s is added once" % what, "%d places add one" % len(aps))
    for e, v, c in aps:
        lps = [(lp.kind, P(lp.over)) for lp in e.loops]
        ctx.ob(key + "/every-index", lps == [("range", (T.ZERO, cnt, 1))] and not e.loops[0].early, ewhere(e),
               "the generator is asked for every index from zero to the requested number",
               "loops: %s" % [(k, S(o), lp.early) for (k, o), lp in zip(lps, e.loops)])
        ctx.ob(key + "/skips-empty", guards(e) == {("truth", made)}, ewhere(e),
               "a %s is added exactly when the generator yields one" % what, str(sorted(S(g) for g in guards(e))))
        el = ("deref", made)
        whole = v in (el, made) or v == ("tuple", tuple(("get", str(i), el) for i in range(3)))
        ctx.ob(key + "/as-generated", whole, ewhere(e), "a %s is added as the generator yields it" % what, S(v))
    return aps


def aliases(r, c):
    """The container, the local it was copied or returned into and the one it was made from."""
    ds = [(P(d.loc), P(d.val)) for d in r.events if d.kind == "decl" and d.val is not None]
    return {c} | {v for x, v in ds if x == c} | {x for x, v in ds if v == c}


def ascending(r, e, c, once=False):
    """Elements of container c come in ascending order (and once each): a std::set, or sorted (and made unique) before."""
    if c[:1] == ("new",) and re.match(r"(const )?std::set<unsigned long, std::less<", c[1]):
        return True
    for d in r.events:
        if d.kind == "decl" and P(d.loc) == c and re.match(r"(const )?std::set<unsigned long, std::less<", (d.types or "") if
                                                         isinstance(d.types, str) else ""):
            return True
    seq = [x for x in r.events if x.kind == "call" and x.ix < e.ix and guards(x) <= guards(e) and x.args]
    same = aliases(r, c)
    names = [x.qn for x in seq if x.qn in ("std::sort", "std::unique") and any(is_range_of(P(x.args[0]), y) for y in same)]
    cut = [x for x in seq if x.name in ("erase", "resize") and P(x.obj or ()) == c and T.has_head(P(x.args[0]), "call", "find", "iter")]
    return names[:1] == ["std::sort"] and (not once or names == ["std::sort", "std::unique"] and len(cut) == 1)


def erase_listed(ctx, r, f, key, cont, src, what):
    """Every element listed in src (indexes) is erased from cont, none besides: ascending with a running shift, or descending."""
    er = [e for e in mutations(r, cont, deep=False)]
    ctx.ob(key + "/erases", len(er) == 1 and er[0].name == "erase", where(f), "every listed %s is removed" % what,
           str([e.name for e in er]))
    for e in er:
        if e.name != "erase":
            continue
        a = P(e.args[0])
        off = a[3] if a[:2] == ("bin", "+") and a[2] == ("begin", cont) else None
        ok = False
        why = S(a)
        if off is not None and off[:2] == ("bin", "-"):
            el, cnt = off[2], off[3]
            inc = [x for x in r.events if x.kind == "write" and P(x.loc) == cnt and x.loops and
                   x.loops[-1] is e.loops[-1] and guards(x) <= guards(e)]
            dec = [x for x in r.events if x.kind == "decl" and P(x.loc) == cnt and T.is_zero(P(x.val))]
            nth = cnt[:2] == ("idx", T.ZERO) and cnt[2][:1] == ("size",) and cnt[3] == 1
            asc = el[:1] == ("elem",) and ascending(r, e, el[1], src is not None)
            ok = (nth or len(inc) == 1 and bool(dec)) and asc
            if not asc:
                why = "positions are shifted as if %s were sorted" % S(el[1] if len(el) > 1 else el)
        elif off is not None and e.loops and e.loops[-1].kind == "foreach" and P(e.loops[-1].over)[:1] == ("rev",):
            ok = ascending(r, e, P(e.loops[-1].over)[1], src is not None)
        ctx.ob(key + "/right-ones", ok, ewhere(e), "removing several elements by position removes the elements asked for, "
               "whatever order they are listed in", why)
        ctx.ob(key + "/all", len(e.loops) == 1 and not e.loops[0].early and
               guards(e) <= {T.neg(("empty", x)) for x in aliases(r, off[2][1])} if off and off[:2] == ("bin", "-") and len(off[2]) > 1 else True,
               ewhere(e), "every listed %s is removed" % what, str([S(g) for g in guards(e)]))


def tallied(r, v, cont):
    """`v` counts the elements put into cont: from 0, one more for each."""
    while v[:1] == ("lv",):
        v = v[1]
    if v[:1] == ("phi",):
        vs = {x[1] if x[:1] == ("lv",) else x for x in v[1] if not T.is_zero(x)}
        v = vs.pop() if len(vs) == 1 else v
    up = [w for w in r.events if w.kind == "write" and P(w.loc) == v]
    first = [d for d in r.events if d.kind == "decl" and P(d.loc) == v]
    put = [e for e, _, c in appends(r) if c == cont]
    return v[:1] == ("var",) and len(up) == len(put) == len(first) == 1 and T.is_zero(P(first[0].val)) and \
        up[0].loops == put[0].loops and guards(up[0]) == guards(put[0]) and \
        P(up[0].val)[:2] == ("bin", "+") and P(up[0].val)[3] == ("lit", "1")


def count_result(ctx, r, f, key, cont, added):
    for s, v, line in r.exits:
        v = P(v)
        ok = False
        if v[:2] == ("bin", "-"):
            new, old = (v[2], v[3]) if added else (v[3], v[2])
            olds = {x for x in (T.alts(old) if old[:1] == ("phi",) else ([old[2], old[3]] if old[:1] == ("ite",) else [old]))}
            ok = new == ("size", cont) and all(
                x == ("oldsize", cont) or declared(r, x) == ("size", cont) and x != new or
                x == ("size", cont) and old[:1] == ("ite",) for x in olds)
        ok = ok or added and tallied(r, v, cont)
        ctx.ob(key + "/count", ok, where(f, line), "the number of elements %s is returned" % (
            "added" if added else "removed"), S(v))


@check("C09", ["core"])
def c09(ctx):
    prog = ctx.prog
    n = 0
    for cls, cont, what in ((PROJ, PARAMS, "synapse"), (POP, NEURONS, "neuron")):
        for f in prog.methods(cls):
            if f.meta.get("fk") != "ctor" or f.body is None or f.implicit or f.dflt or f.meta.get("cm"):
                continue
            n += 1
            r = ctx.run(f)
            short = cls.rsplit("::", 1)[-1]
            key = "create/%s%d" % (short, len(f.params))
            s = r.exits[0][0]
            names = [(p["n"], i) for i, p in enumerate(f.params) if f.ptype(i).replace("const ", "").rstrip(" &") == C + "UID"]
            base = P(interp.read(s, this("base_")))
            uid = dict(base[2]).get("uid_") if base[:1] == ("agg",) else P(interp.read(s, this("base_", "uid_")))
            ends = 2 if cls == PROJ else 0
            if len(names) > ends:
                ctx.ob(key + "/uid", uid == ("parm", names[0][0], names[0][1]), where(f),
                       "an object created with an identifier has that identifier", S(uid))
            if ends:
                pre, post = [("parm", a, b) for a, b in names[-2:]]
                ctx.ob(key + "/presynaptic", P(interp.read(s, this("presynaptic_uid_"))) == pre, where(f),
                       "a projection starts at the source population it was created with",
                       S(interp.read(s, this("presynaptic_uid_"))))
                ctx.ob(key + "/postsynaptic", P(interp.read(s, this("postsynaptic_uid_"))) == post, where(f),
                       "a projection ends at the target population it was created with",
                       S(interp.read(s, this("postsynaptic_uid_"))))
            if any("function" in f.ptype(i) for i in range(len(f.params))):
                generated(ctx, r, f, key, cont, what)
    ctx.floor("constructors", n, 20)
    # getters
    for cls, nm, want in ((PROJ, "get_presynaptic", this("presynaptic_uid_")), (PROJ, "get_postsynaptic", this("postsynaptic_uid_")),
                          (PROJ, "get_uid", this("base_", "uid_")), (POP, "get_uid", this("base_", "uid_")),
                          (PROJ, "size", ("size", PARAMS)), (POP, "size", ("size", NEURONS)),
                          (PROJ, "is_locked", this("is_locked_"))):
        for f in prog.fn(cls + "::" + nm):
            r = ctx.run(f)
            for s, v, line in r.exits:
                v = P(interp.read(s, v)) if isinstance(v, tuple) else v
                ctx.ob("get/%s-%s" % (cls.rsplit("::", 1)[-1], nm), v == P(want) or v == P(("truth", want)), where(f, line),
                       "a getter returns what the object was given", S(v))
    for nm, val in (("lock_weights", T.TRUE), ("unlock_weights", T.FALSE)):
        for f in prog.fn(PROJ + "::" + nm):
            r = ctx.run(f)
            for s, v, line in r.exits:
                ctx.ob("lock/" + nm, P(interp.read(s, this("is_locked_"))) == val, where(f, line),
                       "locking and unlocking the weights set the lock state", S(interp.read(s, this("is_locked_"))))
    for f in prog.fn(PROJ + "::add_synapses"):
        r = ctx.run(f)
        generated(ctx, r, f, "add/synapses", PARAMS, "synapse")
        count_result(ctx, r, f, "add/synapses", PARAMS, True)
        ctx.ob("add/synapses/keeps", len(mutations(r, PARAMS, deep=False)) == 1, where(f), "adding keeps what is there",
               str([e.name for e in mutations(r, PARAMS, deep=False)]))
    for f in prog.fn(POP + "::add_neurons"):
        r = ctx.run(f)
        generated(ctx, r, f, "add/neurons", NEURONS, "neuron")
        ctx.ob("add/neurons/keeps", len([e for e in mutations(r, NEURONS, deep=False)]) == 1, where(f),
               "adding keeps what is there", str([e.name for e in mutations(r, NEURONS, deep=False)]))
    for f in prog.fn(POP + "::set_neuron_parameters"):
        r = ctx.run(f)
        i, q = [("parm", p["n"], k) for k, p in enumerate(f.params)]
        w = [e for e in r.events if e.kind == "write" and under(NEURONS, P(e.loc))]
        ctx.ob("set/neuron", len(w) == 1 and P(w[0].loc) == ("at", NEURONS, i) and P(w[0].val) == q and not guards(w[0]),
               where(f), "setting the parameters of a neuron changes that neuron", str([(S(e.loc), S(e.val)) for e in w]))
    for f in prog.fn(POP + "::set_neurons_parameters"):
        r = ctx.run(f)
        for s, v, line in r.exits:
            x = P(interp.read(s, NEURONS))
            ctx.ob("set/neurons", x == ("parm", f.params[0]["n"], 0), where(f, line),
                   "setting the parameters of all neurons takes them all", S(x))
    for cls, nm, cont in ((POP, "get_neuron_parameters", NEURONS), (POP, "operator[]", NEURONS), (PROJ, "operator[]", PARAMS)):
        for f in prog.fn(cls + "::" + nm):
            r = ctx.run(f)
            for s, v, line in r.exits:
                ctx.ob("get/%s-%s" % (cls.rsplit("::", 1)[-1], nm), P(v) == ("at", cont, ("parm", f.params[0]["n"], 0)),
                       where(f, line), "an element is accessed by its position", S(v))
    # removal
    for f, cont in [(f, NEURONS) for f in prog.fn(POP + "::remove_neuron")] + [(f, PARAMS) for f in prog.fn(PROJ + "::remove_synapse")]:
        r = ctx.run(f)
        m = mutations(r, cont, deep=False)
        want = ("bin", "+", ("begin", cont), ("parm", f.params[0]["n"], 0))
        ctx.ob("remove/" + f.name, len(m) == 1 and m[0].name == "erase" and len(m[0].args) == 1 and P(m[0].args[0]) == want and
               not guards(m[0]), where(f), "removing by position removes the element at that position",
               str([(e.name, S(e.args)) for e in m]))
    for f in prog.fn(POP + "::remove_neurons"):
        r = ctx.run(f)
        erase_listed(ctx, r, f, "remove/neurons", NEURONS, ("parm", f.params[0]["n"], 0), "neuron")
    for f in prog.fn(PROJ + "::remove_synapse_if"):
        r = ctx.run(f)
        keep_unless(ctx, r, f, "remove/if", ("parm", f.params[0]["n"], 0))
        count_result(ctx, r, f, "remove/if", PARAMS, False)
    for nm, slot, crit in (("remove_presynaptic_neuron_synapses", "1", "by_presynaptic"),
                           ("remove_postsynaptic_neuron_synapses", "2", "by_postsynaptic")):
        for f in prog.fn(PROJ + "::" + nm):
            r = ctx.run(f)
            num = ("parm", f.params[0]["n"], 0)
            key = "remove/" + nm.split("_")[1]
            if [e for e in r.events if e.kind == "call" and e.qn in ("std::remove_if", "std::erase_if")]:
                keep_unless(ctx, r, f, key, T.eq(("get", slot, ("elem", PARAMS)), num))
            else:
                role = {"1": "from_", "2": "to_"}[slot]
                roles = index_roles(ctx)
                er = [t for _, v, _ in appends(r) for t in T.subterms(v) if t[:1] == ("equal_range",)]
                tag = {t[1][2][-1][1].rsplit("::", 1)[-1] for t in er if t[1][:1] == ("call",) and t[1][2][-1][:1] == ("tag",)}
                ctx.ob(key + "/which", bool(er) and all(roles.get(x) == role for x in tag) and all(t[2] == num for t in er),
                       where(f), "the synapses removed are those of the neuron asked for, on the side asked for",
                       "looked up in %s" % sorted(tag))
                erase_listed(ctx, r, f, key, PARAMS, None, "synapse")
            count_result(ctx, r, f, key, PARAMS, False)
    for f in prog.fn(PROJ + "::clear"):
        r = ctx.run(f)
        ctx.ob("clear", any(e.name == "clear" and not guards(e) for e in mutations(r, PARAMS, deep=False)), where(f),
               "clearing removes every synapse", "synapses stay")


def keep_unless(ctx, r, f, key, pred):
    """Exactly the elements that satisfy `pred` leave the synapse container."""
    rm = [e for e in r.events if e.kind == "call" and e.qn in ("std::remove_if", "std::erase_if")]
    ok = len(rm) == 1 and not guards(rm[0])
    why = "%d removals" % len(rm)
    if ok:
        e = rm[0]
        last = P(e.args[-1])
        res = [t for x in r.events for a in (x.args or ()) for t in T.subterms(P(a)) if t[:2] == ("call", e.qn)]
        vals = {t[2][-1] for t in res} | {P(v) for v in [last] if last[:1] != ("lam",)}
        vals = {v for v in vals if v[:1] != ("lam",)}
        ok = bool(vals) and vals <= {pred, ("truth", pred)}
        why = str([S(v) for v in vals])
        if e.qn == "std::remove_if":
            cut = [x for x in mutations(r, PARAMS, deep=False) if x is not e and x.name in ("resize", "erase") and not guards(x)]
            ok = ok and is_range_of(P(e.args[0]), PARAMS) and P(e.args[1]) == ("end", PARAMS) and len(cut) == 1 and \
                cut_ok(cut[0], e)
    ctx.ob(key + "/matching", ok, where(f), "exactly the matching synapses are removed", why)


def cut_ok(c, rm):
    a = [P(x) for x in c.args]
    if c.name == "resize":
        t = a[0]
        return any(x[:2] == ("call", "std::remove_if") for x in T.subterms(t)) and any(
            x == ("begin", PARAMS) for x in T.subterms(t))
    return len(a) == 2 and a[0][:2] == ("call", "std::remove_if") and a[1] == ("end", PARAMS)
