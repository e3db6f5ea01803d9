"""Whole-program rules: iterators are used only while they point somewhere; identifiers are built from identifiers."""
from .. import interp
from .. import terms as T
from ..lib import P, S, check, ewhere, guards, GROWERS

SHRINKERS = {"erase", "clear", "pop_back", "pop_front", "resize", "assign", "pop", "extract", "merge", "swap"}
CONTIGUOUS = ("std::vector", "std::deque", "std::basic_string")


def own(prog):
    return [f for f in sorted(prog.functions.values(), key=lambda f: f.id)
            if f.body is not None and not f.implicit and not f.dflt and f.file.startswith("knp/")]


def fname(q):
    import re
    return re.sub(r"<.*>", "", q or "?").replace("knp::", "")


def points_at_element(it, g):
    """The branch conditions say that the iterator is not the end of its container."""
    if it[0] == "find":
        return ("has", it[1], it[2]) in g or T.neg(("isend", it, it[1])) in g
    if it[0] in ("begin", "rbegin"):
        return T.neg(("empty", it[1])) in g or T.neg(("isend", it, it[1])) in g or \
            ("lt", T.ZERO, ("size", it[1])) in g or interp_nonempty(it[1], g)
    return any(x[:2] == ("not", ("isend", it, x[1][2] if len(x[1]) > 2 else None)) for x in g if x[:1] == ("not",) and
               isinstance(x[1], tuple) and x[1][:1] == ("isend",)) or T.neg(("isend", it, it[1])) in g


def subscribed_senders(e, it):
    """The spike logger looks up the sender of a message it receives because it subscribed to exactly the map's keys."""
    return "make_spikes_observer_function" in (e.stack[-1] if e.stack else "") and \
        it[0] == "find" and it[2][:1] == ("fld",) and it[2][2] == "sender_uid_"


def interp_nonempty(c, g):
    """Some branch condition bounds the size of the container from below."""
    for x in g:
        for s in T.subterms(x):
            if s == ("size", c):
                return True
    return False


@check("C08", ["core", "devices", "fw"], ["core", "devices", "fw", "pool", "mt", "st", "store"])
def c08(ctx):
    safety(ctx)


@check("C08", ["core", "pool", "mt"])
def c08_mt(ctx):
    safety(ctx)


@check("C08", ["core", "st", "store"])
def c08_st(ctx):
    safety(ctx)


def safety(ctx):
    nd = ni = nl = 0
    for f in own(ctx.prog):
        r = ctx.run(f, depth=3)
        grown = {}
        for e in r.events:
            if e.kind == "call" and e.obj is not None and e.name in GROWERS:
                grown.setdefault(P(e.obj), []).append(e)
            if e.kind in ("deref", "step"):
                g = guards(e)
                for it in set(T.alts(P(e.val))):
                    if not isinstance(it, tuple) or not it:
                        continue
                    at = "%s" % fname(e.stack[-1] if e.stack else f.qn)
                    if it[0] == "dead":
                        nd += 1
                        ctx.ob("erased/%s" % at, False, ewhere(e),
                               "an iterator is not used after the element it points at was erased", S(it[1]))
                    elif it[0] in ("find", "findif"):
                        nd += 1
                        ctx.ob("lookup/%s" % at, points_at_element(it, g) or subscribed_senders(e, it), ewhere(e),
                               "the result of a lookup is used only where it was found",
                               "%s is dereferenced under %s" % (S(it), sorted(S(x) for x in g) or "no condition"))
            elif e.kind == "index":
                cls = (e.meta or {}).get("cls", "")
                if "map" in cls or not cls.startswith("std::"):
                    continue
                v = P(e.args[0])
                g = guards(e)
                c = P(e.obj)
                at = "%s" % fname(e.stack[-1] if e.stack else f.qn)
                if T.lit_val(v) is not None:
                    ni += 1
                    put = [x for x in grown.get(c, ()) if guards(x) <= g and len(x.loops) <= len(e.loops)]
                    put = put or [x for k, xs in grown.items() for x in xs if k == c and guards(x) <= g]
                    if f.meta.get("lam") and c[:1] == ("var",):
                        continue  # filled by the enclosing function, which is analysed with its lambdas
                    ok = T.neg(("empty", c)) in g or interp_nonempty(c, g) or bool(put) or c[:1] in (("new",), ("agg",))
                    ctx.ob("fixed-index/%s" % at, ok, ewhere(e),
                           "a fixed element of a container is used only where the container is known to have it",
                           "%s[%s] under %s" % (S(c), S(v), sorted(S(x) for x in g) or "no condition"))
                elif v[:2] == ("bin", "-") and T.lit_val(v[3]) is not None:
                    ni += 1
                    lo = v[2]
                    ok = any(T.mentions(x, lo) and about_zero(x, lo) for x in g) or (
                        lo == ("size", c) and T.neg(("empty", c)) in g)
                    ctx.ob("previous-index/%s" % at, ok, ewhere(e),
                           "the element before a count is used only where the count is known not to be zero",
                           "%s under %s" % (S(v), sorted(S(x) for x in g) or "no condition"))
            elif e.kind == "call" and e.obj is not None and not (e.meta or {}).get("inroot") and \
                    e.name in (GROWERS | SHRINKERS):
                c = P(e.obj)
                cls = (e.meta or {}).get("cls", "")
                for lp in e.loops:
                    if lp.kind != "foreach" or P(lp.over) != c:
                        continue
                    nl += 1
                    bad = lp.how == "rfor" and not lp.early and (e.name in SHRINKERS or cls.startswith(CONTIGUOUS))
                    ctx.ob("loop/%s" % fname(e.stack[-1] if e.stack else f.qn), not bad, ewhere(e),
                           "a container is not restructured while a range loop walks over it",
                           "%s of %s inside the loop over it" % (e.name, S(c)))
    ctx.floor("uses of iterators from lookups (%d units)" % len(ctx.prog.units), nd, 4)
    ctx.floor("uses of fixed elements (%d units)" % len(ctx.prog.units), ni, 2)


def about_zero(x, lo):
    """The condition tells zero from non-zero values of `lo`."""
    if x in (("truth", lo), lo):
        return True
    y = x[1] if x[:1] == ("not",) else x
    if y[:1] == ("eq",) and x[:1] == ("not",):
        return lo in y[1:] and any(T.is_zero(z) for z in y[1:])
    if y[:1] == ("lt",):
        if x[:1] == ("not",):
            return y[1] == lo and T.lit_val(y[2]) is not None and T.lit_val(y[2]) >= 1
        return y[2] == lo
    return False


# ----------------------------------------------------------------------------------------------- C10
UID = "knp::core::UID"
TAG = ("fld", ("this",), "tag")
RND = "random_generator"


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def random_value(v):
    return v[:1] == ("call",) and v[1].endswith("operator()") and (
        RND in str(v[2]) or "continuously_uid_generator" in v[1] + str(v[2]))


def uid_sites(ctx):
    """Every construction of an identifier from a boolean gets a boolean (pointers and numbers convert silently)."""
    n = 0
    for f in own(ctx.prog):
        for x in list(nodes(f.body)) + list(nodes(f.ci)):
            if x.get("k") != "ctor":
                continue
            m = f.tu.fns[x["f"]]
            if m["qn"] != UID + "::UID" or not m["pt"] or len(x["a"]) != 1:
                continue
            n += 1
            a = x["a"][0]
            if f.tu.types[m["pt"][0]] != "bool":
                continue
            conv = [c for c in nodes(a) if c.get("k") == "cast" and c.get("ck") in (
                "PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean")]
            ctx.saw(f)
            ctx.ob("from-bool/" + fname(f.qn), not conv, "%s:%s (%s)" % (f.file, x.get("l"), f.label()),
                   "an identifier is never made from something that merely converts to a boolean",
                   "a %s is converted to a boolean" % (f.tu.types[conv[0]["st"]] if conv and "st" in conv[0] else "value"))
    return n


@check("C10", ["core", "devices", "fw"], ["core", "devices", "fw", "pool", "mt", "st", "store"])
def c10(ctx):
    n = uid_sites(ctx)
    ctx.floor("constructions of identifiers", n, 40)
    from ..lib import where
    for f in ctx.prog.methods(UID):
        if f.body is None or f.implicit or f.dflt:
            continue
        r = ctx.run(f)
        if f.meta.get("fk") == "ctor":
            for s, v, line in r.exits:
                got = P(interp.read(s, TAG))
                if not f.params:
                    ctx.ob("make/default", random_value(got), where(f, line), "a default identifier is a generated one", S(got))
                elif f.ptype(0) == "bool":
                    b = ("truth", ("parm", f.params[0]["n"], 0))
                    alts = (T.subst(got, b, T.TRUE), T.subst(got, b, T.FALSE))
                    ok = got[:1] == ("ite",) and got[1] == b and random_value(got[2]) and "nil_uuid" in str(got[3])
                    if not ok and got[:1] == ("ite",):
                        ok = got[1] == T.neg(b) and random_value(got[3]) and "nil_uuid" in str(got[2])
                    del alts
                    ctx.ob("make/bool", ok, where(f, line), "an identifier is generated or null as asked for", S(got))
                else:
                    q = ("parm", f.params[0]["n"], 0)
                    ctx.ob("make/value", got in (q, ("copyof", q)), where(f, line),
                           "an identifier made from a value has that value", S(got))
        elif f.meta.get("fk") == "conv":
            for s, v, line in r.exits:
                v = P(v)
                rt = f.tu.types[f.meta["rt"]]
                if rt == "bool":
                    ctx.ob("valid", "is_nil" in str(v) and v[:1] == ("not",) and T.mentions(v, TAG), where(f, line),
                           "an identifier is valid exactly when it is not null", S(v))
                elif "uuid" in rt:
                    ctx.ob("value", v == TAG, where(f, line), "an identifier converts to its value", S(v))
                else:
                    outs = [e for e in r.events if e.kind == "call" and e.name == "operator<<"]
                    ctx.ob("text", len(outs) == 1 and TAG in [P(a) for a in outs[0].args] and not guards(outs[0]),
                           where(f, line), "the text of an identifier is the text of its value",
                           str([S(a) for e in outs for a in e.args]))
    for f in ctx.prog.fn("knp::core::uid_hash::operator()"):
        r = ctx.run(f)
        for s, v, line in r.exits:
            t = fldof(("parm", f.params[0]["n"], 0))
            ok = T.mentions(P(v), t) and not [x for x in T.subterms(T.subst(P(v), t, ())) if x[:1] == ("parm",)]
            ctx.ob("hash", ok, where(f, line), "the hash of an identifier depends on its value and on nothing else", S(v))
    f = ctx.prog.one("knp::core::continuously_uid_generator::operator()")
    r = ctx.run(f)
    use = [e for e in r.events if "tag_counter" in str(e.obj) or "tag_counter" in str(e.loc) or
           any("tag_counter" in str(a) for a in e.args or ())]
    step = [e for e in use if e.kind == "call" and e.name in ("operator++", "fetch_add", "operator+=")]
    ctx.ob("counter/atomic-step", len(step) == 1 and len(use) == 1 and not guards(step[0]), where(f),
           "consecutive numbers come from one atomic step of the counter, so that two threads never get the same",
           str([(e.kind, e.name) for e in use]))
    for f in ctx.prog.fn("knp::devices::cpu::CPU::CPU"):
        if f.meta.get("cm"):
            continue
        r = ctx.run(f)
        num = ("parm", f.params[0]["n"], 0)
        named = [e for e in r.events if e.kind == "call" and "name_generator" in e.qn]
        src = [a for e in named for a in [P(x) for x in e.args]]
        ns = [P(e.obj) for e in named]
        texts = [P(interp.read(s, ("fld", ("this",), "cpu_name_"))) for s, v, line in r.exits]
        flat = src + texts
        ctx.ob("device/from-name", len(named) == 1 and any(T.mentions(t, num) for t in flat), where(f),
               "the identifier of a CPU is derived from the name that holds its number", str([S(t) for t in flat]))
        ctx.ob("device/fixed-namespace", bool(ns) and all("nil_uuid" in str(x) and not any(
            RND in str(t) for t in T.subterms(x) if t[:1] == ("call",)) for x in ns), where(f),
               "the identifier of a CPU is the same in every run", str([S(x) for x in ns]))
        for s, v, line in r.exits:
            u = P(interp.read(s, fldof(("fld", ("fld", ("this",), "base_"), "uid_"))))
            w = P(interp.read(s, ("fld", ("fld", ("this",), "base_"), "uid_")))
            ctx.ob("device/has-it", "name_generator" in str(u) or "name_generator" in str(w), where(f, line),
                   "a CPU has the identifier derived from its name", S(u))


@check("C10", ["core", "st"], ["core", "pool", "mt"])
def c10_sites(ctx):
    uid_sites(ctx)
    ctx.notes["constructions"] = 1


def fldof(b):
    return ("fld", b, "tag")
