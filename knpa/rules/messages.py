"""Rules for message (un)marshalling, text streams, comparison and moving of values."""
import re

from .. import terms as T
from ..facts import AnalysisBroken
from ..lib import P, S, appends, bulks, check, ewhere, fld, guards, this, where

M = "knp::core::messaging::"
MAR = M + "marshal::"


def root_path(t, root):
    """Field path of a location below `root` ('a.b[].c'), None if it is not below it."""
    out = []
    while True:
        if t == root:
            return ".".join(reversed(out)).replace(".[]", "[]")
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == "fld":
            out.append(t[2])
            t = t[1]
        elif t[0] == "elem":
            out.append("[]")
            t = t[1]
        elif t[0] == "at":
            out.append("[]")
            t = t[1]
        elif t[0] == "get" and len(t) == 3:
            t = t[2]
        elif t[0] in ("deref", "addr", "copyof") and len(t) == 2:
            t = t[1]
        else:
            return None


def paths_in(v, root):
    """Maximal field paths below root that a value is made of (sizes do not count)."""
    out = set()

    def walk(t):
        if isinstance(t, frozenset):
            for x in t:
                walk(x)
            return
        if not isinstance(t, tuple) or not t:
            return
        p = root_path(t, root)
        if p is not None and p != "":
            out.add(p)
            return
        if t[0] in ("size", "empty"):
            return
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                walk(x)
    walk(v)
    return out


def leaves(prog, qn, pre="", seen=()):
    """Leaf field paths of a record of the repository."""
    recs = prog.records_by_qn.get(qn)
    if not recs or qn in seen or not qn.startswith("knp::"):
        return [pre]
    out = []
    for f in recs[0]["f"]:
        ty = f["ty"].replace("const ", "").strip()
        m = re.match(r"std::vector<([\w:]+)", ty)
        n = (pre + "." if pre else "") + f["n"]
        if m:
            out += leaves(prog, m.group(1), n + "[]", seen + (qn,)) if m.group(1) in prog.records_by_qn else [n]
        else:
            out += leaves(prog, ty, n, seen + (qn,))
    return out


def rec_type(ty):
    return ty.replace("const ", "").replace("&", "").replace("*", "").strip()


# ----------------------------------------------------------------------------------------------- C05
def norm_leaf(p):
    return re.sub(r"\.tag(\.data)?$", ".tag", p)


def leaf_of(v, root):
    """Field path a value is an unchanged copy of, None if it is anything else."""
    while isinstance(v, tuple) and v:
        p = root_path(v, root)
        if p is not None:
            return p or None
        if v[0] in ("truth", "copyof", "copy", "moved") and len(v) == 2:
            v = v[1]
        elif v[0] == "not" and v[1][:1] == ("eq",) and any(T.is_zero(x) for x in v[1][1:]):
            v = next(x for x in v[1][1:] if not T.is_zero(x))
        elif v[0] == "new":
            a = [x for x in v[2] if x[:1] != ("size",)]
            if len(a) != 1:
                return None
            v = a[0]
        elif v[0] == "agg":
            a = [x for k, x in v[2] if k != "*"]
            if len(a) != 1:
                return None
            v = a[0]
        else:
            return None
    return None


def fillings(r):
    """container -> [(event, source container or None, element value)] of what is put into it."""
    out = {}
    done = set()
    for b in bulks(r):
        out.setdefault(b.dst, []).append((b.e, b.loops, b.src, ("elem", b.src)))
        done.add(b.e.ix)
    for e, v, c in appends(r):
        if c is None or e.ix in done:
            continue
        lp = e.loops[-1] if e.loops else None
        if e.kind == "produce":         # a transformation of the whole range
            out.setdefault(c, []).append((e, e.loops, P(e.obj) if e.obj is not None else None, v))
        elif lp is not None and lp.kind == "foreach" and not lp.early:
            out.setdefault(c, []).append((e, e.loops[:-1], P(lp.over), v))
        else:
            out.setdefault(c, []).append((e, e.loops, None, v))
    return out


def filled(fill, c, path_of):
    """(path of the container every element of which goes into c in order, element value), None if it is not so."""
    got = fill.get(c, [])
    if len(got) != 1:
        return None
    e, outer, src, v = got[0]
    p = path_of(src) if src is not None else None
    if p is None or outer or guards(e):
        return None
    return p, v, src


def pack_map(r, root, create):
    """slot path -> source field path of one packed message; slots that cannot be named are in the second result."""
    pn = {}
    for e in r.events:
        if e.kind == "ctor" and (e.qn or "").startswith(MAR):
            pn[e.types] = (e.meta or {}).get("pn")
    fill = fillings(r)
    out, opaque = {}, set()

    def flat(v, path, inside=None):
        if v[:1] == ("new",) and v[1] in pn:
            for n, a in zip(pn[v[1]], v[2]):
                flat(a, (path + "." if path else "") + n.strip("_"), inside)
            return
        if v in fill:
            f = filled(fill, v, lambda c: root_path(c, root))
            if f is None:
                out[path + "[]"] = "only a part of the elements"
            elif f[1] and isinstance(f[1][0], tuple):
                opaque.add(f[0])        # built in place by a generated constructor
            elif f[1] == ("elem", f[2]):
                out[path] = f[0]
            else:
                flat(f[1], path + "[]", f[0])
            return
        p = leaf_of(v, root)
        if p is not None and "[]" in p and p.split("[]")[0] != inside:
            p = None
        out[path] = norm_leaf(p) if p is not None else S(v)
    meta = create.meta["pn"]
    for n, a in zip(meta, create.args):
        if n == "_fbb":
            continue
        a = P(a)
        if a[:1] == ("addr",) and create.pointees and a[1] in {P(k) for k in create.pointees}:
            v = [P(x) for k, x in create.pointees.items() if P(k) == a[1]][0]
            if a[1] in fill:
                v = a[1]
            a = v
        flat(a, n.strip("_"))
    return out, opaque


def accessor_path(v, root):
    """Path of generated accessors a value was read through ('header.sender_uid'), None if there is none."""
    out = []
    t = v
    while isinstance(t, tuple) and t and t != root:
        if t[0] == "call" and t[1].startswith(MAR) and t[2]:
            out.append(t[1].rsplit("::", 1)[-1])
            t = t[2][0]
        elif t[0] in ("deref", "addr", "copyof", "begin", "truth") and len(t) == 2:
            t = t[1]
        elif t[0] in ("elem", "at"):
            out.append("[]")
            t = t[1]
        elif t[0] == "new" and t[2]:
            t = t[2][0]
        else:
            return None
    return ".".join(reversed(out)).replace(".[]", "[]") if t == root else None


def unpack_map(r, root, val):
    fill = fillings(r)
    out = {}

    def flat(v, path, inside=None):
        if v[:1] == ("agg",):
            for k, x in v[2]:
                if k == "*":
                    continue
                flat(x, (path + "." if path else "") + k, inside)
            return
        if v in fill:
            f = filled(fill, v, lambda c: accessor_path(c, root))
            if f is None:
                out[norm_leaf(path)] = "only a part of the elements"
            elif f[1] == ("elem", f[2]):
                out[norm_leaf(path)] = f[0]
            else:
                flat(f[1], path + "[]", f[0])
            return
        a = accessor_path(v, root)
        if a is not None and "[]" in a and a.split("[]")[0] != inside:
            a = None
        out[norm_leaf(path)] = a if a is not None else S(v)
    flat(val, "")
    return out


def narrowed(ctx, key, r):
    bad = [e for e in r.events if e.kind == "narrow"]
    ctx.ob(key, not bad, ewhere(bad[0]) if bad else where(r.fn) if hasattr(r, "fn") else "",
           "no field loses bits when a message is packed, unpacked or streamed",
           bad and "%s is converted from %s to %s" % ((S(P(bad[0].val)),) + tuple(bad[0].types)))


def variant_types(ty):
    m = re.search(r"std::variant<(.*)>", ty)
    return [x.strip() for x in m.group(1).split(",")] if m else []


@check("C05", ["core"])
def c05(ctx):
    prog = ctx.prog
    packs, unpacks = {}, {}
    for f in prog.fn(M + "pack_internal"):
        r = ctx.run(f)
        ty = rec_type(f.ptype(1))
        cr = [e for e in r.events if e.kind == "call" and e.qn.startswith(MAR + "Create")]
        if len(cr) != 1 or guards(cr[0]) or cr[0].loops:
            ctx.ob("pack/%s/one" % ty.rsplit("::", 1)[-1], False, where(f), "packing writes one message",
                   "%d writes" % len(cr))
            continue
        packs[ty] = (f, pack_map(r, ("parm", f.params[1]["n"], 1), cr[0]), cr[0])
        narrowed(ctx, "pack/%s/exact" % ty.rsplit("::", 1)[-1], r)
    for f in prog.fn(M + "unpack"):
        r = ctx.run(f)
        for s, v, line in r.exits:
            v = P(v)
            if v[:1] != ("agg",):
                raise AnalysisBroken("C05: unpack does not return an aggregate: " + S(v)[:80])
            narrowed(ctx, "unpack/%s/exact" % v[1].rsplit("::", 1)[-1], r)
            unpacks[v[1].replace("const ", "")] = (f, unpack_map(r, ("deref", ("parm", f.params[0]["n"], 0)), v), line)
    ctx.floor("packed message types", len(packs), 2)
    ctx.floor("unpacked message types", len(unpacks), 2)
    for ty in sorted(packs):
        short = ty.rsplit("::", 1)[-1]
        f, (pm, opaque), e = packs[ty]
        if ty not in unpacks:
            ctx.ob("unpack/" + short, False, where(f), "every packed message type can be unpacked", "no unpack for it")
            continue
        g, um, line = unpacks[ty]
        inv = {}
        for slot, src in pm.items():
            inv.setdefault(src, []).append(slot)
        for leaf in leaves(prog, ty):
            leaf = norm_leaf(leaf)
            if "[]" in leaf and leaf.split("[]")[0] in opaque:
                continue
            slots = inv.get(leaf, [])
            ctx.ob("pack/%s/%s" % (short, leaf), len(slots) == 1, ewhere(e),
                   "packing stores every field of a message in one slot", "%s goes to %s" % (leaf, slots or "no slot"))
            if len(slots) == 1:
                slot = slots[0]
                got = um.get(leaf)
                ctx.ob("unpack/%s/%s" % (short, leaf), got == slot, where(g, line),
                       "unpacking reads every field back from the slot packing stored it in",
                       "%s is stored in %s and read from %s" % (leaf, slot, got))
    # both sides of the envelope agree on which number stands for which type
    f = prog.one(M + "pack_to_envelope")
    r = ctx.run(f)
    alts = variant_types(f.ptype(0))
    if len(alts) < 2:
        raise AnalysisBroken("C05: message variant not recognised: " + f.ptype(0))
    en = {c["n"]: int(c["v"]) for c in prog.enum(MAR + "Message")["c"]}
    n = 0
    for e in r.events:
        if e.kind == "call" and e.qn == MAR + "CreateMessageEnvelope":
            n += 1
            arg = dict(zip(e.meta["pn"], [P(a) for a in e.args]))
            num = arg.get("message_type")
            msg = ("parm", f.params[0]["n"], 0)
            alt = [rec_type(g[2]) for g in guards(e) if g[:1] == ("alt",) and g[1] == msg]
            inner = [t[1].rsplit("::", 1)[-1] for t in T.subterms(arg.get("message", ())) if t[:1] == ("call",) and
                     t[1].startswith(MAR + "Create")]
            ty = alt[0] if alt else None
            short = (ty or "?").rsplit("::", 1)[-1]
            idx = alts.index(ty) if ty in alts else None
            val = const_of(num, ("call", "std::variant::index", (msg,)), idx)
            ctx.ob("envelope/pack-" + short, val is not None and en.get("Message_" + short) == val, ewhere(e),
                   "a message is put into the envelope under the number of its type",
                   "type %s under %s" % (short, S(num)))
            ctx.ob("envelope/payload-" + short, inner and inner[0].startswith("Create" + short), ewhere(e),
                   "the envelope holds the message it was made for", str(inner))
    ctx.floor("envelope writers", n, 2)
    fs = [g for g in prog.fn(M + "extract_from_envelope") if "void" in g.ptype(0)]
    if not fs:
        raise AnalysisBroken("anchor vanished: extract_from_envelope(const void *)")
    f = fs[0]
    r = ctx.run(f)
    seen = set()
    for s, v, line in r.exits:
        v = P(v)
        ty = v[1].replace("const ", "") if v[:1] == ("agg",) else None
        short = (ty or "?").rsplit("::", 1)[-1]
        eqs = [g for g in map(P, s.guards) if g[:1] == ("eq",)]
        en_names = {x[1].rsplit("::", 1)[-1] for g in eqs for x in g[1:] if x[:1] == ("enum",)}
        known = {g[1].rsplit("::", 1)[-1] for g in map(present, map(P, s.guards)) if g and "message_as_" in g[1]}
        acc = {t[1].rsplit("::", 1)[-1] for t in T.subterms(v) if t[:1] == ("call",) and "message_as_" in t[1]}
        ctx.ob("envelope/unpack-" + short,
               (en_names == {"Message_" + short} or not en_names and known == {"message_as_" + short}) and acc == {"message_as_" + short},
               where(f, line), "a message is taken out of the envelope as the type its number stands for",
               "%s unpacked as %s under %s" % (short, sorted(acc), sorted(en_names)))
        seen.add(ty)
    for ty in alts:
        ctx.ob("envelope/covers-" + ty.rsplit("::", 1)[-1], ty in seen, where(f),
               "every message type can be taken out of an envelope", "no case for it")
    ctx.ob("envelope/unknown", bool(r.throws), where(f), "an unknown message number is refused", "no exception")
    # the two output type enumerations are converted by value
    a = {c["n"]: int(c["v"]) for c in prog.enum("knp::synapse_traits::OutputType")["c"]}
    b = {re.sub("^OutputType_", "", c["n"]): int(c["v"]) for c in prog.enum("knp::synapse_traits::marshal::OutputType")["c"]}
    for k, v in a.items():
        ctx.ob("output-type/" + k, b.get(k) == v, prog.enum("knp::synapse_traits::OutputType")["file"],
               "a synapse output type has the same number inside and outside of messages", "%s is %s and %s" % (
                   k, v, b.get(k)))
    # text streams
    ins, outs = {}, {}
    for f in prog.fn(M + "operator<<"):
        outs[rec_type(f.ptype(1))] = f
    for f in prog.fn(M + "operator>>"):
        ins[rec_type(f.ptype(1))] = f
    both = sorted(set(ins) & set(outs))
    ctx.floor("streamed types", len(both), 4)
    for ty in both:
        short = ty.rsplit("::", 1)[-1]
        ro, ri = ctx.run(outs[ty]), ctx.run(ins[ty])
        o, seps = out_tokens(ro, outs[ty])
        i = in_tokens(ri, ins[ty])
        narrowed(ctx, "stream/%s/exact-out" % short, ro)
        narrowed(ctx, "stream/%s/exact-in" % short, ri)
        ctx.ob("stream/%s/order" % short, o == i, where(ins[ty]),
               "a message is read from a stream field by field in the order it is written",
               "written %s, read %s" % (o, i))
        ctx.ob("stream/%s/separated" % short, not seps, where(outs[ty]),
               "consecutive values are separated when a message is written to a stream", "no separator before %s" % seps)
        for leaf in leaves(prog, ty):
            ctx.ob("stream/%s/%s" % (short, norm_leaf(leaf)), norm_leaf(leaf) in o or leaf + "[]" in o, where(outs[ty]),
                   "every field of a message is written to a stream", "%s is not among %s" % (leaf, o))


def present(g):
    """Call whose result a condition says is not null."""
    if g[:1] == ("truth",):
        g = g[1]
    if g[:1] == ("not",) and g[1][:1] == ("eq",):
        x = [t for t in g[1][1:] if t[:1] == ("call",)]
        g = x[0] if len(x) == 1 else g
    return g if g[:1] == ("call",) else None


def const_of(t, var, idx):
    """Value of an arithmetic term with `var` = idx."""
    if idx is None or t is None:
        return None
    t = T.subst(t, var, ("lit", str(idx)))
    if T.lit_val(t) is not None:
        return T.lit_val(t)
    if t[:1] == ("bin",):
        a, b = const_of(t[2], var, idx), const_of(t[3], var, idx)
        if a is None or b is None:
            return None
        return {"+": a + b, "-": a - b, "*": a * b}.get(t[1])
    if t[:1] == ("cast",):
        return const_of(t[-1], var, idx)
    return None


def whole_loop(e, base, names, root):
    """The event happens once for every position of the container with field path `base`, in order."""
    if guards(e) or len(e.loops) != 1 or e.loops[0].early:
        return False
    lp = e.loops[0]
    over = P(lp.over) if lp.over is not None else None
    if lp.kind == "foreach":
        return root_path(over, root) == base
    if isinstance(over, tuple) and len(over) == 3 and over[2] in (1, T.lit(1) if hasattr(T, "lit") else 1):
        return T.is_zero(over[0]) and (names.get(over[1]) == "size(%s)" % base or
                                       over[1] == ("size", fld(root, *base.split("."))))
    return False


def out_tokens(r, f):
    root = ("parm", f.params[1]["n"], 1)
    out, bad, sep, first = [], [], True, True
    for e in r.events:
        if e.kind != "call" or not (e.qn or "").endswith("operator<<") or not e.args:
            continue
        v = P(e.args[-1])
        if v[:1] in (("str",), ("lit",), ("chr",)):
            text = str(v[1]).strip("'")
            if any(c.isspace() for c in text) or text in ("32", "10", "9"):
                sep = sep or not guards(e)
                continue
            if v[:1] != ("lit",) or not text.isdigit():
                continue
        if v[:1] == ("size",):
            p = "size(%s)" % root_path(v[1], root)
        else:
            p = leaf_of(v, root)
            p = norm_leaf(p) if p is not None else S(v)
        if "[]" in p:
            if not whole_loop(e, p.split("[]")[0], {}, root):
                p += "?"
        elif guards(e) or e.loops:
            p += "?"
        if not sep and not first:
            bad.append(p)
        out.append(p)
        sep = first = False
    return out, bad


def in_tokens(r, f):
    root = ("parm", f.params[1]["n"], 1)
    names = {}          # local -> what it stands for
    held = {}           # local container -> field path it ends up in
    emptied = {}        # field path -> event that empties it
    for e in r.events:
        if e.kind == "write" and e.val is not None:
            p = root_path(P(e.loc), root)
            v = P(e.val)
            while v[:1] in (("truth",), ("moved",), ("copy",)) or v[:1] == ("not",) and v[1][:1] == ("eq",) and any(
                    T.is_zero(x) for x in v[1][1:]):
                v = v[1] if v[0] != "not" else next(x for x in v[1][1:] if not T.is_zero(x))
            if p and not guards(e):
                if v[:1] == ("var",):
                    names.setdefault(v, norm_leaf(p))
                    held[v] = p
                if v[:1] in (("new",), ("ctor",)) and len(v) > 2 and isinstance(v[2], tuple):
                    held[v] = p
                    if v[2] and v[2][0][:1] == ("var",):
                        names[v[2][0]] = "size(%s)" % p
                    elif not v[2]:
                        emptied[p] = e
        if e.kind == "call" and e.name in ("resize", "clear") and e.obj is not None and not guards(e) and not e.loops:
            p = root_path(P(e.obj), root)
            p = held.get(P(e.obj)) if p is None else p
            if p is None:
                continue
            v = P(e.args[0]) if e.args else T.ZERO
            if v[:1] == ("var",):
                names[v] = "size(%s)" % p
            elif T.is_zero(v):
                emptied[p] = e
    reads = [(P(e.raw[-1]), e) for e in r.events
             if e.kind == "call" and (e.qn or "").endswith("operator>>") and e.args]
    # elements read into a local and put at the end of an emptied container
    for e in r.events:
        if e.kind != "call" or e.name not in ("push_back", "emplace_back") or len(e.args) != 1 or guards(e):
            continue
        p = root_path(P(e.obj), root)
        if p not in emptied or emptied[p].ix > e.ix or len(e.loops) != 1:
            continue
        lp = e.loops[0]
        v = P(e.raw[0])
        mine = [x for x, q in reads if q.loops == e.loops and (x == v or root_path(x, v) is not None)]
        over = P(lp.over) if lp.over is not None else None
        if mine and not lp.early and isinstance(over, tuple) and len(over) == 3 and T.is_zero(over[0]) and \
                over[1][:1] == ("var",):
            names.setdefault(over[1], "size(%s)" % p)
            for x in mine:
                q = root_path(x, v)
                names[x] = p + "[]" + ("." + q if q else "")
    out = []
    for loc, e in reads:
        p = root_path(loc, root)
        if p is None:
            c = loc
            while c[:1] in (("fld",), ("elem",), ("at",)) and c not in held:
                c = c[1]
            q = root_path(loc, c) if c in held and c != loc else None
            if q is not None:
                lp = e.loops[0] if len(e.loops) == 1 else None
                ok = lp is not None and not lp.early and not guards(e) and (
                    lp.kind == "foreach" and P(lp.over) == c or whole_loop(e, held[c], names, root))
                out.append(held[c] + q + ("" if ok else "?"))
                continue
            out.append(names.get(loc, S(loc)) + ("?" if guards(e) else ""))
            continue
        p = norm_leaf(p)
        if "[]" in p:
            if not whole_loop(e, p.split("[]")[0], names, root):
                p += "?"
        elif guards(e) or e.loops:
            p += "?"
        out.append(p)
    return out


# ----------------------------------------------------------------------------------------------- C06
@check("C06", ["core", "devices"], ["core", "devices", "st", "mt", "fw"])
def c06(ctx):
    prog = ctx.prog
    n = 0
    for f in sorted(prog.functions.values(), key=lambda f: f.id):
        if f.name != "operator==" or f.body is None or f.implicit or f.dflt:
            continue
        if not f.cls and len(f.params) == 2:
            a, b = ("parm", f.params[0]["n"], 0), ("parm", f.params[1]["n"], 1)
            ty = rec_type(f.ptype(0))
        elif f.cls and len(f.params) == 1:
            a, b = ("this",), ("parm", f.params[0]["n"], 0)
            ty = f.cls
            if rec_type(f.ptype(0)).split("<")[0] != f.cls:
                continue
        else:
            continue
        if "Iterator" in ty or ty not in prog.records_by_qn or not ty.startswith("knp::core"):
            continue
        n += 1
        short = ty.replace("knp::core::", "").replace("messaging::", "")
        r = ctx.run(f)
        lv = sorted({norm_leaf(x).split("[]")[0] for x in leaves(prog, ty)})
        paths = [(frozenset(P(g) for g in s.guards), P(v), line) for s, v, line in r.exits]
        atoms, odd = {}, {}
        for gs, v, line in paths:
            for t in list(gs) + [v]:
                for c in atoms_of(t):
                    p = same_field(c, a, b)
                    if p is None:
                        odd[c] = line
                    else:
                        atoms[c] = p
        for leaf in lv:
            ok = any(leaf == p or leaf.startswith(p + ".") or leaf == p + ".tag" or p == "" for p in atoms.values())
            ctx.ob("equal/%s/%s" % (short, leaf), ok, where(f),
                   "two values are equal only if every field is equal", "%s is not compared" % leaf)
        bad = None
        if not odd and len(atoms) <= 12:
            names = sorted(set(atoms.values()))
            for bits in range(1 << len(names)):
                val = {c: bool(bits >> names.index(p) & 1) for c, p in atoms.items()}
                got = {truth_of(v, val) for gs, v, line in paths if all(truth_of(g, val) for g in gs)}
                want = bits == (1 << len(names)) - 1
                if got != {want}:
                    bad = "with %s equal and the rest different the answer is %s" % (
                        [p for i, p in enumerate(names) if bits >> i & 1], sorted(map(str, got)))
                    break
        ctx.ob("equal/%s/only" % short, not odd and bad is None, where(f),
               "two values are equal exactly when all their fields are", bad or "also depends on " + ", ".join(map(S, odd)))
    ctx.floor("comparisons", n, 4)
    # identifiers
    for nm, want in (("operator<", "lt"), ("operator!=", "ne")):
        for f in prog.fn("knp::core::UID::" + nm):
            r = ctx.run(f)
            for s, v, line in r.exits:
                v = P(v)
                t, o = this("tag"), fld(("parm", f.params[0]["n"], 0), "tag")
                lex = [("call", "std::lexicographical_compare", (("begin", x), ("end", x), ("begin", y), ("end", y)))
                       for x, y in ((t, o), (o, t))]
                ok = v in [("lt", t, o), ("lt", o, t)] + lex if want == "lt" else v == T.neg(T.eq(t, o))
                ctx.ob("uid/" + want, ok, where(f, line), "identifiers are ordered and compared strictly by their value", S(v))
    # user-written moves keep every field
    k = 0
    for f in sorted(prog.functions.values(), key=lambda f: f.id):
        cm = f.meta.get("cm")
        if cm not in ("move", "copy", "move=", "copy=") or f.dflt or f.implicit or f.body is None:
            continue
        if not (f.cls or "").startswith("knp::") or f.meta.get("lam"):
            continue
        recs = [x for x in prog.record(f.cls) if x["f"] is not None]
        k += 1
        r = ctx.run(f)
        short = f.cls.replace("knp::", "").split("::")[-1]
        other = ("parm", f.params[0]["n"], 0)
        got = {}
        bases = set()
        for e in r.events:
            if e.kind == "write" and P(e.loc)[:2] == ("fld", ("this",)) and not guards(e):
                got.setdefault(P(e.loc)[2], []).append(P(e.val))
            elif e.kind == "call" and e.name == "swap":
                x = [P(e.obj)] if e.obj is not None else []
                x += [P(q) for q in e.raw or ()]
                mine = [q for q in x if q[:2] == ("fld", ("this",))]
                theirs = [q for q in x if q[:2] == ("fld", other)]
                if mine and theirs and mine[0][2] == theirs[0][2]:
                    got.setdefault(mine[0][2], []).append(theirs[0])
            elif e.kind in ("enter", "ctor", "call", "base", "write"):
                if e.kind == "base":
                    bases.add(P(e.val))
                elif (e.kind == "write" and P(e.loc) == ("this",)) or e.kind in ("enter", "ctor") and e.obj is not None and \
                        P(e.obj) == ("this",):
                    bases.add(P(e.val) if e.kind == "write" else tuple(P(q) for q in e.args or ()))
        for fd in recs[0]["f"]:
            ok = any(x == fld(other, fd["n"]) for x in got.get(fd["n"], ()))
            ctx.ob("move/%s%s/%s" % (short, "=" if "=" in cm else "", fd["n"]), ok, where(f),
                   "moving a value takes every field along", "%s becomes %s" % (
                       fd["n"], S(got.get(fd["n"], [("str", "a default value")])[-1])))
        for b in recs[0]["bases"]:
            bn = b if isinstance(b, str) else b.get("qn") or str(b)
            br = prog.records_by_qn.get(bn.split("<")[0])
            if not br or not br[0]["f"]:
                continue
            fields = [x["n"] for x in br[0]["f"]] if br else []
            ok = any(other in (x if isinstance(x, tuple) else ()) or x == other for x in bases) or \
                (fields and all(any(x == fld(other, n2) for x in got.get(n2, ())) for n2 in fields))
            ctx.ob("move/%s%s/%s" % (short, "=" if "=" in cm else "", bn.split("::")[-1]), ok, where(f),
                   "moving a value takes its base class along", "the base %s is not taken from the source" % bn)
    ctx.floor("user-written moves", k, 3)


def atoms_of(t):
    """Elementary conditions a boolean term is made of."""
    if t in (T.TRUE, T.FALSE):
        return []
    if t[:1] in (("and",), ("or",)):
        xs = t[1] if len(t) == 2 and isinstance(t[1], frozenset) else t[1:]
        return [c for x in xs for c in atoms_of(x)]
    if t[:1] in (("not",), ("truth",)):
        return atoms_of(t[1])
    if t[:1] == ("ite",):
        return [c for x in t[1:] for c in atoms_of(x)]
    pairs = tuples(t)
    if pairs:
        return [c for x in pairs for c in atoms_of(x)]
    return [t]


def tuples(t):
    """Equalities of the components two tuples are made of."""
    if t[:1] == ("eq",):
        x, y = t[1], t[2]
        if x[:1] == y[:1] and x[0] in ("new", "ctor") and x[1] == y[1] and len(x[2]) == len(y[2]) > 1:
            return [T.eq(p, q) for p, q in zip(x[2], y[2])]
        if x[:1] == y[:1] == ("call",) and x[1] == y[1] and x[1] in ("std::tie", "std::make_tuple", "std::forward_as_tuple"):
            return [T.eq(p, q) for p, q in zip(x[2], y[2])]
    return None


def truth_of(t, val):
    if t in val:
        return val[t]
    if t == T.TRUE:
        return True
    if t == T.FALSE:
        return False
    if t[:1] in (("and",), ("or",)):
        xs = t[1] if len(t) == 2 and isinstance(t[1], frozenset) else t[1:]
        return (all if t[0] == "and" else any)(truth_of(x, val) for x in xs)
    if t[0] == "not":
        return not truth_of(t[1], val)
    if t[0] == "truth":
        return truth_of(t[1], val)
    if t[0] == "ite":
        return truth_of(t[2] if truth_of(t[1], val) else t[3], val)
    return all(truth_of(x, val) for x in tuples(t) or ())


def same_field(c, a, b):
    """Field path that a condition requires to be equal in both values."""
    if c[:1] == ("eq",):
        x, y = c[1], c[2]
    elif c[:1] == ("call",) and c[1] == "std::equal" and len(c[2]) == 4 and [t[0] for t in c[2]] == [
            "begin", "end", "begin", "end"] and c[2][0][1] == c[2][1][1] and c[2][2][1] == c[2][3][1]:
        x, y = c[2][0][1], c[2][2][1]
    else:
        return None
    for m, n in ((x, y), (y, x)):
        p = root_path(m, a)
        if p is not None and p == root_path(n, b):
            return norm_leaf(p)
    return None
