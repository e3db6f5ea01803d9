"""Image datasets (F08)."""
from .. import interp
from .. import terms as T
from ..lib import P, S, check, ewhere, guards, mutations, this, where
from .algebra import equal, form, minus, plain
from .handlers import View, cases, flat
from .network import norm, parameter
from .wiring import read_fails

BASE = "knp::framework::data_processing::classification::Dataset::"
IMG = "knp::framework::data_processing::classification::images::Dataset::"
SET = this("dataset_")
TRAIN, INFER = this("frames_amount_for_training_"), this("frames_amount_for_inference_")
STEPS, SIZE, CLASSES = this("steps_per_frame_"), this("image_size_"), this("classes_amount_")


def B(op, a, b):
    return ("bin", op, a, b)


class Called:
    """The events of one call of the function object a function returns."""

    def __init__(self, ctx, fn, *args):
        self.fn, self.r = fn, ctx.run(fn)
        self.ok = False
        for st, v, _ in self.r.exits:
            if v[:1] == ("lam",):
                it = self.r.interp
                n0 = len(it.events)
                nn, dfr, _ = it.closures[v[2]]
                self.made = dict(v=v)
                out, val = it.call_lambda(v, list(args), st.copy(), dfr, 0)
                self.events, self.state, self.value, self.ok = it.events[n0:], out, val, True
                it.events = it.events[:n0] if isinstance(it.events, list) else it.events


@check("F08", ["fw"])
def f08(ctx):
    n = 0
    for fn in ctx.prog.fn(BASE + "split"):
        split(ctx, fn)
        n += 1
    for name, want in (("get_data_for_training", (("begin", SET), B("+", ("begin", SET), TRAIN))),
                       ("get_data_for_inference", (B("+", ("begin", SET), TRAIN),
                                                   B("+", B("+", ("begin", SET), TRAIN), INFER)))):
        for fn in ctx.prog.fn(BASE + name):
            r = ctx.run(fn)
            got = [v for _, v, _ in r.exits]
            ok = bool(got)
            for v in got:
                v = norm(v)
                v = v[1] if v[:1] == ("tuple",) else v[2] if v[:1] == ("new",) else ()
                ok = ok and len(v) == 2 and all(equal(a, b) for a, b in zip(v, want))
            ctx.ob("data/" + name, ok, where(fn), "training frames come first, inference frames follow them",
                   "; ".join(S(norm(v))[:120] for v in got))
            n += 1
    for name, want in (("get_steps_amount_for_training", B("*", TRAIN, STEPS)), ("get_steps_amount_for_inference", B("*", INFER, STEPS)),
                       ("get_steps_per_frame", STEPS), ("get_amount_of_classes", CLASSES)):
        for fn in ctx.prog.fn(BASE + name):
            r = ctx.run(fn)
            got = [v for _, v, _ in r.exits]
            ctx.ob("amount/" + name, bool(got) and all(equal(norm(v), want) for v in got), where(fn),
                   "a frame takes the given number of steps", "; ".join(S(norm(v))[:120] for v in got))
            n += 1
    for fn in ctx.prog.fn(IMG + "get_image_size"):
        r = ctx.run(fn)
        ctx.ob("amount/get_image_size", all(norm(v) == SIZE for _, v, _ in r.exits), where(fn), "the image size is the one given", "another value")
    for fn in ctx.prog.fn(IMG + "process_labels_and_images"):
        reading(ctx, fn)
        n += 1
    for name, off, count in (("training_labels", None, TRAIN), ("training_images_spikes", None, TRAIN),
                             ("inference_images_spikes", TRAIN, INFER)):
        for fn in ctx.prog.fn("%smake_%s_generator" % (IMG, name)):
            generator(ctx, fn, name, off, count)
            n += 1
    for fn in ctx.prog.fn(IMG + "make_incrementing_image_to_spikes_converter"):
        incrementing(ctx, fn)
        n += 1
    ctx.floor("dataset operations", n, 10)


def split(ctx, fn):
    r = ctx.run(fn)
    a, b, have = parameter(fn, 0), parameter(fn, 1), ("size", SET)
    # reaching the end means both parts fit, without wrapping around
    fit = {T.neg(("lt", have, a)), T.neg(("lt", B("-", have, a), b))}
    other = {T.neg(("lt", have, b)), T.neg(("lt", B("-", have, b), a))}
    ok, why = bool(r.exits), "no way out"
    for st, _, _ in r.exits:
        cs = {form(norm(c)) for c in st.guards}
        if not any({form(x) for x in f} <= cs for f in (fit, other)):
            ok, why = False, "accepted when " + ", ".join(S(norm(c))[:80] for c in st.guards)
        elif len(cs) != 2:
            ok, why = False, "refused in other cases too"
    ctx.ob("split/fits", ok, where(fn), "a split is accepted exactly when both parts fit into the dataset", why)
    for loc, want in ((TRAIN, a), (INFER, b)):
        ws = [e for e in r.events if e.kind == "write" and P(e.loc) == loc]
        vals = {norm(interp.read(st, loc)) for st, _, _ in r.exits}
        ctx.ob("split/" + loc[2], vals == {want}, where(fn), "the accepted amounts are kept", ", ".join(S(x) for x in vals))
        for e in ws:
            ok = any(frozenset(norm(c) for c in st.guards) <= frozenset(norm(c) for c in e.guards) for st, _, _ in r.exits)
            ctx.ob("split/refused", ok, ewhere(e), "a refused split changes nothing", "written before the check")


def reading(ctx, fn):
    view = View(ctx, fn)
    r = view.r
    images, labels, most, classes, size, steps, conv = [parameter(fn, i) for i in range(7)]
    for loc, want in ((SIZE, size), (STEPS, steps), (CLASSES, classes)):
        vals = {norm(interp.read(st, loc)) for st, _, _ in r.exits}
        ctx.ob("read/" + loc[2], vals == {want}, where(fn), "the dataset keeps the given sizes", ", ".join(S(x)[:60] for x in vals))
    puts = [e for e in mutations(r, SET, deep=False) if e.name in ("push_back", "emplace_back", "insert", "emplace")]
    other = [e for e in mutations(r, SET) if e not in puts and e.name not in ("reserve", "shrink_to_fit", "clear")]
    ok = len(puts) == 1 and not other
    ctx.ob("read/one-way", ok, where(fn), "frames enter the dataset in one place", "%d insertions, %d other changes" % (len(puts), len(other)))
    if not ok:
        return
    e = puts[0]
    cs = view.conds(e.guards)
    img = [c for x in r.events if x.kind == "call" and x.name == "read" and x.obj is not None and norm(x.obj) == images for c in [x]]
    lab = [x for x in r.events if x.kind == "call" and x.qn == "std::getline" and norm(x.args[0]) == labels]
    one = len(img) == 1 and len(lab) == 1 and img[0].loops == lab[0].loops == e.loops and len(e.loops) == 1 and \
        img[0].ix < e.ix and lab[0].ix < e.ix
    ctx.ob("read/pairs", one, ewhere(e), "one image and one label are read for every frame",
           "%d image reads, %d label reads" % (len(img), len(lab)))
    if not one:
        return
    ctx.ob("read/size", norm(img[0].args[1]) == size and len(img[0].args) == 2, ewhere(img[0]), "an image has the given number of bytes", S(norm(img[0].args[1])))
    got = [c for c in cs if c[:1] == ("not",) and failed(c[1], "read", images) or failed(T.neg(c), "read", images)]
    gotl = [c for c in cs if failed(T.neg(c), "getline", labels)]
    ctx.ob("read/whole-image", bool(got), ewhere(e), "only an image that was read completely becomes a frame", "not checked")
    ctx.ob("read/whole-label", bool(gotl), ewhere(e), "only an image with a label becomes a frame", "not checked")
    rest = [c for c in cs if c not in got and c not in gotl and not good(c, images, labels) and not bounded(c, most)]
    ctx.ob("read/every", not rest, ewhere(e), "every image with a label becomes a frame", "only when " + ", ".join(S(c)[:80] for c in rest))
    lp = e.loops[0]
    outs = [set().union(*[flat(view(c)) for c in x]) if x else set() for x in lp.leaves]
    wrong = [x for x in outs if not any(failed(c, "read", images) or failed(c, "getline", labels) or not_good(c, images, labels) or
                                        bounded(c, most) for c in x)]
    ctx.ob("read/until", not wrong, where(fn), "reading goes on until a stream ends or the dataset is full",
           "; ".join(", ".join(S(c)[:60] for c in x) for x in wrong))
    full = [c for x in outs for c in x if bounded(c, most)]
    early = [c for c in full if c[:1] != ("not",) and not equal_size(c, most)]
    ctx.ob("read/most", bool(full) or any(bounded(c, most) for c in cs), where(fn), "no more frames are taken than allowed", "no bound")
    ctx.ob("read/all-allowed", not early, where(fn), "as many frames are taken as allowed", ", ".join(S(c)[:80] for c in early))
    v = [view(x) for x in e.args]
    v = v[0][1] if len(v) == 1 and v[0][:1] == ("tuple",) else v[0][2] if len(v) == 1 and v[0][:1] == ("new",) else v
    buf = norm(img[0].args[0])
    buf = buf[2][0] if buf[:1] == ("call",) and buf[2] else buf
    line = norm(lab[0].raw[1]) if lab[0].raw else None
    number = len(v) == 2 and v[0][:1] == ("call",) and v[0][1] in ("std::stoi", "std::stoul", "std::stol")
    label = number and (v[0][2][0] in (line, view(line)) if line else True)
    ctx.ob("read/label", bool(label), ewhere(e), "the label of a frame is the number on its line", S(v[0])[:100])
    made = ("call", "std::function::operator()", (conv, under_names(view, buf)))
    ok = len(v) == 2 and (v[1] == made or v[1][:2] == made[:2] and v[1][2][0] == conv and T.mentions(v[1], under_names(view, buf)))
    ctx.ob("read/frame", ok, ewhere(e), "a frame is what the converter makes of the image", S(v[1])[:140] if len(v) > 1 else "?")


def under_names(view, t):
    while t[:1] in (("deref",), ("addr",)):
        t = t[1]
    if t[:1] == ("at",):
        t = t[1]
    return view(t)


def failed(c, name, stream):
    """The condition says that reading from the stream failed."""
    odd = False
    while True:
        if c[:1] == ("not",):
            c, odd = c[1], not odd
        elif c[:1] == ("truth",):
            c = c[1]
        elif c[:1] == ("call",) and str(c[1]).endswith("operator!"):
            c, odd = c[2][0], not odd
        elif c[:1] == ("call",) and str(c[1]).endswith("::fail"):
            return not odd and c[2][0] in (stream,) or not odd and reads(c[2][0], name, stream)
        elif c[:1] == ("call",) and ("operator conv" in str(c[1]) or "operator bool" in str(c[1])):
            c = c[2][0]
        elif c[:1] == ("call",) and str(c[1]).endswith("::gcount"):
            return False
        else:
            return odd and (reads(c, name, stream) or c == stream)


def reads(t, name, stream):
    return t[:1] == ("call",) and str(t[1]).endswith("::" + name) and t[2] and t[2][0] == stream


def good(c, *streams):
    c = c[1] if c[:1] == ("truth",) else c
    return c[:1] == ("call",) and str(c[1]).endswith("::good") and c[2][0] in streams or \
        c[:1] == ("not",) and c[1][:1] == ("call",) and str(c[1][1]).endswith("::eof") and c[1][2][0] in streams or \
        any(c == T.neg(x) or failed(T.neg(c), "read", s) or failed(T.neg(c), "getline", s) for s in streams for x in (s,))


def not_good(c, *streams):
    return c[:1] == ("not",) and good(c[1], *streams) or good(T.neg(c), *streams)


def bounded(c, most):
    x = c[1] if c[:1] == ("not",) else c
    return T.mentions(x, most) and T.mentions(x, SET)


def equal_size(c, most):
    n = ("size", SET)
    return c == T.eq(n, most) or c == T.eq(most, n)


def generator(ctx, fn, name, off, count):
    step = ("parm", "step", 0)
    call = Called(ctx, fn, step)
    ctx.ob(name + "/made", call.ok, where(fn), "a generator is returned", "not recognised")
    if not call.ok:
        return
    number = B("%", B("/", step, STEPS), count)
    number = number if off is None else B("+", off, number)
    frame = ("at", SET, number)
    puts = [e for e in call.events if e.kind == "call" and e.name in ("push_back", "emplace_back", "insert")]
    ok = len(puts) == 1
    ctx.ob(name + "/one-way", ok, where(fn), "the message is filled in one place", "%d insertions" % len(puts))
    if not ok:
        return
    e = puts[0]
    v = plain(e.args[-1])
    if name.endswith("labels"):
        want = [form(("get", "0", frame)), form(("fld", frame, "first"))]
        ctx.ob(name + "/label", v in want and not e.loops and not guards(e), ewhere(e),
               "each step gives the label of the frame shown at that step", S(v)[:160])
        return
    spikes = [("fld", ("get", "1", frame), "spikes_"), ("fld", ("fld", frame, "second"), "spikes_")]
    start = B("*", B("%", step, STEPS), SIZE)
    ok = len(e.loops) == 1 and e.loops[0].kind == "range" and not e.loops[0].early
    cs = [plain(c) for c in guards(e)]
    cs = [c[1] if c[:1] == ("truth",) else c for c in cs]
    why = ""
    if ok:
        lo, hi, st = P(e.loops[0].over)
        i = ("idx", lo, hi, st)
        ok = equal(minus(lv0(hi), lv0(lo)), SIZE) and str(st) in ("1", "('lit', '1')")
        pixel = minus(plain(i), plain(lo))
        # the element shown for pixel p of the local step is element start + p
        want = [form(("at", s, B("+", start, pixel))) for s in spikes]
        ok = ok and v == pixel and len(cs) == 1 and cs[0] in want
        why = "spike %s when %s" % (S(v)[:120], ", ".join(S(c)[:200] for c in cs))
    ctx.ob(name + "/spikes", ok, ewhere(e),
           "each step gives the pixels that spike at that step of the frame shown then", why or "not one visit for every pixel")


def lv0(t):
    return norm(t) if isinstance(t, tuple) else t


def incrementing(ctx, fn):
    call = Called(ctx, fn, ("parm", "image", 0))
    ctx.ob("increment/made", call.ok, where(fn), "a converter is returned", "not recognised")
    if not call.ok:
        return
    active, factor, image = parameter(fn, 0), parameter(fn, 1), ("parm", "image", 0)
    ev = call.events
    adds = [e for e in ev if e.kind == "write" and P(e.loc)[:1] == ("at",) and not guards(e) and len(e.loops) == 2]
    subs = [e for e in ev if e.kind == "write" and P(e.loc)[:1] == ("at",) and guards(e)]
    ok = len(adds) == 1 and len(subs) == 2
    why = "%d unconditional and %d conditional changes per pixel" % (len(adds), len(subs))
    if ok:
        a = adds[0]
        outer, inner = a.loops
        li = [P(x.over) for x in (outer, inner)]
        ok = all(x.kind == "range" and not x.early for x in a.loops) and li[0][0] == T.ZERO and norm(li[0][1]) == active and \
            li[1][0] == T.ZERO and norm(li[1][1]) == SIZE
        i = ("idx",) + li[1]
        state = norm(a.loc)
        now = B("+", state, B("*", ("at", image, norm(i)), factor))
        ok = ok and state[2] == norm(i) and state[1][:1] == ("var",) and equal(norm(a.val), now)
        why = "state %s becomes %s" % (S(state)[:60], S(norm(a.val))[:120])
        ctx.ob("increment/state", ok, ewhere(a), "in every active step the state of every pixel grows by its value times the factor", why)
        one = lambda c: c[:1] == ("not",) and c[1][:1] == ("lt",) and equal(c[1][1], now) and S(c[1][2]) in ("1", "1.0")
        fire = all(len(guards(e)) == 1 and one(norm(list(guards(e))[0])) and e.loops == a.loops for e in subs)
        back = [e for e in subs if norm(e.loc) == state]
        mark = [e for e in subs if norm(e.loc) != state and norm(e.val) == T.TRUE]
        ok = fire and len(back) == 1 and len(mark) == 1 and equal(norm(back[0].val), B("-", now, ("lit", "1")))
        ctx.ob("increment/spike", ok, ewhere(subs[0]), "a pixel spikes exactly when its state reaches one, and one is taken from the state",
               "; ".join("%s becomes %s when %s" % (S(norm(e.loc))[:60], S(norm(e.val))[:80], ", ".join(S(x)[:80] for x in guards(e))) for e in subs))
        out = norm(mark[0].loc)[1] if mark else None
        fills = [e for e in ev if e.kind == "call" and e.name in ("insert", "resize") and e.obj is not None and norm(e.obj) == out]
        place = norm(mark[0].loc)[2] if mark else T.ZERO
        outer_i = ("idx",) + li[0]
        grown = [B("+", B("-", ("size", out), SIZE), norm(i)), B("+", B("*", norm(outer_i), SIZE), norm(i))]
        ok = bool(mark) and any(equal(place, g) for g in grown)
        ctx.ob("increment/place", ok, ewhere(mark[0]) if mark else where(fn), "the spike is that of its pixel in the current step", S(place)[:120])
        sizes = [form(norm(e.args[-2])) for e in fills if e.name == "insert" and norm(e.args[-1]) == T.FALSE]
        decl = [norm(e.val) for e in ev if e.kind == "decl" and P(e.loc) == out and e.val is not None]
        whole = [d for d in decl if d[:1] == ("new",) and d[2] and equal(d[2][0], B("*", STEPS, SIZE))]
        per_step = [e for e in fills if e.name == "insert" and len(e.loops) == 1 and equal(norm(e.args[-2]), SIZE) and norm(e.args[-1]) == T.FALSE and
                    not guards(e) and e.ix < a.ix]
        rest = [e for e in fills if not e.loops and not guards(e) and e.ix > a.ix and (
            e.name == "insert" and equal(norm(e.args[-2]), B("*", B("-", STEPS, active), SIZE)) and norm(e.args[-1]) == T.FALSE or
            e.name == "resize" and equal(norm(e.args[0]), B("*", STEPS, SIZE)))]
        ok = bool(whole) and not fills or len(fills) == 2 and len(per_step) == 1 and len(rest) == 1
        ctx.ob("increment/length", ok, where(fn), "a frame has the pixels of every step, those of inactive steps do not spike",
               "; ".join(S(x)[:80] for x in sizes) or "no fill")
    else:
        ctx.ob("increment/state", False, where(fn), "in every active step the state of every pixel grows by its value times the factor", why)
    states = [e for e in ev if e.kind == "call" and e.name in ("resize", "assign", "clear") and e.obj is not None and
              adds and norm(e.obj) == norm(adds[0].loc)[1]]
    ok = bool(states) and all(("empty", norm(e.obj)) in {norm(c) for c in guards(e)} and e.name == "resize" for e in states)
    made = [norm(e.val) for e in call.r.events if e.kind == "decl" and adds and P(e.loc) == norm(adds[0].loc)[1] and e.val is not None]
    ok = ok or not states and any(d[:1] == ("new",) and d[2] and equal(d[2][0], SIZE) for d in made)
    ctx.ob("increment/carried", ok, where(fn), "the states are carried from image to image", "reset or not sized")
