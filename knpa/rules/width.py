"""Step numbers keep all their bits on every conversion."""
import re

from ..lib import check, where

NARROWER = {"int", "unsigned int", "short", "unsigned short", "char", "signed char", "unsigned char", "float", "double"}
STEPLIKE = re.compile(r"(^|_)(step(_n)?|send_time|isi_spike|last_spike)(_|$)")
FILE_FORMAT = "/storage/"      # files hold times as real numbers


def plain(ty):
    return re.sub(r"\b(const|volatile)\b|&|\*", "", ty).strip()


def visit(n, out):
    if isinstance(n, dict):
        if n.get("k") == "cast" and n.get("ck") == "Narrow" and n.get("step") or n.get("late"):
            out.append(n)
        for v in n.values():
            visit(v, out)
    elif isinstance(n, list):
        for v in n:
            visit(v, out)


@check("C11", ["core", "devices", "pool", "mt", "st", "fw"], ["core", "devices", "pool", "mt", "st", "fw", "store", "drv"])
def c11(ctx):
    prog = ctx.prog
    files, seen = {}, set()
    named = 0
    for f in sorted(prog.functions.values(), key=lambda f: f.id):
        if f.body is None or not f.file.startswith("knp/"):
            continue
        files[f.file] = files.get(f.file, 0) + 1
        found = []
        visit(f.body, found)
        visit(f.meta.get("inits"), found)
        for n in found:
            if n.get("late"):
                what = "the difference of two 64-bit numbers is taken after they have been rounded"
                rule = "the distance between two steps is taken before it becomes a real number"
                key = "late"
            else:
                a, b = f.tu.types[n["st"]], f.tu.types[n["t"]]
                how = n["step"]
                if how == "to" and FILE_FORMAT in f.file or how == "distance" and plain(b) in ("float", "double"):
                    continue
                what = {"from": "a step number", "distance": "the distance between two steps",
                        "to": "a value that becomes a step number"}[how] + " is converted from %s to %s" % (a, b)
                rule = "a step number is never converted to a type that cannot hold every step"
                key = how + "/" + plain(b)
            k = "%s/%s/%s" % (key, f.file.rsplit("/", 1)[-1], f.name)
            if (k, n.get("l")) not in seen:
                seen.add((k, n.get("l")))
                ctx.ob(k, False, where(f, n.get("l")), rule, what)
        for i, p in enumerate(f.params):
            if STEPLIKE.search(p["n"] or ""):
                ty = plain(f.ptype(i))
                k = "parameter/%s/%s/%s" % (f.file.rsplit("/", 1)[-1], f.name, p["n"])
                if k not in seen:
                    seen.add(k)
                    named += 1
                    ctx.ob(k, ty not in NARROWER, where(f), "a parameter for a step number can hold every step", ty)
    for qn, recs in sorted(prog.records_by_qn.items()):
        if not qn.startswith("knp::"):
            continue
        for fd in recs[0]["f"]:
            if STEPLIKE.search(fd["n"]):
                k = "field/%s/%s" % (qn, fd["n"])
                if k not in seen:
                    seen.add(k)
                    named += 1
                    ctx.ob(k, plain(fd["ty"]) not in NARROWER, str(recs[0].get("file")),
                           "a field for a step number can hold every step", fd["ty"])
    for file, n in sorted(files.items()):
        ctx.ob("file/" + file, True, file, "no conversion in the file loses bits of a step number", "%d functions" % n)
    ctx.floor("functions scanned", sum(files.values()), 400)
    ctx.floor("parameters and fields for step numbers", named, 15)
