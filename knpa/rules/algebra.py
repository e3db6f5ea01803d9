"""Integer polynomials over terms: two spellings of one expression have one form."""
from .. import terms as T
from .network import norm
from .wiring import lv


def poly(t):
    """{monomial: coefficient}; a monomial is a sorted tuple of atoms."""
    n = T.lit_val(t)
    if n is not None:
        return {(): n} if n else {}
    if t[:1] == ("poly",) and len(t) == 2:
        return dict(t[1])
    if t[:1] == ("bin",) and len(t) == 4 and t[1] in ("+", "-"):
        a, b = poly(t[2]), poly(t[3])
        k = 1 if t[1] == "+" else -1
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + k * c
        return {m: c for m, c in out.items() if c}
    if t[:1] == ("bin",) and len(t) == 4 and t[1] == "*":
        out = {}
        for m, c in poly(t[2]).items():
            for n, d in poly(t[3]).items():
                key = tuple(sorted(m + n, key=repr))
                out[key] = out.get(key, 0) + c * d
        return {m: c for m, c in out.items() if c}
    if t[:1] == ("bin",) and len(t) == 4:
        return {(("bin", t[1], form(t[2]), form(t[3])),): 1}
    return {(t,): 1}


def form(t):
    """Canonical term of an arithmetic expression (also inside indexes)."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("bin",) and len(t) == 4 and t[1] in ("+", "-", "*"):
        p = poly(tuple(form(x) for x in t))
        if list(p) == [()]:
            return ("lit", str(p[()]))
        if not p:
            return T.ZERO
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1:
                return m[0]
        return ("poly", tuple(sorted(p.items(), key=repr)))
    return tuple(form(x) for x in t)


def equal(a, b):
    return form(a) == form(b)


def minus(a, b):
    return form(("bin", "-", a, b))


def plain(t):
    return form(lv(norm(t)))
