"""Terms: canonical, hashable descriptions of values and locations, and the normal forms of conditions."""
from functools import lru_cache

TRUE = ("lit", "true")
FALSE = ("lit", "false")


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))


@lru_cache(maxsize=200000)
def mentions(t, sub):
    if t == sub:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(x, sub) for x in t if isinstance(x, (tuple, frozenset)))
    return False


@lru_cache(maxsize=200000)
def size(t):
    if isinstance(t, (tuple, frozenset)):
        return 1 + sum(size(x) for x in t)
    return 1


def has_head(t, *heads):
    return any(x and x[0] in heads for x in subterms(t))


def fields_in(t):
    return {x[2] for x in subterms(t) if len(x) == 3 and x[0] == "fld"}


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, old, new) for x in t)
    return t


def phi(*vals):
    s = set()
    for v in vals:
        if isinstance(v, tuple) and v and v[0] == "phi":
            s |= v[1]
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    return ("phi", frozenset(s))


def alts(v):
    """The finite set of alternatives a value may be."""
    if isinstance(v, tuple) and v and v[0] == "phi":
        out = set()
        for x in v[1]:
            out |= alts(x)
        return out
    if isinstance(v, tuple) and v and v[0] == "ite":
        return alts(v[2]) | alts(v[3])
    return {v}


def neg(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if isinstance(c, tuple) and c and c[0] == "not":
        return c[1]
    return ("not", c)


def _eqkey(a):
    return repr(a)


ZERO = ("lit", "0")


def lit_val(t):
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "lit":
        try:
            return int(t[1])
        except ValueError:
            return None
    if isinstance(t, tuple) and t and t[0] == "enum" and len(t) > 2 and t[2] is not None:
        try:
            return int(t[2])
        except ValueError:
            return None
    return None


def is_zero(t):
    return lit_val(t) == 0


def eq(a, b):
    if a == b and not has_head(a, "phi", "hav", "lv"):
        return TRUE
    va, vb = lit_val(a), lit_val(b)
    if va is not None and vb is not None:
        return TRUE if va == vb else FALSE
    if a in (TRUE, FALSE) and b in (TRUE, FALSE):
        return TRUE if a == b else FALSE
    for x, y in ((a, b), (b, a)):
        if y == TRUE:
            return truth(x)
        if y == FALSE:
            return neg(truth(x))
        if y == ("lit", "nullptr"):
            return neg(truth(x))
        if is_zero(y) and isinstance(x, tuple) and x:
            if x[0] == "size":
                return ("empty", x[1])
            if x[0] == "count":
                return neg(("has", x[1], x[2]))
        if isinstance(y, tuple) and y and y[0] == "end":
            if isinstance(x, tuple) and x and x[0] == "begin" and x[1] == y[1]:
                return ("empty", x[1])
            if isinstance(x, tuple) and x and x[0] == "find" and x[1] == y[1] and len(x) == 3:
                return neg(("has", x[1], x[2]))
            return ("isend", x, y[1])
    if _eqkey(a) > _eqkey(b):
        a, b = b, a
    return ("eq", a, b)


def lt(a, b):
    va, vb = lit_val(a), lit_val(b)
    if va is not None and vb is not None:
        return TRUE if va < vb else FALSE
    # 0 < size(x)
    if va == 0 and isinstance(b, tuple) and b and b[0] == "size":
        return neg(("empty", b[1]))
    if vb == 1 and isinstance(a, tuple) and a and a[0] == "size":
        return ("empty", a[1])
    if va == 0 and isinstance(b, tuple) and b and b[0] == "count":
        return ("has", b[1], b[2])
    return ("lt", a, b)


def truth(v):
    """Boolean meaning of a value."""
    if not isinstance(v, tuple) or not v:
        return ("truth", v)
    h = v[0]
    if h in ("not", "eq", "lt", "empty", "isend", "has", "truth", "and", "or"):
        return v
    if h == "lit":
        if v[1] in ("true", "false"):
            return v
        if v[1] == "nullptr":
            return FALSE
        n = lit_val(v)
        if n is not None:
            return TRUE if n else FALSE
        return ("truth", v)
    if h == "size":
        return neg(("empty", v[1]))
    if h == "count":
        return ("has", v[1], v[2])
    if h == "ite":
        c, a, b = v[1], truth(v[2]), truth(v[3])
        if a == TRUE and b == FALSE:
            return c
        if a == FALSE and b == TRUE:
            return neg(c)
        return ("truth", v)
    return ("truth", v)


def show(t, depth=0):
    """Readable rendering used in reports and in evidence."""
    if isinstance(t, frozenset):
        return "{" + " | ".join(sorted(show(x) for x in t)) + "}"
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    h = t[0]
    if not isinstance(h, str):
        return "<" + ", ".join(show(x) for x in t) + ">"
    if h == "fld":
        b = show(t[1])
        return b + "." + str(t[2])
    if h == "this":
        return "this"
    if h in ("parm",):
        return str(t[1])
    if h == "var":
        return str(t[1])
    if h == "lit":
        return str(t[1])
    if h == "str":
        return '"%s"' % t[1]
    if h == "enum":
        return t[1].rsplit("::", 2)[-1]
    if h == "glob":
        return t[1].rsplit("::", 1)[-1]
    if h == "at":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if h == "elem":
        return "each(%s)" % show(t[1])
    if h == "deref":
        return "*" + show(t[1])
    if h == "get":
        return "%s.get<%s>" % (show(t[2]), t[1])
    if h == "bin":
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if h == "not":
        return "!(" + show(t[1]) + ")"
    if h == "eq":
        return "%s == %s" % (show(t[1]), show(t[2]))
    if h == "lt":
        return "%s < %s" % (show(t[1]), show(t[2]))
    if h == "call":
        return "%s(%s)" % (t[1].rsplit("::", 1)[-1], ", ".join(show(x) for x in t[2]))
    if h == "new":
        return "%s{%s}" % (short_type(t[1]), ", ".join(show(x) for x in t[2]))
    if h == "agg":
        return "%s{%s}" % (short_type(t[1]), ", ".join("%s=%s" % (k, show(v)) for k, v in t[2]))
    if h == "phi":
        return "one-of" + show(t[1])
    if h == "obj":
        return short_type(t[1]) + "#tmp"
    if h == "truth":
        return show(t[1])
    if h == "lam":
        return "lambda@" + str(t[1]).rsplit("/", 1)[-1].rsplit(":", 1)[0]
    return h + "(" + ", ".join(show(x) for x in t[1:]) + ")"


def short_type(t):
    t = str(t)
    base = t.split("<", 1)[0]
    return base.rsplit("::", 1)[-1]


@lru_cache(maxsize=400000)
def plain(t):
    """The term without analysis bookkeeping (which loop or call a value was last changed by)."""
    if isinstance(t, frozenset):
        return frozenset(plain(x) for x in t)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "hav" and len(t) == 3:
        return plain(t[1])
    if t[0] == "lv" and len(t) == 2:
        return plain(t[1])
    return tuple(plain(x) if isinstance(x, (tuple, frozenset)) else x for x in t)


def mentions_field(t, name):
    return any(len(x) == 3 and x[0] == "fld" and x[2] == name for x in subterms(t))
