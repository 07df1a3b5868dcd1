"""Hash-consed value-graph terms.

A term is a node of a value graph (gated SSA / global value numbering).  Two
syntactically different programs that compute the same value through copies,
temporaries, helper functions, loops-vs-comprehensions etc. yield the *same*
node, because nodes are interned after local canonicalisation.
"""
from fractions import Fraction

_TABLE = {}


class T(object):
    __slots__ = ("op", "a", "uid")
    _next = [0]

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    if op == "const":
        key = (op, type(a[0]).__name__) + a
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        T._next[0] += 1
        t.uid = T._next[0]
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=Ellipsis):
    if not isinstance(t, T) or t.op != "const":
        return False
    if v is Ellipsis:
        return True
    return type(t.a[0]) is type(v) and t.a[0] == v


def cval(t, default=None):
    return t.a[0] if isinstance(t, T) and t.op == "const" else default


def kids(x):
    """Direct T children of a term (looks through plain tuples in args)."""
    stack = list(x.a) if isinstance(x, T) else list(x)
    out = []
    while stack:
        y = stack.pop(0)
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, tuple):
            stack[0:0] = list(y)
    return out


def walk(t):
    """All distinct sub-terms, pre-order."""
    seen = set()
    stack = [t] if isinstance(t, T) else kids(t)
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(kids(x))


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def contains(t, sub):
    return any(x is sub for x in walk(t))


def rewrite(t, fn, memo=None):
    """Bottom-up rewrite; fn(term) -> term or None (unchanged)."""
    if memo is None:
        memo = {}

    def go_any(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(go_any(z) for z in y)
        return y

    def go(x):
        r = memo.get(x.uid)
        if r is not None:
            return r
        na = tuple(go_any(y) for y in x.a)
        y = x if na == x.a else mk(x.op, *na)
        z = fn(y)
        if z is None:
            z = y
        memo[x.uid] = z
        return z

    return go_any(t)


def subst(t, mapping):
    """Replace sub-terms (dict term->term); topmost match wins."""
    memo = {}

    def go_any(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(go_any(z) for z in y)
        return y

    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x.uid)
        if r is not None:
            return r
        na = tuple(go_any(y) for y in x.a)
        y = x if na == x.a else mk(x.op, *na)
        memo[x.uid] = y
        return y

    return go_any(t)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o in ("ext", "func", "class", "mod"):
        return str(a[0]).replace("builtins.", "")
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "elem":
        return "each<%s%s>" % (show(a[0], d), "" if a[1] == 0 else "'" * a[1])
    if o == "pos":
        return "pos<%s%s>" % (show(a[0], d), "" if a[1] == 0 else "'" * a[1])
    if o == "call":
        args = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return "%s(%s)" % (show(a[0], d), ", ".join(args))
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "cmp":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "phi":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == "not":
        return "not %s" % show(a[0], d)
    if o in ("tuple", "list", "set"):
        b = {"tuple": "()", "list": "[]", "set": "{}"}[o]
        return b[0] + ", ".join(show(x, d) for x in a) + b[1]
    if o == "str":
        return "f'" + "".join(x.a[0] if x.op == "const" and isinstance(x.a[0], str) else "{%s}" % show(x, d) for x in a) + "'"
    if o == "path":
        return "path(" + "/".join(show(x, d) for x in a) + ")"
    if o == "obj":
        return "<%s#%s>" % (a[1], a[0])
    if o == "bound":
        return "%s.%s" % (show(a[1], d), a[0].split(".")[-1])
    return "%s(%s)" % (o, ", ".join(show(x, d) if isinstance(x, (T, tuple)) else repr(x) for x in a))
