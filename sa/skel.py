"""When may a difference between two normal forms be a mere rearrangement?

The equivalence laws are complete enough for straight-line code, branches and
ordinary loops, but two loops can be organised so differently (a flag against an
early exit, one pass against two, a comprehension against a state machine) that
no law relates them.  Such a pair is *not decided*: it is reported as such in
the evidence and raises no alarm.  Everything else that differs is a violation.

A difference is undecided only if
 (1) both sides mention exactly the same vocabulary: the same functions,
     attributes, parameters, constants and comparison operators, and
 (2) their loop skeletons (the things iterated over, the loop conditions)
     differ, so that the laws do not reach; or the difference sits in a library
     routine that belongs neither to the repository's vocabulary nor to the
     modelled one.
"""
from .terms import T, FALSE, walk

NEUTRAL_CONST = (None, True, False, 0, 1, -1, "")
# callee spelling classes: the same job done by another library entry point
SAME = {
    "builtins.sum": "sum", "numpy.sum": "sum", "builtins.max": "max", "numpy.max": "max", "builtins.min": "min", "numpy.min": "min",
    "builtins.any": "any", "numpy.any": "any", "builtins.all": "all", "numpy.all": "all",
}
NEUTRAL_EXT = ("builtins.list", "builtins.tuple", "builtins.range", "builtins.zip", "builtins.enumerate", "builtins.len", "builtins.dict",
               "builtins.set", "builtins.iter", "builtins.next", "builtins.bool", "builtins.str", "numpy.array", "numpy.asarray", "builtins.map",
               "builtins.filter", "numpy.ndindex", "itertools.product", "numpy.arange", "numpy.stack", "builtins.sum", "numpy.sum",
               "builtins.any", "builtins.all", "numpy.any", "numpy.all", "numpy.newaxis", "numpy.zeros", "numpy.empty", "numpy.ones")
NEUTRAL_ATTR = ("shape", "size", "ndim", "append", "extend", "add", "update", "join", "items", "keys", "values", "get", "copy", "setdefault")


def vocab(t):
    out = set()
    for x in walk(t):
        o = x.op
        if o == "const":
            v = x.a[0]
            if isinstance(v, (str, bytes)):
                out.add(("c", v))
            elif not (v is None or isinstance(v, bool) or v in (0, 1, -1)):
                out.add(("c", repr(v)))
        elif o == "rat":
            out.add(("c", x.a[0]))
        elif o == "mono":
            if x.a[0] not in ("1", "-1"):
                out.add(("c", x.a[0]))
        elif o == "pw":
            if x.a[1] not in ("1", "-1"):
                out.add(("c", x.a[1]))
        elif o == "sym":
            if not x.a[0].startswith("\\"):
                out.add(("s", x.a[0]))
        elif o == "ext":
            if x.a[0] not in NEUTRAL_EXT:
                out.add(("e", SAME.get(x.a[0], x.a[0])))
        elif o in ("func", "class", "bound"):
            out.add(("f", x.a[0]))
        elif o == "attr" or o == "meth":
            if x.a[1] not in NEUTRAL_ATTR:
                out.add(("a", x.a[1]))
        elif o == "cmp":
            out.add(("o", x.a[0] if x.a[0] not in ("<", "<=") else x.a[0]))
        elif o in ("inv", "T", "Tl", "matprod", "abs", "neg", "slice", "isinst", "exc", "copyof", "fmt"):
            out.add(("k", o))
    return out


LOOPS = ("for", "while", "loop", "loopw")


def loops(t):
    """Multiset-free skeleton: the iterables and loop conditions occurring in t."""
    out = set()
    for x in walk(t):
        if x.op in LOOPS:
            out.add(("loop",) + tuple(x.a) if x.op == "for" else (x.op,) + tuple(x.a))
        elif x.op == "fix" and x.a[2] is FALSE and not any(y.op == "mu" and y.a[0] == x.a[0] for u in x.a[3] for y in walk(u)):
            continue        # the value of the last iteration: nothing else is one
        elif x.op in ("fix", "lastb", "first", "firstof", "fold"):
            out.add(x.op)
        elif x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.sum", "numpy.sum", "builtins.any", "builtins.all", "builtins.next", "builtins.zip", "builtins.map"):
            out.add(x.a[0].a[0])
    return out


def rearranged(a, b):
    """Is the difference between a and b one the laws cannot decide?"""
    if not isinstance(a, T) or not isinstance(b, T):
        return False
    la, lb = loops(a), loops(b)
    if not la or not lb or la == lb:
        return False
    return vocab(a) == vocab(b)
