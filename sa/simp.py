"""Local canonicalisation of value-graph nodes."""
import ast
import json
import os
import re
from fractions import Fraction
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, rewrite, mentions, subst, show

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

COMMON_METHODS = set("""append extend add update insert remove pop clear sort reverse copy get items keys values setdefault
index count join split rsplit strip lstrip rstrip replace format lower upper startswith endswith encode decode splitlines
read write readline readlines close open flush seek exists mkdir unlink rmdir glob rglob iterdir is_file is_dir is_symlink symlink_to
resolve absolute relative_to with_suffix with_name joinpath read_text write_text rename touch as_posix
sum mean std min max argmin argmax dot transpose reshape ravel flatten squeeze astype tolist all any cumsum prod conj repeat take
loc iloc set_index reset_index sort_index sort_values drop dropna fillna add sub mul div apply map unstack stack groupby to_csv to_excel to_latex to_dict to_hdf to_numpy isin rename concat merge append style
create_dataset create_group require_group visit visititems parse_args add_argument add_parser add_subparsers communicate wait poll kill terminate
info warning debug error critical exception setLevel addHandler setFormatter log match search group groups findall sub fullmatch
save load show plot set run start stop setUp evaluate compute call execute connect emit text setText value setValue
__init__ __getitem__ union intersection difference issubset issuperset symmetric_difference""".split())


def canon_ext(q):
    al = {"numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "math.fabs": "numpy.abs", "numpy.true_divide": "numpy.divide",
          "math.atan2": "numpy.arctan2", "math.atan": "numpy.arctan", "math.degrees": "numpy.rad2deg", "numpy.degrees": "numpy.rad2deg",
          "numpy.radians": "numpy.deg2rad", "math.radians": "numpy.deg2rad", "math.pi": "numpy.pi", "scipy.pi": "numpy.pi", "math.pow": "numpy.power",
          "pathlib.PosixPath": "pathlib.Path", "pathlib.PurePath": "pathlib.Path", "numpy.in1d": "numpy.isin", "posixpath.join": "os.path.join",
          "scipy.integrate.simpson": "scipy.integrate.simps", "scipy.integrate.trapezoid": "numpy.trapz", "numpy.trapezoid": "numpy.trapz",
          "os.system": "os.system", "scipy.special.erf": "scipy.special.erf"}
    if q in al:
        return al[q]
    if q.startswith("math.") and q[5:] in ("sqrt", "exp", "log", "log10", "sin", "cos", "tan", "sinh", "cosh", "tanh", "floor", "ceil"):
        return "numpy." + q[5:]
    return q


# ------------------------------------------------------------------ booleans
def is_bool(t):
    return t.op in ("cmp", "not", "and", "or", "isinst", "hasattr", "exists", "exc", "noprior", "bool") or (t.op == "const" and isinstance(t.a[0], bool))


_NOT, _AND, _OR = {}, {}, {}


def c_not(t):
    r = _NOT.get(t)
    if r is None:
        r = _NOT[t] = _c_not(t)
    return r


def c_and(xs):
    k = tuple(xs)
    r = _AND.get(k)
    if r is None:
        r = _AND[k] = _c_and(k)
    return r


def c_or(xs):
    k = tuple(xs)
    r = _OR.get(k)
    if r is None:
        r = _OR[k] = _c_or(k)
    return r


def mk_bool(t, I=None):
    """bool(t): where only its truth matters it is t"""
    t = truth(t, I)
    return t if is_bool(t) else mk("bool", t)


def _c_not(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "bool":
        t = t.a[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "const":
        return FALSE if t.a[0] else TRUE
    if t.op == "and":
        return c_or([c_not(x) for x in t.a])
    if t.op == "or":
        return c_and([c_not(x) for x in t.a])
    if t.op == "cmp" and t.a[0] == "<":
        return mk("cmp", "<=", t.a[2], t.a[1])
    if t.op == "cmp" and t.a[0] == "<=":
        return mk("cmp", "<", t.a[2], t.a[1])
    return mk("not", t)


def _c_and(xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "and" else (x,)):
            if y.op == "bool":
                y = y.a[0]
            if y is TRUE:
                continue
            if y is FALSE:
                return FALSE
            if y.op == "const":
                if not y.a[0]:
                    return FALSE
                continue
            if y not in out:
                out.append(y)
    # local unit propagation
    s = set(out)
    for y in list(out):
        if c_not(y) in s:
            return FALSE
        if y.op == "or":
            if any(z in s for z in y.a):
                out.remove(y)
                continue
            rest = [z for z in y.a if c_not(z) not in s]
            if len(rest) < len(y.a):
                out.remove(y)
                return c_and(out + [c_or(rest)])
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    sizes = {}
    for y in out:
        if y.op == "cmp" and y.a[0] == "==":
            for n, l in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                if l.op == "len" and n.op == "const" and n.a[0] in (1, 2, 3, 4):
                    sizes[l.a[0]] = n.a[0]
    if sizes and any(mentions(y, lambda t: t.op == "exists") for y in out):
        seqs = {y.a[0] for y in out if y.op == "isinst" and any(n in show(y) for n in ("tuple", "list"))}

        def unroll(t):
            if t.op == "exists" and len(t.a[0]) == 1 and t.a[0][0].op == "loop" and t.a[0][0].a[0] in sizes and t.a[0][0].a[0] in seqs:
                X, d = t.a[0][0].a
                return c_or([subst(t.a[1], {mk("elem", X, d): mk_idx(X, const(i)), mk("pos", X, d): const(i)}) for i in range(sizes[X])])
            return t
        new = [rewrite(y, unroll) if mentions(y, lambda t: t.op == "exists") else y for y in out]
        if any(a is not b for a, b in zip(new, out)):
            return c_and(new)
    return mk("and", *sorted(out, key=lambda t: t.uid))


def _c_or(xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "or" else (x,)):
            if y.op == "bool":
                y = y.a[0]
            if y is FALSE:
                continue
            if y is TRUE:
                return TRUE
            if y.op == "const":
                if y.a[0]:
                    return TRUE
                continue
            if y not in out:
                out.append(y)
    s = set(out)
    for y in list(out):
        if c_not(y) in s:
            return TRUE
        if y.op == "and":
            if any(z in s for z in y.a):
                out.remove(y)
                continue
            rest = [z for z in y.a if c_not(z) not in s]
            if len(rest) < len(y.a):
                out.remove(y)
                return c_or(out + [c_and(rest)])
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda t: t.uid))


def seq_of(v):
    """The sequence of items v yields when it is unpacked: of a dict's keys view, list(x), tuple(x)"""
    while True:
        if v.op == "dictview" and v.a[0] == "keys":
            v = v.a[1]
        elif v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("builtins.list", "builtins.tuple") and len(v.a[1]) == 1 and not v.a[2] and v.a[1][0].op != "star":
            v = v.a[1][0]
        else:
            return v


def mk_exists(loops, c):
    """some iteration of the loops satisfies c; what does not depend on the loop is outside the quantifier"""
    if c is FALSE or any(empty_lit(l.a[0]) for l in loops if l.op == "loop"):
        return FALSE
    if all(l.op == "loop" for l in loops):
        mine = set(tuple(l.a) for l in loops)

        def local(t):
            return t.op == "carry" or t.op in ("elem", "pos") and tuple(t.a) in mine
        ins, outs = [], []
        for x in (c.a if c.op == "and" else (c,)):
            (ins if mentions(x, local) else outs).append(x)
        if outs and ins:
            return c_and(outs + [mk("exists", tuple(loops), c_and(ins))])
    return mk("exists", tuple(loops), c)


def holds(t):
    """The condition t, where only its truth counts: a collected container is true when something was put in it."""
    if t.op not in ("listc", "setc", "dictc"):
        return t
    cs, ex = [], {}
    for e in t.a:
        if e.op != "ent" or any(c.op not in ("for", "when") for c in e.a[0].a):
            return t
        k = e.a[1]
        if t.op == "listc" and is_const(k) and k.a[0] in ("sort", "reverse"):
            continue
        if t.op != "dictc" and k is not NONE or t.op == "dictc" and (not isinstance(k, T) or k.op in ("kind", "k")):
            return t
        fors = [c for c in e.a[0].a if c.op == "for"]
        c = c_and([c.a[0] for c in e.a[0].a if c.op == "when"])
        if fors and c is TRUE and (len(fors) > 1 or any(len(f.a) != 2 for f in fors)):
            return t
        if fors and c is not TRUE:
            ex.setdefault(tuple(mk("loop", *f.a) for f in fors), []).append(c)
        else:
            cs.append(truth(fors[0].a[0]) if fors else c)
    for k, v in ex.items():
        c = c_or(v)
        cs.append(truth(k[0].a[0]) if c is TRUE and len(k) == 1 else mk_exists(k, c))
    return c_or(cs)


def empty_lit(t):
    return t.op in ("list", "dict", "set", "tuple", "listc", "dictc", "setc") and not t.a


def dead(cx):
    """nothing runs in this context: a false guard, or a loop over nothing"""
    return isinstance(cx, T) and cx.op == "ctx" and any(
        isinstance(x, T) and (x.op == "when" and x.a[0] is FALSE or x.op in ("for", "loop") and empty_lit(x.a[0])) for x in cx.a)


def never(e):
    """a container entry that is never written"""
    return e.op == "ent" and dead(e.a[0])


def isinst_const(o, nm):
    """isinstance(o, <builtin or external class nm>) when the term's own shape decides it, else None"""
    if o.op == "const":
        return type(o.a[0]).__name__ == nm or (nm == "int" and isinstance(o.a[0], bool))
    if o.op in ("str", "path") and nm in ("str", "dict", "list", "tuple", "int", "float"):
        return (nm == "str") if o.op == "str" else None
    if o.op == "tuple" and nm in ("tuple", "list", "dict", "str"):
        return nm == "tuple"
    if o.op in ("dictc", "listc", "setc") and nm in ("list", "dict", "set", "str", "tuple", "int", "float"):
        return o.op[:-1] == nm
    return None


def mk_isinst(o, k):
    if o.op == "phi":
        x, y = mk_isinst(o.a[1], k), mk_isinst(o.a[2], k)
        if is_const(x) or is_const(y):
            return mk_phi(o.a[0], x, y, boolean=True)
    if k.op == "ext":
        r = isinst_const(o, k.a[0].replace("builtins.", ""))
    elif k.op == "class" and o.op in ("const", "str", "tuple"):
        r = False
    else:
        r = None
    return mk("isinst", o, k) if r is None else const(r)


def is_setcall(t):
    return t.op in ("setc", "set") or t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.set", "builtins.frozenset")


def truth(t, I=None):
    o = t.op
    if o == "bool":
        return truth(t.a[0], I)
    if o == "const":
        return TRUE if t.a[0] else FALSE
    if o == "len":
        return truth(t.a[0], I)
    if o == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "builtins.sorted", "builtins.tuple", "builtins.set") and len(t.a[1]) == 1 and not t.a[2]:
        return truth(t.a[1][0], I)
    if o == "phi":
        return mk_phi(t.a[0], truth(t.a[1], I), truth(t.a[2], I), boolean=True)
    if o == "tuple" or o == "list":
        return TRUE if t.a else FALSE
    if empty_lit(t):
        return FALSE
    if o == "obj" and I is not None:
        k = I.okind(t)
        if k == "inst":
            cls, _ = I.cls_of(t)
            if cls is not None and not I.p.find_method(cls, "__len__") and not I.p.find_method(cls, "__bool__"):
                return TRUE
        lit = I.literal_items(t) if k in ("list", "set") else None
        if lit is not None:
            return TRUE if lit else FALSE
        d = I.literal_dict(t) if k == "dict" else None
        if d is not None:
            return TRUE if d else FALSE
    if o == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.bool" and t.a[1]:
        return truth(t.a[1][0], I)
    if o in ("class", "func", "bound", "closure", "mod"):
        return TRUE
    if o == "bin" and t.a[0] == "-" and (is_setcall(t.a[1]) or is_setcall(t.a[2]) or I is not None and "set" in (I.okind(t.a[1]), I.okind(t.a[2]))):
        return c_not(mk("call", mk("attr", t.a[1], "issubset"), (t.a[2],), ()))
    if rematch(t):
        return c_not(mk_cmp("is", t, NONE))
    if o == "attr" and t.a[1] == "returncode":
        return c_not(mk_cmp("==", t, const(0)))
    if o == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("decode", "encode"):
        return truth(t.a[0].a[0], I)
    return t


def rematch(t):
    """A regular-expression match: None or a (truthy) match object."""
    return t.op == "call" and ((t.a[0].op == "attr" and t.a[0].a[1] in ("match", "search", "fullmatch")) or
                               (t.a[0].op == "ext" and t.a[0].a[0] in ("re.match", "re.search", "re.fullmatch")))


def fractional(t):
    """an array of floating-point numbers, from how it is computed"""
    if t.op == "bin" and t.a[0] == "/":
        return True
    if t.op == "bin" and t.a[0] in ("*", "+", "-"):
        return any(is_const(x) and isinstance(x.a[0], float) or fractional(x) for x in t.a[1:])
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in (
        "numpy.sqrt", "numpy.exp", "numpy.log", "numpy.log10", "numpy.linspace", "numpy.logspace", "numpy.geomspace", "numpy.sin", "numpy.cos")


def mk_phi(c, a, b, boolean=False):
    if c.op == "bool":
        c = c.a[0]
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "noreturn":
        return b
    if b.op == "noreturn":
        return a
    if c.op == "not" or (c.op == "cmp" and c.a[0] == "<=") :
        n = c_not(c)
        return mk_phi(n, b, a, boolean)
    if c.op == "or":
        # or(not x, not y) -> not and(x, y)
        if all(x.op == "not" for x in c.a):
            return mk_phi(c_not(c), b, a, boolean)
    if not boolean and is_bool(a) and is_bool(b):
        boolean = True
    if boolean:
        if a is TRUE:
            return c_or([c, b])
        if a is FALSE:
            return c_and([c_not(c), b])
        if b is TRUE:
            return c_or([c_not(c), a])
        if b is FALSE:
            return c_and([c, a])
        return c_or([c_and([c, a]), c_and([c_not(c), b])])
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # phi(c1, x, phi(c2, x, y)) -> phi(c1 or c2, x, y)
    if b.op == "phi" and b.a[1] is a:
        return mk_phi(c_or([c, b.a[0]]), a, b.a[2])
    if b.op == "phi" and b.a[2] is a:
        return mk_phi(c_and([c_not(c), b.a[0]]), b.a[1], a)
    if a.op == "phi" and a.a[2] is b:
        return mk_phi(c_and([c, a.a[0]]), a.a[1], b)
    if a.op == "phi" and a.a[1] is b:
        return mk_phi(c_and([c, c_not(a.a[0])]), a.a[2], b)
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a) and not any(x.op == "star" for x in a.a + b.a):
        return mk("tuple", *[mk_phi(c, x, y) for x, y in zip(a.a, b.a)])
    return mk("phi", c, a, b)


def setcall(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.set", "builtins.frozenset")


def nonneg(t):
    """A count: an integer which is never negative."""
    return t.op == "len" or (t.op == "attr" and t.a[1] in ("size", "ndim")) or \
        (t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "numpy.count_nonzero")


def mk_cmp(op, a, b):
    a, b = nocopy(a), nocopy(b)
    if op == "!=":
        return c_not(mk_cmp("==", a, b))
    if op == "is not":
        return c_not(mk_cmp("is", a, b))
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_cmp("<=", b, a)
    if is_const(a) and is_const(b):
        x, y = a.a[0], b.a[0]
        try:
            if op == "==":
                return TRUE if x == y else FALSE
            if op == "is":
                return TRUE if (x is y or (type(x) is type(y) and x == y)) else FALSE
            if op == "<":
                return TRUE if x < y else FALSE
            if op == "<=":
                return TRUE if x <= y else FALSE
        except TypeError:
            pass
    if op == "==" and (is_const(b, None) or is_const(a, None)):
        op = "is"
    if op in ("==", "is") and a is b:
        return TRUE
    if op == "is" and (is_const(a, None) or is_const(b, None)):
        x = b if is_const(a, None) else a
        if x.op in ("str", "path", "tuple", "list", "obj", "bin", "class", "func", "bound", "closure", "fold", "partial", "mod", "len", "dictview", "cmp", "and", "or", "not") or (x.op == "const"):
            return FALSE
        if x.op == "phi":
            v = x.a[1]
            if x.a[0].op == "exists" and v.op == "elem" and mentions(x.a[0].a[1], lambda t: t.op == "attr" and t.a[0] is v):
                return mk_phi(x.a[0], FALSE, mk_cmp("is", x.a[2], NONE), boolean=True)
            return mk_phi(x.a[0], mk_cmp("is", x.a[1], NONE), mk_cmp("is", x.a[2], NONE), boolean=True)
        return mk("cmp", "is", x, NONE)
    if op == "==" and any(x.op == "dictview" and x.a[0] == "keys" for x in (a, b)) and all(
            x.op == "dictview" and x.a[0] == "keys" or x.op in ("set", "setc") or x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.set"
            for x in (a, b)):
        return mk_cmp("==", *[mk_extcall("builtins.set", [x], []) if x.op == "dictview" else x for x in (a, b)])
    if op in ("==", "is"):
        if is_bool(a) and is_const(b) and isinstance(b.a[0], bool):
            return a if b.a[0] else c_not(a)
        if is_bool(a) and is_bool(b):
            return mk_phi(a, b, c_not(b), boolean=True)
        for x, y in ((a, b), (b, a)):
            if is_const(y, 0) and nonneg(x):
                return c_not(truth(x))
            if x.op == "phi" and is_const(y) and is_const(x.a[1]) or x.op == "phi" and is_const(y) and is_const(x.a[2]):
                return mk_phi(x.a[0], mk_cmp(op, x.a[1], y), mk_cmp(op, x.a[2], y), boolean=True)
        if is_const(a) and not is_const(b) or (not is_const(a) and not is_const(b) and a.uid > b.uid):
            a, b = b, a
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
            return c_and([mk_cmp("==", x, y) for x, y in zip(a.a, b.a)])
        if op == "is" and not is_const(b, None):
            op = "==" if is_const(b) else "is"
        return mk("cmp", op, a, b)
    if op in ("<", "<="):
        # max(x, y) <= b  <=>  x <= b and y <= b;  min(x, y) <= b  <=>  x <= b or y <= b; and symmetrically
        for i, t in enumerate((a, b)):
            if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.max", "builtins.min") and len(t.a[1]) > 1 and not t.a[2] \
                    and not any(x.op == "star" for x in t.a[1]):
                all_ = (t.a[0].a[0] == "builtins.max") == (i == 0)
                return (c_and if all_ else c_or)([mk_cmp(op, x, b) if i == 0 else mk_cmp(op, a, x) for x in t.a[1]])
    if op == "<=" and (a.op == "set" or b.op == "set" or setcall(a) or setcall(b)):
        return mk("call", mk("attr", a, "issubset"), (b,), ())
    if op == "<" and is_const(a, 0) and nonneg(b):
        return truth(b)
    if op == "<=" and is_const(a, 1) and nonneg(b):
        return truth(b)
    if op == "<" and nonneg(a) and is_const(b, 1):
        return c_not(truth(a))
    if op == "<=" and nonneg(a) and is_const(b, 0):
        return c_not(truth(a))
    if op in ("<", "<="):
        for i, x in enumerate((a, b)):
            y = (b, a)[i]
            if x.op == "phi" and is_const(y) and (is_const(x.a[1]) or is_const(x.a[2])):
                p, q = ((mk_cmp(op, x.a[1], y), mk_cmp(op, x.a[2], y)) if i == 0 else (mk_cmp(op, y, x.a[1]), mk_cmp(op, y, x.a[2])))
                return mk_phi(x.a[0], p, q, boolean=True)
    # integers: x <= n  <=> x < n+1 for lengths
    if op == "<=" and a.op == "len" and is_const(b) and isinstance(b.a[0], int):
        return mk("cmp", "<", a, const(b.a[0] + 1))
    if op == "<=" and b.op == "len" and is_const(a) and isinstance(a.a[0], int):
        return mk("cmp", "<", const(a.a[0] - 1), b)
    return mk("cmp", op, a, b)


# ------------------------------------------------------------------ strings / paths
STRATTRS = ("name", "stem", "suffix", "__name__")


# attributes that hold a one-dimensional grid throughout the package
GRIDS = ("l_bin_centers", "l_bin_widths", "z_grid", "z_array", "k_grid", "z_bin_edges", "z", "ells", "k")


def one_d(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ONE_D or t.op == "attr" and t.a[1] in GRIDS or \
        t.op == "sym" and t.a[0] in GRIDS


def apart(a, b):
    """Certainly different values, as keys of one container."""
    if a is b:
        return False
    if is_const(a) and is_const(b):
        return a.a[0] != b.a[0]
    if a.op == b.op == "tuple" and not any(x.op == "star" for x in a.a + b.a):
        return len(a.a) != len(b.a) or any(apart(x, y) for x, y in zip(a.a, b.a))
    if a.op == b.op == "path_":
        return a.a[0] is not b.a[0] or a.a[1] is not b.a[1] if isinstance(a.a[1], str) or isinstance(b.a[1], str) else a.a[0] is not b.a[0] or apart(a.a[1], b.a[1])
    sa, sb = (x.a if x.op == "str" else (x,) if is_const(x) and isinstance(x.a[0], str) else None for x in (a, b))
    if sa is not None and sb is not None:
        for i, cut in ((0, lambda s, n: s[:n]), (-1, lambda s, n: s[len(s) - n:])):
            if is_const(sa[i]) and is_const(sb[i]):
                p, q = sa[i].a[0], sb[i].a[0]
                n = min(len(p), len(q))
                if cut(p, n) != cut(q, n):
                    return True
        return any(len(x) == 1 and is_const(x[0]) and len(x[0].a[0]) < sum(len(z.a[0]) for z in y if is_const(z)) for x, y in ((sa, sb), (sb, sa)))
    kinds = [("s" if s is not None else "t" if x.op == "tuple" else "n" if is_const(x) and isinstance(x.a[0], (int, float)) else "0" if is_const(x) else None)
             for x, s in ((a, sa), (b, sb))]
    if None not in kinds and kinds[0] != kinds[1]:
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == "not" and x.a[0] is y or x.op == "un" and x.a[0] == "~" and x.a[1] is y:
            return True
    return a.op == b.op == "cmp" and c_and([a, b]) is FALSE


def mk_str(parts):
    out = []
    for p in parts:
        q = p.a if p.op == "str" else (p,)
        for x in q:
            if is_const(x):
                s = x.a[0] if isinstance(x.a[0], str) else str(x.a[0])
                if s == "":
                    continue
                if out and is_const(out[-1]):
                    out[-1] = const(out[-1].a[0] + s)
                else:
                    out.append(const(s))
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and (is_const(out[0]) or (out[0].op == "attr" and out[0].a[1] in STRATTRS)):
        return out[0]
    if len(out) == 1 and out[0].op == "call" and out[0].a[0].op == "attr" and out[0].a[0].a[1] == "join" and is_const(out[0].a[0].a[0]):
        return out[0]
    return mk("str", *out)


def split_slash(t):
    """Split a string term at '/' in its constant pieces."""
    if is_const(t) and isinstance(t.a[0], str):
        if "/" not in t.a[0]:
            return [t]
        s = t.a[0]
        parts = [const(x) for x in s.split("/") if x]
        if s.startswith("/"):
            parts.insert(0, const("/"))
        return parts
    if t.op == "str":
        groups = [[]]
        for x in t.a:
            if is_const(x) and "/" in x.a[0]:
                bits = x.a[0].split("/")
                groups[-1].append(const(bits[0]))
                for b in bits[1:]:
                    groups.append([const(b)])
            else:
                groups[-1].append(x)
        out = []
        for g in groups:
            s = mk_str(g)
            if not is_const(s, ""):
                out.append(s)
        if len(groups) > 1:
            # a lone {x} group is x itself as a path component
            out = [o.a[0] if o.op == "str" and len(o.a) == 1 else o for o in out]
        return out or [const("")]
    return [t]


def mk_path(parts):
    out = []
    for p in parts:
        q = p.a if p.op == "path" else (p,)
        for x in q:
            if x.op == "str" and len(x.a) == 1:
                x = x.a[0]
                if x.op == "path":
                    out.extend(x.a)
                    continue
            out.extend(split_slash(x))
    if len(out) > 1:
        out = [x for i, x in enumerate(out) if not (is_const(x, ".") or is_const(x, "")) or (i == 0 and len(out) == 1)]
    return mk("path", *out)


def fmt_template(s, args, kw):
    kwd = dict(kw)
    if "**" in kwd:
        return None
    parts = []
    pos = 0
    auto = 0
    for m in re.finditer(r"\{\{|\}\}|\{([^{}!:]*)(![rsa])?(:[^{}]*)?\}", s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(0) == "{{":
            parts.append(const("{"))
            continue
        if m.group(0) == "}}":
            parts.append(const("}"))
            continue
        n = m.group(1)
        if n == "":
            if auto >= len(args):
                return None
            x = args[auto]
            auto += 1
        elif n.isdigit():
            if int(n) >= len(args):
                return None
            x = args[int(n)]
        elif n in kwd:
            x = kwd[n]
        else:
            return None
        if m.group(3) and m.group(3) != ":":
            x = mk("fmt", x, const(m.group(3)[1:]))
        parts.append(x)
    parts.append(const(s[pos:]))
    return mk_str(parts)


def pct_template(s, args):
    parts, pos, i = [], 0, 0
    for m in re.finditer(r"%%|%([-+0-9.]*)([sdrfge])", s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(0) == "%%":
            parts.append(const("%"))
            continue
        if i >= len(args):
            return None
        x = args[i]
        i += 1
        if m.group(1):
            x = mk("fmt", x, const(m.group(1) + m.group(2)))
        elif m.group(2) in "fge":
            x = mk("fmt", x, const(m.group(2)))
        parts.append(x)
    parts.append(const(s[pos:]))
    return mk_str(parts)


def strlike(t):
    return t.op == "str" or (is_const(t) and isinstance(t.a[0], str))


def num(t):
    return is_const(t) and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def nocopy(t):
    """The operand of an operation which only reads it."""
    return t.a[0] if t.op == "copyof" else t


def mk_bin(op, a, b, I=None):
    a, b = nocopy(a), nocopy(b)
    if op == "+":
        if strlike(a) or strlike(b):
            return mk_str([a, b])
    if op == "%" and is_const(a) and isinstance(a.a[0], str):
        r = pct_template(a.a[0], list(b.a) if b.op == "tuple" else [b])
        if r is not None:
            return r
    if op == "/":
        if a.op == "path" or strlike(b) or b.op == "path":
            return mk_path([a, b])
        if I is not None:
            for x in (a, b):
                ty = I.typeof(x)
                if ty and ty[0] == "ext" and ty[1].split(".")[-1] in ("Path", "PosixPath"):
                    return mk_path([a, b])
                if ty == ("ext", "str"):
                    return mk_path([a, b])
    if op == "^" and is_bool(a) and is_bool(b):
        return c_not(mk_cmp("==", a, b))
    if num(a) and num(b):
        x, y = a.a[0], b.a[0]
        try:
            if op == "+":
                return const(x + y)
            if op == "-":
                return const(x - y)
            if op == "*":
                return const(x * y)
            if op == "//":
                return const(x // y)
            if op == "%":
                return const(x % y)
            if op == "**" and abs(y) < 20 and abs(x) < 1e4 and isinstance(y, int) and y >= 0:
                return const(x ** y)
        except Exception:
            pass
    if op in ("-",) and a is b and num(a):
        return const(0)
    return mk("bin", op, a, b)


def mk_T(x):
    if x.op == "T":
        return x.a[0]
    return mk("T", x)


def mk_Tl(x):
    if x.op == "Tl":
        return x.a[0]
    return mk("Tl", x)


# positional parameter names of external functions (for canonical keyword form); value: ([names], {defaults})
SIG = {
    "numpy.transpose": (["a", "axes"], {"axes": None}),
    "numpy.take": (["a", "indices", "axis"], {"axis": None}),
    "numpy.sum": (["a", "axis"], {"axis": None, "keepdims": False}),
    "numpy.mean": (["a", "axis"], {"axis": None}),
    "numpy.max": (["a", "axis"], {"axis": None}),
    "numpy.min": (["a", "axis"], {"axis": None}),
    "numpy.prod": (["a", "axis"], {"axis": None}),
    "numpy.all": (["a", "axis"], {"axis": None}),
    "numpy.any": (["a", "axis"], {"axis": None}),
    "numpy.repeat": (["a", "repeats", "axis"], {"axis": None}),
    "numpy.expand_dims": (["a", "axis"], {}),
    "numpy.concatenate": (["arrays", "axis"], {"axis": 0}),
    "numpy.stack": (["arrays", "axis"], {"axis": 0}),
    "numpy.isin": (["element", "test_elements"], {}),
    "numpy.linspace": (["start", "stop", "num"], {"num": 50}),
    "numpy.logspace": (["start", "stop", "num"], {"num": 50}),
    "numpy.geomspace": (["start", "stop", "num"], {"num": 50}),
    "numpy.where": (["cond", "x", "y"], {}),
    "numpy.unique": (["ar"], {}),
    "numpy.diag": (["v", "k"], {"k": 0}),
    "numpy.linalg.inv": (["a"], {}),
    "numpy.linalg.det": (["a"], {}),
    "numpy.interp": (["x", "xp", "fp"], {}),
    "numpy.trapz": (["y", "x"], {}),
    "scipy.integrate.simps": (["y", "x", "dx", "axis", "even"], {"axis": -1, "dx": 1.0}),
    "numpy.polyfit": (["x", "y", "deg"], {}),
    "numpy.allclose": (["a", "b"], {}),
    "numpy.intersect1d": (["ar1", "ar2"], {}),
    "numpy.union1d": (["ar1", "ar2"], {}),
    "h5py.File": (["name", "mode"], {}),
    "builtins.open": (["file", "mode"], {"mode": "r"}),
    "shutil.copy": (["src", "dst"], {}),
    "shutil.copytree": (["src", "dst"], {}),
    "shutil.move": (["src", "dst"], {}),
    "shutil.rmtree": (["path"], {}),
    "pandas.DataFrame": (["data", "index", "columns"], {}),
    "pandas.Series": (["data", "index"], {}),
    "pandas.concat": (["objs", "axis"], {"axis": 0}),
    "pandas.read_csv": (["filepath_or_buffer", "sep"], {}),
    "json.dump": (["obj", "fp"], {}),
    "json.dumps": (["obj"], {}),
    "json.loads": (["s"], {}),
    "json.load": (["fp"], {}),
    "numpy.full": (["shape", "fill_value"], {}),
    "numpy.append": (["arr", "values", "axis"], {"axis": None}),
}
METHOD_SIG = {
    "create_dataset": ["name", "shape", "dtype", "data"], "to_hdf": ["path_or_buf", "key"], "to_csv": ["path_or_buf"], "to_excel": ["excel_writer"],
    "to_latex": ["buf"], "sort_index": ["axis"], "sort_values": ["by"], "drop": ["labels", "axis"], "set_index": ["keys"],
    "mkdir": ["mode", "parents", "exist_ok"], "write_text": ["data"], "create_group": ["name"], "astype": ["dtype"], "to_numpy": ["dtype"],
    "add_argument": None, "submit": None, "div": ["other", "axis"], "mul": ["other", "axis"], "sub": ["other", "axis"],
}


def canon_method_kw(name, args, kw):
    names = METHOD_SIG.get(name)
    args, kw = list(args), list(kw)
    if name in ("add_argument", "add_argument_group", "add_parser", "add_mutually_exclusive_group"):
        kw = [(k, v) for k, v in kw if k not in ("help", "metavar", "description", "epilog")]
    if names and not any(a.op == "star" for a in args):
        kw = [(names[i], a) for i, a in enumerate(args) if i < len(names)] + kw
        args = args[len(names):]
    return tuple(args), tuple(sorted(kw, key=lambda x: x[0]))


READERS = set("numpy." + x for x in ("sum mean max min prod all any sqrt square exp log log10 abs dot matmul add subtract multiply divide power diag "
                                     "linalg.inv linalg.det concatenate stack repeat isin unique allclose interp trapz where").split()) | {"scipy.integrate.simps", "builtins.len"}
ELEM2 = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.power": "**",
         "numpy.dot": "@", "numpy.matmul": "@", "operator.add": "+", "operator.mul": "*", "operator.sub": "-", "operator.truediv": "/"}
ONE_D = ("numpy.intersect1d", "numpy.unique", "numpy.union1d", "numpy.setdiff1d", "numpy.linspace", "numpy.logspace", "numpy.geomspace", "numpy.arange", "numpy.flatnonzero")
ARRAY_METHODS = {"sum", "mean", "max", "min", "prod", "all", "any", "repeat", "transpose", "dot", "ravel", "squeeze", "reshape",
                 "astype", "swapaxes", "cumsum", "take", "diagonal", "trace", "argmax", "argmin", "clip", "round", "std"}


def _load_sigs():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sigs.json")) as fh:
        g = json.load(fh)
    for n, (names, defs) in SIG.items():
        for k, v in g.get(n, [[], {}])[1].items():
            if k in names:
                defs.setdefault(k, v)
    return g


# parameter names and constant defaults of the installed libraries' functions (tools/gensigs.py)
LIBSIG = _load_sigs()


def same_default(v, dv):
    return is_const(v) and type(v.a[0]) is type(dv) and v.a[0] == dv


def canon_kw(n, args, kw):
    if n not in SIG and n in LIBSIG and not any(v.op == "star" for v in args) and not any(k == "**" for k, _ in kw):
        names, defs = LIBSIG[n]
        if len(args) <= len(names):
            d = dict(zip(names, args))
            if not any(k in d for k, _ in kw):
                d.update(kw)
                d = {k: v for k, v in d.items() if not (k in defs and same_default(v, defs[k]))}
                pos = []
                for k in names:
                    if k not in d:
                        break
                    pos.append(d.pop(k))
                return tuple(pos), tuple(sorted(d.items(), key=lambda kv: kv[0]))
    names, defs = SIG.get(n, ([], {}))
    pos = []
    d = {}
    star = False
    for i, v in enumerate(args):
        if v.op == "star":
            star = True
        if i < len(names) and not star:
            d[names[i]] = v
        else:
            pos.append(v)
    for k, v in kw:
        d[k] = v
    if n == "argparse.ArgumentParser":
        for k in ("description", "epilog", "prog", "usage", "formatter_class"):
            d.pop(k, None)
    for k in list(d):
        if k in defs:
            dv = defs[k]
            if is_const(d[k]) and d[k].a[0] == dv and type(d[k].a[0]) is type(dv):
                del d[k]
    return tuple(pos), tuple(sorted(d.items(), key=lambda kv: kv[0]))


def ckw(kw, k, default=None):
    for a, b in kw:
        if a == k:
            return b
    return default


def axes_tuple(t):
    if t is None:
        return None
    if is_const(t) and isinstance(t.a[0], int):
        return (t.a[0],)
    if t.op in ("tuple", "list") and all(is_const(x) for x in t.a):
        return tuple(x.a[0] for x in t.a)
    return None


PATHARGS = {"shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree", "shutil.move", "shutil.rmtree", "builtins.open", "h5py.File",
            "numpy.loadtxt", "numpy.genfromtxt", "numpy.savetxt", "numpy.load", "numpy.save", "os.remove", "os.unlink", "os.makedirs", "os.mkdir",
            "os.listdir", "os.chdir", "pandas.read_csv", "pandas.read_hdf", "os.path.getsize", "os.symlink", "os.rename"}


def unpath(x):
    """Path(x), str(x) -> x where only the file name matters."""
    while (x.op == "path" or x.op == "str") and len(x.a) == 1:
        x = x.a[0]
    return x


def mk_extcall(n, args, kw, I=None):
    n = canon_ext(n)
    args = list(args)
    if n == "scipy.integrate.quad":
        kw = [(x, v.a[0] if x == "args" and v.op == "tuple" and len(v.a) == 1 and v.a[0].op not in ("tuple", "star") else v) for x, v in kw]
    if n == "subprocess.run" and ("capture_output", TRUE) in [tuple(x) for x in kw]:
        kw = [x for x in kw if x[0] != "capture_output"] + [(x, mk("ext", "subprocess.PIPE")) for x in ("stdout", "stderr")]
    if n in READERS:
        args = [nocopy(x) for x in args]
        kw = [(k, nocopy(v)) for k, v in kw]
    if n in ELEM2 and len(args) == 2 and not kw:
        return mk_bin(ELEM2[n], args[0], args[1], I)
    if n in ("builtins.all", "builtins.any") and len(args) == 1 and not kw and (args[0].op == "cmp" and args[0].a[0] in ("==", "<", "<=") or args[0].op == "not" and args[0].a[0].op == "cmp" and args[0].a[0].a[0] == "=="):
        n = "numpy" + n[8:]
    if n == "json.load" and (len(args) == 1 or not args and kw and kw[0][0] == "fp"):
        fp = args[0] if args else kw[0][1]
        n, args, kw = "json.loads", [mk_method(fp, "read", [], [], I)], [x for x in kw if x[0] != "fp"]
    if n == "numpy.sqrt" and len(args) == 1 and not kw:
        return mk("bin", "**", args[0], const(0.5))
    if n == "numpy.square" and len(args) == 1 and not kw:
        return mk("bin", "**", args[0], const(2))
    if n == "numpy.reciprocal" and len(args) == 1:
        return mk("bin", "/", const(1), args[0])
    if n == "numpy.negative" and len(args) == 1:
        return mk("neg", args[0])
    if n in ("numpy.array", "numpy.asarray", "numpy.atleast_1d", "numpy.asanyarray") and len(args) == 1 and not kw:
        return args[0]
    if n == "numpy.arange":
        if len(args) == 3 and is_const(args[2], 1):
            args.pop()
        kw = [(k, v) for k, v in kw if not (k == "step" and is_const(v, 1))]
        if len(args) == 2 and is_const(args[0], 0) and type(args[0].a[0]) is int:
            args.pop(0)
    if n == "pandas.DataFrame.from_dict" and len(args) == 1 and not kw:
        n = "pandas.DataFrame"
    if n in ("numpy.ones_like", "numpy.zeros_like") and len(args) == 1 and not kw and (fractional(args[0]) or args[0].op == "attr"):
        return mk_extcall(n[:-5], [mk_attr(args[0], "shape")], [], I)
    if n in ("pathlib.Path",):
        return mk_path(args) if args else mk("call", mk("ext", n), (), ())
    if n == "os.path.join":
        return mk_path(args)
    if n == "os.path.basename" and len(args) == 1:
        return mk_attr(mk_path([args[0]]), "name")
    if n == "os.path.dirname" and len(args) == 1:
        return mk_attr(mk_path([args[0]]), "parent")
    if n in ("os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.islink") and len(args) == 1:
        nm = {"exists": "exists", "isdir": "is_dir", "isfile": "is_file", "islink": "is_symlink"}[n.split(".")[-1]]
        return mk("call", mk("attr", mk_path([args[0]]), nm), (), ())
    if n in ("re.match", "re.search", "re.fullmatch", "re.findall", "re.finditer", "re.split") and len(args) == 2 and not kw:
        return mk("call", mk("attr", mk("call", mk("ext", "re.compile"), (args[0],), ()), n[3:]), (args[1],), ())
    if n == "re.sub" and len(args) == 3 and not kw:
        return mk("call", mk("attr", mk("call", mk("ext", "re.compile"), (args[0],), ()), "sub"), tuple(args[1:]), ())
    if n in ("builtins.max", "builtins.min") and len(args) > 1 and not kw and not any(x.op == "star" for x in args):
        args.sort(key=lambda x: x.uid)
    if n == "numpy.sort" and len(args) == 1 and not kw:
        n = "builtins.sorted"
    if n in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set") and len(args) == 1:
        x = args[0]
        if x.op == "dictview" and x.a[0] == "keys":
            x = x.a[1]
        while x.op == "call" and x.a[0].op == "ext" and len(x.a[1]) == 1 and not x.a[2] and (
                x.a[0].a[0] in ("builtins.list", "builtins.tuple") or (n == "builtins.set" and x.a[0].a[0] in ("builtins.set", "builtins.sorted"))):
            x = x.a[1][0]
        args[0] = x
        if n == "builtins.list" and not kw and (x.op in ("listc",) or (x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.sorted")):
            return x
    if n in PATHARGS:
        args = [unpath(x) for x in args]
        kw = [(k, unpath(v)) for k, v in kw]
    pos, k = canon_kw(n, args, kw)
    if n == "numpy.take" and is_const(ckw(k, "axis"), 0) and ckw(k, "a") is not None and ckw(k, "indices") is not None and len(k) == 3:
        return mk_idx(ckw(k, "a"), ckw(k, "indices"))
    if n == "numpy.transpose":
        a = ckw(k, "a")
        ax = ckw(k, "axes")
        if a is not None:
            if ax is None:
                return mk_T(a)
            t = axes_tuple(ax)
            if t in ((0, 2, 1), (0, -1, -2), (0, -1, 1), (0, 2, -2)):
                return mk_Tl(a)
            if t == (1, 0):
                return mk_T(a)
    if n == "numpy.swapaxes" and len(pos) == 3:
        ax = tuple(sorted((cval(pos[1], 99), cval(pos[2], 99))))
        if ax in ((1, 2), (-2, -1)):
            return mk_Tl(pos[0])
        if ax == (0, 1):
            return mk("T01", pos[0])
    if n == "numpy.expand_dims":
        ax = axes_tuple(ckw(k, "axis"))
        if ax is not None:
            o = ckw(k, "a")
            if o.op == "call" and o.a[0].op == "ext" and o.a[0].a[0] in ELEMWISE and len(o.a[1]) == 1 and not o.a[2] and not is_const(o.a[1][0]):
                return mk_extcall(o.a[0].a[0], [mk("bcast", o.a[1][0], ax)], [])
            return mk("bcast", o, ax)
    if n in ("numpy.rad2deg", "numpy.deg2rad") and len(args) == 1 and not kw:
        d = mk_bin("/", const(180), mk("ext", "numpy.pi"))
        return mk_bin("*" if n == "numpy.rad2deg" else "/", args[0], d)
    if n in ("numpy.logical_and", "numpy.logical_or") and len(args) == 2 and not kw and all(is_bool(x) for x in args):
        return mk_bin("&" if n == "numpy.logical_and" else "|", *args)
    if n == "builtins.slice" and 1 <= len(args) <= 3 and not kw and not any(x.op == "star" for x in args):
        a = list(args)
        return mk("slice", *((NONE, a[0], NONE) if len(a) == 1 else a + [NONE] * (3 - len(a))))
    if n == "numpy.linalg.inv" and ckw(k, "a") is not None:
        return mk("inv", ckw(k, "a"))
    return mk("call", mk("ext", n), pos, k)


def tabular(t, I=None):
    """certainly a pandas object: its columns are what an aggregate runs over"""
    while t.op == "idx" and (t.a[0].op == "attr" and t.a[0].a[1] in ("loc", "iloc")):
        return True
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("pandas.DataFrame", "pandas.Series", "pandas.concat", "pandas.read_csv"):
        return True
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("set_index", "reset_index", "sort_index", "unstack", "stack", "to_frame", "groupby"):
        return True
    return I is not None and I.typeof(t) in (("ext", "pandas.DataFrame"), ("ext", "pandas.Series"))


def mk_method(o, name, args, kw, I=None):
    if name in ARRAY_METHODS:
        if name == "transpose":
            if not args and not kw:
                return mk_T(o)
            ax = args[0] if len(args) == 1 else mk("tuple", *args)
            return mk_extcall("numpy.transpose", [o], [("axes", ax)], I)
        if name == "swapaxes":
            return mk_extcall("numpy.swapaxes", [o] + list(args), kw, I)
        if name == "take" and args:
            return mk_extcall("numpy.take", [o] + list(args), kw, I)
        if name == "dot":
            return mk_bin("@", o, args[0], I)
        if name in ("sum", "mean", "max", "min", "prod", "std", "var") and not args and len(kw) == 1 and kw[0][0] == "axis" and is_const(kw[0][1]) and \
                kw[0][1].a[0] in (0, "index") and tabular(o, I):
            kw = []
        if name in ("sum", "mean", "max", "min", "prod", "all", "any", "repeat"):
            return mk_extcall("numpy." + name, [o] + list(args), kw, I)
    if name == "joinpath":
        return mk_path([o] + list(args))
    if name in ("abs", "__abs__") and not args and not kw:
        return mk_extcall("numpy.abs", [o], [], I)
    if name in ("exists", "is_dir", "is_file", "is_symlink") and not args:
        return mk("call", mk("attr", mk_path([o]), name), (), ())
    if name in ("as_posix",) and not args:
        return o
    if name == "__str__" and not args:
        return mk_str([o])
    if name == "__repr__" and not args and not kw:
        return mk_extcall("builtins.repr", [o], [], I)
    if name == "__len__" and not args and not kw:
        return mk("len", o)
    if name == "__getitem__" and len(args) == 1 and not kw:
        return mk_idx(o, args[0])
    if name == "__contains__" and len(args) == 1 and not kw:
        return mk_cmp("in", args[0], o)
    if name == "copy" and not any(k == "deep" and is_const(v, False) for k, v in kw):
        return mk("copyof", o, "copy")
    if name in ("union", "intersection", "symmetric_difference", "difference") and len(args) == 1 and not kw:
        return mk("bin", {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name], o, args[0])
    if name in ("startswith", "endswith") and len(args) == 1 and not kw and args[0].op == "tuple" and not any(x.op == "star" for x in args[0].a):
        return c_or([mk("call", mk("attr", o, name), (x,), ()) for x in args[0].a])
    if name == "issubset" and len(args) == 1 and not kw and o.op == "set" and o.a and not any(x.op == "star" for x in o.a):
        c = args[0]
        while c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] in ("builtins.set", "builtins.frozenset", "builtins.list") and len(c.a[1]) == 1 and not c.a[2] and c.a[1][0].op in ("attr", "dictview", "listc", "dictc", "list", "setc"):
            c = c.a[1][0]
        return c_and([mk_cmp("in", x, c) for x in o.a])
    if name == "issuperset" and len(args) == 1 and not kw:
        return mk("call", mk("attr", args[0], "issubset"), (o,), ())
    if name == "open" and len(args) <= 1 and all(is_const(a) and isinstance(a.a[0], str) for a in args) and all(k in ("mode", "encoding", "newline") for k, _ in kw):
        return mk_extcall("builtins.open", [o] + list(args), kw, I)
    if name == "read_text" and not args and not kw:
        return mk("call", mk("attr", mk_extcall("builtins.open", [o], [], I), "read"), (), ())
    if name in ("glob", "rglob") and len(args) == 1:
        args = [unpath(args[0])]
    args, kw = canon_method_kw(name, args, kw)
    return mk("call", mk("attr", o, name), args, kw)


def mk_attr(o, name):
    if name == "T":
        return mk_T(o)
    if name == "ndim":
        return mk("len", mk("attr", o, "shape"))
    if o.op == "path":
        if name == "name" and len(o.a) > 1:
            return o.a[-1]
        if name == "parent" and len(o.a) > 1:
            return mk("path", *o.a[:-1])
    return mk("attr", o, name)


def is_full(s):
    return s.op == "slice" and all(is_const(x, None) for x in s.a)


ELEMWISE = set(("numpy." + x for x in "log10 log log2 log1p exp expm1 sqrt abs absolute fabs sin cos tan arcsin arccos arctan sinh cosh tanh".split()))


def index_leaves(t, out):
    """The arrays of an elementwise expression."""
    if num(t):
        return
    if t.op == "bin" and t.a[0] in ("+", "-", "*", "/") or (t.op == "bin" and t.a[0] == "**" and num(t.a[2])):
        index_leaves(t.a[1], out)
        index_leaves(t.a[2], out)
    elif t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ELEMWISE and len(t.a[1]) == 1 and not t.a[2]:
        index_leaves(t.a[1][0], out)
    else:
        out.add(t)


def index_elementwise(t, f):
    if num(t):
        return t
    if t.op == "bin" and t.a[0] in ("+", "-", "*", "/") or (t.op == "bin" and t.a[0] == "**" and num(t.a[2])):
        return mk_bin(t.a[0], index_elementwise(t.a[1], f), index_elementwise(t.a[2], f))
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ELEMWISE and len(t.a[1]) == 1 and not t.a[2]:
        return mk_extcall(t.a[0].a[0], [index_elementwise(t.a[1][0], f)], [])
    return f(t)


def index_of_elementwise(o, k):
    """(A / A[0])[:, j]  is  A[:, j] / A[0][j]: the arrays must be one array, or it and its rows."""
    if o.op != "bin":
        return None
    lv = set()
    index_leaves(o, lv)
    if o in lv or any(x.op in ("list", "listc", "str", "tuple") for x in lv):
        return None
    if len(lv) == 1:
        return index_elementwise(o, lambda x: mk_idx(x, k))
    if len(lv) == 2 and k.op == "tuple" and len(k.a) > 1 and is_full(k.a[0]):
        for A in lv:
            (r,) = lv - {A}
            if r.op == "idx" and r.a[0] is A and is_const(r.a[1]) and type(r.a[1].a[0]) is int:
                rest = k.a[1] if len(k.a) == 2 else mk("tuple", *k.a[1:])
                return index_elementwise(o, lambda x: mk_idx(x, k if x is A else rest))
    return None


def is_ellipsis(x):
    return is_const(x) and x.a[0] in ("Ellipsis", Ellipsis)


def mk_idx(o, k):
    if k.op == "ext" and k.a[0] == "numpy.newaxis":
        k = NONE
    if k.op == "const" and type(k.a[0]) is str and "/" in k.a[0].strip("/") and k.a[0][0] != "/" and "//" not in k.a[0] and o.op in ("attr", "idx", "call", "sym"):
        # a path below an HDF5 group
        for part in k.a[0].split("/"):
            o = mk_idx(o, const(part))
        return o
    if o.op == "call" and o.a[0].op == "ext" and o.a[0].a[0] in ELEMWISE and len(o.a[1]) == 1 and not o.a[2] and not is_const(o.a[1][0]):
        # elementwise functions commute with indexing
        return mk_extcall(o.a[0].a[0], [mk_idx(o.a[1][0], k)], [])
    if o.op == "call" and o.a[0].op == "attr" and o.a[0].a[1] in ("split", "rsplit", "partition", "rpartition") and o.a[1] and not o.a[2] and not is_const(o.a[1][0], None):
        # the piece before the first, after the last separator
        w, n = o.a[0].a[1], len(o.a[1])
        if is_const(k, -1) and (w == "rsplit" and n == 2 and not is_const(o.a[1][1], 0)) or is_const(k) and w == "rpartition" and k.a[0] in (2, -1):
            return mk_idx(mk("call", mk("attr", o.a[0].a[0], "split"), o.a[1][:1], ()), const(-1))
        if is_const(k, 0) and (w == "split" and n == 2 and not is_const(o.a[1][1], 0) or w == "partition"):
            return mk_idx(mk("call", mk("attr", o.a[0].a[0], "split"), o.a[1][:1], ()), const(0))
    if k.op == "tuple":
        ks = [NONE if (x.op == "ext" and x.a[0] == "numpy.newaxis") else x for x in k.a]
        if ks and all(is_full(x) or is_const(x, None) for x in ks):
            ax = tuple(i for i, x in enumerate(ks) if is_const(x, None))
            return mk("bcast", o, ax) if ax else o
        if len(ks) > 1 and is_ellipsis(ks[-1]):
            ks.pop()
        while len(ks) > 1 and is_full(ks[-1]):
            ks.pop()
        if len(ks) == 1 and is_const(ks[0], None):
            return mk("bcast", o, (0,))
        k = ks[0] if len(ks) == 1 and len(k.a) > 1 and is_full(k.a[-1]) else mk("tuple", *ks)
    elif is_const(k, None):
        return mk("bcast", o, (0,))
    elif is_full(k):
        return o
    if o.op == "bin":
        d = index_of_elementwise(o, k)
        if d is not None:
            return d
    if is_const(k) and type(k.a[0]) is int:
        if o.op == "idx":
            # A[:, j][i]  is  A[i, j], and A[i][j]  is  A[i, j]
            q = o.a[1].a if o.a[1].op == "tuple" else ()
            if len(q) > 1 and is_full(q[0]) and not any(x.op == "slice" or is_const(x, None) for x in q[1:]):
                return mk_idx(mk_idx(o.a[0], k), q[1] if len(q) == 2 else mk("tuple", *q[1:]))
        if k.a[0] >= 0 and o.op == "call" and o.a[0].op == "attr" and o.a[0].a[1] == "groups" and not o.a[1] and not o.a[2]:
            return mk("call", mk("attr", o.a[0].a[0], "group"), (const(k.a[0] + 1),), ())
        if rematch(o):
            return mk("call", mk("attr", o, "group"), () if k.a[0] == 0 else (k,), ())
    if o.op in ("tuple", "list") and is_const(k) and isinstance(k.a[0], int) and not isinstance(k.a[0], bool) and -len(o.a) <= k.a[0] < len(o.a):
        return o.a[k.a[0]]
    if o.op == "dict" and is_const(k):
        for kv in o.a:
            if kv.a[0] is k:
                return kv.a[1]
    if k.op == "pos" and k.a[0].op == "idx" and k.a[0].a[0] is o and k.a[0].a[1].op == "slice" and k.a[0].a[1].a[0] is NONE and k.a[0].a[1].a[2] is NONE:
        return mk("elem", k.a[0], k.a[1])
    if k.op == "pos" and k.a[0] is o:
        return mk("elem", o, k.a[1])
    if k.op == "slice" and is_const(k.a[2], None) and all(x.op == "call" and x.a[0].op == "attr" and rematch(x.a[0].a[0]) and not x.a[1] for x in k.a[:2]):
        s, e = k.a[0].a[0], k.a[1].a[0]
        if s.a[1] == "start" and e.a[1] == "end" and s.a[0] is e.a[0] and s.a[0].a[1] and s.a[0].a[1][-1] is o:
            return mk("call", mk("attr", s.a[0], "group"), (), ())
    if is_const(k) and type(k.a[0]) is int and o.op == "call" and o.a[0].op == "ext" and o.a[0].a[0] in ("builtins.tuple", "builtins.list") and len(o.a[1]) == 1 and not o.a[2] \
            and o.a[1][0].op in ("listc", "list", "tuple", "call"):
        return mk_idx(o.a[1][0], k)
    if o.op == "listc" and is_const(k) and type(k.a[0]) is int and k.a[0] >= 0 and len(o.a) == 1:
        # [f(x) for x in X][k]  is  f(X[k])
        e = o.a[0]
        if e.op == "ent" and len(e.a[0].a) == 1 and e.a[0].a[0].op == "for" and e.a[1] is NONE:
            X, n = e.a[0].a[0].a
            el, po = mk("elem", X, n), mk("pos", X, n)
            return rewrite(e.a[2], lambda t: mk_idx(X, k) if t is el else k if t is po else None)
    return mk("idx", o, k)


def rebuild(op, na):
    if op == "idx":
        return mk_idx(*na)
    if op == "bin":
        return mk_bin(*na)
    if op == "str":
        return mk_str(na)
    if op == "phi":
        return mk_phi(*na)
    if op == "T":
        return mk_T(*na)
    if op == "Tl":
        return mk_Tl(*na)
    if op == "attr":
        return mk_attr(*na)
    if op == "call" and na[0].op == "ext":
        return mk_extcall(na[0].a[0], na[1], list(na[2]))
    if op == "isinst":
        return mk_isinst(*na)
    if op == "exists":
        return mk_exists(*na)
    if op == "bool":
        return mk_bool(*na)
    if op == "when" and na[0].op == "bool":
        return mk("when", na[0].a[0])
    if op == "ctx":
        if any(x.op == "when" and x.a[0] is TRUE for x in na):
            return mk("ctx", *[x for x in na if not (x.op == "when" and x.a[0] is TRUE)])
    if op in ("dictc", "listc", "setc"):
        if any(never(x) for x in na):
            return mk(op, *[x for x in na if not never(x)])
    if op == "and":
        return c_and(na)
    if op == "or":
        return c_or(na)
    if op == "not":
        return c_not(*na)
    if op == "noprior" and na[1] is FALSE:
        return TRUE
    if op == "cmp" and na[0] != "in":
        return mk_cmp(*na)
    if op == "path":
        return mk_path(na)
    if op == "len":
        x = na[0]
        while x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.list", "builtins.sorted", "builtins.tuple", "builtins.reversed") and x.a[1]:
            x = x.a[1][0]
        if x.op == "list" and not any(y.op == "star" for y in x.a):
            return const(len(x.a))
        return mk("len", x)
    if op == "call" and na[0].op == "attr" and na[0].a[1] in ("group",) and len(na[1]) == 1 and is_const(na[1][0], 0):
        return mk("call", na[0], (), ())
    if op == "call" and na[0].op == "attr" and na[0].a[1] == "join" and is_const(na[0].a[0]) and isinstance(na[0].a[0].a[0], str) \
            and len(na[1]) == 1 and na[1][0].op in ("list", "tuple") and not any(x.op == "star" for x in na[1][0].a):
        parts = []
        for i, x in enumerate(na[1][0].a):
            parts += ([na[0].a[0]] if i else []) + [x]
        return mk_str(parts)
    if op == "call" and na[0].op == "attr" and na[0].a[1] == "join" and is_const(na[0].a[0]) and len(na[1]) == 1 and na[1][0].op == "listc" \
            and any(x.op == "ent" and x.a[1] is NONE and x.a[2].op == "str" and len(x.a[2].a) == 1 and x.a[2].a[0].op != "fmt" for x in na[1][0].a):
        # join takes strings only: str() of its items is the item
        return mk(op, na[0], (mk("listc", *[mk("ent", x.a[0], x.a[1], x.a[2].a[0]) if x.a[1] is NONE and x.a[2].op == "str" and len(x.a[2].a) == 1
                                             and x.a[2].a[0].op != "fmt" else x for x in na[1][0].a]),), na[2])
    return mk(op, *na)
