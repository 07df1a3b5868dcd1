"""Equivalence of repository functions with reference definitions.

A reference ("spec") is ordinary Python in /verif/specs/*.py.  It is never run:
it goes through the same value-graph construction as the repository's code and
the two graphs are compared slot by slot (returned value, object state left
behind, trace of external effects, raise conditions).
"""
import ast
import builtins
import heapq
import os
import signal
import time
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, show, walk, rewrite
from .program import Program, Module, Func, Class, AnchorLost, dotted
from .interp import Interp, callee_name, root_of, Budget, baseline
from . import simp, modref
from .norm import Norm, unmodelled, diff
from .skel import rearranged

HERE = os.path.dirname(os.path.abspath(__file__))
SPECDIR = os.path.join(os.path.dirname(HERE), "specs")
QUIET = ("logger", "logging", "warnings.warn", "builtins.print", "getLogger", "tabulate")


class Result(object):
    """status: ok | violation | undecided"""

    def __init__(self, key, status, msg="", loc="", rule=""):
        self.key, self.status, self.msg, self.loc, self.rule = key, status, msg, loc, rule
        self.sides = None


class SpecFn(object):
    def __init__(self, target, func, opts, name):
        self.target, self.func, self.opts, self.name = target, func, opts, name


_TREES = {}


def spec_tree(fname):
    path = os.path.join(SPECDIR, fname)
    if path not in _TREES:
        with open(path) as fh:
            src = fh.read()
        _TREES[path] = (ast.parse(src, path), src)
    return path, _TREES[path][0], _TREES[path][1]


def of_call(st, name):
    for d in st.decorator_list:
        if isinstance(d, ast.Call) and dotted(d.func) == name:
            return ast.literal_eval(d.args[0]), {k.arg: ast.literal_eval(k.value) for k in d.keywords}
    return None


class Shape(object):
    def __init__(self, target, node, opts, module):
        self.target, self.node, self.opts, self.module = target, node, opts, module


class Consts(object):
    def __init__(self, module, names, specmod):
        self.target, self.names, self.specmod = module, names, specmod


class SpecFile(list):
    """The SpecFn entries of one reference file, with its class shapes and constants."""
    shapes = ()
    consts = ()


def load_specs(prog, fname):
    cache = prog.__dict__.setdefault("_specfiles", {})
    if fname in cache:
        return cache[fname]
    path, tree, src = spec_tree(fname)
    m = Module("specs." + fname[:-3], path, "specs/" + fname, tree, src)
    # the module whose functions the file describes
    m.home = next((q for q in prog.modules if not q.startswith("specs.") and q.split(".", 1)[-1].replace(".", "_") == fname[:-3]), None)
    prog._scan(m)
    prog.modules[m.name] = m
    out = SpecFile()
    out.shapes, out.consts = [], []
    for st in tree.body:
        if isinstance(st, ast.FunctionDef):
            o = of_call(st, "of")
            if o:
                out.append(SpecFn(o[0], (st, m), o[1], st.name))
        elif isinstance(st, ast.ClassDef):
            o = of_call(st, "shape")
            if o:
                out.shapes.append(Shape(o[0], st, o[1], m))
                prog.classes.pop(m.name + "." + st.name, None)
                prog.by_class_name.get(st.name, []).clear()
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and dotted(st.value.func) == "constants":
            a = [ast.literal_eval(x) for x in st.value.args]
            out.consts.append(Consts(a[0], a[1:], m))
    cache[fname] = out
    add_phantoms(prog)
    return out


def add_phantoms(prog):
    """Functions of the pinned tree that no longer exist (e.g. inlined into their caller) stand for their
    reference definition wherever a reference mentions them."""
    if prog.__dict__.get("_ph"):
        return
    prog._ph = True
    gone = []
    for q in baseline():
        if q in prog.funcs or q in baseline_classes():
            continue
        try:
            if q.endswith("@setter"):
                c = prog.cls(q[:-7].rsplit(".", 1)[0])
                if prog.find_setter(c, q[:-7].rsplit(".", 1)[1]):
                    continue
            else:
                prog.func(q)
                continue
        except AnchorLost:
            pass
        gone.append(q)
    if not gone:
        return
    for fname in sorted(os.listdir(SPECDIR)):
        if not fname.endswith(".py"):
            continue
        path, tree, src = spec_tree(fname)
        if not any(q in src for q in gone):
            continue
        for sp in load_specs(prog, fname):
            if sp.target in gone and sp.target not in prog.phantoms:
                st, m = sp.func
                q = sp.target
                setter = q.endswith("@setter")
                head, tail = (q[:-7] if setter else q).rsplit(".", 1)
                c = None
                try:
                    c = prog.cls(head)
                except AnchorLost:
                    if head not in prog.modules:
                        continue
                f = Func(q, st, m, c)
                f.decorators = {"property": {"property"}, "static": {"staticmethod"}, "class": {"classmethod"}, "setter": {tail + ".setter"}}.get(sp.opts.get("kind"), set())
                f.name = tail
                prog.funcs[q] = f
                prog.phantoms.add(q)
                if c is not None:
                    if setter:
                        c.setters[tail] = f
                    else:
                        c.methods[tail] = f
                        prog.methods_by_name.setdefault(tail, []).append(f)
                else:
                    prog.modules[head].symbols[tail] = ("func", f)


def referenced(prog, name):
    """Is the name still mentioned in the repository?"""
    for m in prog.modules.values():
        if m.name.startswith("specs."):
            continue
        idx = m.__dict__.get("_names")
        if idx is None:
            idx = set()
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute):
                    idx.add(x.attr)
                elif isinstance(x, ast.Name):
                    idx.add(x.id)
                elif isinstance(x, ast.alias):
                    idx.add(x.name)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                    idx.add(x.value)
            m._names = idx
        if name in idx:
            return m.rel
    return None


_BCLS = []


def baseline_classes():
    if not _BCLS:
        p = os.path.join(HERE, "baseline_classes.txt")
        _BCLS.append(frozenset(x.strip() for x in open(p)))
    return _BCLS[0]


OPSPECIAL = ("__eq__", "__ne__", "__hash__", "__bool__", "__len__", "__iter__", "__contains__", "__getattr__", "__getattribute__",
             "__setattr__", "__getitem__", "__setitem__", "__delitem__", "__lt__", "__le__", "__gt__", "__ge__", "__copy__", "__deepcopy__",
             "__add__", "__sub__", "__mul__", "__call__", "__enter__", "__exit__", "__new__", "__post_init__", "__getstate__", "__setstate__")


def compare_shape(prog, sh, N, all_specs=None):
    key = sh.target.replace("seyfert.", "", 1) + ":class"
    c = prog.cls(sh.target)
    loc = "%s:%s" % (c.module.rel, c.node.lineno)
    out = []

    def res(slot, ok, msg):
        out.append(Result("%s %s" % (key, slot), "ok" if ok else "violation", msg, loc, "class shape"))
    base = baseline_classes()
    # bases
    ref_c = Class("specs." + sh.node.name, sh.node, sh.module)
    ref_c.bases = [prog.resolve_name(sh.module, dotted(x.value if isinstance(x, ast.Subscript) else x) or "?") for x in sh.node.bases]

    def names(k):
        intree = [x.qual for x in prog.mro(k)[1:] if x.qual in base]
        ext = {b.split(".")[-1] for b in prog.ext_bases(k)} - {"Generic", "ABC", "object", "ABCMeta"}
        return intree, sorted(ext)
    n1, n2 = names(c), names(ref_c)
    res("bases", n1 == n2, "base classes are %s, expected %s" % (n1, n2))
    prog._scan_class_vars(ref_c)
    I = Interp(prog)
    for n, ex in ref_c.class_vars.items():
        cv = prog.find_class_var(c, n)
        if cv is None:
            if referenced(prog, n):
                res("attribute " + n, False, "class attribute %r is gone but still referenced" % n)
            continue
        a, b = N(I.ev_in_module(cv[0].module, cv[1])), N(I.ev_in_module(sh.module, ex))
        if a is not b:
            try:
                same = ast.unparse(cv[1]) == ast.unparse(ex)
            except Exception:
                same = False
        else:
            same = True
        res("attribute " + n, same, "class attribute %s = %s, expected %s" % (n, ast.unparse(cv[1])[:120], ast.unparse(ex)[:120]))
    decs = sorted(d.split(".")[-1] for d in (dotted(x) or "?" for x in c.node.decorator_list))
    rdecs = sorted((ast.unparse(ast.parse(d).body[0].value.func) if "(" in d else d).split(".")[-1] for d in sh.opts.get("decorators", []))
    if "dataclass" in decs or "dataclass" in rdecs:
        res("decorators", decs == rdecs, "decorators %s, expected %s" % (decs, rdecs))
        f1 = [(n, n in c.class_vars) for k in reversed(prog.mro(c)) for n in k.annots]
        f2 = [(n, n in ref_c.class_vars) for k in reversed(prog.mro(ref_c)) for n in k.annots]
        ok = f1[:len(f2)] == f2 and all(d for _, d in f1[len(f2):])
        res("fields", ok, "dataclass fields %s, expected %s" % (f1, f2))
    # new overriding / operator methods
    for n, f in sorted(c.methods.items()):
        if f.qual in baseline() or f.qual in prog.phantoms:
            continue
        anc = [k for k in prog.mro(c)[1:] if k.qual + "." + n in baseline() and n in k.methods]
        if anc:
            sp = [s for s in (all_specs() if all_specs else []) if s.target == anc[0].qual + "." + n]
            if sp and not anc[0].methods[n].is_abstract:
                s2 = SpecFn(f.qual, sp[0].func, dict(sp[0].opts, cls=c.qual), sp[0].name)
                out.extend(compare_spec(prog, s2, N))
        elif n in OPSPECIAL:
            res("special " + n, False, "new special method %s changes how instances behave under built-in operations" % n)
    if not out:
        res("exists", True, "")
    return out


def compare_consts(prog, cs, N, only=None):
    out = []
    m = prog.modules.get(cs.target)
    if m is None:
        raise AnchorLost("module %s not found" % cs.target)
    I = Interp(prog)
    for n in cs.names:
        key = "%s.%s:constant" % (cs.target.replace("seyfert.", "", 1), n)
        ref = cs.specmod.symbols[n][1]
        r = prog.resolve_symbol(m, n)
        if r is None or r[0] != "var":
            if r is None and referenced(prog, n):
                out.append(Result(key, "violation", "module constant %s is gone but still referenced in %s" % (n, referenced(prog, n)), m.rel, "constant"))
            continue
        mm, _, ex = r[1]
        a, b = N(I.ev_in_module(mm, ex)), N(I.ev_in_module(cs.specmod, ref))
        same = a is b or ast.unparse(ex) == ast.unparse(ref)
        out.append(Result(key, "ok" if same else "violation", "constant %s is %s, expected %s" % (n, ast.unparse(ex)[:200], ast.unparse(ref)[:200]), "%s:%s" % (mm.rel, ex.lineno), "constant"))
    return out


def is_quiet(callee):
    n = callee_name(callee) if not isinstance(callee, str) else callee
    s = n.lower()
    if any(q.lower() in s for q in QUIET):
        return True
    if isinstance(callee, T) and callee.op == "attr":
        return any(q in show(callee.a[0], 6) for q in ("getLogger", "logger"))
    return False


def strip_doc(msg):
    return msg


class Slots(object):
    """Normal forms extracted from one analysed function."""

    def __init__(self, prog, func, cls, args, opts, N):
        I = Interp(prog, opaque=opts.get("opaque", ()), depth=opts.get("depth", 16), budget=opts.get("budget", 60000))
        I.reify_inst = True
        self.I, self.N, self.opts = I, N, opts
        self.s = I.run(func, cls=cls, args=args)
        I.ctx = ()
        self.func = func
        self.n_events = len(self.s.events)
        self.unknown = list(I.unknown)

    def nf(self, t):
        return self.N(self.I.reify(t))

    def ret(self):
        return self.s.ret

    def normal(self):
        """Condition (raw) under which the function returns."""
        cs = []
        for e in self.s.events:
            if e.kind == "raise":
                cx = [x for x in e.ctx if x[0] in ("if", "for", "while")]
                if any(x[0] == "try" for x in e.ctx) or callee_name(e.callee).endswith("SystemExit"):
                    continue
                cs.append(simp.c_not(self.I.reify(self.I._ctx_cond(cx))))
        return simp.c_and(cs)

    def state(self, want):
        """Final values of attributes / containers reachable from parameters."""
        I = self.I
        out = {}
        for key in list(I.heap):
            o, at = key
            if not I.heap[key]:
                continue
            root = root_of(o)
            if root.op == "obj":
                continue
            if at == "[]":
                # (commands are compared where they are given)
                ents = [x for x in I._entries(o, I.reify) if x[1] != "cmd"]
                if not ents:
                    continue
                v = mk("dictc", *[mk("ent", mk("ctx", *c), mk("kind", kind) if key_ is NONE else mk("k", kind, key_), val) for c, kind, key_, val in ents])
                nm = show(self.N(I.renum(o)), 8) + "[]"
            else:
                v = I.heap_read(key)
                nm = show(self.N(I.renum(o)), 8) + "." + at
                v = I.reify(v) if v is not None else None
                if v is not None and self.N(v) is self.N(mk("attr", o, at)):
                    continue
            if root.op not in ("sym", "class", "func", "ext", "mod"):
                nm = "result:" + nm
            elif want is not True and not any(nm == w or nm.startswith(w + "[]") or (w.endswith("*") and nm.startswith(w[:-1])) for w in want):
                continue
            out[nm] = v
        return out

    def ctxnf(self, ctx):
        return self.N(self.ctxraw(ctx))

    def ctxraw(self, ctx):
        cx = []
        for it in ctx:
            if it[0] == "for":
                cx.append(self.I.reify(it))
            elif it[0] == "if":
                cx.append(mk("when", self.I.reify(it[1])))
            elif it[0] == "while":
                cx.append(mk("while", self.I.reify(it[1])))
            elif it[0] in ("finally", "tryfin"):
                # the innermost one tells whether, and when, an exception lets it happen
                cx = [x for x in cx if x.op not in ("finally", "tryfin")] + [mk(it[0])]
            elif it[0] == "with" and self.opts.get("ctx_with"):
                cx.append(mk("with", self.I.reify(it[1])))
        return mk("ctx", *cx)

    def effects(self, pats, skip=()):
        out = []
        for e in self.s.events:
            if e.kind == "call":
                if is_quiet(e.callee):
                    continue
                n = callee_name(e.callee)
                if not match(n, pats):
                    continue
                if e.callee.op == "func" and any(f.qual == e.callee.a[0] for f in ()):
                    continue
                c = e.callee
                if c.op == "attr":
                    pa, kw = simp.canon_method_kw(c.a[1], e.args, e.kw)
                    nf = lambda x, b=e.born: self.N(self.I.reify(x, born=b))
                    c = mk("meth", nf(c.a[0]), c.a[1])
                    out.append((n, mk("eff", c, tuple(nf(a) for a in pa), tuple((k, nf(v)) for k, v in kw)), self.ctxnf(e.ctx), e))
                    continue
                elif c.op == "ext":
                    t = simp.mk_extcall(c.a[0], [self.I.reify(a, born=e.born) for a in e.args], [(k, self.I.reify(v, born=e.born)) for k, v in e.kw])
                    out.append((n, self.N(t), self.ctxnf(e.ctx), e))
                    continue
                else:
                    c = self.nf(c)
                t = mk("eff", c, tuple(self.nf(a) for a in e.args), tuple(sorted(((k, self.nf(v)) for k, v in e.kw), key=lambda z: z[0])))
                out.append((n, t, self.ctxnf(e.ctx), e))
        # events on mutually exclusive branches have no order
        ch = True
        while ch:
            ch = False
            for i in range(len(out) - 1):
                a, b = out[i], out[i + 1]
                if exclusive(a[2], b[2]) and (b[1].uid, b[2].uid) < (a[1].uid, a[2].uid):
                    out[i], out[i + 1] = b, a
                    ch = True
        # merge f() under c and f() under not c
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if a[1] is b[1]:
                m = merge_ctx(a[2], b[2])
                if m is not None:
                    out[i:i + 2] = [(a[0], a[1], m, a[3])]
                    i = max(0, i - 1)
                    continue
            i += 1
        return out

    def side_effects(self):
        """Calls made for their effect only (expression statements), receivers and arguments as values (raw)."""
        out = []
        for e in self.s.events:
            if e.kind == "call" and not is_quiet(e.callee):
                rf = lambda x, b=e.born: self.I.reify(x, born=b)
                c = e.callee
                res = self.resources(e)
                if not e.discarded and not res:
                    continue
                if c.op == "attr" and (root_of(c.a[0]).op == "obj" and self.I.okind(c.a[0]) in ("list", "dict", "set")):
                    continue
                if c.op == "attr" and c.a[1] in ("update", "append", "extend", "clear", "pop", "setdefault", "add", "insert") and (c.a[0], "[]") in self.I.heap:
                    continue        # already part of the state
                if c.op == "attr" and c.a[1] == "write_text" and len(e.args) + len(e.kw) == 1:
                    o_ = simp.mk_extcall("builtins.open", [rf(c.a[0]), const("w")], [])
                    t = mk("eff", mk("meth", o_, "write"), (rf(e.args[0] if e.args else e.kw[0][1]),), ())
                    out.append((callee_name(e.callee), t, self.ctxraw(e.ctx + (("tryfin", None),)), e, const(",".join(sorted(res)))))
                    out.append(("close", mk("eff", mk("meth", o_, "close"), (), ()), self.ctxraw(e.ctx + (("finally", None),)), e, const("")))
                    continue
                if c.op == "ext" and c.a[0] == "json.dump" and (len(e.args) == 2 or len(e.args) == 1 and e.kw and e.kw[0][0] == "fp"):
                    fp = rf(e.args[1] if len(e.args) == 2 else e.kw[0][1])
                    t = simp.mk_extcall("json.dumps", [rf(e.args[0])], [(k, rf(v)) for k, v in e.kw if k != "fp"])
                    out.append(("write", mk("eff", mk("meth", fp, "write"), (t,), ()), self.ctxraw(e.ctx), e, const(",".join(sorted(res)))))
                    continue
                elif c.op == "attr":
                    pa, kw = simp.canon_method_kw(c.a[1], e.args, e.kw)
                    c = mk("meth", rf(c.a[0]), c.a[1])
                    t = mk("eff", c, tuple(rf(a) for a in pa), tuple((k, rf(v)) for k, v in kw))
                elif c.op == "ext":
                    t = simp.mk_extcall(c.a[0], [rf(a) for a in e.args], [(k, rf(v)) for k, v in e.kw])
                else:
                    t = mk("eff", rf(c), tuple(rf(a) for a in e.args), tuple(sorted(((k, rf(v)) for k, v in e.kw), key=lambda z: z[0])))
                out.append((callee_name(e.callee), t, self.ctxraw(e.ctx), e, const(",".join(sorted(res)))))
        return out

    def resources(self, e):
        """External resources the call acts on."""
        c = e.callee
        if c.op == "ext":
            return modref.ext_resources(c.a[0])
        if c.op == "attr":
            return modref.meth_resources(c.a[1])
        if c.op in ("func", "bound", "virt"):
            s = self.I.modref.summary(c.a[0])
            return frozenset(s.X) if s is not None else frozenset()
        if c.op == "class":
            k = self.I.p.classes.get(c.a[0])
            i = self.I.p.find_method(k, "__init__") if k is not None else None
            s = self.I.modref.summary(i.qual) if i is not None else None
            return frozenset(s.X) if s is not None else frozenset()
        return frozenset()

    def raises(self):
        d = {}
        for e in self.s.events:
            if e.kind == "raise":
                c = e.callee
                n = exception_kind(self.I, c) if isinstance(c, T) else "?"
                cond = self.I._ctx_cond([x for x in e.ctx if x[0] in ("if", "for", "while")])
                d.setdefault(n, []).append((self.I.reify(cond), e))
        return {k: (simp.mk_bool(simp.c_or([c for c, _ in v])), v[0][1]) for k, v in d.items()}


CAUGHT = (KeyError, ValueError, TypeError, AttributeError, FileNotFoundError, ArithmeticError, IndexError)     # what handlers in the repository single out


def exception_kind(I, c):
    """What an exception is to a handler: 'SystemExit', a builtin type singled out by some handler, or '?'."""
    while c.op == "call":
        c = c.a[0]
    names = []
    k = I.p.classes.get(c.a[0]) if c.op == "class" else I.exact.get(c) if c.op == "obj" else None
    if k is not None:
        names = list(I.p.ext_bases(k))
    elif c.op == "ext":
        names = [c.a[0]]
    for n in names:
        n = n.rsplit(".", 1)[-1]
        if n in ("SystemExit", "KeyboardInterrupt", "AssertionError", "UnboundLocalError"):
            return n
        t = getattr(builtins, n, None)
        if isinstance(t, type):
            for b in CAUGHT:
                if issubclass(t, b):
                    return b.__name__
    return "?"


# ------------------------------------------------------------ equivalence by cases
CONN = ("and", "or", "not")


def atoms_of(t, N, out=None, seen=None):
    """Guard atoms (normalised) -> raw atoms, in the conditions occurring in t."""
    out = {} if out is None else out
    seen = set() if seen is None else seen

    def leaf(c):
        if c.op in CONN:
            for x in c.a:
                leaf(x)
            return
        if c.op == "phi":
            leaf(c.a[0])
            return
        if c.op == "const":
            return
        n = simp.holds(N(c))
        if n.op == "const":
            return
        neg = simp.c_not(n)
        if neg.op == "not" or (neg.op == "cmp" and n.op != "not"):
            pass
        key, val = (n, True)
        if n.op == "not":
            key, val = n.a[0], False
        elif n.op == "cmp" and n.a[0] == "<=":
            key, val = simp.c_not(n), False
            key = N(key)
        if key.op in CONN or key.op == "phi":
            return
        out.setdefault(key, {})[c] = val

    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "phi":
            leaf(x.a[0])
        elif x.op in ("when", "while"):
            leaf(x.a[0])
        elif x.op in CONN:
            leaf(x)
        if x.op in ("exists", "noprior"):
            continue            # quantified guards are atoms as a whole
        stack.extend(x.a)
    return out


def assume(t, m, gm=None, guard=False, never=None):
    """t where the terms in m have the given values, and the terms in gm the given truth values (replaced where
    only their truth counts: in conditions)"""
    memo = {}
    gm = gm or {}

    def any_(y, g):
        if isinstance(y, T):
            return go(y, g)
        if isinstance(y, tuple):
            return tuple(any_(z, g) for z in y)
        return y

    def go(x, g=False):
        if x in m:
            return m[x]
        if g and x in gm:
            return gm[x]
        r = memo.get((x.uid, g))
        if r is None:
            op = x.op
            if op in ("and", "or", "not", "when", "while"):
                na = tuple(any_(y, True) for y in x.a)
            elif op == "phi":
                na = (any_(x.a[0], True), any_(x.a[1], g), any_(x.a[2], g))
            elif op in ("exists", "noprior"):
                na = (any_(x.a[0], False), any_(x.a[1], True))
            else:
                na = tuple(any_(y, False) for y in x.a)
            if op == "ctx" and never is not None and never(na):
                na = na + (mk("when", FALSE),)
            if na == x.a:
                r = x
            elif op == "phi":
                c = simp.truth(na[0]) if na[0].op == "const" else na[0]
                r = simp.mk_phi(c, na[1], na[2])
            else:
                try:
                    r = simp.rebuild(op, na)
                except Exception:
                    r = mk(op, *na)
            if r is not x:
                if r in m:
                    r = m[r]
                elif g and r in gm:
                    r = gm[r]
            memo[(x.uid, g)] = r
        return r
    return go(t, guard)


def linear(k, N):
    """(relation, polynomial without its constant, constant) of a comparison 0 < p, 0 <= p or p == 0"""
    if k.op != "cmp" or k.a[0] not in ("<", "<=", "=="):
        return None
    if k.a[0] == "==" and not any(x.op in ("poly", "len") or x.op == "const" and type(x.a[0]) in (int, float) for x in k.a[1:]):
        return None
    try:
        a, b = N.r.to_poly(k.a[1]), N.r.to_poly(k.a[2])
        d = N.r.padd(b, a, -1)
    except Exception:
        return None
    c = d.pop((), 0)
    if not d or len(d) > 6:
        return None
    return k.a[0], frozenset(d.items()), c


def ordered(p, val, q):
    """Does `p is val` decide q?  True / False / None"""
    (op, f, c), (oq, g, k) = p, q
    if f == g:
        sgn = 1
    elif f == frozenset((m, -x) for m, x in g):
        sgn = -1
    else:
        return None
    # with x = the common form: p says x lies in an interval (lo, hi)
    if op == "==":
        if not val:
            return None
        lo = hi = (-c, True)
    elif val:
        lo, hi = (-c, op == "<="), None
    else:
        lo, hi = None, (-c, op == "<")
    # q: sgn * x + k  oq  0, with its own interval
    if oq == "==":
        y = -k * sgn
        if lo is not None and (y < lo[0] or y == lo[0] and not lo[1]) or hi is not None and (y > hi[0] or y == hi[0] and not hi[1]):
            return False
        return True if op == "==" else None
    cl = oq == "<="
    if sgn == 1:        # 0 o x + k
        y = -k
        if lo is not None and (lo[0] > y or lo[0] == y and (cl or not lo[1])):
            return True
        if hi is not None and (hi[0] < y or hi[0] == y and not (cl and hi[1])):
            return False
    else:               # 0 o -x + k,  x o k
        y = k
        if hi is not None and (hi[0] < y or hi[0] == y and (cl or not hi[1])):
            return True
        if lo is not None and (lo[0] > y or lo[0] == y and not (cl and lo[1])):
            return False
    return None


def implied(atoms, key, val, N):
    """Other atoms decided by assuming atom `key` = val: equality with different constants, None tests, truthiness."""
    out = {}

    def subj(k):
        """(subject, constant) of an equality / is-None atom; (k, Ellipsis) for truthiness"""
        if k.op == "cmp" and k.a[0] in ("==", "is"):
            a, b = k.a[1], k.a[2]
            if b.op == "const":
                return a, b
            if a.op == "const":
                return b, a
            return None, None
        if k.op == "isinst":
            return k.a[0], "inst"
        return k, Ellipsis
    if key.op == "exists":
        mine = set(key.a[1].a if key.a[1].op == "and" else (key.a[1],))
        for k in atoms:
            if k is not key and k.op == "exists" and k.a[0] == key.a[0]:
                o = set(k.a[1].a if k.a[1].op == "and" else (k.a[1],))
                if val and o <= mine:
                    out[k] = True
                elif not val and mine <= o:
                    out[k] = False
        return out
    p = linear(key, N)
    if p is not None:
        for k in atoms:
            q = linear(k, N) if k is not key else None
            v = ordered(p, val, q) if q is not None else None
            if v is not None:
                out[k] = v
    s, c = subj(key)
    if s is None:
        return out
    for k in atoms:
        if k is key:
            continue
        s2, c2 = subj(k)
        if s2 is not s:
            continue
        if val and isinstance(c, T):
            if isinstance(c2, T):
                if c2.a[0] != c.a[0] or type(c2.a[0]) is not type(c.a[0]):
                    out[k] = False
            elif c2 is Ellipsis:
                out[k] = bool(c.a[0])
            elif c2 == "inst" and c.a[0] is None:
                out[k] = False
        elif val and c is Ellipsis:
            if isinstance(c2, T) and not c2.a[0]:
                out[k] = False
        elif val and c == "inst":
            if isinstance(c2, T) and c2.a[0] is None:
                out[k] = False
            elif c2 == "inst" and k.a[1:] != key.a[1:] and tyname(k) in DISJOINT and tyname(key) in DISJOINT and tyname(k) != tyname(key):
                out[k] = False
    return out


DISJOINT = ("str", "tuple", "list", "dict", "set", "int", "float", "ndarray", "DataFrame", "Series", "Path", "PosixPath", "bytes", "Namespace")


def tyname(k):
    t = k.a[1] if len(k.a) > 1 else None
    return (t.a[0] if isinstance(t, T) else str(t)).split(".")[-1] if t is not None else ""


class CaseBudget(Exception):
    pass


def effset(t, N):
    """Normal form of a trace of guarded effects: effects acting on a common object or resource keep their order,
    independent ones do not (lexicographic normal form of a Mazurkiewicz trace)."""
    out = []
    for e in t.a:
        n = N(e)
        cx = n.a[1]
        if N.dead(cx):
            continue
        out.append(n)
    n = len(out)
    if n < 2:
        return mk("effset", *out)
    rs = [touches(e) for e in out]
    pred = [0] * n
    succ = [[] for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if out[i] is out[j] or (conflict(rs[i], rs[j]) and not exclusive(out[i].a[1], out[j].a[1])):
                pred[j] += 1
                succ[i].append(j)
    ready = [(out[i].uid, i) for i in range(n) if not pred[i]]
    heapq.heapify(ready)
    res = []
    while ready:
        _, i = heapq.heappop(ready)
        res.append(out[i])
        for j in succ[i]:
            pred[j] -= 1
            if not pred[j]:
                heapq.heappush(ready, (out[j].uid, j))
    return mk("effset", *res)


COMMUTE = set("""add_argument set_xlabel set_ylabel set_title set_xlim set_ylim set_xscale set_yscale set_xticks set_yticks set_xticklabels set_yticklabels
 grid xlabel ylabel title xlim ylim xscale yscale setText setValue addItem setChecked setCheckState setEnabled setVisible connect
 add set_visible tick_params axvline axhline create_dataset attach""".split())


def touches(e):
    """(objects and resources an effect acts on, does it commute with its like)"""
    t = e.a[0]
    out = set(x for x in (e.a[2].a[0].split(",") if len(e.a) > 2 and is_const(e.a[2]) else ()) if x)
    name = None
    if t.op == "eff" and t.a[0].op == "meth":
        name = t.a[0].a[1]
        out.add(simproot(t.a[0].a[0]))
    elif t.op == "call" and t.a[0].op == "attr":
        name = t.a[0].a[1]
        out.add(simproot(t.a[0].a[0]))
    elif t.op == "call" and t.a[0].op == "ext":
        name = t.a[0].a[0].rsplit(".", 1)[-1]
    return out, name in COMMUTE


def simproot(t):
    """The object a receiver expression designates, one attribute below its root."""
    while True:
        if t.op == "attr" and t.a[0].op == "sym":
            return t
        if t.op in ("attr", "idx", "meth") and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr":
            t = t.a[0].a[0]
        else:
            return t


def conflict(x, y):
    if x[1] and y[1]:
        return False
    return bool(x[0] & y[0])


def equiv(a, b, R, N, limit=400):
    """True / False / None(unknown): do the raw terms a and b denote the same value whenever R holds?"""
    n = [0]

    def nf(t):
        return effset(t, N) if t.op == "effset" else N(t)

    def truthv(r):
        return N(r)

    def go(a, b, R, m0, g0):
        n[0] += 1
        if n[0] > limit:
            raise CaseBudget()
        r = truthv(R)
        if r is FALSE:
            return True
        na, nb = nf(a), nf(b)
        if na is nb:
            return True
        at = {}
        seen = set()
        atoms_of(mk("pair", a, b), N, at, seen)
        if not at:
            at2 = atoms_of(R, N)
            if not at2:
                return False
            at = at2
        else:
            atoms_of(R, N, at, seen)
        # prefer the condition at the top of a differing value
        key = None
        for x in (a, b, R):
            if x.op == "phi":
                c = atoms_of(mk("when", x.a[0]), N)
                if c:
                    key = min(c, key=lambda k: k.uid)
                    break
        if key is None:
            key = min(at, key=lambda k: k.uid)
        for val in (True, False):
            m, gm = dict(m0), dict(g0)
            for k, v in [(key, val)] + list(implied(at, key, val, N).items()):
                for raw, pol in at.get(k, {}).items():
                    (m if simp.is_bool(raw) else gm)[raw] = TRUE if pol == v else FALSE
            (m if simp.is_bool(key) else gm).setdefault(key, TRUE if val else FALSE)
            E = set(k for k, v in list(gm.items()) + list(m.items()) if v is FALSE)
            if val:
                # where x == 'text' or x is None holds, x is that constant
                for raw, pol in at.get(key, {}).items():
                    c = raw if pol else simp.c_not(raw)
                    if c.op == "cmp" and c.a[0] in ("==", "is"):
                        for s, k in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                            if is_const(k) and (k.a[0] is None or type(k.a[0]) in (str, int)) and not is_const(s):
                                m.setdefault(s, k)
            never = None
            if E:
                def never(cx, N=N):
                    # a loop in none of whose iterations the guard holds
                    fors = [c for c in cx if c.op == "for"]
                    if any(c.a[0] in E for c in fors):
                        return True
                    return bool(fors) and all(c.op in ("for", "when") and (c.op != "for" or len(c.a) == 2) for c in cx) and N(simp.mk_exists(
                        tuple(mk("loop", *f.a) for f in fors), simp.c_and([c.a[0] for c in cx if c.op == "when"]))) in E
            a2, b2, R2 = assume(a, m, gm, False, never), assume(b, m, gm, False, never), assume(R, m, gm, True, never)
            if a2 is a and b2 is b and R2 is R:
                return False
            if not go(a2, b2, R2, m, gm):
                return False
        return True
    try:
        return go(a, b, R, {}, {})
    except (CaseBudget, RecursionError):
        return None


def exclusive(a, b):
    """The two contexts differ first in contradictory guards."""
    for x, y in zip(a.a, b.a):
        if x is y:
            continue
        if x.op == "when" and y.op == "when":
            return simp.c_and([x.a[0], y.a[0]]) is FALSE
        return False
    return False


def merge_ctx(a, b):
    if a is b:
        return None
    xa, xb = list(a.a), list(b.a)
    if len(xa) == len(xb):
        dif = [i for i in range(len(xa)) if xa[i] is not xb[i]]
        if len(dif) == 1 and xa[dif[0]].op == "when" and xb[dif[0]].op == "when":
            c = simp.c_or([xa[dif[0]].a[0], xb[dif[0]].a[0]])
            i = dif[0]
            xa[i:i + 1] = [] if c is TRUE else [mk("when", c)]
            return mk("ctx", *xa)
    return None


def match(n, pats):
    if pats is True:
        return True
    for p in pats:
        if p.endswith("*") and (n.startswith(p[:-1]) or "." + p[:-1] in n):
            return True
        if n == p or n.endswith("." + p):
            return True
    return False


def param_terms(spec_func, target):
    """Bind the target's parameters (by position) to the spec's parameter names."""
    sp = spec_func.node.args
    tp = target.node.args
    sn = [x.arg for x in sp.posonlyargs + sp.args]
    tn = [x.arg for x in tp.posonlyargs + tp.args]
    sk = {x.arg for x in sp.kwonlyargs}
    return sn, tn, sk


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


LIMIT = [60, None]          # seconds per reference; end of the whole budget (monotonic)


def compare_spec(prog, spec, N=None):
    """Bounded comparison: a graph that explodes is reported as undecided, never left to run out the clock."""
    N = N or Norm()
    n = LIMIT[0]
    if LIMIT[1] is not None:
        n = max(3, min(n, int(LIMIT[1] - time.monotonic())))
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(n)
    try:
        return compare_policies(prog, spec, N)
    except (Timeout, MemoryError, RecursionError) as e:
        signal.alarm(0)
        key = spec.opts.get("key") or spec.target.replace("seyfert.", "", 1)
        r = Result(key, "undecided", "the value graph exceeded its budget (%s)" % type(e).__name__, "", "budget")
        return [r]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def compare_policies(prog, spec, N):
    """Compare under several inlining policies; a slot holds when one of them proves it."""
    N = N or Norm()
    if spec.target in prog.phantoms:
        key = spec.opts.get("key") or spec.target.replace("seyfert.", "", 1)
        nm = spec.target.replace("@setter", "").rsplit(".", 1)[1]
        r = referenced(prog, nm)
        if r and not any(f.qual not in prog.phantoms for f in prog.methods_by_name.get(nm, [])):
            return [Result(key, "violation", "%s is gone but still referenced in %s" % (spec.target, r), r, "exists")]
        if nm.startswith("__"):
            return [Result(key, "violation", "special method %s is gone" % spec.target, "", "exists")]
        return [Result(key, "ok", "no longer a separate function", "", "inlined")]
    res = compare_once(prog, spec, N, spec.opts.get("opaque", ["seyfert.*", "bin.*"]))
    if all(r.status == "ok" for r in res):
        return res
    alts = spec.opts.get("alts")
    if alts is None:
        alts = [[], ["seyfert.utils.shortcuts.*"], ["seyfert.*", "bin.*"]]
    for alt in alts:
        if alt == spec.opts.get("opaque", ["seyfert.*", "bin.*"]):
            continue
        try:
            r2 = compare_once(prog, spec, N, alt)
        except (AnchorLost, RecursionError, Budget):
            continue
        except (Timeout, MemoryError):
            return res
        if all(r.status == "ok" for r in r2):
            for r in r2:
                r.rule += " (inlining: %s)" % (",".join(alt) or "everything")
            return r2
    # look into exactly the functions which the two sides use differently
    clear, r2 = set(), res
    for _ in range(4):
        new = set()
        for r in r2:
            if r.status != "ok" and r.sides is not None:
                new |= one_sided(prog, *r.sides)
        new -= clear
        if not new:
            break
        clear |= new
        try:
            r2 = compare_once(prog, spec, N, ["seyfert.*", "bin.*"] + ["!" + q for q in sorted(clear)])
        except (AnchorLost, RecursionError, Budget):
            break
        except (Timeout, MemoryError):
            return res
        if all(r.status == "ok" for r in r2):
            for r in r2:
                r.rule += " (inlining: %s)" % ",".join(sorted(clear))
            return r2
    return res


def uses(prog, t):
    """{function: the terms which use it} of a graph."""
    out = {}
    for x in walk(t) if isinstance(t, T) else ():
        if x.op in ("call", "eff") and x.a and isinstance(x.a[0], T) and x.a[0].op in ("func", "class"):
            out.setdefault(x.a[0].a[0], set()).add(x)
        elif x.op == "eff" and x.a and isinstance(x.a[0], str):
            out.setdefault(x.a[0], set()).add(x)
        elif x.op == "attr":
            for f in prog.methods_by_name.get(x.a[1], ()):
                if f.is_property:
                    out.setdefault(f.qual, set()).add(x)
    return out


def one_sided(prog, a, b):
    ua, ub = uses(prog, a), uses(prog, b)
    qs = {q for q in set(ua) | set(ub) if ua.get(q) != ub.get(q)}
    return qs | {q + ".__init__" for q in qs if q in prog.classes}


def compare_once(prog, spec, N, opaque):
    """-> list of Result, one per slot."""
    st, m = spec.func
    opts = dict(spec.opts, opaque=opaque)
    unfolded = opaque != spec.opts.get("opaque", ["seyfert.*", "bin.*"])
    tq = spec.target
    setter = tq.endswith("@setter")
    target = prog.func(tq) if not setter else prog.funcs.get(tq)
    if target is None:
        raise AnchorLost("no function %s" % tq)
    cls = prog.cls(opts["cls"]) if opts.get("cls") else target.cls
    sf = Func("spec:" + spec.target, st, m, target.cls)
    sf.decorators = set(target.decorators)
    key = opts.get("key") or spec.target.replace("seyfert.", "", 1)
    # parameters: same order; the spec's names are the canonical symbols
    sn, tn, sk = param_terms(sf, target)
    isinst = target.cls is not None and not target.is_static
    types = {}
    targs = {}
    extra = []
    stn = st.args
    ann = {x.arg: x.annotation for x in stn.posonlyargs + stn.args + stn.kwonlyargs}
    tann = {x.arg: x.annotation for x in target.node.args.posonlyargs + target.node.args.args + target.node.args.kwonlyargs}
    tall = tn + [x.arg for x in target.node.args.kwonlyargs]
    sall = sn + [x.arg for x in stn.kwonlyargs]
    if len(tn) < len(sn) and target.node.args.vararg is None:
        return [Result(key + ":signature", "violation", "takes %d parameters, the reference needs %d" % (len(tn), len(sn)), target.loc(), "signature")]
    for i, n in enumerate(tn):
        if i == 0 and isinst:
            continue
        if i < len(sn):
            targs[n] = mk("sym", sn[i])
            if ann.get(sn[i]) is not None:
                types[sn[i]] = prog.annot_type(m, ann[sn[i]])
            elif tann.get(n) is not None:
                types[sn[i]] = prog.annot_type(target.module, tann[n])
        else:
            # additional optional parameter: must keep its default behaviour
            d = default_of(target, n)
            if d is None:
                return [Result(key + ":signature", "violation", "needs an additional argument %r" % n, target.loc(), "signature")]
            extra.append((n, d))
    for x in target.node.args.kwonlyargs:
        if x.arg in sall:
            targs[x.arg] = mk("sym", x.arg)

    def run(f, args):
        I_types = types
        sl = Slots.__new__(Slots)
        I = Interp(prog, opaque=opts.get("opaque", ()), depth=opts.get("depth", 16), budget=opts.get("budget", 60000))
        I.reify_inst = True
        for n, ty in I_types.items():
            if ty is not None:
                I.types[mk("sym", n)] = ty
        sl.I, sl.N, sl.opts = I, N, opts
        sl.s = I.run(f, cls=cls, args=args)
        if getattr(I, "open_loops", False) and os.environ.get("OL"):
            print("OPEN", unfolded, spec.target)
        if getattr(I, "open_loops", False) and unfolded:
            raise Budget("state carried by a loop")
        I.ctx = ()
        sl.func = f
        sl.n_events = len(sl.s.events)
        sl.unknown = list(I.unknown)
        return sl

    for n, d in extra:
        I0 = Interp(prog)
        targs[n] = I0.ev_in_module(target.module, d)
    vararg = target.node.args.vararg
    code = run(target, targs)
    ref = run(sf, {n: mk("sym", n) for i, n in enumerate(sn) if not (i == 0 and isinst)})
    out = []
    loc = target.loc()

    R = [None]

    def judge(slot, cv, rv, where=None, raw=True):
        k = "%s:%s" % (key, slot)
        n0 = len(out)
        judge_(k, slot, cv, rv, where, raw)
        for r in out[n0:]:
            r.sides = (cv, rv)

    def judge_(k, slot, cv, rv, where, raw):
        if cv is rv:
            out.append(Result(k, "ok", "", where or loc, slot))
            return
        if isinstance(cv, T) and isinstance(rv, T) and raw:
            ca, ra = cv, rv
            cv, rv = (effset(cv, N), effset(rv, N)) if cv.op == "effset" else (N(cv), N(rv))
            if cv is rv:
                out.append(Result(k, "ok", "", where or loc, slot))
                return
            if R[0] is None:
                R[0] = simp.c_and([code.normal(), ref.normal()])
            q = equiv(ca, ra, TRUE if slot.startswith("raises") else R[0], N)
            if q:
                out.append(Result(k, "ok", "", where or loc, slot + " (by cases)"))
                return
            if q is None and cv.op != "effset":
                out.append(Result(k, "undecided", "case analysis exceeded its budget", where or loc, slot))
                return
        elif raw:
            cv, rv = (N(cv) if isinstance(cv, T) else cv), (N(rv) if isinstance(rv, T) else rv)
        ku = set(unmodelled(rv)) if isinstance(rv, T) else set()
        u = [x for x in (unmodelled(cv) if isinstance(cv, T) else []) if x not in ku]
        if isinstance(rv, T) and any(x.startswith("unk") for x in ku):
            out.append(Result(k, "undecided", "reference contains an unmodelled construct: %s" % list(ku)[:2], loc, slot))
            return
        if u:
            out.append(Result(k, "undecided", "unmodelled construct: %s" % ", ".join(u[:3]), where or loc, slot))
            return
        if cv is None or rv is None:
            out.append(Result(k, "violation", "%s: %s" % (slot, "missing (expected %s)" % show(rv, 8)[:300] if cv is None else "unexpected %s" % show(cv, 8)[:300]), where or loc, slot))
            return
        if rearranged(cv, rv):
            out.append(Result(k, "undecided", "same vocabulary, other loop structure: not decided", where or loc, slot))
            return
        dd = diff(cv, rv)
        txt = "; ".join("found %s | expected %s" % (show(x, 9)[:260], show(y, 9)[:260]) for x, y in dd[:2])
        out.append(Result(k, "violation", "%s differs: %s" % (slot, txt), where or loc, slot))

    if opts.get("ret", True):
        judge("return", code.ret(), ref.ret())
    if True:
        cs, rs = code.state(opts.get("state", True) or []), ref.state(opts.get("state", True) or [])
        for n in sorted(set(cs) | set(rs)):
            cv, rv = cs.get(n), rs.get(n)
            if (cv is None) != (rv is None):
                # written on one side only: equal when the other side leaves the same value
                o = (cv if cv is not None else rv)
                if isinstance(o, T) and o.op == "dictc" and not n.startswith("result:"):
                    o0 = mk("dictc")
                    cv, rv = (cv, o0) if cv is not None else (o0, rv)
            judge("state " + n, cv, rv)
    if opts.get("raises", True):
        cr, rr = code.raises(), ref.raises()
        only = opts["raises"] if isinstance(opts.get("raises"), (list, tuple)) else None
        for n in sorted(set(cr) | set(rr)):
            if only and n not in only:
                continue
            judge("raises " + n, cr[n][0] if n in cr else None, rr[n][0] if n in rr else None, cr[n][1].loc if n in cr else None)
    if opts.get("fx", True):
        ce, re_ = code.side_effects(), ref.side_effects()
        cset, rset = mk("effset", *[mk("effect", x[1], x[2], x[4]) for x in ce]), mk("effset", *[mk("effect", x[1], x[2], x[4]) for x in re_])
        nc, nr = effset(cset, N), effset(rset, N)
        same = nc is nr
        if not same:
            same = equiv(cset, rset, TRUE, N)
        if same:
            if nr.a:
                out.append(Result("%s:side effects" % key, "ok", "", loc, "side effects"))
        else:
            onlyc, onlyr = list(nc.a), list(nr.a)
            for t in nc.a:
                if t in onlyr:
                    onlyr.remove(t)
                    onlyc.remove(t)
            ct = {N(mk("effect", x[1], x[2], x[4])): x for x in ce}
            rt = {N(mk("effect", x[1], x[2], x[4])): x for x in re_}
            if not onlyc and not onlyr:
                i = next(i for i in range(len(nc.a)) if nc.a[i] is not nr.a[i])
                out.append(Result("%s:order of side effects" % key, "violation", "order of side effects differs: found %s | expected %s" % (
                    show(nc.a[i], 8)[:300], show(nr.a[i], 8)[:300]), ct[nc.a[i]][3].loc, "side effects"))
            for i in range(max(len(onlyc), len(onlyr))):
                a = onlyc[i] if i < len(onlyc) else None
                b = onlyr[i] if i < len(onlyr) else None
                judge("side effect " + (rt[b] if b is not None else ct[a])[0].split(".")[-1], a, b, ct[a][3].loc if a is not None else None, raw=False)
    for i, n in enumerate(sn):
        if i < len(tn):
            rd = default_of(sf, n)
            if rd is not None:
                cd = default_of(target, tn[i])
                same = cd is not None and (ast.dump(cd) == ast.dump(rd))
                if not same and cd is not None:
                    try:
                        v, w = N(Interp(prog).ev_in_module(target.module, cd)), N(Interp(prog).ev_in_module(m, rd))
                        same = v is w or (not (is_const(v) and is_const(w)) and not all(literal(x) for x in (cd, rd)))
                    except (AnchorLost, Budget, RecursionError):
                        same = True
                if not same:
                    out.append(Result("%s:default %s" % (key, n), "violation", "default of parameter %r is %s, expected %s" % (
                        n, ast.unparse(cd) if cd is not None else "absent", ast.unparse(rd)), loc, "defaults"))
    if opts.get("effects"):
        ce, re_ = code.effects(opts["effects"]), ref.effects(opts["effects"])
        if opts.get("unordered"):
            ce.sort(key=lambda x: (x[1].uid, x[2].uid))
            re_.sort(key=lambda x: (x[1].uid, x[2].uid))
        bad = None
        for i in range(max(len(ce), len(re_))):
            a = ce[i] if i < len(ce) else None
            b = re_[i] if i < len(re_) else None
            ta = mk("effect", a[1], a[2]) if a else None
            tb = mk("effect", b[1], b[2]) if b else None
            if ta is not tb:
                judge("effects#%d %s" % (i, (b or a)[0].split(".")[-1]), ta, tb, a[3].loc if a else None, raw=False)
                bad = True
                break
        if not bad:
            out.append(Result(key + ":effects", "ok" if re_ or opts.get("noeffects") else "undecided", "%d effect events" % len(re_), loc, "effects"))
    for r in out:
        r.n_events = code.n_events
        r.func = target
    kinds = ("property" if target.is_property else "setter" if target.is_setter else "plain",
             spec.opts["kind"] if spec.opts.get("kind") in ("property", "setter") else "plain")
    if "kind" in spec.opts and kinds[0] != kinds[1]:
        out.append(Result(key + ":kind", "violation", "is a %s, expected a %s" % kinds, loc, "kind"))
    cached = [d for d in target.decorators if d.split(".")[-1] in ("lru_cache", "cache", "cached_property")]
    if cached and not spec.opts.get("cached"):
        out.append(Result(key + ":memoised", "violation", "the result is memoised (%s): later changes of the state it reads are not seen" % ", ".join(cached), loc, "kind"))
    if not out:
        out.append(Result(key + ":empty", "ok", "nothing returned, stored, raised or done", loc, "empty"))
    return out


def literal(e):
    try:
        ast.literal_eval(e)
        return True
    except (ValueError, TypeError, SyntaxError, MemoryError):
        return False


def default_of(func, n):
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for x, y in zip(a.kwonlyargs, a.kw_defaults):
        d[x.arg] = y
    return d.get(n)
