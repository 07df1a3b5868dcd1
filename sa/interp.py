"""Gated value numbering over the AST (intra- and inter-procedural, context sensitive).

For an entry function the interpreter produces
  * the returned value as a value-graph term (phi-gated over path conditions),
  * the heap/container write logs (attribute stores, container insertions), each with the
    control context (path conditions, loops, with/try blocks) it happens under,
  * an ordered effect trace (calls, raises, stores, returns).
Repo callees are inlined (context sensitively) up to a bound; everything else is opaque.
Nothing of the analysed program is executed.
"""
import ast
import os
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, kids, walk, mentions, rewrite, subst, show
from .program import Program, Func, Class, dotted, walk_own, AnchorLost
from . import simp, modref
from .simp import c_not, c_and, c_or, mk_phi, mk_cmp, mk_bin, mk_str, mk_path, mk_extcall

PYBUILTINS = {"len", "range", "isinstance", "getattr", "setattr", "hasattr", "print", "str", "int", "float", "list",
              "dict", "tuple", "set", "sorted", "enumerate", "zip", "map", "filter", "any", "all", "sum", "min", "max",
              "abs", "type", "super", "repr", "bool", "iter", "next", "id", "callable", "frozenset", "reversed", "round"}
# methods which make a new table
NEWTABLE = ("set_index", "reset_index", "sort_index", "sort_values", "rename", "drop", "fillna")
ALLOC = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like",
         "numpy.full_like", "numpy.eye", "numpy.identity", "pandas.DataFrame", "pandas.Series",
         "collections.defaultdict", "collections.OrderedDict"}
MAXUNROLL = 24
GEN = 1000
UID = [1000000]
READS = frozenset(["call", "bin", "cmp", "len", "idx", "not", "str", "un", "isinst"])


def walk1(t):
    """The operands of t (through argument tuples and a method's receiver)."""
    out = []
    st = list(t.a)
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, T):
            out.append(y.a[0] if y.op == "attr" else y)
    return out


OPFUNS = {"operator.add": "+", "operator.sub": "-", "operator.mul": "*", "operator.truediv": "/", "operator.pow": "**", "operator.floordiv": "//",
          "operator.mod": "%", "operator.matmul": "@", "operator.and_": "&", "operator.or_": "|", "operator.xor": "^", "operator.getitem": "idx",
          "operator.lt": ast.Lt(), "operator.le": ast.LtE(), "operator.gt": ast.Gt(), "operator.ge": ast.GtE(), "operator.eq": ast.Eq(),
          "operator.ne": ast.NotEq(), "operator.is_": ast.Is(), "operator.is_not": ast.IsNot()}


# functions whose result does not depend on what a container holds
BYREF = ("builtins.isinstance", "builtins.id", "builtins.type", "builtins.getattr", "builtins.hasattr", "builtins.setattr", "builtins.callable", "setattr",
         "numpy.asarray", "numpy.asanyarray")


PATHCMDS = ("mkdir", "unlink", "rmdir", "touch", "rename", "replace", "write_text", "write_bytes", "chmod", "symlink_to")


class Event(object):
    __slots__ = ("kind", "callee", "args", "kw", "ctx", "node", "func", "seq", "value", "stack", "recv", "discarded", "opaque", "born")

    def __init__(self, kind, callee, args, kw, ctx, node, func, seq, value=None, stack=(), recv=None):
        self.kind, self.callee, self.args, self.kw, self.ctx = kind, callee, args, kw, ctx
        self.node, self.func, self.seq, self.value, self.stack, self.recv = node, func, seq, value, stack, recv
        self.discarded = False
        self.opaque = None
        self.born = T._next[0]

    @property
    def loc(self):
        return "%s:%s" % (self.func.module.rel if self.func else "?", getattr(self.node, "lineno", "?"))

    def arg(self, i=None, name=None, default=None):
        if name is not None:
            for k, v in self.kw:
                if k == name:
                    return v
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def __repr__(self):
        return "<%s %s(%s) @%s>" % (self.kind, self.callee if isinstance(self.callee, str) else show(self.callee) if self.callee else "", ", ".join(show(a) for a in self.args), self.loc)


class Frame(object):
    def __init__(self, func, parent=None):
        self.func, self.env, self.parent = func, {}, parent
        self.returns = []
        self.base = 0
        self.yield_cb = None
        self.yields = None
        self.loopstack = []
        self.cls = func.cls if func is not None else None
        self.selfterm = None


class Entry(object):
    __slots__ = ("ctx", "kind", "key", "val", "seq", "node", "func", "born")

    def __init__(self, ctx, kind, key, val, seq, node, func):
        T._next[0] += 1
        self.born = T._next[0]      # terms numbered up to here were there before this write
        self.ctx, self.kind, self.key, self.val, self.seq, self.node, self.func = ctx, kind, key, val, seq, node, func

    @property
    def loc(self):
        return "%s:%s" % (self.func.module.rel if self.func else "?", getattr(self.node, "lineno", "?"))


_BASE = []


def baseline():
    """Functions known when the rules were written: wildcards in opaque sets cover these only, so that a
    helper introduced later by a refactoring is always looked into."""
    if not _BASE:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_funcs.txt")
        with open(p) as fh:
            _BASE.append(frozenset(x.strip() for x in fh))
    return _BASE[0]


_bound = {}


def bound_names(fn):
    """Plain names assigned in the function's own scope (not parameters, globals, comprehension variables)."""
    k = id(fn)
    if k in _bound and _bound[k][0] is fn:
        return _bound[k][1]
    out, free = set(), set()

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                free.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            visit(c)
    visit(fn)
    _bound[k] = (fn, out - free)
    return _bound[k][1]


class OpaqueSet(object):
    def __init__(self, names, phantoms=()):
        self.phantoms = phantoms
        self.clear = set(n[1:] for n in names if n.startswith("!"))
        self.names = set(n for n in names if not n.endswith("*"))
        self.pref = tuple(n[:-1] for n in names if n.endswith("*"))
        self.memo = {}

    def __contains__(self, q):
        r = self.memo.get(q)
        if r is None:
            r = (q in self.names or (bool(self.pref) and q.startswith(self.pref) and q in baseline())) and q not in self.phantoms and q not in self.clear
            self.memo[q] = r
        return r


class Budget(Exception):
    pass


class Ret(tuple):
    """(context, value, statement) of one return, with the environment it leaves"""
    env = None


SEQ = "@seq"        # position of an exit among the others, kept in its environment


class _Value(ast.expr):
    """An already evaluated operand in a synthesised statement."""

    def __init__(self, term):
        super().__init__()
        self.term = term


class Interp(object):
    def __init__(self, prog, opaque=(), depth=16, budget=60000, transparent_props=True, no_inline=None):
        self.p = prog
        self.opaque = OpaqueSet(opaque, prog.phantoms)
        self.no_inline = no_inline or (lambda f: False)
        self.maxdepth = depth
        self.budget = budget
        self.steps = 0
        self.track_state = True
        self.modref = modref.of(prog)
        self.events = []
        self.heap = {}          # (obj, attr) -> [Entry]   (attr '[]' for subscripts / containers)
        self.journal = []
        self.ctx = ()
        self.nobj = 0
        self.watch = []
        self.stmt_call = None
        self.objinfo = {}       # obj term -> dict(kind, cls, ctx, init)
        self.types = {}
        self.exact = {}
        self.stack = []         # active Funcs
        self.closures = {}
        self.arity = {}
        self.deref = {}         # value -> contexts in which one of its attributes was read
        self.idx_trace = None
        self.call_trace = None
        self.modconst = {}
        self.unknown = []       # constructs not understood (diagnostics)
        self._tmemo = {}

    # ------------------------------------------------------------ public
    def sym(self, name, typ=None, exact=None):
        t = mk("sym", name)
        if typ is not None:
            self.types[t] = typ
        if exact is not None:
            self.types[t] = ("cls", exact)
            self.exact[t] = exact
        return t

    def run(self, func, cls=None, args=None):
        """Analyse `func` from symbolic parameters. cls: dynamic class of self."""
        if isinstance(func, str):
            func = self.p.func(func)
        self.events_start = len(self.events)
        args = dict(args or {})
        a = func.node.args
        names = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        pos, kw = [], []
        selfterm = None
        fr_args = {}
        for i, x in enumerate(names):
            if x.arg in args:
                fr_args[x.arg] = args[x.arg]
                continue
            if i == 0 and func.cls is not None and not func.is_static:
                c = cls or func.cls
                if func.is_classmethod:
                    fr_args[x.arg] = mk("class", c.qual)
                else:
                    selfterm = self.sym("self", exact=c)
                    fr_args[x.arg] = selfterm
                continue
            t = mk("sym", x.arg)
            ty = self.p.annot_type(func.module, x.annotation)
            if ty is not None:
                self.types[t] = ty
            fr_args[x.arg] = t
        if a.vararg:
            fr_args[a.vararg.arg] = args.get(a.vararg.arg, mk("sym", "*" + a.vararg.arg))
        if a.kwarg:
            fr_args[a.kwarg.arg] = args.get(a.kwarg.arg, mk("sym", "**" + a.kwarg.arg))
        ret = self._exec_func(func, fr_args)
        return Summary(self, func, ret)

    # ------------------------------------------------------------ utilities
    def emit(self, kind, callee, args, kw, node, value=None, recv=None):
        e = Event(kind, callee, tuple(args), tuple(kw), self.ctx, node, self.stack[-1] if self.stack else None,
                  len(self.events), value, tuple(self.stack), recv)
        self.events.append(e)
        return e

    def log(self, key, kind, k, val, node):
        lst = self.heap.setdefault(key, [])
        lst.append(Entry(self.ctx, kind, k, val, len(self.events) * 1000 + len(self.journal) % 1000, node, self.stack[-1] if self.stack else None))
        self.journal.append(key)

    def tick(self):
        self.ticks = getattr(self, "ticks", 0) + 1
        return self.ticks

    def snapshot(self):
        return (len(self.events), len(self.journal), self.nobj, self.ctx, len(self.unknown))

    def rollback(self, s):
        del self.events[s[0]:]
        while len(self.journal) > s[1]:
            k = self.journal.pop()
            self.heap[k].pop()
        self.nobj = s[2]
        self.ctx = s[3]
        del self.unknown[s[4]:]

    def alloc(self, kind, cls=None, init=None, node=None):
        self.nobj += 1
        UID[0] += 1
        t = mk("obj", UID[0], kind if cls is None else cls.name)
        self.objinfo[t] = {"num": self.nobj, "kind": kind, "cls": cls, "ctx": self.ctx, "init": init, "seq": len(self.events)}
        if cls is not None:
            self.exact[t] = cls
            self.types[t] = ("cls", cls)
        self._tmemo.pop(t, None)
        return t

    def okind(self, t):
        i = self.objinfo.get(t)
        return i["kind"] if i else None

    def unk(self, why, node=None):
        self.unknown.append((why, getattr(node, "lineno", None), self.stack[-1].qual if self.stack else None))
        return mk("unk", "%s:%s:%d" % (why, getattr(node, "lineno", "?"), len(self.unknown)))

    # ------------------------------------------------------------ types
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t in self._tmemo:
            return self._tmemo[t]
        self._tmemo[t] = None
        r = self._typeof(t)
        self._tmemo[t] = r
        return r

    def _typeof(self, t):
        o, a = t.op, t.a
        if o == "const":
            return ("ext", type(a[0]).__name__)
        if o in ("str",):
            return ("ext", "str")
        if o == "obj":
            i = self.objinfo.get(t)
            if i and i["kind"] in ("list", "dict", "set"):
                return ("gen", i["kind"], (None, None))
            return None
        if o == "attr":
            ty = self.typeof(a[0])
            if ty and ty[0] == "cls":
                return self.attr_type(ty[1], a[1])
            return None
        if o == "idx":
            ty = self.typeof(a[0])
            if not ty:
                return None
            if ty[0] == "gen":
                if ty[1] in ("dict", "mapping", "defaultdict"):
                    return ty[2][1] if len(ty[2]) > 1 else None
                if ty[1] in ("list", "sequence", "iterable"):
                    return ty[2][0]
                if ty[1] == "tuple":
                    k = cval(a[1])
                    if isinstance(k, int) and -len(ty[2]) <= k < len(ty[2]):
                        return ty[2][k]
                    return ty[2][0]
            if ty[0] == "cls":
                return self.item_type(ty[1])
            return None
        if o == "elem":
            ty = self.typeof(a[0])
            if not ty:
                return None
            if ty[0] == "gen":
                return ty[2][0] if ty[2] else None
            if ty[0] == "cls":
                f = self.p.find_method(ty[1], "__iter__")
                for kcls in self.p.mro(ty[1]):
                    for be in getattr(kcls, "base_exprs", []):
                        if isinstance(be, ast.Subscript) and isinstance(be.slice, ast.Tuple):
                            return self.p.annot_type(kcls.module, be.slice.elts[0])
                g = self.p.find_method(ty[1], "__getitem__")
                if f is not None and g is not None:
                    return self.item_type(ty[1]) if not f.node.returns else None
            return None
        if o == "phi":
            x, y = self.typeof(a[1]), self.typeof(a[2])
            if x == y:
                return x
            if is_const(a[1], None):
                return y
            if is_const(a[2], None):
                return x
            return None
        if o == "call":
            c = a[0]
            if c.op == "func":
                f = self.p.funcs.get(c.a[0])
                if f is not None:
                    return self.p.annot_type(f.module, f.node.returns)
            if c.op == "bound":
                f = self.p.funcs.get(c.a[0])
                if f is not None:
                    return self.p.annot_type(f.module, f.node.returns)
            if c.op == "class":
                k = self.p.classes.get(c.a[0])
                return ("cls", k) if k else None
            if c.op == "attr" and c.a[1] in ("get", "pop"):
                ty = self.typeof(c.a[0])
                if ty and ty[0] == "gen" and ty[1] == "dict" and len(ty[2]) > 1:
                    return ty[2][1]
            if c.op == "ext" and c.a[0] in ("copy.copy", "copy.deepcopy") and a[1]:
                return self.typeof(a[1][0])
            if c.op == "attr" and c.a[1] == "copy":
                return self.typeof(c.a[0])
        if o == "copyof":
            return self.typeof(a[0])
        return None

    def attr_type(self, cls, name):
        an = self.p.find_annot(cls, name)
        if an is not None:
            ty = self.p.annot_type(an[0].module, an[1])
            if ty is not None:
                return ty
        m = self.p.find_method(cls, name)
        if m is not None and m.is_property:
            return self.p.annot_type(m.module, m.node.returns)
        # inferred from `self.name = Class(...)` / annotated parameter in any method
        for k in self.p.mro(cls):
            for f in k.methods.values():
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        t = n.targets[0]
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                            v = n.value
                            if isinstance(v, ast.Call):
                                d = dotted(v.func)
                                if d:
                                    r = self.p.resolve_name(k.module, d)
                                    if r[0] == "class":
                                        return ("cls", r[1])
                                    if r[0] == "func":
                                        ty = self.p.annot_type(r[1].module, r[1].node.returns)
                                        if ty:
                                            return ty
                            elif isinstance(v, ast.Dict) and v.values and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in v.values):
                                return ("gen", "dict", (None, ("ext", "str")))
                            elif isinstance(v, ast.Name):
                                for x in f.node.args.args + f.node.args.kwonlyargs:
                                    if x.arg == v.id and x.annotation is not None:
                                        ty = self.p.annot_type(k.module, x.annotation)
                                        if ty:
                                            return ty
        return None

    def item_type(self, cls):
        m = self.p.find_method(cls, "__getitem__")
        for k in self.p.mro(cls):
            for be in getattr(k, "base_exprs", []):
                if isinstance(be, ast.Subscript) and isinstance(be.slice, ast.Tuple) and len(be.slice.elts) == 2:
                    ty = self.p.annot_type(k.module, be.slice.elts[1])
                    if ty is not None:
                        return ty
            if m is not None and m.cls is k:
                break
        if m is not None:
            return self.p.annot_type(m.module, m.node.returns)
        return None

    def cls_of(self, t):
        if t in self.exact:
            return self.exact[t], True
        ty = self.typeof(t)
        if ty and ty[0] == "cls":
            return ty[1], False
        return None, False

    # ------------------------------------------------------------ control
    def assumed(self, c):
        """Is condition c decided by the current path? -> True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "const":
            return bool(c.a[0])
        n = c_not(c)
        for it in self.ctx:
            if it[0] == "if":
                x = it[1]
                if x is c:
                    return True
                if x is n:
                    return False
        if c.op == "and":
            rs = [self.assumed(x) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == "or":
            rs = [self.assumed(x) for x in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def push_if(self, c):
        if c.op == "bool":
            c = c.a[0]
        if c.op == "and":
            for x in c.a:
                self.push_if(x)
        elif c is not TRUE:
            self.ctx = self.ctx + (("if", c),)

    def residual(self, base_len):
        """Conjunction of 'if' items pushed after base_len."""
        return c_and([it[1] for it in self.ctx[base_len:] if it[0] == "if"])

    # ------------------------------------------------------------ functions
    def _bind(self, func, args, kw, node):
        a = func.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        starkw = None
        for k, v in kw:
            if k == "**":
                starkw = v
            elif k in pos or k in kwonly:
                env[k] = v
            else:
                extra.append((k, v))
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *rest)
        if a.kwarg:
            if starkw is not None and not extra:
                env[a.kwarg.arg] = starkw
            else:
                d = self.alloc("dict")
                for k, v in extra:
                    self.log((d, "[]"), "set", const(k), v, node)
                if starkw is not None:
                    self.log((d, "[]"), "update", None, starkw, node)
                env[a.kwarg.arg] = d
        defaults = a.defaults
        for x, dflt in zip(pos[len(pos) - len(defaults):], defaults):
            if x not in env:
                env[x] = self._default(func, dflt, starkw, x)
        for x, dflt in zip(kwonly, a.kw_defaults):
            if x not in env and dflt is not None:
                env[x] = self._default(func, dflt, starkw, x)
        for x in pos + kwonly:
            if x not in env:
                env[x] = mk("idx", starkw, const(x)) if starkw is not None else self.unk("missing-arg %s of %s" % (x, func.qual), node)
        return env

    def _default(self, func, e, starkw, name):
        fr = Frame(None)
        fr.func = func
        v = self.ev_in_module(func.module, e)
        if starkw is not None:
            return mk("starget", starkw, const(name), v)
        return v

    def ev_in_module(self, module, e):
        class _F(object):
            pass
        f = Func(module.name + ".<module>", ast.parse("def _m(): pass").body[0], module)
        fr = Frame(f)
        old, octx = self.fr if hasattr(self, "fr") else None, self.ctx
        self.ctx = ()
        self.fr = fr
        self.stack.append(f)
        try:
            return self.ev(e)
        finally:
            self.fr = old
            self.stack.pop()
            self.ctx = octx

    def _exec_func(self, func, env, parent=None, yield_cb=None, selfterm=None):
        fr = Frame(func, parent)
        fr.env = env
        fr.yield_cb = yield_cb
        fr.base = len(self.ctx)
        base_ctx = self.ctx
        a = func.node.args
        if func.cls is not None and not func.is_static and (a.posonlyargs + a.args):
            fr.selfterm = env.get((a.posonlyargs + a.args)[0].arg)
        old = getattr(self, "fr", None)
        self.fr = fr
        self.stack.append(func)
        ev0 = len(self.events)
        if func.is_generator and yield_cb is None:
            fr.yields = self.alloc("list")
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body)
                alive = False
                fr.returns.append((self.ctx, v, func.node.body))
            else:
                alive = self.block(func.node.body)
        finally:
            self.fr = old
            self.stack.pop()
        end_ctx = self.ctx
        self.ctx = base_ctx
        if fr.yields is not None:
            return fr.yields
        rets = [(c, v) for c, v, n in fr.returns]
        if alive:
            rets.append((end_ctx, NONE))
        fr_ret = self._fold_returns(rets, len(base_ctx))
        # the caller continues only on the paths that return
        if rets and any(e.kind == "raise" and len(e.stack) > len(self.stack) for e in self.events[ev0:]):
            cs = [c[len(base_ctx):] for c, v in rets]
            if all(it[0] == "if" for c in cs for it in c):
                g = c_or([c_and([it[1] for it in c]) for c in cs])
                if g is not TRUE:
                    self.push_if(g)
        self.last_returns = [(c, v, n) for c, v, n in fr.returns]
        return fr_ret

    def _fold_returns(self, rets, base):
        if not rets:
            return mk("noreturn")
        val = rets[-1][1]
        for c, v in reversed(rets[:-1]):
            cond = self._ctx_cond(c[base:])
            val = mk_phi(cond, v, val)
        return val

    def _ctx_cond(self, items):
        parts = []
        loops = [it for it in items if it[0] in ("for", "while")]
        conds = [it[1] for it in items if it[0] == "if"]
        if loops:
            return simp.mk_exists(tuple(mk("loop", it[1], it[2]) if it[0] == "for" else mk("loopw", it[1]) for it in loops), c_and(conds))
        return c_and(conds)

    def call_func(self, func, args, kw, node, selfterm=None, cls=None, recv=None):
        """Call a repo function (bound self already in args)."""
        args = list(args)
        self.emit("enter", func.qual, args, kw, node, recv=recv)
        if (func.qual in self.opaque or self.no_inline(func) or len(self.stack) >= self.maxdepth
                or sum(1 for f in self.stack if f is func) >= 2
                or any(k == "*" for k, _ in kw)):
            return self.opaque_call(func, args, kw, node)
        if func.is_ctxmgr:
            return self.opaque_call(func, args, kw, node)
        env = self._bind(func, args, kw, node)
        r = self._exec_func(func, env)
        # refine the type of the result with the declared one
        if r.op in ("idx", "call", "attr", "elem", "sym", "phi") and self.typeof(r) is None:
            ty = self.p.annot_type(func.module, func.node.returns)
            if ty is not None and ty[0] != "ext":
                self.types[r] = ty
        return r

    def opaque_call(self, func, args, kw, node):
        names = func.params()
        kwd = []
        # canonical: positional -> keyword names, defaults dropped
        ck = []
        for i, v in enumerate(args):
            ck.append((names[i] if i < len(names) else "*%d" % i, v))
        ck += [x for x in kw]
        a = func.node.args
        dn = [x.arg for x in a.posonlyargs + a.args]
        dmap = dict(zip(dn[len(dn) - len(a.defaults):], a.defaults))
        out = []
        for k, v in ck:
            if k in dmap and isinstance(dmap[k], ast.Constant) and is_const(v, dmap[k].value):
                continue
            out.append((k, v))
        out += self.seen_state(func, dict(ck))
        out.sort(key=lambda kv: kv[0])
        t = mk("call", mk("func", func.qual), (), tuple(out))
        e = self.emit("call", t.a[0], (), t.a[2], node, value=t)
        e.opaque = (func, dict(ck))
        return t

    def seen_state(self, func, amap):
        """What an uninterpreted callee can see of the changes made so far to its arguments' fields."""
        if not self.track_state:
            return []
        sm = self.modref.summary(func.qual)
        if sm is None:
            return []
        out = []
        for p, at in sorted(sm.R):
            a = amap.get(p)
            if a is None or at == "[]":
                continue
            if self.okind(a) == "inst":
                continue
            if (a, at) in self.heap:
                v = self.heap_read((a, at))
                if v is not None and v is not simp.mk_attr(a, at):
                    out.append(("@%s.%s" % (p, at), v))
            k = (simp.mk_attr(a, at), "[]")
            if self.heap.get(k):
                ents = self._entries(k[0], self.reify)
                out.append(("@%s.%s[]" % (p, at), mk("dictc", *[mk("ent", mk("ctx", *c), mk("kind", kind) if key_ is NONE else mk("k", kind, key_), val)
                                                            for c, kind, key_, val in ents])))
        return out

    def command(self, e):
        """An opaque repository call made for its effect: the fields it may write hold what it left there."""
        if not self.track_state:
            return
        if e.opaque is None:
            if e.kind == "call" and e.recv is not None and isinstance(e.callee, T) and e.callee.op == "attr" and not _quiet(e.callee) \
                    and self.stateful(e.recv, e.callee.a[1]) and e.callee.a[1] not in ("append", "extend", "add", "insert", "remove", "pop", "clear", "discard", "popitem") \
                    and not (e.callee.a[1] == "update" and (e.args or e.kw)):
                self.log((e.recv, "[]"), "cmd", None, e.value if e.value is not None else NONE, e.node)
            return
        func, amap = e.opaque
        sm = self.modref.summary(func.qual)
        if sm is None:
            return
        for p, at in sorted(sm.W):
            a = amap.get(p)
            if a is None or a.op in ("const", "class", "mod"):
                continue
            if at == "[]" and self.okind(a) != "inst":
                self.log((a, "[]"), "cmd", None, e.value, e.node)
                continue
            if at == "[]" or self.okind(a) in ("list", "dict", "set", "inst"):
                continue
            at0 = simp.mk_attr(a, at)
            v = mk("after", e.value, at)
            ty = self.typeof(at0)
            if ty is not None:
                self.types[v] = ty
            self.log((a, at), "set", None, v, e.node)

    def stateful(self, r, name):
        """May a method called for its effect on r change what r answers later?"""
        if r.op in ("const", "str", "path", "class", "mod", "ext", "func", "bound", "tuple", "list", "dict", "super") or name in PATHCMDS:
            return False
        ty = self.typeof(r)
        if ty is not None and ty[0] == "ext" and ("Path" in str(ty[1]) or str(ty[1]).startswith("logging")):
            return False
        return self.okind(r) in (None, "ext")

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if not self.stmt(st):
                return False
        return True

    def stmt(self, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded in %s" % (self.stack[0].qual if self.stack else "?"))
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.unk("stmt " + type(st).__name__, st)
            return True
        r = m(st)
        return True if r is None else r

    def s_Pass(self, st): pass
    def s_Global(self, st): pass
    def s_Nonlocal(self, st): pass

    def s_Import(self, st):
        for a in st.names:
            r = self.p.resolve_qual(a.name if a.asname else a.name.split(".")[0])
            self.fr.env[a.asname or a.name.split(".")[0]] = self.sym_to_term(r)

    def s_ImportFrom(self, st):
        base = st.module or ""
        if st.level:
            m = self.fr.func.module
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in st.names:
            self.fr.env[a.asname or a.name] = self.sym_to_term(self.p.resolve_qual(base + "." + a.name))

    def s_Expr(self, st):
        if isinstance(st.value, (ast.Yield,)):
            self.do_yield(st.value)
            return
        if isinstance(st.value, ast.Constant):
            return
        n0 = len(self.events)
        c = st.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, (ast.Name, ast.Attribute)) and \
                c.func.attr in ("sort", "reverse", "append", "extend", "insert"):
            o = self.ev(c.func.value)
            if fresh(o):
                # a container just made by this function is changed in place
                if c.func.attr in ("sort", "reverse"):
                    kw = [(k.arg, self.ev(k.value)) for k in c.keywords]
                    args = [self.ev(x) for x in c.args]
                    if not args:
                        self.assign(c.func.value, mk_extcall("builtins.sorted" if c.func.attr == "sort" else "builtins.reversed", [o], kw, self), st)
                        return
                elif o.a[0].a[0] in ("builtins.list", "builtins.sorted"):
                    n = self.alloc("list")
                    self.log((n, "[]"), "extend", None, o, st)
                    self.assign(c.func.value, n, st)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and any(
                k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in c.keywords):
            # x.m(.., inplace=True) on a table of this function or a field of the instance: x = x.m(..)
            f = c.func.value
            own = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self"
            if own or isinstance(f, ast.Name):
                o = self.ev(f)
                if own or self.okind(o) == "ext" or o.op == "call" and o.a[0].op in ("ext", "attr") or o.op == "bin" or \
                        o.op == "idx" and o.a[0].op == "attr" and o.a[0].a[1] == "loc":
                    w = ast.copy_location(ast.Call(c.func, c.args, [k for k in c.keywords if k.arg != "inplace"]), c)
                    n = self.ev(w)
                    for x, y in list(self.fr.env.items()) if not own else ():
                        if y is o:
                            self.fr.env[x] = n
                    self.assign(f, n, st)
                    return
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "writelines" and isinstance(c.func.value, ast.Name) \
                and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
            # f.writelines(xs)  is  for x in xs: f.write(x)
            w = ast.Expr(ast.Call(ast.Attribute(c.func.value, "write", ast.Load()), [ast.Name("__line", ast.Load())], []))
            lp = ast.For(ast.Name("__line", ast.Store()), c.args[0], [w], [])
            for n in (w, w.value, w.value.func, w.value.args[0], lp, lp.target):
                ast.copy_location(n, st)
            return self.stmt(lp)
        self.stmt_call = st.value
        v = self.ev(st.value)
        if isinstance(st.value, ast.Call) and len(self.events) > n0:
            # the outermost call of an expression statement is made for its effect
            for e in reversed(self.events[n0:]):
                if e.kind == "call" and e.node is st.value and e.func is self.stack[-1]:
                    e.discarded = True
                    self.command(e)
        if v.op == "noreturn":
            return False

    def do_yield(self, y):
        v = self.ev(y.value) if y.value is not None else NONE
        fr = self.fr
        if fr.yield_cb is not None:
            cb = fr.yield_cb
            cb(v)
        elif fr.yields is not None:
            self.log((fr.yields, "[]"), "append", None, v, y)
        return NONE

    def s_FunctionDef(self, st):
        f = Func(self.fr.func.qual + "." + st.name, st, self.fr.func.module, None)
        self.nobj += 1
        t = mk("closure", "%s#%d" % (f.qual, st.lineno))
        self.closures[t] = (f, self.fr)
        self.fr.env[st.name] = t

    def s_ClassDef(self, st):
        self.unk("local class", st)

    def s_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        if v.op == "noreturn":
            return False
        r = Ret((self.ctx, v, st))
        r.env = dict(self.fr.env)
        r.env[SEQ] = self.tick()
        self.fr.returns.append(r)
        self.emit("return", None, (v,), (), st, value=v)
        return False

    def s_Raise(self, st):
        name, args = None, ()
        v = None
        if st.exc is not None:
            v = self.ev(st.exc)
        self.emit("raise", v, (v,) if v is not None else (), (), st, value=v)
        return False

    def s_Assert(self, st):
        c = self.cond(st.test)
        d = self.assumed(c)
        if d is True:
            return
        old = self.ctx
        self.push_if(c_not(c))
        self.emit("raise", mk("ext", "builtins.AssertionError"), (), (), st)
        self.ctx = old
        if d is False:
            return False
        self.push_if(c)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                self.emit("delitem", None, (o, k), (), st)
                self.log((o, "[]"), "del", k, None, st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.emit("delattr", None, (o, const(t.attr)), (), st)
            elif isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)

    def s_Assign(self, st):
        v = self.ev(st.value)
        if v.op == "noreturn":
            return False
        for t in st.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, st):
        if st.value is not None:
            v = self.ev(st.value)
            if v.op == "noreturn":
                return False
            ty = self.p.annot_type(self.fr.func.module, st.annotation)
            if ty is not None and v.op in ("idx", "call", "attr", "elem") and self.typeof(v) is None:
                self.types[v] = ty
            self.assign(st.target, v, st)

    def s_AugAssign(self, st):
        op = simp.BINOPS.get(type(st.op), type(st.op).__name__)
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t))
            v = self.ev(st.value)
            self.emit("aug", op, (cur, v), (), st)
            if op == "+" and fresh(cur) and cur.a[0].a[0] in ("builtins.list", "builtins.sorted"):
                n = self.alloc("list")
                self.log((n, "[]"), "extend", None, cur, st)
                cur = self.fr.env[t.id] = n
            if self.okind(cur) == "list" and op == "+":
                self.container_call(cur, "list", "extend", [v], [], st)
                return
            if self.okind(cur) == "set" and op == "|":
                self.container_call(cur, "set", "update", [v], [], st)
                return
            self.inplace(op, cur, v, st)
            self.fr.env[t.id] = self.bin(op, cur, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.attr(o, t.attr, st)
            v = self.ev(st.value)
            self.emit("aug", op, (cur, v), (), st)
            if self.okind(cur) == "list" and op == "+":
                self.container_call(cur, "list", "extend", [v], [], st)
                return
            self.setattr(o, t.attr, self.bin(op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            cur = self.idx(o, k, st)
            v = self.ev(st.value)
            self.emit("aug", op, (cur, v), (), st)
            self.setitem(o, k, self.bin(op, cur, v, st), st)

    def mutable(self, ty):
        """The type has operators which work in place."""
        if ty is None:
            return False
        if ty[0] == "ext":
            return ty[1].split(".")[-1] in ("ndarray", "DataFrame", "Series")
        if ty[0] == "gen":
            return ty[1] in ("list", "set")
        return ty[0] == "union" and any(self.mutable(x) for x in ty[1])

    def inplace(self, op, cur, v, st):
        """`name op= v`: an object which is also held elsewhere changes there as well."""
        if cur.op == "phi" and cur.a[0].op != "exc":
            c, x, y = cur.a
            base = self.ctx
            self.push_if(c); self.inplace(op, x, v, st); self.ctx = base
            self.push_if(c_not(c)); self.inplace(op, y, v, st); self.ctx = base
        elif cur.op == "attr":
            if self.mutable(self.typeof(cur) or self.p.array_attr(cur.a[1])):
                o, name = cur.a
                new = self.bin(op, cur, v, st)
                self.emit("store", name, (o, new), (), st, value=new, recv=o)
                self.log((o, name), "set", None, new, st)
        elif cur.op == "idx":
            ks = cur.a[1].a if cur.a[1].op == "tuple" else (cur.a[1],)
            view = any(x.op == "slice" for x in ks) and all(x.op == "slice" or is_const(x) or x.op == "pos" for x in ks)
            if view or self.mutable(self.typeof(cur)):
                self.setitem(cur.a[0], cur.a[1], self.bin(op, cur, v, st), st)
        elif cur.op == "sym":
            if self.mutable(self.typeof(cur)):
                self.setitem(cur, const(Ellipsis), self.bin(op, cur, v, st), st)
        elif cur.op == "obj" and self.okind(cur) == "ext":
            new = self.bin(op, cur, v, st)
            for n, x in list(self.fr.env.items()):
                if x is cur:
                    self.fr.env[n] = new
            for (o, name), lst in list(self.heap.items()):
                if lst and lst[-1].kind == "set" and lst[-1].val is cur and lst[-1].k is None:
                    self.emit("store", name, (o, new), (), st, value=new, recv=o)
                    self.log((o, name), "set", None, new, st)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.fr.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.setitem(o, k, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            lit = self.literal_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = n - i - 1
                if lit is not None:
                    vals = list(lit[:i]) + [mk("list", *lit[i:len(lit) - after])] + list(lit[len(lit) - after:] if after else [])
                else:
                    vals = [self.idx(v, const(j), node) for j in range(i)] + \
                           [self.idx(v, mk("slice", const(i), const(-after) if after else NONE, NONE), node)] + \
                           [self.idx(v, const(j - after), node) for j in range(after)]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, node)
                return
            if lit is None and v.op in ("sym", "elem", "attr", "idx", "call"):
                self.arity[v] = (n, tuple(self.ctx)) if v not in self.arity or self.ctx[:len(self.arity[v][1])] != self.arity[v][1] else self.arity[v]
            ty = self.typeof(v) if lit is None else None
            if ty is not None and ty[0] == "gen" and ty[1] in ("set", "dict"):
                v = mk("call", mk("ext", "builtins.list"), (v,), ())
            for i, e in enumerate(t.elts):
                x = lit[i] if lit is not None and i < len(lit) else self.idx(v, const(i), node)
                self.assign(e, x, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def setattr(self, o, name, v, node):
        if o.op == "phi" and o.a[0].op != "exc":
            c, x, y = o.a
            base = self.ctx
            self.push_if(c); self.setattr(x, name, v, node); self.ctx = base
            self.push_if(c_not(c)); self.setattr(y, name, v, node); self.ctx = base
            return
        cls, exact = self.cls_of(o)
        if cls is not None:
            s = self.p.find_setter(cls, name)
            if s is not None and s.qual not in self.opaque:
                self.emit("enter", s.qual + "@setter", (o, v), (), node)
                if len(self.stack) < self.maxdepth:
                    env = self._bind(s, [o, v], [], node)
                    self._exec_func(s, env)
                    return
        self.emit("store", name, (o, v), (), node, value=v, recv=o)
        self.log((o, name), "set", None, v, node)

    def setitem(self, o, k, v, node):
        if o.op == "phi" and o.a[0].op != "exc":
            c, x, y = o.a
            base = self.ctx
            self.push_if(c); self.setitem(x, k, v, node); self.ctx = base
            self.push_if(c_not(c)); self.setitem(y, k, v, node); self.ctx = base
            return
        if k.op == "tuple" and len(k.a) > 1 and simp.is_full(k.a[-1]) and not any(x.op == "ext" for x in k.a):
            # A[i, :] = v  is  A[i] = v
            ks = list(k.a)
            while len(ks) > 1 and simp.is_full(ks[-1]):
                ks.pop()
            if not all(simp.is_full(x) for x in ks):
                k = ks[0] if len(ks) == 1 else mk("tuple", *ks)
        cls, exact = self.cls_of(o)
        if cls is not None:
            s = self.p.find_method(cls, "__setitem__")
            if s is not None:
                if s.qual not in self.opaque and len(self.stack) < self.maxdepth:
                    self.emit("enter", s.qual, (o, k, v), (), node)
                    self._exec_func(s, self._bind(s, [o, k, v], [], node))
                    return
        self.emit("substore", None, (o, k, v), (), node, value=v, recv=o)
        self.log((o, "[]"), "set", k, v, node)

    # ---- if
    def s_If(self, st):
        c = self.cond(st.test)
        d = self.assumed(c)
        if d is True:
            return self.block(st.body)
        if d is False:
            return self.block(st.orelse)
        fr = self.fr
        base = self.ctx
        env0 = dict(fr.env)
        self.push_if(c)
        n1 = len(self.ctx)
        a1 = self.block(st.body)
        env1, r1 = fr.env, self.residual(n1)
        fr.env = dict(env0)
        self.ctx = base
        self.push_if(c_not(c))
        n2 = len(self.ctx)
        a2 = self.block(st.orelse)
        env2, r2 = fr.env, self.residual(n2)
        self.ctx = base
        if not a1 and not a2:
            return False
        if not a1:
            fr.env = env2
            self.push_if(c_and([c_not(c), r2]))
            return True
        if not a2:
            fr.env = env1
            self.push_if(c_and([c, r1]))
            return True
        fr.env = self.merge(c, env1, env2)
        if not (r1 is TRUE and r2 is TRUE):
            self.push_if(mk_phi(c, r1, r2, boolean=True))
        return True

    def merge(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            if k in e1 and k in e2:
                out[k] = mk_phi(c, e1[k], e2[k])
            elif k in e1:
                out[k] = mk_phi(c, e1[k], mk("undef", k))
            else:
                out[k] = mk_phi(c, mk("undef", k), e2[k])
        return out

    def s_Match(self, st):
        subj = self.ev(st.subject)
        cases = []
        for cs in st.cases:
            cases.append((self.pattern(cs.pattern, subj), cs))
        return self._match(cases)

    def pattern(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return mk_cmp("==", subj, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return mk_cmp("is", subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return c_or([self.pattern(x, subj) for x in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.fr.env[p.name] = subj
            return TRUE
        return self.unk("pattern", p)

    def _match(self, cases):
        if not cases:
            return True
        (c, cs), rest = cases[0], cases[1:]
        if cs.guard is not None:
            c = c_and([c, self.cond(cs.guard)])
        d = self.assumed(c)
        if d is True:
            return self.block(cs.body)
        if d is False:
            return self._match(rest)
        fr = self.fr
        base, env0 = self.ctx, dict(fr.env)
        self.push_if(c); n1 = len(self.ctx)
        a1 = self.block(cs.body); env1, r1 = fr.env, self.residual(n1)
        fr.env = dict(env0); self.ctx = base
        self.push_if(c_not(c)); n2 = len(self.ctx)
        a2 = self._match(rest); env2, r2 = fr.env, self.residual(n2)
        self.ctx = base
        if not a1 and not a2:
            return False
        if not a1:
            fr.env = env2; self.push_if(c_and([c_not(c), r2])); return True
        if not a2:
            fr.env = env1; self.push_if(c_and([c, r1])); return True
        fr.env = self.merge(c, env1, env2)
        if not (r1 is TRUE and r2 is TRUE):
            self.push_if(mk_phi(c, r1, r2, boolean=True))
        return True

    # ---- loops
    def assigned_names(self, stmts):
        out = []
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                    out.append(n.id)
        return out

    def carried_names(self, stmts, targets=()):
        """Names assigned in the loop body whose first occurrence may be a read (loop carried)."""
        first = {}

        def visit(n):
            if isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    first.setdefault(n.target.id, "r")
                visit(n.value)
                if not isinstance(n.target, ast.Name):
                    visit(n.target)
                return
            if isinstance(n, ast.Assign):
                visit(n.value)
                for t in n.targets:
                    visit(t)
                return
            if isinstance(n, ast.If):
                visit(n.test)
                snap = dict(first)
                for s in n.body:
                    visit(s)
                f1 = dict(first)
                first.clear(); first.update(snap)
                for s in n.orelse:
                    visit(s)
                f2 = dict(first)
                first.clear(); first.update(snap)
                for k in set(f1) | set(f2):
                    if k in snap:
                        continue
                    if f1.get(k) == "w" and f2.get(k) == "w":
                        first[k] = "w"
                    elif "r" in (f1.get(k), f2.get(k)):
                        first[k] = "r"
                    # assigned on one branch only: undecided until later occurrence -> treat as carried
                    else:
                        first[k] = "c"
                return
            if isinstance(n, ast.For):
                visit(n.iter); visit(n.target)
                for s in n.body + n.orelse:
                    visit(s)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = set()
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            bound.add(x.id)
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in bound:
                        first.setdefault(x.id, "r")
                return
            if isinstance(n, ast.Name):
                first.setdefault(n.id, "w" if isinstance(n.ctx, (ast.Store, ast.Del)) else "r")
                return
            for c in ast.iter_child_nodes(n):
                visit(c)

        for t in targets:
            visit(t)
        for s in stmts:
            visit(s)
        asg = set(self.assigned_names(stmts))
        return [k for k in asg if first.get(k) in ("r", "c")]

    def active_count(self, base):
        # loops over a container that can still change say which state of it they run over
        gen = 0
        if base.op == "obj":
            gen = GEN * (1 + len(self.heap.get((base, "[]"), [])))
        return gen + sum(1 for it in self.ctx if it[0] == "for" and it[1] is base)

    def literal_items(self, t):
        """Items of a literal sequence (no conditional/loop insertions) or None."""
        if t.op in ("tuple", "list"):
            return list(t.a)
        if t.op == "const" and isinstance(t.a[0], (tuple, list)):
            return [const(x) for x in t.a[0]]
        if t in self.arity and tuple(self.ctx)[:len(self.arity[t][1])] == self.arity[t][1]:
            # unpacked before, on the way here
            return [self.idx(t, const(i), None) for i in range(self.arity[t][0])]
        k = self.okind(t)
        if k in ("list", "set"):
            lg = self.heap.get((t, "[]"), [])
            base = self.objinfo[t]["ctx"]
            out = []
            for e in lg:
                if e.ctx[len(base):] and e.ctx != self.ctx[:len(e.ctx)]:
                    return None
                if any(i[0] in ("for", "while") for i in e.ctx[len(base):]):
                    return None
                if e.kind in ("append", "add"):
                    out.append(e.val)
                elif e.kind in ("extend", "update"):
                    sub = self.literal_items(e.val)
                    if sub is None:
                        return None
                    out.extend(sub)
                elif e.kind == "set" and is_const(e.key) and isinstance(e.key.a[0], int) and -len(out) <= e.key.a[0] < len(out):
                    out[e.key.a[0]] = e.val
                elif e.kind == "insert" and is_const(e.key):
                    out.insert(e.key.a[0], e.val)
                elif e.kind == "remove" and e.val in out:
                    out.remove(e.val)
                else:
                    return None
            self.note((t, "[]"))
            if k == "set":
                u = []
                for x in out:
                    if x not in u:
                        u.append(x)
                return u
            return out
        return None

    def literal_dict(self, t, note=True):
        if self.okind(t) == "dict":
            lg = self.heap.get((t, "[]"), [])
            base = self.objinfo[t]["ctx"]
            out = []
            for e in lg:
                if e.ctx[len(base):] and e.ctx != self.ctx[:len(e.ctx)]:
                    return None
                if any(i[0] in ("for", "while") for i in e.ctx[len(base):]):
                    return None
                if e.kind == "set":
                    out = [(k, v) for k, v in out if k is not e.key] + [(e.key, e.val)]
                elif e.kind == "update":
                    sub = self.literal_dict(e.val)
                    if sub is None:
                        return None
                    for k, v in sub:
                        out = [(a, b) for a, b in out if a is not k] + [(k, v)]
                elif e.kind == "del":
                    out = [(a, b) for a, b in out if a is not e.key]
                else:
                    return None
            if note:
                self.note((t, "[]"))
            return out
        return None

    def iter_literal(self, it):
        """If iteration over `it` is over a known finite literal: list of element terms."""
        c = it
        if c.op == "call" and c.a[0].op == "ext":
            n = c.a[0].a[0]
            args = c.a[1]
            if n in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.set") and len(args) == 1:
                return self.iter_literal(args[0])
            if n == "builtins.sorted" and len(args) == 1 and not c.a[2]:
                sub = self.iter_literal(args[0])
                if sub is None or not all(is_const(x) for x in sub):
                    return None
                try:
                    return sorted(sub, key=lambda x: x.a[0])
                except TypeError:
                    return None
            if n == "builtins.reversed" and len(args) == 1:
                sub = self.iter_literal(args[0])
                return sub[::-1] if sub is not None else None
            if n == "builtins.enumerate" and args:
                sub = self.iter_literal(args[0])
                st = cval(args[1], 0) if len(args) > 1 else cval(dict(c.a[2]).get("start", const(0)), 0)
                if sub is not None and isinstance(st, int):
                    return [mk("tuple", const(i + st), x) for i, x in enumerate(sub)]
                return None
            if n == "builtins.zip" and args:
                subs = [self.iter_literal(x) for x in args]
                if all(s is not None for s in subs):
                    return [mk("tuple", *xs) for xs in zip(*subs)]
                return None
            if n == "builtins.range" and args and all(isinstance(cval(x), int) for x in args):
                r = range(*[cval(x) for x in args])
                if len(r) <= MAXUNROLL:
                    return [const(i) for i in r]
                return None
            if n in ("itertools.product",) and args and not c.a[2]:
                import itertools
                subs = [self.iter_literal(x) for x in args]
                if all(s is not None for s in subs):
                    r = [mk("tuple", *xs) for xs in itertools.product(*subs)]
                    return r if len(r) <= MAXUNROLL else None
        if c.op == "dictview":
            d = self.literal_dict(c.a[1])
            if d is None:
                return None
            if c.a[0] == "keys":
                return [k for k, v in d]
            if c.a[0] == "values":
                return [v for k, v in d]
            return [mk("tuple", k, v) for k, v in d]
        d = self.literal_dict(it)
        if d is not None:
            return [k for k, v in d]
        return self.literal_items(it)

    def guarded_items(self, it):
        """[(guard, element)] for a local container filled by insertions that are
        conditional but not in loops; None when that is not what it is."""
        c = it
        view = "keys"
        while True:
            if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(c.a[1]) == 1 and view == "keys":
                c = c.a[1][0]
            elif c.op == "dictview" and c is it:
                view, c = c.a[0], c.a[1]
            else:
                break
        kind = self.okind(c)
        if kind not in ("list", "set", "dict"):
            return None
        self.note((c, "[]"))
        base = self.objinfo[c]["ctx"]
        out = []
        for e in self.heap.get((c, "[]"), []):
            rel = [i for i in e.ctx[len(base):] if i not in self.ctx]
            if any(i[0] != "if" for i in rel):
                return None
            g = c_and([i[1] for i in rel])
            if kind == "dict" and e.kind == "set" and is_const(e.key):
                out.append((g, e.key, e.val))
            elif kind != "dict" and e.kind in ("append", "add"):
                out.append((g, e.val, None))
            elif kind == "list" and e.kind == "extend":
                sub = self.literal_items(e.val)
                if sub is None or any(x.op == "star" for x in sub):
                    return None
                out += [(g, x, None) for x in sub]
            else:
                return None
        if not out or len(out) > MAXUNROLL or any(x[1].op == "star" for x in out):
            return None
        if kind != "list" and (len({x[1] for x in out}) < len(out) or not all(is_const(x[1]) for x in out)):
            return None
        if kind == "dict":
            return [(g, k if view == "keys" else v if view == "values" else mk("tuple", k, v)) for g, k, v in out]
        return [(g, k) for g, k, v in out]

    def bind_iter(self, it):
        """Symbolic binding of one generic element.  Pushes loop ctx items; returns element term."""
        if it.op == "call" and it.a[0].op == "ext":
            n, args = it.a[0].a[0], it.a[1]
            if n in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.set", "builtins.frozenset", "tqdm.tqdm") and args:
                return self.bind_iter(args[0])
            if n == "builtins.enumerate" and args:
                base = self.iter_base(args[0])
                k = self.active_count(base)
                e = self.bind_iter(args[0])
                st = args[1] if len(args) > 1 else dict(it.a[2]).get("start")
                p = mk("pos", base, k)
                if st is not None and not is_const(st, 0):
                    p = mk_bin("+", p, st)
                return mk("tuple", p, e)
            if n == "builtins.zip" and args:
                return self.bind_zip(it, args)
            if n == "itertools.product" and args and not it.a[2] and not any(x.op == "star" for x in args):
                return mk("tuple", *[self.bind_iter(x) for x in args])
            if n == "builtins.range" and len(args) == 1:
                b = self.len_base(args[0])
                if b is not None:
                    k = self.active_count(b)
                    self.ctx = self.ctx + (("for", b, k),)
                    return mk("pos", b, k)
            if n == "builtins.range" and (len(args) == 2 or len(args) == 3 and is_const(args[2], 1)) and not it.a[2] and is_const(args[0]) and type(args[0].a[0]) is int:
                lo, rng = args[0], mk("call", it.a[0], (mk_bin("-", args[1], args[0]),), ())
                return mk_bin("+", self.bind_iter(rng), lo)
        sl = self.part(it)
        if sl is not None:
            x, lo, b = sl
            k = self.active_count(b)
            self.ctx = self.ctx + (("for", b, k),)
            return self.idx(x, mk_bin("+", mk("pos", b, k), const(lo)), None)
        if it.op == "dictview":
            d = it.a[1]
            key = self.bind_iter(d)
            if it.a[0] == "keys":
                return key
            v = self.idx(d, key, None)
            return v if it.a[0] == "values" else mk("tuple", key, v)
        if it.op == "objmap":
            pass
        # composition with a container built by loops in this analysis
        kd = self.okind(it)
        if kd in ("list", "set", "dict"):
            self.note((it, "[]"))
            lg = self.heap.get((it, "[]"), [])
            base = self.objinfo[it]["ctx"]
            if len(lg) == 1 and lg[0].kind in ("append", "add", "set") and (kd == "dict") == (lg[0].kind == "set"):
                e = lg[0]
                # re-push the loops / guards of that insertion
                for x in e.ctx[len(base):]:
                    self.ctx = self.ctx + (x,)
                return e.key if kd == "dict" else e.val
            if len(lg) == 1 and lg[0].kind in ("extend", "update") and not lg[0].ctx[len(base):]:
                return self.bind_iter(lg[0].val)
        cls, _ = self.cls_of(it)
        if cls is not None:
            f = self.p.find_method(cls, "__iter__")
            if f is not None and f.qual not in self.opaque and not f.is_generator:
                r = self._exec_func(f, self._bind(f, [it], [], None))
                if r.op == "call" and r.a[0].op == "ext" and r.a[0].a[0] in ("builtins.iter",) and r.a[1]:
                    return self.bind_iter(r.a[1][0])
                if r is not it and r.op in ("attr", "obj", "dictview"):
                    return self.bind_iter(r)
        k = self.active_count(it)
        self.ctx = self.ctx + (("for", it, k),)
        return mk("elem", it, k)

    def bind_zip(self, it, args):
        """zip(A, B): one loop over A; the element of B is the one at the same position."""
        base = self.ctx
        els, first = [], None
        bs = [self.iter_base(x) for x in args]
        for i, b in enumerate(bs):
            if i and b.op == "idx" and b.a[1].op == "slice" and b.a[0] is bs[0] and b.a[1].a[0] is NONE:
                # the shorter of a sequence and its own front part bounds the loop
                args = [args[i]] + [x for j, x in enumerate(args) if j != i]
                t = self.bind_zip(it, args)
                return mk("tuple", *(list(t.a[1:i + 1]) + [t.a[0]] + list(t.a[i + 1:])))
        for i, x in enumerate(args):
            e = self.bind_iter(x)
            new = self.ctx[len(base):] if i == 0 else self.ctx[len(base) + 1:]
            if len(new) != 1 or new[0][0] != "for" or x.op == "star":
                # filtered or nested: only the pairing itself is known
                self.ctx = base
                k = self.active_count(it)
                self.ctx = base + (("for", it, k),)
                z = mk("elem", it, k)
                return mk("tuple", *[self.idx(z, const(j), None) for j in range(len(args))])
            if i == 0:
                first = new[0]
            else:
                self.ctx = base + (first,)
                b, k, b2, k2 = first[1], first[2], new[0][1], new[0][2]
                if b2 is b:
                    m = {mk("elem", b2, k2): mk("elem", b, k), mk("pos", b2, k2): mk("pos", b, k)}
                else:
                    p = mk("pos", b, k)
                    m = {mk("elem", b2, k2): self.nth(b2, p), mk("pos", b2, k2): p}
                e = subst(e, {a: c for a, c in m.items() if a is not c})
            els.append(e)
        return mk("tuple", *els)

    def nth(self, b, p):
        ty = self.typeof(b)
        if self.okind(b) == "dict" or ty is not None and ty[0] == "gen" and ty[1] == "dict":
            b = mk("call", mk("ext", "builtins.list"), (b,), ())
        return self.idx(b, p, None)

    def part(self, it):
        """X[lo:-hi] with literal bounds, lo > 0: (X, lo, X[:-lo-hi]), the canonical sequence of that length"""
        if it.op != "idx" or it.a[1].op != "slice" or self.okind(it.a[0]) or is_const(it.a[0]):
            return None
        lo, hi, st = it.a[1].a
        if not (st is NONE or is_const(st, 1)):
            return None
        lo = 0 if lo is NONE else lo.a[0] if is_const(lo) else None
        hi = 0 if hi is NONE else hi.a[0] if is_const(hi) else None
        if type(lo) is not int or type(hi) is not int or lo <= 0 or hi > 0:
            return None
        return it.a[0], lo, mk("idx", it.a[0], mk("slice", NONE, const(hi - lo), NONE))

    def iter_base(self, it):
        sl = self.part(it)
        if sl is not None:
            return sl[2]
        if it.op == "call" and it.a[0].op == "ext" and it.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.set") and it.a[1]:
            return self.iter_base(it.a[1][0])
        if it.op == "dictview":
            return self.iter_base(it.a[1])
        cls, _ = self.cls_of(it)
        if cls is not None:
            f = self.p.find_method(cls, "__iter__")
            if f is not None and f.qual not in self.opaque and not f.is_generator:
                r = self._exec_func(f, self._bind(f, [it], [], None))
                if r.op == "call" and r.a[0].op == "ext" and r.a[0].a[0] == "builtins.iter" and r.a[1]:
                    return self.iter_base(r.a[1][0])
        return it

    def len_base(self, n):
        """n == len(X) (or X.shape[0], X.size) -> X"""
        if n.op == "len":
            return self.iter_base(n.a[0])
        if n.op == "idx" and is_const(n.a[1], 0) and n.a[0].op == "attr" and n.a[0].a[1] == "shape":
            return n.a[0].a[0]
        if n.op == "attr" and n.a[1] == "size":
            return n.a[0]
        if n.op == "bin" and n.a[0] == "-" and is_const(n.a[2]) and type(n.a[2].a[0]) is int and n.a[2].a[0] > 0:
            b = self.len_base(n.a[1]) if n.a[1].op in ("len", "idx", "attr") else None
            if b is not None and b.op in ("sym", "attr", "call", "elem", "idx") and not self.okind(b) and not (b.op == "idx" and b.a[1].op == "slice"):
                return mk("idx", b, mk("slice", NONE, const(-n.a[2].a[0]), NONE))
        return None

    def ndloops(self, g, body=None):
        """for a, b in np.ndindex(X.shape) / itertools.product(A, B): as nested loops -> [(target, iterable ast)] or None."""
        it, t = g.iter, g.target
        if not (isinstance(it, ast.Call) and isinstance(t, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in t.elts)):
            return None
        d = dotted(it.func)
        if d is None or d.split(".")[-1] not in ("ndindex", "product"):
            return None
        f = self.ev(it.func)
        if f.op != "ext" or f.a[0] not in ("numpy.ndindex", "itertools.product"):
            return None
        if body is not None and any(own_break(s) for s in body):
            return None
        n = len(t.elts)
        if f.a[0] == "numpy.ndindex":
            rng = lambda e: ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[e], keywords=[])
            if it.keywords:
                return None
            if len(it.args) == n and not any(isinstance(x, ast.Starred) for x in it.args):
                r = [rng(x) for x in it.args]
            elif len(it.args) == 1:
                x = it.args[0].value if isinstance(it.args[0], ast.Starred) else it.args[0]
                r = [rng(ast.Subscript(value=x, slice=ast.Constant(value=i), ctx=ast.Load())) for i in range(n)]
            else:
                return None
        else:
            rep = {k.arg: k.value for k in it.keywords}
            if set(rep) - {"repeat"} or any(isinstance(x, ast.Starred) for x in it.args):
                return None
            k = rep["repeat"].value if "repeat" in rep and isinstance(rep["repeat"], ast.Constant) else 1 if not rep else None
            if k is None or len(it.args) * k != n:
                return None
            r = list(it.args) * k
        return [(a, ast.fix_missing_locations(ast.copy_location(b, it))) for a, b in zip(t.elts, r)]

    def s_For(self, st):
        nd = self.ndloops(st, st.body) if not st.orelse else None
        if nd:
            body = st.body
            for t, x in reversed(nd):
                body = [ast.copy_location(ast.For(target=t, iter=x, body=body, orelse=[], type_comment=None), st)]
            return self.s_For(body[0])
        it = self.ev(st.iter)
        if it.op == "noreturn":
            return False
        lit = self.iter_literal(it)
        if lit is not None and len(lit) <= MAXUNROLL:
            return self.unrolled(st, lit)
        gl = self.guarded_items(it) if lit is None else None
        if gl is not None:
            return self.unrolled(st, gl, True)
        base = self.ctx
        e = self.bind_iter(it)
        loopitems = self.ctx[len(base):]
        key = mk("loopkey", *[x[1] for x in loopitems if isinstance(x[1], T)])
        self._loop_body(st, base, key, lambda: self.assign(st.target, e, st), (st.target,))
        return True

    s_AsyncFor = s_For

    def _loop_body(self, st, base, key, bind, targets, cond=None):
        """One generic iteration.  Fields and containers that an iteration reads and writes are carried from one to the next:
        found out by a first attempt, then treated as such."""
        fr = self.fr
        snap, env, here = self.snapshot(), dict(fr.env), self.ctx
        rets, lvars = len(fr.returns), ()
        for attempt in range(4):
            born = T._next[0] + 1
            T._next[0] += 1
            self.watch.append((born, set()))
            try:
                more = self._loop_once(st, base, key, bind, targets, cond, lvars, born, attempt == 3)
            finally:
                self.watch.pop()
            if not more:
                return
            lvars = lvars + more
            self.rollback(snap)
            self.ctx = here
            fr.env = dict(env)
            del fr.returns[rets:]

    def carried_state(self, jr0, ob0, lvars, seen, items, born, key):
        out = []
        fors = [x for x in items if x[0] == "for"]
        keys = {k for k, c in seen}
        old = {k[:2] for k in lvars}
        for k in self.journal[jr0:]:
            if k in keys and k[:2] not in [x[:2] for x in out] and k not in old:
                # what belongs to the element at hand is another thing in every iteration
                if any(t.op in ("elem", "pos") and any(t.a[0] is x[1] and t.a[1] == x[2] for x in fors) for t in walk(k[0])):
                    continue
                i = self.objinfo.get(root_of(k[0]))
                if i is None or i["num"] <= ob0:
                    if k[1] == "[]":
                        # one cell, named by the same key throughout, is carried like a variable
                        cell = {c for x, c in seen if x == k} | {e.key if e.kind == "set" else None for e in self.heap[k] if e.born > born}
                        if len(cell) == 1 and None not in cell:
                            c = cell.pop()
                            if not any(t.op == "carry" and t.a[0] is key or t.op in ("elem", "pos") and any(t.a[0] is x[1] and t.a[1] == x[2] for x in fors) for t in walk(c)):
                                k = k + (c,)
                    out.append(k)
        return tuple(out)

    def _loop_once(self, st, base, key, bind, targets, cond, lvars, born, final=False):
        fr = self.fr
        pre = dict(fr.env)
        body = st.body if cond is None else [ast.Expr(st.test)] + st.body
        carried = [n for n in self.carried_names(body, targets) if n in pre]
        assigned = set(self.assigned_names(st.body))
        for t in targets:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    assigned.add(n.id)
        cr = {}
        for n in carried:
            # containers are logged, not carried
            if self.okind(pre[n]) in ("list", "dict", "set"):
                continue
            cr[n] = mk("carry", key, const(n), pre[n])
            ty = self.typeof(pre[n])
            if ty is not None:
                self.types[cr[n]] = ty
            fr.env[n] = cr[n]
        ev0, rets0 = len(self.events), len(fr.returns)
        jr0, ob0 = len(self.journal), self.nobj
        for i, k in enumerate(lvars):
            if k[1:] == ("[]",):
                self.log(k, "prev", None, None, st)
                continue
            n = "@%d" % i
            init = self.idx(k[0], k[2], st) if len(k) > 2 else self.heap_read(k)
            pre[n] = init if init is not None else simp.mk_attr(k[0], k[1])
            cr[n] = mk("carry", key, const(n), pre[n])
            ty = self.typeof(pre[n])
            if ty is not None:
                self.types[cr[n]] = ty
            self.log(k[:2], "set", k[2] if len(k) > 2 else None, cr[n], st)
            assigned.add(n)
        if cond is not None:
            c = cond()
            self.ctx = self.ctx + (("while", c, 0),)
        start_ctx = self.ctx
        bind()
        fr.loopstack.append([])
        alive = self.block(st.body)
        brk = fr.loopstack.pop()
        L = len(start_ctx)
        more = self.carried_state(jr0, ob0, lvars, self.watch[-1][1], start_ctx[len(base):], born, key)
        if more and not final:
            return more
        if more:
            self.open_loops = True      # what these carry is not tracked

        def cnd(cx):
            return c_and([i[1] for i in cx[L:] if i[0] == "if"])
        conts = [(cnd(c), e) for k, c, e in brk if k == "continue"]
        brks = [(cnd(c), e) for k, c, e in brk if k == "break"]
        end = fr.env if alive else (conts[-1][1] if conts else None)
        for c, e in (conts if alive else conts[:-1]):
            end = self.merge(c, e, end)
        self.ctx = base
        bcond = c_or([c for c, _ in brks]) if brks else FALSE
        rconds = [c_and([i[1] for i in r[0][L:] if i[0] == "if"]) if not any(i[0] in ("for", "while") for i in r[0][L:]) else self._ctx_cond(r[0][L:]) for r in fr.returns[rets0:]]
        if lvars:
            self.ctx = start_ctx
            for i, k in enumerate(lvars):
                if k[1:] != ("[]",):
                    v = self.idx(k[0], k[2], st) if len(k) > 2 else self.heap_read(k)
                    if end is not None:
                        end = dict(end)
                        end["@%d" % i] = v
                    brks = [(c, dict(e, **{"@%d" % i: v})) for c, e in brks]
                    for r in fr.returns[rets0:]:
                        if r.env is not None:
                            r.env["@%d" % i] = v
            self.ctx = base
            for k in lvars:
                cell, k = len(k) > 2, k[:2]
                gone = [e for e in self.heap[k] if e.born > born and (k[1] != "[]" or cell or e.kind == "prev")]
                self.heap[k] = [e for e in self.heap[k] if e not in gone]
                n = 0
                for j in range(len(self.journal) - 1, jr0 - 1, -1):
                    if self.journal[j] == k and n < len(gone):
                        del self.journal[j]
                        n += 1
        if brks or rconds:
            self.stopped(start_ctx, len(base), bcond, c_or([bcond] + rconds), ev0, rets0, jr0, ob0)
        benv, xenv = None, None
        exits = [(e[SEQ], c, e, True) for c, e in brks] + [(r.env[SEQ], c, r.env, False) for c, r in zip(rconds, fr.returns[rets0:]) if getattr(r, "env", None) is not None]
        for s_, c, e, isbrk in sorted(exits, key=lambda x: x[0]):
            e = {k: v for k, v in e.items() if k != SEQ}
            xenv = dict(e) if xenv is None else self.merge(c, e, xenv)
            if isbrk:
                benv = dict(e) if benv is None else self.merge(c, e, benv)
        items = start_ctx[len(base):]
        env = dict(pre)
        names = set(end or ()) | set(benv or ())
        upd = {}        # carried name -> (update, value at break)
        for n, c in cr.items():
            upd[c] = ((end or {}).get(n, c), (xenv or {}).get(n, c))
        self.loopsys = getattr(self, "loopsys", {})
        sysm = {"cr": cr, "upd": upd, "items": items, "bcond": c_or([bcond] + rconds) if rconds else bcond, "pre": pre}
        for n, c in cr.items():
            self.loopsys[c] = (sysm, n)
        for n in names:
            v = (end or {}).get(n)
            bv = (benv or {}).get(n) if brks else None
            if n not in assigned:
                if n not in env:
                    env[n] = v if v is not None else bv
                continue
            init = pre.get(n)
            if n in cr:
                c = cr[n]
                if (v is c or v is init or end is None) and (bv is None or bv is c or bv is init):
                    env[n] = init
                    continue
                if end is None and not any(x[0] == "while" for x in items):
                    # every iteration leaves the loop: at most one iteration
                    env[n] = mk("first", self.ctx_term(items), init, subst(bv, {c: init}))
                    continue
                if brks and (v is c or v is init) and not any(contains_(y, x) for x in cr.values() for y in (bv, bcond)) and all(
                        x[0] in ("for", "if") for x in items):
                    env[n] = self.firstof(items, bcond, bv, init)
                    continue
                if brks and (v is c or v is init) and not any(contains_(bv, x) for x in cr.values()):
                    env[n] = mk("lastb", self.ctx_term(items), self.fixclose(sysm, bcond), init, bv, init)
                    continue
                f = self.fold(c, init, v, items) if not brks and v is not None else None
                env[n] = f if f is not None else self.fixpoint(sysm, n)
            else:
                if (v is init or v is None) and (bv is None or bv is init):
                    continue
                if brks and init is not None and (v is None or v is init) and bv is not None and not any(
                        contains_(y, x) for x in cr.values() for y in (bv, bcond)) and all(x[0] in ("for", "if") for x in items):
                    env[n] = self.firstof(items, bcond, bv, init)
                elif brks:
                    env[n] = self.fixclose(sysm, mk("lastb", self.ctx_term(items), bcond, v if v is not None else init if init is not None else mk("undef"),
                                                    bv if bv is not None else NONE, init if init is not None else mk("undef")))
                else:
                    env[n] = self.fixclose(sysm, mk("last", self.ctx_term(items), v))
        for i, k in enumerate(lvars):
            if k[1:] != ("[]",):
                v = env.pop("@%d" % i)
                if v is not pre["@%d" % i]:
                    self.log(k[:2], "set", k[2] if len(k) > 2 else None, v, st)
        fr.env = env
        # what follows the loop runs only when no iteration returned or raised
        if cond is None:
            self.not_left(base, [e.ctx for e in self.events[ev0:] if e.kind == "raise"] + [r[0] for r in fr.returns[rets0:]])
        if getattr(st, "orelse", None):
            if bcond is not FALSE:
                self.push_if(c_not(simp.mk_exists(tuple(mk("loop", i[1], i[2]) if i[0] == "for" else mk("loopw", i[1]) for i in items if i[0] in ("for", "while")), bcond)))
            self.block(st.orelse)
            self.ctx = base

    @staticmethod
    def firstof(items, c, val, default):
        """the value in the first iteration for which c holds"""
        c = c_and([x[1] for x in items if x[0] == "if"] + [c])
        return mk_phi(simp.mk_exists(tuple(mk("loop", i[1], i[2]) for i in items if i[0] == "for"), c), val, default)

    def stopped(self, start, nb, bcond, stop, ev0, rets0, jr0, ob0):
        """What a loop that can be left early does, it does for the iterations no earlier
        one of which left it: record that in the context of everything done there."""
        L = len(start)
        m, anchors = {}, []
        fors = [x for x in start[nb:] if x[0] == "for"]

        def prior(c):
            sub = {}
            for t in walk(c):
                if t.op in ("elem", "pos") and any(t.a[0] is x[1] and t.a[1] == x[2] for x in fors):
                    sub[t] = mk(t.op, t.a[0], t.a[1] + 100)
            return mk("noprior", mk("tuple", *[mk("elem", x[1], x[2]) for x in fors]), subst(c, sub))
        full, brk = prior(stop), prior(bcond) if bcond is not FALSE else None

        def fix(cx, n):
            if n is None or cx[:L] != start:
                return cx
            return cx[:L] + (("if", n),) + cx[L:]
        for e in self.events[ev0:]:
            e.ctx = fix(e.ctx, brk if e.kind == "return" else full)
        done = set()
        for k in self.journal[jr0:]:
            if k in done:
                continue
            done.add(k)
            n = self.journal[jr0:].count(k)
            for e in self.heap[k][-n:]:
                e.ctx = fix(e.ctx, full)
        for t, i in self.objinfo.items():
            if i["num"] > ob0:
                i["ctx"] = fix(i["ctx"], full)
        for i in range(rets0, len(self.fr.returns)):
            r = self.fr.returns[i]
            self.fr.returns[i] = r2 = Ret((fix(r[0], brk),) + tuple(r[1:]))
            r2.env = getattr(r, "env", None)

    def not_left(self, base, ctxs):
        for cx in ctxs:
            cx = cx[len(base):]
            if cx and all(it[0] in ("if", "for") for it in cx):
                g = c_not(self._ctx_cond(cx))
                if not mentions(g, lambda t: t.op in ("carry", "exc")) and g is not FALSE:
                    self.push_if(g)

    def fixclose(self, sysm, t):
        """Replace the loop-carried variables in t by their closed recursive definitions."""
        cr = [c for c in sysm["cr"].values() if contains_(t, c)]
        if not cr:
            return t
        return subst(t, {c: mk("iter", self.fixpoint(sysm, self.loopsys[c][1])) for c in cr})

    def fixpoint(self, sysm, name):
        """Canonical closed form of one variable of the recursion a loop defines: independent of variable names and positions."""
        cr, upd = sysm["cr"], sysm["upd"]
        rev = {c: n for n, c in cr.items()}
        order = []

        def visit(t):
            stack = [t]
            seen = set()
            out = []
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    stack.extend(reversed(x))
                    continue
                if not isinstance(x, T) or x.uid in seen:
                    continue
                seen.add(x.uid)
                if x in rev:
                    out.append(x)
                    continue
                stack.extend(reversed(x.a))
            for c in out:
                add(c)

        def add(c):
            if c in order:
                return
            order.append(c)
            visit(upd[c][0])
            if sysm["bcond"] is not FALSE:
                visit(upd[c][1])
        add(cr[name])
        it = self.ctx_term(sysm["items"])
        visit(it)
        if sysm["bcond"] is not FALSE:
            visit(sysm["bcond"])
        h = 1
        for t in [it, sysm["bcond"]] + [u for c in order for u in upd[c]]:
            for x in walk(t):
                if x.op == "fix":
                    h = max(h, x.a[0] + 1)
        m = {c: mk("mu", h, i) for i, c in enumerate(order)}
        body = tuple(mk("upd", c.a[2], subst(upd[c][0], m), subst(upd[c][1], m) if sysm["bcond"] is not FALSE else NONE) for c in order)
        return mk("fix", h, subst(it, m), subst(sysm["bcond"], m), body)

    def fold(self, cr, init, v, loopitems):
        if any(x[0] == "while" for x in loopitems):
            return None
        extra = ()
        while v.op == "phi":
            # total unchanged on one branch
            if v.a[2] is cr:
                extra += (("if", v.a[0]),)
                v = v.a[1]
            elif v.a[1] is cr:
                extra += (("if", c_not(v.a[0])),)
                v = v.a[2]
            else:
                return None
        if any(contains_(x[1], cr) for x in extra):
            return None
        if v.op == "bin" and v.a[0] in ("+", "*", "|", "&"):
            op = v.a[0]
            a, b = v.a[1], v.a[2]
            for x, y in ((a, b), (b, a)):
                if x is cr and not contains_(y, cr):
                    return mk("fold", op, init, self.ctx_term(tuple(loopitems) + extra), y)
        return None

    def ctx_term(self, items):
        out = []
        for x in items:
            if x[0] == "for":
                out.append(mk("for", x[1], x[2]))
            elif x[0] == "if":
                out.append(mk("when", x[1]))
            elif x[0] == "while":
                out.append(mk("while", x[1]))
        return mk("ctx", *out)

    def unrolled(self, st, lit, guarded=False):
        fr = self.fr
        base = self.ctx
        ev0, rets0 = len(self.events), len(fr.returns)
        brks = []
        jumped = ended = False
        for x in lit:
            before = self.ctx
            fr.loopstack.append([])
            if guarded:
                g, x = x
                iff = ast.copy_location(ast.If(test=_Value(g), body=[ast.copy_location(ast.Assign(targets=[st.target], value=_Value(x)), st)] + st.body, orelse=[]), st)
                alive = self.block([iff])
            else:
                self.assign(st.target, x, st)
                alive = self.block(st.body)
            L = len(before)

            def cnd(cx, L=L):
                return c_and([i[1] for i in cx[L:] if i[0] == "if"])
            brk = fr.loopstack.pop()
            conts = [(cnd(c), e) for k, c, e in brk if k == "continue"]
            brks += [(c_and([i[1] for i in c[len(base):] if i[0] == "if"]), {n: v for n, v in e.items() if n != SEQ}) for k, c, e in brk if k == "break"]
            jumped = jumped or bool(brk)
            if not alive and not conts:
                ended = True
                break
            if conts:
                on = c_or([cnd(self.ctx)] * bool(alive) + [c for c, _ in conts])
                end = fr.env if alive else conts[-1][1]
                for c, e in (conts if alive else conts[:-1]):
                    end = self.merge(c, e, end)
                fr.env = dict(end)
                self.ctx = before
                left = [e.ctx for e in self.events[ev0:] if e.kind == "raise"] + [r[0] for r in fr.returns[rets0:]] + [c for k, c, e in brk if k == "break"]
                if left and on is not TRUE:
                    self.push_if(on)
        if ended and not brks:
            return False
        oelse = True
        if st.orelse and not ended:
            if brks:
                self.push_if(c_not(c_or([c for c, _ in brks])))
            oelse = self.block(st.orelse)
            if not oelse and not brks:
                return False
        if not brks and not jumped:
            return True
        # the ways of leaving the loop come together again
        env = None if ended or not oelse else fr.env
        for c, e in reversed(brks):
            env = dict(e) if env is None else self.merge(c, e, env)
        fr.env = env
        self.ctx = base
        if not oelse:
            self.push_if(c_or([c for c, _ in brks]))
        self.not_left(base, [e.ctx for e in self.events[ev0:] if e.kind == "raise"] + [r[0] for r in fr.returns[rets0:]])
        return True

    def s_While(self, st):
        base = self.ctx
        self.nwhile = getattr(self, "nwhile", 0) + 1
        key = mk("loopkey", mk("while", const(self.nwhile)))
        self._loop_body(st, base, key, lambda: None, (), cond=lambda: self.cond(st.test))
        return True

    def s_Break(self, st):
        if self.fr.loopstack:
            env = dict(self.fr.env)
            env[SEQ] = self.tick()
            self.fr.loopstack[-1].append(("break", self.ctx, env))
        return False

    def s_Continue(self, st):
        if self.fr.loopstack:
            self.fr.loopstack[-1].append(("continue", self.ctx, dict(self.fr.env)))
        return False

    # ---- with
    def s_With(self, st):
        return self._with(st.items, st.body, st)

    s_AsyncWith = s_With

    def _with(self, items, body, st):
        if not items:
            return self.block(body)
        it, rest = items[0], items[1:]
        e = it.context_expr
        # repo @contextmanager helper: inline around the body
        if isinstance(e, ast.Call):
            cal = self.ev(e.func)
            f = None
            pre = []
            if cal.op == "func":
                f = self.p.funcs.get(cal.a[0])
            elif cal.op == "bound":
                f = self.p.funcs.get(cal.a[0])
                pre = [cal.a[1]]
            elif cal.op == "closure":
                f = self.closures[cal][0]
            if f is not None and f.is_ctxmgr and len(self.stack) < self.maxdepth and f.qual not in self.opaque:
                args, kw = self.ev_args(e)
                self.emit("enter", f.qual, pre + args, kw, e)
                env = self._bind(f, pre + args, kw, e)
                outer = self.fr
                res = {}

                def cb(v):
                    inner = self.fr
                    sf = self.stack.pop()
                    self.fr = outer
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, st)
                    res["alive"] = self._with(rest, body, st)
                    self.fr = inner
                    self.stack.append(sf)

                self._exec_func(f, env, yield_cb=cb)
                self.fr = outer
                return res.get("alive", True)
        v = self.ev(e)
        self.emit("with_enter", None, (v,), (), st, value=v)
        base = self.ctx
        self.ctx = self.ctx + (("with", v),)
        n = len(self.ctx)
        bound = v
        cls, _ = self.cls_of(v)
        if cls is not None:
            en = self.p.find_method(cls, "__enter__")
            if en is not None and en.qual not in self.opaque and len(self.stack) < self.maxdepth:
                bound = self._exec_func(en, self._bind(en, [v], [], e))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, bound, st)
        w = self.writer(v)
        if w:
            self.ctx = self.ctx + (("tryfin", st),)
            n += 1
        alive = self._with(rest, body, st)
        r = self.residual(n)
        self.ctx = base
        if w:
            # what was written is there for others from here on
            self.ctx = base + (("finally", st),)
            self.emit("call", mk("attr", v, "close"), (), (), st, value=mk("call", mk("attr", v, "close"), (), ()), recv=v).discarded = True
            self.ctx = base
        if cls is not None:
            ex = self.p.find_method(cls, "__exit__")
            if ex is not None and ex.qual not in self.opaque and len(self.stack) < self.maxdepth:
                self._exec_func(ex, self._bind(ex, [v, NONE, NONE, NONE], [], e))
        self.emit("with_exit", None, (v,), (), st, value=v)
        if r is not TRUE:
            self.push_if(r)
        return alive

    @staticmethod
    def writer(v):
        """A file (or the like) opened for writing."""
        if v.op != "call" or v.a[0].op != "ext":
            return False
        q = v.a[0].a[0]
        if q == "pandas.ExcelWriter":
            return True
        if q not in ("builtins.open", "h5py.File", "pandas.HDFStore", "zipfile.ZipFile", "tarfile.open"):
            return False
        m = simp.ckw(v.a[2], "mode") or (v.a[1][1] if len(v.a[1]) > 1 else None)
        return m is not None and (not is_const(m) or not isinstance(m.a[0], str) or any(c in m.a[0] for c in "wax+"))

    # ---- try
    def s_Try(self, st):
        fr = self.fr
        base = self.ctx
        env0 = dict(fr.env)
        exc = None
        if st.handlers:
            snap = self.snapshot()
            rs = list(fr.returns)
            ot, oc = self.idx_trace, self.call_trace
            self.idx_trace, self.call_trace = [], []
            ls = [list(x) for x in fr.loopstack]
            try:
                self.block(st.body)
            finally:
                it, ct = self.idx_trace, [x for x in self.call_trace if not (x.op == "call" and _quiet(x.a[0]))]
                self.idx_trace, self.call_trace = ot, oc
            self.rollback(snap)
            fr.returns = rs
            fr.env = dict(env0)
            fr.loopstack = ls
        # handler conditions
        conds = []
        for h in st.handlers:
            types = self.handler_types(h)
            c = None
            if types and set(types) <= {"KeyError"} and it and (len(set(it)) == 1 or all(k.op == "const" and isinstance(k.a[0], str) for d, k in it)) and all(
                    x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in (
                        "decode", "encode", "strip", "lower", "upper", "split", "replace", "startswith", "endswith", "total_seconds") for x in ct):
                c = simp.c_or([c_not(self.contains_cond(k, d)) for d, k in dict.fromkeys(it)])
            if c is None and types and "AttributeError" in types and ct:
                # m.group(...) fails exactly when the match m is None
                ms = {x.a[0].a[0] for x in ct if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("group", "groups", "groupdict", "start", "end", "span")}
                ms |= {d for d, k in it if simp.rematch(d)}
                if len(ms) == 1:
                    m_, = ms
                    ok = all(x is m_ or (x.op == "call" and ((x.a[0].op == "attr" and chain_root(x) is m_) or x in set(walk(m_)) or (
                        x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.int", "builtins.float", "builtins.str")))) for x in ct)
                    if ok and simp.rematch(m_):
                        c = mk_cmp("is", m_, NONE)
            if c is None:
                c = mk("exc", const(tuple(sorted(types)) if types else ("*",)), tuple(sorted(set(tuple(ct) + tuple(mk("idx", d, k) for d, k in it)), key=lambda z: z.uid)))
            conds.append(c)
        if st.finalbody:
            self.ctx = base + (("tryfin", st),)
        body_base = self.ctx
        if conds:
            self.ctx = self.ctx + (("try", st, tuple(sorted(set(sum([self.handler_types(h) or ["*"] for h in st.handlers], []))))),)
            for c in conds:
                self.push_if(c_not(c))
        nb = len(self.ctx)
        alive = self.block(st.body)
        if alive and st.orelse:
            alive = self.block(st.orelse)
        envb, rb = fr.env, self.residual(nb)
        results = []
        if alive:
            results.append((None, envb, rb))
        for h, c in zip(st.handlers, conds):
            fr.env = dict(env0)
            if h.name:
                fr.env[h.name] = mk("excval", const(tuple(self.handler_types(h) or ["*"])))
            self.ctx = body_base + (("handler", h),)
            self.push_if(c)
            n = len(self.ctx)
            al = self.block(h.body)
            if al:
                results.append((c, fr.env, self.residual(n)))
        self.ctx = base
        if not results:
            if st.finalbody:
                self.ctx = base + (("finally", st),)
                self.block(st.finalbody)
                self.ctx = base
            return False
        if len(results) == 1:
            c, env, r = results[0]
            fr.env = env
            if c is None:
                for cc in conds:
                    self.push_if(c_not(cc))
            else:
                self.push_if(c)
            self.push_if(r)
        else:
            env = results[0][1] if results[0][0] is None else None
            for c, e, r in results[1:] if results[0][0] is None else results:
                env = e if env is None else self.merge(c, e, env)
            fr.env = env
        if st.finalbody:
            keep = self.ctx
            self.ctx = base + (("finally", st),)
            al = self.block(st.finalbody)
            self.ctx = keep
            if not al:
                return False
        return True

    def handler_types(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [(dotted(x) or "?").split(".")[-1] for x in ts]

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expr " + type(e).__name__, e)
        return m(e)

    def cond(self, e):
        return simp.truth(self.ev(e), self)

    def e__Value(self, e):
        return e.term

    def e_Constant(self, e):
        return const(e.value) if not isinstance(e.value, (bytes, complex)) and e.value is not Ellipsis else mk("const", repr(e.value))

    def e_Name(self, e):
        n = e.id
        fr = self.fr
        while fr is not None:
            if n in fr.env:
                return fr.env[n]
            fr = fr.parent
        if n in bound_names(self.fr.func.node):
            # read before any assignment on this path
            self.emit("raise", mk("ext", "builtins.UnboundLocalError"), (), (), e)
            return mk("undef", n)
        return self.global_name(self.fr.func.module, n)

    def global_name(self, m, n):
        r = self.p.resolve_symbol(m, n)
        if r is None:
            return mk("ext", "builtins." + n)
        return self.sym_to_term(r)

    def sym_to_term(self, r):
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "class":
            return mk("class", r[1].qual)
        if r[0] == "mod":
            return mk("mod", r[1].name)
        if r[0] == "var":
            m, n, ex = r[1]
            key = (m.name, n)
            if key not in self.modconst:
                self.modconst[key] = mk("global", ast.unparse(ex))
                if isinstance(ex, (ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Set, ast.Name, ast.Attribute, ast.JoinedStr, ast.BinOp, ast.DictComp, ast.ListComp, ast.SetComp)) or (isinstance(ex, ast.Call) and dotted(ex.func) in ("set", "frozenset", "dict", "list", "tuple", "logging.getLogger", "re.compile", "Path")) or (isinstance(ex, ast.Subscript) and dotted(ex.value) == "sys.modules"):
                    self.modconst[key] = self.ev_in_module(m, ex)
            return self.modconst[key]
        return mk("ext", simp.canon_ext(r[1]))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Attribute(self, e):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            return self.super_attr(e.value, e.attr, e)
        o = self.ev(e.value)
        if o.op in ("sym", "attr", "elem", "idx", "call") and not any(i[0] == "try" for i in self.ctx) and not e.attr.startswith("__"):
            self.deref.setdefault(o, []).append(self.ctx)
        return self.attr(o, e.attr, e)

    def super_attr(self, call, name, node):
        fr = self.fr
        while fr is not None and fr.cls is None:
            fr = fr.parent
        if fr is None:
            return self.unk("super", node)
        selft = fr.selfterm
        dyn = None
        if selft is not None and selft.op == "class":
            dyn = self.p.classes.get(selft.a[0])
        elif selft is not None:
            dyn = self.cls_of(selft)[0]
        mro = self.p.mro(dyn) if dyn is not None else self.p.mro(fr.cls)
        if fr.cls in mro:
            mro = mro[mro.index(fr.cls) + 1:]
        else:
            mro = self.p.mro(fr.cls)[1:]
        for k in mro:
            if name in k.methods:
                f = k.methods[name]
                if f.is_property:
                    return self.call_func(f, [selft], [], node)
                return mk("bound", f.qual, selft)
        ext = self.p.ext_bases(fr.cls)
        return mk("attr", mk("super", const(fr.cls.qual), selft if selft is not None else NONE), name)

    def attr(self, o, name, node):
        op = o.op
        if op == "ext":
            return mk("ext", simp.canon_ext(o.a[0] + "." + name))
        if op == "mod":
            m = self.p.modules[o.a[0]]
            r = self.p.resolve_symbol(m, name)
            if r is None:
                r = self.p.resolve_qual(m.name + "." + name)
            return self.sym_to_term(r)
        if op == "class":
            c = self.p.classes.get(o.a[0])
            if c is not None:
                f = self.p.find_method(c, name)
                if f is not None:
                    if f.is_classmethod:
                        return mk("bound", f.qual, o)
                    return mk("func", f.qual)
                cv = self.p.find_class_var(c, name)
                if cv is not None:
                    return self.ev_in_module(cv[0].module, cv[1])
            return mk("attr", o, name)
        if op == "phi" and o.a[0].op != "exc":
            return mk_phi(o.a[0], self.attr(o.a[1], name, node), self.attr(o.a[2], name, node))
        v = self.heap_read((o, name))
        if v is not None:
            return v
        if (o, "[]") in self.heap and op != "obj" and any(e.kind in ("cmd", "prev") for e in self.heap[(o, "[]")]):
            o = self.seen(o)
            op = o.op
        elif self.watch and op not in ("obj", "const", "class", "mod", "ext"):
            self.note((o, "[]"))
        if name == "size" and simp.one_d(o):
            return self.builtin("len", [o], [], node)
        if name in ("shape", "size") and op == "obj":
            d = self.dims(o)
            if isinstance(d, T):
                return self.attr(d, name, node)
            if d is not None and name == "shape":
                return mk("tuple", *d)
            if d is not None and len(d) == 1:
                return d[0]
        cls, exact = self.cls_of(o)
        if cls is not None:
            f = self.p.find_method(cls, name)
            if f is not None:
                over = [] if exact else [s for s in self.p.subclasses.get(cls.qual, ()) if name in self.p.classes[s].methods]
                if f.is_property:
                    if over or f.is_abstract or f.qual in self.opaque or self.no_inline(f) or len(self.stack) >= self.maxdepth:
                        t = mk("attr", o, name)
                        if f.qual not in self.p.phantoms:
                            ss = self.seen_state(f, {f.params()[0]: o}) if f.params() else []
                            if ss:
                                t2 = mk("call", mk("func", f.qual), (), tuple(sorted([(f.params()[0], o)] + ss, key=lambda kv: kv[0])))
                                ty = self.typeof(t)
                                if ty is not None:
                                    self.types[t2] = ty
                                t = t2
                        return t
                    self.emit("enter", f.qual, (o,), (), node)
                    r = self._exec_func(f, self._bind(f, [o], [], node))
                    if self.typeof(r) is None and r.op in ("attr", "idx", "call", "elem"):
                        ty = self.p.annot_type(f.module, f.node.returns)
                        if ty is not None and ty[0] != "ext":
                            self.types[r] = ty
                    return r
                if f.is_static:
                    return mk("func", f.qual)
                if f.is_classmethod:
                    return mk("bound", f.qual, mk("class", cls.qual))
                if over:
                    return mk("virt", f.qual, o)
                return mk("bound", f.qual, o)
            if o.op == "obj" or not any(name in k.inst_attrs for k in self.p.mro(cls)):
                cv = self.p.find_class_var(cls, name)
                if cv is not None:
                    return self.ev_in_module(cv[0].module, cv[1])
        if op == "const" and isinstance(o.a[0], str):
            return mk("attr", o, name)
        t = simp.mk_attr(o, name)
        return t

    def dims(self, o):
        """Dimensions of a freshly allocated array: tuple of terms, or the term of an array of the same shape, or None."""
        i = self.objinfo.get(o)
        t = i["init"] if i and i["kind"] == "ext" else None
        if t is None or t.op != "call" or t.a[0].op != "ext":
            return None
        n = t.a[0].a[0]
        if n in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like"):
            x = t.a[1][0] if t.a[1] else simp.ckw(t.a[2], "a")
            return x if x is not None and x.op != "obj" else None
        if n not in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
            return None
        s = t.a[1][0] if t.a[1] else simp.ckw(t.a[2], "shape")
        if s is None:
            return None
        if s.op == "attr" and s.a[1] == "shape":
            return s.a[0]
        if s.op in ("tuple", "list") and not any(x.op == "star" for x in s.a):
            return s.a
        if self.scalar_int(s):
            return (s,)
        return None

    def scalar_int(self, s):
        if is_const(s):
            return type(s.a[0]) is int
        if s.op == "len" or (s.op == "attr" and s.a[1] in ("size", "ndim")):
            return True
        if s.op == "idx" and s.a[0].op == "attr" and s.a[0].a[1] == "shape" and is_const(s.a[1]):
            return True
        if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] == "builtins.int":
            return True
        return s.op == "bin" and s.a[0] in ("+", "-", "*", "//") and self.scalar_int(s.a[1]) and self.scalar_int(s.a[2])

    def heap_read(self, key):
        lg = self.heap.get(key)
        if not lg:
            self.note(key)
            return None
        cur = self.ctx
        val = None
        pend = []
        for e in reversed(lg):
            rel = self.relative(e.ctx, cur)
            if rel is False:
                continue
            if rel is TRUE:
                val = e.val
                self.note(key, e)
                break
            pend.append((rel, e.val))
        else:
            self.note(key)
        if val is None:
            o, name = key
            if not pend:
                return None
            if o.op == "obj":
                val = mk("undef", name)
            else:
                val = mk("attr", o, name)
        for rel, v in reversed(pend):
            val = mk_phi(rel, v, val)
        return val

    def note(self, key, e=None, k=None):
        """The value of `key` was read (and is what e left there): does an enclosing loop's earlier iteration decide it?"""
        for w in self.watch:
            if e is None or e.born < w[0]:
                w[1].add((key, k))

    def cur(self, t):
        """A container that is not ours, as a value: what was written to it so far is part of it."""
        if t.op == "obj" or not isinstance(t, T):
            return t
        lg = self.heap.get((t, "[]"))
        if not lg:
            return t
        out = []
        b = t
        for e in lg:
            if e.kind == "prev":
                # within a loop that goes on changing it: what the iterations so far left there
                b, out = mk("now", t), []
                continue
            if self.relative(e.ctx, self.ctx) is False:
                continue
            n = 0
            while n < len(e.ctx) and n < len(self.ctx) and e.ctx[n] == self.ctx[n]:
                n += 1
            out.append(mk("ent", self.ctx_term(e.ctx[n:]), mk("k", e.kind, e.key) if e.key is not None else mk("kind", e.kind), e.val if e.val is not None else NONE))
        v = mk("mutated", b, mk("dictc", *out)) if out else b
        ty = self.typeof(t)
        if ty is not None:
            self.types[v] = ty
        return v

    def seen(self, t):
        """t as an operand: a container that was written to is read as it is now."""
        if not isinstance(t, T) or t.op in ("obj", "const", "class", "mod", "func"):
            return t
        if self.watch:
            self.note((t, "[]"))
        if (t, "[]") in self.heap:
            return self.cur(t)
        return t

    def relative(self, ectx, cur):
        """Condition (given current ctx) under which an effect logged in ectx has happened.
        TRUE / False(impossible) / term."""
        n = 0
        m = min(len(ectx), len(cur))
        while n < m and ectx[n] is cur[n] or n < m and ectx[n] == cur[n]:
            n += 1
        conds = []
        for it in ectx[n:]:
            if it[0] == "if":
                d = self.assumed(it[1])
                if d is True:
                    continue
                if d is False:
                    return False
                conds.append(it[1])
        # inside a loop that is over: assume it ran (conditions mentioning its element become 'some')
        loops = [it for it in ectx[n:] if it[0] == "for"]
        if loops and conds:
            els = set(mk("elem", it[1], it[2]) for it in loops)
            poss = set(mk("pos", it[1], it[2]) for it in loops)
            conds = [c for c in conds]
        return c_and(conds)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev(e.slice)
        if o.op == "ext" and o.a[0] == "sys.modules" and k.op == "ext" and k.a[0] == "builtins.__name__":
            return mk("mod", getattr(self.fr.func.module, "home", None) or self.fr.func.module.name)
        return self.idx(o, k, e)

    def e_Slice(self, e):
        f = lambda x: self.ev(x) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def idx(self, o, k, node):
        if self.idx_trace is not None:
            safe = k.op == "tuple" and not k.a or k.op == "slice" or k.op == "const" and k.a[0] is Ellipsis
            if not safe and k.op == "const":
                h = self.contains_cond(k, o)
                safe = any(i[0] == "if" and i[1] is h for i in self.ctx)
            if not safe:
                self.idx_trace.append((o, k))
        if o.op == "phi" and o.a[0].op != "exc":
            return mk_phi(o.a[0], self.idx(o.a[1], k, node), self.idx(o.a[2], k, node))
        if self.okind(o) == "dict" and not is_const(k) and (k.op not in ("elem", "pos") or k.op == "elem" and k.a[0] is not o and self.assumed(self.contains_cond(k, o)) is True):
            d = self.literal_dict(o, False)
            if d and all(is_const(x) for x, _ in d) and len(d) <= 8:
                self.note((o, "[]"))
                m = self.contains_cond(k, o)
                if self.assumed(m) is not True:
                    oc = self.ctx
                    self.push_if(c_not(m))
                    self.emit("raise", mk("ext", "builtins.KeyError"), (), (), node or self.stack[-1].node)
                    self.ctx = oc
                r = d[-1][1]
                for x, v in reversed(d[:-1]):
                    r = mk_phi(mk_cmp("==", k, x), v, r)
                return r
        if k.op == "phi" and self.okind(o) == "dict":
            return mk_phi(k.a[0], self.idx(o, k.a[1], node), self.idx(o, k.a[2], node))
        lit = self.literal_items(o) if (o.op in ("tuple", "list") or self.okind(o) == "list") else None
        if lit is not None and is_const(k) and isinstance(k.a[0], int) and -len(lit) <= k.a[0] < len(lit):
            return lit[k.a[0]]
        if lit is not None and k.op == "slice" and all(is_const(x) for x in k.a):
            sl = slice(*[x.a[0] for x in k.a])
            return mk("tuple", *lit[sl]) if o.op == "tuple" else mk("list", *lit[sl])
        if is_const(o) and isinstance(o.a[0], str) and is_const(k) and isinstance(k.a[0], int):
            try:
                return const(o.a[0][k.a[0]])
            except IndexError:
                pass
        kd = self.okind(o)
        if kd is not None and kd != "inst":
            v = self.container_get(o, k, node)
            if v is not None:
                return v
        elif (o, "[]") in self.heap and self.heap[(o, "[]")]:
            v = self.container_get(o, k, node)
            if v is not None:
                return v
        elif self.watch and not (k.op == "elem" and k.a[0] is o):
            self.note((o, "[]"), None, k)
        cls, exact = self.cls_of(o)
        if cls is not None:
            f = self.p.find_method(cls, "__getitem__")
            if f is not None:
                over = [] if exact else [s for s in self.p.subclasses.get(cls.qual, ()) if "__getitem__" in self.p.classes[s].methods]
                if not over and f.qual not in self.opaque and len(self.stack) < self.maxdepth and not self.no_inline(f):
                    self.emit("enter", f.qual, (o, k), (), node)
                    return self._exec_func(f, self._bind(f, [o, k], [], node))
        if k.op == "pos":
            if k.a[0] is o:
                return mk("elem", o, k.a[1])
            if k.a[0].op == "idx" and k.a[0].a[0] is o and k.a[0].a[1].op == "slice" and k.a[0].a[1].a[0] is NONE and k.a[0].a[1].a[2] is NONE:
                return mk("elem", k.a[0], k.a[1])
        return simp.mk_idx(o, k)

    def container_get(self, o, k, node):
        if k.op == "elem" and k.a[0] is o:
            return simp.mk_idx(o, k)
        lg = self.heap.get((o, "[]"), [])
        val = None
        pend = []
        for e in reversed(lg):
            if e.kind != "prev" and self.relative(e.ctx, self.ctx) is False:
                continue
            if e.kind in ("set",):
                if e.key is k:
                    rel = self.relative(e.ctx, self.ctx)
                    if rel is False:
                        continue
                    # entry keyed by a loop element, read with the same element: same iteration
                    if rel is TRUE or self.loop_local(e, k):
                        val = e.val
                        self.note((o, "[]"), e, k)
                        break
                    pend.append((rel, e.val))
                    continue
                if is_const(e.key) and is_const(k):
                    continue
                if e.key.op == "tuple" and k.op == "tuple" and self.distinct(e.key, k):
                    continue
                # built by a loop `d[g(x)] = f(x)`; read with another key
                loops = [x for x in e.ctx if x[0] == "for"]
                if loops and e.key.op == "elem" and not pend and e.ctx[:len(self.ctx)] != self.ctx or (loops and e.key.op == "elem" and e.key is not k and not pend):
                    # beta: key ranges over the loop's domain
                    if len([x for x in lg if x.kind == "set"]) == 1 or True:
                        v = subst(e.val, {e.key: k}) if not mentions(e.val, lambda t: t.op == "obj") else None
                        if v is not None:
                            val = self.renorm(v)
                            self.note((o, "[]"), e, k)
                            break
                self.note((o, "[]"), None, k)
                return simp.mk_idx(self.cur(o), k)
            elif e.kind in ("update", "extend", "del", "insert", "remove", "pop"):
                if e.kind == "update" and e.val is not None:
                    d = self.literal_dict(e.val)
                    if d is not None:
                        hit = [v for kk, v in d if kk is k]
                        if hit:
                            val = hit[0]
                            break
                        if is_const(k) and all(is_const(kk) for kk, _ in d):
                            continue
                self.note((o, "[]"), None, k)
                return simp.mk_idx(self.cur(o), k)
            elif e.kind in ("prev", "cmd"):
                if e.kind == "prev" and pend:
                    break
                self.note((o, "[]"), None, k)
                return simp.mk_idx(self.cur(o), k)
            elif e.kind in ("append", "add"):
                if len(lg) == 1:
                    loops = [x for x in e.ctx[len(self.objinfo[o]["ctx"]):] if x[0] == "for"] if o in self.objinfo else []
                    if len(loops) == 1 and k.op == "pos" and k.a[0] is loops[0][1]:
                        src = loops[0]
                        return subst(e.val, {mk("elem", src[1], src[2]): mk("elem", src[1], k.a[1])})
                self.note((o, "[]"), None, k)
                return simp.mk_idx(self.cur(o), k)
        else:
            self.note((o, "[]"), None, k)
        if val is None and not pend:
            info = self.objinfo.get(o)
            if info is not None and info["kind"] == "dict" and info.get("init") is None:
                if all(is_const(e.key) for e in lg if e.kind == "set") and is_const(k):
                    return None
            if info is not None and info.get("init") is not None and not lg:
                return simp.mk_idx(o, k)
            return None
        if val is None:
            val = simp.mk_idx(o, k)
        for rel, v in reversed(pend):
            val = mk_phi(rel, v, val)
        return val

    def distinct(self, a, b):
        if len(a.a) != len(b.a):
            return True
        for x, y in zip(a.a, b.a):
            if is_const(x) and is_const(y) and x is not y:
                return True
        return any(x is not y for x, y in zip(a.a, b.a)) and all(is_const(z) or z.op in ("idx", "call", "attr", "sym", "bound") for z in a.a + b.a)

    def loop_local(self, e, k):
        return k.op in ("elem", "tuple") and mentions(k, lambda t: t.op == "elem")

    def renorm(self, t):
        """Re-canonicalise after substitution (idx over literals etc.)."""
        def f(x):
            if x.op == "idx":
                lit = self.literal_items(x.a[0]) if x.a[0].op in ("tuple", "list") else None
                if lit is not None and is_const(x.a[1]) and isinstance(x.a[1].a[0], int) and -len(lit) <= x.a[1].a[0] < len(lit):
                    return lit[x.a[1].a[0]]
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.isin" and False:
                return None
            return None
        return rewrite(t, f)

    def contains_cond(self, k, d):
        """`k in d` as condition."""
        if d.op == "dictview" and d.a[0] == "keys":
            d = d.a[1]
        if d.op == "call" and d.a[0].op == "ext" and d.a[0].a[0] in ("builtins.list", "builtins.set", "builtins.tuple", "builtins.sorted") and len(d.a[1]) == 1:
            d = d.a[1][0]
        lit = self.iter_literal(d) if self.okind(d) or d.op in ("tuple", "list") else None
        if lit is not None and is_const(k) and all(is_const(x) for x in lit):
            return TRUE if k in lit else FALSE
        if lit is not None and k in lit:
            return TRUE
        if lit is not None and (all(is_const(x) for x in lit) or not any(x.op == "star" for x in lit)) and len(lit) <= 6:
            return c_or([mk_cmp("==", k, x) for x in lit])
        gl = self.guarded_items(d) if is_const(k) and lit is None else None
        if gl is not None and all(is_const(x) for g, x in gl):
            return c_or([g for g, x in gl if x is k])
        cls, exact = self.cls_of(d)
        if cls is not None:
            f = self.p.find_method(cls, "__contains__")
            if f is not None and f.qual not in self.opaque and len(self.stack) < self.maxdepth:
                return simp.truth(self._exec_func(f, self._bind(f, [d, k], [], None)), self)
        return mk("cmp", "in", k, self.seen(d))

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = simp.seq_of(self.ev(x.value))
                lit = self.iter_literal(v)
                if lit is None:
                    out.append(mk("star", v))
                else:
                    out.extend(lit)
            else:
                out.append(self.ev(x))
        return mk("tuple", *out)

    def e_List(self, e):
        o = self.alloc("list")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.log((o, "[]"), "extend", None, simp.seq_of(self.ev(x.value)), e)
            else:
                self.log((o, "[]"), "append", None, self.ev(x), e)
        return o

    def e_Set(self, e):
        o = self.alloc("set")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.log((o, "[]"), "update", None, simp.seq_of(self.ev(x.value)), e)
            else:
                self.log((o, "[]"), "add", None, self.ev(x), e)
        return o

    def e_Dict(self, e):
        o = self.alloc("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.log((o, "[]"), "update", None, self.ev(v), e)
            else:
                kk = self.ev(k)
                self.log((o, "[]"), "set", kk, self.ev(v), e)
        return o

    def _comp(self, e, kind):
        o = self.alloc(kind)
        fr = self.fr
        env0 = fr.env
        fr.env = dict(env0)
        base = self.ctx
        gens = []
        for g in e.generators:
            nd = self.ndloops(g)
            if nd:
                gens += [ast.comprehension(target=t, iter=x, ifs=[], is_async=0) for t, x in nd]
                gens[-1].ifs = g.ifs
            else:
                gens.append(g)

        def rec(i):
            if i == len(gens):
                if kind == "dict":
                    k = self.ev(e.key)
                    self.log((o, "[]"), "set", k, self.ev(e.value), e)
                else:
                    self.log((o, "[]"), "append" if kind == "list" else "add", None, self.ev(e.elt), e)
                return
            g = gens[i]
            it = self.ev(g.iter)
            lit = self.iter_literal(it)
            if lit is not None and len(lit) <= MAXUNROLL:
                for x in lit:
                    c0 = self.ctx
                    self.assign(g.target, x, e)
                    if self._comp_ifs(g.ifs):
                        rec(i + 1)
                    self.ctx = c0
                return
            gl = self.guarded_items(it) if lit is None else None
            if gl is not None:
                for gd, x in gl:
                    c0 = self.ctx
                    d = self.assumed(gd)
                    if d is not False:
                        if d is None:
                            self.push_if(gd)
                        self.assign(g.target, x, e)
                        if self._comp_ifs(g.ifs):
                            rec(i + 1)
                    self.ctx = c0
                return
            c0 = self.ctx
            el = self.bind_iter(it)
            self.assign(g.target, el, e)
            if self._comp_ifs(g.ifs):
                rec(i + 1)
            self.ctx = c0

        ev0 = len(self.events)
        rec(0)
        self.ctx = base
        fr.env = env0
        self.not_left(base, [x.ctx for x in self.events[ev0:] if x.kind == "raise"])
        return o

    def _comp_ifs(self, ifs):
        for c in ifs:
            t = self.cond(c)
            d = self.assumed(t)
            if d is False:
                return False
            if d is None:
                self.push_if(t)
        return True

    def e_ListComp(self, e):
        return self._comp(e, "list")

    def e_GeneratorExp(self, e):
        return self._comp(e, "list")

    def e_SetComp(self, e):
        return self._comp(e, "set")

    def e_DictComp(self, e):
        return self._comp(e, "dict")

    def e_Starred(self, e):
        return mk("star", self.ev(e.value))

    def e_Yield(self, e):
        return self.do_yield(e)

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        if self.fr.yields is not None:
            self.log((self.fr.yields, "[]"), "extend", None, v, e)
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        f = Func(self.fr.func.qual + ".<lambda>", e, self.fr.func.module, None)
        f.name = "<lambda>"
        t = mk("closure", "%s#%d:%d" % (f.qual, e.lineno, e.col_offset))
        self.closures[t] = (f, self.fr)
        return t

    def e_IfExp(self, e):
        c = self.cond(e.test)
        d = self.assumed(c)
        if d is True:
            return self.ev(e.body)
        if d is False:
            return self.ev(e.orelse)
        base = self.ctx
        self.push_if(c)
        a = self.ev(e.body)
        self.ctx = base
        self.push_if(c_not(c))
        b = self.ev(e.orelse)
        self.ctx = base
        return mk_phi(c, a, b)

    def e_BoolOp(self, e):
        base = self.ctx
        vals = []
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x)
            vals.append(v)
            t = simp.truth(v, self)
            d = self.assumed(t)
            if d is not None and d != isand:
                break
            if d is None:
                self.push_if(t if isand else c_not(t))
        self.ctx = base
        if all(simp.is_bool(v) for v in vals):
            return (c_and if isand else c_or)([simp.truth(v, self) for v in vals])
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = simp.truth(v, self)
            r = mk_phi(t, r, v) if isand else mk_phi(t, v, r)
        return r

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return c_not(self.cond(e.operand))
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            if is_const(v) and isinstance(v.a[0], (int, float)):
                return const(-v.a[0])
            return mk("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e):
        op = simp.BINOPS.get(type(e.op), type(e.op).__name__)
        return self.bin(op, self.ev(e.left), self.ev(e.right), e)

    DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__", "**": "__pow__"}

    def bin(self, op, a, b, node):
        cls, exact = self.cls_of(a)
        if cls is not None and op in self.DUNDER:
            f = self.p.find_method(cls, self.DUNDER[op])
            if f is not None:
                return self.call_func(f, [a, b], [], node, recv=a)
        a, b = self.seen(a), self.seen(b)
        if op == "+":
            la = self.literal_items(a) if self.okind(a) == "list" or a.op in ("list", "tuple") else None
            lb = self.literal_items(b) if self.okind(b) == "list" or b.op in ("list", "tuple") else None
            if la is not None and lb is not None:
                if a.op == "tuple":
                    return mk("tuple", *(la + lb))
                o = self.alloc("list")
                for x in la + lb:
                    self.log((o, "[]"), "append", None, x, node)
                return o
            if self.okind(a) == "list" or self.okind(b) == "list":
                o = self.alloc("list")
                self.log((o, "[]"), "extend", None, a, node)
                self.log((o, "[]"), "extend", None, b, node)
                return o
        if op == "*" and (self.okind(a) == "list" or self.okind(b) == "list"):
            o = self.alloc("list")
            self.log((o, "[]"), "extend", None, mk_bin(op, a, b, self), node)
            return o
        return mk_bin(op, a, b, self)

    def e_Compare(self, e):
        left = self.ev(e.left)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            parts.append(self.compare(op, left, right, e))
            left = right
        return c_and(parts) if len(parts) > 1 else parts[0]

    def objects_in(self, d):
        """a dictionary declared to hold instances of a class of the package"""
        ty = self.typeof(d)
        return ty is not None and ty[0] == "gen" and ty[1] == "dict" and ty[2] and ty[2][-1] is not None and ty[2][-1][0] == "cls"

    def compare(self, op, a, b, node):
        n = type(op).__name__
        if n in ("In", "NotIn"):
            c = self.contains_cond(a, b)
            return c if n == "In" else c_not(c)
        if n not in ("Is", "IsNot"):
            a, b = self.seen(a), self.seen(b)
        if n in ("Eq", "NotEq"):
            cls, exact = self.cls_of(a)
            if cls is not None and not is_const(b):
                f = self.p.find_method(cls, "__eq__")
                if f is not None and f.qual in getattr(self, "inline_eq", ()):
                    r = self.call_func(f, [a, b], [], node)
                    r = simp.truth(r, self)
                    return r if n == "Eq" else c_not(r)
        if n in ("Is", "IsNot") and b is NONE and any(self.ctx[:len(c)] == c for c in self.deref.get(a, ())):
            # None has no attribute: the path went on after reading one
            return FALSE if n == "Is" else TRUE
        if n in ("Is", "IsNot") and b is NONE and a.op == "phi" and a.a[0].op == "cmp" and a.a[0].a[0] == "in" and a.a[1].op == "idx" and \
                a.a[2] is NONE and self.objects_in(a.a[1].a[0]):
            # d.get(k) of a dictionary of objects
            return a.a[0] if n == "IsNot" else c_not(a.a[0])
        r = mk_cmp({"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not"}[n], a, b)
        return mk("bool", r) if r.op == "obj" else r

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                if spec is not None and not is_const(spec, ""):
                    x = mk("fmt", x, spec)
                elif v.conversion == 114:
                    x = mk("call", mk("ext", "builtins.repr"), (x,), ())
                parts.append(x)
        if len(parts) == 1 and self.typeof(parts[0]) == ("ext", "str"):
            return parts[0]
        return mk_str(parts)

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def span(self, v, node):
        """x[i:i + 2], as positional arguments"""
        if v.op != "idx" or v.a[1].op != "slice" or v.a[1].a[2] is not NONE:
            return None
        a, b = v.a[1].a[:2]
        n = next((y.a[0] for x, y in (b.a[1:], b.a[:0:-1]) if x is a and is_const(y)), None) if b.op == "bin" and b.a[0] == "+" else None
        if type(n) is not int or not 1 <= n <= 4:
            return None
        return [self.idx(v.a[0], mk_bin("+", a, const(j)) if j else a, node) for j in range(n)]

    # ------------------------------------------------------------ calls
    def ev_args(self, e):
        args, kw = [], []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                lit = self.iter_literal(v)
                if lit is None:
                    lit = self.span(v, x)
                if lit is not None:
                    args.extend(lit)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(x))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.literal_dict(v)
                if d is not None and all(is_const(a) and isinstance(a.a[0], str) for a, b in d):
                    kw.extend((a.a[0], b) for a, b in d)
                elif v.op == "tuple" and not v.a:
                    pass
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return args, kw

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return mk("superobj")
        # mutation-aware receiver
        cal = self.ev(e.func)
        args, kw = self.ev_args(e)
        return self.call(cal, args, kw, e)

    def call(self, cal, args, kw, node):
        op = cal.op
        for i, (k, v) in enumerate(kw):
            if k == "**" and v.op == "phi" and v.a[0].op != "exc":
                # f(**(d1 if c else d2))  is  f(**d1) if c else f(**d2)
                base, out = self.ctx, []
                for g, w in ((v.a[0], v.a[1]), (c_not(v.a[0]), v.a[2])):
                    d = self.literal_dict(w)
                    ok = d is not None and all(is_const(a) and isinstance(a.a[0], str) for a, b in d)
                    self.push_if(g)
                    out.append(self.call(cal, list(args), kw[:i] + ([(a.a[0], b) for a, b in d] if ok else [("**", w)]) + kw[i + 1:], node))
                    self.ctx = base
                return mk_phi(v.a[0], *out)
        if any(a.op == "star" for a in args) and op in ("func", "bound", "class", "closure"):
            # unknown positional expansion: opaque unless it is a pure pass-through of *args
            exp = []
            ok = True
            for a in args:
                if a.op == "star":
                    ok = False
                exp.append(a)
            if not ok:
                if op == "bound":
                    args = [cal.a[1]] + args
                t = mk("call", mk("func", cal.a[0]) if op in ("func", "bound") else cal, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
                self.emit("enter", cal.a[0], args, kw, node)
                self.emit("call", t.a[0], args, kw, node, value=t)
                return t
        if op == "phi" and cal.a[0].op != "exc":
            base = self.ctx
            self.push_if(cal.a[0]); x = self.call(cal.a[1], args, kw, node); self.ctx = base
            self.push_if(c_not(cal.a[0])); y = self.call(cal.a[2], args, kw, node); self.ctx = base
            if x.op == y.op == "dictview" and x.a[0] == y.a[0]:
                return mk("dictview", x.a[0], mk_phi(cal.a[0], x.a[1], y.a[1]))
            return mk_phi(cal.a[0], x, y)
        if op == "func":
            f = self.p.funcs.get(cal.a[0])
            return self.call_func(f, args, kw, node)
        if op == "bound":
            f = self.p.funcs.get(cal.a[0])
            return self.call_func(f, [cal.a[1]] + args, kw, node, recv=cal.a[1])
        if op == "virt":
            f = self.p.funcs.get(cal.a[0])
            self.emit("enter", f.qual, [cal.a[1]] + args, kw, node, recv=cal.a[1])
            return self.opaque_call(f, [cal.a[1]] + args, kw, node)
        if op == "closure":
            f, fr = self.closures[cal]
            if len(self.stack) >= self.maxdepth or sum(1 for x in self.stack if x.qual == f.qual) >= 2:
                return self.generic_call(cal, args, kw, node)
            env = self._bind(f, args, kw, node)
            r = self._exec_func(f, env, parent=fr)
            return r
        if op == "class":
            return self.construct(self.p.classes[cal.a[0]], args, kw, node)
        if op == "partial":
            f = cal.a[0]
            return self.call(f, list(cal.a[1]) + args, list(cal.a[2]) + kw, node)
        if op == "ext":
            return self.ext_call(cal.a[0], args, kw, node)
        if op == "attr":
            return self.method_call(cal.a[0], cal.a[1], args, kw, node)
        if self.getter(cal) and len(args) == 1 and not kw and args[0].op != "star":
            out = []
            for k in cal.a[1]:
                if cal.a[0].a[0] == "operator.itemgetter":
                    out.append(self.idx(args[0], k, node))
                else:
                    x = args[0]
                    for nm in k.a[0].split("."):
                        x = self.attr(x, nm, node)
                    out.append(x)
            return out[0] if len(out) == 1 else mk("tuple", *out)
        return self.generic_call(cal, args, kw, node)

    def getter(self, t):
        return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("operator.itemgetter", "operator.attrgetter") and t.a[1] and not t.a[2] and all(
            is_const(k) and (t.a[0].a[0] == "operator.itemgetter" or isinstance(k.a[0], str)) for k in t.a[1])

    def generic_call(self, cal, args, kw, node):
        t = mk("call", cal, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
        self.emit("call", cal, args, kw, node, value=t)
        if self.call_trace is not None:
            self.call_trace.append(t)
        return t

    def construct(self, c, args, kw, node):
        self.emit("enter", c.qual, args, kw, node)
        if c.qual in self.opaque or len(self.stack) >= self.maxdepth:
            init = self.p.find_method(c, "__init__")
            names = init.params()[1:] if init is not None else []
            ck = [(names[i] if i < len(names) else "*%d" % i, v) for i, v in enumerate(args)] + list(kw)
            t = mk("call", mk("class", c.qual), (), tuple(sorted(ck, key=lambda x: x[0])))
            self.emit("call", t.a[0], (), t.a[2], node, value=t)
            o = self.alloc("ext", init=t)
            self.types[o] = ("cls", c)
            self.exact[o] = c
            self._tmemo.pop(o, None)
            return o
        o = self.alloc("inst", cls=c)
        self.objinfo[o]["args"] = (tuple(args), tuple(kw))
        init = self.p.find_method(c, "__init__")
        if init is not None:
            env = self._bind(init, [o] + list(args), kw, node)
            self._exec_func(init, env)
        else:
            if any(b.split(".")[-1] in ("dict", "OrderedDict") for b in self.p.ext_bases(c)):
                self.objinfo[o]["kind"] = "dict"
            # dataclass / plain: map fields
            fields = [a for k in reversed(self.p.mro(c)) for a in k.annots]
            for n, v in list(zip(fields, args)) + list(kw):
                self.log((o, n), "set", None, v, node)
        return o

    def ext_call(self, n, args, kw, node):
        if n not in BYREF:
            args = [self.seen(a) for a in args]
            kw = [(k, self.seen(v)) for k, v in kw]
        if n.startswith("builtins."):
            r = self.builtin(n[9:], args, kw, node)
            if r is not None:
                return r
        if n in OPFUNS and len(args) == 2 and not kw and not any(x.op == "star" for x in args):
            f = OPFUNS[n]
            if f == "idx":
                return self.idx(args[0], args[1], node)
            return self.bin(f, args[0], args[1], node) if isinstance(f, str) else self.compare(f, args[0], args[1], node)
        if n == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(kw))
        if n == "setattr" or n == "builtins.setattr":
            pass
        if n in ("sys.exit", "builtins.exit", "builtins.quit", "os._exit"):
            self.emit("call", mk("ext", n), args, kw, node)
            self.emit("raise", mk("ext", "builtins.SystemExit"), args, (), node)
            return mk("noreturn")
        t = mk_extcall(n, args, kw, self)
        if n == "numpy.array" and len(args) == 1 and t is args[0] and t.op == "attr" and self.typeof(t) == ("ext", "numpy.ndarray"):
            t = mk("copyof", t, "copy")
        self.emit("call", mk("ext", n), args, kw, node, value=t)
        if self.call_trace is not None:
            self.call_trace.append(t)
        if n in ALLOC:
            return self.alloc("ext", init=t)
        if n == "copy.deepcopy" or n == "copy.copy":
            cls, ex = self.cls_of(args[0]) if args else (None, False)
            if cls is not None:
                f = self.p.find_method(cls, "__deepcopy__" if n.endswith("deepcopy") else "__copy__")
                if f is not None and len(self.stack) < self.maxdepth and f.qual not in self.opaque:
                    return self._exec_func(f, self._bind(f, [args[0]] + ([NONE] if n.endswith("deepcopy") else []), [], node))
            if args:
                return mk("copyof", args[0], n.split(".")[-1])
        return t

    def builtin(self, n, args, kw, node):
        if n == "dict.fromkeys" and 1 <= len(args) <= 2 and not kw:
            lit = self.iter_literal(args[0])
            if lit is not None and all(is_const(x) for x in lit) and (len(args) < 2 or is_const(args[1])):
                d = self.alloc("dict")
                for k in lit:
                    self.log((d, "[]"), "set", k, args[1] if len(args) > 1 else NONE, node)
                return d
        if n == "len" and len(args) == 1:
            lit = self.iter_literal(args[0]) if args[0].op != "call" else None
            if lit is not None:
                return const(len(lit))
            x = args[0]
            d = self.dims(x) if x.op == "obj" else None
            if isinstance(d, T):
                return self.builtin("len", [d], [], node)
            if d:
                return d[0]
            cls, ex = self.cls_of(x)
            if cls is not None:
                f = self.p.find_method(cls, "__len__")
                if f is not None and f.qual not in self.opaque and len(self.stack) < self.maxdepth:
                    return self._exec_func(f, self._bind(f, [x], [], node))
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.list", "builtins.sorted", "builtins.tuple") and x.a[1]:
                x = x.a[1][0]
            if x.op == "dictview":
                x = x.a[1]
            return mk("len", x)
        if n == "isinstance" and len(args) == 2:
            o, c = args
            cls, exact = self.cls_of(o)
            cands = list(c.a) if c.op == "tuple" else [c]
            res = []
            for k in cands:
                r = None
                if k.op == "class":
                    kc = self.p.classes.get(k.a[0])
                    if exact and cls is not None:
                        r = kc in self.p.mro(cls)
                elif k.op == "ext":
                    nm = k.a[0].replace("builtins.", "")
                    r = simp.isinst_const(o, nm)
                    if r is not None:
                        pass
                    elif self.okind(o) in ("list", "dict", "set") and nm in ("list", "dict", "set", "str", "tuple", "int", "float"):
                        r = self.okind(o) == nm
                    elif exact and cls is not None:
                        r = any(b.split(".")[-1] == nm for b in self.p.ext_bases(cls)) or nm == "object"
                res.append(r)
            if any(r is True for r in res):
                return TRUE
            if all(r is False for r in res):
                return FALSE
            return c_or([simp.mk_isinst(o, k) for k, r in zip(cands, res) if r is not False])
        if n == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.attr(args[0], args[1].a[0], node)
        if n == "getattr" and len(args) == 2 and args[1].op == "phi" and all(is_const(x) and isinstance(x.a[0], str) for x in args[1].a[1:]):
            c, x, y = args[1].a
            return mk_phi(c, self.builtin(n, [args[0], x], kw, node), self.builtin(n, [args[0], y], kw, node))
        if n == "getattr" and len(args) == 2 and args[0].op == "mod" and args[1].op == "str":
            # a module attribute selected by name: one case per name of the module which fits the template
            holes = [x for x in args[1].a if not is_const(x)]
            if len(holes) == 1:
                i = args[1].a.index(holes[0])
                pre = "".join(str(x.a[0]) for x in args[1].a[:i])
                post = "".join(str(x.a[0]) for x in args[1].a[i + 1:])
                m = self.p.modules[args[0].a[0]]
                pm = m.name + "."
                names = [q[len(pm):] for q in list(self.p.classes) + list(self.p.funcs) if q.startswith(pm) and "." not in q[len(pm):]]
                mids = sorted(k[len(pre):len(k) - len(post)] for k in names
                              if k.startswith(pre) and k.endswith(post) and len(k) > len(pre) + len(post))
                v = mk("call", mk("ext", "builtins.getattr"), tuple(args), ())
                if len(mids) <= 16:
                    for k in mids:
                        v = mk_phi(mk_cmp("==", holes[0], const(k)), self.attr(args[0], pre + k + post, node), v)
                    return v
        if n == "hasattr" and len(args) == 2 and is_const(args[1]):
            cls, exact = self.cls_of(args[0])
            if cls is not None and (self.p.find_method(cls, args[1].a[0]) or any(args[1].a[0] in k.inst_attrs or args[1].a[0] in k.class_vars for k in self.p.mro(cls))):
                return TRUE
            return mk("hasattr", args[0], args[1])
        if n == "setattr" and len(args) == 3:
            if is_const(args[1]):
                self.setattr(args[0], args[1].a[0], args[2], node)
            else:
                self.emit("store", None, (args[0], args[2], args[1]), (), node, value=args[2], recv=args[0])
                self.log((args[0], "*"), "set", args[1], args[2], node)
            return NONE
        if n == "dict":
            o = self.alloc("dict")
            if args:
                a0 = args[0]
                lit = self.iter_literal(a0)
                if a0.op == "dictview" or self.literal_dict(a0) is not None or lit is None:
                    if a0.op == "call" and a0.a[0].op == "ext" and a0.a[0].a[0] in ("builtins.zip", "builtins.enumerate"):
                        oc = self.ctx
                        el = self.bind_iter(a0)
                        self.log((o, "[]"), "set", self.idx(el, const(0), node), self.idx(el, const(1), node), node)
                        self.ctx = oc
                        return o
                    self.log((o, "[]"), "update", None, a0.a[1] if a0.op == "dictview" else a0, node)
                    if self.okind(a0) == "list" and lit is None:
                        # dict([(k, v) for ...])
                        lg = self.heap.get((a0, "[]"), [])
                        if len(lg) == 1 and lg[0].kind == "append" and lg[0].val.op == "tuple" and len(lg[0].val.a) == 2:
                            self.heap[(o, "[]")].pop(); self.journal.pop()
                            oc = self.ctx
                            self.ctx = lg[0].ctx
                            self.log((o, "[]"), "set", lg[0].val.a[0], lg[0].val.a[1], node)
                            self.ctx = oc
                else:
                    for x in lit:
                        self.log((o, "[]"), "set", self.idx(x, const(0), node), self.idx(x, const(1), node), node)
            for k, v in kw:
                if k == "**":
                    self.log((o, "[]"), "update", None, v, node)
                else:
                    self.log((o, "[]"), "set", const(k), v, node)
            return o
        if n in ("list", "set") and not args:
            return self.alloc(n)
        if n == "tuple" and not args:
            return mk("tuple")
        if n == "list" and len(args) == 1:
            lit = self.iter_literal(args[0])
            if lit is not None:
                o = self.alloc("list")
                for x in lit:
                    self.log((o, "[]"), "append", None, x, node)
                return o
            if self.okind(args[0]) == "list":
                o = self.alloc("list")
                self.log((o, "[]"), "extend", None, args[0], node)
                return o
        if n == "tuple" and len(args) == 1:
            lit = self.iter_literal(args[0])
            if lit is not None:
                return mk("tuple", *lit)
        if n == "set" and len(args) == 1:
            lit = self.iter_literal(args[0])
            if lit is not None:
                o = self.alloc("set")
                for x in lit:
                    self.log((o, "[]"), "add", None, x, node)
                return o
            if self.okind(args[0]) in ("set", "list"):
                return args[0] if self.okind(args[0]) == "set" else mk("call", mk("ext", "builtins.set"), tuple(args), ())
        if n == "str" and len(args) == 1:
            a = args[0]
            if a.op in ("str",) or (is_const(a) and isinstance(a.a[0], str)):
                return a
            if is_const(a) and isinstance(a.a[0], (int, float, bool)):
                return const(str(a.a[0]))
            if self.typeof(a) == ("ext", "str"):
                return a
            cls, ex = self.cls_of(a)
            if cls is not None and ex:
                f = self.p.find_method(cls, "__str__") or self.p.find_method(cls, "__repr__")
                if f is not None and len(self.stack) < self.maxdepth and f.qual not in self.opaque:
                    return self._exec_func(f, self._bind(f, [a], [], node))
            return mk_str([a])
        if n == "bool" and len(args) == 1:
            return simp.mk_bool(args[0], self)
        if n in ("any", "all") and len(args) == 1:
            lit = self.iter_literal(args[0])
            if lit is not None:
                return (c_or if n == "any" else c_and)([simp.truth(x, self) for x in lit])
            if args[0].op == "obj" and self.okind(args[0]) in ("list", "set"):
                lg = self.heap.get((args[0], "[]"), [])
                base = len(self.objinfo[args[0]]["ctx"])
                if len(lg) > 1 and all(e.kind in ("append", "add") and not any(it[0] not in ("if", "for") for it in e.ctx[base:]) for e in lg):
                    out = []
                    for e in lg:
                        items = e.ctx[base:]
                        loops = tuple(mk("loop", it[1], it[2]) for it in items if it[0] == "for")
                        conds = [it[1] for it in items if it[0] == "if"]
                        v = simp.truth(e.val, self)
                        c = c_and(conds + [v if n == "any" else c_not(v)])
                        out.append(simp.mk_exists(loops, c) if loops else c)
                    return c_or(out) if n == "any" else c_not(c_or(out))
            if self.okind(args[0]) == "list":
                lg = self.heap.get((args[0], "[]"), [])
                base = len(self.objinfo[args[0]]["ctx"])
                if len(lg) == 1 and lg[0].kind == "append":
                    items = lg[0].ctx[base:]
                    loops = tuple(mk("loop", it[1], it[2]) for it in items if it[0] == "for")
                    conds = [it[1] for it in items if it[0] == "if"]
                    v = simp.truth(lg[0].val, self)
                    if n == "any":
                        return simp.mk_exists(loops, c_and(conds + [v]))
                    return c_not(simp.mk_exists(loops, c_and(conds + [c_not(v)])))
            t = mk("call", mk("ext", "builtins." + n), tuple(args), ())
            return t
        if n == "map" and len(args) >= 2:
            o = self.alloc("list")
            base = self.ctx
            els = [self.bind_iter(x) for x in args[1:]]
            v = self.call(args[0], els, [], node)
            self.log((o, "[]"), "append", None, v, node)
            self.ctx = base
            return o
        if n == "filter" and len(args) == 2:
            o = self.alloc("list")
            base = self.ctx
            el = self.bind_iter(args[1])
            c = simp.truth(el if is_const(args[0], None) else self.call(args[0], [el], [], node), self)
            self.push_if(c)
            self.log((o, "[]"), "append", None, el, node)
            self.ctx = base
            return o
        if n == "sum" and args:
            lit = self.iter_literal(args[0])
            if lit is not None and len(lit) > 0:
                r = args[1] if len(args) > 1 else const(0)
                for x in lit:
                    r = self.bin("+", r, x, node)
                return r
            if self.okind(args[0]) == "list":
                lg = self.heap.get((args[0], "[]"), [])
                base = len(self.objinfo[args[0]]["ctx"])
                if len(lg) == 1 and lg[0].kind == "append":
                    return mk("fold", "+", args[1] if len(args) > 1 else const(0), self.ctx_term(lg[0].ctx[base:]), lg[0].val)
        if n == "type" and len(args) == 1:
            cls, ex = self.cls_of(args[0])
            if ex:
                return mk("class", cls.qual)
            return mk("call", mk("ext", "builtins.type"), tuple(args), ())
        if n == "print":
            self.emit("call", mk("ext", "builtins.print"), args, kw, node)
            return NONE
        if n == "next" and args and self.okind(args[0]) == "list":
            lg = self.heap.get((args[0], "[]"), [])
            base = len(self.objinfo[args[0]]["ctx"])
            if len(lg) == 1 and len(args) > 1 and all(x[0] in ("for", "if") for x in lg[0].ctx[base:]) and any(x[0] == "for" for x in lg[0].ctx[base:]):
                return self.firstof(lg[0].ctx[base:], TRUE, lg[0].val, args[1])
            if len(lg) == 1:
                return mk("firstof", self.ctx_term(lg[0].ctx[base:]), lg[0].val, args[1] if len(args) > 1 else mk("undef", "next"))
        if n in ("float", "int") and len(args) == 1 and is_const(args[0]) and isinstance(args[0].a[0], (int, float)):
            return const(float(args[0].a[0]) if n == "float" else int(args[0].a[0]))
        if n == "abs" and len(args) == 1:
            return mk_extcall("numpy.abs", args, [], self)
        if n == "open":
            t = mk("call", mk("ext", "builtins.open"), tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
            self.emit("call", mk("ext", "builtins.open"), args, kw, node, value=t)
            return t
        return None

    def method_call(self, o, name, args, kw, node):
        # string methods
        if name == "format" and is_const(o) and isinstance(o.a[0], str):
            r = simp.fmt_template(o.a[0], args, kw)
            if r is not None:
                return r
        if name == "join" and is_const(o) and isinstance(o.a[0], str) and len(args) == 1:
            lit = self.iter_literal(args[0])
            if lit is not None:
                parts = []
                for i, x in enumerate(lit):
                    if i:
                        parts.append(o)
                    parts.append(x)
                return mk_str(parts)
        if is_const(o) and isinstance(o.a[0], str) and all(is_const(a) for a in args) and not kw and name in (
                "strip", "lower", "upper", "replace", "split", "startswith", "endswith", "lstrip", "rstrip", "title", "capitalize"):
            try:
                v = getattr(o.a[0], name)(*[a.a[0] for a in args])
                if isinstance(v, list):
                    return mk("list", *[const(x) for x in v])
                return const(v)
            except Exception:
                pass
        kd = self.okind(o)
        ty = self.typeof(o)
        if kd in ("list", "dict", "set") or (o, "[]") in self.heap:
            r = self.container_call(o, kd, name, args, kw, node)
            if r is not None:
                return r
        if name in ("keys", "values", "items") and not args:
            if o.op == "attr" and o.a[0].op == "super":
                o = o.a[0].a[1]
            if o.op == "super":
                o = o.a[1]
            return mk("dictview", name, o)
        if name in ("append", "extend", "add", "update", "insert", "remove", "pop", "clear", "sort", "setdefault", "discard", "popitem") and kd is None \
                and not (name in ("append", "add") and (kw or len(args) != 1 or ty in (("ext", "pandas.DataFrame"), ("ext", "pandas.Series")))):
            self.emit("mutate", name, [o] + list(args), kw, node, recv=o)
            if name in ("append", "add", "extend", "insert"):
                self.log((o, "[]"), name, args[0] if name == "insert" else None, args[-1] if args else None, node)
            elif name == "update":
                base = self.ctx
                for a in args:
                    todo = [((), a)]
                    while todo:
                        g, a = todo.pop(0)
                        if a.op == "phi" and a.a[0].op != "exc" and len(g) < 4:
                            todo[:0] = [(g + (a.a[0],), a.a[1]), (g + (c_not(a.a[0]),), a.a[2])]
                            continue
                        for c in g:
                            self.push_if(c)
                        self.log((o, "[]"), "update", None, a, node)
                        self.ctx = base
                for k, v in kw:
                    self.log((o, "[]"), "set", const(k), v, node)
            elif name in ("pop", "remove", "discard", "clear", "popitem"):
                self.log((o, "[]"), "pop" if name == "pop" else "remove", args[0] if args else None, args[0] if args else None, node)
                if name == "pop" and args:
                    t = mk("call", mk("attr", o, "pop"), tuple(args), ())
                    self.emit("call", mk("attr", o, "pop"), args, kw, node, value=t, recv=o)
                    return t
        if name == "get" and kd is None and 1 <= len(args) <= 2 and not kw and (ty is None and o.op in ("sym", "attr", "elem", "idx", "call") or ty is not None and ty[0] == "gen" and ty[1] == "dict" or ty in (("ext", "Dict"), ("ext", "dict"), ("ext", "typing.Dict"))):
            c = self.contains_cond(args[0], o)
            return mk_phi(c, self.idx(o, args[0], node), args[1] if len(args) > 1 else NONE)
        cal = mk("attr", o, name)
        # unique-name class-hierarchy fallback for untyped receivers
        if ty is None and o.op in ("sym", "attr", "elem", "idx", "call", "last", "phi") and name not in simp.COMMON_METHODS:
            fs = [f for f in self.p.methods_by_name.get(name, []) if not f.is_property]
            fs = [f for f in fs if f.qual in baseline()] or fs
            if len(fs) == 1:
                f = fs[0]
                if not self.p.subclasses.get(f.cls.qual) or True:
                    self.types.setdefault(o, ("cls", f.cls))
                    return self.call_func(f, ([mk("class", f.cls.qual)] if f.is_classmethod else [] if f.is_static else [o]) + list(args), kw, node, recv=o)
        args = [self.seen(a) for a in args]
        kw = [(k, self.seen(v)) for k, v in kw]
        t = simp.mk_method(o if node is self.stmt_call or _quiet(cal) else self.seen(o), name, args, kw, self)
        self.emit("call", cal, args, kw, node, value=t, recv=o)
        if self.call_trace is not None:
            self.call_trace.append(t)
        if name in NEWTABLE and not any(k == "inplace" for k, _ in kw) and t.op == "call" and (name not in ("rename", "drop", "fillna") or kw):
            return self.alloc("ext", init=t)
        return t

    def container_call(self, o, kd, name, args, kw, node):
        L = (o, "[]")
        ismut = name in ("append", "extend", "add", "update", "insert", "remove", "pop", "clear", "setdefault", "discard", "sort", "reverse")
        if ismut:
            self.emit("mutate", name, [o] + list(args), kw, node, recv=o)
        if kd is None and name not in ("append", "extend", "add", "update", "insert", "remove"):
            return None
        if name in ("update", "extend") and len(args) == 1 and not kw and args[0].op == "phi" and args[0].a[0].op != "exc":
            base = self.ctx
            for g, x in ((args[0].a[0], args[0].a[1]), (c_not(args[0].a[0]), args[0].a[2])):
                self.push_if(g)
                self.container_call(o, kd, name, [x], kw, node)
                self.ctx = base
            return NONE
        if name in ("append", "add") and args:
            self.log(L, name, None, args[0], node)
            return NONE
        if name == "extend" and args:
            lit = self.iter_literal(args[0])
            if lit is not None:
                for x in lit:
                    self.log(L, "append", None, x, node)
            elif self.okind(args[0]) == "list" and len(self.heap.get((args[0], "[]"), [])) == 1 and self.heap[(args[0], "[]")][0].kind == "append":
                e = self.heap[(args[0], "[]")][0]
                oc = self.ctx
                self.ctx = self.ctx + e.ctx[len(self.objinfo[args[0]]["ctx"]):]
                self.log(L, "append", None, e.val, node)
                self.ctx = oc
            else:
                self.log(L, "extend", None, args[0], node)
            return NONE
        if name == "update":
            for a in args:
                if kd in (None, "dict"):
                    d = self.literal_dict(a)
                    if d is not None and kd == "dict":
                        for k, v in d:
                            self.log(L, "set", k, v, node)
                        continue
                    if self.okind(a) == "dict" and kd == "dict":
                        lg = self.heap.get((a, "[]"), [])
                        if len(lg) == 1 and lg[0].kind == "set":
                            oc = self.ctx
                            self.ctx = self.ctx + lg[0].ctx[len(self.objinfo[a]["ctx"]):]
                            self.log(L, "set", lg[0].key, lg[0].val, node)
                            self.ctx = oc
                            continue
                self.log(L, "update", None, a, node)
            for k, v in kw:
                self.log(L, "set", const(k), v, node)
            return NONE
        if name == "insert" and len(args) == 2:
            self.log(L, "insert", args[0], args[1], node)
            return NONE
        if name in ("remove", "discard") and args:
            self.log(L, "remove", None, args[0], node)
            return NONE
        if name == "clear":
            self.log(L, "remove", None, NONE, node)
            return NONE
        if name == "pop":
            r = None
            if kd == "dict" and args:
                r = self.idx(o, args[0], node)
                self.log(L, "del", args[0], None, node)
                return r
            lit = self.literal_items(o)
            self.log(L, "pop", args[0] if args else None, None, node)
            if lit:
                i = cval(args[0], None) if args else -1
                if isinstance(i, int) and -len(lit) <= i < len(lit):
                    return lit[i]
            return mk("call", mk("attr", o, "pop"), tuple(args), ())
        if name == "get" and kd == "dict":
            c = self.contains_cond(args[0], o)
            d = self.assumed(c)
            if d is True:
                return self.idx(o, args[0], node)
            dv = args[1] if len(args) > 1 else NONE
            if d is False:
                return dv
            return mk_phi(c, self.idx(o, args[0], node), dv)
        if name == "setdefault" and args:
            v = args[1] if len(args) > 1 else NONE
            c = self.contains_cond(args[0], o)
            d = self.assumed(c)
            if d is True:
                return self.idx(o, args[0], node)
            if d is False:
                self.log(L, "set", args[0], v, node)
                return v
            base = self.ctx
            self.push_if(c_not(c))
            if v in self.objinfo and self.objinfo[v]["ctx"] == base and isinstance(node, ast.Call) and len(node.args) > 1 \
                    and isinstance(node.args[1], (ast.Dict, ast.List, ast.Set, ast.Call)):
                # a display written as the default is kept only where the key was missing
                self.objinfo[v]["ctx"] = self.ctx
            self.log(L, "set", args[0], v, node)
            self.ctx = base
            return self.idx(o, args[0], node)
        if name in ("keys", "values", "items") and not args:
            return mk("dictview", name, o)
        if name == "copy" and kd in ("list", "dict", "set"):
            c = self.alloc(kd)
            self.log((c, "[]"), "extend" if kd == "list" else "update", None, o, node)
            return c
        if name in ("sort", "reverse"):
            if kd == "list" and not args:
                self.log(L, name, None, mk("tuple", *[mk("kv", const(k), v) for k, v in sorted(kw, key=lambda x: x[0])]), node)
            return NONE
        return None

    # ------------------------------------------------------------ function values
    def foreign(self, q):
        """A repository function that is not part of the pinned tree (a new helper)."""
        return q in self.p.funcs and (q not in baseline() or q in self.p.phantoms) and not q.startswith("specs.")

    def lam(self, t, go):
        """Canonical form of a function value: parameters numbered, body evaluated on them."""
        self.lamdepth = getattr(self, "lamdepth", 0) + 1
        try:
            if self.lamdepth > 4:
                return t
            if t.op in ("ext", "call"):
                snap, ctx = self.snapshot(), self.ctx
                ps = [mk("sym", "\\%d.%d" % (self.lamdepth, i)) for i in range(2 if t.op == "ext" else 1)]
                self.ctx = ()
                body = go(self.call(t, ps, [], None))
                self.rollback(snap)
                self.ctx = ctx
                return mk("lam", len(ps), body, (), ())
            c, pre, prekw = t, (), ()
            if t.op == "partial":
                c, pre, prekw = t.a[0], tuple(t.a[1]), tuple(t.a[2])
            if c.op == "closure":
                f, fr = self.closures[c]
            else:
                f, fr = self.p.funcs.get(c.a[0]), None
            if f is None:
                return t
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            given = {k for k, _ in prekw}
            nd = len(a.defaults)
            free = [n for n in names[len(pre):] if n not in given]
            req = [n for n in (names[:len(names) - nd] if nd else names)[len(pre):] if n not in given]
            # a default that captures a value (lambda x, y=y: ...) is not a parameter
            use = req if len(req) < len(free) else free
            ps = [mk("sym", "\\%d.%d" % (self.lamdepth, i)) for i in range(len(use))]
            if a.vararg or a.kwarg:
                return t
            snap = self.snapshot()
            saved = (self.ctx, getattr(self, "fr", None), list(self.stack))
            heap0 = {k: len(v) for k, v in self.heap.items()}
            try:
                self.ctx = ()
                env = self._bind(f, list(pre), [(k, v) for k, v in prekw] + list(zip(use, ps)), f.node)
                ret = self._exec_func(f, env, parent=fr)
                self.ctx = ()
                eff = []
                for e in self.events[snap[0]:]:
                    if e.kind == "raise" or (e.kind == "call" and e.discarded and not _quiet(e.callee)):
                        eff.append(mk("eff", e.callee if isinstance(e.callee, T) else const(str(e.callee)), tuple(go(x) for x in e.args),
                                      tuple((k, go(v)) for k, v in e.kw), go(self.ctx_term(e.ctx))))
                st = []
                for k, lst in self.heap.items():
                    n0 = heap0.get(k, 0)
                    if len(lst) > n0 and root_of(k[0]) in self.objinfo and self.objinfo[root_of(k[0])]["seq"] >= snap[0] and n0 == 0:
                        continue        # local to the body
                    for e in lst[n0:]:
                        st.append(mk("put", go(k[0]), k[1], e.kind, go(e.key) if e.key is not None else NONE, go(e.val) if e.val is not None else NONE, go(self.ctx_term(e.ctx))))
                body = go(ret)
            finally:
                self.rollback(snap)
                self.ctx, self.fr = saved[0], saved[1]
                self.stack[:] = saved[2]
            # eta: lambda x: f(x)  is  f
            if not eff and not st and body.op == "call" and len(ps) == 1 and not contains_(body.a[0], ps[0]):
                if tuple(body.a[1]) == tuple(ps) and not body.a[2]:
                    return body.a[0]
                if body.a[0].op == "func" and not body.a[1] and len(body.a[2]) == 1 and body.a[2][0][1] is ps[0]:
                    return body.a[0]
            return mk("lam", len(ps), body, tuple(eff), tuple(st))
        finally:
            self.lamdepth -= 1

    # ------------------------------------------------------------ reification
    def reify(self, t, deep=True, _act=None, born=None):
        """Replace container objects by canonical literal/comprehension terms."""
        act = []
        memo = {}
        cyc = [0]

        def go_any(y):
            if isinstance(y, T):
                return go(y)
            if isinstance(y, tuple):
                return tuple(go_any(z) for z in y)
            return y

        def go(x):
            # a term that refers back to a container being described is described relative to it
            mk_ = x.uid
            if mk_ in memo:
                return memo[mk_]
            mk_ = (x.uid, tuple(act))
            if mk_ in memo:
                return memo[mk_]
            c0 = cyc[0]
            if x.op == "obj":
                if x in act:
                    cyc[0] += 1
                    return mk("cyc", len(act) - act.index(x))
                act.append(x)
                r = self._reify_obj(x, go)
                act.pop()
            elif x.op in READS and any(self.stale(y, x.uid) for y in x.a):
                # a container changed after this was computed from it: what it held then
                r = simp.rebuild(x.op, tuple(at_any(y, x.uid) for y in x.a))
            elif x.op == "ver":
                t, marks = x.a
                r = simp.rebuild(t.op, tuple(at_any(y, marks) for y in t.a))
            elif x.op in ("elem", "pos", "for", "loop") and x.a[1] >= GEN:
                r = mk(x.op, at(x.a[0], self.mark(x.a[0], x.a[1] // GEN)), x.a[1] % GEN)
            else:
                if x.op == "carry" and x in getattr(self, "loopsys", {}):
                    sysm, n_ = self.loopsys[x]
                    r = mk("iter", go(self.fixpoint(sysm, n_)))
                elif x.op == "closure" and x in self.closures:
                    r = self.lam(x, go)
                elif x.op == "func" and self.foreign(x.a[0]):
                    r = self.lam(x, go)
                elif x.op == "partial" and x.a[0].op in ("closure", "func"):
                    r = self.lam(x, go)
                elif x.op == "ext" and x.a[0] in OPFUNS or self.getter(x):
                    r = self.lam(x, go)
                else:
                    na = tuple(go_any(y) for y in x.a)
                    r = x if na == x.a else simp.rebuild(x.op, na)
            memo[x.uid if cyc[0] == c0 or not act else mk_] = r
            return r

        def at(y, mark):
            """Container y as it was when the terms up to number `mark` had been made."""
            if y.op != "obj" or not self.stale(y, mark) or y in act:
                return go(y)
            lg = self.heap[(y, "[]")]
            k = (y.uid, "at", sum(1 for e in lg if e.born < mark), tuple(act))
            if k not in memo:
                act.append(y)
                try:
                    self.heap[(y, "[]")] = [e for e in lg if e.born < mark]
                    memo[k] = self._reify_obj(y, go)
                finally:
                    self.heap[(y, "[]")] = lg
                    act.pop()
            return memo[k]

        def at_any(y, mark):
            if isinstance(y, T):
                if y.op == "attr" and y.a[0].op == "obj":
                    z = at(y.a[0], mark)
                    return go(y) if z is go(y.a[0]) else simp.rebuild("attr", (z, y.a[1]))
                return at(y, mark)
            if isinstance(y, tuple):
                return tuple(at_any(z, mark) for z in y)
            return y

        if isinstance(t, tuple) and t and t[0] == "for":
            it, k = t[1], t[2]
            return mk("for", at(it, self.mark(it, k // GEN)) if k >= GEN else go(it), k % GEN)
        return go_any(t) if born is None or not isinstance(t, T) else at(t, born)

    def renum(self, t):
        """Objects named by their number within this analysis."""
        m = {x: mk("obj", self.objinfo[x]["num"], x.a[1]) for x in walk(t) if x.op == "obj" and x in self.objinfo}
        return subst(t, m) if m else t

    def stale(self, y, uid):
        """Has container y (or one in the tuple y) been written to since term number uid was made?"""
        if isinstance(y, tuple):
            return any(self.stale(z, uid) for z in y)
        if not isinstance(y, T):
            return False
        if y.op == "attr":
            y = y.a[0]
        if y.op != "obj":
            return False
        lg = self.heap.get((y, "[]"))
        return bool(lg) and lg[-1].born >= uid

    def mark(self, o, n):
        """Term number from which on container o had n - 1 entries."""
        lg = self.heap.get((o, "[]"), [])
        return lg[n - 1].born if n <= len(lg) else T._next[0] + 1

    def again(self, t):
        """t, just computed (again) from containers that were written to since a like term was made."""
        if t.op in READS:
            obs = [y for y in walk1(t) if y.op == "obj" and self.stale(y, t.uid)]
            if obs:
                return mk("ver", t, max(self.heap[(y, "[]")][-1].born for y in obs) + 1)
        return t

    def _entries(self, o, go):
        lg = self.heap.get((o, "[]"), [])
        base = self.objinfo[o]["ctx"] if o in self.objinfo else ()
        k_ = self.objinfo[o]["kind"] if o in self.objinfo else None
        out = []
        for e in lg:
            n = 0
            while n < len(base) and n < len(e.ctx) and e.ctx[n] == base[n]:
                n += 1
            rel = e.ctx[n:]
            cx = []
            for it in rel:
                if it[0] == "for":
                    cx.append(mk("for", go(it[1]), it[2]) if it[2] < GEN else self.reify(it))
                elif it[0] == "if":
                    cx.append(mk("when", go(it[1])))
                elif it[0] == "while":
                    cx.append(mk("while", go(it[1])))
            key = go(e.key) if e.key is not None else NONE
            val = go(e.val) if e.val is not None else NONE
            kind = e.kind
            if e.val is not None and e.val.op == "obj" and self.shared(o, e):
                val = mk("shared", val)
            # for k in d: o[k] = d[k]   is   o.update(d)
            if kind == "set" and cx and cx[-1].op == "for":
                d, n_ = cx[-1].a
                if key is mk("elem", d, n_) and val is simp.mk_idx(d, key):
                    kind, key, val, cx = "update", NONE, d, cx[:-1]
            if kind in ("append", "add") and cx and cx[-1].op == "for" and val is mk("elem", *cx[-1].a):
                # for x in X: l.append(x)   is   l.extend(X)
                kind, val, cx = ("extend" if kind == "append" else "update"), cx[-1].a[0], cx[:-1]
            if kind == "extend" or (kind == "update" and k_ == "set"):
                while val.op == "call" and val.a[0].op == "ext" and len(val.a[1]) == 1 and not val.a[2] and (
                        val.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") or (k_ == "set" and val.a[0].a[0] in ("builtins.set", "builtins.sorted"))):
                    val = val.a[1][0]
                if val.op in ("list", "tuple", "set") and not any(x.op == "star" for x in val.a):
                    out.extend((tuple(cx), "append" if kind == "extend" else "add", NONE, x) for x in val.a)
                    continue
                if val.op == ("listc" if kind == "extend" else "setc") or (val.op == "listc" and all(is_const(x.a[1], None) or is_const(x.a[1], "extend") for x in val.a)):
                    out.extend((tuple(cx) + x.a[0].a, ("append" if kind == "extend" else "add") if x.a[1] is NONE or is_const(x.a[1], "add") else
                                ("update" if kind == "update" and is_const(x.a[1], "extend") else x.a[1].a[0]), NONE, x.a[2]) for x in val.a)
                    continue
            if kind == "update" and val.op in ("dict", "dictc"):
                for x in val.a:
                    if x.op == "kv":
                        out.append((tuple(cx), "set", x.a[0], x.a[1]))
                    elif x.a[1].op == "kind":
                        out.append((tuple(cx) + x.a[0].a, x.a[1].a[0], NONE, x.a[2]))
                    elif x.a[1].op == "k":
                        out.append((tuple(cx) + x.a[0].a, x.a[1].a[0], x.a[1].a[1], x.a[2]))
                    else:
                        out.append((tuple(cx) + x.a[0].a, "set", x.a[1], x.a[2]))
                continue
            out.append((tuple(cx), kind, key, val))
        return out

    def shared(self, o, e):
        """Every iteration puts the same object there, one which they go on changing."""
        x = self.objinfo.get(e.val)
        if x is None or o not in self.objinfo:
            return False
        loops = [c for c in e.ctx[len(self.objinfo[o]["ctx"]):] if c[0] in ("for", "while") and c not in x["ctx"]]
        return bool(loops) and any(loops[0] in y.ctx for (ob, at), lst in self.heap.items() if ob is e.val for y in lst)

    def listterm(self, ents):
        """Term of a list from its insertions."""
        out = []
        for c, kind, key, v in ents:
            if kind == "insert" and is_const(key, 0) and not c and all(not x[0] or x[1] != "insert" for x in out):
                out.insert(0, (c, "append", NONE, v))
            elif kind == "insert":
                out.append((c, kind, key, mk("tuple", key, v)))
            else:
                out.append((c, kind, key, v))
        ents = out
        if all(not c and kind == "append" for c, kind, key, v in ents):
            return mk("list", *[v for _, _, _, v in ents])
        if len(ents) == 1 and not ents[0][0] and ents[0][1] == "extend":
            v = ents[0][3]
            if v.op in ("list", "listc") or (v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("builtins.list", "builtins.sorted")):
                return v
            return simp.mk_extcall("builtins.list", [v], [])
        return mk("listc", *[mk("ent", mk("ctx", *c), const(kind) if kind != "append" else NONE, v if key is NONE or kind == "insert" else mk("tuple", key, v))
                             for c, kind, key, v in ents])

    def _reify_obj(self, o, go):
        info = self.objinfo.get(o)
        if info is None:
            return o
        k = info["kind"]
        if k == "inst":
            if not getattr(self, "reify_inst", False):
                return mk("obj", info["num"], o.a[1])
            saved, self.ctx = self.ctx, ()
            try:
                kv = []
                for (ob, at) in sorted([hk for hk in self.heap if hk[0] is o], key=lambda z: z[1]):
                    if at == "[]":
                        kv.append(mk("kv", const("[]"), mk("dictc", *[mk("ent", mk("ctx", *c), key if kind == "set" else mk("kind", kind), val)
                                                                    for c, kind, key, val in self._entries(o, go)])))
                        continue
                    v = self.heap_read((ob, at))
                    if v is not None:
                        kv.append(mk("kv", const(at), go(v)))
            finally:
                self.ctx = saved
            c = info.get("cls")
            return mk("inst", c.qual if hasattr(c, "qual") else str(c), tuple(kv))
        ents = self._entries(o, go)
        init = info.get("init")
        if k == "list":
            i = max([i for i, x in enumerate(ents) if x[1] in ("sort", "reverse") and not x[0]] or [-1])
            if i >= 0:
                pre = self.listterm(ents[:i])
                if ents[i][1] == "sort":
                    pre = simp.mk_extcall("builtins.sorted", [pre], [(x.a[0].a[0], x.a[1]) for x in ents[i][3].a])
                else:
                    pre = mk("call", mk("ext", "builtins.reversed"), (pre,), ())
                if i == len(ents) - 1:
                    return pre
                ents = [((), "extend", NONE, pre)] + ents[i + 1:]
            return self.listterm(ents)
        if k == "ext":
            init = go(init)
            attrs = []
            if getattr(self, "reify_inst", False):
                saved, self.ctx = self.ctx, ()
                try:
                    for hk in [x for x in self.heap if (x[1] != "[]" or x[0] is not o) and root_of(x[0]) is o]:
                        if self.heap[hk] and hk[1] == "[]":
                            ph = subst(hk[0], {o: mk("sym", "<this>")})
                            for c_, kind_, key_, val_ in self._entries(hk[0], go):
                                ents.append((c_, kind_, mk("path_", ph, key_), val_))
                        elif self.heap[hk]:
                            v = self.heap_read(hk)
                            if v is not None:
                                ph = subst(hk[0], {o: mk("sym", "<this>")})
                                attrs.append((mk("path_", ph, hk[1]), go(v)))
                finally:
                    self.ctx = saved
            if attrs:
                ents = ents + [((), "attr", a, v) for a, v in sorted(attrs, key=lambda z: z[0].uid)]
            if not ents:
                return init
            return mk("filled", init, tuple(mk("ent", mk("ctx", *c), key, val) for c, kind, key, val in ents))
        if k == "set":
            if all(not c and kind == "add" for c, kind, key, v in ents):
                return mk("set", *sorted({v for _, _, _, v in ents}, key=lambda t: t.uid))
            return mk("setc", *[mk("ent", mk("ctx", *c), const(kind), v) for c, kind, key, v in ents])
        if k == "dict":
            if all(not c and kind == "set" for c, kind, key, v in ents):
                d = {}
                for _, _, key, v in ents:
                    d.pop(key, None)
                    d[key] = v
                ks = list(d)
                if all(simp.apart(x, y) for i, x in enumerate(ks) for y in ks[:i]):
                    return mk("dict", *[mk("kv", a, b) for a, b in sorted(d.items(), key=lambda kv: kv[0].uid)])
                return mk("dictc", *[mk("ent", mk("ctx"), a, b) for a, b in d.items()])
            if len(ents) == 1 and not ents[0][0] and ents[0][1] == "update":
                return ents[0][3]
            return mk("dictc", *[mk("ent", mk("ctx", *c), key if kind == "set" else mk("kind", kind) if key is NONE else mk("k", kind, key), v)
                                 for c, kind, key, v in ents])
        return o


def _quiet(c):
    n = callee_name(c).lower() if isinstance(c, T) else str(c).lower()
    return any(q in n for q in ("logger", "logging", "warnings.warn", "builtins.print", "getlogger")) or (
        isinstance(c, T) and c.op == "attr" and "logg" in show(c.a[0], 6).lower())


def chain_root(t):
    """m for m.f().g(...)"""
    while t.op == "call" and t.a[0].op == "attr" and not simp.rematch(t):
        t = t.a[0].a[0]
    return t


def own_break(s):
    """Does the statement contain a break / loop-else of the enclosing loop?"""
    if isinstance(s, ast.Break):
        return True
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.AsyncFor, ast.ClassDef)):
        return any(own_break(x) for x in getattr(s, "orelse", []) or [])
    return any(own_break(x) for x in ast.iter_child_nodes(s))


def fresh(t):
    """A value made by a library call that returns a new container."""
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in (
        "builtins.list", "builtins.sorted", "numpy.concatenate", "numpy.array", "numpy.unique", "numpy.append", "numpy.stack", "os.listdir", "glob.glob")


def root_of(t):
    while t.op in ("attr", "idx", "elem", "copyof", "bcast"):
        t = t.a[0]
    return t


def contains_(t, x):
    return any(y is x for y in walk(t))


class Summary(object):
    def __init__(self, interp, func, ret):
        self.I, self.func, self.raw = interp, func, ret
        self.ret = interp.reify(ret)
        self.events = interp.events

    def stores(self, obj=None, attr=None):
        return [e for e in self.events if e.kind == "store" and (obj is None or e.recv is obj) and (attr is None or e.callee == attr)]

    def final(self, obj, attr):
        """Reified value of obj.attr at function exit (None if never written)."""
        I = self.I
        I.ctx = ()
        v = I.heap_read((obj, attr))
        return I.reify(v) if v is not None else None

    def calls(self, *names):
        """External / opaque call events whose dotted name ends with one of names."""
        out = []
        for e in self.events:
            if e.kind == "call":
                n = callee_name(e.callee)
                if any(n == x or n.endswith("." + x) for x in names):
                    out.append(e)
        return out

    def enters(self, *names):
        out = []
        for e in self.events:
            if e.kind == "enter":
                if any(e.callee == x or e.callee.endswith("." + x) for x in names):
                    out.append(e)
        return out

    def raises(self):
        return [e for e in self.events if e.kind == "raise"]


def callee_name(c):
    if isinstance(c, str):
        return c
    if c is None:
        return ""
    if c.op in ("ext", "func", "class"):
        return c.a[0]
    if c.op == "attr":
        return callee_name(c.a[0]) + "." + c.a[1] if c.a[0].op in ("ext", "attr", "sym") else "?." + c.a[1]
    if c.op == "bound":
        return c.a[0]
    if c.op == "sym":
        return c.a[0]
    return "?"
