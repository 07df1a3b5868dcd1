"""Whole-program model of /repo: modules, symbols, classes, annotations."""
import ast
import os
import hashlib

REPO = os.environ.get("SA_REPO", "/repo")


class AnchorLost(Exception):
    """A construct the rule is anchored in no longer exists -> analysis broken (exit 2)."""


class Func(object):
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = set()
        for d in getattr(node, "decorator_list", []):
            self.decorators.add(dotted(d) or "?")

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def is_setter(self):
        return any(d.endswith(".setter") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_abstract(self):
        return any(d.endswith("abstractmethod") or d.endswith("abstractproperty") for d in self.decorators)

    @property
    def is_ctxmgr(self):
        return any(d.endswith("contextmanager") for d in self.decorators)

    @property
    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return "%s:%s" % (self.module.rel, getattr(n, "lineno", "?"))


class Class(object):
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module, self.name = qual, node, module, node.name
        self.methods = {}      # name -> Func (getter for properties)
        self.setters = {}
        self.class_vars = {}   # name -> expr
        self.annots = {}       # name -> annotation expr
        self.inst_attrs = set()
        self.bases = []
        self._mro = None


class Module(object):
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.symbols = {}      # name -> ('func',Func)|('class',Class)|('import',qual)|('var',expr)
        self.is_pkg = os.path.basename(path) == "__init__.py"


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    if isinstance(n, ast.Call):
        return dotted(n.func)
    return None


def walk_own(fn):
    """Walk a function body without descending into nested defs/lambdas."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


_PARSED = {}


def parse_cached(src, path):
    k = (path, hash(src))
    if k not in _PARSED:
        _PARSED[k] = ast.parse(src, path)
    return _PARSED[k]


class Program(object):
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.overrides = overrides or {}
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.by_class_name = {}
        self.subclasses = {}
        self._arrays = None
        self.methods_by_name = {}
        self.phantoms = set()
        self._load()

    # ---------------------------------------------------------------- load
    def _load(self):
        pk = os.path.join(self.root, "seyfert")
        if not os.path.isdir(pk):
            raise AnchorLost("package seyfert not found under %s" % self.root)
        paths = []
        for d, ds, fs in os.walk(pk):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "tests", "test"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    paths.append(os.path.join(d, f))
        b = os.path.join(self.root, "bin")
        if os.path.isdir(b):
            for f in sorted(os.listdir(b)):
                p = os.path.join(b, f)
                if os.path.isfile(p):
                    with open(p, "rb") as fh:
                        head = fh.read(200)
                    if f.endswith(".py") or b"python" in head.split(b"\n")[0]:
                        paths.append(p)
        for p in paths:
            rel = os.path.relpath(p, self.root)
            if rel in self.overrides:
                src = self.overrides[rel]
            else:
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
            tree = parse_cached(src, p)
            mod = rel[:-3] if rel.endswith(".py") else rel
            name = mod.replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            m = Module(name, p, rel, tree, src)
            self.modules[name] = m
        for m in self.modules.values():
            self._scan(m)
        for c in self.classes.values():
            c.bases = [self.resolve_name(c.module, dotted(x.value if isinstance(x, ast.Subscript) else x) or "?") for x in c.node.bases]
            c.base_exprs = c.node.bases
        for c in self.classes.values():
            for b in self.mro(c)[1:]:
                self.subclasses.setdefault(b.qual, set()).add(c.qual)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def _scan(self, m):
        def visit(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m.name + "." + st.name, st, m)
                    m.symbols[st.name] = ("func", f)
                    self.funcs[f.qual] = f
                elif isinstance(st, ast.ClassDef):
                    c = Class(m.name + "." + st.name, st, m)
                    m.symbols[st.name] = ("class", c)
                    self.classes[c.qual] = c
                    self.by_class_name.setdefault(c.name, []).append(c)
                    self._scan_class(c)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.symbols[a.asname] = ("import", a.name)
                        else:
                            m.symbols[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (st.level - 1)]
                        base = ".".join(parts + ([base] if base else []))
                    for a in st.names:
                        m.symbols[a.asname or a.name] = ("import", base + "." + a.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.symbols[t.id] = ("var", st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.symbols[st.target.id] = ("var", st.value)
                elif isinstance(st, ast.If):
                    visit(st.body)
                    visit(st.orelse)
                elif isinstance(st, ast.Try):
                    visit(st.body)
                    for h in st.handlers:
                        visit(h.body)
                    visit(st.orelse)
                elif isinstance(st, ast.With):
                    visit(st.body)
        visit(m.tree.body)
        if m.name.startswith("bin.") or m.name.startswith("specs."):
            self._scan_main(m)

    def _scan_main(self, m):
        """Module-level code of a script as a function `__main__`."""
        if m.name.startswith("specs."):
            return
        body = []
        for st in m.tree.body:
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and dotted(st.test.left) == "__name__":
                body.extend(st.body)
            elif not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                body.append(st)
        if body:
            n = ast.parse("def __main__():\n    pass").body[0]
            n.body = body
            n.lineno = body[0].lineno
            f = Func(m.name + ".__main__", n, m)
            self.funcs[f.qual] = f
            m.symbols.setdefault("__main__", ("func", f))

    def _scan_class_vars(self, c):
        for st in c.node.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.class_vars[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.annots[st.target.id] = st.annotation
                if st.value is not None:
                    c.class_vars[st.target.id] = st.value

    def _scan_class(self, c):
        for st in c.node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(c.qual + "." + st.name, st, c.module, c)
                if f.is_setter:
                    c.setters[st.name] = f
                    self.funcs[f.qual + "@setter"] = f
                else:
                    c.methods[st.name] = f
                    self.funcs[f.qual] = f
                    self.methods_by_name.setdefault(st.name, []).append(f)
                for n in walk_own(st):
                    tg = []
                    if isinstance(n, ast.Assign):
                        tg = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                        tg = [n.target]
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store):
                                c.inst_attrs.add(x.attr)
                                if isinstance(n, ast.AnnAssign):
                                    c.annots.setdefault(x.attr, n.annotation)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.class_vars[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.annots[st.target.id] = st.annotation
                if st.value is not None:
                    c.class_vars[st.target.id] = st.value

    # ---------------------------------------------------------------- names
    def resolve_qual(self, qual, seen=()):
        """Qualified dotted name -> ('func'|'class'|'mod'|'var'|'ext', payload)."""
        if qual in seen:
            return ("ext", qual)
        if qual in self.modules:
            return ("mod", self.modules[qual])
        if "." in qual:
            head, tail = qual.rsplit(".", 1)
            r = self.resolve_qual(head, seen + (qual,))
            if r[0] == "mod":
                m = r[1]
                s = m.symbols.get(tail)
                if s is None:
                    return ("ext", m.name + "." + tail)
                return self.resolve_symbol(m, tail, seen + (qual,))
            if r[0] == "class":
                f = self.find_method(r[1], tail)
                if f is not None:
                    return ("func", f)
                return ("ext", qual)
            if r[0] == "ext":
                return ("ext", r[1] + "." + tail)
        return ("ext", qual)

    def resolve_symbol(self, m, name, seen=()):
        s = m.symbols.get(name)
        if s is None:
            return None
        if s[0] == "import":
            return self.resolve_qual(s[1], seen)
        if s[0] == "var":
            return ("var", (m, name, s[1]))
        return s

    def resolve_name(self, m, name):
        parts = name.split(".")
        r = self.resolve_symbol(m, parts[0])
        if r is None:
            return ("ext", "builtins." + name)
        for p in parts[1:]:
            if r[0] == "mod":
                mm = r[1]
                r = self.resolve_symbol(mm, p) or self.resolve_qual(mm.name + "." + p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return ("ext", name)
        return r

    # ---------------------------------------------------------------- classes
    def mro(self, c):
        if c._mro is None:
            out = [c]
            seqs = []
            for b in c.bases:
                if b[0] == "class":
                    seqs.append(list(self.mro(b[1])))
            for s in seqs:
                for x in s:
                    if x in out:
                        out.remove(x) if False else None
                        continue
                    out.append(x)
            # crude C3: keep last occurrence order for diamonds
            c._mro = out
        return c._mro

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_class_var(self, c, name):
        for k in self.mro(c):
            if name in k.class_vars:
                return (k, k.class_vars[name])
        return None

    def find_annot(self, c, name):
        for k in self.mro(c):
            if name in k.annots:
                return (k, k.annots[name])
        return None

    def array_attr(self, name):
        """The type of an attribute which is annotated, wherever it is annotated, as an array or a table."""
        if self._arrays is None:
            self._arrays = {}
            for c in self.classes.values():
                for n, e in c.annots.items():
                    ty = self.annot_type(c.module, e)
                    ok = ty is not None and ty[0] == "ext" and ty[1].split(".")[-1] in ("ndarray", "DataFrame", "Series")
                    self._arrays[n] = ty if ok and self._arrays.get(n, ty) == ty else None
        return self._arrays.get(name)

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.bases:
                if b[0] == "ext":
                    out.append(b[1])
        return out

    def cls(self, qual):
        """Class by qualified name; falls back to a unique class of that name (moved module)."""
        if qual in self.classes:
            return self.classes[qual]
        r = self.resolve_qual(qual)
        if r[0] == "class":
            return r[1]
        cands = self.by_class_name.get(qual.rsplit(".", 1)[-1], [])
        if len(cands) == 1:
            return cands[0]
        raise AnchorLost("class %s not found" % qual)

    def func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        r = self.resolve_qual(qual)
        if r[0] == "func":
            return r[1]
        head, tail = qual.rsplit(".", 1)
        try:
            c = self.cls(head)
            f = self.find_method(c, tail)
            if f is not None:
                return f
        except AnchorLost:
            pass
        cands = [f for q, f in self.funcs.items() if f.cls is None and f.name == tail and not q.startswith('specs.')]
        if len(cands) == 1 and head in self.modules or len(cands) == 1 and "." not in head:
            return cands[0]
        raise AnchorLost("function %s not found" % qual)

    # ---------------------------------------------------------------- types
    def annot_type(self, m, e):
        """Annotation expr -> type term: ('cls', Class) | ('gen', name, [args]) | ('ext', name) | None."""
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.annot_type(m, ast.parse(e.value.strip(), mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.Subscript):
            base = dotted(e.value) or ""
            b = base.split(".")[-1]
            sl = e.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if b in ("Union", "Optional"):
                ts = [self.annot_type(m, x) for x in elts]
                ts = [t for t in ts if t is not None and t != ("ext", "None")]
                cl = [t for t in ts if t[0] == "cls"]
                if len(cl) == 1:
                    return cl[0]
                gens = [t for t in ts if t[0] == "gen"]
                if not cl and len(gens) == 1:
                    return gens[0]
                return ts[0] if len(ts) == 1 else ("union", tuple(ts)) if ts else None
            if b in ("Type",):
                t = self.annot_type(m, elts[0])
                return ("type", t) if t else None
            if b in ("Dict", "dict", "List", "list", "Set", "set", "Tuple", "tuple", "Iterable", "Sequence", "Mapping", "Iterator", "FrozenSet", "DefaultDict"):
                return ("gen", b.lower(), tuple(self.annot_type(m, x) for x in elts))
            r = self.resolve_name(m, base)
            if r[0] == "class":
                return ("cls", r[1])
            return None
        d = dotted(e)
        if d is None:
            return None
        r = self.resolve_name(m, d)
        if r[0] == "class":
            return ("cls", r[1])
        if r[0] == "ext":
            return ("ext", r[1].replace("builtins.", ""))
        if r[0] == "var":
            mm, n, ex = r[1]
            if isinstance(ex, ast.Subscript):
                return self.annot_type(mm, ex)
        return None
