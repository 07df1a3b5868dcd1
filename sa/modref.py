"""Mod/ref summaries of the repository's functions.

For every function: which first-level fields of its parameters it may read (R) or write (W), directly or through the
functions it calls, and which external resources it acts on (X: file system, processes, plots, terminal).
Field based, flow insensitive, one field deep; receivers are resolved through the class hierarchy for `self`, by unique name otherwise.
"""
import ast

from . import simp

MUTATORS = set("append extend add update insert remove pop clear sort reverse setdefault discard popitem".split())
ACCESSORS = set("items values keys get copy".split())
VIEWFUN = set("list tuple sorted reversed enumerate zip set dict iter next filter map".split())
# external functions and methods acting on a resource
FS_METHODS = set("""mkdir unlink rmdir touch write_text write_bytes symlink_to hardlink_to rename replace_with chmod to_hdf to_csv to_excel to_json to_latex
 to_pickle savefig create_dataset create_group require_group require_dataset copyfile move rmtree makedirs write writelines save savetxt dump""".split())
FS_METHODS -= {"save", "dump", "move"}
FS_EXT = ("shutil.", "os.remove", "os.unlink", "os.mkdir", "os.makedirs", "os.rename", "os.rmdir", "os.symlink", "os.chmod", "os.replace", "json.dump",
          "pickle.dump", "numpy.save", "numpy.savetxt", "numpy.savez", "os.chdir", "pandas.ExcelWriter", "astropy.io.ascii.write")
NOT_FS = ("json.dumps", "pickle.dumps", "shutil.which", "shutil.get_terminal_size", "shutil.disk_usage")
PROC_EXT = ("subprocess.", "os.system", "os.popen", "os.kill", "os.exec", "os.spawn", "os.fork", "multiprocessing.", "os.environ", "os.putenv")
PLT_EXT = ("matplotlib.pyplot.",)


def ext_resources(q):
    if q.startswith(NOT_FS):
        return frozenset()
    if q.startswith("pathlib."):
        q = "x." + q
        return frozenset(["fs"]) if q.rsplit(".", 1)[1] in FS_METHODS else frozenset()
    if q.startswith(FS_EXT):
        return frozenset(["fs"])
    if q.startswith(PROC_EXT) and q.rsplit(".", 1)[-1] not in ("PIPE", "DEVNULL", "STDOUT", "CalledProcessError", "TimeoutExpired", "cpu_count", "environ", "get"):
        return frozenset(["fs", "proc"])
    if q.startswith(PLT_EXT):
        return frozenset(["plt"])
    if q in ("time.sleep",):
        return frozenset(["proc"])
    return frozenset()


def meth_resources(name):
    return frozenset(["fs"]) if name in FS_METHODS else frozenset()


class Summ(object):
    __slots__ = ("R", "W", "X")

    def __init__(self):
        self.R, self.W, self.X = set(), set(), set()

    def size(self):
        return len(self.R) + len(self.W) + len(self.X)


class ModRef(object):
    def __init__(self, prog):
        self.p = prog
        self.s = {}
        self.facts = {}
        # attribute names that are instance data somewhere
        self.fields = {"[]"}
        for c in prog.classes.values():
            self.fields |= set(c.inst_attrs) | set(c.annots) | set(c.class_vars)
        for q, f in list(prog.funcs.items()):
            self.s[q] = Summ()
            try:
                self.facts[q] = self.scan(f)
            except RecursionError:
                self.facts[q] = []
        callers = {}
        for q, fs in self.facts.items():
            for kind, x in fs:
                if kind == "call":
                    for c in x[0]:
                        callers.setdefault(c, set()).add(q)
        todo = list(self.s)
        inq = set(todo)
        n = 0
        while todo and n < 200000:
            n += 1
            q = todo.pop()
            inq.discard(q)
            if self.apply(q):
                for c in callers.get(q, ()):
                    if c not in inq:
                        inq.add(c)
                        todo.append(c)

    def summary(self, q):
        return self.s.get(q)

    # ---------------------------------------------------------------- facts
    def scan(self, f):
        node = f.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        env = {p: {(p, None)} for p in params}
        facts = []
        is_cls = f.cls is not None

        def roots(e):
            if isinstance(e, ast.Name):
                return env.get(e.id, set())
            if isinstance(e, ast.Attribute):
                return {(p, x if x is not None else e.attr) for p, x in roots(e.value)}
            if isinstance(e, ast.Subscript):
                return {(p, x if x is not None else "[]") for p, x in roots(e.value)}
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and e.func.attr in ACCESSORS:
                    return {(p, x if x is not None else "[]") for p, x in roots(e.func.value)}
                if isinstance(e.func, ast.Name) and e.func.id in VIEWFUN:
                    return set().union(*[roots(x) for x in e.args]) if e.args else set()
                return set()
            if isinstance(e, (ast.IfExp,)):
                return roots(e.body) | roots(e.orelse)
            if isinstance(e, ast.BoolOp):
                return set().union(*[roots(x) for x in e.values])
            if isinstance(e, ast.NamedExpr):
                return roots(e.value)
            return set()

        def bindt(t, rs):
            if isinstance(t, ast.Name):
                if rs and t.id not in params:
                    env.setdefault(t.id, set()).update({(p, x if x is not None else None) for p, x in rs})
            elif isinstance(t, (ast.Tuple, ast.List)):
                for y in t.elts:
                    bindt(y, {(p, x if x is not None else "[]") for p, x in rs})
            elif isinstance(t, ast.Starred):
                bindt(t.value, rs)

        for _ in range(3):
            n0 = sum(len(v) for v in env.values())
            for n in ast.walk(node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        bindt(t, roots(n.value))
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    bindt(n.target, roots(n.value))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    bindt(n.target, {(p, x if x is not None else "[]") for p, x in roots(n.iter)})
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    bindt(n.optional_vars, roots(n.context_expr))
            if sum(len(v) for v in env.values()) == n0:
                break
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute):
                rs = roots(n)
                if isinstance(n.ctx, ast.Store) or isinstance(n.ctx, ast.Del):
                    facts.append(("W", rs))
                    st = self.setter_targets(f, n)
                    if st:
                        facts.append(("call", (tuple(st), (roots(n.value),), ())))
                    facts.append(("WB", {(p, x) for p, x in roots(n.value)}))
                else:
                    facts.append(("R", rs))
                    # a property read
                    pr = self.prop_targets(f, n)
                    if pr:
                        facts.append(("call", (tuple(pr), (roots(n.value),), ())))
            elif isinstance(n, ast.Subscript):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    facts.append(("W", {(p, x if x is not None else "[]") for p, x in roots(n.value)}))
                else:
                    facts.append(("R", roots(n)))
            elif isinstance(n, ast.AugAssign):
                t = n.target
                rs = roots(t)
                facts.append(("R", rs))
                if isinstance(t, ast.Name):
                    facts.append(("W", {r for r in rs if r[1] is not None}))
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    rr = roots(fn.value)
                    if fn.attr in MUTATORS:
                        facts.append(("W", {(p, x if x is not None else "[]") for p, x in rr}))
                    facts.append(("R", {(p, x if x is not None else "[]") for p, x in rr}))
                tg, args, kw = self.call_targets(f, n, roots, env)
                if tg:
                    facts.append(("call", (tuple(tg), args, kw)))
                else:
                    x = self.ext_call(f, n, env)
                    if x:
                        facts.append(("X", x))
        return facts

    def prop_targets(self, f, n):
        out = []
        if isinstance(n.value, ast.Name) and f.cls is not None and f.params() and n.value.id == f.params()[0]:
            m = self.p.find_method(f.cls, n.attr)
            if m is not None and m.is_property:
                out.append(m.qual)
            for s in self.p.subclasses.get(f.cls.qual, ()):
                k = self.p.classes[s].methods.get(n.attr)
                if k is not None and k.is_property:
                    out.append(k.qual)
            return out
        ms = [m for m in self.p.methods_by_name.get(n.attr, []) if m.is_property]
        if 0 < len(ms) <= 3 and n.attr not in self.fields:
            out = [m.qual for m in ms]
        return out

    def setter_targets(self, f, n):
        if isinstance(n.value, ast.Name) and f.cls is not None and f.params() and n.value.id == f.params()[0]:
            m = self.p.find_setter(f.cls, n.attr)
            return [m.qual + "@setter"] if m is not None else []
        if n.attr in self.fields:
            return []
        return [c.setters[n.attr].qual + "@setter" for c in self.p.classes.values() if n.attr in c.setters][:3]

    def isfield(self, f, r):
        if r[1] is None or r[1] not in self.fields:
            return False
        if f.cls is not None and f.params() and r[0] == f.params()[0] and r[1] != "[]":
            if self.p.find_method(f.cls, r[1]) is not None or any(r[1] in self.p.classes[s].methods for s in self.p.subclasses.get(f.cls.qual, ())):
                return False
        return True

    def call_targets(self, f, n, roots, env):
        fn = n.func
        args = tuple(roots(x) if not isinstance(x, ast.Starred) else set() for x in n.args)
        kw = tuple((k.arg, roots(k.value)) for k in n.keywords if k.arg)
        if isinstance(fn, ast.Name):
            if fn.id in env and fn.id in [x.arg for x in f.node.args.args]:
                return [], args, kw
            r = self.p.resolve_name(f.module, fn.id)
            return self._sym(r, args, kw)
        if isinstance(fn, ast.Attribute):
            v = fn.value
            # super().m()
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None and f.params():
                for k in self.p.mro(f.cls)[1:]:
                    if fn.attr in k.methods:
                        return [k.methods[fn.attr].qual], ({(f.params()[0], None)},) + args, kw
                return [], args, kw
            if isinstance(v, ast.Name) and f.cls is not None and f.params() and v.id == f.params()[0] and not f.is_static:
                out = []
                m = self.p.find_method(f.cls, fn.attr)
                if m is not None:
                    out.append(m.qual)
                for s in self.p.subclasses.get(f.cls.qual, ()):
                    k = self.p.classes[s].methods.get(fn.attr)
                    if k is not None:
                        out.append(k.qual)
                if out:
                    if m is not None and (m.is_static):
                        return out, args, kw
                    return out, (({(v.id, None)} if not f.is_classmethod else set()),) + args, kw
            d = dotted(fn)
            if d is not None and d.split(".")[0] not in env:
                r = self.p.resolve_name(f.module, d.split(".")[0])
                for part in d.split(".")[1:]:
                    if r is None:
                        break
                    r = self._member(r, part)
                if r is not None:
                    return self._sym(r, args, kw)
            if fn.attr not in simp.COMMON_METHODS:
                ms = [m for m in self.p.methods_by_name.get(fn.attr, []) if not m.is_property]
                if 0 < len(ms) <= 4:
                    return [m.qual for m in ms], (roots(v),) + args, kw
        return [], args, kw

    def _member(self, r, part):
        if r[0] == "mod":
            m = self.p.modules.get(r[1] if isinstance(r[1], str) else r[1].name)
            if m is None:
                return None
            x = self.p.resolve_symbol(m, part)
            return x if x is not None else self.p.resolve_qual(m.name + "." + part)
        if r[0] == "class":
            c = r[1]
            m = self.p.find_method(c, part)
            return ("method", m) if m is not None else None
        return None

    def _sym(self, r, args, kw):
        if r is None:
            return [], args, kw
        if r[0] == "func":
            return [r[1].qual], args, kw
        if r[0] == "class":
            i = self.p.find_method(r[1], "__init__")
            return ([i.qual] if i is not None else []), (set(),) + args, kw
        if r[0] == "method":
            m = r[1]
            if m.is_classmethod:
                return [m.qual], (set(),) + args, kw
            return [m.qual], args, kw
        return [], args, kw

    def ext_call(self, f, n, env):
        fn = n.func
        d = dotted(fn)
        out = set()
        if isinstance(fn, ast.Name) and fn.id == "open" and fn.id not in env:
            m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
            if m is not None and not (isinstance(m, ast.Constant) and str(m.value) in ("r", "rb", "rt")):
                out.add("fs")
        if d is not None and d.split(".")[0] not in env:
            r = self.p.resolve_name(f.module, d.split(".")[0])
            q = None
            if r is not None and r[0] == "ext":
                q = ".".join([r[1]] + d.split(".")[1:])
                q = simp.canon_ext(q) if q else q
                out |= ext_resources(q)
                return out
        if isinstance(fn, ast.Attribute):
            out |= meth_resources(fn.attr)
        return out

    # ---------------------------------------------------------------- fixpoint
    def apply(self, q):
        s = self.s[q]
        n0 = s.size()
        f = self.p.funcs[q]
        for kind, x in self.facts[q]:
            if kind == "R":
                s.R |= {r for r in x if self.isfield(f, r)}
            elif kind == "W":
                s.W |= {r for r in x if self.isfield(f, r)}
            elif kind == "WB":
                s.W |= {r for r in x if self.isfield(f, r)}
            elif kind == "X":
                s.X |= x
            elif kind == "call":
                tg, args, kw = x
                for t in tg:
                    c = self.s.get(t)
                    if c is None:
                        continue
                    s.X |= c.X
                    names = self.p.funcs[t].params()
                    m = {}
                    for i, rs in enumerate(args):
                        if i < len(names):
                            m.setdefault(names[i], set()).update(rs)
                    for k, rs in kw:
                        m.setdefault(k, set()).update(rs)
                    for p_, at in list(c.R):
                        for r in m.get(p_, ()):
                            r = (r[0], r[1] if r[1] is not None else at)
                            if self.isfield(f, r):
                                s.R.add(r)
                    for p_, at in list(c.W):
                        for r in m.get(p_, ()):
                            r = (r[0], r[1] if r[1] is not None else at)
                            if self.isfield(f, r):
                                s.W.add(r)
        return s.size() != n0


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


def of(prog):
    m = prog.__dict__.get("_modref")
    if m is None:
        m = prog.__dict__["_modref"] = ModRef(prog)
    return m
