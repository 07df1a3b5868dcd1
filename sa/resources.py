"""Typestate of file-like resources: whatever is opened is released on every path out of the function that opened it.

An acquisition is a call of an opener (builtins.open, Path.open, h5py.File, pandas.ExcelWriter, ..., or a repository method that
opens a file and leaves it open in the receiver, such as AbstractH5FileIO.openFile).  It is discharged when
  - it is the context expression of a `with` (directly, through contextlib.closing, or ExitStack.enter_context/callback), or
  - a `finally` clause releases the resource on every path following the acquisition and nothing that can fail stands between, or
  - handlers for every exception release it and the normal path releases it too, or
  - the resource is handed over: returned, yielded or stored in the receiver by a factory, whose callers then carry the obligation.
"""
import ast
from .program import dotted, walk_own

EXT_OPENERS = {"open", "io.open", "gzip.open", "bz2.open", "lzma.open", "h5py.File", "pandas.HDFStore", "pandas.ExcelWriter", "zipfile.ZipFile",
               "tarfile.open", "os.fdopen", "shelve.open", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "codecs.open"}
QUIET = ("logger", "logging", "print", "warnings")


class Site(object):
    def __init__(self, func, node, status, msg, what):
        self.func, self.node, self.status, self.msg, self.what = func, node, status, msg, what


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Resources(object):
    def __init__(self, prog):
        self.p = prog
        self.funcs = [f for q, f in prog.funcs.items() if not f.module.rel.startswith("specs") and q not in prog.phantoms and isinstance(f.node, ast.FunctionDef)]
        self.parents = {}
        for f in self.funcs:
            pm = {}
            for n in ast.walk(f.node):
                for c in ast.iter_child_nodes(n):
                    pm[c] = n
            self.parents[f.qual] = pm
        self.by_name = {}
        for f in self.funcs:
            self.by_name.setdefault(f.name, []).append(f)
        self.releasing = self._releasing()
        self.acquirers = {}         # method qual -> True : leaves the receiver open
        self.factories = set()      # function qual -> returns an open resource
        self._grow()

    # ------------------------------------------------------------ summaries
    def _releasing(self):
        """names of repository functions/methods that release their receiver or an argument: name -> set of positions ('self' or index)"""
        rel = {"close": {"self"}}
        per = {}                    # (name, position) -> functions of that name doing so; every one of them must
        ch = True
        while ch:
            ch = False
            for f in self.funcs:
                handlers = {n for t in walk_own(f.node) if isinstance(t, ast.ExceptHandler) for n in ast.walk(t)}
                ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
                for n in walk_own(f.node):
                    if not isinstance(n, ast.Call) or n in handlers:
                        continue
                    for r in self._released_by(n, rel):
                        root = r
                        while isinstance(root, (ast.Attribute, ast.Subscript)):
                            root = root.value
                        if isinstance(root, ast.Name) and root.id in ps:
                            i = ps.index(root.id)
                            isself = i == 0 and f.cls is not None and not f.is_static
                            if isself and r is root and f.name == "close":
                                continue
                            pos = "self" if isself else i - (1 if f.cls is not None and not f.is_static else 0)
                            if isself and not (r is root or isinstance(r, ast.Attribute)):
                                continue
                            per.setdefault((f.name, pos), set()).add(f.qual)
                            if per[f.name, pos] < {g.qual for g in self.by_name[f.name]}:
                                continue
                            if pos not in rel.setdefault(f.name, set()):
                                rel[f.name].add(pos)
                                ch = True
        return rel

    @staticmethod
    def _released_by(call, rel):
        out = []
        fn = call.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        pos = rel.get(nm, ())
        if "self" in pos and isinstance(fn, ast.Attribute):
            out.append(fn.value)
        for i in pos:
            if isinstance(i, int) and 0 <= i < len(call.args):
                out.append(call.args[i])
        return out

    def releases(self, stmts, res):
        """Do the statements (straight line or guarded by the resource being set) release the resource?"""
        key = self._norm(res)
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    for r in self._released_by(n, self.releasing):
                        if self._covers(r, key):
                            return True
        return False

    @staticmethod
    def _norm(e):
        return ast.dump(e).replace("Store()", "Load()")

    def _covers(self, r, key):
        """releasing r releases the resource `key` (the same expression, or its owner)"""
        if self._norm(r) == key:
            return True
        return any(k == self._norm(r) for k in self.alias.get(key, ()))

    alias = {}

    # ------------------------------------------------------------ acquisitions
    def opener(self, f, call):
        """'ext' / 'recv' / 'factory' / None"""
        d = dotted(call.func)
        if d:
            r = self.p.resolve_name(f.module, d.split(".")[0]) if d.split(".")[0] in f.module.symbols else None
            full = d
            if r is not None and r[0] == "ext":
                full = r[1] + d[len(d.split(".")[0]):]
            full = full.replace("builtins.", "")
            if full in EXT_OPENERS and not (d == "open" and "open" in f.module.symbols and r is not None and r[0] != "ext"):
                return "ext"
        if isinstance(call.func, ast.Attribute):
            a = call.func.attr
            if a == "open" and not (d or "").startswith(("webbrowser", "os.", "Image")) and (not call.args or len(call.args) <= 2):
                cand = [g for g in self.by_name.get("open", []) if g.cls is not None]
                if not cand:
                    return "ext"
            if a in self.acq_names:
                return "recv"
            if a in self.arg_acq and len(call.args) > self.arg_acq[a]:
                return "arg"
            if a in self.fac_names:
                return "factory"
        elif isinstance(call.func, ast.Name) and call.func.id in self.arg_acq and len(call.args) > self.arg_acq[call.func.id]:
            return "arg"
        elif isinstance(call.func, ast.Name) and call.func.id in self.fac_names:
            return "factory"
        return None

    acq_names = frozenset()
    arg_acq = {}
    fac_names = frozenset()

    def _grow(self):
        for _ in range(6):
            acq, fac, arg = set(), set(), {}
            self.sites = []
            for f in self.funcs:
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call):
                        k = self.opener(f, n)
                        if k:
                            st, msg, role = self.judge(f, n, k)
                            if isinstance(role, tuple):
                                arg[f.name] = role[1]
                            elif role == "acquirer":
                                acq.add(f.name)
                            elif role == "factory":
                                fac.add(f.name)
                            self.sites.append(Site(f, n, st, msg, k))
            if acq == set(self.acq_names) and fac == set(self.fac_names) and arg == self.arg_acq:
                return
            self.acq_names, self.fac_names, self.arg_acq = frozenset(acq), frozenset(fac), arg

    def judge(self, f, call, kind):
        """-> (status, message, role)"""
        pm = self.parents[f.qual]
        par = pm.get(call)
        # with X / closing(X) / enter_context(X)
        node = call
        while isinstance(par, ast.Call) and (dotted(par.func) or "").split(".")[-1] in ("closing", "enter_context", "push"):
            if (dotted(par.func) or "").split(".")[-1] in ("enter_context", "push"):
                return "ok", "exit stack", None
            node, par = par, pm.get(par)
        if isinstance(par, ast.withitem) and par.context_expr is node:
            return "ok", "with", None
        if isinstance(par, (ast.Return, ast.Yield)):
            return "ok", "handed to the caller", "factory"
        if isinstance(par, ast.NamedExpr):
            return "undecided", "assignment expression", None
        if kind in ("recv", "arg"):
            res = call.func.value if kind == "recv" else call.args[self.arg_acq[call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id]]
            if isinstance(res, ast.Call) and isinstance(res.func, ast.Name) and res.func.id == "super":
                res = ast.Name(id="self", ctx=ast.Load())
            st = call
            while not isinstance(st, ast.stmt):
                st = pm[st]
            return self.protect(f, st, res, call)
        if isinstance(par, ast.Assign) and par.value is call and len(par.targets) == 1:
            t = par.targets[0]
            if isinstance(t, ast.Name):
                return self.protect(f, par, t, call)
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and f.cls is not None and not f.is_static and t.value.id == f.params()[0]:
                return self.protect(f, par, t, call)
        if isinstance(par, (ast.Attribute, ast.Call)) and kind == "ext" and self.p and (dotted(call.func) or "").split(".")[-1] == "open":
            return "undecided", "opened in an expression: closed by reference counting only", None
        return "violation", "the opened file is not bound to anything that closes it", None

    def safe(self, st):
        """can the statement fail (raise) at all?"""
        if isinstance(st, (ast.Pass, ast.Global, ast.Nonlocal)):
            return True
        for n in ast.walk(st):
            if isinstance(n, ast.Call):
                d = dotted(n.func) or ""
                if not any(q in d for q in QUIET) and d not in ("time.time", "len", "str", "dict", "list", "set"):
                    return False
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Raise, ast.Assert, ast.Subscript, ast.BinOp, ast.For, ast.Return)):
                return False
        return True

    def protect(self, f, stmt, res, call):
        pm = self.parents[f.qual]
        key = self._norm(res)
        selfname = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        ps = f.params()
        # a private helper opening the object it is given leaves it to its callers
        given = isinstance(res, ast.Name) and res.id in ps and res.id != selfname and f.name.startswith("_")
        owner = isinstance(res, ast.Attribute) or given or (isinstance(res, ast.Name) and res.id == selfname)
        self.alias = {key: ()}
        if isinstance(res, ast.Attribute):
            # self.attr is released by releasing self
            self.alias = {key: (self._norm(res.value),)}
        handled = False             # an enclosing handler releases on failure
        cur = stmt
        while True:
            par = pm.get(cur)
            block = None
            for fl in ("body", "orelse", "finalbody"):
                b = getattr(par, fl, None)
                if isinstance(b, list) and cur in b:
                    block = b
                    break
            if block is None and isinstance(par, ast.ExceptHandler):
                block = par.body
            if block is not None:
                i = block.index(cur)
                for s in block[i + 1:]:
                    if isinstance(s, ast.Try):
                        if self.releases(s.finalbody, res):
                            return "ok", "released in finally", None
                        if self.catches_all(s, res):
                            if self.releases(s.orelse, res) or self.releases(block[block.index(s) + 1:], res) or self.releases(s.body[-1:], res):
                                return "ok", "released in handlers and on the normal path", None
                            if owner:
                                handled = True
                                continue
                    if isinstance(s, ast.With) and any(self._norm(x.context_expr) == key or (isinstance(x.context_expr, ast.Call) and x.context_expr.args and
                                                       self._norm(x.context_expr.args[0]) == key) for x in s.items):
                        return "ok", "with", None
                    if isinstance(s, ast.Return) and s.value is not None and self.mentions(s.value, key):
                        return "ok", "handed to the caller", "factory"
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").split(".")[-1] in ("callback", "push", "enter_context") \
                            and s.value.args and any(self.mentions(a, key) for a in s.value.args):
                        return "ok", "exit stack", None
                    if self.releases([s], res) and not isinstance(s, (ast.If, ast.For, ast.While)):
                        if isinstance(s, ast.Expr):
                            return "ok", "released", None
                    if self.safe(s):
                        continue
                    if handled and owner:
                        continue
                    # something that can fail follows, unprotected so far
                    if self.enclosing(f, cur, res):
                        return "ok", "released in an enclosing finally", None
                    return "violation", "`%s` can fail while the file is open and nothing closes it on that path" % ast.unparse(s).split("\n")[0][:120], None
            if isinstance(par, ast.Try) and cur in par.body:
                if self.releases(par.finalbody, res):
                    return "ok", "released in finally", None
                if self.catches_all(par, res) and (self.releases(par.orelse, res) or self.releases(par.body[par.body.index(cur):], res)):
                    return "ok", "released in handlers and on the normal path", None
            if par is None or par is f.node or isinstance(par, (ast.FunctionDef, ast.Lambda)):
                break
            cur = par
        if given:
            return "ok", "left open in the argument for the callers", ("arg", ps.index(res.id) - (1 if selfname else 0))
        if owner:
            # the file stays open in the receiver: its callers must close it
            if isinstance(res, ast.Name) and not self.private(f):
                return "violation", "the file opened here is never closed", None
            return "ok", "left open in the receiver for its callers", "acquirer"
        return "violation", "the file opened here is never closed", None

    def private(self, f):
        return f.name.startswith("_") or f.name in ("openFile", "open", "__enter__")

    def enclosing(self, f, cur, res):
        pm = self.parents[f.qual]
        while cur is not None and cur is not f.node:
            par = pm.get(cur)
            if isinstance(par, ast.Try) and cur in par.body and self.releases(par.finalbody, res):
                return True
            cur = par
        return False

    def catches_all(self, t, res):
        for h in t.handlers:
            n = dotted(h.type) if h.type is not None else "BaseException"
            if n in ("Exception", "BaseException") and self.releases(h.body, res):
                return True
        return False

    def mentions(self, e, key):
        return any(isinstance(n, (ast.Name, ast.Attribute)) and self._norm(n) == key for n in ast.walk(e))
