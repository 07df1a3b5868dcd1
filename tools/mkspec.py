#!/usr/bin/env python3
"""Draft the reference file of a module from its current source (to be reviewed and edited by hand).

usage: mkspec.py MODULE > specs/<file>.py
"""
import ast, sys, os, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program, dotted
P = Program()


class Strip(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            a.annotation = None
        n.decorator_list = []
        n.body = self.body(n.body)
        return n

    def body(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").startswith(("logger.", "logging.", "warnings.warn", "print"))):
                continue
            out.append(s)
        return out or [ast.Pass()]

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(n, ast.FunctionDef):
                setattr(n, f, self.body(v) if f == "body" else [s for s in self.body(v)] if v else v)
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
            n.exc.args = []
            n.exc.keywords = []
        if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], n.value)
        return n


def kind_of(f):
    if f.is_setter:
        return "setter"
    if f.is_property:
        return "property"
    if f.is_static:
        return "static"
    if f.is_classmethod:
        return "class"
    return None


def skeleton(c):
    """Class shape: in-tree bases, fields and class attributes."""
    n = ast.ClassDef(name="s_" + c.node.name, bases=c.node.bases, keywords=[], body=[], decorator_list=[], type_params=[])
    for st in c.node.body:
        if isinstance(st, ast.Assign):
            n.body.append(st)
        elif isinstance(st, ast.AnnAssign):
            n.body.append(ast.AnnAssign(target=st.target, annotation=st.annotation, value=st.value, simple=1))
    n.body = n.body or [ast.Pass()]
    decs = [d for d in c.node.decorator_list]
    kw = ""
    if decs:
        kw = ", decorators=%r" % [ast.unparse(d) for d in decs]
    return '@shape("%s"%s)\n%s\n' % (c.qual, kw, ast.unparse(ast.fix_missing_locations(n)))


def main():
    m = P.modules[sys.argv[1]]
    quals = [q for q, f in P.funcs.items() if f.module is m]
    imports = {}
    consts = []
    for s in ast.walk(m.tree):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            imports[ast.unparse(s)] = 1
    top = {t.id for st in m.tree.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)}
    for n, s in m.symbols.items():
        if s[0] in ("class", "func"):
            imports["from %s import %s" % (m.name, n)] = 1
        if s[0] == "var" and n in top:
            consts.append((n, s[1]))
    body = []
    used = set()
    for c in P.classes.values():
        if c.module is m:
            body.append(skeleton(c))
            for x in ast.walk(c.node):
                if isinstance(x, ast.Name):
                    used.add(x.id)
    for q in quals:
        f = P.funcs[q]
        n = ast.parse(ast.unparse(f.node)).body[0]
        n = Strip().visit(n)
        ast.fix_missing_locations(n)
        if f.name == "__main__":
            pass
        if f.is_abstract and all(isinstance(s, ast.Pass) for s in n.body):
            continue
        nm = q.split(".")[-1].strip("_").replace("@setter", "_set")
        nm = (f.cls.name + "_" if f.cls else "") + nm
        n.name = "r_" + nm
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                used.add(x.id)
        opts = []
        if f.node.name == "__init__" or not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(f.node)):
            if not f.is_generator:
                opts.append("ret=False")
        k = kind_of(f)
        if any(d.split(".")[-1] in ("lru_cache", "cache", "cached_property") for d in f.decorators):
            opts.append("cached=True")
        if k:
            opts.append("kind=%r" % k)
        body.append('@of("%s"%s)\n%s\n' % (q, "".join(", " + o for o in opts), ast.unparse(n)))
    for n, v in consts:
        for x in ast.walk(v):
            if isinstance(x, ast.Name):
                used.add(x.id)
    out = []
    for i in imports:
        t = ast.parse(i).body[0]
        names = [(a.asname or a.name).split(".")[0] for a in t.names]
        if any(x in used for x in names):
            t.names = [a for a in t.names if (a.asname or a.name).split(".")[0] in used]
            out.append(ast.unparse(t))
    doc = ast.get_docstring(m.tree)
    print('"""Reference definitions for %s."""' % m.name)
    print("\n".join(sorted(set(out))))
    print()
    for n, v in consts:
        print("%s = %s" % (n, ast.unparse(v)))
    if [n for n, _ in consts if n != "logger"]:
        print('\nconstants("%s", %s)' % (m.name, ", ".join(repr(n) for n, _ in consts if n != "logger")))
    print("\n\n" + "\n\n".join(body))


main()
