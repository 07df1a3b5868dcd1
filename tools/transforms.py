"""Behaviour-preserving source transformations (for testing that checks stay quiet) and
behaviour-changing mutations (for testing that they fire).  Operate on AST of one function."""
import ast
import copy
import random

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def names_loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_stored(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    for x in ast.walk(n):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.FunctionDef,)):
            out.add(x.name)
    return out


def locals_of(fn):
    a = fn.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            s.add(x.arg)
    for st in fn.body:
        s |= names_stored(st)
    return s


def params_of(fn):
    a = fn.args
    s = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for x in (a.vararg, a.kwarg):
        if x:
            s.append(x.arg)
    return s


def comp_locals(n):
    return {y.id for x in ast.walk(n) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)} | \
        {a.arg for x in ast.walk(n) if isinstance(x, ast.Lambda) for a in x.args.args}


def bodies(fn):
    """All statement lists in a function (not nested defs)."""
    out = []

    def rec(owner, field, lst, inloop):
        out.append((owner, field, lst, inloop))
        for st in lst:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                v = getattr(st, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    rec(st, f, v, inloop or isinstance(st, (ast.For, ast.While)))
            for h in getattr(st, "handlers", []):
                rec(h, "body", h.body, inloop)
    rec(fn, "body", fn.body, False)
    return out


def has_jump(stmts, kinds=(ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Raise)):
    return any(isinstance(x, kinds) for s in stmts for x in ast.walk(s))


class Ctx(object):
    def __init__(self, rng, modtree, cls):
        self.rng, self.mod, self.cls = rng, modtree, cls
        self.n = 0
        self.newfuncs = []      # module-level defs to add
        self.newmethods = []

    def fresh(self, p="tmp"):
        self.n += 1
        return "%s_%d" % (p, self.n)


def is_doc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)


# ------------------------------------------------------------------ transformations (return True when applied)
def t_rename(fn, c):
    loc = [x for x in locals_of(fn) if x not in params_of(fn) and x != "self"]
    if any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            return False
        if isinstance(n, ast.ExceptHandler) and n.name:
            return False
    loc = [x for x in loc]
    if not loc:
        return False
    m = {x: x + "_r" for x in loc}
    cl = comp_locals(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in m and n.id not in {a.arg for l in ast.walk(fn) if isinstance(l, ast.Lambda) for a in l.args.args}:
            n.id = m[n.id]
    return True


def t_invert_if(fn, c):
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and c.rng.random() < .8:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            done = True
    return done


def t_else_after_return(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(lst):
                st.orelse = lst[i + 1:]
                del lst[i + 1:]
                done = True
                break
    return done


def t_flatten_else(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and i == len(lst) - 1:
                lst.extend(st.orelse)
                st.orelse = []
                return True
    return done


def t_single_return(fn, c):
    """if c: return A  /  return B  -> result variable."""
    done = False
    for o, f, lst, il in bodies(fn):
        if il:
            continue
        if len(lst) >= 2 and isinstance(lst[-1], ast.Return) and isinstance(lst[-2], ast.If) and not lst[-2].orelse and isinstance(lst[-2].body[-1], ast.Return) \
                and not has_jump(lst[-2].body[:-1]):
            v = c.fresh("result")
            i = lst[-2]
            b = i.body[:-1] + [ast.Assign([ast.Name(v, ast.Store())], i.body[-1].value or ast.Constant(None))]
            e = [ast.Assign([ast.Name(v, ast.Store())], lst[-1].value or ast.Constant(None))]
            i.body, i.orelse = b, e
            lst[-1] = ast.Return(ast.Name(v, ast.Load()))
            done = True
    return done


class _Anf(ast.NodeTransformer):
    pass


def t_temps(fn, c):
    """Hoist the value of a return / assigned / argument expression into a temporary."""
    done = False
    for o, f, lst, il in bodies(fn):
        new = []
        for st in lst:
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)) \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(st.value)):
                v = c.fresh("ret")
                new.append(ast.Assign([ast.Name(v, ast.Store())], st.value))
                st.value = ast.Name(v, ast.Load())
                done = True
            elif isinstance(st, (ast.Assign, ast.Expr)) and isinstance(st.value, ast.Call) and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda)) for x in ast.walk(st)):
                call = st.value
                # evaluate args in order into temps when callee is a plain name/attr chain
                if all(not isinstance(a, ast.Starred) for a in call.args) and isinstance(call.func, (ast.Name, ast.Attribute)) \
                        and not any(isinstance(x, ast.Call) for x in ast.walk(call.func)):
                    if not any(isinstance(a, ast.GeneratorExp) for a in call.args):
                        for i, a in enumerate(call.args):
                            if not isinstance(a, (ast.Name, ast.Constant)):
                                v = c.fresh("arg")
                                new.append(ast.Assign([ast.Name(v, ast.Store())], a))
                                call.args[i] = ast.Name(v, ast.Load())
                                done = True
                        for k in call.keywords:
                            if k.arg and not isinstance(k.value, (ast.Name, ast.Constant)):
                                v = c.fresh("arg")
                                new.append(ast.Assign([ast.Name(v, ast.Store())], k.value))
                                k.value = ast.Name(v, ast.Load())
                                done = True
            elif isinstance(st, ast.Assign) and isinstance(st.value, ast.BinOp) and not isinstance(st.value.op, ast.Mod):
                v = c.fresh("lhs")
                new.append(ast.Assign([ast.Name(v, ast.Store())], st.value.left))
                st.value.left = ast.Name(v, ast.Load())
                done = True
            elif isinstance(st, ast.For) and not isinstance(st.iter, (ast.Name,)):
                v = c.fresh("it")
                new.append(ast.Assign([ast.Name(v, ast.Store())], st.iter))
                st.iter = ast.Name(v, ast.Load())
                done = True
            elif isinstance(st, ast.If) and not isinstance(st.test, ast.Name):
                v = c.fresh("flag")
                new.append(ast.Assign([ast.Name(v, ast.Store())], st.test))
                st.test = ast.Name(v, ast.Load())
                done = True
            new.append(st)
        lst[:] = new
    # elif chains: hoisting inside orelse bodies is fine (they are their own statement lists)
    return done


def t_comp_to_loop(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        new = []
        for st in lst:
            val = getattr(st, "value", None) if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) else None
            comp = None
            if isinstance(val, (ast.ListComp, ast.DictComp, ast.SetComp)):
                comp, path = val, None
            elif isinstance(val, ast.Call) and len(val.args) >= 1 and isinstance(val.args[0], (ast.ListComp, ast.DictComp, ast.GeneratorExp)) \
                    and not any(isinstance(x, ast.Call) for x in ast.walk(val.func)):
                comp, path = val.args[0], "arg"
            if comp is not None:
                acc = c.fresh("acc")
                if isinstance(comp, ast.DictComp):
                    init = ast.Dict([], [])
                    inner = ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), comp.key, ast.Store())], comp.value)
                elif isinstance(comp, ast.SetComp):
                    init = ast.Call(ast.Name("set", ast.Load()), [], [])
                    inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "add", ast.Load()), [comp.elt], []))
                else:
                    init = ast.List([], ast.Load())
                    inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [comp.elt], []))
                body = [inner]
                # comprehension variables get fresh names if they clash with locals used elsewhere
                for g in reversed(comp.generators):
                    for cond in reversed(g.ifs):
                        body = [ast.If(cond, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                new.append(ast.Assign([ast.Name(acc, ast.Store())], init))
                new.extend(body)
                if path is None:
                    st.value = ast.Name(acc, ast.Load())
                else:
                    val.args[0] = ast.Name(acc, ast.Load())
                done = True
            new.append(st)
        lst[:] = new
    return done


def t_loop_to_comp(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        i = 0
        while i + 1 < len(lst):
            a, b = lst[i], lst[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.For) and not b.orelse:
                nm = a.targets[0].id
                inner, conds = b.body, []
                while len(inner) == 1 and isinstance(inner[0], ast.If) and not inner[0].orelse:
                    conds.append(inner[0].test)
                    inner = inner[0].body
                if len(inner) == 1:
                    s = inner[0]
                    gen = ast.comprehension(b.target, b.iter, conds, 0)
                    if isinstance(a.value, ast.List) and not a.value.elts and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                            isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == nm \
                            and nm not in names_loaded(s.value.args[0]):
                        a.value = ast.ListComp(s.value.args[0], [gen])
                        del lst[i + 1]
                        done = True
                    elif isinstance(a.value, ast.Dict) and not a.value.keys and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and \
                            isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == nm and nm not in names_loaded(s.value) and nm not in names_loaded(s.targets[0].slice):
                        a.value = ast.DictComp(s.targets[0].slice, s.value, [gen])
                        del lst[i + 1]
                        done = True
            i += 1
    return done


class _FStr(ast.NodeTransformer):
    def __init__(self, mode):
        self.mode, self.done = mode, False

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec is not None) for v in n.values):
            return n
        if any(isinstance(v, ast.FormattedValue) and any(isinstance(y, ast.JoinedStr) for y in ast.walk(v.value)) for v in n.values):
            return n
        self.done = True
        if self.mode == 0:
            s, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    s += "{}"
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])
        e = ast.Constant("")
        for v in n.values:
            x = v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], [])
            e = ast.BinOp(e, ast.Add(), x)
        return e


def t_fstring(fn, c):
    t = _FStr(c.rng.randrange(2))
    for i, st in enumerate(fn.body):
        fn.body[i] = t.visit(st)
    return t.done


def _replace_stmts(lst, i, j, new):
    lst[i:j] = new


def t_extract_block(fn, c):
    """Move a run of statements to a new helper function (module level, or method when it uses self)."""
    cands = []
    loc = locals_of(fn)
    for o, f, lst, il in bodies(fn):
        for i in range(len(lst)):
            for j in range(i + 1, min(len(lst), i + 6) + 1):
                run = lst[i:j]
                if any(is_doc(s) for s in run) or has_jump(run, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom)):
                    continue
                if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Delete)) for s in run for x in ast.walk(s)):
                    continue
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for s in run for x in ast.walk(s)):
                    continue
                if sum(1 for s in run for _ in ast.walk(s)) < 8:
                    continue
                cands.append((lst, i, j, f, il))
    if not cands:
        return False
    lst, i, j, f, il = c.rng.choice(cands)
    run = lst[i:j]
    stored = set()
    for s in run:
        stored |= names_stored(s)
    cl = set()
    for s in run:
        cl |= comp_locals(s)
    loaded = set()
    for s in run:
        loaded |= names_loaded(s)
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                loaded.add(x.target.id)
    # used elsewhere in the function
    outside = ast.Module([ast.Pass()], [])
    blob = copy.deepcopy(fn)
    runids = {id(s) for s in run}
    used_out = set()

    def rec(n):
        if id(n) in runids:
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            used_out.add(n.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            used_out.add(n.target.id)
        for k in ast.iter_child_nodes(n):
            rec(k)
    rec(fn)
    outs = sorted((stored & used_out) - cl)
    if il:
        # names carried around a loop: anything stored and loaded inside counts as in/out
        outs = sorted(set(outs) | ((stored & loaded) - cl if False else set()))
    ins_set = (loaded & loc) - (cl - (loc - stored))
    # only inputs possibly defined before the run: approximate by names stored before / params
    defined = set(params_of(fn))

    def rec2(n):
        if id(n) in runids:
            return True
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            defined.add(n.id)
        for k in ast.iter_child_nodes(n):
            if rec2(k) and not il:
                return True
        return False
    rec2(fn)
    ins = sorted(x for x in ins_set if x in defined)
    # conditional definitions: an output that may be undefined is unsafe unless it is also an input
    def surely(stmts):
        s = set()
        for st in stmts:
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                s |= names_stored(st)
            elif isinstance(st, ast.If) and st.orelse:
                s |= surely(st.body) & surely(st.orelse)
            elif isinstance(st, ast.With):
                s |= names_stored(st.items[0]) if st.items else set()
                s |= surely(st.body)
        return s
    sure = surely(run)
    for x in outs:
        if x not in sure:
            if x in defined and x in (set(ins) | {x}):
                # may be defined before: pass through
                if x in defined and _def_before(fn, lst, i, x):
                    if x not in ins:
                        ins.append(x)
                else:
                    return False
            else:
                return False
    for x in ins:
        if x in stored and not _def_before(fn, lst, i, x) and x not in params_of(fn):
            return False
        if x not in params_of(fn) and not _def_before(fn, lst, i, x):
            return False
    nm = c.fresh("_extracted")
    body = list(run)
    if outs:
        rv = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load())
        body = body + [ast.Return(rv)]
    use_method = c.cls is not None and "self" in ins and c.rng.random() < .7
    if use_method:
        ins = [x for x in ins if x != "self"]
        fd = ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in ins], None, [], [], None, []), body, [], None, None)
        c.newmethods.append(fd)
        callee = ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load())
    else:
        fd = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), body, [], None, None)
        c.newfuncs.append(fd)
        callee = ast.Name(nm, ast.Load())
    call = ast.Call(callee, [ast.Name(x, ast.Load()) for x in ins], [])
    if outs:
        tgt = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store())
        new = ast.Assign([tgt], call)
    else:
        new = ast.Expr(call)
    lst[i:j] = [new]
    return True


def _def_before(fn, lst, i, x):
    """x surely assigned before statement i of lst (syntactically, straight line of enclosing bodies)."""
    target = lst[i] if i < len(lst) else None

    def surely(stmts):
        s = set()
        for st in stmts:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                s |= names_stored(st)
            elif isinstance(st, ast.If) and st.orelse:
                s |= surely(st.body) & surely(st.orelse)
            elif isinstance(st, ast.With):
                for it in st.items:
                    s |= names_stored(it)
                s |= surely(st.body)
        return s

    def rec(stmts, have):
        for st in stmts:
            if st is target:
                return have
            h = set(have)
            if isinstance(st, ast.For):
                h |= names_stored(st.target)
            if isinstance(st, ast.With):
                for it in st.items:
                    h |= names_stored(it)
            for f in ("body", "orelse", "finalbody"):
                v = getattr(st, f, None)
                if isinstance(v, list):
                    r = rec(v, h)
                    if r is not None:
                        return r
            for hd in getattr(st, "handlers", []):
                r = rec(hd.body, h | ({hd.name} if hd.name else set()))
                if r is not None:
                    return r
            have = have | surely([st])
        return None
    r = rec(fn.body, set(params_of(fn)))
    return r is not None and x in r


def t_extract_expr(fn, c):
    cands = []
    for o, f, lst, il in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, (ast.Assign, ast.Return)) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.Await)) for x in ast.walk(st.value)):
                    continue
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(st.value)):
                    continue
                cands.append(st)
    if not cands:
        return False
    st = c.rng.choice(cands)
    loc = locals_of(fn)
    ins = sorted((names_loaded(st.value) & loc) - comp_locals(st.value))
    if names_loaded(st.value) & comp_locals(st.value) & (loc - comp_locals(st.value)):
        return False
    nm = c.fresh("_expr")
    fd = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), [ast.Return(st.value)], [], None, None)
    c.newfuncs.append(fd)
    st.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
    return True


def t_items(fn, c):
    done = False
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" \
                and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
            base = n.iter.func.value
            if any(isinstance(x, ast.Call) for x in ast.walk(base)):
                continue
            k = n.target.elts[0].id
            v = n.target.elts[1]
            n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(base), ast.Name(k, ast.Load()), ast.Load())))
            n.target = ast.Name(k, ast.Store())
            n.iter = base
            done = True
    return done


def t_aug(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and not isinstance(st.op, (ast.BitOr,)):
                lst[i] = ast.Assign([ast.Name(st.target.id, ast.Store())], ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value))
                done = True
    return done


def t_ternary_to_if(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        new = []
        for st in lst:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp) and len(st.targets) == 1:
                e = st.value
                new.append(ast.If(e.test, [ast.Assign(st.targets, e.body)], [ast.Assign(copy.deepcopy(st.targets), e.orelse)]))
                done = True
            elif isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
                e = st.value
                new.append(ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)]))
                done = True
            else:
                new.append(st)
        lst[:] = new
    return done


def t_if_to_ternary(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If) and len(st.body) == 1 and len(st.orelse) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(st.orelse[0], ast.Assign) \
                    and len(st.body[0].targets) == 1 and ast.dump(st.body[0].targets[0]) == ast.dump(st.orelse[0].targets[0]):
                lst[i] = ast.Assign(st.body[0].targets, ast.IfExp(st.test, st.body[0].value, st.orelse[0].value))
                done = True
            elif isinstance(st, ast.If) and len(st.body) == 1 and len(st.orelse) == 1 and isinstance(st.body[0], ast.Return) and isinstance(st.orelse[0], ast.Return) \
                    and st.body[0].value is not None and st.orelse[0].value is not None:
                lst[i] = ast.Return(ast.IfExp(st.test, st.body[0].value, st.orelse[0].value))
                done = True
    return done


def t_continue(fn, c):
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
            done = True
    return done


def t_noop(fn, c):
    for o, f, lst, il in bodies(fn):
        k = 1 if lst and is_doc(lst[0]) else 0
        pos = c.rng.randint(k, len(lst))
        if pos == len(lst) and lst and isinstance(lst[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            pos = len(lst) - 1
        lst.insert(max(pos, k), c.rng.choice([ast.Pass(), ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)),
                                               ast.Assert(ast.Constant(True), None)]))
    return True


class _Np(ast.NodeTransformer):
    def __init__(self, rng):
        self.done, self.rng = False, rng

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
            if f.attr == "sqrt" and len(n.args) == 1:
                self.done = True
                return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
            if f.attr == "transpose" and len(n.args) == 1 and n.keywords and isinstance(n.keywords[0].value, ast.Tuple):
                self.done = True
                return ast.Call(ast.Attribute(n.args[0], "transpose", ast.Load()), n.keywords[0].value.elts, [])
            if f.attr == "expand_dims" and len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and [getattr(x, 'value', None) for x in n.args[1].elts] == [1, 2]:
                self.done = True
                return ast.Subscript(n.args[0], ast.Tuple([ast.Slice(), ast.Constant(None), ast.Constant(None)], ast.Load()), ast.Load())
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult):
            self.done = True
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), self.rng.choice(["matmul", "dot"]), ast.Load()), [n.left, n.right], [])
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and not any(isinstance(x, ast.Call) for x in ast.walk(n.left)):
            self.done = True
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Mult) and self.rng.random() < .5:
            self.done = True
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Div) and self.rng.random() < .4 and not isinstance(n.right, (ast.Constant, ast.JoinedStr)) and not isinstance(n.left, ast.JoinedStr) and _numeric(n):
            self.done = True
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n


def _numeric(n):
    def leaf(x):
        if isinstance(x, ast.BinOp):
            return leaf(x.left) or leaf(x.right)
        if isinstance(x, ast.Constant):
            return isinstance(x.value, (int, float))
        if isinstance(x, ast.Call):
            return isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np"
        return False
    return leaf(n)


def t_numpy(fn, c):
    t = _Np(c.rng)
    for i, st in enumerate(fn.body):
        fn.body[i] = t.visit(st)
    return t.done


class _Cmp(ast.NodeTransformer):
    def __init__(self, rng):
        self.done, self.rng = False, rng
    FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    NG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FL and self.rng.random() < .5:
            self.done = True
            return ast.Compare(n.comparators[0], [self.FL[type(n.ops[0])]()], [n.left])
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        self.done = True
        if self.rng.random() < .6:
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        return n


def t_bool(fn, c):
    done = False
    t = _Cmp(c.rng)
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            n.test = t.visit(n.test)
    return t.done


def t_swap(fn, c):
    """Swap adjacent independent simple assignments without calls to unknown code."""
    done = False

    def pure(v):
        for x in ast.walk(v):
            if isinstance(x, ast.Call):
                f = x.func
                if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np",)) and not (isinstance(f, ast.Name) and f.id in ("len", "set", "list", "dict", "Path", "str", "int", "float")):
                    return False
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                return False
        return True
    for o, f, lst, il in bodies(fn):
        i = 0
        while i + 1 < len(lst):
            a, b = lst[i], lst[i + 1]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == len(b.targets) == 1 and pure(a.value) and pure(b.value):
                ta, tb = a.targets[0], b.targets[0]
                sa, sb = names_stored(a), names_stored(b)
                ok = True
                for x in (ta, tb):
                    if not (isinstance(x, ast.Name) or (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self")):
                        ok = False
                if ok:
                    if sa & names_loaded(b) or sb & names_loaded(a) or sa & sb:
                        ok = False
                    at = {x.attr for x in (ta, tb) if isinstance(x, ast.Attribute)}
                    for s in (a.value, b.value):
                        if at and any(isinstance(x, ast.Attribute) for x in ast.walk(s)):
                            if any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(s)):
                                ok = False
                    if isinstance(ta, ast.Attribute) and isinstance(tb, ast.Attribute) and ta.attr == tb.attr:
                        ok = False
                if ok:
                    lst[i], lst[i + 1] = b, a
                    done = True
                    i += 1
            i += 1
    return done


def t_unpack(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        new = []
        for st in lst:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Call) and \
                    all(isinstance(e, ast.Name) for e in st.targets[0].elts):
                v = c.fresh("pair")
                new.append(ast.Assign([ast.Name(v, ast.Store())], st.value))
                for k, e in enumerate(st.targets[0].elts):
                    new.append(ast.Assign([e], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(k), ast.Load())))
                done = True
            elif isinstance(st, ast.For) and isinstance(st.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in st.target.elts):
                v = c.fresh("item")
                st.body.insert(0, ast.Assign([st.target], ast.Name(v, ast.Load())))
                st.target = ast.Name(v, ast.Store())
                new.append(st)
                done = True
            else:
                new.append(st)
        lst[:] = new
    return done


def t_const(fn, c):
    """Hoist a literal to a module constant."""
    cands = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.JoinedStr, ast.FormattedValue)):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
    for d in fn.args.defaults + fn.args.kw_defaults + fn.decorator_list + [a.annotation for a in fn.args.args] + [fn.returns]:
        if d is not None:
            for x in ast.walk(d):
                skip.add(id(x))
    for n in ast.walk(fn):
        for fname, v in ast.iter_fields(n):
            if isinstance(v, ast.Constant) and id(v) not in skip and isinstance(v.value, (str, float, int)) and not isinstance(v.value, bool) and isinstance(n, (ast.BinOp, ast.keyword, ast.Assign, ast.Subscript, ast.Call)):
                if fname in ("annotation",):
                    continue
                cands.append((n, fname, v))
            elif isinstance(v, list) and isinstance(n, (ast.Call, ast.List, ast.Tuple, ast.Compare)):
                for k, x in enumerate(v):
                    if isinstance(x, ast.Constant) and id(x) not in skip and isinstance(x.value, (str, float, int)) and not isinstance(x.value, bool):
                        cands.append((v, k, x))
    if not cands:
        return False
    for (n, fname, v) in c.rng.sample(cands, min(len(cands), 3)):
        nm = c.fresh("_CONST")
        c.newfuncs.insert(0, ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(v.value)))
        if isinstance(n, list):
            n[fname] = ast.Name(nm, ast.Load())
        else:
            setattr(n, fname, ast.Name(nm, ast.Load()))
    return True


def t_alias(fn, c):
    """x = self.attr ; use x (only attributes never stored in the function, and no calls on self)."""
    if "self" not in params_of(fn):
        return False
    stored = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
    uses = {}
    callf = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
    calls_self = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(fn))
    if calls_self or any(isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == "self" for a in n.args) for n in ast.walk(fn)):
        return False
    for n in ast.walk(fn):
        for fname, v in ast.iter_fields(n):
            for k, x in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and x.attr not in stored and id(x) not in callf:
                    uses.setdefault(x.attr, []).append((n, fname, k if isinstance(v, list) else None))
    c1 = [a for a in uses if len(uses[a]) >= 2]
    if not c1:
        return False
    a = c.rng.choice(c1)
    first = 1 if is_doc(fn.body[0]) else 0
    # evaluating the attribute early must be safe: require that it is used in the first statement
    if not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr == a for x in ast.walk(fn.body[first])):
        return False
    v = c.fresh("alias")
    for n, fname, k in uses[a]:
        nm = ast.Name(v, ast.Load())
        if k is None:
            setattr(n, fname, nm)
        else:
            getattr(n, fname)[k] = nm
    fn.body.insert(first, ast.Assign([ast.Name(v, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())))
    return True


def t_enumerate(fn, c):
    """for x in xs -> for _i, x in enumerate(xs)."""
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
            n.target = ast.Tuple([ast.Name("_i", ast.Store()), n.target], ast.Store())
            done = True
    return done


def t_demorgan_while(fn, c):
    return False


def t_with_split(fn, c):
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.With) and len(n.items) > 1:
            n.body = [ast.With(n.items[1:], n.body)]
            n.items = n.items[:1]
            done = True
    return done


def t_kw_order(fn, c):
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            if not any(isinstance(x, ast.Call) for k in n.keywords for x in ast.walk(k.value)):
                n.keywords.reverse()
                done = True
    return done


def t_list_build(fn, c):
    """return [a, b] literals built through append."""
    done = False
    for o, f, lst, il in bodies(fn):
        new = []
        for st in lst:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.List) and 0 < len(st.value.elts) <= 12 and isinstance(st.targets[0], ast.Name) and \
                    not any(isinstance(e, ast.Starred) for e in st.value.elts) and st.targets[0].id not in names_loaded(st.value):
                nm = st.targets[0].id
                new.append(ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())))
                for e in st.value.elts:
                    new.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [e], [])))
                done = True
            elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict) and st.value.keys and all(k is not None for k in st.value.keys) and isinstance(st.targets[0], ast.Name) \
                    and st.targets[0].id not in names_loaded(st.value):
                nm = st.targets[0].id
                new.append(ast.Assign([ast.Name(nm, ast.Store())], ast.Dict([], [])))
                for k, v in zip(st.value.keys, st.value.values):
                    new.append(ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), k, ast.Store())], v))
                done = True
            else:
                new.append(st)
        lst[:] = new
    return done


def t_update_loop(fn, c):
    done = False
    for o, f, lst, il in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "update" and len(st.value.args) == 1 \
                    and not st.value.keywords and isinstance(st.value.args[0], (ast.Name, ast.Attribute)) and isinstance(st.value.func.value, (ast.Name, ast.Attribute)):
                k, v = c.fresh("k"), c.fresh("v")
                lst[i] = ast.For(ast.Tuple([ast.Name(k, ast.Store()), ast.Name(v, ast.Store())], ast.Store()),
                                 ast.Call(ast.Attribute(st.value.args[0], "items", ast.Load()), [], []),
                                 [ast.Assign([ast.Subscript(st.value.func.value, ast.Name(k, ast.Load()), ast.Store())], ast.Name(v, ast.Load()))], [])
                done = True
    return done


def t_log(fn, c):
    k = 1 if is_doc(fn.body[0]) else 0
    has = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "logger" for t in n.targets) for n in c.mod.body)
    if not has:
        return False
    fn.body.insert(k, ast.parse("logger.debug('entering %s')" % fn.name).body[0])
    return True


TRANSFORMS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def apply(src, qual_in_mod, names, seed):
    """Return new source or None. qual_in_mod: 'Class.meth' or 'func'."""
    tree = ast.parse(src)
    rng = random.Random(seed)
    cls, fn = None, None
    parts = qual_in_mod.split(".")
    setter = parts[-1].endswith("@setter")
    parts[-1] = parts[-1].replace("@setter", "")
    for st in tree.body:
        if len(parts) == 2 and isinstance(st, ast.ClassDef) and st.name == parts[0]:
            cls = st
            for s2 in st.body:
                if isinstance(s2, ast.FunctionDef) and s2.name == parts[1]:
                    is_set = any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s2.decorator_list)
                    if is_set == setter:
                        fn = s2
        elif len(parts) == 1 and isinstance(st, ast.FunctionDef) and st.name == parts[0]:
            fn = st
    if fn is None:
        return None, []
    c = Ctx(rng, tree, cls)
    done = []
    for nm in names:
        before = ast.dump(fn)
        try:
            ok = TRANSFORMS[nm](fn, c)
        except Exception as e:
            raise
        if ok:
            done.append(nm)
        ast.fix_missing_locations(tree)
        # re-parse so that node identity is clean
        if ok:
            pass
    if not done:
        return None, []
    if c.newmethods and cls is not None:
        cls.body.extend(c.newmethods)
    if c.newfuncs:
        # after imports
        k = 0
        for i, st in enumerate(tree.body):
            if isinstance(st, (ast.Import, ast.ImportFrom)) or is_doc(st):
                k = i + 1
        consts = [f for f in c.newfuncs if isinstance(f, ast.Assign)]
        fns = [f for f in c.newfuncs if not isinstance(f, ast.Assign)]
        tree.body[k:k] = consts
        tree.body.extend(fns)
    ast.fix_missing_locations(tree)
    try:
        out = ast.unparse(tree)
        ast.parse(out)
    except Exception:
        return None, []
    return out, done


# ------------------------------------------------------------------ mutations
def mutants(src, qual_in_mod, rng=None, limit=None):
    """Yield (description, new source)."""
    tree0 = ast.parse(src)
    parts = qual_in_mod.replace("@setter", "").split(".")
    setter = qual_in_mod.endswith("@setter")

    def find(tree):
        for st in tree.body:
            if len(parts) == 2 and isinstance(st, ast.ClassDef) and st.name == parts[0]:
                for s2 in st.body:
                    if isinstance(s2, ast.FunctionDef) and s2.name == parts[1]:
                        is_set = any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s2.decorator_list)
                        if is_set == setter:
                            return s2
            elif len(parts) == 1 and isinstance(st, ast.FunctionDef) and st.name == parts[0]:
                return st
    fn0 = find(tree0)
    if fn0 is None:
        return
    nodes0 = list(ast.walk(fn0))
    skip = set()
    for n in nodes0:
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("logger", "warnings", "logging")))):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                if x is not n:
                    skip.add(id(x))
    for d in fn0.decorator_list + [a.annotation for a in fn0.args.args] + [fn0.returns]:
        if d is not None:
            for x in ast.walk(d):
                skip.add(id(x))
    jobs = []
    for idx, n in enumerate(nodes0):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult, ast.BitOr: ast.BitAnd}
            if type(n.op) in sw and not isinstance(n.left, ast.JoinedStr):
                jobs.append((idx, "binop", sw[type(n.op)]))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow, ast.MatMult)):
                jobs.append((idx, "swapops", None))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            jobs.append((idx, "cmp", sw[type(n.ops[0])]))
        elif isinstance(n, ast.BoolOp):
            jobs.append((idx, "boolop", None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            jobs.append((idx, "dropunary", None))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (type(None), type(Ellipsis))):
            jobs.append((idx, "const", None))
        elif isinstance(n, ast.If):
            jobs.append((idx, "iftrue", None))
            if n.orelse:
                jobs.append((idx, "iffalse", None))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                jobs.append((idx, "swapargs", None))
            for k in range(len(n.keywords)):
                jobs.append((idx, "dropkw", k))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            pass
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.With, ast.While, ast.Try)):
            for f in ("body", "orelse", "finalbody"):
                v = getattr(n, f, [])
                for k, s in enumerate(v):
                    if id(s) in skip or isinstance(s, (ast.Pass, ast.FunctionDef, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(s, ast.Return) and k == len(v) - 1 and isinstance(n, ast.FunctionDef):
                        continue
                    jobs.append((idx, "delstmt:" + f, k))
    if limit and len(jobs) > limit and rng:
        jobs = rng.sample(jobs, limit)
    for idx, kind, arg in jobs:
        tree = ast.parse(src)
        fn = find(tree)
        n = list(ast.walk(fn))[idx]
        desc = "%s:%s %s" % (getattr(n, "lineno", "?"), kind, ast.unparse(n)[:90].replace("\n", " ") if not kind.startswith("delstmt") else "")
        try:
            if kind == "binop":
                n.op = arg()
            elif kind == "swapops":
                n.left, n.right = n.right, n.left
            elif kind == "cmp":
                n.ops = [arg()]
            elif kind == "boolop":
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            elif kind == "dropunary":
                rep = n.operand
                for m in ast.walk(fn):
                    for f, v in ast.iter_fields(m):
                        if v is n:
                            setattr(m, f, rep)
                        elif isinstance(v, list):
                            for q, x in enumerate(v):
                                if x is n:
                                    v[q] = rep
            elif kind == "const":
                v = n.value
                if isinstance(v, bool):
                    n.value = not v
                elif isinstance(v, (int, float)):
                    n.value = v + 1
                elif isinstance(v, str):
                    n.value = v + "X"
                else:
                    continue
            elif kind == "iftrue":
                n.test = ast.Constant(True)
            elif kind == "iffalse":
                n.test = ast.Constant(False)
            elif kind == "swapargs":
                n.args[0], n.args[1] = n.args[1], n.args[0]
            elif kind == "dropkw":
                del n.keywords[arg]
            elif kind.startswith("delstmt:"):
                lst = getattr(n, kind.split(":")[1])
                desc += ast.unparse(lst[arg])[:90].replace("\n", " ")
                lst[arg] = ast.Pass()
            ast.fix_missing_locations(tree)
            out = ast.unparse(tree)
        except Exception:
            continue
        yield desc, out
