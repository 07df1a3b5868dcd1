"""Comparison normal form.

Terms are rewritten to a normal form in which

* + - * / ** and unary minus are rational functions over atoms (associativity,
  commutativity, distributivity, division and constant powers normalised;
  elementwise array arithmetic obeys the same laws),
* matrix products are flattened, transposes pushed inwards, scalars pulled out,
* contexts and boolean formulas are sorted,
* containers filled under provably different keys are unordered.

Two terms with the same normal form denote the same value (over exact reals).
"""
from fractions import Fraction
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, kids, walk, subst
from . import simp


class Ring(object):
    LIM = 400

    def __init__(self):
        self.memo = {}

    # polynomial: dict{ monomial(tuple of (atom,exp) sorted by uid) : Fraction }
    @staticmethod
    def padd(p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mmul(m, n):
        d = dict(m)
        for a, e in n:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return tuple(sorted(d.items(), key=lambda x: x[0].uid))

    def pmul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def ppow(self, p, e):
        """p ** e, e Fraction."""
        if e == 0:
            return {(): Fraction(1)}
        if e == 1:
            return p
        if len(p) == 1:
            (m, c), = p.items()
            mm = tuple((a, x * e) for a, x in m)
            if e.denominator == 1:
                return {mm: c ** int(e)}
            if c == 1:
                return {mm: Fraction(1)}
            if c > 0:
                # keep rational root of a constant as an atom, with perfect powers extracted
                import math
                n, d = c.numerator, c.denominator
                if e.denominator == 2:
                    rn, rd = math.isqrt(n), math.isqrt(d)
                    if rn * rn == n and rd * rd == d:
                        return {mm: Fraction(rn, rd) ** int(e * 2)}
                atom = mk("numroot", str(c))
                return {self.mmul(mm, ((atom, e),)): Fraction(1)}
            return {((self.atom_of(p), e),): Fraction(1)}
        if e.denominator == 1 and 2 <= e <= 4 and len(p) <= 6:
            r = p
            for _ in range(int(e) - 1):
                r = self.pmul(r, p)
            return r
        # content: factor out leading coefficient and common monomial
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(common):
                if a in d and (d[a] > 0) == (common[a] > 0):
                    common[a] = min(common[a], d[a], key=abs)
                else:
                    del common[a]
        cm = tuple(sorted(common.items(), key=lambda x: x[0].uid))
        inv = tuple((a, -x) for a, x in cm)
        q = {self.mmul(m, inv): c for m, c in p.items()}
        lead = q[max(q, key=lambda m: tuple((a.uid, x) for a, x in m))]
        if e.denominator != 1:
            lead = abs(lead)
        q = {m: c / lead for m, c in q.items()}
        for n in (2, 3, 4) if e < 0 else ():
            w = self.proot(q, n)
            if w is not None:
                z = self.ppow(w, e * n)
                return self.pmul(self.pmul(self.ppow({cm: Fraction(1)}, e) if cm else {(): Fraction(1)}, self.ppow({(): Fraction(lead)}, e)), z)
        at = self.atom_of(q)
        base = self.ppow({cm: Fraction(1)}, e) if cm else {(): Fraction(1)}
        cst = self.ppow({(): Fraction(lead)}, e)
        if at.op == "poly":
            r = {((at, e),): Fraction(1)}
        else:
            r = self.ppow(self.to_poly(at), e)
        return self.pmul(self.pmul(base, cst), r)

    def proot(self, p, n):
        """q with q ** n == p, or None."""
        if len(p) < n + 1 or len(p) > 30:
            return None
        rank = {}
        for m in p:
            for a, _ in m:
                rank.setdefault(a, len(rank))
        for a in list(rank):
            rank[a] = 0
        for i, a in enumerate(sorted(rank, key=lambda x: x.uid)):
            rank[a] = i

        def key(m):
            v = [Fraction(0)] * len(rank)
            for a, x in m:
                v[rank[a]] = x
            return tuple(v)
        lm = max(p, key=key)
        c = p[lm]
        r = round(abs(float(c)) ** (1.0 / n))
        if c <= 0 or Fraction(r) ** n != c:
            return None
        q = {tuple((a, x / n) for a, x in lm): Fraction(r)}
        lead = (tuple((a, x * (n - 1) / n) for a, x in lm), n * Fraction(r) ** (n - 1))
        inv = tuple((a, -x) for a, x in lead[0])
        for _ in range(8):
            z = q
            for _ in range(n - 1):
                z = self.pmul(z, q)
            d = self.padd(p, z, -1)
            if not d:
                return q
            m = max(d, key=key)
            t = self.mmul(m, inv)
            if any(x.denominator != 1 for _, x in t) or t in q:
                return None
            q = self.padd(q, {t: d[m] / lead[1]})
        return None

    def atom_of(self, p):
        """Canonical term of a polynomial."""
        if not p:
            return const(0)
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return self.num(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        items = sorted(p.items(), key=lambda mc: tuple((a.uid, x) for a, x in mc[0]))
        return mk("poly", tuple(mk("mono", str(c), tuple(mk("pw", a, str(x)) for a, x in m)) for m, c in items))

    @staticmethod
    def num(c):
        return const(int(c)) if c.denominator == 1 else mk("rat", str(c))

    def to_poly(self, t):
        if t.op == "poly":
            return {tuple((f.a[0], Fraction(f.a[1])) for f in m.a[1]): Fraction(m.a[0]) for m in t.a[0]}
        if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            v = t.a[0]
            if v != v or v in (float("inf"), float("-inf")):
                return {((t, Fraction(1)),): Fraction(1)}
            fr = Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
            return {(): fr} if fr else {}
        if t.op == "rat":
            return {(): Fraction(t.a[0])}
        return {((t, Fraction(1)),): Fraction(1)}

    def arith(self, op, a, b=None):
        pa = self.to_poly(a)
        pb = self.to_poly(b) if b is not None else None
        if op == "+":
            r = self.padd(pa, pb)
        elif op == "-":
            r = self.padd(pa, pb, -1)
        elif op == "neg":
            r = {m: -c for m, c in pa.items()}
        elif op == "*":
            if len(pa) * len(pb) > self.LIM:
                return None
            r = self.pmul(pa, pb)
        elif op == "/":
            if not pb:
                return None
            i = self.ppow(pb, Fraction(-1))
            if len(pa) * len(i) > self.LIM:
                return None
            r = self.pmul(pa, i)
        elif op == "**":
            if b.op == "poly" or not (len(pb) == 0 or (len(pb) == 1 and () in pb)):
                # symbolic exponent: x**(-e) and x**e share the atom
                return None
            e = pb.get((), Fraction(0))
            r = self.ppow(pa, e)
        else:
            return None
        return self.atom_of(r)


def nonnum(t):
    """Certainly not a number/array (string, list, path, dict, tuple)."""
    return t.op in ("str", "path", "list", "listc", "tuple", "dict", "dictc", "set", "setc", "split") or \
        (t.op == "const" and (isinstance(t.a[0], (str, bytes)) or t.a[0] is None))


def nonempty(t):
    """Certainly a non-empty container."""
    if t.op in ("list", "dict", "set", "tuple"):
        return bool(t.a) and not any(x.op == "star" for x in t.a)
    if t.op in ("listc", "dictc", "setc"):
        for e in t.a:
            if e.op != "ent":
                continue
            if isinstance(e.a[1], T) and (e.a[1].op == "kind" or (e.a[1].op == "k" and e.a[1].a[0] != "set") or (t.op == "listc" and e.a[1] is not NONE)):
                continue
            if all(x.op == "for" and nonempty(x.a[0]) for x in e.a[0].a):
                return True
    return False


class Norm(object):
    def __init__(self):
        self.r = Ring()
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        m = self.memo.get(t.uid)
        if m is not None:
            return m
        if t.op == "bin" and t.a[0] in ("/", "**"):
            u = self.unfactor(t)
            if u is not t:
                z = self.memo[t.uid] = self(u)
                return z
        na = tuple(self(x) for x in t.a)
        z = self.local(t.op, na)
        self.memo[t.uid] = z
        return z

    @staticmethod
    def unfactor(t):
        """a / (x * y) -> a / x / y,  a / x ** n -> a * x ** -n,  (x * y) ** e -> x ** e * y ** e (e < 0 or fractional): factors stay factors."""
        o, a, b = t.a
        if o == "/" and b.op == "bin":
            if b.a[0] == "*":
                return mk("bin", "/", mk("bin", "/", a, b.a[1]), b.a[2])
            if b.a[0] == "/":
                return mk("bin", "*", mk("bin", "/", a, b.a[1]), b.a[2])
            if b.a[0] == "**" and simp.num(b.a[2]):
                return mk("bin", "*", a, mk("bin", "**", b.a[1], const(-b.a[2].a[0])))
        if o == "**" and simp.num(b) and a.op == "bin" and a.a[0] in ("*", "/") and (b.a[0] < 0 or b.a[0] != int(b.a[0])):
            return mk("bin", a.a[0], mk("bin", "**", a.a[1], b), mk("bin", "**", a.a[2], b))
        if o == "**" and simp.num(b) and a.op == "bin" and a.a[0] == "**" and simp.num(a.a[2]) and isinstance(b.a[0], int) and b.a[0] < 0:
            return mk("bin", "**", a.a[1], const(a.a[2].a[0] * b.a[0]))
        return t

    def local(self, op, na):
        r = self.r
        if op in ("and", "or", "not", "when"):
            na = tuple(simp.holds(x) for x in na)
        elif op == "phi":
            na = (simp.holds(na[0]),) + na[1:]
            c = na[0].a[0] if na[0].op == "not" else na[0]
            if c.op == "exists" and len(c.a[0]) == 1 and c.a[0][0].op == "loop":
                # where no iteration satisfies c, nothing is collected from those that do
                i = 1 if c is not na[0] else 2
                cx = self(mk("ctx", mk("for", *c.a[0][0].a), mk("when", c.a[1])))
                fs = {x: x.a[1] for x in walk(na[i]) if x.op == "fold" and x.a[2] is cx}
                if fs:
                    na = tuple(self(subst(x, fs)) if j == i else x for j, x in enumerate(na))
        elif op == "bool":
            na = (simp.holds(na[0]),)
            if simp.is_bool(na[0]):
                return na[0]
        elif op == "exists":
            na = (na[0], simp.holds(na[1]))
            c = na[1]
            if c is TRUE and len(na[0]) == 1 and na[0][0].op == "loop":
                return simp.holds(simp.truth(na[0][0].a[0]))
            if len(na[0]) == 1 and na[0][0].op == "loop" and c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in ("startswith", "endswith") and not c.a[2]:
                # does it start with one of these
                e = mk("elem", *na[0][0].a)
                if c.a[1] == (e,) and not any(x is e for x in walk(c.a[0])):
                    x = e.a[0]
                    return mk("call", c.a[0], (x if x.op == "call" and x.a[0] is mk("ext", "builtins.tuple") else mk("call", mk("ext", "builtins.tuple"), (x,), ()),), ())
        elif op == "cmp" and na[0] == "in" and na[2].op in ("listc", "setc") and len(na[2].a) == 1 and na[2].a[0].op == "ent" and na[2].a[0].a[1] is NONE:
            # x in [f(y) for y in Y if c]  is  any(c and f(y) == x for y in Y)
            cx, v = na[2].a[0].a[0].a, na[2].a[0].a[2]
            fors = [c for c in cx if c.op == "for"]
            if fors and all(c.op in ("for", "when") for c in cx) and all(len(f.a) == 2 for f in fors):
                es = {mk(o, *f.a) for f in fors for o in ("elem", "pos")}
                if not any(x in es for x in walk(na[1])):
                    return self(simp.mk_exists(tuple(mk("loop", *f.a) for f in fors), simp.c_and([c.a[0] for c in cx if c.op == "when"] + [simp.mk_cmp("==", v, na[1])])))
        if op == "bin":
            o, a, b = na
            if o == "-" and b.op == "setc" and len(b.a) == 1 and is_const(b.a[0].a[1], "update"):
                # a set that was filled from one other, if at all
                cx = b.a[0].a[0].a
                if not cx:
                    return self(mk("bin", "-", a, b.a[0].a[2]))
                if all(x.op == "when" for x in cx):
                    return self(simp.mk_phi(simp.c_and([x.a[0] for x in cx]), mk("bin", "-", a, b.a[0].a[2]), a))
            if o == "-" and b.op == "set" and not b.a:
                return a
            if o in ("+", "-", "*", "/", "**") and not nonnum(a) and not nonnum(b):
                z = r.arith(o, a, b)
                if z is not None:
                    return z
                return mk("bin", o, a, b)
            if o == "@":
                return self.matmul(a, b)
            if o == "|":
                # unions: in any order and grouping, each operand once
                fl = []

                def operands(x):
                    if x.op == "bin" and x.a[0] == "|":
                        operands(x.a[1])
                        operands(x.a[2])
                    elif x not in fl:
                        fl.append(x)
                operands(a)
                operands(b)
                if not any(x.op in ("dict", "dictc") for x in fl):
                    fl.sort(key=lambda x: x.uid)
                    z = fl[0]
                    for x in fl[1:]:
                        z = simp.rebuild("bin", ("|", z, x))
                    return z
            return simp.rebuild("bin", na)
        if op == "neg":
            z = r.arith("neg", na[0])
            return z if z is not None else mk("neg", na[0])
        if op == "T":
            return self.transpose(na[0])
        if op == "call" and na[0].op == "ext" and na[0].a[0] in ("numpy.abs", "builtins.abs"):
            a = na[1][0] if na[1] else (na[2][0][1] if na[2] else None)
            if a is not None:
                p = r.to_poly(a)
                if p and len(p) > 0:
                    # |x| = |-x|; pull out constants
                    ms = sorted(p, key=lambda m: tuple((x.uid, e) for x, e in m))
                    lead = p[ms[-1]]
                    q = {m: c / lead for m, c in p.items()}
                    z = mk("abs", r.atom_of(q)) if any(q) else const(1)
                    return r.arith("*", r.num(abs(lead)), z)
            return mk("abs", a)
        if op == "bcast":
            # new axes: numerical factors and powers are taken before or after
            def new_axes(p):
                z = {}
                for m, c in p.items():
                    if m:
                        e = m[0][1]
                        q = r.ppow({m: Fraction(1)}, 1 / e)
                        if len(q) == 1:
                            q = r.to_poly(r.atom_of(q))
                        q = new_axes(q) if len(q) > 1 else {((mk("bcast", r.atom_of(q), *na[1:]), Fraction(1)),): Fraction(1)}
                        z = r.padd(z, r.pmul({(): c}, r.ppow(q, e)))
                    else:
                        z = r.padd(z, {m: c})
                return z
            p = r.to_poly(na[0])
            if p and () not in p or len(p) > 1:
                return r.atom_of(new_axes(p))
        if op == "cmp" and na[0] in ("<", "<=") and not nonnum(na[1]) and not nonnum(na[2]):
            return self.ineq(na[0], na[1], na[2])
        if op == "cmp" and na[0] == "==" and not nonnum(na[1]) and not nonnum(na[2]):
            a, b = na[1], na[2]
            if a.op == "poly" or b.op == "poly":
                z = r.arith("-", a, b)
                if is_const(z):
                    return TRUE if z.a[0] == 0 else FALSE
        if op == "dictc":
            na = self.live(na)
            if all(x.op == "ent" and x.a[0].op == "ctx" and not x.a[0].a and isinstance(x.a[1], T) and x.a[1].op not in ("kind", "k") for x in na):
                d = {}
                for x in na:
                    d.pop(x.a[1], None)
                    d[x.a[1]] = x.a[2]
                ks = list(d)
                if not all(simp.apart(x, y) for i, x in enumerate(ks) for y in ks[:i]):
                    return mk("dictc", *self.unorder(na))
                return mk("dict", *sorted([mk("kv", k, v) for k, v in d.items()], key=lambda x: x.a[0].uid))
            return mk("dictc", *self.unorder(na))
        if op == "setc":
            return mk("setc", *sorted(self.live(na), key=lambda x: x.uid))
        if op == "call" and na[0].op == "ext" and na[0].a[0] == "builtins.set" and len(na[1]) == 1 and not na[2] and na[1][0].op in ("listc", "list"):
            x = na[1][0]
            if x.op == "list" and not any(y.op == "star" for y in x.a):
                return self(mk("set", *x.a))
            if x.op == "listc" and all(y.op == "ent" and (y.a[1] is NONE or is_const(y.a[1], "extend")) for y in x.a):
                return self(mk("setc", *[mk("ent", y.a[0], const("add" if y.a[1] is NONE else "update"), y.a[2]) for y in x.a]))
        if op == "call" and na[0].op == "ext" and na[0].a[0] == "builtins.set" and len(na[1]) == 1 and not na[2] and na[1][0].op in ("dictc", "dict"):
            x = na[1][0]
            if x.op == "dict" and all(y.op == "kv" for y in x.a):
                return self(mk("set", *[y.a[0] for y in x.a]))
            if x.op == "dictc" and all(y.op == "ent" and isinstance(y.a[1], T) and y.a[1].op not in ("kind", "k") for y in x.a):
                return self(mk("setc", *[mk("ent", y.a[0], const("add"), y.a[1]) for y in x.a]))
        if op == "call" and na[0].op == "attr" and na[0].a[1] == "issubset" and na[0].a[0].op == "set" and len(na[1]) == 1:
            z = simp.mk_method(na[0].a[0], "issubset", list(na[1]), list(na[2]))
            if z is not None and z.op != "call":
                return z
        if op == "call" and na[0].op == "ext" and na[0].a[0] == "builtins.tuple" and len(na[1]) == 1 and not na[2] and na[1][0].op in ("listc", "list"):
            x = na[1][0]
            if x.op == "list":
                return self(mk("tuple", *x.a))
            if all(y.op == "ent" and not y.a[0].a and (y.a[1] is NONE or is_const(y.a[1], "extend")) for y in x.a):
                return self(mk("tuple", *[y.a[2] if y.a[1] is NONE else mk("star", y.a[2]) for y in x.a]))
        if op == "listc":
            na = self.live(na)
            if all(x.op == "ent" and not x.a[0].a and x.a[1] is NONE for x in na):
                return mk("list", *[x.a[2] for x in na])
            if len(na) == 1 and na[0].op == "ent" and na[0].a[1] is NONE:
                # filled in the iteration which leaves the loop: at most one item, the one of the first iteration for which c holds
                cx = na[0].a[0].a
                fors = [c for c in cx if c.op == "for"]
                cs = [y for c in cx if c.op == "when" for y in (c.a[0].a if c.a[0].op == "and" else (c.a[0],))]
                pr = [y for y in cs if y.op == "noprior"]
                if fors and len(fors) + sum(c.op == "when" for c in cx) == len(cx) and len(pr) == 1 and pr[0].a[0].a == tuple(mk("elem", f.a[0], f.a[1]) for f in fors):
                    here = {mk(o, f.a[0], f.a[1] + 100): mk(o, f.a[0], f.a[1]) for f in fors for o in ("elem", "pos")}
                    c = simp.c_and([y for y in cs if y is not pr[0]])
                    if subst(pr[0].a[1], here) is c:
                        return simp.mk_phi(simp.mk_exists(tuple(mk("loop", *f.a) for f in fors), c), mk("list", na[0].a[2]), mk("list"))
            return mk("listc", *na)
        if op == "filled":
            es = self.live(na[1])
            if not es:
                return na[0]
            c = na[0]
            names = [e for e in es if isinstance(e.a[1], T) and e.a[1].op == "path_" and e.a[1].a[0].op == "sym" and (e.a[1].a[1] == "name" or is_const(e.a[1].a[1], "name"))]
            if len(names) == 1 and not names[0].a[0].a and simp.tabular(c):
                # the name of a table is set apart from its entries
                rest = [e for e in es if e is not names[0]]
                if rest:
                    return self(mk("filled", self.local("filled", (c, tuple(rest))), (names[0],)))
                if c.op == "filled":
                    inner = [e for e in c.a[1] if e.a[1] is names[0].a[1]]
                    if len(inner) == len(c.a[1]):
                        return mk("filled", c.a[0], (names[0],))
                if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "sort_index" and simp.tabular(c.a[0].a[0]):
                    return self(mk("call", mk("attr", self.local("filled", (c.a[0].a[0], (names[0],))), "sort_index"), *c.a[1:]))
                if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] == "pandas.Series" and not c.a[1]:
                    return self(mk("call", c.a[0], (), tuple(sorted([kv for kv in c.a[2] if kv[0] != "name"] + [("name", names[0].a[2])], key=lambda kv: kv[0]))))
            if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] == "pandas.Series" and not c.a[1] and len(c.a[2]) == 1 and c.a[2][0][0] == "data" and \
                    c.a[2][0][1].op in ("dictc", "dict") and all(isinstance(e.a[1], T) and e.a[1].op != "kind" for e in es):
                # entries set on a series made from a dictionary
                def label(k):
                    if k.op != "path_":
                        return k
                    o = k.a[0]
                    return k.a[1] if o.op == "attr" and o.a[1] in ("loc", "at") and o.a[0].op == "sym" and isinstance(k.a[1], T) else None
                ks = [label(e.a[1]) for e in es]
                if None not in ks:
                    d = c.a[2][0][1]
                    d = list(d.a) if d.op == "dictc" else [mk("ent", mk("ctx"), x.a[0], x.a[1]) for x in d.a]
                    d = self.local("dictc", d + [mk("ent", e.a[0], k, e.a[2]) for k, e in zip(ks, es)])
                    return mk("call", c.a[0], (), (("data", d),))
            return mk("filled", na[0], tuple(self.unorder(es)))
        if op == "fold" and isinstance(na[2], T) and self.dead(na[2]):
            return na[1]
        if op == "fold" and na[0] in ("+", const("+")) and (na[1].op == "str" or na[1].op == "const" and isinstance(na[1].a[0], str)) and not any(
                x.op == "while" for x in na[2].a):
            # s0 + "".join(f(x) for x in X)
            return self(simp.mk_str([na[1], mk("call", mk("attr", const(""), "join"), (mk("listc", mk("ent", na[2], NONE, na[3])),), ())]))
        if op == "ctx":
            return self.ctxterm(na)
        if op == "attr" and na[1] == "size" and simp.one_d(na[0]):
            return mk("len", na[0])
        if op == "idx" and na[1].op == "slice" and is_const(na[1].a[0], 0) and is_const(na[1].a[2], None) and not (na[0].op == "attr" and na[0].a[1] == "loc"):
            na = (na[0], mk("slice", NONE, *na[1].a[1:]))
        if op == "idx" and na[1].op == "slice" and na[0].op == "listc" and len(na[0].a) == 1 and na[0].a[0].op == "ent" and na[0].a[0].a[1] is NONE:
            # a part of [f(x) for x in X] is made from that part of X
            cx, v = na[0].a[0].a[0].a, na[0].a[0].a[2]
            if len(cx) == 1 and cx[0].op == "for" and len(cx[0].a) == 2 and is_const(na[1].a[2], None):
                x, lv = cx[0].a
                lo, hi = na[1].a[:2]
                el, ps = mk("elem", x, lv), mk("pos", x, lv)
                n0 = hi0 = None
                if lo is NONE:
                    y = self(mk("idx", x, na[1]))
                    n0 = mk("elem", y, lv), mk("pos", y, lv)
                elif type(lo.a[0]) is int and lo.op == "const" and lo.a[0] > 0 and (hi is NONE or hi.op == "const" and type(hi.a[0]) is int and hi.a[0] < 0):
                    y = self(mk("idx", x, mk("slice", NONE, const((hi.a[0] or 0) - lo.a[0]), NONE)))
                    k = self(mk("bin", "+", mk("pos", y, lv), lo))
                    n0 = mk("idx", x, k), k
                if n0 is not None:
                    return self(mk("listc", mk("ent", mk("ctx", mk("for", y, lv)), NONE, subst(v, {el: n0[0], ps: n0[1]}))))
        if op == "idx" and is_const(na[1], 0) and na[0].op == "attr" and na[0].a[1] == "shape":
            return mk("len", na[0].a[0])
        if op in ("and", "or", "set"):
            if op == "set":
                return mk("set", *sorted(set(na), key=lambda x: x.uid))
            return simp.rebuild(op, na)
        if op in ("dict",):
            return mk("dict", *sorted(na, key=lambda x: x.a[0].uid))
        if op == "inst":
            return mk("inst", *na)
        if op == "call" and na[0].op == "attr" and na[0].a[1] == "join" and is_const(na[0].a[0]) and len(na[1]) == 1 and na[1][0].op == "listc":
            # sep.join(L + [x])  is  sep.join(L) + sep + x   for a non-empty L
            es, tail = list(na[1][0].a), []
            while len(es) > 1 and es[-1].a[1] is NONE and not es[-1].a[0].a and nonempty(mk("listc", *es[:-1])):
                tail = [na[0].a[0], es.pop().a[2]] + tail
            sep = na[0].a[0]
            if es and all(x.a[1] is NONE for x in es) and (not es[0].a[0].a or sep.a[0] == ""):
                # the first piece is always there: every other one brings its separator along
                out = []
                for i, x in enumerate(es):
                    if not x.a[0].a:
                        out += ([sep] if i else []) + [x.a[2]]
                        continue
                    piece = simp.mk_str(([sep] if i else []) + [x.a[2]])
                    if all(c.op == "when" for c in x.a[0].a):
                        out.append(simp.mk_phi(simp.c_and([c.a[0] for c in x.a[0].a]), piece, const("")))
                    elif len(es) == 1 and sep.a[0] == "":
                        out = None
                        break
                    else:
                        out.append(mk("call", *(mk("attr", const(""), "join"), (mk("listc", mk("ent", x.a[0], NONE, piece)),), ())))
                if out is not None:
                    return simp.mk_str(out + tail)
            if tail:
                return simp.mk_str([mk("call", na[0], (mk("listc", *es),), na[2])] + tail)
        if op == "fix":
            z = self.strjoin(na)
            if z is not None:
                return z
            na = self.guardedfix(na)
        try:
            return simp.rebuild(op, na)
        except Exception:
            return mk(op, *na)

    @staticmethod
    def guardedfix(na):
        """An iteration that changes nothing unless c is one over the elements for which c holds."""
        h, it, bc, body = na
        while bc is FALSE and body and all(x.op == "upd" and x.a[1].op == "phi" for x in body):
            c = body[0].a[1].a[0]
            mus = {mk("mu", h, i) for i in range(len(body))}
            if any(x.a[1].a[0] is not c for x in body) or any(x in mus for x in walk(c)):
                break
            if all(x.a[1].a[2] is mk("mu", h, i) for i, x in enumerate(body)):
                v = [x.a[1].a[1] for x in body]
            elif all(x.a[1].a[1] is mk("mu", h, i) for i, x in enumerate(body)):
                v, c = [x.a[1].a[2] for x in body], simp.c_not(c)
            else:
                break
            it = mk("ctx", *(tuple(it.a) + (mk("when", c),)))
            body = tuple(mk("upd", x.a[0], y, x.a[2]) for x, y in zip(body, v))
        if bc is FALSE and body and all(x.op == "upd" for x in body):
            mus = {mk("mu", h, i) for i in range(len(body))}
            split = []
            for i, x in enumerate(body):
                mu, cs, v = mk("mu", h, i), [], x.a[1]
                while v.op == "phi" and (v.a[1] is mu or v.a[2] is mu):
                    c, v = (v.a[0], v.a[1]) if v.a[2] is mu else (simp.c_not(v.a[0]), v.a[2])
                    cs += list(c.a) if c.op == "and" else [c]
                split.append((mu, cs, v))
            free = [c for c in split[0][1] if all(any(c is d for d in s[1]) for s in split[1:]) and not any(x in mus for x in walk(c))]
            if free:
                it = mk("ctx", *(tuple(it.a) + (mk("when", simp.c_and(free)),)))
                body = tuple(mk("upd", x.a[0], simp.mk_phi(simp.c_and([c for c in cs if not any(c is d for d in free)]), v, mu), x.a[2])
                             for x, (mu, cs, v) in zip(body, split))
        if bc is FALSE and len(body) == 1 and body[0].op == "upd" and body[0].a[1].op == "phi":
            # the only variable keeps its value when none of several conditions holds
            mu = mk("mu", h, 0)

            def changes(v):
                if v is mu:
                    return FALSE
                if v.op != "phi":
                    return TRUE
                return simp.mk_phi(v.a[0], changes(v.a[1]), changes(v.a[2]), boolean=True)

            def pruned(v):
                if v.op != "phi":
                    return v
                if v.a[1] is mu or v.a[2] is mu:
                    return pruned(v.a[2] if v.a[1] is mu else v.a[1])
                return simp.mk_phi(v.a[0], pruned(v.a[1]), pruned(v.a[2]))
            c = changes(body[0].a[1])
            if c is not TRUE and c is not FALSE and mu not in set(walk(c)):
                it = mk("ctx", *(tuple(it.a) + (mk("when", c),)))
                body = (mk("upd", body[0].a[0], pruned(body[0].a[1]), body[0].a[2]),)
        return (h, it, bc, body)

    @staticmethod
    def strjoin(na):
        """s = s0; for x in X: s += f(x)   is   s0 + "".join(f(x) for x in X)"""
        h, it, bc, body = na
        if bc is not FALSE or len(body) != 1 or body[0].a[2] is not NONE or any(x.op == "while" for x in it.a):
            return None
        init, v = body[0].a[0], body[0].a[1]
        mu = mk("mu", h, 0)
        extra = []
        while v.op == "phi":
            if v.a[2] is mu:
                extra.append(mk("when", v.a[0]))
                v = v.a[1]
            elif v.a[1] is mu:
                extra.append(mk("when", simp.c_not(v.a[0])))
                v = v.a[2]
            else:
                return None
        if v.op != "str" or v.a[0] is not mu:
            return None
        rest = simp.mk_str(v.a[1:])
        if any(x is mu for x in walk(rest)) or any(x is mu for x in walk(mk("p", it, *extra))):
            return None
        j = mk("call", mk("attr", const(""), "join"), (mk("listc", mk("ent", mk("ctx", *(tuple(it.a) + tuple(extra))), NONE, rest)),), ())
        return simp.mk_str([init, j])

    def ineq(self, o, a, b):
        pa, pb = self.r.to_poly(a), self.r.to_poly(b)
        d = self.r.padd(pb, pa, -1)          # 0 o d
        if not d or (len(d) == 1 and () in d):
            v = d.get((), 0)
            return TRUE if (v > 0 or (v == 0 and o == "<=")) else FALSE
        ms = sorted((m for m in d if m), key=lambda m: tuple((x.uid, e) for x, e in m))
        lead = abs(d[ms[-1]])
        d = {m: c / lead for m, c in d.items()}
        if all(c.denominator == 1 for c in d.values()) and all(x.op == "len" and e > 0 and e == int(e) for m in d for x, e in m):
            # integers: 0 <= p is 0 < p + 1, and p <= 0 is not 0 < p
            if o == "<=":
                d[()] = d.get((), 0) + 1
            neg = d[ms[-1]] < 0
            if neg:
                d = {m: -c for m, c in d.items()}
                d[()] = d.get((), 0) + 1
            if not d.get((), 1):
                del d[()]
            t = mk("cmp", "<", const(0), self.r.atom_of(d))
            return mk("not", t) if neg else t
        return mk("cmp", o, const(0), self.r.atom_of(d))

    def ctxterm(self, na):
        """Conjunction of consecutive guards is unordered."""
        out, buf = [], []

        def flush():
            if buf:
                c = simp.c_and(list(buf))
                del buf[:]
                if c is not TRUE:
                    out.append(mk("when", c))
        for x in na:
            if isinstance(x, T) and x.op == "when":
                buf.append(x.a[0])
            else:
                flush()
                out.append(x)
        flush()
        return mk("ctx", *out)

    @staticmethod
    def dead(cx):
        return simp.dead(cx)

    def live(self, ents):
        """Entries that can execute."""
        return tuple(x for x in ents if not (isinstance(x, T) and x.op == "ent" and self.dead(x.a[0])))

    def unorder(self, ents):
        """Writes that cannot touch the same cell, or never both happen, commute; all others keep their order:
        the least of the orders that are left (Foata's normal form)."""
        def key(x):
            if not (isinstance(x, T) and x.op == "ent") or not isinstance(x.a[1], T) or x.a[1].op == "kind":
                return None
            if x.a[1].op == "k":
                return x.a[1].a[1] if x.a[1].a[0] in ("set", "del") else None
            return x.a[1]

        def isset(x):
            return key(x) is not None and not (x.a[1].op == "k" and x.a[1].a[0] == "del")

        def when(x):
            return x.a[0].a if isinstance(x.a[0], T) else ()

        def commute(x, y):
            kx, ky = key(x), key(y)
            if kx is not None and ky is not None and simp.apart(kx, ky):
                return True
            if not (isinstance(x, T) and isinstance(y, T) and x.op == y.op == "ent"):
                return False
            if all(isinstance(z.a[1], T) and z.a[1].op == "kind" and z.a[1].a[0] == "cmd" for z in (x, y)):
                return True         # the order of commands is judged where they are given
            if isset(x) and isset(y) and x.a[2] is y.a[2] and not any(c.op != "when" for c in when(x) + when(y)):
                return True
            return self.disjoint([x, y])
        out = []
        for x in ents:
            if x in out and out[-1] is x:
                continue
            if isset(x):
                k = key(x)
                new = []
                for i, y in enumerate(out):
                    if isset(y) and key(y) is k and (not when(x) or when(x) is when(y) or when(x) == when(y)) and all(
                            key(z) is not None for z in out[i + 1:]):
                        continue        # overwritten: unconditionally, or by the same iteration
                    new.append(y)
                out = new
                # one value under alternative guards
                for i, y in enumerate(out):
                    if isset(y) and key(y) is k and y.a[1] is x.a[1] and y.a[2] is x.a[2] and all(c.op == "when" for c in when(x) + when(y)) and all(
                            commute(x, z) for z in out[i + 1:]):
                        c = simp.c_or([simp.c_and([c.a[0] for c in when(z)]) for z in (y, x)])
                        out[i] = mk("ent", mk("ctx") if c is TRUE else mk("ctx", mk("when", c)), x.a[1], x.a[2])
                        break
                else:
                    out.append(x)
            else:
                out.append(x)
        level = []
        for i, x in enumerate(out):
            level.append(1 + max([level[j] for j in range(i) if not commute(out[j], x)] or [0]))
        return [x for l, _, _, x in sorted((l, x.uid, i, x) for i, (l, x) in enumerate(zip(level, out)))]

    @staticmethod
    def disjoint(l):
        """Writes no two of which happen (in one iteration of the loops they share)."""
        cxs = [x.a[0].a for x in l]
        n = 0
        while all(len(c) > n and c[n] is cxs[0][n] and c[n].op == "for" for c in cxs):
            n += 1
        cs = []
        for c in cxs:
            if not all(y.op == "when" for y in c[n:]):
                return False
            cs.append(simp.c_and([y.a[0] for y in c[n:]]))
        return all(simp.c_and([a, b]) is FALSE for i, a in enumerate(cs) for b in cs[i + 1:])

    # ---- matrices
    def flat(self, t):
        return list(t.a[0]) if t.op == "matprod" else [t]

    def scal(self, t):
        """(coefficient Fraction, rest)"""
        p = self.r.to_poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if m and c != 1:
                return c, self.r.atom_of({m: Fraction(1)})
        return Fraction(1), t

    def matmul(self, a, b):
        ca, a = self.scal(a)
        cb, b = self.scal(b)
        t = mk("matprod", tuple(self.flat(a) + self.flat(b)))
        c = ca * cb
        return t if c == 1 else self.r.arith("*", self.r.num(c), t)

    def transpose(self, a):
        if a.op == "T":
            return a.a[0]
        if a.op == "matprod":
            return mk("matprod", tuple(self.transpose(x) for x in reversed(a.a[0])))
        if a.op == "inv":
            return mk("inv", self.transpose(a.a[0]))
        if a.op == "poly":
            p = self.r.to_poly(a)
            r = {}
            for m, c in p.items():
                if any(e.denominator != 1 or False for _, e in m):
                    pass
                k = tuple(sorted(((self.transpose1(x), e) for x, e in m), key=lambda z: z[0].uid))
                r[k] = r.get(k, 0) + c
            return self.r.atom_of(r)
        return self.transpose1(a)

    def transpose1(self, a):
        if a.op in ("poly", "matprod", "inv", "T"):
            return self.transpose(a)
        if a.op in ("const", "rat", "numroot"):
            return a
        return mk("T", a)


UNMODELLED = ("numpy.einsum", "numpy.tensordot", "numpy.vectorize", "numpy.apply_along_axis", "functools.", "itertools.", "operator.",
              "builtins.map", "builtins.filter", "builtins.getattr", "builtins.setattr", "builtins.exec", "builtins.eval", "builtins.next",
              "numpy.fromiter", "numpy.ix_", "numpy.nditer", "numpy.ndenumerate", "numpy.ufunc", "numpy.multiply.outer", "numpy.outer",
              "numpy.frompyfunc", "numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere", "numpy.broadcast_to", "collections.", "numpy.moveaxis",
              "numpy.linalg.solve", "numpy.block", "numpy.vstack", "numpy.hstack", "numpy.reshape", "numpy.meshgrid", "re.compile",
              "contextlib.", "builtins.vars", "builtins.globals", "builtins.iter", "builtins.locals", "copyreg.", "numpy.searchsorted", "numpy.lexsort")


def unmodelled(t, known=()):
    """Constructs in t whose meaning the engine does not model; [] when t is fully understood."""
    out = []
    for x in walk(t):
        if x.op in ("unk", "closure", "yieldval"):
            out.append("%s(%s)" % (x.op, ",".join(str(y)[:60] for y in x.a)))
        elif x.op == "ext":
            n = x.a[0]
            if any(n == u or (u.endswith(".") and n.startswith(u)) for u in UNMODELLED):
                out.append(n)
    return out


def diff(a, b, path="", out=None, limit=6):
    """Smallest differing sub-terms of two normal forms."""
    if out is None:
        out = []
    if a is b or len(out) >= limit:
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, path, out, limit)
        return out
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.a) == len(b.a) and a.op not in ("poly", "const", "sym", "and", "or", "dictc", "filled"):
        n0 = len(out)
        for x, y in zip(a.a, b.a):
            if isinstance(x, (T, tuple)) and isinstance(y, type(x)):
                diff(x, y, path, out, limit)
            elif x != y:
                out.append((a, b))
                return out
        if len(out) == n0:
            out.append((a, b))
        return out
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ("dictc", "poly", "and", "or", "filled"):
        fa = list(a.a[0]) if a.op == "poly" else list(a.a[1]) if a.op == "filled" else list(a.a)
        fb = list(b.a[0]) if b.op == "poly" else list(b.a[1]) if b.op == "filled" else list(b.a)
        ra = [x for x in fa if x not in fb]
        rb = [x for x in fb if x not in fa]
        if len(ra) == len(rb) == 1:
            return diff(ra[0], rb[0], path, out, limit)
        out.append((mk(a.op + "-", tuple(ra)), mk(b.op + "-", tuple(rb))))
        return out
    out.append((a, b))
    return out
