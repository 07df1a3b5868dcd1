"""Run the obligations of one property, write evidence, print verdicts."""
import fnmatch
import importlib
import json
import os
import time
from .program import AnchorLost
from .spec import load_specs, compare_spec, compare_shape, compare_consts, Result, SPECDIR
from rules.catalog import CATALOG
from .norm import Norm

KNOWN = "known_findings.txt"


class Ctx(object):
    """What a custom rule gets."""

    def __init__(self, prog, tier, N):
        self.prog, self.tier, self.N = prog, tier, N
        self.results = []
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, key, msg="", loc="", rule=""):
        self.results.append(Result(key, "ok", msg, loc, rule))

    def bad(self, key, msg, loc="", rule=""):
        self.results.append(Result(key, "violation", msg, loc, rule))

    def undecided(self, key, msg, loc="", rule=""):
        self.results.append(Result(key, "undecided", msg, loc, rule))

    def check(self, cond, key, msg, loc="", rule=""):
        (self.ok if cond else self.bad)(key, msg, loc, rule)
        return cond


def known_findings(here):
    out = []
    p = os.path.join(here, KNOWN)
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<key> <text>
                parts = line[len("finding:"):].strip().split(None, 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                out.append((d["property"], d["key"], parts[2] if len(parts) > 2 else ""))
    return out


def load_rule(prop):
    """Extra rules of the property (rules/<id>.py), if any."""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rules", prop.lower() + ".py")
    if os.path.exists(p):
        return importlib.import_module("rules." + prop.lower())
    return None


def selection(spec):
    """'file:glob,glob; file2' -> [(file, [globs])]"""
    out = []
    for part in spec.split(";"):
        part = part.strip()
        if not part:
            continue
        f, _, g = part.partition(":")
        f = f.strip()
        globs = [x.strip() for x in g.split(",") if x.strip()] or ["*"]
        f = f[:-3] if f.endswith(".py") else f
        files = sorted(x[:-3] for x in os.listdir(SPECDIR) if x.endswith(".py") and fnmatch.fnmatchcase(x[:-3], f))
        if not files:
            raise AnchorLost("no reference file %s" % f)
        for x in files:
            out.append((x + ".py", globs))
    return out


def inmod(sp):
    """Name of the target inside its module."""
    parts = sp.target.split(".")
    for i, x in enumerate(parts):
        if x[:1].isupper():
            return ".".join(parts[i:])
    return parts[-1]


def all_specs(prog):
    for g in sorted(os.listdir(SPECDIR)):
        if g.endswith(".py"):
            for s in load_specs(prog, g):
                yield s


def chosen(prog, prop):
    """Reference functions, class shapes and constants of a property, each once."""
    fns, shapes, consts, seen = [], [], [], set()
    for f, globs in selection(CATALOG[prop]["spec"]):
        sf = load_specs(prog, f)
        hit = False
        cl = set()
        for sp in sf:
            n = inmod(sp)
            if any(fnmatch.fnmatchcase(n, g) for g in globs):
                hit = True
                cl.add(sp.target.rsplit(".", 1)[0])
                k = (f, sp.name, sp.target)
                if k not in seen:
                    seen.add(k)
                    fns.append(sp)
        for sh in sf.shapes:
            if (sh.target in cl or globs == ["*"]) and sh not in shapes:
                shapes.append(sh)
        for c in sf.consts:
            if c not in consts:
                consts.append(c)
        if not hit and not sf.consts:
            raise AnchorLost("selection %s:%s matches no reference" % (f, globs))
    return fns, shapes, consts


def collect(prog, prop, tier):
    mod = load_rule(prop)
    N = Norm()
    ctx = Ctx(prog, tier, N)
    fns, shapes, consts = chosen(prog, prop)
    for sp in fns:
        if sp.opts.get("tier") == "thorough" and tier != "thorough":
            continue
        rs = compare_spec(prog, sp, N)
        ctx.results.extend(rs)
        ctx.count("functions_compared")
        ctx.count("value_graph_events", getattr(rs[0], "n_events", 0))
    for sh in shapes:
        ctx.results.extend(compare_shape(prog, sh, N, lambda: all_specs(prog)))
        ctx.count("class_shapes")
    for c in consts:
        ctx.results.extend(compare_consts(prog, c, N))
        ctx.count("constant_tables")
    for rule in getattr(mod, "RULES", []):
        n0 = len(ctx.results)
        rule(ctx)
        ctx.count("rules_run")
        if len(ctx.results) == n0:
            raise AnchorLost("rule %s examined nothing" % rule.__name__)
    return mod, ctx


def run(prog, prop, tier, t0, here, verbose=False, evidence=True):
    mod, ctx = collect(prog, prop, tier)
    res = ctx.results
    floor = getattr(mod, "FLOOR", 1)
    if len(res) < floor:
        raise AnchorLost("only %d obligations examined, at least %d expected" % (len(res), floor))
    known = [(k, t) for p, k, t in known_findings(here) if p == prop]
    viol, kn, und = [], [], []
    for r in res:
        if r.status == "violation":
            m = [t for k, t in known if k == r.key]
            if m:
                kn.append((r, m[0]))
            else:
                viol.append(r)
        elif r.status == "undecided":
            und.append(r)
    seen = set()
    for r, t in kn:
        if r.key in seen:
            continue
        seen.add(r.key)
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, r.key, t))
    n_ok = sum(1 for r in res if r.status == "ok")
    if verbose:
        for r in res:
            if r.status != "ok" or verbose > 1:
                print("  [%s] %s %s %s" % (r.status, r.key, r.loc, r.msg[:700]))
    for r in und:
        print("UNDECIDED property=%s %s (%s): %s" % (prop, r.key, r.loc, r.msg[:300]))
    extra = {}
    if tier == "thorough":
        from . import sensitivity
        extra = sensitivity.measure(prog, prop, mod, ctx)
    cov = {
        "explanation": RULE + (" " + mod.__doc__.strip() if mod and mod.__doc__ else ""),
        "obligations": len(res), "discharged": n_ok, "undecided": [("%s: %s" % (r.key, r.msg))[:300] for r in und],
        "known_findings": sorted(seen),
        "modules_parsed": len(prog.modules), "functions_parsed": len(prog.funcs), "source_digest": prog.digest(),
        "samples": [{"obligation": r.key, "at": r.loc, "slot": r.rule, "status": r.status} for r in res[:400]],
    }
    cov.update(ctx.counts)
    cov.update(extra)
    if evidence:
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
              "assumptions": getattr(mod, "ASSUMES", ASSUMES), "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
        with open(os.path.join(here, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    for r in viol:
        print("%s: %s" % (r.loc, r.msg[:900]))
        print("VIOLATION property=%s replay=%s" % (prop, "%s@%s" % (r.key.replace(" ", "_"), r.loc)))
    print("%s: %d obligations, %d hold, %d undecided, %d known findings, %d violations (%.1fs)" % (
        prop, len(res), n_ok, len(und), len(seen), len(viol), time.time() - t0))
    return 1 if viol else 0


RULE = ("Every selected function of the current source is turned into a gated value graph (returned value, object state left behind, "
        "externally visible effects with the conditions under which they happen, raise conditions, parameter defaults) and compared, modulo the laws in "
        "sa/simp.py and sa/norm.py and by case analysis on guards, with the graph of its reference definition in specs/; class shapes (bases, fields, class "
        "attributes, special methods) and module constants are compared likewise.")

ASSUMES = [
    "numpy/pandas/h5py/astropy/stdlib calls are uninterpreted apart from the algebraic laws in sa/simp.py and sa/norm.py",
    "arithmetic is over the exact reals (floating-point rounding is not modelled)",
    "no monkey patching: attribute and method resolution follows the class hierarchy in the source",
]
