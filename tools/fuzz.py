#!/usr/bin/env python3
"""fuzz.py refactor|mutate PROP [--n N] [--fn substring] [--seed S] : test the checks themselves.

refactor: behaviour-preserving edits of the functions a property's references target; every check must stay quiet.
mutate:   behaviour-changing edits; lists those no check reports (survivors).
"""
import argparse
import os
import random
import sys
import warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
import transforms as tf                          # noqa: E402
from sa.program import Program, AnchorLost       # noqa: E402
from sa import report                            # noqa: E402
from sa.spec import load_specs                   # noqa: E402


def targets(prog, prop):
    mod = report.load_rule(prop)
    out = []
    for f in getattr(mod, "SPECS", []):
        for sp in load_specs(prog, f):
            t = prog.funcs.get(sp.target) or prog.func(sp.target)
            out.append(t)
    for q in getattr(mod, "TARGETS", []):
        if q.endswith("*"):
            out += [f for k, f in prog.funcs.items() if k.startswith(q[:-1]) and not k.startswith("specs.")]
        else:
            out.append(prog.funcs.get(q) or prog.func(q))
    seen, res = set(), []
    for t in out:
        if id(t) not in seen:
            seen.add(id(t))
            res.append(t)
    return res


def in_mod(f):
    q = f.qual[len(f.module.name) + 1:]
    return q + ("@setter" if f.is_setter else "")


def verdict(over, prop):
    try:
        prog = Program(overrides=over)
        mod, ctx = report.collect(prog, prop, "quick")
        known = [k for p, k, t in report.known_findings(os.path.dirname(HERE)) if p == prop]
        v = [r for r in ctx.results if r.status == "violation" and r.key not in known]
        u = [r for r in ctx.results if r.status == "undecided"]
        return v, u, None
    except AnchorLost as e:
        return [], [], "ANCHOR " + str(e)
    except Exception as e:
        import traceback
        return [], [], "ERR " + traceback.format_exc()[-400:]


def job_ref(a):
    prop, rel, src, q, names, seed = a
    try:
        new, done = tf.apply(src, q, names, seed)
    except Exception as e:
        return (a, None, "TRANSFORM-ERR %r" % e, None)
    if new is None:
        return (a, None, None, None)
    v, u, err = verdict({rel: new}, prop)
    return (a, done, (v and [(r.key, r.msg[:600]) for r in v]) or err, [(r.key, r.msg[:200]) for r in u])


def job_mut(a):
    prop, rel, desc, new, q = a
    v, u, err = verdict({rel: new}, prop)
    return (a, bool(v), err, [(r.key, r.msg[:100]) for r in u])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("prop")
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--fn", default="")
    ap.add_argument("--t", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    from multiprocessing import Pool
    prog = Program()
    ts = [t for t in targets(prog, a.prop) if a.fn in t.qual]
    if a.mode == "refactor":
        jobs = []
        names = a.t.split(",") if a.t else list(tf.TRANSFORMS)
        for t in ts:
            for nm in names:
                reps = 3 if nm.startswith("extract") else 1
                for s in range(reps):
                    jobs.append((a.prop, t.module.rel, t.module.src, in_mod(t), [nm], a.seed * 100 + s))
            for s in range(a.n or 2):
                rng = random.Random(a.seed * 7919 + s)
                jobs.append((a.prop, t.module.rel, t.module.src, in_mod(t), rng.sample(names, min(6, len(names))), a.seed * 100 + s))
        applied = bad = und = 0
        with Pool(a.jobs) as p:
            for job, done, msg, u in p.imap_unordered(job_ref, jobs, chunksize=2):
                if done is None and msg is None:
                    continue
                applied += 1
                if msg:
                    bad += 1
                    print("ALARM %s %s seed=%s: %s" % (job[3], ",".join(done or job[4]), job[5], msg if isinstance(msg, str) else "\n      ".join("%s: %s" % m for m in msg[:2])))
                    if a.show:
                        new, _ = tf.apply(job[2], job[3], job[4], job[5])
                        import difflib
                        import ast
                        old = ast.unparse(ast.parse(job[2]))
                        print("\n".join(list(difflib.unified_diff(old.splitlines(), new.splitlines(), lineterm="", n=1))[:60]))
                elif u:
                    und += 1
                    print("undecided %s %s: %s" % (job[3], done, u[:1]))
        print("refactor %s: %d variants applied, %d alarms, %d undecided" % (a.prop, applied, bad, und))
    else:
        jobs = []
        rng = random.Random(a.seed)
        for t in ts:
            for desc, new in tf.mutants(t.module.src, in_mod(t), rng, a.n or None):
                jobs.append((a.prop, t.module.rel, desc, new, in_mod(t)))
        kill = tot = 0
        with Pool(a.jobs) as p:
            for job, killed, err, u in p.imap_unordered(job_mut, jobs, chunksize=4):
                tot += 1
                kill += killed
                if not killed:
                    print("SURVIVOR %s %s %s %s" % (job[4], job[2], "ERR " + err if err else "", u[:1]))
        print("mutate %s: %d/%d killed" % (a.prop, kill, tot))


if __name__ == "__main__":
    main()
