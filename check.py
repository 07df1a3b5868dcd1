#!/usr/bin/env python3
"""Driver: python3 check.py <PROPERTY-ID> [--tier quick|thorough]

exit 0: every obligation of the property holds (or is a listed known finding)
exit 1: VIOLATION line(s) printed
exit 2: the analysis is broken (an anchor vanished, a floor on what must be analysed was missed)
"""
import argparse
import importlib
import json
import os
import resource
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

from sa.program import Program, AnchorLost     # noqa: E402
from sa import report, spec                          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    if a.self_test:
        from sa import selftest
        sys.exit(selftest.main(HERE))
    spec.LIMIT[1] = time.monotonic() + 600
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        prog = Program()
        rc = report.run(prog, a.prop, tier, t0, HERE, verbose=a.verbose, evidence=not a.no_evidence)
    except AnchorLost as e:
        print("ANALYSIS-BROKEN property=%s anchor lost: %s" % (a.prop, e))
        rc = 2
    except SyntaxError as e:
        print("ANALYSIS-BROKEN property=%s the source does not parse: %s" % (a.prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % a.prop)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
