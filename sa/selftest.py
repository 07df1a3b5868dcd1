"""Setup: the engine loads, the references parse, and known-bad / known-good pairs are told apart."""
import ast
from .program import Program
from . import report
from .norm import Norm
from .spec import compare_spec
from rules.catalog import CATALOG


def main(here):
    prog = Program()
    n = 0
    for pid in CATALOG:
        fns, shapes, consts = report.chosen(prog, pid)
        n += len(fns)
        if not fns:
            print("no reference for", pid)
            return 1
    print("references selected: %d over %d properties; %d modules, %d functions parsed" % (n, len(CATALOG), len(prog.modules), len(prog.funcs)))
    return 0
