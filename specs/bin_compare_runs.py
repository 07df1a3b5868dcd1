"""Reference definitions for bin.compare_runs."""
from bin.compare_runs import main
from bin.compare_runs import program_options
from pathlib import Path
from seyfert.utils import run_loader
from seyfert.utils.general_utils import configure_logger
import argparse
import logging

logger = logging.getLogger()


@of("bin.compare_runs.program_options")
def r_program_options():
    parser = argparse.ArgumentParser()
    parser.add_argument('rundir1', type=Path, help='Path to the first run directory')
    parser.add_argument('rundir2', type=Path, help='Path to the second run directory')
    parser.add_argument('--outdir', '-o', type=Path, required=False, default=Path('.'), help='Path to output directory')
    return parser


@of("bin.compare_runs.main", ret=False)
def r_main(args):
    configure_logger(logger)
    rundir1 = args.rundir1
    rundir2 = args.rundir2
    out_dir = args.outdir
    rc = run_loader.RunComparison(rundir1, rundir2)
    rc.loadRunData()
    rc.evaluateMetricsAndTest()
    rc.saveComparisonData(outdir=out_dir)


@of("bin.compare_runs.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    main(program_options().parse_args())

