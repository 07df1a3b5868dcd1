"""Reference definitions for bin.collect_results."""
from bin.collect_results import main
from bin.collect_results import program_options
from pathlib import Path
from seyfert.fisher.results_collector import ResultsCollector
from seyfert.utils import general_utils as gu
import argparse
import logging

cwd = Path().resolve()
logger = logging.getLogger()

constants("bin.collect_results", 'cwd')


@of("bin.collect_results.program_options")
def r_program_options():
    parser = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter, description='Script to collect the result of multiple runs.')
    parser.add_argument('--root_dir', type=Path, required=False, default=cwd, help='Root directory')
    parser.add_argument('--outdir', type=Path, required=False, default=cwd / 'results_collection', help='Path to base output directory')
    return parser


@of("bin.collect_results.main", ret=False)
def r_main(args):
    root_dir = args.root_dir
    outdir = args.outdir
    gu.configure_logger(logger)
    res_coll = ResultsCollector()
    res_coll.loadWorkSpaces(root_dir)
    for cosmology in ['w0_wa_CDM', 'LCDM']:
        for res_subdir_name in ['marg_before', 'marg_after', 'nuis_fixed']:
            res_coll.collectAndDumpResults(outdir=outdir, cosmology=cosmology, res_subdir_name=res_subdir_name)


@of("bin.collect_results.__main__", ret=False)
def r_main():
    cwd = Path().resolve()
    logger = logging.getLogger()
    main(program_options().parse_args())

