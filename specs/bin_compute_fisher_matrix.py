"""Reference definitions for bin.compute_fisher_matrix."""
from bin.compute_fisher_matrix import main
from bin.compute_fisher_matrix import program_options
from pathlib import Path
from seyfert.config import cmd_line
from seyfert.main import fisher_core
from seyfert.utils.workspace import WorkSpace
import argparse
import logging
import seyfert.utils.general_utils as gu
import time

logger = logging.getLogger()


@of("bin.compute_fisher_matrix.program_options")
def r_program_options():
    general_opts = cmd_line.main_program_options()
    parser = argparse.ArgumentParser(parents=[general_opts], description='Script for computing fisher matrices')
    parser.add_argument('fisher_data_vectors', nargs='+', help='Data-vectors for which to compute Fisher, in the brief string form. For example: wlwl_phph_wlph for WL+GCph+XC(WL,GCph).')
    parser.add_argument('--shot_noise_file', '-sn', type=Path, required=False, default=None, help='Path to the shot noise HDF5 file. If not passed it will be taken from forecast config. If also here it is not specified, the code will simply default to the already computed delta cls.')
    parser.add_argument('--outdir', '-o', type=Path, required=False, default=None, help='Path to the output directory. Default is <rundir>/base_fishers')
    return parser


@of("bin.compute_fisher_matrix.main", ret=False)
def r_main(args_dict):
    t0 = time.time()
    cli_args = cmd_line.FisherCLIArgs(args_dict)
    rundir = cli_args.rundir
    shot_noise_file = cli_args.shot_noise_file
    outdir = cli_args.outdir
    brief_str_data_vectors = cli_args.fisher_data_vectors
    gu.configure_logger(logger, cli_args.logfile)
    ws = WorkSpace(rundir)
    phys_pars = ws.getParamsCollection()
    if outdir is None:
        outdir = ws.base_fishers_dir
    outdir.mkdir(exist_ok=True)
    delta_cls, dcoll_dvar_dict = fisher_core.prepare_inputs(ws, shot_noise_file=shot_noise_file)
    fisher_core.compute_and_save_fishers(brief_str_data_vectors, outdir, ws, phys_pars, delta_cls, dcoll_dvar_dict)
    tf = time.time()


@of("bin.compute_fisher_matrix.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    arguments_dict = vars(program_options().parse_args())
    for key, value in arguments_dict.items():
        pass
    main(arguments_dict)

