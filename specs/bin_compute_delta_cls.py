"""Reference definitions for bin.compute_delta_cls."""
from bin.compute_delta_cls import main
from bin.compute_delta_cls import program_options
from pathlib import Path
from seyfert.main.cl_core import compute_delta_cls
from seyfert.utils.general_utils import configure_logger
from seyfert.utils.workspace import WorkSpace
import argparse
import logging

logger = logging.getLogger()


@of("bin.compute_delta_cls.program_options")
def r_program_options():
    parser = argparse.ArgumentParser(description='Brief script to compute delta cls', formatter_class=argparse.ArgumentDefaultsHelpFormatter)
    parser.add_argument('rundir', type=Path, help='Path to the run directory')
    return parser


@of("bin.compute_delta_cls.main", ret=False)
def r_main(args):
    ws = WorkSpace(args.rundir)
    delta_cls = compute_delta_cls(ws)
    delta_cls.saveToHDF5(ws.delta_cls_file)


@of("bin.compute_delta_cls.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    configure_logger(logger)
    main(program_options().parse_args())

