"""Reference definitions for bin.compute_derivatives."""
from bin.compute_derivatives import main
from bin.compute_derivatives import program_params
from pathlib import Path
from seyfert.config import cmd_line
from seyfert.config import forecast_config as fcfg
from seyfert.derivatives import cl_derivative as ders
from seyfert.utils.workspace import WorkSpace
import argparse
import logging
import seyfert.utils.general_utils as gu

logger = logging.getLogger()


@of("bin.compute_derivatives.program_params")
def r_program_params():
    general_opts = cmd_line.main_program_options()
    parser = argparse.ArgumentParser(parents=[general_opts], description='Script for computing the Cl derivatives')
    parser.add_argument('--main_config', '-mcfg', required=True, help='Path to the main config JSON file')
    parser.add_argument('--angular_dir', '-cl_dir', help='Path to power spectra directory (for standalone mode)')
    parser.add_argument('--dvar', '-dvar', type=str, help='Name of varied parameter')
    return parser


@of("bin.compute_derivatives.main", ret=False)
def r_main(args_dict):
    cli_args = cmd_line.ClDerivativeCLIArgs(args_dict)
    workdir = cli_args.workdir
    gu.configure_logger(logger, cli_args.logfile)
    if cli_args.standalone:
        needed_args = [cli_args.dvar, cli_args.angular_dir, cli_args.forecast_config]
        if any([x is None for x in needed_args]):
            raise ValueError()
        angular_dir = cli_args.angular_dir
        forecast_config = fcfg.ForecastConfig(input_file=cli_args.forecast_config, input_data_dir=cli_args.input_data_dir)
        forecast_config.loadPhysicalParametersFromJSONConfig()
        dvar = cli_args.dvar
        workspace = WorkSpace(Path(angular_dir).parent)
    else:
        rundir = cli_args.rundir
        workspace = WorkSpace(rundir)
        forecast_config = workspace.getForecastConfiguration()
        dvar = workspace.getDvarFromDerivativeDirName(workdir.name)
    dcl_coll = ders.ClDerivativeCollector(dvar=dvar, workspace=workspace)
    dcl_coll.setUp()
    dcl_coll.evaluateDerivatives()
    outfile_name = f'cl_derivatives_{dvar}_{'_'.join(forecast_config.present_probes)}.h5'
    outfile = workdir / outfile_name
    dcl_coll.writeToFile(outfile)


@of("bin.compute_derivatives.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    arguments_dict = vars(program_params().parse_args())
    main(arguments_dict)

