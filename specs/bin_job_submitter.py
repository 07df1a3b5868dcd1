"""Reference definitions for bin.job_submitter."""
from bin.job_submitter import check_options
from bin.job_submitter import main
from bin.job_submitter import program_inputs
from bin.job_submitter import program_options
from bin.job_submitter import specific_program_options
from configparser import ConfigParser
from pathlib import Path
from seyfert.config import cmd_line
from seyfert.main import task_runners
from seyfert.main.report_maker import RunReportMaker
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.formatters import datetime_str_format
import argparse
import datetime
import logging
import seyfert.utils.general_utils as gu
import shutil
import time

logger = logging.getLogger()


@of("bin.job_submitter.program_inputs")
def r_program_inputs():
    parser = argparse.ArgumentParser(parents=[cmd_line.forecast_task_configs_options(), cmd_line.forecast_dirs_paths_options()], add_help=False)
    parser.add_argument('--forecast_config', '-fcfg', required=False, default=None, help='REQUIRED: path to the file containing the forecast configuration')
    parser.add_argument('--run_id', '-id', required=False, default=None, help='OPTIONAL: ID of the run directory. If not given it will be deduced from forecast config name')
    parser.add_argument('--input_data_dir', '-i', required=False, default=fsu.default_seyfert_input_data_dir(), help='REQUIRED: path to the directory containing input data for the forecast')
    parser.add_argument('--ini_file', '-ini', type=Path, required=False, default=None, help='OPTIONAL: path to ini file')
    parser.add_argument('--rundir', '-rd', type=Path, required=False, default=None, help='OPTIONAL: Path to an existing run directory.')
    return parser


@of("bin.job_submitter.program_options")
def r_program_options():
    parser = argparse.ArgumentParser(add_help=False, parents=[cmd_line.main_submitter_batch_options(), cmd_line.forecast_task_flags()])
    parser.add_argument('--verbose', nargs='?', default=False, const=True, help='OPTIONAL: Flag for being verbose')
    parser.add_argument('--test', '-t', nargs='?', default=False, const=True, help='OPTIONAL: Flag for testing mode')
    parser.add_argument('--keep_cl_variations', nargs='?', default=False, const=True, help='OPTIONAL: Flag for keeping varied cls for all cosmologies after the run.')
    parser.add_argument('--overwrite_results', '-ow', nargs='?', default=False, const=True, help='OPTIONAL: Flag for overwriting results: fisher matrices and errors')
    return parser


@of("bin.job_submitter.specific_program_options")
def r_specific_program_options():
    parser = argparse.ArgumentParser(description='Job submitter', parents=[program_inputs(), program_options()], formatter_class=argparse.ArgumentDefaultsHelpFormatter)
    return parser


@of("bin.job_submitter.check_options", ret=False)
def r_check_options(args_dict):
    if args_dict['execution'] not in {'no', 'interactive', 'batch'}:
        raise ValueError()
    if args_dict['n_cores_per_job'] <= 0 or not isinstance(args_dict['n_cores_per_job'], int):
        raise ValueError()


@of("bin.job_submitter.main", ret=False)
def r_main(args_dict):
    t0 = time.time()
    script_name = Path(__file__).name
    start_time_str = datetime_str_format(datetime.datetime.now())
    logfile = f'logfile_{script_name}_{start_time_str}.log' if not args_dict['test'] else f'logfile_test.log'
    gu.configure_logger(logger, logfile)
    gu.print_script_login(script_name, logger)
    check_options(args_dict)
    for key, value in args_dict.items():
        pass
    execution = args_dict['execution']
    rundir = args_dict['rundir']
    if rundir is not None:
        rundir = Path(rundir).resolve()
    runner = task_runners.ForecastRunner(cmd_line_args=args_dict, rundir=rundir)
    runner.doForecast()
    rundir = runner.rundir
    if execution == 'batch':
        if runner.tasks['Fisher'].is_present and (not any([runner.tasks[name].is_present for name in runner.tasks])):
            rrm = RunReportMaker(rundir=rundir)
            rrm.buildTaskReportMakers()
            rrm.writeReportFiles()
    if runner.cl_task.is_present and (not args_dict['keep_cl_variations']):
        cl_var_dirs = runner.workspace.collectClVariationDirectories()
        for direc in cl_var_dirs.values():
            shutil.rmtree(direc)
    tf = time.time()
    gu.print_script_logout(script_name, logger)
    shutil.move(logfile, rundir / logfile)


@of("bin.job_submitter.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    main_parser = specific_program_options()
    arguments_dict = gu.convert_keyval_params_type(vars(main_parser.parse_args()))
    ini_file = arguments_dict['ini_file']
    if ini_file is not None and ini_file != 'None':
        cfg = ConfigParser()
        if not ini_file.exists():
            raise FileNotFoundError()
        cfg.read(ini_file)
        ini_kwargs = cfg['config']
        invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
        if len(invalid_keys):
            raise KeyError()
        arguments_dict.update(ini_kwargs)
    main(arguments_dict)

