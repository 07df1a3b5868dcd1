"""Reference definitions for bin.run_integ_test."""
from bin.run_integ_test import do_integration_run
from bin.run_integ_test import main
from bin.run_integ_test import program_options
from pathlib import Path
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import formatters as fm
from seyfert.utils import general_utils as gu
import argparse
import datetime
import logging
import os
import re
import subprocess

logger = logging.getLogger()


@of("bin.run_integ_test.program_options")
def r_program_options():
    parser = argparse.ArgumentParser()
    parser.add_argument('--execution', '-ex', required=True)
    parser.add_argument('--config_dir', '-cfg', type=Path, required=True, help='Path to configuration directory')
    parser.add_argument('--version1', '-v1', default='develop')
    parser.add_argument('--version2', '-v2', default='develop')
    parser.add_argument('--workdir', type=Path, default=Path('.'))
    return parser


@of("bin.run_integ_test.do_integration_run", ret=False)
def r_do_integration_run(version, exec_mode, config_dir):
    begin_dir = os.getcwd()
    input_data_dir = fsu.default_seyfert_input_data_dir()
    seyf_path = Path(os.getenv('SEYFERT_PATH'))
    os.chdir(seyf_path)
    proc = subprocess.run('git branch', stdout=subprocess.PIPE, shell=True)
    cur_branch = re.search('\\* ([a-z]+)', proc.stdout.decode('utf-8')).groups()[0]
    subprocess.run(f'git checkout {version} && python3 setup.py develop', shell=True)
    os.chdir(begin_dir)
    cfg_params = {Path(fname).stem: config_dir / fname for fname in ['fcfg.xml', 'pmm_cfg.json', 'cl_cfg.json', 'der_cfg.json', 'fish_cfg.json', 'res_cfg.json']}
    cfg_files_str = f' '.join([f'-{key} {value}' for key, value in cfg_params.items()])
    seyf_cmd = f'job_submitter -id seyfert_run_integration -i {input_data_dir} -pmm -cl -der -fish -ex {exec_mode} {cfg_files_str}'
    subprocess.run(seyf_cmd, shell=True)
    subprocess.run(f'cd {seyf_path} && git checkout {cur_branch} && cd -', shell=True)


@of("bin.run_integ_test.main", ret=False)
def r_main(args):
    cwd0 = Path(os.getcwd())
    now = fm.datetime_str_format(datetime.datetime.now(), hour_sep='-')
    v1, v2 = (args.version1, args.version2)
    exec_mode = args.execution
    cfg_dir = args.config_dir.absolute()
    workdir = (args.workdir / f'integration_test_{args.version1}_vs_{args.version2}_{now}').absolute()
    workdir.mkdir(exist_ok=True)
    os.chdir(workdir)
    gu.configure_logger(logger, 'logfile.log')
    do_integration_run(version=v1, exec_mode=exec_mode, config_dir=cfg_dir)
    do_integration_run(version=v2, exec_mode=exec_mode, config_dir=cfg_dir)
    rundirs = list(workdir.glob('seyfert_run_integration*'))
    if len(rundirs) != 2:
        raise Exception()
    proc = subprocess.run(f'compare_runs {rundirs[0]} {rundirs[1]} -o {workdir}', shell=True, stdout=subprocess.PIPE)
    os.chdir(cwd0)


@of("bin.run_integ_test.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    arguments = program_options().parse_args()
    main(arguments)

