"""Reference definitions for bin.report_batch_jobs."""
from bin.report_batch_jobs import main
from bin.report_batch_jobs import program_options
from pathlib import Path
from seyfert.utils.general_utils import configure_logger
import argparse
import logging
import re



@of("bin.report_batch_jobs.program_options")
def r_program_options():
    parser = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter)
    parser.add_argument('--workdir', '-wd', type=Path, required=False, default=Path('.'), help='Working directory')
    parser.add_argument('--pattern', '-pt', type=str, required=False, default='run_*/batch_logs/out/out*.out', help='Pattern for matching files')
    return parser


@of("bin.report_batch_jobs.main", ret=False)
def r_main(args_dict):
    logger = logging.getLogger()
    configure_logger(logger)
    for key, value in args_dict.items():
        pass
    workdir = args_dict['workdir']
    files = list(workdir.glob(args_dict['pattern']))
    success_regex = re.compile('^Successfully completed\\.$', re.MULTILINE)
    matches = []
    for f in files:
        match = success_regex.search(f.read_text())
        if not match:
            pass
        matches.append(match)
    if all(matches):
        pass


@of("bin.report_batch_jobs.__main__", ret=False)
def r_main():
    main(vars(program_options().parse_args()))

