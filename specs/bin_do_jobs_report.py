"""Reference definitions for bin.do_jobs_report."""
from bin.do_jobs_report import main
from bin.do_jobs_report import program_options
from pathlib import Path
from seyfert.main.report_maker import RunReportMaker
import argparse



@of("bin.do_jobs_report.program_options")
def r_program_options():
    parser = argparse.ArgumentParser(description='Script to check errfiles for given rundir', formatter_class=argparse.ArgumentDefaultsHelpFormatter)
    parser.add_argument('rundir', metavar='rundir', help='The workdir to search')
    return parser


@of("bin.do_jobs_report.main", ret=False)
def r_main(args):
    rundir = Path(args.rundir).resolve()
    rrm = RunReportMaker(rundir=rundir)
    rrm.buildTaskReportMakers()
    rrm.writeReportFiles()


@of("bin.do_jobs_report.__main__", ret=False)
def r_main():
    parser = program_options()
    args = parser.parse_args()
    main(args)

