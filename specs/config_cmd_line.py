"""Reference definitions for seyfert.config.cmd_line."""
from argparse import Namespace
from pathlib import Path
from seyfert.base_structs.generic_dict import DictLike
from seyfert.config.cmd_line import ClCLIArgs
from seyfert.config.cmd_line import ClDerivativeCLIArgs
from seyfert.config.cmd_line import GenericCommandLineArgs
from seyfert.config.cmd_line import JobSubmitterCommandLineArgs
from seyfert.config.cmd_line import MainProgramCommandLineArgs
from seyfert.config.cmd_line import batch_options
from seyfert.utils import filesystem_utils as fsu
import argparse
import json
import logging
import re

logger = logging.getLogger(__name__)


@shape("seyfert.config.cmd_line.GenericCommandLineArgs")
class s_GenericCommandLineArgs(DictLike):
    pass


@shape("seyfert.config.cmd_line.JobSubmitterCommandLineArgs")
class s_JobSubmitterCommandLineArgs(GenericCommandLineArgs):
    pass


@shape("seyfert.config.cmd_line.MainProgramCommandLineArgs")
class s_MainProgramCommandLineArgs(GenericCommandLineArgs):
    pass


@shape("seyfert.config.cmd_line.ClCLIArgs")
class s_ClCLIArgs(MainProgramCommandLineArgs):
    pass


@shape("seyfert.config.cmd_line.ClDerivativeCLIArgs")
class s_ClDerivativeCLIArgs(MainProgramCommandLineArgs):
    pass


@shape("seyfert.config.cmd_line.FisherCLIArgs")
class s_FisherCLIArgs(MainProgramCommandLineArgs):
    pass


@of("seyfert.config.cmd_line.GenericCommandLineArgs.__init__", ret=False)
def r_GenericCommandLineArgs_init(self):
    super(GenericCommandLineArgs, self).__init__()


@of("seyfert.config.cmd_line.GenericCommandLineArgs.readArgs", ret=False)
def r_GenericCommandLineArgs_readArgs(self, args):
    if isinstance(args, dict):
        self.update(args)
    elif isinstance(args, Namespace):
        self.update(vars(args))
    else:
        raise TypeError()
    self.castArgTypes()


@of("seyfert.config.cmd_line.GenericCommandLineArgs.castArgTypes", ret=False)
def r_GenericCommandLineArgs_castArgTypes(self):
    pass


@of("seyfert.config.cmd_line.JobSubmitterCommandLineArgs.__init__", ret=False)
def r_JobSubmitterCommandLineArgs_init(self, args=None):
    super(JobSubmitterCommandLineArgs, self).__init__()
    self.run_id = None
    self.forecast_config = None
    self.powerspectrum_config = None
    self.angular_config = None
    self.derivative_config = None
    self.fisher_config = None
    self.input_data_dir = None
    self.powerspectrum_dir = None
    self.angular_dir = None
    self.derivative_dir = None
    self.fisher_dir = None
    self.execution = None
    self.queue = None
    self.memory = None
    self.n_cores_per_job = None
    self.verbose = None
    self.test = None
    self.doctor = None
    self.ignore_errfiles = None
    self.powerspectrum = None
    self.angular = None
    self.derivative = None
    self.fisher = None
    self.overwrite_results = None
    self.keep_cl_variations = None
    if args is not None:
        self.readArgs(args)


@of("seyfert.config.cmd_line.JobSubmitterCommandLineArgs.castArgTypes", ret=False)
def r_JobSubmitterCommandLineArgs_castArgTypes(self):
    path_like_regex = re.compile('_(config|dir)')
    for name, value in self.items():
        if path_like_regex.search(name) and value is not None:
            self[name] = Path(value)


@of("seyfert.config.cmd_line.MainProgramCommandLineArgs.__init__", ret=False)
def r_MainProgramCommandLineArgs_init(self, args=None):
    super(MainProgramCommandLineArgs, self).__init__()
    self.rundir = None
    self.workdir = None
    self.logfile = None
    self.main_config = None
    self.standalone = None
    self.forecast_config = None
    self.input_data_dir = None
    if args is not None:
        self.readArgs(args)


@of("seyfert.config.cmd_line.MainProgramCommandLineArgs.castArgTypes", ret=False)
def r_MainProgramCommandLineArgs_castArgTypes(self):
    path_like_regex = re.compile('(config|dir)$')
    for name, value in self.items():
        if path_like_regex.search(name) and value is not None:
            self[name] = Path(value)


@of("seyfert.config.cmd_line.ClCLIArgs.__init__", ret=False)
def r_ClCLIArgs_init(self, args=None):
    super(ClCLIArgs, self).__init__()
    self.power_spectrum_dir = None
    self.dvar = None
    self.step = None
    self.niz_file = None
    if args is not None:
        self.readArgs(args)


@of("seyfert.config.cmd_line.ClCLIArgs.castArgTypes", ret=False)
def r_ClCLIArgs_castArgTypes(self):
    super(ClCLIArgs, self).castArgTypes()
    if self.step is not None:
        self.step = int(self.step)


@of("seyfert.config.cmd_line.ClDerivativeCLIArgs.__init__", ret=False)
def r_ClDerivativeCLIArgs_init(self, args=None):
    super(ClDerivativeCLIArgs, self).__init__()
    self.angular_dir = None
    self.dvar = None
    if args is not None:
        self.readArgs(args)


@of("seyfert.config.cmd_line.FisherCLIArgs.__init__", ret=False)
def r_FisherCLIArgs_init(self, args=None):
    super().__init__()
    self.fisher_names = None
    self.shot_noise_file = None
    self.outdir = None
    if args is not None:
        self.readArgs(args)


@of("seyfert.config.cmd_line.main_program_options")
def r_main_program_options():
    parser = argparse.ArgumentParser(add_help=False)
    parser.add_argument('--rundir', '-rd', help='Path to the run directory')
    parser.add_argument('--workdir', '-wd', help='Path to the working directory')
    parser.add_argument('--logfile', '-lg', help='Path to the logfile')
    parser.add_argument('--forecast_config', '-fcfg', help='Path to forecast config XML (for standalone mode)')
    parser.add_argument('--input_data_dir', '-i', help='Path to input data directory (for standalone mode)')
    return parser


@of("seyfert.config.cmd_line.batch_options")
def r_batch_options():
    parser = argparse.ArgumentParser(add_help=False)
    parser.add_argument('--n_cores_per_job', '-ncj', type=int, default=1, help='OPTIONAL: number of cores per job to ask for')
    parser.add_argument('--memory', '-mem', type=int, default=2048, help='OPTIONAL: RAM memory (expressed in MB) to request for batch mode. Default is 2048 MB')
    parser.add_argument('--queue', '-q', default='long', help='OPTIONAL: Name of the queue for bsub; this option is used only when execution is "batch". Viable options are: long, medium')
    return parser


@of("seyfert.config.cmd_line.main_job_batch_options")
def r_main_job_batch_options():
    parser = argparse.ArgumentParser(add_help=False)
    parser.add_argument('--num_threads', '-nt', type=int, default=None, help='OPTIONAL: Number of threads to set to NUMEXPR_NUM_THREADS')
    return parser


@of("seyfert.config.cmd_line.main_submitter_batch_options")
def r_main_submitter_batch_options():
    parser = argparse.ArgumentParser(add_help=False, parents=[batch_options()])
    parser.add_argument('--execution', '-ex', required=True, default=None, help='REQUIRED: String to decide how to run the jobs. Viable possibilities: "no" for not executing, "interactive" to run one job after another, "batch" for batch submission')
    return parser


@of("seyfert.config.cmd_line.forecast_task_flags")
def r_forecast_task_flags():
    parser = argparse.ArgumentParser(add_help=False)
    parser.add_argument('--powerspectrum', '-pmm', nargs='?', default=False, const=True, help='OPTIONAL: Flag for computing matter power spectrum')
    parser.add_argument('--angular', '-cl', nargs='?', default=False, const=True, help='OPTIONAL: Flag for computing angular coefficients')
    parser.add_argument('--derivative', '-der', nargs='?', default=False, const=True, help='OPTIONAL: Flag for computing angular coefficients derivatives')
    parser.add_argument('--fisher', '-fish', nargs='?', default=False, const=True, help='OPTIONAL: Flag for computing fisher matrix elements')
    return parser


@of("seyfert.config.cmd_line.forecast_task_configs_options")
def r_forecast_task_configs_options():
    parser = argparse.ArgumentParser(add_help=False)
    parser.add_argument('--powerspectrum_config', '-pmm_cfg', type=Path, required=False, default=fsu.config_files_dir() / 'power_spectrum_config.json', help='OPTIONAL: Path to the json file containing the power spectrum configuration')
    parser.add_argument('--angular_config', '-cl_cfg', type=Path, required=False, default=fsu.config_files_dir() / 'angular_config.json', help='OPTIONAL: Path to the json file containing the angular coefficients configuration')
    parser.add_argument('--derivative_config', '-der_cfg', type=Path, required=False, default=fsu.config_files_dir() / 'derivative_config.json', help='OPTIONAL: Path to the json file containing the Cl derivatives configuration')
    parser.add_argument('--fisher_config', '-fish_cfg', type=Path, required=False, default=fsu.config_files_dir() / 'fisher_config.json', help='OPTIONAL: Path to the json file containing the Fisher matrix configuration')
    parser.add_argument('--results_config', '-res_cfg', type=Path, required=False, default=fsu.config_files_dir() / 'results_config.json', help='OPTIONAL: Path to the json file containing the Fisher matrix configuration')
    return parser


@of("seyfert.config.cmd_line.forecast_dirs_paths_options")
def r_forecast_dirs_paths_options():
    parser = argparse.ArgumentParser(add_help=False)
    parser.add_argument('--powerspectrum_dir', '-pmm_dir', type=Path, required=False, default=None, help='OPTIONAL: Path to the power spectra directory')
    parser.add_argument('--angular_dir', '-cl_dir', type=Path, required=False, default=None, help='OPTIONAL: Path to the angular coefficients directory')
    parser.add_argument('--derivative_dir', '-der_dir', type=Path, required=False, default=None, help='OPTIONAL: Path to the angular coefficients derivatives directory')
    parser.add_argument('--fisher_dir', '-fish_elems_dir', type=Path, required=False, default=None, help='OPTIONAL: Path to the fisher matrix elements directory')
    return parser


@of("seyfert.config.cmd_line.get_paths_from_files_list")
def r_get_paths_from_files_list(paths_list):
    resulting_paths = []
    if all((Path(path).suffix == '.txt' for path in paths_list)):
        for file in paths_list:
            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines()])
    else:
        resulting_paths = [Path(path) for path in paths_list]
    return resulting_paths


@of("seyfert.config.cmd_line.read_json_txt_list_file")
def r_read_json_txt_list_file(filepath):
    filepath = Path(filepath)
    extension = filepath.suffix
    if extension == '.json':
        with filepath.open() as jsf:
            result = json.load(jsf)
    elif extension in {'.txt', '.dat'}:
        result = [line.strip() for line in filepath.read_text().splitlines()]
    else:
        raise Exception()
    return result

