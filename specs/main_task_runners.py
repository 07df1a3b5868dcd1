"""Reference definitions for seyfert.main.task_runners."""
from abc import ABC, abstractmethod
from collections import namedtuple
from pathlib import Path
from seyfert import VERSION
from seyfert.config import forecast_config as fcfg, main_config as mcfg
from seyfert.config.cmd_line import JobSubmitterCommandLineArgs
from seyfert.cosmology.cosmology import Cosmology
from seyfert.fisher import fisher_utils
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.main import cl_core
from seyfert.main.bsub_utils import BsubInterface
from seyfert.main.task_runners import AngularTaskRunner
from seyfert.main.task_runners import DerivativeTaskRunner
from seyfert.main.task_runners import FisherTaskRunner
from seyfert.main.task_runners import JobFailError
from seyfert.main.task_runners import PowerSpectrumTaskRunner
from seyfert.main.task_runners import TaskRunner
from seyfert.utils import formatters as fm
from seyfert.utils import general_utils as gu
from seyfert.utils.workspace import WorkSpace
from typing import Dict
import datetime
import json
import logging
import os
import seyfert.utils.filesystem_utils as fsu
import shutil
import subprocess as sp
import sys
import time

logger = logging.getLogger(__name__)
this_module = sys.modules[__name__]
Task = namedtuple('Task', ['name', 'is_present', 'input_file', 'external_dir'])

constants("seyfert.main.task_runners", 'this_module', 'Task')


@shape("seyfert.main.task_runners.JobFailError")
class s_JobFailError(Exception):
    pass


@shape("seyfert.main.task_runners.TaskRunner")
class s_TaskRunner(ABC):
    rundir: 'Path'
    outdir: 'Path'
    forecast_config: 'fcfg.ForecastConfig'
    config: 'mcfg.MainConfig'
    checktime_resolution_secs: 'float'
    err_files_path: 'List[Path]'
    outfile_pattern: 'str'


@shape("seyfert.main.task_runners.PowerSpectrumTaskRunner")
class s_PowerSpectrumTaskRunner(TaskRunner):
    config: mcfg.PowerSpectrumConfig


@shape("seyfert.main.task_runners.AngularTaskRunner")
class s_AngularTaskRunner(TaskRunner):
    config: mcfg.AngularConfig


@shape("seyfert.main.task_runners.DerivativeTaskRunner")
class s_DerivativeTaskRunner(TaskRunner):
    config: mcfg.DerivativeConfig


@shape("seyfert.main.task_runners.FisherTaskRunner")
class s_FisherTaskRunner(TaskRunner):
    config: 'mcfg.FisherConfig'


@shape("seyfert.main.task_runners.ForecastRunner")
class s_ForecastRunner:
    rundir: 'Path'
    submitters_dict: 'Dict[str, TaskRunner]'
    tasks: 'Dict[str, Task]'
    forecast_config: 'fcfg.ForecastConfig'
    fisher_config: 'mcfg.FisherConfig'
    workspace: 'WorkSpace'
    args: 'JobSubmitterCommandLineArgs'


@of("seyfert.main.task_runners.TaskRunner.__init__", ret=False)
def r_TaskRunner_init(self, workspace=None, args=None, json_input=None, forecast_config=None):
    self.workspace = workspace
    self.args = args
    self.json_input = json_input
    self.kind = self.__class__.__name__
    self.forecast_config = forecast_config
    self.config = None
    self.specific_config_filename = Path(self.json_input).name
    self.shell_scripts_paths = []
    self.checktime_resolution_secs = None
    self.main_script_parameters = {}
    self.main_script_name = None
    self.err_files_paths = []
    self.out_files_paths = []
    self.resubmitted_jobs = 0
    self.outfile_pattern = None
    self.venv_path = os.getenv('VIRTUAL_ENV')
    self.bsub = BsubInterface()
    self.task_name = None


@of("seyfert.main.task_runners.TaskRunner.rundir", kind='property')
def r_TaskRunner_rundir(self):
    return self.workspace.run_dir


@of("seyfert.main.task_runners.TaskRunner.verbose", kind='property')
def r_TaskRunner_verbose(self):
    return self.args.verbose


@of("seyfert.main.task_runners.TaskRunner.outdir", kind='property')
def r_TaskRunner_outdir(self):
    return self.workspace.task_dirs[self.task_name]


@of("seyfert.main.task_runners.TaskRunner.phys_pars", kind='property')
def r_TaskRunner_phys_pars(self):
    return self.forecast_config.phys_pars


@of("seyfert.main.task_runners.TaskRunner.createJobDirStructure", ret=False)
def r_TaskRunner_createJobDirStructure(self):
    self.outdir.mkdir(exist_ok=True)


@of("seyfert.main.task_runners.TaskRunner.fillJobDir", ret=False)
def r_TaskRunner_fillJobDir(self, jobdir_path=None):
    try:
        jobdir_path = Path(jobdir_path)
    except TypeError:
        raise TypeError()
    sh_path = self.writeJobShellScript(jobdir_path=jobdir_path)
    self.shell_scripts_paths.append(sh_path)
    self.config.writeToJSON(jobdir_path / self.specific_config_filename)


@of("seyfert.main.task_runners.TaskRunner.writeJobShellScript")
def r_TaskRunner_writeJobShellScript(self, jobdir_path=None):
    jobdir_name = jobdir_path.name
    now = datetime.datetime.now().strftime('%Y-%m-%dT%H-%M-%S')
    sh_path = jobdir_path / f'job_{jobdir_name}_{now}.sh'
    self.main_script_parameters['workdir'] = jobdir_path
    self.main_script_parameters['logfile'] = f'logfile_{self.main_script_name}.log'
    self.main_script_parameters['main_config'] = self.specific_config_filename
    self.main_script_parameters['rundir'] = self.rundir
    with sh_path.open(mode='w') as sh:
        sh.write(f'#!/bin/bash\n\n')
        sh.write(f'cd {jobdir_path}\n')
        if self.venv_path is not None:
            sh.write(f'source {Path(self.venv_path) / 'bin/activate'}\n')
        run_cmd = f'{self.main_script_name}'
        for key, value in self.main_script_parameters.items():
            run_cmd += f' --{key} {value}'
        sh.write(f'{run_cmd}\n')
    sh_path.chmod(493)
    return sh_path


@of("seyfert.main.task_runners.TaskRunner.collectShellScripts", ret=False)
def r_TaskRunner_collectShellScripts(self):
    self.shell_scripts_paths = []
    self.shell_scripts_paths += list(self.outdir.glob('*/*.sh'))


@of("seyfert.main.task_runners.TaskRunner.run", ret=False)
def r_TaskRunner_run(self):
    if self.args.execution != 'no':
        t0 = time.time()
        if self.args.execution == 'batch':
            self.bsub.setOptions(queue=self.args.queue, memory_MB=self.args.memory, n_cores=self.args.n_cores_per_job)
            self.submitBatchJobs()
        elif self.args.execution == 'interactive':
            self.executeJobsInteractively()
        tf = time.time()
    else:
        pass


@of("seyfert.main.task_runners.TaskRunner.submitBatchJobs", ret=False)
def r_TaskRunner_submitBatchJobs(self):
    job_ids = []
    for sh_path in self.shell_scripts_paths:
        job_id = self.bsub.submitJob(cmd_to_execute=sh_path, logs_path=sh_path.parent, silent=True)
        job_ids.append(job_id)
    self.bsub.waitForJobsToComplete(job_ids)


@of("seyfert.main.task_runners.TaskRunner.executeCommand", ret=False, kind='static')
def r_TaskRunner_executeCommand(cmd):
    t0 = time.time()
    proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
    if proc.returncode != 0:
        raise JobFailError()
    if proc.stderr:
        pass
    if proc.stdout:
        pass
    tf = time.time()


@of("seyfert.main.task_runners.TaskRunner.executeJobsInteractively", ret=False)
def r_TaskRunner_executeJobsInteractively(self):
    for sh_idx, sh_path in enumerate(self.shell_scripts_paths):
        self.executeCommand(str(sh_path))


@of("seyfert.main.task_runners.PowerSpectrumTaskRunner.__init__", ret=False)
def r_PowerSpectrumTaskRunner_init(self, **kwargs):
    super(PowerSpectrumTaskRunner, self).__init__(**kwargs)
    self.checktime_resolution_secs = 60
    self.main_script_name = 'compute_pmm'
    self.config = mcfg.PowerSpectrumConfig(json_input=self.json_input)
    self.outfile_pattern = 'p_mm.h5'
    self.task_name = 'PowerSpectrum'


@of("seyfert.main.task_runners.PowerSpectrumTaskRunner.createJobDirStructure", ret=False)
def r_PowerSpectrumTaskRunner_createJobDirStructure(self):
    super(PowerSpectrumTaskRunner, self).createJobDirStructure()
    self.createAndFillJobDir(dvar='central', step=0)
    for par_name, par in self.phys_pars.free_cosmological_parameters.items():
        if par.derivative_method == 'SteM':
            for step in self.phys_pars.stem_steps:
                self.createAndFillJobDir(dvar=par_name, step=step)


@of("seyfert.main.task_runners.PowerSpectrumTaskRunner.createAndFillJobDir", ret=False)
def r_PowerSpectrumTaskRunner_createAndFillJobDir(self, dvar=None, step=None):
    job_dir_name = self.getJobDirName(dvar=dvar, step=step)
    job_dir_path = self.outdir / job_dir_name
    job_dir_path.mkdir(exist_ok=True)
    self.fillJobDir(jobdir_path=job_dir_path)
    camb_ref_inifile = self.config.camb_ini_path
    shutil.copy(camb_ref_inifile, job_dir_path / camb_ref_inifile.name)


@of("seyfert.main.task_runners.PowerSpectrumTaskRunner.getJobDirName")
def r_PowerSpectrumTaskRunner_getJobDirName(self, dvar=None, step=None):
    return fsu.get_cosmology_jobdir_name(dvar, step)


@of("seyfert.main.task_runners.PowerSpectrumTaskRunner.setInputDirs", ret=False)
def r_PowerSpectrumTaskRunner_setInputDirs(self, input_dirs):
    pass


@of("seyfert.main.task_runners.AngularTaskRunner.__init__", ret=False)
def r_AngularTaskRunner_init(self, **kwargs):
    super(AngularTaskRunner, self).__init__(**kwargs)
    self.main_script_name = 'compute_cls'
    self.config = mcfg.AngularConfig(json_input=self.json_input)
    self.checktime_resolution_secs = 15
    self.outfile_pattern = 'cl*.h5'
    self.task_name = 'Angular'


@of("seyfert.main.task_runners.AngularTaskRunner.createJobDirStructure", ret=False)
def r_AngularTaskRunner_createJobDirStructure(self):
    super(AngularTaskRunner, self).createJobDirStructure()
    self.createAndFillJobDir(dvar='central', step=0)
    for par_name, par in self.phys_pars.free_physical_parameters.items():
        if par.derivative_method == 'SteM':
            if self.verbose:
                pass
            for step in self.phys_pars.stem_steps:
                if self.verbose:
                    pass
                self.createAndFillJobDir(dvar=par_name, step=step)
        else:
            pass


@of("seyfert.main.task_runners.AngularTaskRunner.createAndFillJobDir", ret=False)
def r_AngularTaskRunner_createAndFillJobDir(self, dvar=None, step=None):
    job_dir_name = self.getJobDirName(dvar=dvar, step=step)
    job_dir_path = self.outdir / job_dir_name
    job_dir_path.mkdir(exist_ok=True)
    self.fillJobDir(jobdir_path=job_dir_path)


@of("seyfert.main.task_runners.AngularTaskRunner.getJobDirName")
def r_AngularTaskRunner_getJobDirName(self, dvar=None, step=None):
    return fsu.get_cosmology_jobdir_name(dvar, step)


@of("seyfert.main.task_runners.DerivativeTaskRunner.__init__", ret=False)
def r_DerivativeTaskRunner_init(self, **kwargs):
    super(DerivativeTaskRunner, self).__init__(**kwargs)
    self.main_script_name = 'compute_derivatives'
    self.config = mcfg.DerivativeConfig(json_input=self.json_input)
    self.checktime_resolution_secs = 15
    self.outfile_pattern = 'cl_derivative*.h5'
    self.task_name = 'Derivative'


@of("seyfert.main.task_runners.DerivativeTaskRunner.getJobDirName")
def r_DerivativeTaskRunner_getJobDirName(self, dvar=None):
    return fsu.get_derivative_jobdir_name_from_dvar(dvar)


@of("seyfert.main.task_runners.DerivativeTaskRunner.createJobDirStructure", ret=False)
def r_DerivativeTaskRunner_createJobDirStructure(self):
    super(DerivativeTaskRunner, self).createJobDirStructure()
    for par_name in self.phys_pars.free_physical_parameters:
        self.createAndFillJobDir(dvar=par_name)


@of("seyfert.main.task_runners.DerivativeTaskRunner.createAndFillJobDir", ret=False)
def r_DerivativeTaskRunner_createAndFillJobDir(self, dvar=None):
    jobdir_name = self.getJobDirName(dvar=dvar)
    jobdir_path = self.outdir / jobdir_name
    jobdir_path.mkdir(exist_ok=True)
    self.fillJobDir(jobdir_path=jobdir_path)


@of("seyfert.main.task_runners.FisherTaskRunner.__init__", ret=False)
def r_FisherTaskRunner_init(self, **kwargs):
    super(FisherTaskRunner, self).__init__(**kwargs)
    self.main_script_name = 'compute_fisher_matrix'
    self.config = mcfg.FisherConfig(json_input=self.json_input)
    self.checktime_resolution_secs = 60
    self.outfile_pattern = '*.csv'
    self.RAM_memory_MB = 4000
    self.n_cores_per_job = 8
    self.task_name = 'Fisher'


@of("seyfert.main.task_runners.FisherTaskRunner.getJobDirName")
def r_FisherTaskRunner_getJobDirName(self, dvar1=None, dvar2=None):
    return fsu.get_fisher_jobdir_name_from_dvar1_dvar2(dvar1, dvar2)


@of("seyfert.main.task_runners.FisherTaskRunner.createJobDirStructure", ret=False)
def r_FisherTaskRunner_createJobDirStructure(self):
    pass


@of("seyfert.main.task_runners.FisherTaskRunner.createAndFillJobDir", ret=False)
def r_FisherTaskRunner_createAndFillJobDir(self, dvar_1=None, dvar_2=None):
    pass


@of("seyfert.main.task_runners.FisherTaskRunner.loadFisherDatavectorBriefStrings", kind='static')
def r_FisherTaskRunner_loadFisherDatavectorBriefStrings():
    data_vectors = fisher_utils.load_selected_data_vectors()
    auto_dvs_brief = [v.toBriefString() for v in data_vectors[0:3]]
    cross_dvs_brief = [v.toBriefString() for v in data_vectors[3:]]
    return (auto_dvs_brief, cross_dvs_brief)


@of("seyfert.main.task_runners.FisherTaskRunner.writeFisherCommand")
def r_FisherTaskRunner_writeFisherCommand(self, datavectors_brief_strings):
    return f'{self.main_script_name} {' '.join(datavectors_brief_strings)} --rundir {self.workspace.run_dir}'


@of("seyfert.main.task_runners.FisherTaskRunner.clearOutput", ret=False)
def r_FisherTaskRunner_clearOutput(self):
    if self.args.overwrite_results:
        if self.workspace.base_fishers_dir.is_dir():
            shutil.rmtree(self.workspace.base_fishers_dir)
        if self.workspace.auto_f_ells_file.is_file():
            self.workspace.auto_f_ells_file.unlink()


@of("seyfert.main.task_runners.FisherTaskRunner.submitBatchJobs", ret=False)
def r_FisherTaskRunner_submitBatchJobs(self):
    self.clearOutput()
    if self.forecast_config.n_sp_bins > 24:
        self.RAM_memory_MB = 10000
    self.bsub.setOptions(queue=self.args.queue, memory_MB=self.RAM_memory_MB, n_cores=self.args.n_cores_per_job)
    auto_dvs_brief, cross_dvs_brief = self.loadFisherDatavectorBriefStrings()
    logs_path = self.workspace.base_fishers_dir / f'logs_run_{fm.datetime_str_format(datetime.datetime.now())}'
    logs_path.mkdir(exist_ok=True, parents=True)
    if not self.workspace.auto_f_ells_file.exists():
        auto_fish_cmd = self.writeFisherCommand(auto_dvs_brief)
        job_id = self.bsub.submitJob(cmd_to_execute=auto_fish_cmd, logs_path=logs_path, logs_start_str='auto_corrs', separate_err_out_dirs=True)
        self.bsub.waitForJobsToComplete([job_id])
    else:
        pass
    job_ids = []
    for brief_dv_str in cross_dvs_brief:
        fish_cmd = self.writeFisherCommand([brief_dv_str])
        logs_start_str = brief_dv_str
        job_id = self.bsub.submitJob(cmd_to_execute=fish_cmd, logs_path=logs_path, logs_start_str=logs_start_str, separate_err_out_dirs=True)
        job_ids.append(job_id)
        time.sleep(1.5)
    self.bsub.waitForJobsToComplete(job_ids)
    try:
        df = self.bsub.getResourceUsageTable(out_files_dir=logs_path / 'out')
        df.to_csv(logs_path / 'resources_usage.csv')
    except:
        pass


@of("seyfert.main.task_runners.FisherTaskRunner.executeJobsInteractively", ret=False)
def r_FisherTaskRunner_executeJobsInteractively(self):
    self.clearOutput()
    auto_dvs_brief, cross_dvs_brief = self.loadFisherDatavectorBriefStrings()
    auto_fish_cmd = self.writeFisherCommand(auto_dvs_brief)
    self.executeCommand(auto_fish_cmd)
    cross_fish_cmd = self.writeFisherCommand(cross_dvs_brief)
    self.executeCommand(cross_fish_cmd)


@of("seyfert.main.task_runners.ForecastRunner.__init__", ret=False)
def r_ForecastRunner_init(self, cmd_line_args=None, workdir=Path('.'), rundir=None):
    self.base_workdir = Path(workdir)
    self.args = None
    self.run_id = None
    self.rundir = Path(rundir) if rundir is not None else None
    self.workspace = None
    self.input_data_dir = None
    self.tasks = None
    self.forecast_config_file = None
    self.forecast_config = None
    self.submitters_dict = {}
    self.input_files_dict = None
    self.external_dirs = {}
    self.start_datetime = None
    self.end_datetime = None
    self.metadata = {}
    self.bsub = BsubInterface()
    if cmd_line_args is not None:
        self.readCmdLineArgs(cmd_line_args)


@of("seyfert.main.task_runners.ForecastRunner.doForecast", ret=False)
def r_ForecastRunner_doForecast(self):
    self.loadForecastConfiguration()
    if self.rundir is None:
        self.setRunID()
    self.buildTasks()
    self.prepareWorkspace()
    self.buildTaskRunners()
    self.populateInitialMetadata()
    self.writeRunMetadata()
    self.run()
    self.addTimingDataToMetadata()
    self.writeRunMetadata()


@of("seyfert.main.task_runners.ForecastRunner.cl_task", kind='property')
def r_ForecastRunner_cl_task(self):
    return self.tasks['Angular']


@of("seyfert.main.task_runners.ForecastRunner.deriv_task", kind='property')
def r_ForecastRunner_deriv_task(self):
    return self.tasks['Derivative']


@of("seyfert.main.task_runners.ForecastRunner.fisher_task", kind='property')
def r_ForecastRunner_fisher_task(self):
    return self.tasks['Fisher']


@of("seyfert.main.task_runners.ForecastRunner.readCmdLineArgs", ret=False)
def r_ForecastRunner_readCmdLineArgs(self, cmd_line_args):
    self.args = JobSubmitterCommandLineArgs(cmd_line_args)
    self.input_data_dir = Path(self.args['input_data_dir'])


@of("seyfert.main.task_runners.ForecastRunner.loadForecastConfiguration", ret=False)
def r_ForecastRunner_loadForecastConfiguration(self):
    if self.rundir is not None:
        self.workspace = WorkSpace(self.rundir)
        self.forecast_config_file = self.workspace.getForecastConfigFilePath()
    else:
        self.forecast_config_file = self.args['forecast_config']
    if not isinstance(self.forecast_config_file, Path):
        raise TypeError()
    elif not self.forecast_config_file.is_file():
        raise FileNotFoundError()
    self.forecast_config = fcfg.ForecastConfig(input_file=self.forecast_config_file, input_data_dir=self.input_data_dir)
    self.forecast_config.loadPhysicalParametersFromJSONConfig()


@of("seyfert.main.task_runners.ForecastRunner.setRunID", ret=False)
def r_ForecastRunner_setRunID(self):
    if self.args.run_id is not None:
        self.run_id = f'{self.args.run_id}_{VERSION}'
    else:
        fcfg_id = self.forecast_config.getConfigID()
        if fcfg_id is not None:
            self.run_id = f'{fcfg_id}_{VERSION}'
        else:
            self.run_id = f'run_seyfert_{VERSION}'


@of("seyfert.main.task_runners.ForecastRunner.buildTasks", ret=False)
def r_ForecastRunner_buildTasks(self):
    self.tasks = {name: self.createSingleTask(name, self.args) for name in ['PowerSpectrum', 'Angular', 'Derivative', 'Fisher']}


@of("seyfert.main.task_runners.ForecastRunner.prepareWorkspace", ret=False)
def r_ForecastRunner_prepareWorkspace(self):
    if self.rundir is not None and self.rundir.is_dir():
        pass
    else:
        self.createRundir()
        self.createInputFilesDir()


@of("seyfert.main.task_runners.ForecastRunner.createRundir", ret=False)
def r_ForecastRunner_createRundir(self):
    self.rundir = (self.base_workdir / self.run_id).resolve()
    if self.args.test:
        if self.rundir.exists():
            shutil.rmtree(self.rundir)
        self.rundir.mkdir()
    else:
        timestamp = fm.datetime_str_format(datetime.datetime.now())
        self.rundir = self.rundir.with_name(f'{self.rundir.name}_{timestamp}')
        self.rundir.mkdir()
    self.workspace = WorkSpace(self.rundir)


@of("seyfert.main.task_runners.ForecastRunner.createSingleTask", kind='static')
def r_ForecastRunner_createSingleTask(name, cmd_line_args):
    key_base = name.lower()
    is_present = cmd_line_args[key_base]
    cfg_file = Path(cmd_line_args[f'{key_base}_config'])
    ext_dir = cmd_line_args[f'{key_base}_dir']
    return Task(name, is_present, cfg_file, ext_dir)


@of("seyfert.main.task_runners.ForecastRunner.createInputFilesDir", ret=False)
def r_ForecastRunner_createInputFilesDir(self):
    src_input_files = {'forecast': self.forecast_config_file}
    for name, task in self.tasks.items():
        src_input_files[name] = Path(task.input_file)
    self.workspace.createInputFilesDir(src_input_files=src_input_files, phys_pars=self.forecast_config.phys_pars, input_data_dir=self.input_data_dir)


@of("seyfert.main.task_runners.ForecastRunner.buildTaskRunners", ret=False)
def r_ForecastRunner_buildTaskRunners(self):
    ext_dirs = {}
    for name, task in self.tasks.items():
        if task.is_present:
            job_submitter_type = f'{name}TaskRunner'
            job_submitter = getattr(this_module, job_submitter_type)(workspace=self.workspace, args=self.args, json_input=task.input_file, forecast_config=self.forecast_config)
            self.submitters_dict[name] = job_submitter
            self.submitters_dict[name].createJobDirStructure()
        elif task.external_dir is not None:
            ext_dirs[name] = task.external_dir
    self.workspace.symlinkToExternalDirs(ext_dirs=ext_dirs, src_relative_to_rundir=True)


@of("seyfert.main.task_runners.ForecastRunner.populateInitialMetadata", ret=False)
def r_ForecastRunner_populateInitialMetadata(self):
    self.metadata.update({'run_id': self.run_id, 'executor': os.getenv('USER', ''), 'host_and_platform': gu.get_execution_host(), 'code_version': VERSION, 'external_dirs': self.external_dirs})


@of("seyfert.main.task_runners.ForecastRunner.computeDensities", ret=False)
def r_ForecastRunner_computeDensities(self):
    if self.tasks['PowerSpectrum'].is_present and self.tasks['Angular'].is_present:
        if self.args.execution != 'no':
            pmm_cfg = self.workspace.getTaskJSONConfiguration('PowerSpectrum')
            z_grid = pmm_cfg.z_grid
        else:
            return
    else:
        cosmo = Cosmology.fromHDF5(self.workspace.getPowerSpectrumFile(dvar='central', step=0))
        z_grid = cosmo.z_grid
    densities = cl_core.compute_densities(probe_configs=self.forecast_config.probe_configs, z_grid=z_grid)
    for name in densities:
        densities[name].saveToHDF5(self.workspace.niz_file, root=name)


@of("seyfert.main.task_runners.ForecastRunner.computeDeltaCls", ret=False)
def r_ForecastRunner_computeDeltaCls(self):
    if self.args.execution != 'no':
        delta_cls = cl_core.compute_delta_cls(self.workspace)
        delta_cls.saveToHDF5(self.workspace.delta_cls_file)
    else:
        pass


@of("seyfert.main.task_runners.ForecastRunner.run", ret=False)
def r_ForecastRunner_run(self):
    self.bsub.setOptions(queue=self.args.queue, memory_MB=self.args.memory, n_cores=self.args.n_cores_per_job)
    self.start_datetime = datetime.datetime.now()
    if self.tasks['Angular'].is_present:
        self.computeDensities()
    for name, task in self.tasks.items():
        if task.is_present:
            self.submitters_dict[name].run()
            if name == 'Angular':
                self.computeDeltaCls()
    if self.args.execution != 'no' and self.tasks['Fisher'].is_present:
        self.evaluateFinalResults()
    self.end_datetime = datetime.datetime.now()


@of("seyfert.main.task_runners.ForecastRunner.evaluateFinalResults", ret=False)
def r_ForecastRunner_evaluateFinalResults(self):
    if self.args.overwrite_results:
        results_dir = self.workspace.final_results_dir
        if results_dir.exists():
            shutil.rmtree(results_dir)
    self.writeGCspPkFishersTo(self.workspace.base_fishers_dir)
    cli_args = {'-ex': self.args.execution, '-i': self.rundir, '-q': 'long', '-ncj': 1, '-mem': 3000, '-ow': self.args.overwrite_results, '-wd': self.workspace.run_dir}
    res_cmd = f'evaluate_final_results {' '.join((f'{key} {value}' for key, value in cli_args.items()))}'
    proc = sp.run(res_cmd, shell=True)
    if proc.returncode != 0:
        raise JobFailError()


@of("seyfert.main.task_runners.ForecastRunner.writeGCspPkFishersTo", ret=False)
def r_ForecastRunner_writeGCspPkFishersTo(self, outdir):
    outdir = Path(outdir)
    for cosmology in ['w0_wa_CDM']:
        file = fsu.get_ist_gcsp_pk_fisher_file(scenario=self.forecast_config.scenario, cosmology=cosmology)
        pk_fisher = FisherMatrix.from_ISTfile(file=file)
        pk_fisher.writeToFile(outfile=outdir / f'fisher_IST_gcsp_pk_{cosmology}.hdf5')


@of("seyfert.main.task_runners.ForecastRunner.addTimingDataToMetadata", ret=False)
def r_ForecastRunner_addTimingDataToMetadata(self):
    if self.end_datetime is not None:
        duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
        self.metadata.update({'start_time': fm.datetime_str_format(self.start_datetime, hour_sep=':'), 'end_time': fm.datetime_str_format(self.end_datetime, hour_sep=':'), 'duration': duration})


@of("seyfert.main.task_runners.ForecastRunner.writeRunMetadata", ret=False)
def r_ForecastRunner_writeRunMetadata(self):
    with open(self.workspace.metadata_file, mode='w') as jsf:
        json.dump(self.metadata, jsf, indent=4)


@of("seyfert.main.task_runners.set_num_threads", ret=False)
def r_set_num_threads(num_threads):
    os.environ['NUMEXPR_NUM_THREADS'] = str(num_threads)
    os.environ['NUMEXPR_MAX_THREADS'] = str(num_threads)

