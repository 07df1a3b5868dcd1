"""Reference definitions for seyfert.utils.workspace."""
from pathlib import Path
from seyfert.config import main_config as mcfg
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.workspace import WorkSpace
import json
import logging
import os
import shutil

logger = logging.getLogger(__name__)


@shape("seyfert.utils.workspace.WorkSpace")
class s_WorkSpace:
    run_dir: 'Path'
    task_dirs: 'Dict[str, Path]'


@of("seyfert.utils.workspace.WorkSpace.__init__", ret=False)
def r_WorkSpace_init(self, run_dir):
    self.run_dir = Path(run_dir)
    self.task_dirs = {name: self.run_dir / name for name in ['PowerSpectrum', 'Angular', 'Derivative', 'Fisher']}
    self.niz_file = self.run_dir / 'norm_densities.hdf5'
    self.delta_cls_file = self.run_dir / 'delta_cls.h5'
    self.metadata_file = self.run_dir / 'run_metadata.json'
    self.auto_f_ells_file = self.run_dir / 'auto_fisher_of_ells.h5'
    self.base_fishers_dir = self.run_dir / 'base_fishers'
    self.run_metadata = None


@of("seyfert.utils.workspace.WorkSpace.__repr__")
def r_WorkSpace_repr(self):
    return self.run_dir.name


@of("seyfert.utils.workspace.WorkSpace.input_files_dir", kind='property')
def r_WorkSpace_input_files_dir(self):
    return self.run_dir / 'input_files_dir'


@of("seyfert.utils.workspace.WorkSpace.pmm_dir", kind='property')
def r_WorkSpace_pmm_dir(self):
    return self.task_dirs['PowerSpectrum']


@of("seyfert.utils.workspace.WorkSpace.cl_dir", kind='property')
def r_WorkSpace_cl_dir(self):
    return self.task_dirs['Angular']


@of("seyfert.utils.workspace.WorkSpace.der_dir", kind='property')
def r_WorkSpace_der_dir(self):
    return self.task_dirs['Derivative']


@of("seyfert.utils.workspace.WorkSpace.fish_elems_dir", kind='property')
def r_WorkSpace_fish_elems_dir(self):
    return self.task_dirs['Fisher']


@of("seyfert.utils.workspace.WorkSpace.final_results_dir", kind='property')
def r_WorkSpace_final_results_dir(self):
    return self.run_dir / 'final_results'


@of("seyfert.utils.workspace.WorkSpace.theInputFilesDict")
def r_WorkSpace_theInputFilesDict(self):
    with open(self.run_dir / 'input_files_dict.json') as jsf:
        if_dict = json.load(jsf)
    return if_dict


@of("seyfert.utils.workspace.WorkSpace.getDvarStepFromCosmoDirName", kind='static')
def r_WorkSpace_getDvarStepFromCosmoDirName(dirname):
    return fsu.get_dvar_step_from_cosmology_jobdir_name(dirname)


@of("seyfert.utils.workspace.WorkSpace.getDvarFromDerivativeDirName", kind='static')
def r_WorkSpace_getDvarFromDerivativeDirName(dirname):
    return fsu.get_dvar_from_derivative_jobdir_name(dirname)


@of("seyfert.utils.workspace.WorkSpace.getDvarsFromFisherDirName", kind='static')
def r_WorkSpace_getDvarsFromFisherDirName(dirname):
    return fsu.get_dvar1_dvar2_from_fisher_jobdir_name(dirname)


@of("seyfert.utils.workspace.WorkSpace.getForecastConfiguration")
def r_WorkSpace_getForecastConfiguration(self, load_params=False, input_data_dir=None):
    input_dir = Path(input_data_dir) if input_data_dir is not None else self.getInputDataDirPath()
    fc = ForecastConfig(input_file=self.getForecastConfigFilePath(), input_data_dir=input_dir)
    if load_params:
        fc.loadPhysicalParametersFromJSONConfig()
    return fc


@of("seyfert.utils.workspace.WorkSpace.getRunMetadata")
def r_WorkSpace_getRunMetadata(self):
    if self.metadata_file.is_file():
        with open(self.metadata_file, mode='r') as jsf:
            metadata = json.load(jsf)
    else:
        metadata = {}
    return metadata


@of("seyfert.utils.workspace.WorkSpace.loadRunMetadata", ret=False)
def r_WorkSpace_loadRunMetadata(self):
    self.run_metadata = self.getRunMetadata()


@of("seyfert.utils.workspace.WorkSpace.collectPmmVariationParams")
def r_WorkSpace_collectPmmVariationParams(self):
    return {self.getDvarStepFromCosmoDirName(d.name)[0] for d in self.pmm_dir.iterdir() if d.is_dir()}


@of("seyfert.utils.workspace.WorkSpace.collectClVariationParams")
def r_WorkSpace_collectClVariationParams(self):
    dvars = set()
    for d in self.cl_dir.iterdir():
        if d.is_dir():
            if 'central' not in d.name:
                dvars.add(self.getDvarStepFromCosmoDirName(d.name)[0])
    return dvars


@of("seyfert.utils.workspace.WorkSpace.collectDerivativeParams")
def r_WorkSpace_collectDerivativeParams(self):
    return {self.getDvarFromDerivativeDirName(d.name) for d in self.der_dir.iterdir() if d.is_dir()}


@of("seyfert.utils.workspace.WorkSpace.collectFisherParamsPairs")
def r_WorkSpace_collectFisherParamsPairs(self):
    return {self.getDvarsFromFisherDirName(d.name) for d in self.fish_elems_dir.iterdir() if d.is_dir()}


@of("seyfert.utils.workspace.WorkSpace.getForecastConfigFilePath")
def r_WorkSpace_getForecastConfigFilePath(self):
    return fsu.get_forecast_config_file_from_rundir(self.run_dir)


@of("seyfert.utils.workspace.WorkSpace.getInputDataDirPath")
def r_WorkSpace_getInputDataDirPath(self):
    input_data_dir = fsu.get_forecast_input_data_dir_from_rundir(self.run_dir)
    if not input_data_dir.is_dir():
        input_data_dir = fsu.default_seyfert_input_data_dir()
    return input_data_dir


@of("seyfert.utils.workspace.WorkSpace.getTaskJSONPath")
def r_WorkSpace_getTaskJSONPath(self, task_name):
    input_dict = self.theInputFilesDict()
    try:
        return self.run_dir / input_dict[task_name]
    except KeyError:
        raise KeyError()


@of("seyfert.utils.workspace.WorkSpace.getTaskJSONConfiguration")
def r_WorkSpace_getTaskJSONConfiguration(self, task_name):
    json_file = self.getTaskJSONPath(task_name)
    return mcfg.config_for_task(task_name, json_file)


@of("seyfert.utils.workspace.WorkSpace.getTasksJSONConfigs")
def r_WorkSpace_getTasksJSONConfigs(self):
    return {task_name: self.getTaskJSONConfiguration(task_name) for task_name in self.task_dirs.keys()}


@of("seyfert.utils.workspace.WorkSpace.getParamsJSONFile")
def r_WorkSpace_getParamsJSONFile(self):
    return fsu.get_params_file_from_rundir(self.run_dir)


@of("seyfert.utils.workspace.WorkSpace.getParamsCollection")
def r_WorkSpace_getParamsCollection(self):
    params_file = fsu.get_params_file_from_rundir(self.run_dir)
    return PhysicalParametersCollection.fromJSON(params_file)


@of("seyfert.utils.workspace.WorkSpace.getPowerSpectrumFile")
def r_WorkSpace_getPowerSpectrumFile(self, dvar, step):
    return self.pmm_dir / fsu.get_cosmology_jobdir_name(dvar=dvar, step=step) / 'p_mm.h5'


@of("seyfert.utils.workspace.WorkSpace.getClFile")
def r_WorkSpace_getClFile(self, dvar, step):
    cl_dir = self.cl_dir / fsu.get_cosmology_jobdir_name(dvar=dvar, step=step)
    return fsu.get_file_from_dir_with_pattern(cl_dir, 'cl*.h5')


@of("seyfert.utils.workspace.WorkSpace.getClDerivativeFile")
def r_WorkSpace_getClDerivativeFile(self, dvar):
    cl_der_dir = self.der_dir / fsu.get_derivative_jobdir_name_from_dvar(dvar)
    return fsu.get_file_from_dir_with_pattern(cl_der_dir, 'cl_derivatives*.h5')


@of("seyfert.utils.workspace.WorkSpace.collectClDerivativeFiles")
def r_WorkSpace_collectClDerivativeFiles(self):
    dvars = self.collectDerivativeParams()
    cl_der_files = {}
    for dvar in dvars:
        cl_der_files[dvar] = self.getClDerivativeFile(dvar)
    return cl_der_files


@of("seyfert.utils.workspace.WorkSpace.collectClVariationDirectories")
def r_WorkSpace_collectClVariationDirectories(self):
    cl_var_dirs = {}
    for x in self.cl_dir.glob('dvar_*'):
        dvar, step = self.getDvarStepFromCosmoDirName(x.name)
        if dvar != 'central':
            cl_var_dirs[dvar, step] = x
    return cl_var_dirs


@of("seyfert.utils.workspace.WorkSpace.getResultsDir")
def r_WorkSpace_getResultsDir(self, results_dirname='final_results', cosmology='w0_wa_CDM', res_subdir_name='marg_before'):
    results_dir = self.run_dir / results_dirname / cosmology / res_subdir_name
    if not results_dir.is_dir():
        pass
    return results_dir


@of("seyfert.utils.workspace.WorkSpace.symlinkToExternalDirs", ret=False)
def r_WorkSpace_symlinkToExternalDirs(self, ext_dirs, src_relative_to_rundir=True, link_delta_cls=True):
    unrecognized_tasks = set(ext_dirs) - set(self.task_dirs)
    if unrecognized_tasks:
        raise KeyError()
    for key, ext_dir in ext_dirs.items():
        if not self.task_dirs[key].exists():
            self.createSymlink(src=ext_dir, dst=self.task_dirs[key], src_relative_to_rundir=src_relative_to_rundir)
            if key == 'Angular' and link_delta_cls:
                src_ws = WorkSpace(Path(ext_dir).parent)
                src_delta_cls = src_ws.delta_cls_file
                self.createSymlink(src=src_delta_cls, dst=self.delta_cls_file, src_relative_to_rundir=src_relative_to_rundir)
        else:
            pass


@of("seyfert.utils.workspace.WorkSpace.createSymlink", ret=False)
def r_WorkSpace_createSymlink(self, src, dst, src_relative_to_rundir=True):
    src = Path(src)
    if not src.exists():
        raise FileNotFoundError()
    dst_path = Path(dst)
    symlink_src = Path(os.path.relpath(src, self.run_dir)) if src_relative_to_rundir else Path(src)
    dst_path.symlink_to(symlink_src)


@of("seyfert.utils.workspace.WorkSpace.createInputFilesDir", ret=False)
def r_WorkSpace_createInputFilesDir(self, src_input_files, phys_pars, input_data_dir):
    input_files_dir = fsu.get_input_files_dir_for_rundir(self.run_dir)
    input_files_dir.mkdir(exist_ok=True)
    input_files_dict = {}
    for name, input_file in src_input_files.items():
        src = Path(input_file)
        dst = input_files_dir / src.name
        shutil.copy(src, dst)
        input_files_dict[name] = os.path.relpath(dst, self.run_dir)
    params_file = input_files_dir / 'params.json'
    phys_pars.writeJSON(params_file)
    input_files_dict['params'] = os.path.relpath(params_file, self.run_dir)
    input_files_dict['input_data_dir'] = str(input_data_dir.resolve())
    with open(fsu.get_input_files_JSON_for_rundir(self.run_dir), mode='w') as jsf:
        json.dump(input_files_dict, jsf, indent=2)

