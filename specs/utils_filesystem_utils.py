"""Reference definitions for seyfert.utils.filesystem_utils."""
from pathlib import Path
from seyfert import SEYFERT_PATH
from seyfert.utils.filesystem_utils import config_files_dir
from seyfert.utils.filesystem_utils import default_data_dir
from seyfert.utils.filesystem_utils import get_input_files_JSON_for_rundir
from seyfert.utils.filesystem_utils import get_input_files_dict_for_rundir
import json
import logging
import os
import re

logger = logging.getLogger(__name__)


@of("seyfert.utils.filesystem_utils.repo_path")
def r_repo_path():
    return Path(SEYFERT_PATH).parent


@of("seyfert.utils.filesystem_utils.config_files_dir")
def r_config_files_dir():
    return Path(SEYFERT_PATH) / 'data/config_files'


@of("seyfert.utils.filesystem_utils.default_seyfert_input_data_dir")
def r_default_seyfert_input_data_dir():
    env_var = 'SEYFERT_INPUT_DATA'
    input_data_dir = os.getenv(env_var)
    if isinstance(input_data_dir, str):
        input_data_dir = Path(input_data_dir)
        if input_data_dir.is_dir():
            pass
        else:
            pass
    else:
        input_data_dir = Path.home() / 'spectrophoto/input_data'
    if not input_data_dir.is_dir():
        raise NotADirectoryError()
    return input_data_dir


@of("seyfert.utils.filesystem_utils.default_data_dir")
def r_default_data_dir():
    return Path(SEYFERT_PATH) / 'data/input_data'


@of("seyfert.utils.filesystem_utils.the_test_data_dir")
def r_the_test_data_dir():
    return Path(SEYFERT_PATH) / 'data/test_data'


@of("seyfert.utils.filesystem_utils.tables_aux_files_dir")
def r_tables_aux_files_dir():
    return Path(SEYFERT_PATH) / 'data/tables'


@of("seyfert.utils.filesystem_utils.fisher_aux_files_dir")
def r_fisher_aux_files_dir():
    return Path(SEYFERT_PATH) / 'data/fishers'


@of("seyfert.utils.filesystem_utils.plots_aux_files_dir")
def r_plots_aux_files_dir():
    return Path(SEYFERT_PATH) / 'data/plots_defs'


@of("seyfert.utils.filesystem_utils.get_input_files_dir_for_rundir")
def r_get_input_files_dir_for_rundir(rundir):
    return rundir / 'input_files_dir'


@of("seyfert.utils.filesystem_utils.get_input_files_JSON_for_rundir")
def r_get_input_files_JSON_for_rundir(rundir):
    return rundir / 'input_files_dict.json'


@of("seyfert.utils.filesystem_utils.basic_forecast_config")
def r_basic_forecast_config():
    return config_files_dir() / 'basic_forecast_config.json'


@of("seyfert.utils.filesystem_utils.get_input_files_dict_for_rundir")
def r_get_input_files_dict_for_rundir(rundir):
    with open(get_input_files_JSON_for_rundir(rundir), 'r') as jsf:
        data = json.load(jsf)
    return data


@of("seyfert.utils.filesystem_utils.get_forecast_config_file_from_rundir")
def r_get_forecast_config_file_from_rundir(rundir):
    forecast_config_file = get_input_files_dict_for_rundir(rundir)['forecast']
    return rundir / forecast_config_file


@of("seyfert.utils.filesystem_utils.get_params_file_from_rundir")
def r_get_params_file_from_rundir(rundir):
    params_file = get_input_files_dict_for_rundir(rundir)['params']
    return rundir / params_file


@of("seyfert.utils.filesystem_utils.get_forecast_input_data_dir_from_rundir")
def r_get_forecast_input_data_dir_from_rundir(rundir):
    return rundir / get_input_files_dict_for_rundir(rundir)['input_data_dir']


@of("seyfert.utils.filesystem_utils.get_dvar_step_from_cosmology_jobdir_name")
def r_get_dvar_step_from_cosmology_jobdir_name(dirname):
    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
    match = dirname_regex.search(dirname)
    try:
        dvar = match.group('dvar')
        step = int(match.group('step'))
        sign = match.group('sign')
        if sign is not None:
            sign = sign.replace('_', '')
            if sign == 'm':
                step = -step
    except AttributeError:
        raise Exception()
    return (dvar, step)


@of("seyfert.utils.filesystem_utils.get_cosmology_jobdir_name")
def r_get_cosmology_jobdir_name(dvar, step):
    if step == 0:
        step_str = '0'
    else:
        step_str = f'm_{int(abs(step))}' if step < 0 else f'p_{int(abs(step))}'
    job_dir_name = f'dvar_{dvar}_step_{step_str}'
    return job_dir_name


@of("seyfert.utils.filesystem_utils.get_dvar_from_derivative_jobdir_name")
def r_get_dvar_from_derivative_jobdir_name(dirname):
    return dirname


@of("seyfert.utils.filesystem_utils.get_derivative_jobdir_name_from_dvar")
def r_get_derivative_jobdir_name_from_dvar(dvar):
    return dvar


@of("seyfert.utils.filesystem_utils.get_dvar1_dvar2_from_fisher_jobdir_name")
def r_get_dvar1_dvar2_from_fisher_jobdir_name(dirname):
    dirname_regex = re.compile('(?P<dvar1>[a-zA-Z0-9]+)__(?P<dvar2>[a-zA-Z0-9]+)')
    match = dirname_regex.match(dirname)
    try:
        dvar1 = match.group('dvar1')
        dvar2 = match.group('dvar2')
    except AttributeError:
        raise Exception()
    return (dvar1, dvar2)


@of("seyfert.utils.filesystem_utils.get_fisher_jobdir_name_from_dvar1_dvar2")
def r_get_fisher_jobdir_name_from_dvar1_dvar2(dvar1, dvar2):
    return f'{dvar1}__{dvar2}'


@of("seyfert.utils.filesystem_utils.get_file_from_dir_with_pattern")
def r_get_file_from_dir_with_pattern(directory=None, pattern=None):
    candidates = list(directory.glob(pattern))
    if len(candidates) != 1:
        raise Exception()
    return candidates[0]


@of("seyfert.utils.filesystem_utils.get_fisher_dirname_from_switches")
def r_get_fisher_dirname_from_switches(prefix='fishers_with_pk', wlph=True, wlsp=True, phsp=True):
    switches = {'WL-GCph': wlph, 'WL-GCsp': wlsp, 'GCph-GCsp': phsp}
    switches_string = '__'.join((f'der_{xc_name}_{switch}' for xc_name, switch in switches.items()))
    return f'{prefix}__{switches_string}'


@of("seyfert.utils.filesystem_utils.get_ist_gcsp_pk_fisher_file")
def r_get_ist_gcsp_pk_fisher_file(scenario, cosmology='w0_wa_CDM'):
    fisher_gcsp_pk_file = default_data_dir() / 'ist_fishers' / cosmology / f'EuclidISTF_GCsp_w0wa_flat_{scenario}.txt'
    if not fisher_gcsp_pk_file.is_file():
        raise FileNotFoundError()
    return fisher_gcsp_pk_file

