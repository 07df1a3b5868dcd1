"""Reference definitions for seyfert.config.forecast_config."""
from pathlib import Path
from seyfert.config.forecast_config import OptionValueError
from seyfert.config.probe_config import ProbeConfig
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import formatters as fm
from seyfert.utils import general_utils as gu
from seyfert.utils.shortcuts import ProbeName
import datetime
import itertools
import json
import logging
import numpy as np
import seyfert.utils.array_utils

logger = logging.getLogger(__name__)


@shape("seyfert.config.forecast_config.ConfigError")
class s_ConfigError(Exception):
    pass


@shape("seyfert.config.forecast_config.ForecastConfig")
class s_ForecastConfig:
    input_data_dir: 'Path'
    probe_configs: 'Dict[str, ProbeConfig]'
    phys_pars: 'PhysicalParametersCollection'
    survey_f_sky: 'float'
    json_config: 'JSONForecastConfig'


@shape("seyfert.config.forecast_config.OptionValueError")
class s_OptionValueError(Exception):
    pass


@shape("seyfert.config.forecast_config.ForecastConfigEditor")
class s_ForecastConfigEditor:
    opts: 'Dict[str, Any]'
    accepted_opt_names = {'scenario', 'n_sp_bins', 'gcph_minus_gcsp', 'shot_noise_sp_reduced', 'gcph_only_bins_in_spectro_range'}


@of("seyfert.config.forecast_config.ForecastConfig.__init__", ret=False)
def r_ForecastConfig_init(self, input_file=None, input_data_dir=None, load_phys_params=False):
    self.input_file = input_file
    self.input_data_dir = input_data_dir
    self.probe_configs = {}
    self.shot_noise_file = None
    self.probes_combinations = None
    self.phys_pars = None
    self._attrs_excluded_from_equality = {}
    self.json_config = None
    self.verbose = False
    if self.input_file is not None and self.input_data_dir is not None:
        self.loadConfiguration(input_file=self.input_file, input_data_dir=self.input_data_dir, load_phys_params=load_phys_params)
    else:
        pass


@of("seyfert.config.forecast_config.ForecastConfig.scenario", kind='property')
def r_ForecastConfig_scenario(self):
    return self.json_config.scenario


@of("seyfert.config.forecast_config.ForecastConfig.n_sp_bins", kind='property')
def r_ForecastConfig_n_sp_bins(self):
    return self.json_config.n_sp_bins


@of("seyfert.config.forecast_config.ForecastConfig.shot_noise_sp_reduced", kind='property')
def r_ForecastConfig_shot_noise_sp_reduced(self):
    return self.synthetic_opts['shot_noise_sp_reduced']


@of("seyfert.config.forecast_config.ForecastConfig.synthetic_opts", kind='property')
def r_ForecastConfig_synthetic_opts(self):
    return self.json_config.synthetic_opts


@of("seyfert.config.forecast_config.ForecastConfig.survey_f_sky", kind='property')
def r_ForecastConfig_survey_f_sky(self):
    return self.json_config.f_sky


@of("seyfert.config.forecast_config.ForecastConfig.is_universe_flat", kind='property')
def r_ForecastConfig_is_universe_flat(self):
    return self.json_config.cosmology['flat']


@of("seyfert.config.forecast_config.ForecastConfig.present_probes", kind='property')
def r_ForecastConfig_present_probes(self):
    return list(self.probe_configs.keys())


@of("seyfert.config.forecast_config.ForecastConfig.nuisance_parameters", kind='property')
def r_ForecastConfig_nuisance_parameters(self):
    return self.phys_pars.nuisance_parameters


@of("seyfert.config.forecast_config.ForecastConfig.present_cosmological_parameters", kind='property')
def r_ForecastConfig_present_cosmological_parameters(self):
    return self.phys_pars.free_cosmological_parameters


@of("seyfert.config.forecast_config.ForecastConfig.cosmo_pars_fiducials", kind='property')
def r_ForecastConfig_cosmo_pars_fiducials(self):
    return self.phys_pars.cosmo_pars_fiducials


@of("seyfert.config.forecast_config.ForecastConfig.loadConfiguration", ret=False)
def r_ForecastConfig_loadConfiguration(self, input_file, input_data_dir, load_phys_params=False):
    self.json_config = JSONForecastConfig(file=input_file)
    self.input_data_dir = Path(input_data_dir)
    self.loadProbeConfigurationsFromJSONConfig()
    if load_phys_params:
        self.loadPhysicalParametersFromJSONConfig()


@of("seyfert.config.forecast_config.ForecastConfig.writeToJSON", ret=False)
def r_ForecastConfig_writeToJSON(self, file):
    self.json_config.toJSON(file)


@of("seyfert.config.forecast_config.ForecastConfig.getConfigID")
def r_ForecastConfig_getConfigID(self):
    return self.json_config.getConfigID()


@of("seyfert.config.forecast_config.ForecastConfig.retrieveInputDataDir", ret=False)
def r_ForecastConfig_retrieveInputDataDir(self, rundir):
    self.input_data_dir = fsu.get_forecast_input_data_dir_from_rundir(rundir)


@of("seyfert.config.forecast_config.ForecastConfig.loadProbeConfigurationsFromJSONConfig", ret=False)
def r_ForecastConfig_loadProbeConfigurationsFromJSONConfig(self):
    for name, probe_dict in self.json_config.probes.items():
        if probe_dict['presence_flag']:
            long_name = ProbeName(name).toLong().name
            probe_cfg = ProbeConfig(long_name, input_data_dir=self.input_data_dir)
            probe_cfg.loadFromJSONConfig(self.json_config)
            self.probe_configs[long_name] = probe_cfg
    self.probes_combinations = list(itertools.combinations_with_replacement(self.present_probes, 2))
    if 'shot_noise_file' in self.json_config.survey:
        shot_noise_file = self.json_config.survey['shot_noise_file']
        if shot_noise_file is not None:
            self.shot_noise_file = self.input_data_dir / 'shot_noise' / shot_noise_file
            if not self.shot_noise_file.is_file():
                raise FileNotFoundError()


@of("seyfert.config.forecast_config.ForecastConfig.loadPhysicalParametersFromJSONConfig", ret=False)
def r_ForecastConfig_loadPhysicalParametersFromJSONConfig(self):
    self.phys_pars = PhysicalParametersCollection()
    self.phys_pars.loadStemDisplacements(self.json_config.derivative_settings['base_stem_disps'])
    self.phys_pars.is_universe_flat = self.is_universe_flat
    self.phys_pars.update({par.name: par for par in [PhysicalParameter.from_dict(par_dict) for par_dict in self.json_config.cosmology['parameters']]})
    for pcfg in self.probe_configs.values():
        pcfg.loadAllNuisanceParameters(self.json_config.probes[pcfg.alias_name])
        self.phys_pars.update(pcfg.nuisance_parameters)


@of("seyfert.config.forecast_config.ForecastConfig.checkProbesMultipoles", ret=False)
def r_ForecastConfig_checkProbesMultipoles(self):
    for probe_1, probe_2 in self.probes_combinations:
        l_probe_1 = self.probe_configs[probe_1].l_bin_centers
        l_probe_2 = self.probe_configs[probe_2].l_bin_centers
        if len(seyfert.utils.array_utils.compute_arrays_intersection1d([l_probe_1, l_probe_2])) == 0:
            raise ValueError()


@of("seyfert.config.forecast_config.ForecastConfig.getMultipoleArraysForProbeComb")
def r_ForecastConfig_getMultipoleArraysForProbeComb(self, obs_key):
    obs1, obs2 = gu.get_probes_from_comb_key(obs_key)
    ell1, ell2 = (self.probe_configs[obs1].l_bin_centers, self.probe_configs[obs2].l_bin_centers)
    ell_common = np.intersect1d(ell1, ell2)
    mask_common = np.isin(ell1, ell_common)
    d_ell1, d_ell2 = (self.probe_configs[obs1].l_bin_widths, self.probe_configs[obs2].l_bin_widths)
    d_ell_common = d_ell1[mask_common]
    if len(ell_common) == 0:
        raise Exception()
    return (ell_common, d_ell_common)


@of("seyfert.config.forecast_config.ForecastConfig.__getitem__")
def r_ForecastConfig_getitem(self, item):
    return self.probe_configs[item]


@of("seyfert.config.forecast_config.ForecastConfig.__eq__")
def r_ForecastConfig_eq(self, other):
    return all([self.phys_pars == other.phys_pars, self.is_universe_flat == other.is_universe_flat, self.probe_configs == other.probe_configs, self.survey_f_sky == other.survey_f_sky, self.probes_combinations == other.probes_combinations])


@of("seyfert.config.forecast_config.OptionValueError.__init__", ret=False)
def r_OptionValueError_init(self, opt_name, got, acceptable):
    self.opt_name = opt_name
    self.got = got
    self.add_info_str = f'got {got}, accepted: ' + ', '.join((str(x) for x in sorted(acceptable)))
    super().__init__(f'Invalid value for option {self.opt_name}. {self.add_info_str}')


@of("seyfert.config.forecast_config.ForecastConfigEditor.__init__", ret=False)
def r_ForecastConfigEditor_init(self, opts):
    self.opts = opts
    self.creation_date = datetime.datetime.now()
    self.config = None
    with open(fsu.config_files_dir() / 'basic_forecast_config.json') as jsf:
        self.config = JSONForecastConfig(data=json.load(jsf))
    self.checkOpts()
    self.config.synthetic_opts.update(self.opts)


@of("seyfert.config.forecast_config.ForecastConfigEditor.checkOpts", ret=False)
def r_ForecastConfigEditor_checkOpts(self):
    missing_opts = self.accepted_opt_names - set(self.opts)
    if missing_opts:
        raise Exception()
    invalid_name_opts = set(self.opts) - self.accepted_opt_names
    if invalid_name_opts:
        raise Exception()
    if self.scenario not in {'optimistic', 'pessimistic'}:
        raise OptionValueError()
    if self.n_sp_bins not in {4, 12, 24, 40}:
        raise OptionValueError()
    if not isinstance(self.gcph_minus_gcsp, bool):
        raise TypeError()
    if not isinstance(self.shot_noise_sp_reduced, bool):
        raise TypeError()
    if not isinstance(self.gcph_only_bins_in_spectro_range, bool):
        raise TypeError()


@of("seyfert.config.forecast_config.ForecastConfigEditor.scenario", kind='property')
def r_ForecastConfigEditor_scenario(self):
    return self.opts['scenario']


@of("seyfert.config.forecast_config.ForecastConfigEditor.n_sp_bins", kind='property')
def r_ForecastConfigEditor_n_sp_bins(self):
    return self.opts['n_sp_bins']


@of("seyfert.config.forecast_config.ForecastConfigEditor.gcph_minus_gcsp", kind='property')
def r_ForecastConfigEditor_gcph_minus_gcsp(self):
    return self.opts['gcph_minus_gcsp']


@of("seyfert.config.forecast_config.ForecastConfigEditor.shot_noise_sp_reduced", kind='property')
def r_ForecastConfigEditor_shot_noise_sp_reduced(self):
    return self.opts['shot_noise_sp_reduced']


@of("seyfert.config.forecast_config.ForecastConfigEditor.gcph_only_bins_in_spectro_range", kind='property')
def r_ForecastConfigEditor_gcph_only_bins_in_spectro_range(self):
    return self.opts['gcph_only_bins_in_spectro_range']


@of("seyfert.config.forecast_config.ForecastConfigEditor.bool_opts", kind='property')
def r_ForecastConfigEditor_bool_opts(self):
    return {key: value for key, value in self.opts.items() if isinstance(value, bool)}


@of("seyfert.config.forecast_config.ForecastConfigEditor.writeJSON", ret=False)
def r_ForecastConfigEditor_writeJSON(self, outdir, add_datetime=True):
    file_path = Path(outdir) / self.createFileName(add_datetime=add_datetime)
    self.config.toJSON(file_path)


@of("seyfert.config.forecast_config.ForecastConfigEditor.createFileName")
def r_ForecastConfigEditor_createFileName(self, add_datetime=True):
    filename = f'{self.scenario}_{self.n_sp_bins}_sp_bins'
    for flag_name, flag in self.bool_opts.items():
        if flag:
            filename += f'_{flag_name}'
    if add_datetime:
        filename += f'_{fm.datetime_str_format(self.creation_date)}'
    filename += '.json'
    return filename


@of("seyfert.config.forecast_config.ForecastConfigEditor.updateData", ret=False)
def r_ForecastConfigEditor_updateData(self):
    self.updateMultipoles()
    self.updateGCphDensityAndBias()
    self.updateGCspDensityAndBias()


@of("seyfert.config.forecast_config.ForecastConfigEditor.updateMultipoles", ret=False)
def r_ForecastConfigEditor_updateMultipoles(self):
    for probe in ['GCph', 'GCsp']:
        self.config.probes[probe]['l_min'] = 10
        self.config.probes[probe]['l_max'] = 750 if self.scenario == 'pessimistic' else 3000
        self.config.probes[probe]['log_l_number'] = 100
        self.config.probes[probe]['ell_log_selection'] = True
    if self.scenario == 'pessimistic':
        self.config.WL['ell_external_filename'] = 'wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt'
    else:
        self.config.WL['ell_external_filename'] = 'wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt'


@of("seyfert.config.forecast_config.ForecastConfigEditor.updateGCphDensityAndBias", ret=False)
def r_ForecastConfigEditor_updateGCphDensityAndBias(self):
    if self.gcph_minus_gcsp:
        if self.gcph_only_bins_in_spectro_range:
            raise NotImplementedError()
        self.config.GCph['density_file'] = 'gcph_dndz_redbook_gcsp_subtracted.h5'
    elif self.gcph_only_bins_in_spectro_range:
        self.config.GCph['density_file'] = 'gcph_dndz_redbook_only_bins_in_spectro_range.h5'
        self.config.GCph['bias_file'] = 'gcph_bias_piecewise_only_bins_in_spectro_range.h5'
    else:
        self.config.GCph['density_file'] = 'gcph_dndz_redbook.h5'
        self.config.GCph['bias_file'] = 'gcph_bias_piecewise.h5'


@of("seyfert.config.forecast_config.ForecastConfigEditor.updateGCspDensityAndBias", ret=False)
def r_ForecastConfigEditor_updateGCspDensityAndBias(self):
    self.config.GCsp['density_file'] = f'gcsp_dndz_{self.n_sp_bins}_bins.h5'
    self.config.GCsp['bias_file'] = f'gcsp_bias_piecewise_{self.n_sp_bins}_bins.h5'

