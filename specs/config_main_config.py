"""Reference definitions for seyfert.config.main_config."""
from abc import ABC
from seyfert.base_structs.generic_dict import GenericDictInterface
from seyfert.config.main_config import AngularConfig
from seyfert.config.main_config import DerivativeConfig
from seyfert.config.main_config import FisherConfig
from seyfert.config.main_config import MainConfig
from seyfert.config.main_config import PowerSpectrumConfig
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import general_utils as gu
from typing import Union
import json
import logging
import numpy as np
import sys

logger = logging.getLogger(__name__)
ConcreteConfigType = Union[PowerSpectrumConfig, AngularConfig, DerivativeConfig, FisherConfig]

constants("seyfert.config.main_config", 'ConcreteConfigType')


@shape("seyfert.config.main_config.MainConfig")
class s_MainConfig(GenericDictInterface, ABC):
    pass


@shape("seyfert.config.main_config.PowerSpectrumConfig")
class s_PowerSpectrumConfig(MainConfig):
    pass


@shape("seyfert.config.main_config.AngularConfig")
class s_AngularConfig(MainConfig):
    pass


@shape("seyfert.config.main_config.DerivativeConfig")
class s_DerivativeConfig(MainConfig):
    pass


@shape("seyfert.config.main_config.FisherConfig")
class s_FisherConfig(MainConfig):
    pass


@of("seyfert.config.main_config.MainConfig.__init__", ret=False)
def r_MainConfig_init(self, json_input=None, **kwargs):
    super().__init__(**kwargs)
    self.type = self.__class__.__name__
    self['config_type'] = self.type
    self._attrs_excluded_from_equality = set()
    if json_input is not None:
        self.loadFromJSON(json_input)


@of("seyfert.config.main_config.MainConfig.__repr__")
def r_MainConfig_repr(self):
    return repr(self.base_dict)


@of("seyfert.config.main_config.MainConfig.fromJSON", kind='class')
def r_MainConfig_fromJSON(cls, file):
    return cls(json_input=file)


@of("seyfert.config.main_config.MainConfig.loadFromJSON", ret=False)
def r_MainConfig_loadFromJSON(self, json_file):
    with open(json_file, mode='r') as jsf:
        self.update(json.load(jsf))


@of("seyfert.config.main_config.MainConfig.writeToJSON", ret=False)
def r_MainConfig_writeToJSON(self, json_file):
    with open(json_file, mode='w') as jsf:
        json.dump(self._base_dict, jsf, indent=2)


@of("seyfert.config.main_config.PowerSpectrumConfig.__init__", ret=False)
def r_PowerSpectrumConfig_init(self, **kwargs):
    super(PowerSpectrumConfig, self).__init__(**kwargs)


@of("seyfert.config.main_config.PowerSpectrumConfig.z_min", kind='property')
def r_PowerSpectrumConfig_z_min(self):
    return self['redshift_grid']['z_min']


@of("seyfert.config.main_config.PowerSpectrumConfig.z_min@setter", ret=False, kind='setter')
def r_PowerSpectrumConfig_z_min_set(self, value):
    self['redshift_grid']['z_min'] = value


@of("seyfert.config.main_config.PowerSpectrumConfig.z_max", kind='property')
def r_PowerSpectrumConfig_z_max(self):
    return self['redshift_grid']['z_max']


@of("seyfert.config.main_config.PowerSpectrumConfig.z_max@setter", ret=False, kind='setter')
def r_PowerSpectrumConfig_z_max_set(self, value):
    self['redshift_grid']['z_max'] = value


@of("seyfert.config.main_config.PowerSpectrumConfig.n_redshifts", kind='property')
def r_PowerSpectrumConfig_n_redshifts(self):
    return self['redshift_grid']['n_redshifts']


@of("seyfert.config.main_config.PowerSpectrumConfig.n_redshifts@setter", ret=False, kind='setter')
def r_PowerSpectrumConfig_n_redshifts_set(self, value):
    self['redshift_grid']['n_redshifts'] = value


@of("seyfert.config.main_config.PowerSpectrumConfig.z_grid", kind='property')
def r_PowerSpectrumConfig_z_grid(self):
    return np.linspace(self.z_min, self.z_max, self.n_redshifts)


@of("seyfert.config.main_config.PowerSpectrumConfig.boltzmann_codes_settings", kind='property')
def r_PowerSpectrumConfig_boltzmann_codes_settings(self):
    return self['boltzmann_codes_settings']


@of("seyfert.config.main_config.PowerSpectrumConfig.boltzmann_code", kind='property')
def r_PowerSpectrumConfig_boltzmann_code(self):
    return self.boltzmann_codes_settings['code']


@of("seyfert.config.main_config.PowerSpectrumConfig.boltzmann_code@setter", ret=False, kind='setter')
def r_PowerSpectrumConfig_boltzmann_code_set(self, value):
    self.boltzmann_codes_settings['code'] = value


@of("seyfert.config.main_config.PowerSpectrumConfig.camb_settings", kind='property')
def r_PowerSpectrumConfig_camb_settings(self):
    return self.boltzmann_codes_settings['camb']


@of("seyfert.config.main_config.PowerSpectrumConfig.class_settings", kind='property')
def r_PowerSpectrumConfig_class_settings(self):
    return self.boltzmann_codes_settings['class']


@of("seyfert.config.main_config.PowerSpectrumConfig.camb_ini_name", kind='property')
def r_PowerSpectrumConfig_camb_ini_name(self):
    return self.camb_settings['ini_filename']


@of("seyfert.config.main_config.PowerSpectrumConfig.camb_ini_name@setter", ret=False, kind='setter')
def r_PowerSpectrumConfig_camb_ini_name_set(self, value):
    self.camb_settings['ini_filename'] = value


@of("seyfert.config.main_config.PowerSpectrumConfig.camb_ini_path", kind='property')
def r_PowerSpectrumConfig_camb_ini_path(self):
    return fsu.config_files_dir() / self.camb_ini_name


@of("seyfert.config.main_config.PowerSpectrumConfig.loadFromJSON", ret=False)
def r_PowerSpectrumConfig_loadFromJSON(self, json_file):
    super(PowerSpectrumConfig, self).loadFromJSON(json_file)


@of("seyfert.config.main_config.AngularConfig.__init__", ret=False)
def r_AngularConfig_init(self, **kwargs):
    super(AngularConfig, self).__init__(**kwargs)


@of("seyfert.config.main_config.AngularConfig.cl_integration_settings", kind='property')
def r_AngularConfig_cl_integration_settings(self):
    return self['cl_integration_settings']


@of("seyfert.config.main_config.AngularConfig.limber_pmm_spline_settings", kind='property')
def r_AngularConfig_limber_pmm_spline_settings(self):
    return self['limber_pmm_spline_settings']


@of("seyfert.config.main_config.AngularConfig.lensing_efficiency_integration_method", kind='property')
def r_AngularConfig_lensing_efficiency_integration_method(self):
    return self.cl_integration_settings['lensing_efficiency']


@of("seyfert.config.main_config.AngularConfig.cl_integration_method", kind='property')
def r_AngularConfig_cl_integration_method(self):
    return self.cl_integration_settings['cl']


@of("seyfert.config.main_config.AngularConfig.limber_spline_kx", kind='property')
def r_AngularConfig_limber_spline_kx(self):
    return int(self.limber_pmm_spline_settings['kx'])


@of("seyfert.config.main_config.AngularConfig.limber_spline_ky", kind='property')
def r_AngularConfig_limber_spline_ky(self):
    return int(self.limber_pmm_spline_settings['ky'])


@of("seyfert.config.main_config.AngularConfig.limber_spline_s", kind='property')
def r_AngularConfig_limber_spline_s(self):
    return int(self.limber_pmm_spline_settings['s'])


@of("seyfert.config.main_config.DerivativeConfig.__init__", ret=False)
def r_DerivativeConfig_init(self, **kwargs):
    super(DerivativeConfig, self).__init__(**kwargs)


@of("seyfert.config.main_config.DerivativeConfig.cl_dir", kind='property')
def r_DerivativeConfig_cl_dir(self):
    return self['angular_dir']


@of("seyfert.config.main_config.DerivativeConfig.cl_dir@setter", ret=False, kind='setter')
def r_DerivativeConfig_cl_dir_set(self, value):
    self['angular_dir'] = value


@of("seyfert.config.main_config.FisherConfig.__init__", ret=False)
def r_FisherConfig_init(self, **kwargs):
    super(FisherConfig, self).__init__(**kwargs)


@of("seyfert.config.main_config.FisherConfig.shot_noise_phsp_xc_factor", kind='property')
def r_FisherConfig_shot_noise_phsp_xc_factor(self):
    return self['shot_noise_phsp_xc_factor']


@of("seyfert.config.main_config.FisherConfig.fisher_formula", kind='property')
def r_FisherConfig_fisher_formula(self):
    return self['fisher_formula']


@of("seyfert.config.main_config.FisherConfig.cl_derivatives", kind='property')
def r_FisherConfig_cl_derivatives(self):
    return self['cl_derivatives']


@of("seyfert.config.main_config.FisherConfig.getXCDerivativeFlag")
def r_FisherConfig_getXCDerivativeFlag(self, key):
    try:
        flag = self.cl_derivatives[key]
    except KeyError:
        p1, p2 = gu.get_probes_from_comb_key(key)
        reversed_key = gu.get_probes_combination_key(p2, p1)
        try:
            flag = self.cl_derivatives[reversed_key]
        except KeyError:
            raise KeyError()
    return flag


@of("seyfert.config.main_config.config_for_task")
def r_config_for_task(task, json_input):
    acceptable_task_names = {'PowerSpectrum', 'Angular', 'Derivative', 'Fisher'}
    if task not in acceptable_task_names:
        raise ValueError()
    cfg_name = f'{task}Config'
    cfg = getattr(sys.modules[__name__], cfg_name)(json_input=json_input)
    return cfg

