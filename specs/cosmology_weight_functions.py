"""Reference definitions for seyfert.cosmology.weight_functions."""
from abc import ABC, abstractmethod
from os.path import join
from pathlib import Path
from scipy import integrate, interpolate
from seyfert.cosmology.bias import Bias
from seyfert.cosmology.redshift_density import RedshiftDensity
from seyfert.cosmology.weight_functions import GalaxyClusteringWeightFunction
from seyfert.cosmology.weight_functions import H5WeightFunction
from seyfert.cosmology.weight_functions import LensingWeightFunction
from seyfert.cosmology.weight_functions import PhotometricGalaxyWeightFunction
from seyfert.cosmology.weight_functions import SpectroscopicGalaxyWeightFunction
from seyfert.cosmology.weight_functions import VoidWeightFunction
from seyfert.cosmology.weight_functions import WeightFunction
from seyfert.cosmology.weight_functions import WeightFunctionWithBias
from seyfert.cosmology.weight_functions import probe_from_weight_function_cls_name
from seyfert.cosmology.weight_functions import weight_cls_name_from_obs
from seyfert.cosmology.weight_functions import weight_function_for_probe
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.utils import filesystem_utils as fsu
from typing import Union
import logging
import numpy as np
import re
import sys

this_module = sys.modules[__name__]
logger = logging.getLogger(__name__)

constants("seyfert.cosmology.weight_functions", 'this_module')


@shape("seyfert.cosmology.weight_functions.WeightFunction")
class s_WeightFunction(ABC):
    cosmology: 'Cosmology'
    density: 'RedshiftDensity'
    w_bin_z: 'np.ndarray'
    z_grid: 'np.ndarray'
    probe_config: 'ProbeConfig'
    bias: 'Bias'
    nuisance_params: 'Dict[str, PhysicalParameter]'


@shape("seyfert.cosmology.weight_functions.LensingWeightFunction")
class s_LensingWeightFunction(WeightFunction):
    pass


@shape("seyfert.cosmology.weight_functions.WeightFunctionWithBias")
class s_WeightFunctionWithBias(WeightFunction, ABC):
    bias: 'Bias'


@shape("seyfert.cosmology.weight_functions.VoidWeightFunction")
class s_VoidWeightFunction(WeightFunctionWithBias):
    bias: Bias


@shape("seyfert.cosmology.weight_functions.GalaxyClusteringWeightFunction")
class s_GalaxyClusteringWeightFunction(WeightFunctionWithBias, ABC):
    pass


@shape("seyfert.cosmology.weight_functions.PhotometricGalaxyWeightFunction")
class s_PhotometricGalaxyWeightFunction(GalaxyClusteringWeightFunction):
    pass


@shape("seyfert.cosmology.weight_functions.SpectroscopicGalaxyWeightFunction")
class s_SpectroscopicGalaxyWeightFunction(GalaxyClusteringWeightFunction):
    pass


@shape("seyfert.cosmology.weight_functions.H5WeightFunction")
class s_H5WeightFunction(AbstractH5FileIO):
    pass


@of("seyfert.cosmology.weight_functions.WeightFunction.__init__", ret=False)
def r_WeightFunction_init(self, probe_config=None, nuisance_params=None, cosmology=None, fiducial_cosmology=None, angular_config=None):
    self.w_bin_z = None
    self.shot_noise_factor = 1
    self.cosmology = cosmology
    self.fiducial_cosmology = fiducial_cosmology
    self.probe_config = probe_config
    self.angular_config = angular_config
    self.nuisance_params = nuisance_params
    self.density = None
    self.z_grid = None
    self.bias = None
    self._attrs_excluded_from_equality = {'cosmology', 'fiducial_cosmology', 'forecast_config', 'angular_config'}


@of("seyfert.cosmology.weight_functions.WeightFunction.is_evaluated", kind='property')
def r_WeightFunction_is_evaluated(self):
    return self.w_bin_z is not None


@of("seyfert.cosmology.weight_functions.WeightFunction.probe", kind='property')
def r_WeightFunction_probe(self):
    return probe_from_weight_function_cls_name(self.__class__.__name__)


@of("seyfert.cosmology.weight_functions.WeightFunction.z_min", kind='property')
def r_WeightFunction_z_min(self):
    return self.density.z_min


@of("seyfert.cosmology.weight_functions.WeightFunction.z_max", kind='property')
def r_WeightFunction_z_max(self):
    return self.density.z_max


@of("seyfert.cosmology.weight_functions.WeightFunction.z_bin_centers", kind='property')
def r_WeightFunction_z_bin_centers(self):
    return self.density.z_bin_centers


@of("seyfert.cosmology.weight_functions.WeightFunction.z_bin_edges", kind='property')
def r_WeightFunction_z_bin_edges(self):
    return self.density.z_bin_edges


@of("seyfert.cosmology.weight_functions.WeightFunction.n_bins", kind='property')
def r_WeightFunction_n_bins(self):
    if hasattr(self.density, 'n_bins'):
        return self.density.n_bins
    else:
        return self.w_bin_z.shape[0]


@of("seyfert.cosmology.weight_functions.WeightFunction.n_i_z", kind='property')
def r_WeightFunction_n_i_z(self):
    return self.density.norm_density_iz


@of("seyfert.cosmology.weight_functions.WeightFunction.H_z", kind='property')
def r_WeightFunction_H_z(self):
    return self.cosmology.H_z


@of("seyfert.cosmology.weight_functions.WeightFunction.r_tilde_z", kind='property')
def r_WeightFunction_r_tilde_z(self):
    return self.cosmology.r_tilde_z


@of("seyfert.cosmology.weight_functions.WeightFunction.fromHDF5", kind='class')
def r_WeightFunction_fromHDF5(cls, file, root='/'):
    h5w = H5WeightFunction()
    w = h5w.load(file, root)
    return w


@of("seyfert.cosmology.weight_functions.WeightFunction.saveToHDF5", ret=False)
def r_WeightFunction_saveToHDF5(self, file, root='/'):
    h5w = H5WeightFunction()
    h5w.save(self, file, root)


@of("seyfert.cosmology.weight_functions.WeightFunction.loadFromHDF5", ret=False)
def r_WeightFunction_loadFromHDF5(self, file, root='/'):
    h5w = H5WeightFunction()
    h5w.openFile(file=file, mode='r', root=root)
    try:
        h5w.writeToObject(self)
    finally:
        h5w.closeFile()


@of("seyfert.cosmology.weight_functions.WeightFunction.setUp", ret=False)
def r_WeightFunction_setUp(self):
    if self.density is None:
        self.density = RedshiftDensity.fromHDF5(self.probe_config.density_init_file)
        self.density.setUp()


@of("seyfert.cosmology.weight_functions.WeightFunction.evaluateOverRedshiftGrid", ret=False)
def r_WeightFunction_evaluateOverRedshiftGrid(self, z_grid):
    self.z_grid = z_grid
    if self.density.norm_density_iz is None:
        self.density.evaluate(self.z_grid)
    self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))


@of("seyfert.cosmology.weight_functions.WeightFunction.__eq__")
def r_WeightFunction_eq(self, other):
    return np.all(self.z_grid == other.z_grid) and np.all(self.w_bin_z == other.w_bin_z)


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.__init__", ret=False)
def r_LensingWeightFunction_init(self, **kwargs):
    super(LensingWeightFunction, self).__init__(**kwargs)
    self.lensing_efficiency_integration_method = 'simpson'
    self.sigma_epsilon = 0.3
    self.shot_noise_factor = self.sigma_epsilon ** 2
    if self.angular_config is not None:
        self.lensing_efficiency_integration_method = self.angular_config.lensing_efficiency_integration_method


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.Omm", kind='property')
def r_LensingWeightFunction_Omm(self):
    return self.cosmology.Omm


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.c_km_s", kind='property')
def r_LensingWeightFunction_c_km_s(self):
    return self.cosmology.c_km_s


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.H0", kind='property')
def r_LensingWeightFunction_H0(self):
    return self.cosmology.H0


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.computeLensingEfficiencyAtBin")
def r_LensingWeightFunction_computeLensingEfficiencyAtBin(self, i, z):
    if self.lensing_efficiency_integration_method == 'quad':

        def integrand(x, bin_idx, start_z):
            return self.density.computeNormalizedDensityAtBinAndRedshift(bin_idx, x) * (1 - self.cosmology.computeComovingDistance(start_z) / self.cosmology.computeComovingDistance(x))
        if isinstance(z, float):
            result, _ = integrate.quad(integrand, z, self.z_max, args=(i, z))
        elif isinstance(z, np.ndarray):
            result = np.zeros(z.shape)
            for z_idx, myz in enumerate(z):
                result[z_idx] = integrate.quad(integrand, myz, self.z_max, args=(i, myz))[0]
        else:
            raise TypeError()
    elif self.lensing_efficiency_integration_method == 'simpson':
        if isinstance(z, float):
            z_idx = np.argmin(np.abs(z - self.z_grid))
            integ_array = self.density.norm_density_iz[i, :] * (1 - self.cosmology.r_z[z_idx] / self.cosmology.r_z)
            result = integrate.simps(y=integ_array[z_idx:], x=z[z_idx:])
        elif isinstance(z, np.ndarray):
            result = np.zeros(z.shape)
            for z_idx, myz in enumerate(z):
                integ_array = self.density.norm_density_iz[i, :] * (1 - self.cosmology.r_z[z_idx] / self.cosmology.r_z)
                result[z_idx] = integrate.simps(y=integ_array[z_idx:], x=z[z_idx:])
        else:
            raise TypeError()
    else:
        raise ValueError()
    return result


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.computeIntrinsicAlignmentContribution")
def r_LensingWeightFunction_computeIntrinsicAlignmentContribution(self):
    A_IA = self.nuisance_params['aIA'].current_value
    C_IA = self.nuisance_params['cIA'].current_value
    etaIA = self.nuisance_params['etaIA'].current_value
    betaIA = self.nuisance_params['betaIA'].current_value
    scaled_lum_z, scaled_lum_L = np.loadtxt(fsu.default_data_dir() / 'scaledmeanlum-E2Sa.dat', unpack=True)
    scaled_lum_spline = interpolate.InterpolatedUnivariateSpline(scaled_lum_z, scaled_lum_L, k=1)
    scaled_L_z_grid = scaled_lum_spline(self.z_grid)
    F_IA_z = (1 + self.z_grid) ** etaIA * scaled_L_z_grid ** betaIA
    D_z = self.cosmology.growth_factor_z
    w_IA_i_z = A_IA * C_IA * F_IA_z * self.Omm * self.H_z * self.n_i_z / (D_z * self.c_km_s)
    return w_IA_i_z


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.computeLensingEfficiency")
def r_LensingWeightFunction_computeLensingEfficiency(self, z):
    lensing_efficiency = np.zeros((self.n_bins, len(z)))
    for i in range(self.n_bins):
        lensing_efficiency[i, :] = self.computeLensingEfficiencyAtBin(i, self.z_grid)
    return lensing_efficiency


@of("seyfert.cosmology.weight_functions.LensingWeightFunction.evaluateOverRedshiftGrid", ret=False)
def r_LensingWeightFunction_evaluateOverRedshiftGrid(self, z_grid):
    super(LensingWeightFunction, self).evaluateOverRedshiftGrid(z_grid)
    wl_eff = self.computeLensingEfficiency(z_grid)
    self.w_bin_z = 1.5 * self.Omm * (1 + self.z_grid) * (self.H0 / self.c_km_s) * self.r_tilde_z * wl_eff
    if self.probe_config.specific_settings['include_IA']:
        w_IA_iz = self.computeIntrinsicAlignmentContribution()
        self.w_bin_z -= w_IA_iz


@of("seyfert.cosmology.weight_functions.WeightFunctionWithBias.__init__", ret=False)
def r_WeightFunctionWithBias_init(self, **kwargs):
    super(WeightFunctionWithBias, self).__init__(**kwargs)
    self.bias = None


@of("seyfert.cosmology.weight_functions.WeightFunctionWithBias.setUp", ret=False)
def r_WeightFunctionWithBias_setUp(self):
    super(WeightFunctionWithBias, self).setUp()
    if self.nuisance_params is not None:
        self.setupBias()
    else:
        pass


@of("seyfert.cosmology.weight_functions.WeightFunctionWithBias.setupBias", ret=False)
def r_WeightFunctionWithBias_setupBias(self):
    self.bias = Bias(probe=self.probe, z_bin_edges=self.z_bin_edges)
    self.bias.loadFromHDF5(self.probe_config.bias_init_file)
    for bias_par in self.bias.nuisance_parameters.keys():
        curr_val = self.nuisance_params[bias_par].current_value
        self.bias.nuisance_parameters[bias_par] = curr_val
    if self.bias.model_name in {'piecewise', 'constant', 'euclid_flagship_photo'}:
        self.bias.initBiasModel()


@of("seyfert.cosmology.weight_functions.WeightFunctionWithBias.evaluateOverRedshiftGrid", ret=False)
def r_WeightFunctionWithBias_evaluateOverRedshiftGrid(self, z_grid):
    super(WeightFunctionWithBias, self).evaluateOverRedshiftGrid(z_grid)
    self.setupBias()
    self.bias.evaluateBias(z_grid=self.z_grid)
    self.w_bin_z = self.cosmology.H_z / self.cosmology.c_km_s * self.density.norm_density_iz * self.bias.b_i_z


@of("seyfert.cosmology.weight_functions.VoidWeightFunction.__init__", ret=False)
def r_VoidWeightFunction_init(self, **kwargs):
    super(VoidWeightFunction, self).__init__(**kwargs)


@of("seyfert.cosmology.weight_functions.VoidWeightFunction.setupBias", ret=False)
def r_VoidWeightFunction_setupBias(self):
    super(VoidWeightFunction, self).setupBias()
    if self.bias.model_name == 'vdn_void':
        self.bias.initBiasModel(cosmology=self.cosmology)
    elif self.bias.model_name == 'fiducial_growth_void':
        self.bias.initBiasModel(fiducial_cosmology=self.fiducial_cosmology)
    else:
        raise NotImplementedError()


@of("seyfert.cosmology.weight_functions.GalaxyClusteringWeightFunction.__init__", ret=False)
def r_GalaxyClusteringWeightFunction_init(self, **kwargs):
    super(GalaxyClusteringWeightFunction, self).__init__(**kwargs)


@of("seyfert.cosmology.weight_functions.GalaxyClusteringWeightFunction.setupBias", ret=False)
def r_GalaxyClusteringWeightFunction_setupBias(self):
    super(GalaxyClusteringWeightFunction, self).setupBias()


@of("seyfert.cosmology.weight_functions.PhotometricGalaxyWeightFunction.__init__", ret=False)
def r_PhotometricGalaxyWeightFunction_init(self, **kwargs):
    super(PhotometricGalaxyWeightFunction, self).__init__(**kwargs)


@of("seyfert.cosmology.weight_functions.PhotometricGalaxyWeightFunction.setupBias", ret=False)
def r_PhotometricGalaxyWeightFunction_setupBias(self):
    super(PhotometricGalaxyWeightFunction, self).setupBias()


@of("seyfert.cosmology.weight_functions.SpectroscopicGalaxyWeightFunction.__init__", ret=False)
def r_SpectroscopicGalaxyWeightFunction_init(self, **kwargs):
    super(SpectroscopicGalaxyWeightFunction, self).__init__(**kwargs)


@of("seyfert.cosmology.weight_functions.SpectroscopicGalaxyWeightFunction.setupBias", ret=False)
def r_SpectroscopicGalaxyWeightFunction_setupBias(self):
    super(SpectroscopicGalaxyWeightFunction, self).setupBias()


@of("seyfert.cosmology.weight_functions.H5WeightFunction.__init__", ret=False)
def r_H5WeightFunction_init(self, **kwargs):
    super(H5WeightFunction, self).__init__(**kwargs)
    self.builder_func = weight_function_for_probe


@of("seyfert.cosmology.weight_functions.H5WeightFunction.readBuildingData", ret=False)
def r_H5WeightFunction_readBuildingData(self):
    self.build_data['probe'] = self.attrs['probe']


@of("seyfert.cosmology.weight_functions.H5WeightFunction.writeToObject", ret=False)
def r_H5WeightFunction_writeToObject(self, obj):
    super(H5WeightFunction, self).writeToObject(obj)
    try:
        obj.z_grid = self.root['z_grid'][()]
        obj.w_bin_z = self.root['w_bin_z'][()]
    except KeyError:
        pass
    if 'density' in self.root:
        obj.density = RedshiftDensity.fromHDF5(self.file_path, root=join(self.root_path, 'density'))
    else:
        pass
    if isinstance(obj, WeightFunctionWithBias):
        if 'bias' in self.root:
            obj.bias = Bias.fromHDF5(self.file_path, root=join(self.root_path, 'bias'))
        else:
            pass


@of("seyfert.cosmology.weight_functions.H5WeightFunction.writeObjectToFile", ret=False)
def r_H5WeightFunction_writeObjectToFile(self, obj):
    self.attrs['probe'] = obj.probe
    if obj.z_grid is not None:
        self.createDataset(name='z_grid', data=obj.z_grid)
    if obj.w_bin_z is not None:
        self.createDataset(name='w_bin_z', data=obj.w_bin_z)
    if obj.density is not None:
        obj.density.saveToHDF5(self.file_path, root=join(self.root_path, 'density'))
    else:
        pass
    if isinstance(obj, WeightFunctionWithBias):
        if obj.bias is not None:
            obj.bias.saveToHDF5(self.file_path, root=join(self.root_path, 'bias'))
        else:
            pass


@of("seyfert.cosmology.weight_functions.weight_cls_name_from_obs")
def r_weight_cls_name_from_obs(obs_string):
    return f'{obs_string}WeightFunction'


@of("seyfert.cosmology.weight_functions.probe_from_weight_function_cls_name")
def r_probe_from_weight_function_cls_name(weight_function_name):
    regex = re.compile('(?P<obs_string>[a-zA-Z]+)WeightFunction')
    match = regex.match(weight_function_name)
    if not match:
        raise Exception()
    return match.group('obs_string')


@of("seyfert.cosmology.weight_functions.weight_function_for_probe")
def r_weight_function_for_probe(probe, probe_config=None, nuisance_params=None, cosmology=None, fiducial_cosmology=None, angular_config=None):
    w_name = weight_cls_name_from_obs(probe)
    w = getattr(this_module, w_name)(cosmology=cosmology, nuisance_params=nuisance_params, probe_config=probe_config, fiducial_cosmology=fiducial_cosmology, angular_config=angular_config)
    return w

