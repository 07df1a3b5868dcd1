"""Reference definitions for seyfert.cosmology.bias."""
from abc import ABC, abstractmethod
from scipy import integrate
from scipy import interpolate
from seyfert.cosmology.bias import Bias
from seyfert.cosmology.bias import BiasError
from seyfert.cosmology.bias import BiasModel
from seyfert.cosmology.bias import ConstantBias
from seyfert.cosmology.bias import EuclidFlagshipGCphBias
from seyfert.cosmology.bias import FiducialGrowthVoidBias
from seyfert.cosmology.bias import H5Bias
from seyfert.cosmology.bias import PiecewiseBias
from seyfert.cosmology.bias import VdnVoidBias
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.numeric import general
from seyfert.utils import general_utils as gu
import logging
import numpy as np
import re

logger = logging.getLogger(__name__)
BIAS_MODELS = ['piecewise', 'vdn_void', 'fiducial_growth_void']

constants("seyfert.cosmology.bias", 'BIAS_MODELS')


@shape("seyfert.cosmology.bias.BiasError")
class s_BiasError(Exception):
    pass


@shape("seyfert.cosmology.bias.Bias")
class s_Bias:
    model: 'BiasModel'
    nuisance_parameters: 'Dict[str, float]'
    additional_parameters: 'Dict[str, float]'
    z_grid: 'np.ndarray'
    b_i_z: 'np.ndarray'
    model_name: 'str'
    _attrs_excluded_from_equality: 'Set'


@shape("seyfert.cosmology.bias.H5Bias")
class s_H5Bias(AbstractH5FileIO):
    pass


@shape("seyfert.cosmology.bias.BiasModel")
class s_BiasModel(ABC):
    z_bin_edges: 'np.ndarray'
    cosmology: 'Cosmology'


@shape("seyfert.cosmology.bias.ConstantBias")
class s_ConstantBias(BiasModel):
    pass


@shape("seyfert.cosmology.bias.PiecewiseBias")
class s_PiecewiseBias(BiasModel):
    pass


@shape("seyfert.cosmology.bias.EuclidFlagshipGCphBias")
class s_EuclidFlagshipGCphBias(BiasModel):
    pass


@shape("seyfert.cosmology.bias.FiducialGrowthVoidBias")
class s_FiducialGrowthVoidBias(BiasModel):
    pass


@shape("seyfert.cosmology.bias.VdnVoidBias")
class s_VdnVoidBias(BiasModel):
    pass


@of("seyfert.cosmology.bias.Bias.__init__", ret=False)
def r_Bias_init(self, probe=None, z_bin_edges=None):
    self.probe = probe
    self.nuisance_parameters = None
    self.additional_parameters = None
    self.z_grid = None
    self.b_i_z = None
    self.model = None
    self.model_name = None
    self.z_bin_edges = z_bin_edges
    self._attrs_excluded_from_equality = {'model'}


@of("seyfert.cosmology.bias.Bias.has_output", kind='property')
def r_Bias_has_output(self):
    return self.b_i_z is not None


@of("seyfert.cosmology.bias.Bias.initBiasModel", ret=False)
def r_Bias_initBiasModel(self, **kwargs):
    if self.model_name == 'piecewise':
        self.model = PiecewiseBias(name=self.model_name, nuisance_parameters=self.nuisance_parameters, z_bin_edges=self.z_bin_edges)
    elif self.model_name == 'constant':
        self.model = ConstantBias(name=self.model_name, nuisance_parameters=self.nuisance_parameters, z_bin_edges=self.z_bin_edges)
    elif self.model_name == 'euclid_flagship_photo':
        self.model = EuclidFlagshipGCphBias(name=self.model_name, nuisance_parameters=self.nuisance_parameters, z_bin_edges=self.z_bin_edges)
    elif self.model_name == 'vdn_void':
        if 'cosmology' not in kwargs:
            raise BiasError()
        self.model = VdnVoidBias(cosmology=kwargs['cosmology'], name=self.model_name, z_bin_edges=self.z_bin_edges, nuisance_parameters=self.nuisance_parameters, additional_parameters=self.additional_parameters)
    elif self.model_name == 'fiducial_growth_void':
        if 'fiducial_cosmology' not in kwargs:
            raise BiasError()
        self.model = FiducialGrowthVoidBias(cosmology=kwargs['fiducial_cosmology'], name=self.model_name, nuisance_parameters=self.nuisance_parameters, z_bin_edges=self.z_bin_edges)
    else:
        raise KeyError()


@of("seyfert.cosmology.bias.Bias.evaluateBias", ret=False)
def r_Bias_evaluateBias(self, z_grid):
    self.z_grid = z_grid
    self.b_i_z = self.model.computeBias(self.z_grid)


@of("seyfert.cosmology.bias.Bias.fromHDF5", kind='static')
def r_Bias_fromHDF5(file, root='/'):
    h5bias = H5Bias()
    return h5bias.load(file, root)


@of("seyfert.cosmology.bias.Bias.loadFromHDF5", ret=False)
def r_Bias_loadFromHDF5(self, file, root='/'):
    h5bias = H5Bias()
    h5bias.openFile(file=file, mode='r', root=root)
    try:
        h5bias.writeToObject(self)
    finally:
        h5bias.closeFile()


@of("seyfert.cosmology.bias.Bias.saveToHDF5", ret=False)
def r_Bias_saveToHDF5(self, file, root='/'):
    h5bias = H5Bias()
    h5bias.save(self, file, root)


@of("seyfert.cosmology.bias.Bias.__eq__")
def r_Bias_eq(self, other):
    return gu.compare_objects(self, other, self._attrs_excluded_from_equality)


@of("seyfert.cosmology.bias.H5Bias.__init__", ret=False)
def r_H5Bias_init(self, **kwargs):
    super(H5Bias, self).__init__(**kwargs)
    self.builder_func = Bias


@of("seyfert.cosmology.bias.H5Bias.writeObjectToFile", ret=False)
def r_H5Bias_writeObjectToFile(self, obj):
    if obj.z_bin_edges is not None:
        self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
    self.attrs['probe'] = obj.probe
    bias_model_grp = self.createGroup(name='bias_model')
    bias_model_grp.attrs['model_name'] = obj.model_name
    add_params_grp = self.createGroup(name='additional_parameters', base_grp=bias_model_grp)
    self.createDatasets(obj.additional_parameters, base_grp=add_params_grp)
    nuis_params_grp = self.createGroup(name='nuisance_parameters', base_grp=bias_model_grp)
    self.createDatasets(obj.nuisance_parameters, base_grp=nuis_params_grp)
    if obj.z_grid is not None:
        self.createDataset(name='z_grid', data=obj.z_grid)
    if obj.b_i_z is not None:
        self.createDataset(name='b_i_z', data=obj.b_i_z)


@of("seyfert.cosmology.bias.H5Bias.writeToObject", ret=False)
def r_H5Bias_writeToObject(self, obj):
    super(H5Bias, self).writeToObject(obj)
    obj.probe = self.attrs['probe']
    obj.model_name = self.root['bias_model'].attrs['model_name']
    if 'z_bin_edges' in self.root:
        obj.z_bin_edges = self.root['z_bin_edges'][()]
    obj.additional_parameters = {key: dset[()] for key, dset in self.root['bias_model/additional_parameters'].items()}
    obj.nuisance_parameters = {key: dset[()] for key, dset in self.root['bias_model/nuisance_parameters'].items()}
    try:
        obj.z_grid = self.root['z_grid'][()]
        if 'b_i_z' in self.root:
            obj.b_i_z = self.root['b_i_z'][()]
    except KeyError:
        pass


@of("seyfert.cosmology.bias.BiasModel.__init__", ret=False)
def r_BiasModel_init(self, name=None, z_bin_edges=None, cosmology=None, nuisance_parameters=None, additional_parameters=None):
    self.model_name = name
    self.nuisance_parameters = nuisance_parameters
    self.additional_parameters = additional_parameters
    self._attrs_excluded_from_equality = set()
    self.z_bin_edges = z_bin_edges
    self.cosmology = cosmology


@of("seyfert.cosmology.bias.BiasModel.z_bin_centers", kind='property')
def r_BiasModel_z_bin_centers(self):
    return (self.z_bin_edges[:-1] + self.z_bin_edges[1:]) / 2


@of("seyfert.cosmology.bias.BiasModel.n_bins", kind='property')
def r_BiasModel_n_bins(self):
    return len(self.z_bin_edges) - 1


@of("seyfert.cosmology.bias.BiasModel.getSortedBiasValues")
def r_BiasModel_getSortedBiasValues(self):
    par_names = list(self.nuisance_parameters.keys())
    digit_regex = re.compile('\\d+')

    def _get_bias_idx(s):
        match = digit_regex.search(s)
        return int(s[match.start():match.end()])
    return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])


@of("seyfert.cosmology.bias.BiasModel.__eq__")
def r_BiasModel_eq(self, other):
    return gu.compare_objects(self, other, self._attrs_excluded_from_equality)


@of("seyfert.cosmology.bias.ConstantBias.__init__", ret=False)
def r_ConstantBias_init(self, **kwargs):
    super(ConstantBias, self).__init__(**kwargs)


@of("seyfert.cosmology.bias.ConstantBias.computeBias")
def r_ConstantBias_computeBias(self, z_grid):
    b_i = self.getSortedBiasValues()
    if len(b_i) != self.n_bins:
        raise BiasError()
    return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)


@of("seyfert.cosmology.bias.PiecewiseBias.__init__", ret=False)
def r_PiecewiseBias_init(self, **kwargs):
    super().__init__(**kwargs)


@of("seyfert.cosmology.bias.PiecewiseBias.computeBias")
def r_PiecewiseBias_computeBias(self, z_grid):
    cond_list, vals_list = self.getConditionAndValuesLists(z_grid)
    b_z = np.piecewise(z_grid, cond_list, vals_list)
    b_i_z = np.repeat(b_z[np.newaxis, :], self.n_bins, axis=0)
    return b_i_z


@of("seyfert.cosmology.bias.PiecewiseBias.getConditionAndValuesLists")
def r_PiecewiseBias_getConditionAndValuesLists(self, z_grid):
    b_i = self.getSortedBiasValues()
    if len(b_i) != self.n_bins:
        raise BiasError()
    cond_list = [(z_grid >= self.z_bin_edges[i]) & (z_grid <= self.z_bin_edges[i + 1]) for i in range(self.n_bins)]
    vals_list = list(b_i)
    cond_list.insert(0, z_grid < self.z_bin_edges[0])
    vals_list.insert(0, b_i[0])
    cond_list.append(z_grid > self.z_bin_edges[-1])
    vals_list.append(b_i[-1])
    return (cond_list, vals_list)


@of("seyfert.cosmology.bias.EuclidFlagshipGCphBias.__init__", ret=False)
def r_EuclidFlagshipGCphBias_init(self, **kwargs):
    super().__init__(**kwargs)


@of("seyfert.cosmology.bias.EuclidFlagshipGCphBias.Aph", kind='property')
def r_EuclidFlagshipGCphBias_Aph(self):
    return self.nuisance_parameters['Aph']


@of("seyfert.cosmology.bias.EuclidFlagshipGCphBias.Bph", kind='property')
def r_EuclidFlagshipGCphBias_Bph(self):
    return self.nuisance_parameters['Bph']


@of("seyfert.cosmology.bias.EuclidFlagshipGCphBias.Cph", kind='property')
def r_EuclidFlagshipGCphBias_Cph(self):
    return self.nuisance_parameters['Cph']


@of("seyfert.cosmology.bias.EuclidFlagshipGCphBias.Dph", kind='property')
def r_EuclidFlagshipGCphBias_Dph(self):
    return self.nuisance_parameters['Dph']


@of("seyfert.cosmology.bias.EuclidFlagshipGCphBias.computeBias")
def r_EuclidFlagshipGCphBias_computeBias(self, z_grid):
    b_z = self.Aph + self.Bph / (1 + np.exp(-self.Cph * (z_grid - self.Dph)))
    b_i_z = np.repeat(b_z[np.newaxis, :], self.n_bins, axis=0)
    return b_i_z


@of("seyfert.cosmology.bias.FiducialGrowthVoidBias.__init__", ret=False)
def r_FiducialGrowthVoidBias_init(self, **kwargs):
    super().__init__(**kwargs)


@of("seyfert.cosmology.bias.FiducialGrowthVoidBias.computeBias")
def r_FiducialGrowthVoidBias_computeBias(self, z_grid):
    if not np.all(z_grid == self.cosmology.z_grid):
        raise BiasError()
    vb_0 = self.nuisance_parameters['voidbias0']
    fullgrid_b_z = vb_0 / self.cosmology.growth_factor_z
    spline = interpolate.InterpolatedUnivariateSpline(x=z_grid, y=fullgrid_b_z, k=3)
    b_i = spline(self.z_bin_centers)
    b_i_z = np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
    return b_i_z


@of("seyfert.cosmology.bias.VdnVoidBias.__init__", ret=False)
def r_VdnVoidBias_init(self, **kwargs):
    super().__init__(**kwargs)


@of("seyfert.cosmology.bias.VdnVoidBias.z_grid", kind='property')
def r_VdnVoidBias_z_grid(self):
    return self.cosmology.z_grid


@of("seyfert.cosmology.bias.VdnVoidBias.R_min_Mpc", kind='property')
def r_VdnVoidBias_R_min_Mpc(self):
    return self.additional_parameters['R_min_Mpc']


@of("seyfert.cosmology.bias.VdnVoidBias.R_max_Mpc", kind='property')
def r_VdnVoidBias_R_max_Mpc(self):
    return self.additional_parameters['R_max_Mpc']


@of("seyfert.cosmology.bias.VdnVoidBias.n_R", kind='property')
def r_VdnVoidBias_n_R(self):
    return int(self.additional_parameters['R_grid_size'])


@of("seyfert.cosmology.bias.VdnVoidBias.delta_c0", kind='property')
def r_VdnVoidBias_delta_c0(self):
    return self.additional_parameters['delta_c0']


@of("seyfert.cosmology.bias.VdnVoidBias.delta_v0", kind='property')
def r_VdnVoidBias_delta_v0(self):
    return self.additional_parameters['delta_v0']


@of("seyfert.cosmology.bias.VdnVoidBias.computeBias")
def r_VdnVoidBias_computeBias(self, z_grid):
    if not np.all(z_grid == self.z_grid):
        raise BiasError()
    R = np.linspace(self.R_min_Mpc, self.R_max_Mpc, self.n_R)
    sigmaR = self.cosmology.computeSigmaR(R)
    sigma_R_z = np.expand_dims(sigmaR, 1)
    delta_c_z = self.delta_c0 / self.cosmology.growth_factor_z
    delta_v_z = self.delta_v0 / self.cosmology.growth_factor_z
    D = np.abs(delta_v_z) / (np.abs(delta_v_z) + delta_c_z)
    x = D / np.abs(delta_v_z) * sigma_R_z
    nu = np.abs(delta_v_z) / sigma_R_z
    void_bias_R_z = 1 + (nu ** 2 - 1) / delta_v_z + delta_v_z * D / (4 * delta_c_z ** 2 * nu ** 2)
    Vdn_size_func_R_z = self.computeVdnSizeFunction(R, D, x, delta_v_z, sigmaR)
    weighted_bias_z = np.zeros(self.z_grid.shape)
    for z_idx, myz in enumerate(self.z_grid):
        norm_z = integrate.simps(Vdn_size_func_R_z[:, z_idx], R)
        weighted_bias_z[z_idx] = integrate.simps((void_bias_R_z * Vdn_size_func_R_z)[:, z_idx], R)
        weighted_bias_z[z_idx] /= norm_z
    spline = interpolate.InterpolatedUnivariateSpline(x=self.z_grid, y=weighted_bias_z, k=3)
    b_i = spline(self.z_bin_centers)
    b_i_z = np.repeat(b_i[:, np.newaxis], len(self.z_grid), axis=1)
    return b_i_z


@of("seyfert.cosmology.bias.VdnVoidBias.computeVdnSizeFunction")
def r_VdnVoidBias_computeVdnSizeFunction(self, R, D, x, delta_v_z, sigmaR):
    RL = R / 1.7
    RL_step = RL[1] - RL[0]
    sigma_RL = np.zeros(self.n_R)
    d_sigma_d_RL = np.zeros(self.n_R)
    p_lin_k_today = self.cosmology.power_spectrum.lin_p_mm_z_k[0, :]
    k_grid = self.cosmology.power_spectrum.k_grid
    for RL_idx, myRL in enumerate(RL):
        sigma_RL[RL_idx] = self.cosmology.computeSigmaR(myRL)
        d_sigma_d_RL[RL_idx] = general.callable_stencil_derivative(f=self.cosmology.sigmaR, x=myRL, step=0.5 * RL_step, P_lin=p_lin_k_today, k=k_grid)
    V_R = 4 * np.pi * R ** 3 / 3
    f_ln_sigma = self.computeVoidMultiplicity(D, x, delta_v_z, sigmaR)
    R_factor = 1 / (R * V_R) * (-(RL / sigma_RL) * d_sigma_d_RL)
    Vdn_size_func_R_z = f_ln_sigma * np.expand_dims(R_factor, 1)
    return Vdn_size_func_R_z


@of("seyfert.cosmology.bias.VdnVoidBias.voidMultiplicity", kind='static')
def r_VdnVoidBias_voidMultiplicity(delta_v, D, sigma, x):
    if x <= 0.276:
        result = np.sqrt(2 / np.pi) * (np.abs(delta_v) / sigma) * np.exp(-delta_v ** 2 / (2 * sigma ** 2))
    else:
        result = 0
        for j in range(1, 5):
            result += j * np.pi * x ** 2 * np.sin(j * np.pi * D) * np.exp(-(j * np.pi * x) ** 2 / 2)
        result *= 2
    return result


@of("seyfert.cosmology.bias.VdnVoidBias.computeVoidMultiplicity")
def r_VdnVoidBias_computeVoidMultiplicity(self, D, x, delta_v_z, sigmaR):
    f_ln_sigma = np.zeros((self.n_R, len(delta_v_z)))
    for R_idx in range(f_ln_sigma.shape[0]):
        for z_idx in range(f_ln_sigma.shape[1]):
            f_ln_sigma[R_idx, z_idx] = self.voidMultiplicity(delta_v_z[z_idx], D[z_idx], sigmaR[R_idx], x[R_idx, z_idx])
    return f_ln_sigma

