"""Reference definitions for seyfert.cosmology.c_ells."""
from os.path import join
from scipy import integrate
from scipy import interpolate
from seyfert.cosmology import kernel_functions as kfs
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.c_ells import AngularCoefficient
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.cosmology.c_ells import ClError
from seyfert.cosmology.c_ells import H5Cl
from seyfert.cosmology.c_ells import H5ClCollection
from seyfert.cosmology.cosmology import Cosmology
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.numeric import general as nu
from seyfert.numeric.integration import CompositeNewtonCotesIntegrator
from seyfert.plot_utils.cl_plot import grid_plot
from seyfert.utils import formatters as fm
from seyfert.utils import general_utils as gu
from seyfert.utils.shortcuts import ClKey
import itertools
import logging
import numpy as np
import time

logger = logging.getLogger(__name__)


@shape("seyfert.cosmology.c_ells.ClError")
class s_ClError(Exception):
    pass


@shape("seyfert.cosmology.c_ells.AngularCoefficient")
class s_AngularCoefficient:
    angular_config: 'AngularConfig'
    forecast_config: 'ForecastConfig'
    kernel: 'kfs.KernelFunction'
    c_lij: 'np.ndarray'
    z_array: 'np.ndarray'
    cosmology: 'Cosmology'


@shape("seyfert.cosmology.c_ells.AngularCoefficientsCollector")
class s_AngularCoefficientsCollector:
    obs_list: 'List[str]'
    obs_combinations: 'List[Tuple[str]]'
    cl_file_dataset: 'h5py.File'
    cosmology: 'Cosmology'
    fiducial_cosmology: 'Cosmology'
    l_bin_centers: 'np.ndarray'
    forecast_config: 'ForecastConfig'
    cl_dict: 'Dict[str, AngularCoefficient]'
    weight_dict: 'Dict[str, wfs.WeightFunction]'
    phys_params: 'PhysicalParametersCollection'


@shape("seyfert.cosmology.c_ells.H5Cl")
class s_H5Cl(AbstractH5FileIO):
    pass


@shape("seyfert.cosmology.c_ells.H5ClCollection")
class s_H5ClCollection(AbstractH5FileIO):
    pass


@of("seyfert.cosmology.c_ells.AngularCoefficient.__init__", ret=False)
def r_AngularCoefficient_init(self, probe1=None, probe2=None, kernel=None, forecast_config=None, angular_config=None):
    self.angular_config = angular_config
    self.forecast_config = forecast_config
    self.kernel = kernel
    self.probe1 = probe1
    self.probe2 = probe2
    self.l_bin_centers = None
    self.l_bin_widths = None
    self.limber_power_spectrum_l_z = None
    self.cosmology = None
    self.c_lij = None
    self._attrs_excluded_from_equality = set()
    if self.kernel is not None:
        if self.probe1 is not None:
            assert self.probe1 == self.kernel.probe1
        else:
            self.probe1 = self.kernel.probe1
        if self.probe2 is not None:
            assert self.probe2 == self.kernel.probe2
        else:
            self.probe2 = self.kernel.probe2
        self.cosmology = self.kernel.cosmology
    if self.forecast_config is not None:
        self.l_bin_centers, self.l_bin_widths = self.forecast_config.getMultipoleArraysForProbeComb(self.obs_key)


@of("seyfert.cosmology.c_ells.AngularCoefficient.is_auto_correlation", kind='property')
def r_AngularCoefficient_is_auto_correlation(self):
    return self.probe1 == self.probe2


@of("seyfert.cosmology.c_ells.AngularCoefficient.ells", kind='property')
def r_AngularCoefficient_ells(self):
    return self.l_bin_centers


@of("seyfert.cosmology.c_ells.AngularCoefficient.power_spectrum", kind='property')
def r_AngularCoefficient_power_spectrum(self):
    return self.cosmology.power_spectrum


@of("seyfert.cosmology.c_ells.AngularCoefficient.obs_key", kind='property')
def r_AngularCoefficient_obs_key(self):
    try:
        return self.kernel.obs_key
    except AttributeError:
        return gu.get_probes_combination_key(self.probe1, self.probe2)


@of("seyfert.cosmology.c_ells.AngularCoefficient.weight1", kind='property')
def r_AngularCoefficient_weight1(self):
    return self.kernel.weight1


@of("seyfert.cosmology.c_ells.AngularCoefficient.weight2", kind='property')
def r_AngularCoefficient_weight2(self):
    return self.kernel.weight2


@of("seyfert.cosmology.c_ells.AngularCoefficient.z_array", kind='property')
def r_AngularCoefficient_z_array(self):
    try:
        return self.cosmology.z_grid
    except AttributeError:
        return self.kernel.z_grid


@of("seyfert.cosmology.c_ells.AngularCoefficient.n_z", kind='property')
def r_AngularCoefficient_n_z(self):
    return self.z_array.size


@of("seyfert.cosmology.c_ells.AngularCoefficient.n_ell", kind='property')
def r_AngularCoefficient_n_ell(self):
    return len(self.l_bin_centers)


@of("seyfert.cosmology.c_ells.AngularCoefficient.n_i", kind='property')
def r_AngularCoefficient_n_i(self):
    return self.weight1.n_bins


@of("seyfert.cosmology.c_ells.AngularCoefficient.n_j", kind='property')
def r_AngularCoefficient_n_j(self):
    return self.weight2.n_bins


@of("seyfert.cosmology.c_ells.AngularCoefficient.integ_method", kind='property')
def r_AngularCoefficient_integ_method(self):
    return self.angular_config.cl_integration_method


@of("seyfert.cosmology.c_ells.AngularCoefficient.verbose", kind='property')
def r_AngularCoefficient_verbose(self):
    return self.forecast_config.verbose


@of("seyfert.cosmology.c_ells.AngularCoefficient.getWeightFunction")
def r_AngularCoefficient_getWeightFunction(self, probe):
    if probe == self.probe1:
        return self.weight1
    elif probe == self.probe2:
        return self.weight2
    else:
        raise KeyError()


@of("seyfert.cosmology.c_ells.AngularCoefficient.getLimberRedshiftIntegrand")
def r_AngularCoefficient_getLimberRedshiftIntegrand(self, i, j):
    return self.limber_power_spectrum_l_z * self.kernel.k_ijz[i, j, :]


@of("seyfert.cosmology.c_ells.AngularCoefficient.evaluateAngularCorrelation", ret=False)
def r_AngularCoefficient_evaluateAngularCorrelation(self):
    self.c_lij = np.zeros((self.n_ell, self.n_i, self.n_j))
    if self.verbose:
        pass
    if self.is_auto_correlation:
        probe = self.probe1
        if probe != 'SpectroscopicGalaxy':
            compute_off_diagonal = True
        else:
            probe_cfg = self.forecast_config.probe_configs['SpectroscopicGalaxy']
            compute_off_diagonal = probe_cfg.specific_settings['compute_gcsp_cl_offdiag']
        for myi, myj in itertools.combinations_with_replacement(range(self.n_i), 2):
            integrand = self.getLimberRedshiftIntegrand(myi, myj)
            if myi != myj and (not compute_off_diagonal):
                if self.verbose:
                    pass
            else:
                integral = self.computeClIntegral(integrand=integrand, axis=-1)
                self.c_lij[:, myi, myj] = integral
                self.c_lij[:, myj, myi] = self.c_lij[:, myi, myj]
    else:
        for myi, myj in itertools.product(range(self.n_i), range(self.n_j)):
            integrand = self.getLimberRedshiftIntegrand(myi, myj)
            integral = self.computeClIntegral(integrand=integrand, axis=-1)
            self.c_lij[:, myi, myj] = integral


@of("seyfert.cosmology.c_ells.AngularCoefficient.computeClIntegral")
def r_AngularCoefficient_computeClIntegral(self, integrand, axis):
    method = self.angular_config.cl_integration_method
    if method.startswith('newton-cotes'):
        order = int(method.split('_')[-1])
        integrator = CompositeNewtonCotesIntegrator(x=self.z_array, y=integrand, order=order, axis=axis)
        result = integrator.computeIntegral()
    elif method == 'simpson':
        result = integrate.simps(y=integrand, x=self.z_array, axis=axis)
    elif method == 'romberg':
        dx = self.z_array[1] - self.z_array[0]
        two_power = np.log2(self.n_z - 1)
        if two_power != int(two_power):
            raise ValueError()
        result = integrate.romb(y=integrand, dx=dx, axis=axis)
    elif method == 'quad':
        result = np.zeros(integrand.shape[0])
        for ell_idx in range(len(result)):
            spl = interpolate.interp1d(x=self.z_array, y=integrand[ell_idx], kind='linear')
            result[ell_idx] = integrate.quad(spl, a=self.z_array[0], b=self.z_array[-1])[0]
    else:
        raise ClError()
    return result


@of("seyfert.cosmology.c_ells.AngularCoefficient.loadCosmology", ret=False)
def r_AngularCoefficient_loadCosmology(self, pmm_file, load_power_spectrum=True):
    self.cosmology = Cosmology.fromHDF5(pmm_file, load_power_spectrum=load_power_spectrum)


@of("seyfert.cosmology.c_ells.AngularCoefficient.setUp", ret=False)
def r_AngularCoefficient_setUp(self):
    if self.probe1 != self.probe2:
        self.l_bin_centers, self.l_bin_widths = self.forecast_config.getMultipoleArraysForProbeComb(self.obs_key)
    else:
        self.l_bin_centers = self.forecast_config.probe_configs[self.probe1].l_bin_centers
        self.l_bin_widths = self.forecast_config.probe_configs[self.probe1].l_bin_widths
    self.evaluateLimberApproximatedPowerSpectrum()
    if not self.kernel.is_evaluated:
        self.kernel.evaluateOverRedshiftGrid(self.z_array)


@of("seyfert.cosmology.c_ells.AngularCoefficient.evaluateLimberApproximatedPowerSpectrum", ret=False)
def r_AngularCoefficient_evaluateLimberApproximatedPowerSpectrum(self):
    pmm_logspline = interpolate.RectBivariateSpline(self.z_array, np.log10(self.power_spectrum.k_grid), np.log10(self.power_spectrum.nonlin_p_mm_z_k), kx=self.angular_config.limber_spline_kx, ky=self.angular_config.limber_spline_ky, s=self.angular_config.limber_spline_s)
    self.limber_power_spectrum_l_z = np.zeros((len(self.l_bin_centers), len(self.z_array)))
    k_lz = np.expand_dims(self.l_bin_centers + 0.5, 1) / self.cosmology.r_z
    for z_idx, myz in enumerate(self.z_array):
        self.limber_power_spectrum_l_z[:, z_idx] = pmm_logspline(myz, np.log10(k_lz[:, z_idx]))
    self.limber_power_spectrum_l_z = 10 ** self.limber_power_spectrum_l_z
    if 'Void' in self.obs_key:
        self.applyVoidsCutToLimberPowerSpectrum()


@of("seyfert.cosmology.c_ells.AngularCoefficient.applyVoidsCutToLimberPowerSpectrum", ret=False)
def r_AngularCoefficient_applyVoidsCutToLimberPowerSpectrum(self):
    smooth_array = np.zeros(self.limber_power_spectrum_l_z.shape)
    probe_cfg = self.forecast_config.probe_configs['Void']
    k_void_cut = probe_cfg.specific_settings['void_kcut_invMpc']
    k_void_cut_width = probe_cfg.specific_settings['void_kcut_width_invMpc']
    k_min = k_void_cut - k_void_cut_width
    k_max = k_void_cut + k_void_cut_width
    k_lz = np.expand_dims(self.l_bin_centers + 0.5, 1) / self.cosmology.r_z
    for z_idx, myz in enumerate(self.z_array):
        smooth_array[:, z_idx] = 1 - nu.smoothstep(x=k_lz[:, z_idx], x_min=k_min, x_max=k_max, N=3)
    self.limber_power_spectrum_l_z *= smooth_array


@of("seyfert.cosmology.c_ells.AngularCoefficient.fromHDF5", kind='class')
def r_AngularCoefficient_fromHDF5(cls, file, probe1, probe2, root='/'):
    h5cl = H5Cl(probe1, probe2)
    return h5cl.load(file, root)


@of("seyfert.cosmology.c_ells.AngularCoefficient.saveToHDF5", ret=False)
def r_AngularCoefficient_saveToHDF5(self, file, root='/'):
    h5cl = H5Cl(self.probe1, self.probe2)
    h5cl.save(self, file, root)


@of("seyfert.cosmology.c_ells.AngularCoefficient.loadFromHDF5", ret=False)
def r_AngularCoefficient_loadFromHDF5(self, file, probe1=None, probe2=None, root='/'):
    if probe1 is None:
        probe1 = self.probe1
    if probe2 is None:
        probe2 = self.probe2
    h5cl = H5Cl(probe1, probe2)
    h5cl.openFile(file=file, mode='r', root=root)
    try:
        h5cl.writeToObject(self)
    finally:
        h5cl.closeFile()


@of("seyfert.cosmology.c_ells.AngularCoefficient.__eq__")
def r_AngularCoefficient_eq(self, other):
    return all([np.all(self.c_lij == other.c_lij), np.all(self.l_bin_centers == other.l_bin_centers), np.all(self.l_bin_widths == other.l_bin_widths)])


@of("seyfert.cosmology.c_ells.AngularCoefficient.plot")
def r_AngularCoefficient_plot(self, what='cl', axes=None, **kwargs):
    kwds = {'label': self.obs_key, 'triangular': self.is_auto_correlation}
    kwds.update(kwargs)
    if what == 'cl':
        if 'logx' not in kwds:
            kwds['logx'] = True
        x = self.l_bin_centers
        y = np.transpose(self.c_lij, axes=(1, 2, 0))
        fig, axes = grid_plot(x=x, y=y, axes=axes, **kwds)
    elif what == 'kernel':
        x = self.z_array
        y = self.kernel.k_ijz
        fig, axes = grid_plot(x=x, y=y, axes=axes, **kwds)
    else:
        raise ValueError()
    return (fig, axes)


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.__init__", ret=False)
def r_AngularCoefficientsCollector_init(self, phys_params=None, cosmology=None, fiducial_cosmology=None, forecast_config=None, angular_config=None, full_output=False):
    self.phys_params = phys_params
    self.forecast_config = forecast_config
    self.angular_config = angular_config
    self.cl_dict = {}
    self.cosmology = cosmology
    self.fiducial_cosmology = fiducial_cosmology
    self.z_grid = None
    self.weight_dict = {}
    self.full_output = full_output
    self._attrs_excluded_from_equality = set()
    self.ready_to_compute = False
    if self.cosmology is not None:
        self.z_grid = self.cosmology.z_grid


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.probes", kind='property')
def r_AngularCoefficientsCollector_probes(self):
    try:
        return self.forecast_config.present_probes
    except AttributeError:
        return list(self.weight_dict.keys())


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.probes_combinations", kind='property')
def r_AngularCoefficientsCollector_probes_combinations(self):
    try:
        return self.forecast_config.probes_combinations
    except AttributeError:
        pass


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.short_keys", kind='property')
def r_AngularCoefficientsCollector_short_keys(self):
    return [ClKey(key).toShortKey().key for key in self.cl_dict]


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.verbose", kind='property')
def r_AngularCoefficientsCollector_verbose(self):
    return self.forecast_config.verbose


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.__getitem__")
def r_AngularCoefficientsCollector_getitem(self, key):
    return self.cl_dict[ClKey(key).toLongKey().key]


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.evaluateAngularCoefficients", ret=False)
def r_AngularCoefficientsCollector_evaluateAngularCoefficients(self):
    if not self.ready_to_compute:
        raise ClError()
    if self.verbose:
        pass
    for obs_key in self.cl_dict:
        if self.verbose:
            pass
        t0 = time.time()
        self.cl_dict[obs_key].evaluateAngularCorrelation()
        tf = time.time()
        if self.verbose:
            pass


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.setUp", ret=False)
def r_AngularCoefficientsCollector_setUp(self, densities):
    if not isinstance(self.z_grid, np.ndarray):
        raise TypeError()
    for probe in self.probes:
        probe_cfg = self.forecast_config.probe_configs[probe]
        nuisance_params = self.phys_params.getNuisanceParametersForProbe(probe)
        w = wfs.weight_function_for_probe(probe, probe_config=probe_cfg, nuisance_params=nuisance_params, cosmology=self.cosmology, fiducial_cosmology=self.fiducial_cosmology, angular_config=self.angular_config)
        w.density = densities[probe]
        w.setUp()
        w.evaluateOverRedshiftGrid(self.z_grid)
        self.weight_dict[probe] = w
    for probe_1, probe_2 in self.probes_combinations:
        obs_key = gu.get_probes_combination_key(probe_1, probe_2)
        kernel = kfs.KernelFunction(probe_1, probe_2, weight1=self.weight_dict[probe_1], weight2=self.weight_dict[probe_2], cosmology=self.cosmology)
        self.cl_dict[obs_key] = AngularCoefficient(probe1=probe_1, probe2=probe_2, kernel=kernel, forecast_config=self.forecast_config, angular_config=self.angular_config)
        self.cl_dict[obs_key].setUp()
    self.ready_to_compute = True


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.saveToHDF5", ret=False)
def r_AngularCoefficientsCollector_saveToHDF5(self, file, root='/'):
    h5cl_coll = H5ClCollection()
    h5cl_coll.save(self, file, root)


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.loadFromHDF5", ret=False)
def r_AngularCoefficientsCollector_loadFromHDF5(self, file, root='/'):
    h5cl_coll = H5ClCollection()
    h5cl_coll.openFile(file=file, mode='r', root=root)
    try:
        h5cl_coll.writeToObject(self)
    finally:
        h5cl_coll.closeFile()


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.fromHDF5", kind='class')
def r_AngularCoefficientsCollector_fromHDF5(cls, file, root='/'):
    h5cl_coll = H5ClCollection()
    return h5cl_coll.load(file, root)


@of("seyfert.cosmology.c_ells.AngularCoefficientsCollector.__eq__")
def r_AngularCoefficientsCollector_eq(self, other):
    return set(self.cl_dict) == set(other.cl_dict) and all((self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict))


@of("seyfert.cosmology.c_ells.H5Cl.__init__", ret=False)
def r_H5Cl_init(self, probe1=None, probe2=None, **kwargs):
    super(H5Cl, self).__init__(**kwargs)
    self.probe1 = probe1
    self.probe2 = probe2
    self.builder_func = AngularCoefficient


@of("seyfert.cosmology.c_ells.H5Cl.main_path_rel_to_root", kind='property')
def r_H5Cl_main_path_rel_to_root(self):
    if isinstance(self.probe1, str) and isinstance(self.probe2, str):
        return gu.get_probes_combination_key(self.probe1, self.probe2)
    else:
        raise TypeError()


@of("seyfert.cosmology.c_ells.H5Cl.absolute_main_path", kind='property')
def r_H5Cl_absolute_main_path(self):
    return join(self.root_path, self.main_path_rel_to_root)


@of("seyfert.cosmology.c_ells.H5Cl.readBuildingData", ret=False)
def r_H5Cl_readBuildingData(self):
    self.build_data['probe1'] = self.probe1
    self.build_data['probe2'] = self.probe2


@of("seyfert.cosmology.c_ells.H5Cl.writeToObject", ret=False)
def r_H5Cl_writeToObject(self, obj):
    super(H5Cl, self).writeToObject(obj)
    if self.main_path_rel_to_root is None:
        raise ValueError()
    main_grp = self.root[f'{self.main_path_rel_to_root}']
    obj.c_lij = main_grp['c_lij'][()]
    obj.l_bin_centers = main_grp['l_bin_centers'][()]
    if 'l_bin_widths' in main_grp:
        obj.l_bin_widths = main_grp['l_bin_widths'][()]
    else:
        pass
    ker_path = f'{self.absolute_main_path}/kernel'
    if ker_path in self.root:
        h5k = kfs.H5Kernel()
        obj.kernel = h5k.load(self.file_path, root=ker_path)
        w1_root_path = self.findGroup(f'weight_functions/{self.probe1}')[0]
        w2_root_path = self.findGroup(f'weight_functions/{self.probe2}')[0]
        h5w1 = wfs.H5WeightFunction()
        h5w2 = wfs.H5WeightFunction()
        obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
        obj.kernel.weight2 = h5w2.load(self.file_path, root=w2_root_path)


@of("seyfert.cosmology.c_ells.H5Cl.writeObjectToFile", ret=False)
def r_H5Cl_writeObjectToFile(self, obj):
    super(H5Cl, self).writeObjectToFile(obj)
    self.createDataset(name=f'{self.main_path_rel_to_root}/c_lij', data=obj.c_lij)
    self.createDataset(name=f'{self.main_path_rel_to_root}/l_bin_centers', data=obj.l_bin_centers)
    if obj.l_bin_widths is not None:
        self.createDataset(name=f'{self.main_path_rel_to_root}/l_bin_widths', data=obj.l_bin_widths)
    else:
        pass
    if obj.kernel is not None:
        h5k = kfs.H5Kernel()
        h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
    if obj.kernel is not None and obj.weight1 is not None:
        w1_root_path = f'weight_functions/{self.probe1}'
        if w1_root_path not in self._h5file:
            h5w = wfs.H5WeightFunction()
            h5w.save(obj.weight1, self.file_path, root=w1_root_path)
        w2_root_path = f'weight_functions/{self.probe2}'
        if w2_root_path not in self._h5file:
            h5w = wfs.H5WeightFunction()
            h5w.save(obj.weight2, self.file_path, root=w2_root_path)


@of("seyfert.cosmology.c_ells.H5ClCollection.__init__", ret=False)
def r_H5ClCollection_init(self, **kwargs):
    super(H5ClCollection, self).__init__(**kwargs)
    self.builder_func = AngularCoefficientsCollector


@of("seyfert.cosmology.c_ells.H5ClCollection.writeToObject", ret=False)
def r_H5ClCollection_writeToObject(self, obj):
    super(H5ClCollection, self).writeToObject(obj)
    if 'z_grid' in self.root:
        obj.z_grid = self.root['z_grid'][()]
    elif 'z_array' in self.root:
        obj.z_grid = self.root['z_array'][()]
    obj.weight_dict = {}
    if 'weight_functions' in self.root:
        w_grp = self.root['weight_functions']
        w_grp_path = w_grp.name
        for w_probe in w_grp:
            h5w = wfs.H5WeightFunction()
            obj.weight_dict[w_probe] = h5w.load(file=self.file_path, root=f'{w_grp_path}/{w_probe}')
    else:
        pass
    cls_grp = self.root['cls']
    cls_grp_path = cls_grp.name
    for cl_kind in cls_grp:
        p1, p2 = gu.get_probes_from_comb_key(cl_kind)
        h5cl = H5Cl(probe1=p1, probe2=p2)
        cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
        cl_obj: 'AngularCoefficient'
        if cl_obj.kernel is not None:
            if p1 not in obj.weight_dict:
                obj.weight_dict[p1] = cl_obj.weight1
            if p2 not in obj.weight_dict:
                obj.weight_dict[p2] = cl_obj.weight2
        obj.cl_dict[cl_kind] = cl_obj


@of("seyfert.cosmology.c_ells.H5ClCollection.writeObjectToFile", ret=False)
def r_H5ClCollection_writeObjectToFile(self, obj):
    super(H5ClCollection, self).writeObjectToFile(obj)
    if obj.z_grid is not None:
        self.createDataset(name='z_grid', data=obj.z_grid)
    cls_grp_path = join(self.root_path, 'cls')
    self.createGroup(name=cls_grp_path)
    for cl_kind, cl in obj.cl_dict.items():
        cl.saveToHDF5(self.file_path, root=cls_grp_path)
    weights_path = join(self.root_path, 'weight_functions')
    for w_probe, w in obj.weight_dict.items():
        w_path = f'{weights_path}/{w_probe}'
        if w_path not in self._h5file:
            w.saveToHDF5(self.file_path, root=w_path)

