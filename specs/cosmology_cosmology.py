"""Reference definitions for seyfert.cosmology.cosmology."""
from numba import jit
from os.path import join
from pathlib import Path
from scipy import constants
from scipy import integrate
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.cosmology import CosmologyError
from seyfert.cosmology.cosmology import H5Cosmology
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.power_spectrum import PowerSpectrum, H5PowerSpectrum
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.numeric import general as nu
from typing import Union
import logging
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.cosmology.cosmology.CosmologyError")
class s_CosmologyError(Exception):
    pass


@shape("seyfert.cosmology.cosmology.Cosmology")
class s_Cosmology:
    dimensionless_hubble_array: 'np.ndarray'
    dimensionless_comoving_distance_array: 'np.ndarray'
    power_spectrum: 'PowerSpectrum'
    c_km_s: 'float'
    z_grid: 'np.ndarray'
    params: 'Dict[str, PhysicalParameter]'


@shape("seyfert.cosmology.cosmology.H5Cosmology")
class s_H5Cosmology(AbstractH5FileIO):
    pass


@of("seyfert.cosmology.cosmology.Cosmology.__init__", ret=False)
def r_Cosmology_init(self, params=None, flat=None, model_name='CPL', z_grid=None, cosmology_name=None):
    self.dimensionless_hubble_array = None
    self.dimensionless_comoving_distance_array = None
    self.c_km_s = constants.c / 1000
    self.z_grid = z_grid
    self.model_name = model_name
    self.is_flat = flat
    self._transfer_func_k = None
    self.growth_factor_z = None
    self.power_spectrum = None
    self.params = params
    self.name = cosmology_name
    if self.params is not None and self.is_flat is not None:
        self.checkParameters()
    elif (self.params is not None) ^ (self.is_flat is not None):
        raise CosmologyError()


@of("seyfert.cosmology.cosmology.Cosmology.cosmo_pars_current", kind='property')
def r_Cosmology_cosmo_pars_current(self):
    return {name: par.current_value for name, par in self.params.items()}


@of("seyfert.cosmology.cosmology.Cosmology.H0", kind='property')
def r_Cosmology_H0(self):
    return self.h * 100


@of("seyfert.cosmology.cosmology.Cosmology.h", kind='property')
def r_Cosmology_h(self):
    return self.cosmo_pars_current['h']


@of("seyfert.cosmology.cosmology.Cosmology.w0", kind='property')
def r_Cosmology_w0(self):
    return self.cosmo_pars_current['w0']


@of("seyfert.cosmology.cosmology.Cosmology.wa", kind='property')
def r_Cosmology_wa(self):
    return self.cosmo_pars_current['wa']


@of("seyfert.cosmology.cosmology.Cosmology.Omm", kind='property')
def r_Cosmology_Omm(self):
    return self.cosmo_pars_current['Omm']


@of("seyfert.cosmology.cosmology.Cosmology.OmDE", kind='property')
def r_Cosmology_OmDE(self):
    return self.cosmo_pars_current['OmDE']


@of("seyfert.cosmology.cosmology.Cosmology.OmK", kind='property')
def r_Cosmology_OmK(self):
    return round(1 - (self.Omm + self.OmDE), 10)


@of("seyfert.cosmology.cosmology.Cosmology.Omb", kind='property')
def r_Cosmology_Omb(self):
    return self.cosmo_pars_current['Omb']


@of("seyfert.cosmology.cosmology.Cosmology.sigma8", kind='property')
def r_Cosmology_sigma8(self):
    return self.cosmo_pars_current['sigma8']


@of("seyfert.cosmology.cosmology.Cosmology.ns", kind='property')
def r_Cosmology_ns(self):
    return self.cosmo_pars_current['ns']


@of("seyfert.cosmology.cosmology.Cosmology.mnu", kind='property')
def r_Cosmology_mnu(self):
    return self.cosmo_pars_current['mnu']


@of("seyfert.cosmology.cosmology.Cosmology.gamma", kind='property')
def r_Cosmology_gamma(self):
    return self.cosmo_pars_current['gamma']


@of("seyfert.cosmology.cosmology.Cosmology.transfer_function_k", kind='property')
def r_Cosmology_transfer_function_k(self):
    try:
        return self.power_spectrum.transfer_function
    except AttributeError:
        raise Exception()


@of("seyfert.cosmology.cosmology.Cosmology.k_grid", kind='property')
def r_Cosmology_k_grid(self):
    return self.power_spectrum.k_grid


@of("seyfert.cosmology.cosmology.Cosmology.r_z", kind='property')
def r_Cosmology_r_z(self):
    return self.c_km_s / self.H0 * self.r_tilde_z


@of("seyfert.cosmology.cosmology.Cosmology.r_tilde_z", kind='property')
def r_Cosmology_r_tilde_z(self):
    return self.dimensionless_comoving_distance_array


@of("seyfert.cosmology.cosmology.Cosmology.E_z", kind='property')
def r_Cosmology_E_z(self):
    return self.dimensionless_hubble_array


@of("seyfert.cosmology.cosmology.Cosmology.H_z", kind='property')
def r_Cosmology_H_z(self):
    return self.H0 * self.dimensionless_hubble_array


@of("seyfert.cosmology.cosmology.Cosmology.checkParameters", ret=False)
def r_Cosmology_checkParameters(self):
    if 'w0' in self.params:
        w0 = self.params['w0']
        if w0.fiducial >= 1 or w0.current_value >= 1:
            raise CosmologyError()
    if 'wa' in self.params:
        wa = self.params['wa']
        if np.abs(wa.fiducial) >= 2 or np.abs(wa.current_value) >= 2:
            raise CosmologyError()
    if self.is_flat:
        if self.OmK != 0:
            raise CosmologyError()


@of("seyfert.cosmology.cosmology.Cosmology.computeGrowthFactor")
def r_Cosmology_computeGrowthFactor(self, z):
    integrand = self.computeLogGrowthIntegrand
    if isinstance(z, float):
        result, _ = integrate.quad(integrand, 0, z)
    elif isinstance(z, np.ndarray):
        result = np.vectorize(lambda x: integrate.quad(integrand, 0, x)[0])(z)
    else:
        raise TypeError()
    return np.exp(-result)


@of("seyfert.cosmology.cosmology.Cosmology.computeLogGrowthIntegrand")
def r_Cosmology_computeLogGrowthIntegrand(self, z):
    return self.Omega_m_of_z(z) ** self.gamma / (1 + z)


@of("seyfert.cosmology.cosmology.Cosmology.rescalePowerSpectrumByComputedGrowth", ret=False)
def r_Cosmology_rescalePowerSpectrumByComputedGrowth(self):
    D_z_pmm = self.power_spectrum.getGrowthFromLinearPowerSpectrum()
    scaling_ratio_z_k = np.expand_dims((self.growth_factor_z / D_z_pmm) ** 2, axis=1)
    self.power_spectrum.lin_p_mm_z_k *= scaling_ratio_z_k
    self.power_spectrum.nonlin_p_mm_z_k *= scaling_ratio_z_k


@of("seyfert.cosmology.cosmology.Cosmology.evaluatePowerSpectrum", ret=False)
def r_Cosmology_evaluatePowerSpectrum(self, workdir, power_spectrum_config):
    self.power_spectrum = PowerSpectrum(power_spectrum_config=power_spectrum_config, cosmo_pars=self.params)
    self.power_spectrum.evaluateLinearAndNonLinearPowerSpectra(Path(workdir))


@of("seyfert.cosmology.cosmology.Cosmology._dimensionlessHubbleParameter", kind='static')
def r_Cosmology_dimensionlessHubbleParameter(z, w0, wa, Omm, OmDE):
    return np.sqrt(Omm * (1 + z) ** 3 + OmDE * (1 + z) ** (3 * (1 + w0 + wa)) * np.exp(-3 * wa * z / (1 + z)) + (1 - Omm - OmDE) * (1 + z) ** 2)


@of("seyfert.cosmology.cosmology.Cosmology.Omega_m_of_z")
def r_Cosmology_Omega_m_of_z(self, z):
    return self.Omm * (1 + z) ** 3 / self.computeDimensionlessHubbleParameter(z) ** 2


@of("seyfert.cosmology.cosmology.Cosmology.computeDimensionlessHubbleParameter")
def r_Cosmology_computeDimensionlessHubbleParameter(self, z):
    return self._dimensionlessHubbleParameter(z, w0=self.w0, wa=self.wa, Omm=self.Omm, OmDE=self.OmDE)


@of("seyfert.cosmology.cosmology.Cosmology.computeReciprocalDimensionlessHubbleParameter")
def r_Cosmology_computeReciprocalDimensionlessHubbleParameter(self, z):
    return 1.0 / self.computeDimensionlessHubbleParameter(z)


@of("seyfert.cosmology.cosmology.Cosmology.computeHubbleParameter")
def r_Cosmology_computeHubbleParameter(self, z):
    return self.H0 * self.computeDimensionlessHubbleParameter(z)


@of("seyfert.cosmology.cosmology.Cosmology.computeComovingDistance")
def r_Cosmology_computeComovingDistance(self, z):
    return self.c_km_s / self.H0 * self.computeDimensionlessComovingDistance(z)


@of("seyfert.cosmology.cosmology.Cosmology.computeDimensionlessComovingDistance")
def r_Cosmology_computeDimensionlessComovingDistance(self, z):
    integrand = self.computeReciprocalDimensionlessHubbleParameter
    if isinstance(z, float):
        result, _ = integrate.quad(integrand, 0, z)
    elif isinstance(z, np.ndarray):
        result = np.vectorize(lambda x: integrate.quad(integrand, 0, x)[0])(z)
    else:
        raise TypeError()
    return result


@of("seyfert.cosmology.cosmology.Cosmology.evaluateOverRedshiftGrid", ret=False)
def r_Cosmology_evaluateOverRedshiftGrid(self):
    if self.z_grid is None:
        raise ValueError()
    if self.dimensionless_hubble_array is None:
        self.dimensionless_hubble_array = self.computeDimensionlessHubbleParameter(self.z_grid)
    else:
        pass
    if self.dimensionless_comoving_distance_array is None:
        self.dimensionless_comoving_distance_array = self.computeDimensionlessComovingDistance(self.z_grid)
    else:
        pass
    if self.growth_factor_z is None:
        self.growth_factor_z = self.power_spectrum.getGrowthFromLinearPowerSpectrum()
    else:
        pass


@of("seyfert.cosmology.cosmology.Cosmology.sigmaR", kind='static')
def r_Cosmology_sigmaR(R, P_lin, k):
    integrand = k ** 2 * P_lin * nu.top_hat_filter(k, 1 / R) ** 2 / (2 * np.pi ** 2)
    return np.sqrt(integrate.simps(integrand, k))


@of("seyfert.cosmology.cosmology.Cosmology.computeSigmaR")
def r_Cosmology_computeSigmaR(self, R):
    p_lin_z_k_today = self.power_spectrum.lin_p_mm_z_k[0, :]
    k_grid = self.power_spectrum.k_grid
    if isinstance(R, (int, float)):
        sigma_r = self.sigmaR(R, P_lin=p_lin_z_k_today, k=k_grid)
    elif isinstance(R, np.ndarray):
        sigma_r = np.zeros(R.shape)
        for R_idx, myR in enumerate(R):
            sigma_r[R_idx] = self.sigmaR(myR, P_lin=p_lin_z_k_today, k=k_grid)
    else:
        raise TypeError()
    return sigma_r


@of("seyfert.cosmology.cosmology.Cosmology.fromHDF5", kind='class')
def r_Cosmology_fromHDF5(cls, file, root='/', load_power_spectrum=True):
    h5cosmo = H5Cosmology()
    obj = h5cosmo.load(file, root)
    if load_power_spectrum:
        obj.power_spectrum = PowerSpectrum.fromHDF5(file, root)
    return obj


@of("seyfert.cosmology.cosmology.Cosmology.saveToHDF5", ret=False)
def r_Cosmology_saveToHDF5(self, file, root='/', save_power_spectrum=True):
    h5cosmo = H5Cosmology()
    h5cosmo.save(self, file, root)
    if self.power_spectrum is not None and save_power_spectrum:
        h5pmm = H5PowerSpectrum()
        h5pmm.save(self.power_spectrum, file, root)


@of("seyfert.cosmology.cosmology.Cosmology.loadFromHDF5", ret=False)
def r_Cosmology_loadFromHDF5(self, file, root='/', load_power_spectrum=True):
    h5cosmo = H5Cosmology()
    h5cosmo.openFile(file=file, mode='r', root=root)
    try:
        h5cosmo.writeToObject(self)
    finally:
        h5cosmo.closeFile()
    self.checkParameters()
    if load_power_spectrum:
        if self.power_spectrum is not None:
            self.power_spectrum.loadFromHDF5(file, root)
        else:
            self.power_spectrum = PowerSpectrum.fromHDF5(file, root)


@of("seyfert.cosmology.cosmology.Cosmology.__eq__")
def r_Cosmology_eq(self, other):
    return all([self.params == other.params, self.model_name == other.model_name, self.is_flat == other.is_flat, self.power_spectrum == other.power_spectrum])


@of("seyfert.cosmology.cosmology.H5Cosmology.__init__", ret=False)
def r_H5Cosmology_init(self, **kwargs):
    super(H5Cosmology, self).__init__(**kwargs)
    self.builder_func = Cosmology


@of("seyfert.cosmology.cosmology.H5Cosmology.readBuildingData", ret=False)
def r_H5Cosmology_readBuildingData(self):
    self.build_data['flat'] = self.root['cosmology'].attrs['is_flat']
    self.build_data['model_name'] = self.root['cosmology'].attrs['cosmological_model']
    self.build_data['params'] = {}
    for par_name, par_grp in self.root['cosmology/cosmological_parameters'].items():
        self.build_data['params'][par_name] = PhysicalParameter.from_dict(par_grp.attrs)


@of("seyfert.cosmology.cosmology.H5Cosmology.writeToObject", ret=False)
def r_H5Cosmology_writeToObject(self, obj):
    super(H5Cosmology, self).writeToObject(obj)
    self.populateObject(obj, base_grp_path=join(self.root_path, 'cosmology'))
    if not self.build_data:
        self.readBuildingData()
    if obj.is_flat is None:
        obj.is_flat = self.build_data['flat']
    if obj.model_name is None:
        obj.model_name = self.build_data['model_name']
    if obj.params is None:
        obj.params = self.build_data['params']


@of("seyfert.cosmology.cosmology.H5Cosmology.writeObjectToFile", ret=False)
def r_H5Cosmology_writeObjectToFile(self, obj):
    cosmo_grp = self.createGroup(name='cosmology')
    cosmo_grp.attrs['is_flat'] = obj.is_flat
    cosmo_grp.attrs['cosmological_model'] = obj.model_name
    self.createDataset(name='z_grid', data=obj.z_grid, base_grp=cosmo_grp)
    if obj.E_z is not None:
        self.createDataset(name='dimensionless_hubble_array', data=obj.E_z, base_grp=cosmo_grp)
    else:
        pass
    if obj.r_tilde_z is not None:
        self.createDataset(name='dimensionless_comoving_distance_array', data=obj.r_tilde_z, base_grp=cosmo_grp)
    else:
        pass
    if obj.growth_factor_z is not None:
        self.createDataset(name='growth_factor_z', data=obj.growth_factor_z, base_grp=cosmo_grp)
    else:
        pass
    if obj.params is not None:
        cosmo_pars_grp = self.createGroup(name='cosmological_parameters', base_grp=cosmo_grp)
        for name, par in obj.params.items():
            grp = self.createGroup(name=name, base_grp=cosmo_pars_grp)
            grp.attrs.update(par.to_dict())
    else:
        pass
    self.closeFile()


@of("seyfert.cosmology.cosmology.fromHDF5")
def r_fromHDF5(file, root='/', load_power_spectrum=True):
    return Cosmology.fromHDF5(file=file, root=root, load_power_spectrum=load_power_spectrum)

