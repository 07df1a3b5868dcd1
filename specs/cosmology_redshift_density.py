"""Reference definitions for seyfert.cosmology.redshift_density."""
from numba import jit
from numba.core.errors import TypingError
from scipy import integrate
from scipy import interpolate
from seyfert.cosmology.redshift_density import DensityError
from seyfert.cosmology.redshift_density import H5Density
from seyfert.cosmology.redshift_density import RedshiftDensity
from seyfert.cosmology.redshift_density import get_bins_overlap
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.utils import general_utils as gu
import h5py
import logging
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.cosmology.redshift_density.DensityError")
class s_DensityError(Exception):
    pass


@shape("seyfert.cosmology.redshift_density.RedshiftDensity")
class s_RedshiftDensity:
    probe: 'str'
    dN_dz_dOmega_spline: 'interpolate.InterpolatedUnivariateSpline'
    bin_norm_factors: 'np.ndarray'
    z_grid: 'np.ndarray'
    input_file: 'Path'


@shape("seyfert.cosmology.redshift_density.H5Density")
class s_H5Density(AbstractH5FileIO):
    pass


@of("seyfert.cosmology.redshift_density.RedshiftDensity.__init__", ret=False)
def r_RedshiftDensity_init(self, probe=None):
    self.probe = probe
    self.z_grid = None
    self.norm_density_iz = None
    self.input_z_domain = None
    self.bin_norm_factors = None
    self.dN_dOmega_bins = None
    self.z_bin_edges = None
    self.instrument_response = {}
    self.good_fraction_params = {}
    self.catastrophic_fraction_params = {}
    self.has_niz_from_input = None
    self.input_dN_dz_dOmega = None
    self.dN_dz_dOmega_spline = None
    self.n_iz_splines = None
    self.input_n_iz = None
    self.input_file = None
    self.catalog_f_sky = None
    self.ready_to_evaluate = False
    self._attrs_excluded_from_equality = {'dN_dz_dOmega_spline', 'input_file', 'ready_to_evaluate', 'bin_norm_factors', 'n_iz_splines', 'good_fraction_params', 'catastrophic_fraction_params'}


@of("seyfert.cosmology.redshift_density.RedshiftDensity.fromHDF5", kind='static')
def r_RedshiftDensity_fromHDF5(file, root='/'):
    h5d = H5Density()
    return h5d.load(file, root)


@of("seyfert.cosmology.redshift_density.RedshiftDensity.saveToHDF5", ret=False)
def r_RedshiftDensity_saveToHDF5(self, file, root='/'):
    h5d = H5Density()
    h5d.save(self, file, root)


@of("seyfert.cosmology.redshift_density.RedshiftDensity.loadFromHDF5", ret=False)
def r_RedshiftDensity_loadFromHDF5(self, file, root='/'):
    h5d = H5Density()
    h5d.openFile(file=file, mode='r', root=root)
    try:
        h5d.writeToObject(self)
    finally:
        h5d.closeFile()


@of("seyfert.cosmology.redshift_density.RedshiftDensity.z_min", kind='property')
def r_RedshiftDensity_z_min(self):
    return self.input_z_domain[0]


@of("seyfert.cosmology.redshift_density.RedshiftDensity.z_max", kind='property')
def r_RedshiftDensity_z_max(self):
    return self.input_z_domain[-1]


@of("seyfert.cosmology.redshift_density.RedshiftDensity.z_bin_centers", kind='property')
def r_RedshiftDensity_z_bin_centers(self):
    return (self.z_bin_edges[:-1] + self.z_bin_edges[1:]) / 2


@of("seyfert.cosmology.redshift_density.RedshiftDensity.n_bins", kind='property')
def r_RedshiftDensity_n_bins(self):
    return len(self.z_bin_centers)


@of("seyfert.cosmology.redshift_density.RedshiftDensity.shot_noise", kind='property')
def r_RedshiftDensity_shot_noise(self):
    return 1.0 / self.dN_dOmega_bins


@of("seyfert.cosmology.redshift_density.RedshiftDensity.setUp", ret=False)
def r_RedshiftDensity_setUp(self):
    self.interpolateInput()
    if not self.has_niz_from_input:
        self.good_fraction_params = {'amplitude': 1 - self.instrument_response['f_out'], 'z_mean': self.instrument_response['z_b'], 'sigma': self.instrument_response['sigma_b'], 'c': self.instrument_response['c_b']}
        self.catastrophic_fraction_params = {'amplitude': self.instrument_response['f_out'], 'z_mean': self.instrument_response['z_o'], 'sigma': self.instrument_response['sigma_o'], 'c': self.instrument_response['c_o']}
        self.evaluateBinNormFactors()
    self.ready_to_evaluate = True


@of("seyfert.cosmology.redshift_density.RedshiftDensity.evaluateSurfaceDensity", ret=False)
def r_RedshiftDensity_evaluateSurfaceDensity(self):
    self.dN_dOmega_bins = np.array([self.computeSurfaceDensityAtBin(i) for i in range(self.n_bins)])


@of("seyfert.cosmology.redshift_density.RedshiftDensity.evaluate", ret=False)
def r_RedshiftDensity_evaluate(self, z_grid):
    if not self.ready_to_evaluate:
        raise DensityError()
    self.z_grid = z_grid
    self.norm_density_iz = np.zeros((self.n_bins, len(self.z_grid)))
    for i in range(self.norm_density_iz.shape[0]):
        self.norm_density_iz[i] = self.computeNormalizedDensityAtBinAndRedshift(i=i, z=self.z_grid)


@of("seyfert.cosmology.redshift_density.RedshiftDensity.interpolateInput", ret=False)
def r_RedshiftDensity_interpolateInput(self):
    if self.has_niz_from_input:
        self.n_iz_splines = [interpolate.InterpolatedUnivariateSpline(x=self.input_z_domain, y=self.input_n_iz[i, :], ext='zeros', k=3) for i in range(self.input_n_iz.shape[0])]
    else:
        self.dN_dz_dOmega_spline = interpolate.InterpolatedUnivariateSpline(x=self.input_z_domain, y=self.input_dN_dz_dOmega, ext='zeros', k=3)


@of("seyfert.cosmology.redshift_density.RedshiftDensity.computeTotalGalaxyNumber")
def r_RedshiftDensity_computeTotalGalaxyNumber(self, integ_method='simps'):
    if not self.ready_to_evaluate:
        raise DensityError()
    if integ_method == 'simps':
        dNg_dOmega = integrate.simps(x=self.input_z_domain, y=self.input_dN_dz_dOmega)
    elif integ_method == 'quad':
        dNg_dOmega, _ = integrate.quad(self.dN_dz_dOmega_spline, self.z_min, self.z_max)
    else:
        raise KeyError()
    return dNg_dOmega * 4 * np.pi * self.catalog_f_sky


@of("seyfert.cosmology.redshift_density.RedshiftDensity.modifiedGaussianResponse", kind='static')
def r_RedshiftDensity_modifiedGaussianResponse(z_p, z, z_mean=None, sigma=None, c=None, amplitude=None):
    return amplitude / (np.sqrt(2 * np.pi) * sigma * (1 + z)) * np.exp(-((z - c * z_p - z_mean) ** 2 / (2 * (sigma * (1 + z)) ** 2)))


@of("seyfert.cosmology.redshift_density.RedshiftDensity.computeInstrumentResponse")
def r_RedshiftDensity_computeInstrumentResponse(self, z_p, z):
    try:
        return self.modifiedGaussianResponse(z_p, z, **self.good_fraction_params) + self.modifiedGaussianResponse(z_p, z, **self.catastrophic_fraction_params)
    except TypingError as e:
        raise DensityError()


@of("seyfert.cosmology.redshift_density.RedshiftDensity.convolvedNdzdOmegaWithInstrumentResponse")
def r_RedshiftDensity_convolvedNdzdOmegaWithInstrumentResponse(self, z, i):
    if self.has_niz_from_input:
        raise DensityError()
    if isinstance(z, float):
        result, _ = integrate.quad(self.computeInstrumentResponse, self.z_bin_edges[i], self.z_bin_edges[i + 1], args=z)
    elif isinstance(z, np.ndarray):
        result = np.vectorize(lambda x: integrate.quad(self.computeInstrumentResponse, self.z_bin_edges[i], self.z_bin_edges[i + 1], args=x)[0])(z)
    else:
        raise TypeError()
    return result * self.dN_dz_dOmega_spline(z)


@of("seyfert.cosmology.redshift_density.RedshiftDensity.computeBinNormFactor")
def r_RedshiftDensity_computeBinNormFactor(self, bin_idx):
    result, _ = integrate.quad(self.convolvedNdzdOmegaWithInstrumentResponse, self.z_min, self.z_max, args=bin_idx)
    return result


@of("seyfert.cosmology.redshift_density.RedshiftDensity.evaluateBinNormFactors", ret=False)
def r_RedshiftDensity_evaluateBinNormFactors(self):
    self.bin_norm_factors = np.array([self.computeBinNormFactor(i) for i in range(self.n_bins)])


@of("seyfert.cosmology.redshift_density.RedshiftDensity.computeNormalizedDensityAtBinAndRedshift")
def r_RedshiftDensity_computeNormalizedDensityAtBinAndRedshift(self, i, z):
    if not self.has_niz_from_input:
        norm_density = self.convolvedNdzdOmegaWithInstrumentResponse(z, i)
        try:
            norm_density /= self.bin_norm_factors[i]
        except FloatingPointError:
            raise ZeroDivisionError()
    else:
        norm_density = self.n_iz_splines[i](z)
    return norm_density


@of("seyfert.cosmology.redshift_density.RedshiftDensity.computeSurfaceDensityAtBin")
def r_RedshiftDensity_computeSurfaceDensityAtBin(self, i):
    if self.has_niz_from_input:
        result = self.dN_dOmega_bins[i]
    else:
        result, _ = integrate.quad(self.dN_dz_dOmega_spline, self.z_bin_edges[i], self.z_bin_edges[i + 1])
    return result


@of("seyfert.cosmology.redshift_density.RedshiftDensity.__eq__")
def r_RedshiftDensity_eq(self, other):
    return gu.compare_objects(self, other, self._attrs_excluded_from_equality)


@of("seyfert.cosmology.redshift_density.H5Density.__init__", ret=False)
def r_H5Density_init(self, **kwargs):
    super(H5Density, self).__init__(**kwargs)
    self.builder_func = RedshiftDensity


@of("seyfert.cosmology.redshift_density.H5Density.writeToObject", ret=False)
def r_H5Density_writeToObject(self, obj):
    super(H5Density, self).writeToObject(obj)
    obj.probe = self.attrs['probe']
    self.populateObject(obj, base_grp_path=self.root_path)
    if not obj.has_niz_from_input:
        obj.instrument_response = {key: dset[()] for key, dset in self.root['instrument_response'].items()}


@of("seyfert.cosmology.redshift_density.H5Density.writeObjectToFile", ret=False)
def r_H5Density_writeObjectToFile(self, obj):
    self.attrs['probe'] = obj.probe
    self.createDataset(name='has_niz_from_input', data=obj.has_niz_from_input)
    self.createDataset(name='input_z_domain', data=obj.input_z_domain)
    self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
    self.createDataset(name='catalog_f_sky', data=obj.catalog_f_sky)
    if obj.dN_dOmega_bins is not None:
        self.createDataset(name='dN_dOmega_bins', data=obj.dN_dOmega_bins)
    if obj.has_niz_from_input:
        self.createDataset(name='input_n_iz', data=obj.input_n_iz)
    else:
        self.createDataset(name='input_dN_dz_dOmega', data=obj.input_dN_dz_dOmega)
        instr_resp_grp = self.createGroup(name='instrument_response')
        for key, value in obj.instrument_response.items():
            self.createDataset(name=key, data=value, base_grp=instr_resp_grp)
    if obj.z_grid is not None:
        self.createDataset(name='z_grid', data=obj.z_grid)
    if obj.norm_density_iz is not None:
        self.createDataset(name='norm_density_iz', data=obj.norm_density_iz)


@of("seyfert.cosmology.redshift_density.save_densities_to_file", ret=False)
def r_save_densities_to_file(densities, file):
    for name in densities:
        densities[name].saveToHDF5(file=file, root=name)


@of("seyfert.cosmology.redshift_density.load_densities_from_file")
def r_load_densities_from_file(file):
    with h5py.File(file, mode='r') as hf:
        names = list(hf.keys())
    densities = {}
    for name in names:
        densities[name] = RedshiftDensity.fromHDF5(file=file, root=name)
    return densities


@of("seyfert.cosmology.redshift_density.get_bins_overlap")
def r_get_bins_overlap(z1_l, z1_r, z2_l, z2_r):
    if z1_r <= z1_l:
        raise Exception()
    if z2_r <= z2_l:
        raise Exception()
    if z2_l >= z1_r or z1_l >= z2_r:
        overlap = None
    else:
        z_l = max(z2_l, z1_l)
        z_r = min(z2_r, z1_r)
        overlap = (z_l, z_r)
    return overlap


@of("seyfert.cosmology.redshift_density.compute_photoXspectro_shotnoise_ij")
def r_compute_photoXspectro_shotnoise_ij(nph, nsp):
    assert nph.probe == 'PhotometricGalaxy'
    assert nsp.probe == 'SpectroscopicGalaxy'
    noise_phsp_ij = np.zeros((nph.n_bins, nsp.n_bins))
    nsp.interpolateInput()
    for i in range(nph.n_bins):
        for j in range(nsp.n_bins):
            overlap = get_bins_overlap(nph.z_bin_edges[i], nph.z_bin_edges[i + 1], nsp.z_bin_edges[j], nsp.z_bin_edges[j + 1])
            if overlap is not None:
                dNsp_dOmega_overlap = integrate.quad(nsp.dN_dz_dOmega_spline, a=overlap[0], b=overlap[1])[0]
                noise_phsp_ij[i, j] = dNsp_dOmega_overlap / (nph.dN_dOmega_bins[i] * nsp.dN_dOmega_bins[j])
    return noise_phsp_ij

