"""Reference definitions for seyfert.cosmology.power_spectrum."""
from os.path import join
from seyfert.cosmology.boltzmann_solver import CAMBBoltzmannSolver
from seyfert.cosmology.boltzmann_solver import CLASSBoltzmannSolver
from seyfert.cosmology.power_spectrum import H5PowerSpectrum
from seyfert.cosmology.power_spectrum import PowerSpectrum
from seyfert.file_io.hdf5_io import AbstractH5FileIO
import logging
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.cosmology.power_spectrum.PowerSpectrum")
class s_PowerSpectrum:
    boltzmann_solver: 'ExternalBoltzmannSolver'
    power_spectrum_config: 'PowerSpectrumConfig'
    lin_p_mm_z_k: 'np.ndarray'
    k_grid: 'np.ndarray'
    z_grid: 'np.ndarray'
    cosmological_parameters: 'Dict[str, PhysicalParameter]'


@shape("seyfert.cosmology.power_spectrum.H5PowerSpectrum")
class s_H5PowerSpectrum(AbstractH5FileIO):
    pass


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.__init__", ret=False)
def r_PowerSpectrum_init(self, power_spectrum_config=None, cosmo_pars=None):
    self.cosmological_parameters = cosmo_pars
    self.power_spectrum_config = power_spectrum_config
    self.boltzmann_code = 'CLASS'
    self.boltzmann_solver = None
    self.k_grid = None
    self.z_grid = None
    self.lin_p_mm_z_k = None
    self.nonlin_p_mm_z_k = None
    self.transfer_function = None
    if self.power_spectrum_config is not None:
        self.boltzmann_code = self.power_spectrum_config.boltzmann_code
        self.z_grid = self.power_spectrum_config.z_grid


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.getGrowthFromLinearPowerSpectrum")
def r_PowerSpectrum_getGrowthFromLinearPowerSpectrum(self):
    pmm_ratio_z_k = self.lin_p_mm_z_k / self.lin_p_mm_z_k[0]
    D_z = np.sqrt(pmm_ratio_z_k[:, 0])
    return D_z


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.evaluateLinearAndNonLinearPowerSpectra", ret=False)
def r_PowerSpectrum_evaluateLinearAndNonLinearPowerSpectra(self, workdir):
    if self.boltzmann_code == 'CAMB':
        from seyfert.cosmology.boltzmann_solver import CAMBBoltzmannSolver
        self.boltzmann_solver = CAMBBoltzmannSolver(workdir, self.power_spectrum_config, self.cosmological_parameters)
    elif self.boltzmann_code == 'CLASS':
        from seyfert.cosmology.boltzmann_solver import CLASSBoltzmannSolver
        self.boltzmann_solver = CLASSBoltzmannSolver(workdir, self.power_spectrum_config, self.cosmological_parameters)
    self.boltzmann_solver.evaluateLinearAndNonLinearPowerSpectra()
    self.getResultsFromMatterPowerGenerator()


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.getResultsFromMatterPowerGenerator", ret=False)
def r_PowerSpectrum_getResultsFromMatterPowerGenerator(self):
    self.z_grid = self.boltzmann_solver.z_grid
    self.k_grid = self.boltzmann_solver.k_grid
    self.lin_p_mm_z_k = self.boltzmann_solver.lin_p_mm_z_k
    self.nonlin_p_mm_z_k = self.boltzmann_solver.nonlin_p_mm_z_k
    self.transfer_function = self.boltzmann_solver.transfer_function


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.fromHDF5", kind='class')
def r_PowerSpectrum_fromHDF5(cls, file, root='/'):
    h5pmm = H5PowerSpectrum()
    return h5pmm.load(file, root)


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.saveToHDF5", ret=False)
def r_PowerSpectrum_saveToHDF5(self, file, root='/'):
    h5pmm = H5PowerSpectrum()
    h5pmm.save(self, file, root)


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.loadFromHDF5", ret=False)
def r_PowerSpectrum_loadFromHDF5(self, file, root='/'):
    h5pmm = H5PowerSpectrum()
    h5pmm.openFile(file=file, mode='r', root=root)
    try:
        h5pmm.writeToObject(self)
    finally:
        h5pmm.closeFile()


@of("seyfert.cosmology.power_spectrum.PowerSpectrum.__eq__")
def r_PowerSpectrum_eq(self, other):
    return all([np.all(self.z_grid == other.z_grid), np.all(self.k_grid == other.k_grid), np.all(self.lin_p_mm_z_k == other.lin_p_mm_z_k), np.all(self.nonlin_p_mm_z_k == other.nonlin_p_mm_z_k), np.all(self.transfer_function == other.transfer_function)])


@of("seyfert.cosmology.power_spectrum.H5PowerSpectrum.__init__", ret=False)
def r_H5PowerSpectrum_init(self, **kwargs):
    super(H5PowerSpectrum, self).__init__(**kwargs)
    self.builder_func = PowerSpectrum


@of("seyfert.cosmology.power_spectrum.H5PowerSpectrum.writeToObject", ret=False)
def r_H5PowerSpectrum_writeToObject(self, obj):
    super(H5PowerSpectrum, self).writeToObject(obj)
    self.populateObject(obj, base_grp_path=join(self.root_path, 'power_spectrum'))
    obj.boltzmann_code = self.root['power_spectrum'].attrs['boltzmann_code']
    if 'transfer_function' in self.root:
        obj.transfer_function = self.root['transfer_function'][()]


@of("seyfert.cosmology.power_spectrum.H5PowerSpectrum.writeObjectToFile", ret=False)
def r_H5PowerSpectrum_writeObjectToFile(self, obj):
    pmm_group = self.createGroup(name='power_spectrum')
    pmm_group.attrs['boltzmann_code'] = obj.boltzmann_code
    names = ['z_grid', 'k_grid', 'lin_p_mm_z_k', 'nonlin_p_mm_z_k']
    self.createDatasets(data_dict=dict(zip(names, [getattr(obj, name) for name in names])), base_grp=pmm_group)
    if obj.transfer_function is not None:
        self.createDataset(name='transfer_function', data=obj.transfer_function)

