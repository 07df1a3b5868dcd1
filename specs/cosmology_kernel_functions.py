"""Reference definitions for seyfert.cosmology.kernel_functions."""
from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.kernel_functions import H5Kernel
from seyfert.cosmology.kernel_functions import KernelFunction
from seyfert.file_io.hdf5_io import AbstractH5FileIO
from seyfert.utils import general_utils as gu
import logging
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.cosmology.kernel_functions.KernelFunction")
class s_KernelFunction:
    cosmology: Cosmology
    probe1: str
    probe2: str
    weight1: wfs.WeightFunction
    weight2: wfs.WeightFunction
    k_ijz: np.ndarray


@shape("seyfert.cosmology.kernel_functions.H5Kernel")
class s_H5Kernel(AbstractH5FileIO):
    pass


@of("seyfert.cosmology.kernel_functions.KernelFunction.__init__", ret=False)
def r_KernelFunction_init(self, probe1=None, probe2=None, weight1=None, weight2=None, cosmology=None):
    self.probe1 = probe1
    self.probe2 = probe2
    self.weight1 = weight1
    self.weight2 = weight2
    self.cosmology = cosmology
    self.k_ijz = None
    self.z_grid = None
    self._attrs_excluded_from_equality = set()
    if self.weight1 is not None:
        if self.probe1 is not None:
            assert self.weight1.probe == self.probe1
        else:
            self.probe1 = self.weight1.probe
    if self.weight2 is not None:
        if self.probe2 is not None:
            assert self.weight2.probe == self.probe2
        else:
            self.probe2 = self.weight2.probe


@of("seyfert.cosmology.kernel_functions.KernelFunction.__eq__")
def r_KernelFunction_eq(self, other):
    return gu.compare_objects(self, other, self._attrs_excluded_from_equality)


@of("seyfert.cosmology.kernel_functions.KernelFunction.obs_key", kind='property')
def r_KernelFunction_obs_key(self):
    return gu.get_probes_combination_key(self.probe1, self.probe2)


@of("seyfert.cosmology.kernel_functions.KernelFunction.is_evaluated", kind='property')
def r_KernelFunction_is_evaluated(self):
    return self.k_ijz is not None


@of("seyfert.cosmology.kernel_functions.KernelFunction.evaluateOverRedshiftGrid", ret=False)
def r_KernelFunction_evaluateOverRedshiftGrid(self, z_grid, overwrite=False):
    if overwrite or not self.is_evaluated:
        self.z_grid = z_grid
        if not self.weight1.is_evaluated:
            self.weight1.evaluateOverRedshiftGrid(self.z_grid)
        if self.probe1 == self.probe2:
            self.weight2.w_bin_z = self.weight1.w_bin_z
        elif not self.weight2.is_evaluated:
            self.weight2.evaluateOverRedshiftGrid(self.z_grid)
        self.k_ijz = np.expand_dims(self.weight1.w_bin_z, 1) * np.expand_dims(self.weight2.w_bin_z, 0) * self.cosmology.c_km_s / (self.cosmology.H_z * self.cosmology.r_z ** 2)
    else:
        pass


@of("seyfert.cosmology.kernel_functions.KernelFunction.fromHDF5", kind='class')
def r_KernelFunction_fromHDF5(cls, file, root='/'):
    h5k = H5Kernel()
    return h5k.load(file, root)


@of("seyfert.cosmology.kernel_functions.KernelFunction.saveToHDF5", ret=False)
def r_KernelFunction_saveToHDF5(self, file, root='/'):
    h5k = H5Kernel()
    h5k.save(self, file, root)


@of("seyfert.cosmology.kernel_functions.KernelFunction.loadFromHDF5", ret=False)
def r_KernelFunction_loadFromHDF5(self, file, root='/'):
    if self.probe1 is not None:
        pass
    if self.probe2 is not None:
        pass
    h5k = H5Kernel()
    h5k.openFile(file=file, mode='r', root=root)
    try:
        h5k.writeToObject(self)
    finally:
        h5k.closeFile()


@of("seyfert.cosmology.kernel_functions.H5Kernel.__init__", ret=False)
def r_H5Kernel_init(self, **kwargs):
    super(H5Kernel, self).__init__(**kwargs)
    self.builder_func = KernelFunction


@of("seyfert.cosmology.kernel_functions.H5Kernel.writeToObject", ret=False)
def r_H5Kernel_writeToObject(self, obj):
    super(H5Kernel, self).writeToObject(obj)
    obj.probe1 = self.attrs['probe1']
    obj.probe2 = self.attrs['probe2']
    obj.z_grid = self.root['z_grid'][()]
    obj.k_ijz = self.root['k_ijz'][()]


@of("seyfert.cosmology.kernel_functions.H5Kernel.writeObjectToFile", ret=False)
def r_H5Kernel_writeObjectToFile(self, obj):
    super(H5Kernel, self).writeObjectToFile(obj)
    self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
    self.createDataset(name='z_grid', data=obj.z_grid)
    self.createDataset(name='k_ijz', data=obj.k_ijz)

