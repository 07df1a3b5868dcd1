From 3ac2046ff1ef778c7a3423a8c596f4e551a5ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 01/31] fix: close HDF5 files when reading or writing them
 fails

---
 seyfert/cosmology/bias.py             |   6 +-
 seyfert/cosmology/c_ells.py           |  12 ++-
 seyfert/cosmology/cosmology.py        |   6 +-
 seyfert/cosmology/kernel_functions.py |   6 +-
 seyfert/cosmology/power_spectrum.py   |   6 +-
 seyfert/cosmology/redshift_density.py |  11 +-
 seyfert/cosmology/weight_functions.py |   6 +-
 seyfert/derivatives/cl_derivative.py  |  35 +++---
 seyfert/file_io/hdf5_io.py            |  34 +++---
 seyfert/file_io/retro_comp.py         | 148 ++++++++++++--------------
 seyfert/fisher/delta_cl.py            |  38 +++----
 seyfert/fisher/fisher_matrix.py       |  38 ++++---
 12 files changed, 179 insertions(+), 167 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..f874c88 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -105,8 +105,10 @@ class Bias:
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5bias = H5Bias()
         h5bias.openFile(file=file, mode='r', root=root)
-        h5bias.writeToObject(self)
-        h5bias.closeFile()
+        try:
+            h5bias.writeToObject(self)
+        finally:
+            h5bias.closeFile()
 
     def saveToHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5bias = H5Bias()
diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..ebf0c46 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -279,8 +279,10 @@ class AngularCoefficient:
             probe2 = self.probe2
         h5cl = H5Cl(probe1, probe2)
         h5cl.openFile(file=file, mode='r', root=root)
-        h5cl.writeToObject(self)
-        h5cl.closeFile()
+        try:
+            h5cl.writeToObject(self)
+        finally:
+            h5cl.closeFile()
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
@@ -415,8 +417,10 @@ class AngularCoefficientsCollector:
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5cl_coll = H5ClCollection()
         h5cl_coll.openFile(file=file, mode='r', root=root)
-        h5cl_coll.writeToObject(self)
-        h5cl_coll.closeFile()
+        try:
+            h5cl_coll.writeToObject(self)
+        finally:
+            h5cl_coll.closeFile()
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", root: "str" = '/') -> "AngularCoefficientsCollector":
diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index 59304a4..9308a4e 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -372,8 +372,10 @@ class Cosmology:
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/", load_power_spectrum: "bool" = True) -> "None":
         h5cosmo = H5Cosmology()
         h5cosmo.openFile(file=file, mode='r', root=root)
-        h5cosmo.writeToObject(self)
-        h5cosmo.closeFile()
+        try:
+            h5cosmo.writeToObject(self)
+        finally:
+            h5cosmo.closeFile()
         self.checkParameters()
         if load_power_spectrum:
             if self.power_spectrum is not None:
diff --git a/seyfert/cosmology/kernel_functions.py b/seyfert/cosmology/kernel_functions.py
index 7c6db0a..8534765 100644
--- a/seyfert/cosmology/kernel_functions.py
+++ b/seyfert/cosmology/kernel_functions.py
@@ -84,8 +84,10 @@ class KernelFunction:
             logger.warning(f'probe string {self.probe2} will be overwritten with file content')
         h5k = H5Kernel()
         h5k.openFile(file=file, mode='r', root=root)
-        h5k.writeToObject(self)
-        h5k.closeFile()
+        try:
+            h5k.writeToObject(self)
+        finally:
+            h5k.closeFile()
 
 
 class H5Kernel(AbstractH5FileIO):
diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 6f33b63..769c85c 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -107,8 +107,10 @@ class PowerSpectrum:
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5pmm = H5PowerSpectrum()
         h5pmm.openFile(file=file, mode='r', root=root)
-        h5pmm.writeToObject(self)
-        h5pmm.closeFile()
+        try:
+            h5pmm.writeToObject(self)
+        finally:
+            h5pmm.closeFile()
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
         return all([
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9192298..9529453 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -62,8 +62,10 @@ class RedshiftDensity:
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> None:
         h5d = H5Density()
         h5d.openFile(file=file, mode='r', root=root)
-        h5d.writeToObject(self)
-        h5d.closeFile()
+        try:
+            h5d.writeToObject(self)
+        finally:
+            h5d.closeFile()
 
     @property
     def z_min(self) -> "float":
@@ -243,9 +245,8 @@ def save_densities_to_file(densities: "Dict[str, RedshiftDensity]", file: "TPath
 
 
 def load_densities_from_file(file: "TPathLike") -> "Dict[str, RedshiftDensity]":
-    hf = h5py.File(file, mode='r')
-    names = list(hf.keys())
-    hf.close()
+    with h5py.File(file, mode='r') as hf:
+        names = list(hf.keys())
     densities = {}
     for name in names:
         densities[name] = RedshiftDensity.fromHDF5(file=file, root=name)
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..7555d52 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -105,8 +105,10 @@ class WeightFunction(ABC):
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
         h5w.openFile(file, root)
-        h5w.writeToObject(self)
-        h5w.closeFile()
+        try:
+            h5w.writeToObject(self)
+        finally:
+            h5w.closeFile()
 
     def setUp(self):
         if self.density is None:
diff --git a/seyfert/derivatives/cl_derivative.py b/seyfert/derivatives/cl_derivative.py
index a556bb1..b7cc640 100644
--- a/seyfert/derivatives/cl_derivative.py
+++ b/seyfert/derivatives/cl_derivative.py
@@ -103,28 +103,25 @@ class ClDerivativeCollector:
             self.dcl_dict[obs_key] = clder
 
     def writeToFile(self, file: "Union[str, Path]") -> "None":
-        hf = h5py.File(file, "w")
-        for obs_key in self.dcl_dict:
-            grp = hf.create_group(obs_key)
-            grp.create_dataset("dc_lij", data=self.dcl_dict[obs_key].dc_lij, dtype='f8',
-                               compression='gzip', compression_opts=9)
-            grp.create_dataset("l_bin_centers", data=self.dcl_dict[obs_key].l_bin_centers, dtype='f8',
-                               compression='gzip', compression_opts=9)
-        hf.close()
+        with h5py.File(file, "w") as hf:
+            for obs_key in self.dcl_dict:
+                grp = hf.create_group(obs_key)
+                grp.create_dataset("dc_lij", data=self.dcl_dict[obs_key].dc_lij, dtype='f8',
+                                   compression='gzip', compression_opts=9)
+                grp.create_dataset("l_bin_centers", data=self.dcl_dict[obs_key].l_bin_centers, dtype='f8',
+                                   compression='gzip', compression_opts=9)
 
     def loadFromFile(self, file: "Union[str, Path]") -> "None":
         self.dcl_dict = {}
-        hf = h5py.File(file, 'r')
-        for obs_key in hf.keys():
-            p1, p2 = gu.get_probes_from_comb_key(obs_key)
-            dc_lij = hf[obs_key]["dc_lij"][()]
-            ells = hf[obs_key]["l_bin_centers"][()]
-            clder = ClDerivative(p1=p1, p2=p2)
-            clder.l_bin_centers = ells
-            clder.dc_lij = dc_lij
-            self.dcl_dict[obs_key] = clder
-
-        hf.close()
+        with h5py.File(file, 'r') as hf:
+            for obs_key in hf.keys():
+                p1, p2 = gu.get_probes_from_comb_key(obs_key)
+                dc_lij = hf[obs_key]["dc_lij"][()]
+                ells = hf[obs_key]["l_bin_centers"][()]
+                clder = ClDerivative(p1=p1, p2=p2)
+                clder.l_bin_centers = ells
+                clder.dc_lij = dc_lij
+                self.dcl_dict[obs_key] = clder
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", dvar: "str" = None) -> "ClDerivativeCollector":
diff --git a/seyfert/file_io/hdf5_io.py b/seyfert/file_io/hdf5_io.py
index 130ce4b..c4a0b7b 100644
--- a/seyfert/file_io/hdf5_io.py
+++ b/seyfert/file_io/hdf5_io.py
@@ -94,14 +94,18 @@ class AbstractH5FileIO(ABC):
 
         self._h5file = h5py.File(self.file_path, mode=mode)
         try:
-            self._root_group = self._h5file[self._root_path]
-        except KeyError:
+            try:
+                self._root_group = self._h5file[self._root_path]
+            except KeyError:
+                if mode != 'r':
+                    self._root_group = self._h5file.create_group(name=self._root_path)
+                else:
+                    raise H5FileModeError(f'cannot create root {root} on readonly file')
             if mode != 'r':
-                self._root_group = self._h5file.create_group(name=self._root_path)
-            else:
-                raise H5FileModeError(f'cannot create root {root} on readonly file')
-        if mode != 'r':
-            self.root.attrs.update(base_metadata)
+                self.root.attrs.update(base_metadata)
+        except Exception:
+            self.closeFile()
+            raise
 
     def closeFile(self) -> None:
         self._h5file.close()
@@ -111,17 +115,21 @@ class AbstractH5FileIO(ABC):
 
     def load(self, file: "Union[str, Path]", root: "str" = '/') -> "object":
         self.openFile(file, mode='r', root=root)
-        self.readBuildingData()
-        obj = self.builder_func(**self.build_data)
-        self.writeToObject(obj)
-        self.closeFile()
+        try:
+            self.readBuildingData()
+            obj = self.builder_func(**self.build_data)
+            self.writeToObject(obj)
+        finally:
+            self.closeFile()
         return obj
 
     def save(self, obj: "object", file: "Union[str, Path]", root: "str" = '/'):
         mode = 'w' if not Path(file).exists() else 'a'
         self.openFile(file, mode=mode, root=root)
-        self.writeObjectToFile(obj)
-        self.closeFile()
+        try:
+            self.writeObjectToFile(obj)
+        finally:
+            self.closeFile()
 
     @abstractmethod
     def writeToObject(self, obj: "object") -> "None":
diff --git a/seyfert/file_io/retro_comp.py b/seyfert/file_io/retro_comp.py
index 36bca7d..9e4abd7 100644
--- a/seyfert/file_io/retro_comp.py
+++ b/seyfert/file_io/retro_comp.py
@@ -13,34 +13,29 @@ from seyfert.cosmology import kernel_functions as kfs
 
 
 def write_old_cosmo_file(cosmo, file):
-    hf = h5py.File(file, mode='w')
     pmm = cosmo.power_spectrum
-
-    hf.create_dataset(name='/cosmology/z_array', data=cosmo.z_grid)
-    hf.create_dataset(name='/power_spectrum/k_array', data=pmm.k_grid)
-    hf.create_dataset(name='/power_spectrum/p_mm_values/lin_p_mm_z_k', data=pmm.lin_p_mm_z_k)
-    hf.create_dataset(name='/power_spectrum/p_mm_values/nonlin_p_mm_z_k', data=pmm.nonlin_p_mm_z_k)
-
-    hf.close()
+    with h5py.File(file, mode='w') as hf:
+        hf.create_dataset(name='/cosmology/z_array', data=cosmo.z_grid)
+        hf.create_dataset(name='/power_spectrum/k_array', data=pmm.k_grid)
+        hf.create_dataset(name='/power_spectrum/p_mm_values/lin_p_mm_z_k', data=pmm.lin_p_mm_z_k)
+        hf.create_dataset(name='/power_spectrum/p_mm_values/nonlin_p_mm_z_k', data=pmm.nonlin_p_mm_z_k)
 
 
 def read_v104_cosmo_file(file) -> "Cosmology":
-    hf = h5py.File(file, mode='r')
-    Ez = hf['/cosmology/dimensionless_hubble_parameter'][()]
-    rz = hf['/cosmology/dimensionless_comoving_distance'][()]
-    z = hf['/cosmology/z_array'][()]
-    k = hf['/power_spectrum/k_array'][()]
-    plin_zk = hf['/power_spectrum/p_mm_values/lin_p_mm_z_k'][()]
-    pnonlin_zk = hf['/power_spectrum/p_mm_values/nonlin_p_mm_z_k'][()]
-
-    growth_factor = None
-    transfer_k = None
-    if 'growth_factor_z' in hf:
-        growth_factor = hf['growth_factor_z'][()]
-    if 'transfer_function' in hf:
-        transfer_k = hf['transfer_function'][()]
-
-    hf.close()
+    with h5py.File(file, mode='r') as hf:
+        Ez = hf['/cosmology/dimensionless_hubble_parameter'][()]
+        rz = hf['/cosmology/dimensionless_comoving_distance'][()]
+        z = hf['/cosmology/z_array'][()]
+        k = hf['/power_spectrum/k_array'][()]
+        plin_zk = hf['/power_spectrum/p_mm_values/lin_p_mm_z_k'][()]
+        pnonlin_zk = hf['/power_spectrum/p_mm_values/nonlin_p_mm_z_k'][()]
+
+        growth_factor = None
+        transfer_k = None
+        if 'growth_factor_z' in hf:
+            growth_factor = hf['growth_factor_z'][()]
+        if 'transfer_function' in hf:
+            transfer_k = hf['transfer_function'][()]
 
     cosmo = Cosmology()
     cosmo.z_grid = z
@@ -58,54 +53,53 @@ def read_v104_cosmo_file(file) -> "Cosmology":
 
 
 def read_v110_cosmo_file(file) -> "Cosmology":
-    hf = h5py.File(file, mode='r')
-    cosmo = Cosmology()
-    cosmo.z_grid = hf['cosmology/z_grid'][()]
-    cosmo.dimensionless_hubble_array = hf['cosmology/dimensionless_hubble_array'][()]
-    cosmo.dimensionless_comoving_distance_array = hf['cosmology/dimensionless_comoving_distance_array'][()]
-
-    pars = {
-        name: dict(hf[f'cosmology/cosmological_parameters/{name}'].attrs)
-        for name in hf[f'cosmology/cosmological_parameters']
-    }
-    cosmo.params = {}
-    for name in pars:
-        p = pars[name]
-        cosmo.params[name] = PhysicalParameter(name=name, kind=PhysicalParameter.COSMO_PAR_STRING,
-                                               fiducial=p['fiducial'],
-                                               is_free_parameter=p['is_present'],
-                                               current_value=p['current'])
-    hf.close()
+    with h5py.File(file, mode='r') as hf:
+        cosmo = Cosmology()
+        cosmo.z_grid = hf['cosmology/z_grid'][()]
+        cosmo.dimensionless_hubble_array = hf['cosmology/dimensionless_hubble_array'][()]
+        cosmo.dimensionless_comoving_distance_array = hf['cosmology/dimensionless_comoving_distance_array'][()]
+
+        pars = {
+            name: dict(hf[f'cosmology/cosmological_parameters/{name}'].attrs)
+            for name in hf[f'cosmology/cosmological_parameters']
+        }
+        cosmo.params = {}
+        for name in pars:
+            p = pars[name]
+            cosmo.params[name] = PhysicalParameter(name=name, kind=PhysicalParameter.COSMO_PAR_STRING,
+                                                   fiducial=p['fiducial'],
+                                                   is_free_parameter=p['is_present'],
+                                                   current_value=p['current'])
     return cosmo
 
 
 def read_v104_cls_file(file):
-    hf = h5py.File(file, mode='r')
-    coll = AngularCoefficientsCollector()
-    cls_grp = hf['/cls']
-    dns_grp = hf['/density_functions']
-    wfs_grp = hf['/weight_functions']
-    kfs_grp = hf['/kernels']
-    cl_keys = cls_grp.keys()
-    for key in cl_keys:
-        p1, p2 = gu.get_probes_from_comb_key(key)
-        cl = AngularCoefficient(probe1=p1, probe2=p2)
-        cl.c_lij = cls_grp[key]['c_lij'][()]
-        cl.l_bin_centers = cls_grp[key]['l_bin_centers'][()]
-        cl.l_bin_widths = cls_grp[key]['l_bin_widths'][()]
-        cl.kernel = kfs.KernelFunction()
-        cl.kernel.k_ijz = kfs_grp[key]['k_ijz'][()]
-        w1 = wfs.weight_function_for_probe(probe=p1)
-        w2 = wfs.weight_function_for_probe(probe=p2)
-        w1.w_bin_z = wfs_grp[p1][()]
-        w2.w_bin_z = wfs_grp[p2][()]
-        w1.density = RedshiftDensity()
-        w1.density.norm_density_iz = dns_grp[p1]['norm_density_i_z'][()]
-        w2.density = RedshiftDensity()
-        w2.density.norm_density_iz = dns_grp[p2]['norm_density_i_z'][()]
-        cl.kernel.weight1 = w1
-        cl.kernel.weight2 = w2
-        coll.cl_dict[key] = cl
+    with h5py.File(file, mode='r') as hf:
+        coll = AngularCoefficientsCollector()
+        cls_grp = hf['/cls']
+        dns_grp = hf['/density_functions']
+        wfs_grp = hf['/weight_functions']
+        kfs_grp = hf['/kernels']
+        cl_keys = cls_grp.keys()
+        for key in cl_keys:
+            p1, p2 = gu.get_probes_from_comb_key(key)
+            cl = AngularCoefficient(probe1=p1, probe2=p2)
+            cl.c_lij = cls_grp[key]['c_lij'][()]
+            cl.l_bin_centers = cls_grp[key]['l_bin_centers'][()]
+            cl.l_bin_widths = cls_grp[key]['l_bin_widths'][()]
+            cl.kernel = kfs.KernelFunction()
+            cl.kernel.k_ijz = kfs_grp[key]['k_ijz'][()]
+            w1 = wfs.weight_function_for_probe(probe=p1)
+            w2 = wfs.weight_function_for_probe(probe=p2)
+            w1.w_bin_z = wfs_grp[p1][()]
+            w2.w_bin_z = wfs_grp[p2][()]
+            w1.density = RedshiftDensity()
+            w1.density.norm_density_iz = dns_grp[p1]['norm_density_i_z'][()]
+            w2.density = RedshiftDensity()
+            w2.density.norm_density_iz = dns_grp[p2]['norm_density_i_z'][()]
+            cl.kernel.weight1 = w1
+            cl.kernel.weight2 = w2
+            coll.cl_dict[key] = cl
     return coll
 
 
@@ -132,14 +126,14 @@ def read_cosmo_file(file: "Union[str, Path]", version: "str", load_power_spectru
 
 
 def read_dcl_file(file: "Union[str, Path]") -> "Dict":
-    hf = h5py.File(file, mode='r')
-    dcl_data = {}
-    for key, entry in hf.items():
-        if isinstance(entry, h5py.Dataset):
-            dcl_data[key] = entry[()]
-        elif isinstance(entry, h5py.Group):
-            dcl_data[key] = entry["dc_lij"][()]
-        else:
-            raise TypeError(f"Invalid HDF5 entry type {type(entry)}")
+    with h5py.File(file, mode='r') as hf:
+        dcl_data = {}
+        for key, entry in hf.items():
+            if isinstance(entry, h5py.Dataset):
+                dcl_data[key] = entry[()]
+            elif isinstance(entry, h5py.Group):
+                dcl_data[key] = entry["dc_lij"][()]
+            else:
+                raise TypeError(f"Invalid HDF5 entry type {type(entry)}")
 
     return dcl_data
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index c1bab06..5fedf8a 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -124,8 +124,10 @@ class DeltaCl:
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5c = H5DeltaCl(name=self.name)
         h5c.openFile(file, mode='r', root=root)
-        h5c.writeToObject(self)
-        h5c.closeFile()
+        try:
+            h5c.writeToObject(self)
+        finally:
+            h5c.closeFile()
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", name: "str", root: "str" = "/") -> "DeltaCl":
@@ -184,24 +186,20 @@ class DeltaClCollection(GenericDictInterface[str, DeltaCl]):
 
     def loadShotNoiseFromFile(self, file: "Union[str, Path]"):
         logger.info("loading shot noise from file")
-        hf = h5py.File(file, mode='r')
-        for key in self.single_blocks:
-            noise_ij = hf[key][()]
-            n_ell = len(self.single_blocks[key].l_bin_centers)
-            noise_lij = np.repeat(noise_ij[np.newaxis, :, :], n_ell, axis=0)
+        with h5py.File(file, mode='r') as hf:
+            for key in self.single_blocks:
+                noise_ij = hf[key][()]
+                n_ell = len(self.single_blocks[key].l_bin_centers)
+                noise_lij = np.repeat(noise_ij[np.newaxis, :, :], n_ell, axis=0)
 
-            self.single_blocks[key].noise_lij = noise_lij
-
-        hf.close()
+                self.single_blocks[key].noise_lij = noise_lij
 
     def writeShotNoiseToFile(self, file: "Union[str, Path]"):
-        hf = h5py.File(file, mode='w')
-        hf.attrs['CreationDate'] = datetime.datetime.now().isoformat()
-        for key in self.single_blocks:
-            noise_ij = self.single_blocks[key].noise_lij[0]
-            hf.create_dataset(name=key, data=noise_ij)
-
-        hf.close()
+        with h5py.File(file, mode='w') as hf:
+            hf.attrs['CreationDate'] = datetime.datetime.now().isoformat()
+            for key in self.single_blocks:
+                noise_ij = self.single_blocks[key].noise_lij[0]
+                hf.create_dataset(name=key, data=noise_ij)
 
     def evaluateSingleBlocks(self, f_sky: "float" = None):
         for cov_block in self.single_blocks.values():
@@ -237,8 +235,10 @@ class DeltaClCollection(GenericDictInterface[str, DeltaCl]):
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5c_coll = H5DeltaClCollection()
         h5c_coll.openFile(file, mode='r', root=root)
-        h5c_coll.writeToObject(self)
-        h5c_coll.closeFile()
+        try:
+            h5c_coll.writeToObject(self)
+        finally:
+            h5c_coll.closeFile()
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", root: "str" = "/") -> "DeltaClCollection":
diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..63adea1 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -340,30 +340,28 @@ class FisherMatrix:
                 else:
                     raise FileExistsError(f"{outfile}")
 
-        hf = h5py.File(outfile, 'w')
-        str_dtype = h5py.special_dtype(vlen=str)
-        hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
-        hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
-        hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
-        hf.create_dataset(name="cosmological_pars", data=np.array(list(self.cosmological_parameters), dtype=str_dtype),
-                          dtype=str_dtype)
-        if len(self.nuisance_parameters) > 0:
-            hf.create_dataset(name="nuisance_pars", data=np.array(list(self.nuisance_parameters), dtype=str_dtype),
+        with h5py.File(outfile, 'w') as hf:
+            str_dtype = h5py.special_dtype(vlen=str)
+            hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
+            hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
+            hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
+            hf.create_dataset(name="cosmological_pars", data=np.array(list(self.cosmological_parameters), dtype=str_dtype),
                               dtype=str_dtype)
-        hf.close()
+            if len(self.nuisance_parameters) > 0:
+                hf.create_dataset(name="nuisance_pars", data=np.array(list(self.nuisance_parameters), dtype=str_dtype),
+                                  dtype=str_dtype)
 
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
-            hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
-            try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
-            except KeyError:
-                self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
-            self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
-            hf.close()
+            with h5py.File(file, 'r') as hf:
+                self.name = str(hf["name"][()])
+                try:
+                    self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                except KeyError:
+                    self._nuisance_parameters = set()
+                self._cosmological_parameters = set(hf["cosmological_pars"][()])
+                indices = hf["indices"][()]
+                self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
 
         elif file_ext == 'csv':
             matrix_df = pd.read_csv(file, index_col=0)
-- 
2.43.0


From 1fa1df7f818ec22df74ecdc5308cf986b42738b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 02/31] fix: decode names read from a Fisher matrix HDF5 file

---
 seyfert/fisher/fisher_matrix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 63adea1..2eaf3fa 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -351,16 +351,21 @@ class FisherMatrix:
                 hf.create_dataset(name="nuisance_pars", data=np.array(list(self.nuisance_parameters), dtype=str_dtype),
                                   dtype=str_dtype)
 
+    @staticmethod
+    def _decode(value: "Union[str, bytes]") -> "str":
+        # h5py >= 3 returns variable length strings as bytes
+        return value.decode() if isinstance(value, bytes) else str(value)
+
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             with h5py.File(file, 'r') as hf:
-                self.name = str(hf["name"][()])
+                self.name = self._decode(hf["name"][()])
                 try:
-                    self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                    self._nuisance_parameters = {self._decode(par) for par in hf["nuisance_pars"][()]}
                 except KeyError:
                     self._nuisance_parameters = set()
-                self._cosmological_parameters = set(hf["cosmological_pars"][()])
-                indices = hf["indices"][()]
+                self._cosmological_parameters = {self._decode(par) for par in hf["cosmological_pars"][()]}
+                indices = [self._decode(par) for par in hf["indices"][()]]
                 self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
 
         elif file_ext == 'csv':
-- 
2.43.0


From 9aef11f8825029ecb71e92647c59a7d825b4e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 03/31] fix: discard inverse and correlation of a Fisher matrix
 when the matrix changes

---
 seyfert/fisher/fisher_matrix.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 2eaf3fa..a70b422 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -192,6 +192,11 @@ class FisherMatrix:
                              f'Rows: {", ".join(fisher_rows)}\n'
                              f'Physical parameters: {", ".join(self.physical_parameters)}')
 
+    def _resetDerivedMatrices(self) -> "None":
+        # to be called whenever self.matrix changes, the matrices evaluated from the old one are not valid anymore
+        self.inverse = None
+        self.correlation = None
+
     def selectRelevantFisherSubMatrix(self):
         relevant_pars = self.cosmological_parameters | self.nuisance_parameters
         all_phys_pars = set(self.matrix.index)
@@ -203,6 +208,8 @@ class FisherMatrix:
             pars_to_exclude |= self._nuisance_parameters
             self._nuisance_parameters = set()
         relevant_pars -= pars_to_exclude
+        if relevant_pars != all_phys_pars:
+            self._resetDerivedMatrices()
         self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
         self.matrix.sort_index(axis=0, inplace=True)
         self.matrix.sort_index(axis=1, inplace=True)
@@ -215,6 +222,7 @@ class FisherMatrix:
         self._cosmological_parameters = self.cosmological_parameters - params
         self._nuisance_parameters = self.nuisance_parameters - params
         self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
+        self._resetDerivedMatrices()
 
     def evaluateInverse(self):
         self.inverse = fu.invert_dataframe(self.matrix)
@@ -227,12 +235,12 @@ class FisherMatrix:
 
     def evaluateCorrelationMatrix(self) -> "None":
         sigmas = np.sqrt(np.diag(self.inverse))
-        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.matrix.shape[0], axis=0),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
-        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.matrix.shape[1], axis=1),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
+        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.inverse.shape[0], axis=0),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
+        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.inverse.shape[1], axis=1),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
         self.correlation = self.inverse / (sigma_row_df * sigma_col_df)
         self.correlation = self.correlation.loc[self._cosmological_parameters, self._cosmological_parameters]
         self.correlation.sort_index(axis=0, inplace=True)
@@ -261,6 +269,7 @@ class FisherMatrix:
             self._cosmological_parameters = self.cosmological_parameters - params
             self._nuisance_parameters = self.nuisance_parameters - params
             self.inverse = sliced_inverse
+            self.correlation = None
             marg_fisher = fu.invert_dataframe(sliced_inverse)
             self.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
 
@@ -309,6 +318,7 @@ class FisherMatrix:
             prior_fisher.loc[name, name] = 1 / (sigma_prior**2)
 
         self.matrix = self.matrix.add(prior_fisher, fill_value=0)
+        self._resetDerivedMatrices()
 
     def getFilename(self) -> "str":
         sub_dict = {
@@ -367,10 +377,12 @@ class FisherMatrix:
                 self._cosmological_parameters = {self._decode(par) for par in hf["cosmological_pars"][()]}
                 indices = [self._decode(par) for par in hf["indices"][()]]
                 self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
+                self._resetDerivedMatrices()
 
         elif file_ext == 'csv':
             matrix_df = pd.read_csv(file, index_col=0)
             self.matrix = matrix_df
+            self._resetDerivedMatrices()
             if self.cosmological_parameters is None:
                 logger.warning(f'cosmological parameters not set')
             if self.nuisance_parameters is None:
-- 
2.43.0


From 15a88aadc66d6f593ed9a38372a460edb46b40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 04/31] fix: refuse priors on parameters absent from the Fisher
 matrix

---
 seyfert/fisher/fisher_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index a70b422..eafc774 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -312,6 +312,9 @@ class FisherMatrix:
         return errs
 
     def addPriorToParameters(self, fiducials_dict: "Dict[str, float]", frac_delta: "float"):
+        missing = set(fiducials_dict) - set(self.index)
+        if missing:
+            raise FisherMatrixError(f"cannot add a prior on missing parameters {missing}")
         prior_fisher = pd.DataFrame(np.zeros(self.matrix.shape), index=self.index, columns=self.columns)
         for name, value in fiducials_dict.items():
             sigma_prior = frac_delta * value
-- 
2.43.0


From 9a4c55f75f0dc520a6c91c75e0e373e2425d9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 05/31] fix: keep the Fisher matrices passed to FisherAnalysis
 as a list

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4f9c9b1..9ad7f4a 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -52,7 +52,7 @@ class FisherAnalysis:
         if isinstance(fisher_matrices, list):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-            self.fisher_matrices = {}
+            self.fisher_matrices = {f.name: f for f in fisher_matrices}
         elif isinstance(fisher_matrices, dict):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-- 
2.43.0


From a7aff78aac8655940f418b14a125019a80b09afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 06/31] fix: open weight function files at the requested root

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 7555d52..82ce038 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,7 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
+        h5w.openFile(file=file, mode='r', root=root)
         try:
             h5w.writeToObject(self)
         finally:
-- 
2.43.0


From a805bfbb68dea582521e49d5d249412ef93886c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 07/31] fix: save spectra without kernels and keep the stored
 weight functions when loading

---
 seyfert/cosmology/c_ells.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index ebf0c46..cf43f0f 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -486,7 +486,7 @@ class H5Cl(AbstractH5FileIO):
         if obj.kernel is not None:
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
-        if obj.weight1 is not None:
+        if obj.kernel is not None and obj.weight1 is not None:
             w1_root_path = f'weight_functions/{self.probe1}'
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
@@ -509,6 +509,7 @@ class H5ClCollection(AbstractH5FileIO):
         elif 'z_array' in self.root:
             obj.z_grid = self.root['z_array'][()]
 
+        obj.weight_dict = {}
         if 'weight_functions' in self.root:
             w_grp = self.root['weight_functions']
             w_grp_path = w_grp.name
@@ -520,16 +521,16 @@ class H5ClCollection(AbstractH5FileIO):
 
         cls_grp = self.root['cls']
         cls_grp_path = cls_grp.name
-        obj.weight_dict = {}
         for cl_kind in cls_grp:
             p1, p2 = gu.get_probes_from_comb_key(cl_kind)
             h5cl = H5Cl(probe1=p1, probe2=p2)
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
-            if p1 not in obj.weight_dict:
-                obj.weight_dict[p1] = cl_obj.weight1
-            if p2 not in obj.weight_dict:
-                obj.weight_dict[p2] = cl_obj.weight2
+            if cl_obj.kernel is not None:
+                if p1 not in obj.weight_dict:
+                    obj.weight_dict[p1] = cl_obj.weight1
+                if p2 not in obj.weight_dict:
+                    obj.weight_dict[p2] = cl_obj.weight2
 
             obj.cl_dict[cl_kind] = cl_obj
 
-- 
2.43.0


From b645d20696047078d60b45e5de9327c5d3abb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 08/31] fix: make the vectorised SteM derivative agree with the
 scalar one

---
 seyfert/derivatives/differentiator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..1f519cc 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,15 +130,15 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
-                x = x[1:-1]
-                y = y[1:-1]
-
                 less_than_three_points = y.shape[0] <= 3
                 stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
 
+                x = x[1:-1]
+                y = y[1:-1]
+
         dc_lij = slopes.reshape((n_ells, ni, nj))
 
         return dc_lij
-- 
2.43.0


From 2fc83a68195611ca92a32eb8835fb9c2e25e0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 09/31] fix: read bias bin numbers with more than one digit

---
 seyfert/derivatives/differentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 1f519cc..dabc61b 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+import re
 import numpy as np
 from scipy import integrate
 from typing import List
@@ -183,7 +184,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                k = int(re.search(r"\d+$", self.param.name).group())
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
-- 
2.43.0


From d565bb95c458aac511547cd903214b606b379aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 10/31] fix: integrate leftover Newton-Cotes points along the
 requested axis

---
 seyfert/numeric/integration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/numeric/integration.py b/seyfert/numeric/integration.py
index 9d15764..8f861e5 100644
--- a/seyfert/numeric/integration.py
+++ b/seyfert/numeric/integration.py
@@ -96,8 +96,8 @@ class CompositeNewtonCotesIntegrator:
             aend, Bend = integrate.newton_cotes(self.n_excess_points, 1)
             slc = [slice(None)] * len(self.y.shape)
             slc[axis] = slice(-self.n_excess_points - 1, self.y.shape[axis])
-            yend = self.y[tuple(slc)]
-            last_bin_contrib = dx * np.sum(aend * yend, axis=axis)
+            yend = np.moveaxis(self.y[tuple(slc)], axis, -1)
+            last_bin_contrib = dx * np.sum(aend * yend, axis=-1)
 
             result += last_bin_contrib
 
-- 
2.43.0


From e0ebc837fda0a24017b65ff476378684f06841de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 11/31] fix: assign constant bias values to their own bins

---
 seyfert/cosmology/bias.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index f874c88..b9bd8b7 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -181,6 +181,16 @@ class BiasModel(ABC):
     def n_bins(self) -> "int":
         return len(self.z_bin_edges) - 1
 
+    def getSortedBiasValues(self) -> "np.ndarray":
+        par_names = list(self.nuisance_parameters.keys())
+        digit_regex = re.compile(r'\d+')
+
+        def _get_bias_idx(s) -> "int":
+            match = digit_regex.search(s)
+            return int(s[match.start():match.end()])
+
+        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
+
     @abstractmethod
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
         pass
@@ -194,7 +204,7 @@ class ConstantBias(BiasModel):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
@@ -211,16 +221,6 @@ class PiecewiseBias(BiasModel):
 
         return b_i_z
 
-    def getSortedBiasValues(self) -> "np.ndarray":
-        par_names = list(self.nuisance_parameters.keys())
-        digit_regex = re.compile(r'\d+')
-
-        def _get_bias_idx(s) -> "int":
-            match = digit_regex.search(s)
-            return int(s[match.start():match.end()])
-
-        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
-
     def getConditionAndValuesLists(self, z_grid: "np.ndarray"):
         b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
-- 
2.43.0


From ed1f7ea432ce2f2cf206ad6e9628b50b5acaab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 12/31] fix: compare the sky fraction of forecast
 configurations

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index e4bf587..a4e55d4 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -169,7 +169,7 @@ class ForecastConfig:
             self.phys_pars == other.phys_pars,
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
-            self.survey_f_sky, other.survey_f_sky,
+            self.survey_f_sky == other.survey_f_sky,
             self.probes_combinations == other.probes_combinations
         ])
 
-- 
2.43.0


From ea776a2d28ba896c53a0a28a6121c8e21e2a932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 13/31] fix: refuse probe input files which do not exist

---
 seyfert/config/probe_config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 4fdb5e8..3971e5a 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -57,16 +57,12 @@ class ProbeConfig:
             self.input_data_dir / self.long_name,
             self.input_data_dir
         ]
-        input_file = None
         for input_dir in input_dirs:
             input_file = input_dir / filename
             if input_file.is_file():
-                break
+                return input_file
 
-        if input_file is None:
-            raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
-
-        return input_file
+        raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
 
     def loadFromJSONConfig(self, json_config: "JSONForecastConfig", load_nuis_params=False):
         probe_dict = json_config.probes[self.name.toAlias().name]
-- 
2.43.0


From 0060188c25b40ad43046d134ffe54c44178f5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 14/31] fix: keep the description of a parameter in its
 dictionary

---
 seyfert/cosmology/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 1ff92d6..ee8924c 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -80,7 +80,8 @@ class PhysicalParameter:
             'is_free_parameter': self.is_free_parameter,
             'stem_factor': self.stem_factor,
             'derivative_method': self.derivative_method,
-            'units': self.units
+            'units': self.units,
+            'description': self.description
         }
         if self.is_nuisance:
             data['probe'] = self.probe
-- 
2.43.0


From 4609ba0e751a65f4ff4686f6d24ddd6f5ec89847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 15/31] fix: leave the parameters unchanged when a displacement
 is refused

---
 seyfert/cosmology/parameter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index ee8924c..18b04c1 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -263,8 +263,6 @@ class PhysicalParametersCollection(GenericDictInterface[str, PhysicalParameter])
             if not self[dvar].is_free_parameter:
                 raise ParameterError(f'Parameter {dvar} is not present but you are trying to vary it')
 
-            self[dvar].updateValueForDisplacement(self.stem_dict[step])
-
             if self.is_universe_flat and dvar in {'Omm', 'OmDE'}:
                 Omm = self["Omm"]
                 OmDE = self["OmDE"]
@@ -273,6 +271,10 @@ class PhysicalParametersCollection(GenericDictInterface[str, PhysicalParameter])
                                          f'{Omm.fiducial + OmDE.fiducial}')
                 if Omm.is_free_parameter and OmDE.is_free_parameter:
                     raise ParameterError('Omm and OmDE cannot be both free in flat cosmology')
+
+            self[dvar].updateValueForDisplacement(self.stem_dict[step])
+
+            if self.is_universe_flat and dvar in {'Omm', 'OmDE'}:
                 logger.info(f'{dvar} has been varied in flat Universe')
                 if dvar == "Omm" and not OmDE.is_free_parameter:
                     logger.info(f'Setting OmDE current value to 1-Omm = {1-Omm.current_value}')
-- 
2.43.0


From eb9f0e643ab37202f4465eec303c64b6e7742a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 16/31] fix: vary the cosmology at the configured displacements
 and flatness

---
 seyfert/main/cl_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 6886c6f..329e960 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -83,14 +83,14 @@ def compute_cls_variations(dvar: "str", fid_cls, ws, phys_pars, densities, forec
                            pmm_cfg=None, compute_pmm=False,
                            fiducial_cosmology=None) -> "Dict[int, AngularCoefficientsCollector]":
     cl_coll_variations = {0: fid_cls}
-    for step in np.r_[-7:0, 1:8]:
+    for step in phys_pars.stem_steps:
         logger.info(f"dvar {dvar}, step {step}")
         phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
         if not compute_pmm:
             cosmology = load_cosmology(ws, dvar, step, phys_pars)
         else:
             cosmology = Cosmology(params=phys_pars.cosmological_parameters,
-                                  flat=True, cosmology_name="CPL",
+                                  flat=phys_pars.is_universe_flat, model_name="CPL",
                                   z_grid=pmm_cfg.z_grid)
             cosmology.evaluatePowerSpectrum(
                 workdir=".", power_spectrum_config=pmm_cfg)
-- 
2.43.0


From bc74a907b4a793db61158472c9db8ab21ef02e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 17/31] fix: judge child commands by their exit status

---
 seyfert/main/task_runners.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..a2b1d96 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -156,9 +156,11 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.returncode != 0:
             logger.error(proc.stderr.decode("utf-8"))
             raise JobFailError(f"Command {cmd} failed")
+        if proc.stderr:
+            logger.warning(proc.stderr.decode("utf-8"))
         if proc.stdout:
             logger.info(f'Stdout:\n{proc.stdout.decode("utf-8").strip()}')
 
@@ -592,7 +594,9 @@ class ForecastRunner:
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
         res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
-        sp.run(res_cmd, shell=True)
+        proc = sp.run(res_cmd, shell=True)
+        if proc.returncode != 0:
+            raise JobFailError(f"Command {res_cmd} failed")
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
         outdir = Path(outdir)
-- 
2.43.0


From 96036af1f84c7f3f29693aac9e58db824fb752d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 18/31] fix: count whole days in the duration of a run

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index a2b1d96..a10ade5 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -608,7 +608,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From 8767c28c4ac402c595407842818aa49e507141a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 19/31] fix: read displacement steps with more than one digit
 from job directory names

---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..e00f5f6 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,7 +90,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From 0670ecfb0ab0741bc671206e6629559c002954e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 20/31] fix: attribute job output files of any year and count
 whole days of job time

---
 seyfert/main/bsub_utils.py   | 4 ++--
 seyfert/main/report_maker.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..d4f6910 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -183,7 +183,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_20[0-9]{2}")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
@@ -200,7 +200,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..b9ee619 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -116,7 +116,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times['tf'] - times['ti']).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
-- 
2.43.0


From 5d3a4bc7820aee9d8cbb203b721b3fd38afdcc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 21/31] fix: data vectors of different length are not equal

---
 seyfert/fisher/datavector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/datavector.py b/seyfert/fisher/datavector.py
index 88f15d2..3699530 100644
--- a/seyfert/fisher/datavector.py
+++ b/seyfert/fisher/datavector.py
@@ -41,7 +41,7 @@ class ClDataVector:
         return len(self.entries)
 
     def __eq__(self, other: "ClDataVector") -> "bool":
-        return all(entry1 == entry2 for entry1, entry2 in zip(self, other))
+        return len(self) == len(other) and all(entry1 == entry2 for entry1, entry2 in zip(self, other))
 
     @property
     def is_single_autocorrelation(self) -> "bool":
-- 
2.43.0


From a55bd589d0bc5157a9f87b42c3005f73722e71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 22/31] fix: collections of spectra with different keys are not
 equal

---
 seyfert/cosmology/c_ells.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index cf43f0f..99484a6 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -428,7 +428,8 @@ class AngularCoefficientsCollector:
         return h5cl_coll.load(file, root)
 
     def __eq__(self, other: "AngularCoefficientsCollector") -> "bool":
-        return all([self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict])
+        return set(self.cl_dict) == set(other.cl_dict) and all(self.cl_dict[key] == other.cl_dict[key]
+                                                               for key in self.cl_dict)
         
 
 class H5Cl(AbstractH5FileIO):
-- 
2.43.0


From 23b7ae7d81cacd83b9625e4f25fa271baeedea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 23/31] fix: write the sign of a figure of merit loss once

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 7f22ac4..ad4ef53 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -90,7 +90,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     # Add delta fom if ref fom is given, else put double dash
     if ref_fom is not None:
         delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
-        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"-%.2f\%%" % delta_fom
+        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"%.2f\%%" % delta_fom
         latex_row += f"{str_delta_fom} & "
     else:
         latex_row += "-- & "
-- 
2.43.0


From bb13b1e19df7fec94b39729be7dffe0077aa6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 24/31] fix: translate the TeX form of a single probe back to
 its name

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index c684c47..9707925 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -61,7 +61,7 @@ class TeXTranslator:
 
     def ProbeTeXToName(self, tex_name: str) -> str:
         if '+' not in tex_name:
-            name = self.probe_name_to_tex[tex_name]
+            name = self.probe_tex_to_name[tex_name]
         else:
             probes = [self.probe_tex_to_name[p.strip()] for p in tex_name.split('+')]
             name = r'+'.join(probes)
-- 
2.43.0


From 8d6ce48da5c2ed4d090b8ebd133028a1bcd15748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 25/31] fix: typeset bias parameters of bins with more than one
 digit

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index 9707925..8df7615 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -5,7 +5,7 @@ import copy
 
 class TeXTranslator:
     def __init__(self):
-        self.bias_regex = re.compile("bg(ph|sp)([0-9])")
+        self.bias_regex = re.compile("bg(ph|sp)([0-9]+)")
         self.probe_regex = re.compile(r"(WL|GCph|GCsp)")
         self.column_name_regex = re.compile(r" (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ")
         self.probe_name_to_tex = {
-- 
2.43.0


From 6fd6ac9edf8d77ecaf1853caed7f43ab33466a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 26/31] fix: link the power spectrum directory given for a run

---
 seyfert/main/seyfert_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..a3a34e4 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -47,12 +47,14 @@ def prepare_workspace(args_dict):
                            phys_pars=fcfg.phys_pars, 
                            input_data_dir=input_data_dir)
 
+    ext_dirs = {}
     pmm_dir = args_dict.get('powerspectrum_dir')
     if pmm_dir is None:
         pmm_dir = ws.run_dir/"PowerSpectrum"
         pmm_dir.mkdir(exist_ok=True)
+    else:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
 
-    ext_dirs = {}
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
-- 
2.43.0


From 4ee404f473c53666fe7dbb619a4dcfe310af1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 27/31] fix: report on the error and output files which jobs
 write

---
 seyfert/main/report_maker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index b9ee619..494b56c 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -59,15 +59,15 @@ class JobReport:
             if self.status != NOT_EXECUTED_STRING:
                 job_report_string += f'- Core Dump: {self.core_dumped}\n'
                 job_report_string += f'- Errfile Path: {self.err_file}\n'
-                err_content = self.err_file.read_text()
+                err_content = self.err_file.read_text() if self.err_file is not None else ''
                 if err_content:
                     job_report_string += f'- Errfile Content: \n{err_content}\n'
         job_report_string += '\n'
         return job_report_string
 
     def getFiles(self) -> None:
-        self.err_file = self.getFilePathFromJobdirWithPattern('job*.err')
-        self.out_file = self.getFilePathFromJobdirWithPattern('job*.out')
+        self.err_file = self.getFilePathFromJobdirWithPattern('*.err')
+        self.out_file = self.getFilePathFromJobdirWithPattern('*.out')
         self.log_file = self.getFilePathFromJobdirWithPattern('*.log')
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
-- 
2.43.0


From 9c7e8dd73d2b6eafba5358f45b1f9b703442561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 28/31] fix: report a task without jobs as not executed

---
 seyfert/main/report_maker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 494b56c..4460add 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -167,7 +167,8 @@ class TaskReportMaker:
             self.mean_exec_time += job_report.execution_time_secs
             self.total_output_size_MB += job_report.output_size_MB
         self.n_jobs = len(self.job_reports)
-        self.mean_exec_time /= self.n_jobs
+        if self.n_jobs > 0:
+            self.mean_exec_time /= self.n_jobs
         if all([x.job_id is not None for x in self.job_reports]):
             self.job_reports.sort(key=lambda x: x.job_id)
 
@@ -201,7 +202,7 @@ class TaskReportMaker:
 
         if self.n_failed_jobs > 0:
             self.status = FAILURE_STRING
-        elif self.n_succeeded_jobs == self.n_jobs:
+        elif self.n_jobs > 0 and self.n_succeeded_jobs == self.n_jobs:
             self.status = SUCCESS_STRING
         elif self.n_not_executed_jobs == self.n_jobs:
             self.status = NOT_EXECUTED_STRING
-- 
2.43.0


From 5044719f820294b5cbb3f44bd50dbed28ff8dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 29/31] fix: call the plot configuration and correlation plots
 with the arguments they take

---
 seyfert/fisher/fisher_plot.py    | 4 ++--
 seyfert/fisher/fisher_results.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index c6b06e6..d2ef862 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -320,8 +320,8 @@ class FisherPlotter:
                 self.setPlotProperties(i, j)
 
     def makeAllCorrelationPlots(self, outdir: "Union[str, Path]" = None, close_fig: "bool" = True) -> "None":
-        for name, correlation_matrix in self.analysis.correlation_matrices.items():
-            fig, ax = self.makeSingleCorrelationPlot(name, correlation_matrix)
+        for name in self.fisher_matrices:
+            fig, ax = self.makeSingleCorrelationPlot(name)
             if outdir is not None:
                 outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
                 outfile_path = Path(outdir) / outfile_name
diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 910238b..f92a3dd 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -104,8 +104,7 @@ class FisherResultsCollector:
         for cosmology_name, cosmo_dict in self.cosmologies_dict.items():
             fish_analysis = self.analysis_dict[cosmology_name]
             pars_to_plot = cosmo_dict["pars_to_plot"]
-            fisher_plot_config = FisherPlotConfig(fishers=fish_analysis.fisher_matrices,
-                                                  n_cosmo_pars=len(pars_to_plot))
+            fisher_plot_config = FisherPlotConfig(n_cosmo_pars=len(pars_to_plot))
             fisher_plot_config.loadFromConfigDict(self.plot_config_dict)
             if self.plot_ranges_file is not None:
                 fisher_plot_config.loadParameterPlotRangesFromFile(self.plot_ranges_file)
-- 
2.43.0


From 866de281ad836956b9f9bbb9a5842beca5b09422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 30/31] fix: load results from the error files which are
 written

---
 seyfert/fisher/fisher_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index f92a3dd..b972981 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -161,8 +161,8 @@ class FisherResultsCollector:
             fish_analysis = FisherAnalysis(cosmology_name=cosmology_name)
             fish_analysis.loadBaseFishersFromDir(subdirs_dict["fishers"])
             fish_analysis.useBaseFishers()
-            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'errors*.csv')
-            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_errors*.csv')
+            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'marginalized_errors*.csv')
+            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_marginalized_errors*.csv')
             fish_analysis.marginalized_errors = pd.read_csv(errors_file, index_col=0)
             fish_analysis.relative_marginalized_errors = pd.read_csv(relative_errors_file, index_col=0)
             for corr_file in subdirs_dict["correlations"].iterdir():
-- 
2.43.0


From 2199726af61b9ccbca958d6397d7a152e1242dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 31/31] fix: draw the information box with its font size and
 transform

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index d2ef862..4cfa587 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -457,7 +457,7 @@ class FisherPlotter:
         }
         kwds.update(kwargs)
 
-        plot_utils.misc.add_text_box(pl_obj=self.figure, x=x, y=y, text=text, **kwargs)
+        plot_utils.misc.add_text_box(pl_obj=self.figure, x=x, y=y, text=text, **kwds)
 
     def setFigureTitle(self) -> "None":
         pass
-- 
2.43.0

