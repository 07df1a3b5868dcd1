from seyfert.cosmology import weight_functions as wfs
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher import linalg_tools
from seyfert.fisher.delta_cl import DeltaCl
from seyfert.fisher.fisher_evaluator import mask_cl_blocks_to_common_ells
from seyfert.utils import array_utils
from seyfert.utils import general_utils as gu
from seyfert.utils.shortcuts import SmartKeyDict, ClSmartKeyDict
import datetime
import h5py
import itertools
import numpy as np


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.evaluateInverse", ret=False, state=True)
def ClCovarianceMatrix_evaluateInverse(self):
    self.inverse = np.linalg.inv(self.matrix)


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.buildMatrix", ret=False, state=True)
def ClCovarianceMatrix_buildMatrix(self):
    cov_rows = []
    for AB in self.data_vector:
        row_blocks = []
        for CD in self.data_vector:
            row_blocks.append(self.cov_blocks[AB, CD])
        cov_rows.append(row_blocks)
    self.matrix = np.block(cov_rows)


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.evaluateAllBlocks", ret=False)
def ClCovarianceMatrix_evaluateAllBlocks(self, delta_cls):
    smart_ells = SmartKeyDict(delta_cls.ell_dict)
    smart_delta_cls = ClSmartKeyDict(delta_cls.delta_c_lij_array_dict)
    for row, AB in enumerate(self.data_vector):
        for col, CD in enumerate(self.data_vector):
            if row <= col:
                ells, cov_block = self.computeCovBlock(AB, CD, smart_ells, smart_delta_cls)
                self.ell_blocks[AB, CD] = ells
                self.cov_blocks[AB, CD] = cov_block
            else:
                self.ell_blocks[AB, CD] = self.ell_blocks[CD, AB]
                self.cov_blocks[AB, CD] = np.transpose(self.cov_blocks[CD, AB], axes=(0, 2, 1))


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.computeCovBlock")
def ClCovarianceMatrix_computeCovBlock(AB, CD, smart_ells, smart_delta_cls):
    A, B = AB.toTupleRawKey()
    C, D = CD.toTupleRawKey()
    sel_block_keys = [(A, C), (B, D), (A, D), (B, C)]
    sel_ells = {}
    sel_delta_cls = {}
    for sel_key in sel_block_keys:
        sel_ells[sel_key] = smart_ells[sel_key]
        sel_delta_cls[sel_key] = smart_delta_cls[sel_key]
    ells, masked_delta_cls = mask_cl_blocks_to_common_ells(sel_ells, sel_delta_cls)
    enum_AB = linalg_tools.get_enumeration_map(smart_delta_cls[A, B].shape[1:], A == B)
    enum_CD = linalg_tools.get_enumeration_map(smart_delta_cls[C, D].shape[1:], C == D)
    n_ell = len(ells)
    n_rows = len(enum_AB)
    n_cols = len(enum_CD)
    cov_block = np.zeros((n_ell, n_rows, n_cols))
    for (i, j), row in enum_AB.items():
        for (k, m), col in enum_CD.items():
            cov_block[:, row, col] = masked_delta_cls[A, C][:, i, k] * masked_delta_cls[B, D][:, j, m] + masked_delta_cls[A, D][:, i, m] * masked_delta_cls[B, C][:, j, k]
    cov_block *= np.expand_dims(1 / (2 * ells + 1), (1, 2))
    return (ells, cov_block)


@of("seyfert.fisher.delta_cl.DeltaCl.__init__", ret=False, state=True)
def DeltaCl_init(self, name=None, delta_c_lij=None, ells=None, delta_ells=None):
    self.name = name
    self.delta_c_lij = delta_c_lij
    self.inv_delta_c_lij = None
    self.c_lij = None
    self.l_bin_centers = ells
    self.l_bin_widths = delta_ells
    self.forecast_config = None
    self.fisher_config = None
    self.noise_lij = None
    self.probe_1 = None
    self.probe_2 = None
    if self.delta_c_lij is not None:
        self.inv_delta_c_lij = np.linalg.inv(self.delta_c_lij)


@of("seyfert.fisher.delta_cl.DeltaCl.fromCl", state=True)
def DeltaCl_fromCl(cls, cl, fcfg, fish_cfg, name=None):
    deltacl = cls(name=name)
    deltacl.forecast_config = fcfg
    deltacl.fisher_config = fish_cfg
    deltacl.c_lij = cl.c_lij
    deltacl.l_bin_centers = cl.l_bin_centers
    deltacl.l_bin_widths = cl.l_bin_widths
    deltacl.probe_1 = cl.probe1
    deltacl.probe_2 = cl.probe2
    if deltacl.is_auto_correlation and deltacl.name != deltacl.probe_1:
        pass
    return deltacl


@of("seyfert.fisher.delta_cl.DeltaCl.is_auto_correlation")
def DeltaCl_is_auto_correlation(self):
    return isinstance(self.probe_1, str) and self.probe_1 == self.probe_2


@of("seyfert.fisher.delta_cl.DeltaCl.computeNoise")
def DeltaCl_computeNoise(self):
    if self.probe_1 != self.probe_2:
        noise_lij = np.zeros(self.c_lij.shape)
    else:
        probe = self.probe_1
        probe_cfg = self.forecast_config.probe_configs[probe]
        w = wfs.weight_function_for_probe(probe, probe_config=probe_cfg)
        w.setUp()
        w.density.evaluateSurfaceDensity()
        shot_noise_values = w.shot_noise_factor * w.density.shot_noise
        noise_ij = np.diag(shot_noise_values)
        noise_lij = np.repeat(noise_ij[np.newaxis, :, :], self.c_lij.shape[0], axis=0)
        if probe == 'SpectroscopicGalaxy' and self.forecast_config.shot_noise_sp_reduced:
            wsp = w
            wph = wfs.weight_function_for_probe('PhotometricGalaxy', probe_config=self.forecast_config.probe_configs['PhotometricGalaxy'])
            wph.setUp()
            Nph_tot = wph.density.computeTotalGalaxyNumber()
            Nsp_tot = wsp.density.computeTotalGalaxyNumber()
            noise_lij *= Nsp_tot / Nph_tot
    return noise_lij


@of("seyfert.fisher.delta_cl.DeltaCl.evaluate", ret=False, state=True)
def DeltaCl_evaluate(self, f_sky=None):
    if self.noise_lij is None:
        self.noise_lij = self.computeNoise()
    if f_sky is None:
        f_sky = self.forecast_config.survey_f_sky
    norm_factor = np.sqrt(1 / (self.l_bin_widths * f_sky))
    norm_factor = np.expand_dims(norm_factor, axis=(1, 2))
    self.delta_c_lij = norm_factor * (self.c_lij + self.noise_lij)
    if self.is_auto_correlation:
        self.inv_delta_c_lij = np.linalg.inv(self.delta_c_lij)


@of("seyfert.fisher.delta_cl.DeltaClCollection.__init__", ret=False, state=True)
def DeltaClCollection_init(self, fcfg=None, fisher_cfg=None):
    super().__init__()
    self.forecast_config = fcfg
    self.f_sky = None
    self.fisher_cfg = fisher_cfg
    self.single_blocks = {}
    if self.forecast_config is not None:
        self.f_sky = self.forecast_config.survey_f_sky


@of("seyfert.fisher.delta_cl.DeltaClCollection.ell_dict")
def DeltaClCollection_ell_dict(self):
    return {key: self.single_blocks[key].l_bin_centers for key in self.single_blocks}


@of("seyfert.fisher.delta_cl.DeltaClCollection.delta_c_lij_array_dict")
def DeltaClCollection_delta_c_lij_array_dict(self):
    return {key: self.single_blocks[key].delta_c_lij for key in self.single_blocks}


@of("seyfert.fisher.delta_cl.DeltaClCollection.loadInpuDataFromWorkspace", ret=False)
def DeltaClCollection_loadInpuDataFromWorkspace(self, ws):
    self.loadFiducialClsFromWorkspace(ws)
    if self.shot_noise_file is not None:
        self.loadShotNoiseFromFile(self.shot_noise_file)


@of("seyfert.fisher.delta_cl.DeltaClCollection.loadFiducialCls", ret=False)
def DeltaClCollection_loadFiducialCls(self, cl_coll):
    for key, cl in cl_coll.cl_dict.items():
        p1, p2 = gu.get_probes_from_comb_key(obs_comb_key=key)
        name = p1 if p1 == p2 else key
        atomic_cov = DeltaCl.fromCl(cl, self.forecast_config, fish_cfg=self.fisher_cfg, name=name)
        self.single_blocks[key] = atomic_cov


@of("seyfert.fisher.delta_cl.DeltaClCollection.loadFiducialClsFromWorkspace", ret=False)
def DeltaClCollection_loadFiducialClsFromWorkspace(self, ws):
    cl_coll = AngularCoefficientsCollector.fromHDF5(ws.getClFile(dvar='central', step=0))
    self.loadFiducialCls(cl_coll)


@of("seyfert.fisher.delta_cl.DeltaClCollection.loadShotNoiseFromFile", ret=False, state=True)
def DeltaClCollection_loadShotNoiseFromFile(self, file):
    with h5py.File(file, mode='r') as hf:
        for key in self.single_blocks:
            noise_ij = hf[key][()]
            n_ell = len(self.single_blocks[key].l_bin_centers)
            noise_lij = np.repeat(noise_ij[np.newaxis, :, :], n_ell, axis=0)
            self.single_blocks[key].noise_lij = noise_lij


@of("seyfert.fisher.delta_cl.DeltaClCollection.writeShotNoiseToFile", ret=False)
def DeltaClCollection_writeShotNoiseToFile(self, file):
    with h5py.File(file, mode='w') as hf:
        hf.attrs['CreationDate'] = datetime.datetime.now().isoformat()
        for key in self.single_blocks:
            noise_ij = self.single_blocks[key].noise_lij[0]
            hf.create_dataset(name=key, data=noise_ij)


@of("seyfert.fisher.delta_cl.DeltaClCollection.evaluateSingleBlocks", ret=False)
def DeltaClCollection_evaluateSingleBlocks(self, f_sky=None):
    for cov_block in self.single_blocks.values():
        cov_block.evaluate(f_sky=f_sky)
        if cov_block.is_auto_correlation:
            self[cov_block.name] = cov_block


@of("seyfert.fisher.delta_cl.DeltaClCollection.buildXCBlocks", ret=False)
def DeltaClCollection_buildXCBlocks(self):
    probes = self.forecast_config.present_probes
    l_dict = self.ell_dict
    blocks_dict = self.delta_c_lij_array_dict
    if len(probes) > 1:
        full_xc_name = fu.get_probes_xc_fisher_name(probes=probes)
        xc_ells, xc_cov_lij = fu.buildXCBlockMatrixForProbes(probes=probes, matrix_dict=blocks_dict, l_dict=l_dict)
        self[full_xc_name] = DeltaCl(name=full_xc_name, delta_c_lij=xc_cov_lij, ells=xc_ells)
        if len(probes) > 2:
            for p1, p2 in itertools.combinations(probes, 2):
                involved_probes = [p1, p2]
                xc_name = fu.get_probes_xc_fisher_name(probes=involved_probes)
                xc_ells, xc_cov_lij = fu.buildXCBlockMatrixForProbes(probes=involved_probes, matrix_dict=blocks_dict, l_dict=l_dict)
                self[xc_name] = DeltaCl(name=xc_name, delta_c_lij=xc_cov_lij, ells=xc_ells)


@of("seyfert.fisher.fisher_utils.buildXCBlockMatrixForProbes", raises=True)
def buildXCBlockMatrixForProbes(probes, matrix_dict, l_dict):
    relevant_combs = []
    for probe_1, probe_2 in itertools.combinations_with_replacement(probes, 2):
        comb_key = gu.get_probes_combination_key(probe_1, probe_2)
        if comb_key not in matrix_dict:
            comb_key = gu.get_probes_combination_key(probe_2, probe_1)
            if comb_key not in matrix_dict:
                raise KeyError()
        relevant_combs.append(comb_key)
    sel_tri_dict = {probe_comb_key: matrix_dict[probe_comb_key] for probe_comb_key in relevant_combs}
    sel_l_dict = {probe_comb_key: l_dict[probe_comb_key] for probe_comb_key in relevant_combs}
    l_common = array_utils.compute_arrays_intersection1d(list(sel_l_dict.values()))
    rows_list = []
    for probe_1 in probes:
        row = []
        for probe_2 in probes:
            probe_comb_key = gu.get_probes_combination_key(probe_1, probe_2)
            if probe_comb_key in sel_tri_dict:
                block = sel_tri_dict[probe_comb_key]
            else:
                probe_comb_key = gu.get_probes_combination_key(probe_2, probe_1)
                block = np.transpose(sel_tri_dict[probe_comb_key], axes=(0, 2, 1))
            common_multipoles_mask = np.isin(l_dict[probe_comb_key], l_common)
            block = block[common_multipoles_mask, :, :]
            row.append(block)
        rows_list.append(row)
    return (l_common, np.block(rows_list))


@of("seyfert.fisher.fisher_utils.get_probes_xc_fisher_name")
def get_probes_xc_fisher_name(probes):
    if len(probes) == 1:
        name = probes[0]
    else:
        name_parts = probes + ['XC']
        name = '+'.join(name_parts)
    return name

