"""Reference definitions for seyfert.fisher.fisher_evaluator."""
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher import linalg_tools
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_evaluator import ClCovarianceMatrix
from seyfert.fisher.fisher_evaluator import FisherEvaluator
from seyfert.fisher.fisher_evaluator import MultipoleError
from seyfert.fisher.fisher_evaluator import mask_cl_blocks_to_common_ells
from seyfert.utils import array_utils
from seyfert.utils import formatters
from seyfert.utils.shortcuts import SmartKeyDict, ClSmartKeyDict
from typing import Union, Dict, Any
import itertools
import logging
import numpy as np
import pandas as pd
import time

logger = logging.getLogger(__name__)
TClDictLike = Union[Dict[Any, np.ndarray], ClSmartKeyDict, SmartKeyDict]

constants("seyfert.fisher.fisher_evaluator", 'TClDictLike')


@shape("seyfert.fisher.fisher_evaluator.MultipoleError")
class s_MultipoleError(Exception):
    pass


@shape("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix")
class s_ClCovarianceMatrix:
    pass


@shape("seyfert.fisher.fisher_evaluator.FisherEvaluator")
class s_FisherEvaluator:
    data_vector: 'ClDataVector'
    covariance: 'ClCovarianceMatrix'
    free_physical_parameters: 'Dict[str, PhysicalParameter]'


@of("seyfert.fisher.fisher_evaluator.mask_cl_blocks_to_common_ells")
def r_mask_cl_blocks_to_common_ells(l_dict, cl_dict):
    ells = array_utils.compute_arrays_intersection1d(list(l_dict.values()))
    masked_cl_dict = {}
    for key, block in cl_dict.items():
        mask = np.isin(l_dict[key], ells)
        masked_cl_dict[key] = block[mask]
    return (ells, masked_cl_dict)


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.__init__", ret=False)
def r_ClCovarianceMatrix_init(self, data_vector, ells=None):
    self.data_vector = data_vector
    self.common_ells = ells
    self.ell_blocks = {}
    self.cov_blocks = {}
    self.matrix = None
    self.inverse = None


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.evaluateInverse", ret=False)
def r_ClCovarianceMatrix_evaluateInverse(self):
    self.inverse = np.linalg.inv(self.matrix)


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.buildMatrix", ret=False)
def r_ClCovarianceMatrix_buildMatrix(self):
    cov_rows = []
    for AB in self.data_vector:
        row_blocks = []
        for CD in self.data_vector:
            row_blocks.append(self.cov_blocks[AB, CD])
        cov_rows.append(row_blocks)
    self.matrix = np.block(cov_rows)


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.evaluateAllBlocks", ret=False)
def r_ClCovarianceMatrix_evaluateAllBlocks(self, delta_cls):
    smart_ells = SmartKeyDict(delta_cls.ell_dict)
    smart_delta_cls = ClSmartKeyDict(delta_cls.delta_c_lij_array_dict)
    for row, AB in enumerate(self.data_vector):
        for col, CD in enumerate(self.data_vector):
            if row <= col:
                ells, cov_block = self.computeCovBlock(AB, CD, smart_ells, smart_delta_cls)
                self.ell_blocks[AB, CD] = ells
                self.cov_blocks[AB, CD] = cov_block
            else:
                self.ell_blocks[AB, CD] = self.ell_blocks[CD, AB]
                self.cov_blocks[AB, CD] = np.transpose(self.cov_blocks[CD, AB], axes=(0, 2, 1))


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.maskCovBlocksToCommonElls", ret=False)
def r_ClCovarianceMatrix_maskCovBlocksToCommonElls(self):
    common_ells, self.cov_blocks = mask_cl_blocks_to_common_ells(self.ell_blocks, self.cov_blocks)
    self.common_ells = common_ells


@of("seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.computeCovBlock", kind='static')
def r_ClCovarianceMatrix_computeCovBlock(AB, CD, smart_ells, smart_delta_cls):
    A, B = AB.toTupleRawKey()
    C, D = CD.toTupleRawKey()
    sel_block_keys = [(A, C), (B, D), (A, D), (B, C)]
    sel_ells = {}
    sel_delta_cls = {}
    for sel_key in sel_block_keys:
        sel_ells[sel_key] = smart_ells[sel_key]
        sel_delta_cls[sel_key] = smart_delta_cls[sel_key]
    ells, masked_delta_cls = mask_cl_blocks_to_common_ells(sel_ells, sel_delta_cls)
    enum_AB = linalg_tools.get_enumeration_map(smart_delta_cls[A, B].shape[1:], A == B)
    enum_CD = linalg_tools.get_enumeration_map(smart_delta_cls[C, D].shape[1:], C == D)
    n_ell = len(ells)
    n_rows = len(enum_AB)
    n_cols = len(enum_CD)
    cov_block = np.zeros((n_ell, n_rows, n_cols))
    for (i, j), row in enum_AB.items():
        for (k, m), col in enum_CD.items():
            cov_block[:, row, col] = masked_delta_cls[A, C][:, i, k] * masked_delta_cls[B, D][:, j, m] + masked_delta_cls[A, D][:, i, m] * masked_delta_cls[B, C][:, j, k]
    cov_block *= np.expand_dims(1 / (2 * ells + 1), (1, 2))
    return (ells, cov_block)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.__init__", ret=False)
def r_FisherEvaluator_init(self, datavector_keys):
    self.data_vector = ClDataVector(datavector_keys)
    self.free_physical_parameters = None
    self.free_nuisance_parameters = None
    self.free_cosmological_parameters = None
    self.covariance = None


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.fisher_name", kind='property')
def r_FisherEvaluator_fisher_name(self):
    return self.data_vector.name


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.involved_probes", kind='property')
def r_FisherEvaluator_involved_probes(self):
    return self.data_vector.involved_probes


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.ells", kind='property')
def r_FisherEvaluator_ells(self):
    return self.covariance.common_ells


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.computeFisherMatrix")
def r_FisherEvaluator_computeFisherMatrix(self, phys_pars, dcoll_dvar_dict, delta_cls, return_f_ell=False, auto_f_ells=None):
    self.selectFreeParameters(phys_pars)
    t0 = time.time()
    self.buildAndInvertCovarianceMatrix(delta_cls)
    tf = time.time()
    t0 = time.time()
    vec_dcl_ells, vec_dcls_dict = self.buildVectorizedClDerivatives(dcoll_dvar_dict)
    tf = time.time()
    self.checkClDerivativeMultipolesConsistency(vec_dcl_ells)
    t0 = time.time()
    f_ell_df = self.computeFisherOfMultipole(vec_dcls_dict=vec_dcls_dict)
    fisher_matrix_df = self.sumFisherOverMultipoles(f_ell_df=f_ell_df, ells=self.ells)
    tf = time.time()
    if not self.data_vector.is_single_autocorrelation:
        if auto_f_ells is None:
            raise ValueError()
        fisher_matrix_df = self.addInvolvedProbesContribution(f_mat_df=fisher_matrix_df, auto_f_ells=auto_f_ells)
    if return_f_ell:
        result = (fisher_matrix_df, f_ell_df)
    else:
        result = fisher_matrix_df
    return result


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.selectFreeParameters", ret=False)
def r_FisherEvaluator_selectFreeParameters(self, phys_pars):
    self.free_cosmological_parameters = phys_pars.free_cosmological_parameters
    self.free_nuisance_parameters = {}
    for entry in self.data_vector:
        p1, p2 = entry.toLongKey().toParts()
        self.free_nuisance_parameters.update(phys_pars.getFreeNuisanceParametersForProbe(p1))
        self.free_nuisance_parameters.update(phys_pars.getFreeNuisanceParametersForProbe(p2))
    self.free_physical_parameters = {}
    self.free_physical_parameters.update(self.free_cosmological_parameters)
    self.free_physical_parameters.update(self.free_nuisance_parameters)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.selectClDerivatives")
def r_FisherEvaluator_selectClDerivatives(self, l_dict, cl_dict):
    src_l_dict = SmartKeyDict(l_dict)
    src_cl_dict = ClSmartKeyDict(cl_dict)
    sel_l_dict = SmartKeyDict()
    sel_cl_dict = ClSmartKeyDict()
    for cl_key in self.data_vector:
        sel_l_dict[cl_key] = src_l_dict[cl_key]
        sel_cl_dict[cl_key] = src_cl_dict[cl_key]
    return (sel_l_dict, sel_cl_dict)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.buildClDerivativeDataVector")
def r_FisherEvaluator_buildClDerivativeDataVector(self, dcoll):
    sel_l_dict, sel_dcl_dict = self.selectClDerivatives(l_dict=dcoll.ell_dict, cl_dict=dcoll.dc_lij_array_dict)
    ells, sel_dcl_dict = mask_cl_blocks_to_common_ells(l_dict=sel_l_dict, cl_dict=sel_dcl_dict)
    vec_dcls = []
    for entry in self.data_vector:
        cl_block = sel_dcl_dict[entry]
        if entry.is_auto_correlation:
            vectorized_block = fu.vecpClArray(cl_block)
        else:
            vectorized_block = fu.vecClArray(cl_block)
        vec_dcls.append(vectorized_block)
    vec_dcls = np.concatenate(vec_dcls, axis=1)
    return (ells, vec_dcls)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.buildVectorizedClDerivatives")
def r_FisherEvaluator_buildVectorizedClDerivatives(self, dcoll_dvar_dict):
    ells_list = []
    vec_dcl_dict = {}
    for dvar in self.free_physical_parameters:
        ells, vec_dcls_dvar = self.buildClDerivativeDataVector(dcoll_dvar_dict[dvar])
        vec_dcl_dict[dvar] = vec_dcls_dvar
        ells_list.append(ells)
    ells_list = np.stack(ells_list)
    unique_ells = np.unique(ells_list, axis=0).squeeze()
    return (unique_ells, vec_dcl_dict)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.buildAndInvertCovarianceMatrix", ret=False)
def r_FisherEvaluator_buildAndInvertCovarianceMatrix(self, delta_cls):
    self.covariance = ClCovarianceMatrix(self.data_vector)
    self.covariance.evaluateAllBlocks(delta_cls)
    self.covariance.maskCovBlocksToCommonElls()
    self.covariance.buildMatrix()
    self.covariance.evaluateInverse()


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.checkClDerivativeMultipolesConsistency", ret=False)
def r_FisherEvaluator_checkClDerivativeMultipolesConsistency(self, vec_dcl_ells):
    if not len(vec_dcl_ells.shape) == 1:
        raise MultipoleError()
    if not np.all(vec_dcl_ells == self.covariance.common_ells):
        raise MultipoleError()


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.computeFisherOfMultipole")
def r_FisherEvaluator_computeFisherOfMultipole(self, vec_dcls_dict):
    fisher_of_ell_elements = {}
    n_ells = self.ells.size
    for a, b in itertools.combinations_with_replacement(self.free_physical_parameters, 2):
        dCl_da = vec_dcls_dict[a]
        dCl_db = vec_dcls_dict[b]
        f_ell = np.array([dCl_da[l_idx] @ self.covariance.inverse[l_idx] @ dCl_db[l_idx] for l_idx in range(n_ells)])
        fisher_of_ell_elements[a, b] = f_ell
        fisher_of_ell_elements[b, a] = f_ell
    fisher_of_ell_df = pd.DataFrame(fisher_of_ell_elements)
    fisher_of_ell_df.set_index(self.ells, inplace=True)
    fisher_of_ell_df.index.names = ['ell']
    return fisher_of_ell_df


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.sumFisherOverMultipoles", kind='static')
def r_FisherEvaluator_sumFisherOverMultipoles(f_ell_df, ells):
    f_ell_sel = f_ell_df.loc[f_ell_df.index.isin(ells)]
    f_mat = f_ell_sel.sum().unstack()
    return f_mat


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.addInvolvedProbesContribution")
def r_FisherEvaluator_addInvolvedProbesContribution(self, f_mat_df, auto_f_ells):
    involved_probes = self.data_vector.getInvolvedAutoCorrelationProbes()
    for p in involved_probes:
        auto_f_df = auto_f_ells[p]
        auto_ells = auto_f_df.index
        exclusive_ells = auto_f_df.index[~auto_ells.isin(self.ells)]
        if exclusive_ells.size > 0:
            auto_f_contrib = self.sumFisherOverMultipoles(auto_f_df, exclusive_ells)
            f_mat_df = f_mat_df.add(auto_f_contrib, fill_value=0)
    return f_mat_df


@of("seyfert.fisher.fisher_evaluator.compute_fisher_matrix")
def r_compute_fisher_matrix(data_vector, *args, **kwargs):
    f_ev = FisherEvaluator(data_vector)
    return f_ev.computeFisherMatrix(*args, **kwargs)

