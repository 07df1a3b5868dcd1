"""Reference: Fisher elements  F_ab = sum_l  dD_a(l)^T C(l)^-1 dD_b(l)."""
import itertools
from pathlib import Path
import numpy as np
import pandas as pd
from seyfert.fisher import fisher_evaluator as fe
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher import linalg_tools as lt
from seyfert.fisher.fisher_evaluator import ClCovarianceMatrix, FisherEvaluator, MultipoleError
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.delta_cl import DeltaClCollection
from seyfert.derivatives.cl_derivative import ClDerivativeCollector
from seyfert.utils.shortcuts import ClKey, SmartKeyDict, ClSmartKeyDict

E = "seyfert.fisher.fisher_evaluator.FisherEvaluator."


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.computeFisherOfMultipole", opaque=["seyfert.utils.shortcuts.*"])
def fisher_of_ell(self, vec_dcls_dict):
    elements = {}
    for a, b in itertools.combinations_with_replacement(self.free_physical_parameters, 2):
        f = []
        for i in range(self.covariance.common_ells.size):
            f.append(vec_dcls_dict[a][i] @ self.covariance.inverse[i] @ vec_dcls_dict[b][i])
        f = np.array(f)
        elements[(a, b)] = f
        elements[(b, a)] = f
    df = pd.DataFrame(elements)
    df.set_index(self.covariance.common_ells, inplace=True)
    df.index.names = ['ell']
    return df


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.sumFisherOverMultipoles")
def sum_over_ell(f_ell_df, ells):
    return f_ell_df.loc[f_ell_df.index.isin(ells)].sum().unstack()


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.selectFreeParameters", ret=False,
    opaque=["seyfert.utils.shortcuts.*"], state=["self.free_cosmological_parameters", "self.free_nuisance_parameters", "self.free_physical_parameters"])
def select_free(self, phys_pars):
    self.free_cosmological_parameters = phys_pars.free_cosmological_parameters
    nuis = {}
    for entry in self.data_vector:
        p1, p2 = entry.toLongKey().toParts()
        nuis.update(phys_pars.getFreeNuisanceParametersForProbe(p1))
        nuis.update(phys_pars.getFreeNuisanceParametersForProbe(p2))
    self.free_nuisance_parameters = nuis
    self.free_physical_parameters = {}
    self.free_physical_parameters.update(self.free_cosmological_parameters)
    self.free_physical_parameters.update(nuis)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.selectClDerivatives", opaque=["seyfert.utils.shortcuts.*"])
def select_derivs(self, l_dict, cl_dict):
    src_l, src_cl = SmartKeyDict(l_dict), ClSmartKeyDict(cl_dict)
    sel_l, sel_cl = SmartKeyDict(), ClSmartKeyDict()
    for k in self.data_vector:
        sel_l[k] = src_l[k]
        sel_cl[k] = src_cl[k]
    return sel_l, sel_cl


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.buildClDerivativeDataVector",
    opaque=["seyfert.utils.shortcuts.*", "seyfert.fisher.fisher_evaluator.mask_cl_blocks_to_common_ells",
            "seyfert.fisher.fisher_evaluator.FisherEvaluator.selectClDerivatives",
            "seyfert.fisher.fisher_utils.vecpClArray", "seyfert.fisher.fisher_utils.vecClArray"])
def deriv_data_vector(self, dcoll: "ClDerivativeCollector"):
    l_dict, dcl_dict = self.selectClDerivatives(dcoll.ell_dict, dcoll.dc_lij_array_dict)
    ells, dcl_dict = fe.mask_cl_blocks_to_common_ells(l_dict, dcl_dict)
    parts = [fu.vecpClArray(dcl_dict[entry]) if entry.is_auto_correlation else fu.vecClArray(dcl_dict[entry])
             for entry in self.data_vector]
    return ells, np.concatenate(parts, axis=1)


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.buildVectorizedClDerivatives",
    opaque=["seyfert.fisher.fisher_evaluator.FisherEvaluator.buildClDerivativeDataVector"])
def vectorized_derivs(self, dcoll_dvar_dict):
    ells, vecs = [], {}
    for p in self.free_physical_parameters:
        l, v = self.buildClDerivativeDataVector(dcoll_dvar_dict[p])
        vecs[p] = v
        ells.append(l)
    return np.unique(np.stack(ells), axis=0).squeeze(), vecs


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.checkClDerivativeMultipolesConsistency", raises=True, ret=False)
def check_ells(self, vec_dcl_ells):
    if len(vec_dcl_ells.shape) != 1:
        raise MultipoleError()
    if not np.all(vec_dcl_ells == self.covariance.common_ells):
        raise MultipoleError()


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.computeFisherMatrix", raises=True, effects=["FisherEvaluator.*"],
    opaque=["seyfert.fisher.fisher_evaluator.FisherEvaluator.*", "seyfert.fisher.datavector.*", "seyfert.utils.*"])
def compute_fisher(self, phys_pars, dcoll_dvar_dict, delta_cls, return_f_ell=False, auto_f_ells=None):
    self.selectFreeParameters(phys_pars)
    self.buildAndInvertCovarianceMatrix(delta_cls)
    ells, vec = self.buildVectorizedClDerivatives(dcoll_dvar_dict)
    self.checkClDerivativeMultipolesConsistency(ells)
    f_ell = self.computeFisherOfMultipole(vec_dcls_dict=vec)
    f = self.sumFisherOverMultipoles(f_ell, self.ells)
    if not self.data_vector.is_single_autocorrelation:
        if auto_f_ells is None:
            raise ValueError()
        f = self.addInvolvedProbesContribution(f, auto_f_ells)
    return (f, f_ell) if return_f_ell else f


@of("seyfert.fisher.fisher_evaluator.FisherEvaluator.buildAndInvertCovarianceMatrix", ret=False, state=["self.covariance*"],
    effects=["ClCovarianceMatrix.*"], opaque=["seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.evaluateAllBlocks",
                                             "seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.maskCovBlocksToCommonElls",
                                             "seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.buildMatrix",
                                             "seyfert.fisher.fisher_evaluator.ClCovarianceMatrix.evaluateInverse"])
def build_and_invert(self, delta_cls):
    cov = ClCovarianceMatrix(self.data_vector)
    self.covariance = cov
    cov.evaluateAllBlocks(delta_cls)
    cov.maskCovBlocksToCommonElls()
    cov.buildMatrix()
    cov.evaluateInverse()


@of("seyfert.fisher.fisher_utils.vecClArray")
def vec_cl(c_lij_arr):
    return np.stack([c_lij_arr[i].ravel(order='F') for i in range(c_lij_arr.shape[0])])


@of("seyfert.fisher.fisher_utils.vecpClArray", opaque=["seyfert.fisher.linalg_tools.vecp"])
def vecp_cl(c_lij_arr):
    return np.stack([lt.vecp(c_lij_arr[i]) for i in range(c_lij_arr.shape[0])])


@of("seyfert.fisher.linalg_tools.vecp", opaque=["seyfert.fisher.linalg_tools.triu_idxs_by_col"], raises=True)
def vecp(A):
    if A.shape[0] != A.shape[1]:
        raise Exception()
    i, j = lt.triu_idxs_by_col(A.shape[0])
    return A[i, j]


@of("seyfert.fisher.linalg_tools.triu_idxs_by_col")
def triu(n, order='F'):
    i, j = np.indices((n, n))
    i, j = i.ravel(order=order), j.ravel(order=order)
    keep = i <= j
    return i[keep], j[keep]


@of("seyfert.fisher.linalg_tools.get_enumeration_map", raises=True, opaque=["seyfert.fisher.linalg_tools.triu_idxs_by_col"])
def enumeration(shape, symm):
    if symm:
        if shape[0] != shape[1]:
            raise Exception()
        i, j = lt.triu_idxs_by_col(shape[0])
    else:
        i, j = np.indices(shape)
        i, j = i.ravel(order='F'), j.ravel(order='F')
    out = {}
    for n, (a, b) in enumerate(zip(i, j)):
        out[(a, b)] = n
    return out


@of("seyfert.main.fisher_core.compute_fisher_matrix", raises=True, effects=["to_hdf", "HDFStore"],
    opaque=["seyfert.fisher.*", "seyfert.utils.*"])
def core_compute(data_vector_like, ws, phys_pars, delta_cls, dcoll_dvar_dict):
    ev = FisherEvaluator(data_vector_like)
    dv = ev.data_vector
    if dv.is_single_autocorrelation:
        f, f_ell = ev.computeFisherMatrix(phys_pars=phys_pars, delta_cls=delta_cls, dcoll_dvar_dict=dcoll_dvar_dict, return_f_ell=True)
        probe = list(dv.getInvolvedAutoCorrelationProbes())[0]
        with pd.HDFStore(ws.auto_f_ells_file, mode="a") as hdf:
            f_ell.to_hdf(hdf, key=probe)
    else:
        autos = {}
        with pd.HDFStore(ws.auto_f_ells_file, mode="r") as hdf:
            for key in hdf:
                autos[Path(key).name] = hdf.get(key)
        if len(autos) < 3:
            raise Exception()
        f = ev.computeFisherMatrix(phys_pars=phys_pars, delta_cls=delta_cls, dcoll_dvar_dict=dcoll_dvar_dict, auto_f_ells=autos)
    return FisherMatrix.from_dataframe(df=f, name=dv.name, cosmological_parameters=ev.free_cosmological_parameters,
                                       nuisance_parameters=ev.free_nuisance_parameters)


@of("seyfert.main.fisher_core.prepare_inputs", opaque=["seyfert.fisher.*", "seyfert.utils.*", "seyfert.derivatives.*"],
    effects=["DeltaClCollection.*"])
def core_inputs(ws, shot_noise_file=None):
    fcfg = ws.getForecastConfiguration()
    if shot_noise_file is None:
        shot_noise_file = fcfg.shot_noise_file
    dcoll = {}
    for dvar in ws.collectDerivativeParams():
        dcoll[dvar] = ClDerivativeCollector.fromHDF5(ws.getClDerivativeFile(dvar))
    delta_cls = DeltaClCollection.fromHDF5(ws.delta_cls_file)
    if shot_noise_file is not None:
        delta_cls.loadShotNoiseFromFile(shot_noise_file)
        delta_cls.evaluateSingleBlocks(f_sky=fcfg.survey_f_sky)
    return delta_cls, dcoll
