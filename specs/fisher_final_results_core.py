"""Reference definitions for seyfert.fisher.final_results_core."""
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.final_results_core import _compute_a_posteriori_fisher_comb_from_name
from seyfert.fisher.final_results_core import create_results_for_cosmology
from seyfert.fisher.final_results_core import evaluate_a_posteriori_fisher_combinations
from seyfert.fisher.final_results_core import get_free_cosmo_pars_for_cosmology
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.utils.workspace import WorkSpace
import copy
import logging
import re

logger = logging.getLogger(__name__)
LCDM_params = {'Omm', 'Omb', 'h', 'ns', 'sigma8'}
w0_wa_CDM_params = LCDM_params | {'w0', 'wa'}
gamma_w0_wa_CDM_params = w0_wa_CDM_params | {'gamma'}

constants("seyfert.fisher.final_results_core", 'LCDM_params', 'w0_wa_CDM_params', 'gamma_w0_wa_CDM_params')


@of("seyfert.fisher.final_results_core.get_free_cosmo_pars_for_cosmology")
def r_get_free_cosmo_pars_for_cosmology(cosmology):
    return {'LCDM': LCDM_params, 'w0_wa_CDM': w0_wa_CDM_params, 'gamma_w0_wa_CDM': gamma_w0_wa_CDM_params}[cosmology]


@of("seyfert.fisher.final_results_core.create_final_results", ret=False)
def r_create_final_results(rundir, outdir_name, overwrite=False):
    ws = WorkSpace(rundir)
    params = ws.getParamsCollection()
    metadata = ws.getRunMetadata()
    fisher_matrices = {}
    for file in ws.base_fishers_dir.glob('fisher*.hdf5'):
        F = FisherMatrix.fromHDF5(file)
        fisher_matrices[F.name] = F
    main_outdir = ws.run_dir / outdir_name
    main_outdir.mkdir(exist_ok=True, parents=True)
    post_fishers_names = fu.load_a_posteriori_fisher_comb_names()
    for cosmology in ['w0_wa_CDM', 'LCDM']:
        create_results_for_cosmology(fisher_matrices, cosmology, params, post_fishers_names, main_outdir, marg_nuis_before=True, overwrite=overwrite, metadata=metadata)
        create_results_for_cosmology(fisher_matrices, cosmology, params, post_fishers_names, main_outdir, marg_nuis_before=False, overwrite=overwrite, metadata=metadata)
        create_results_for_cosmology(fisher_matrices, cosmology, params, post_fishers_names, main_outdir, fix_nuisance=True, overwrite=overwrite, metadata=metadata)


@of("seyfert.fisher.final_results_core.create_results_for_cosmology")
def r_create_results_for_cosmology(fisher_matrices, cosmology, params, post_fishers_names, main_outdir, marg_nuis_before=True, fix_nuisance=False, overwrite=False, metadata=None):
    Fs = copy.deepcopy(fisher_matrices)
    free_params_names = get_free_cosmo_pars_for_cosmology(cosmology)
    free_cosmo_pars = {name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items() if name in free_params_names}
    fixed_cosmo_pars = {name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items() if name not in free_params_names}
    for fisher_name in Fs:
        Fs[fisher_name].fixParameters(set(fixed_cosmo_pars))
    if fix_nuisance:
        for fisher_name in Fs:
            Fs[fisher_name].fixParameters(Fs[fisher_name].nuisance_parameters)
    elif marg_nuis_before:
        for fisher_name in Fs:
            Fs[fisher_name].marginalizeNuisance(ret_copy=False)
    evaluate_a_posteriori_fisher_combinations(Fs, post_fishers_names=post_fishers_names)
    an = FisherAnalysis(cosmo_pars_fiducial=free_cosmo_pars, fisher_matrices=Fs)
    an.evaluateMarginalizedErrors()
    an.evaluateRelativeMarginalizedErrors()
    if metadata is not None:
        an.metadata = metadata
    if fix_nuisance:
        dirname = 'nuis_fixed'
    else:
        dirname = 'marg_before' if marg_nuis_before else 'marg_after'
    outdir = main_outdir / cosmology / dirname
    outdir.mkdir(parents=True, exist_ok=True)
    an.saveFishersToDisk(outdir, overwrite=overwrite)
    an.writeAbsoluteAndRelativeMarginalizedErrors(outdir=outdir, overwrite=overwrite)
    return an


@of("seyfert.fisher.final_results_core.evaluate_a_posteriori_fisher_combinations", ret=False)
def r_evaluate_a_posteriori_fisher_combinations(Fs, post_fishers_names=None):
    if post_fishers_names is None:
        post_fishers_names = fu.load_a_posteriori_fisher_comb_names()
    for post_fish_name in post_fishers_names:
        result_fisher = _compute_a_posteriori_fisher_comb_from_name(post_fish_name, Fs)
        if result_fisher is not None:
            Fs[post_fish_name] = result_fisher
        else:
            pass


@of("seyfert.fisher.final_results_core._compute_a_posteriori_fisher_comb_from_name")
def r_compute_a_posteriori_fisher_comb_from_name(comb_name, Fs):
    op_list = re.split(' (\\+|-) ', comb_name)
    if not op_list:
        raise Exception()
    operators_idxs = [idx for idx, el in enumerate(op_list) if el in {'+', '-'}]
    for operand in op_list:
        if operand not in {'+', '-'} and operand not in Fs:
            return None
    result = Fs[op_list[0]]
    for idx in operators_idxs:
        operator = {'+': lambda x, y: x + y, '-': lambda x, y: x - y}[op_list[idx]]
        first_operand = result
        second_operand = Fs[op_list[idx + 1]]
        result = operator(first_operand, second_operand)
    return result

