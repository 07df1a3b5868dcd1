"""Reference definitions for seyfert.notebook_helpers.load_helpers."""
from pathlib import Path
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.notebook_helpers.load_helpers import invert_fishers_and_compute_errors
from seyfert.notebook_helpers.load_helpers import load_workspaces_for_scenario
from seyfert.utils import workspace
import re



@of("seyfert.notebook_helpers.load_helpers.invert_fishers_and_compute_errors", ret=False)
def r_invert_fishers_and_compute_errors(analysis):
    analysis.prepareFisherMatrices()
    analysis.evaluateMarginalizedErrors()
    analysis.evaluateRelativeMarginalizedErrors()


@of("seyfert.notebook_helpers.load_helpers.invert_fishers_in_all_analyses", ret=False)
def r_invert_fishers_in_all_analyses(analyses):
    for nbins in analyses:
        invert_fishers_and_compute_errors(analyses[nbins])


@of("seyfert.notebook_helpers.load_helpers.replace_hybrid_fishers_with_4_bins_equivalents", ret=False)
def r_replace_hybrid_fishers_with_4_bins_equivalents(analyses, verbose=False):
    for nbins in analyses:
        an_4_bins = analyses[4]
        fisher_names = analyses[nbins].fisher_matrices.keys()
        for fisher_name in fisher_names:
            if 'GCsp(Pk)' in fisher_name:
                if verbose:
                    pass
                analyses[nbins].fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]


@of("seyfert.notebook_helpers.load_helpers.load_workspaces_for_scenario")
def r_load_workspaces_for_scenario(scenario, gcph_sub_flag=False, base_dir=None):
    generic_regex = re.compile('^(?P<scenario>optm|pess)_(?P<nbins>[0-9]+)_sp_bins_')
    gcph_sub_gcsp_regex = re.compile('gcph_minus_gcsp')
    if base_dir is None:
        base_dir = Path('/Users/lucapaganin/spectrophoto/production_runs/latest')
        base_dir = base_dir / {'optm': 'optimistic', 'pess': 'pessimistic'}[scenario]
    base_selection = lambda x: x.is_dir() and generic_regex.match(x.name)
    if not gcph_sub_flag:
        selection_func = lambda x: base_selection(x) and (not gcph_sub_gcsp_regex.search(x.name))
    else:
        selection_func = lambda x: base_selection(x) and gcph_sub_gcsp_regex.search(x.name)
    ws_dict = {}
    for direc in base_dir.iterdir():
        if selection_func(direc):
            match = generic_regex.match(direc.name)
            nbins = int(match.group('nbins'))
            ws_dict[nbins] = workspace.WorkSpace(direc)
    return ws_dict


@of("seyfert.notebook_helpers.load_helpers.load_fisher_analyses_for_scenario")
def r_load_fisher_analyses_for_scenario(scenario, gcph_sub_flag=False, base_dir=None, **kwargs):
    ws_dict = load_workspaces_for_scenario(scenario, gcph_sub_flag=gcph_sub_flag, base_dir=base_dir)
    analyses = {}
    for nbins, ws in ws_dict.items():
        analyses[nbins] = FisherAnalysis.fromRundir(rundir=ws.run_dir, **kwargs)
    return analyses

