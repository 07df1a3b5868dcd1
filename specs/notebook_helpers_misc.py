"""Reference definitions for seyfert.notebook_helpers.misc."""
from seyfert.notebook_helpers.misc import remove_spaces
from seyfert.utils.tex_utils import TeXTranslator
import re

transl = TeXTranslator()

constants("seyfert.notebook_helpers.misc", 'transl')


@of("seyfert.notebook_helpers.misc.remove_spaces")
def r_remove_spaces(string_list):
    return [re.sub('\\s', '', s) for s in string_list]


@of("seyfert.notebook_helpers.misc.get_subset_analyses_for_fishers")
def r_get_subset_analyses_for_fishers(analyses, fisher_names):
    filter_names = remove_spaces(fisher_names)
    ans = {nbins: all_fish_an.getSubsetAnalysis(filter_names) for nbins, all_fish_an in analyses.items()}
    for nbins in ans:
        ans[nbins].prepareFisherMatrices()
        ans[nbins].evaluateMarginalizedErrors()
    return ans

