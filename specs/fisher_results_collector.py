"""Reference definitions for seyfert.fisher.results_collector."""
from seyfert.fisher.fisher_analysis import FisherAnalysis
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.dir_explorer import DirectoryExplorer
import logging
import pandas as pd

logger = logging.getLogger(__name__)


@shape("seyfert.fisher.results_collector.ResultsCollector")
class s_ResultsCollector:
    ws_list: 'List[WorkSpace]'
    fcfg_list: 'List[ForecastConfig]'
    explorer: 'DirectoryExplorer'
    analyses_df: 'pd.DataFrame'


@of("seyfert.fisher.results_collector.ResultsCollector.__init__", ret=False)
def r_ResultsCollector_init(self):
    self.ws_list = None
    self.explorer = None
    self.analyses_df = None
    self.fcfg_list = None


@of("seyfert.fisher.results_collector.ResultsCollector.root_path", kind='property')
def r_ResultsCollector_root_path(self):
    return self.explorer.root_path


@of("seyfert.fisher.results_collector.ResultsCollector.loadWorkSpaces", ret=False)
def r_ResultsCollector_loadWorkSpaces(self, root_path, **kwargs):
    self.explorer = DirectoryExplorer(root_path)
    self.ws_list = self.explorer.selectWorkspaces(**kwargs)
    self.fcfg_list = [ws.getForecastConfiguration() for ws in self.ws_list]


@of("seyfert.fisher.results_collector.ResultsCollector.buildRelativeMarginalizedErrorsTable")
def r_ResultsCollector_buildRelativeMarginalizedErrorsTable(self, **kwargs):
    table = self.buildErrorsTable(file_pattern='relative_marginalized_errors*.csv', **kwargs)
    return table


@of("seyfert.fisher.results_collector.ResultsCollector.buildMarginalizedErrorsTable")
def r_ResultsCollector_buildMarginalizedErrorsTable(self, **kwargs):
    table = self.buildErrorsTable(file_pattern='marginalized_errors*.csv', **kwargs)
    return table


@of("seyfert.fisher.results_collector.ResultsCollector.buildErrorsTable")
def r_ResultsCollector_buildErrorsTable(self, file_pattern, **kwargs):
    dfs = []
    for i, ws in enumerate(self.ws_list):
        results_dir = ws.getResultsDir(**kwargs)
        rel_errs_file = fsu.get_file_from_dir_with_pattern(results_dir, file_pattern)
        df = pd.read_csv(rel_errs_file, index_col=0)
        if df.index.name is None:
            df.index.name = 'fisher'
        fc = self.fcfg_list[i]
        for name, value in fc.synthetic_opts.items():
            df[name] = value
        dfs.append(df)
    big_df = pd.concat(dfs).reset_index()
    return big_df


@of("seyfert.fisher.results_collector.ResultsCollector.buildFisherAnalysesDataFrame")
def r_ResultsCollector_buildFisherAnalysesDataFrame(self, cosmology='w0_wa_CDM', res_subdir_name='marg_before'):
    rows = []
    for i, ws in enumerate(self.ws_list):
        an = FisherAnalysis.fromRundir(ws.run_dir, cosmology=cosmology, res_subdir_name=res_subdir_name)
        rows.append([*self.fcfg_list[i].synthetic_opts.values(), an])
    an_df = pd.DataFrame(rows, columns=[*self.fcfg_list[0].synthetic_opts.keys(), 'analysis'])
    return an_df


@of("seyfert.fisher.results_collector.ResultsCollector.collectAndDumpResults", ret=False)
def r_ResultsCollector_collectAndDumpResults(self, outdir, cosmology='w0_wa_CDM', res_subdir_name='marg_before'):
    out_subdir = outdir / cosmology / res_subdir_name
    out_subdir.mkdir(exist_ok=True, parents=True)
    marg_errs_df = self.buildMarginalizedErrorsTable(cosmology=cosmology, res_subdir_name=res_subdir_name)
    rel_marg_errs_df = self.buildRelativeMarginalizedErrorsTable(cosmology=cosmology, res_subdir_name=res_subdir_name)
    marg_errs_df.to_excel(out_subdir / 'marginalized_errors.xlsx', index=False)
    rel_marg_errs_df.to_excel(out_subdir / 'relative_marginalized_errors.xlsx', index=False)
    an_df = self.buildFisherAnalysesDataFrame(cosmology=cosmology, res_subdir_name=res_subdir_name)
    an_df.to_pickle(out_subdir / 'fisher_analyses.pickle')


@of("seyfert.fisher.results_collector.ResultsCollector.loadFisherAnalysesPickle", ret=False)
def r_ResultsCollector_loadFisherAnalysesPickle(self, file, eval_marg_errs=True):
    self.analyses_df = pd.read_pickle(file)
    if eval_marg_errs:
        for an in self.analyses_df['analysis'].values:
            if an.marginalized_errors is None:
                an.evaluateMarginalizedErrors()
            if an.relative_marginalized_errors is None:
                an.evaluateRelativeMarginalizedErrors()


@of("seyfert.fisher.results_collector.ResultsCollector.replaceHybridFishersWith4BinsEquivalents", ret=False)
def r_ResultsCollector_replaceHybridFishersWith4BinsEquivalents(self):
    indices = ['n_sp_bins', 'scenario', 'shot_noise_sp_reduced', 'gcph_minus_gcsp', 'gcph_only_bins_in_spectro_range']
    self.analyses_df.set_index(indices, inplace=True)
    for idx, row in self.analyses_df.iterrows():
        n_sp_bins, *other = idx
        if n_sp_bins != 4:
            an_4_bins = self.analyses_df.loc[tuple([4, *other])].analysis
            an_current = row.analysis
            for fisher_name in list(an_current.fisher_matrices):
                if 'Pk' in fisher_name:
                    an_current.fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]
                    an_current.marginalized_errors.loc[fisher_name] = an_4_bins.marginalized_errors.loc[fisher_name]
    self.analyses_df.reset_index(inplace=True)


@of("seyfert.fisher.results_collector.ResultsCollector.getFisherAnalysesSubDf")
def r_ResultsCollector_getFisherAnalysesSubDf(self, sel_dict, sel_fishers=None):
    query_str = ' and '.join((f'{key} == {value}' for key, value in sel_dict.items()))
    subdf = self.analyses_df.query(query_str).reset_index()
    if sel_fishers is not None:
        subdf['analysis'] = subdf['analysis'].apply(lambda an: an.getSubsetAnalysis(sel_fishers))
    return subdf


@of("seyfert.fisher.results_collector.ResultsCollector.getErrorsTableFromAnalysesDataFrame")
def r_ResultsCollector_getErrorsTableFromAnalysesDataFrame(self, relative):
    attr_name = 'relative_marginalized_errors' if relative else 'marginalized_errors'
    errs_dfs = []
    for row in self.analyses_df.itertuples(index=False):
        row_dict = row._asdict()
        an_errs_df = getattr(row.analysis, attr_name).reset_index()
        for key, value in row_dict.items():
            if key != 'analysis':
                an_errs_df[key] = value
        errs_dfs.append(an_errs_df)
    return pd.concat(errs_dfs)


@of("seyfert.fisher.results_collector.ResultsCollector.getMarginalizedErrorsTableFromAnalysesDataFrame")
def r_ResultsCollector_getMarginalizedErrorsTableFromAnalysesDataFrame(self):
    return self.getErrorsTableFromAnalysesDataFrame(relative=False)


@of("seyfert.fisher.results_collector.ResultsCollector.getRelativeMarginalizedErrorsTableFromAnalysesDataFrame")
def r_ResultsCollector_getRelativeMarginalizedErrorsTableFromAnalysesDataFrame(self):
    return self.getErrorsTableFromAnalysesDataFrame(relative=True)

