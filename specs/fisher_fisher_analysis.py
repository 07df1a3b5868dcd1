"""Reference definitions for seyfert.fisher.fisher_analysis."""
from pathlib import Path
from scipy import special
from seyfert.fisher.fisher_analysis import FisherAnalysisError
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.utils import general_utils as gu
from seyfert.utils import table_utils as tu
from seyfert.utils import tex_utils as txu
from seyfert.utils.workspace import WorkSpace
import copy
import logging
import math
import numpy as np
import pandas as pd

logger = logging.getLogger(__name__)


@shape("seyfert.fisher.fisher_analysis.FisherAnalysisError")
class s_FisherAnalysisError(Exception):
    pass


@shape("seyfert.fisher.fisher_analysis.FisherAnalysis")
class s_FisherAnalysis:
    fisher_names: 'List[str]'
    base_fishers: 'Dict[str, FisherMatrix]'
    fisher_matrices: 'Dict[str, FisherMatrix]'
    cosmo_pars_fiducials: 'Dict[str, float]'
    cosmo_pars_names: 'List[str]'
    n_sigma_range: 'int'
    marginalized_errors: 'pd.DataFrame'
    metadata: 'Dict'


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.__init__", ret=False)
def r_FisherAnalysis_init(self, analysis_name=None, cosmology_name=None, fishers_order=None, fisher_matrices=None, cosmo_pars_fiducial=None, marginalize_nuisance=True):
    self.name = analysis_name if analysis_name is not None else 'test_analysis'
    self.cosmology_name = cosmology_name
    self.base_fishers = None
    self.fisher_matrices = {}
    self.phys_pars = None
    self.cosmo_pars_fiducials = cosmo_pars_fiducial
    self.n_sigma_range = 3
    self.marginalized_errors = None
    self.relative_marginalized_errors = None
    self.translator = txu.TeXTranslator()
    self.marginalize_nuisance = marginalize_nuisance
    self._fishers_order = None
    self.metadata = {}
    if not isinstance(self.name, str):
        raise TypeError()
    if isinstance(fisher_matrices, list):
        if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
            raise TypeError()
        self.fisher_matrices = {f.name: f for f in fisher_matrices}
    elif isinstance(fisher_matrices, dict):
        if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
            raise TypeError()
        self.fisher_matrices.update(fisher_matrices)
    if self.fisher_matrices:
        for key in self.fisher_matrices:
            self.fisher_matrices[key].marginalize_nuisance = self.marginalize_nuisance
        self.sliceFishers()
    if fishers_order is not None:
        self.fishers_order = fishers_order


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.fromFishersDir", kind='class')
def r_FisherAnalysis_fromFishersDir(cls, fishers_dir, params):
    an = cls(cosmo_pars_fiducial=params.free_cosmo_pars_fiducials)
    an.loadBaseFishersFromDir(fishers_dir=fishers_dir)
    an.useBaseFishers()
    an.phys_pars = params
    return an


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.fromRundir", kind='class')
def r_FisherAnalysis_fromRundir(cls, rundir, use_base_fishers=True, cosmology='w0_wa_CDM', res_subdir_name='marg_before'):
    ws = WorkSpace(rundir)
    fishers_dir = ws.getResultsDir(cosmology=cosmology, res_subdir_name=res_subdir_name)
    params = ws.getParamsCollection()
    if cosmology == 'LCDM':
        del params['w0']
        del params['wa']
    an = cls.fromFishersDir(fishers_dir=fishers_dir, params=params)
    fcfg = ws.getForecastConfiguration()
    an.metadata.update(fcfg.synthetic_opts)
    an.name = fcfg.getConfigID()
    if use_base_fishers:
        an.useBaseFishers()
    return an


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.correlation_matrices", kind='property')
def r_FisherAnalysis_correlation_matrices(self):
    return {name: self.fisher_matrices[name].correlation for name in self.fisher_matrices}


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.cosmo_pars_names", kind='property')
def r_FisherAnalysis_cosmo_pars_names(self):
    return list(self.cosmo_pars_fiducials.keys())


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.cosmo_pars_set", kind='property')
def r_FisherAnalysis_cosmo_pars_set(self):
    return set(self.cosmo_pars_fiducials)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.fishers_order", kind='property')
def r_FisherAnalysis_fishers_order(self):
    if self._fishers_order is not None:
        return self._fishers_order
    else:
        return list(self.fisher_matrices)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.fishers_order@setter", ret=False, kind='setter')
def r_FisherAnalysis_fishers_order_set(self, order):
    if isinstance(order, list):
        if set(order) != set(self.fisher_matrices):
            raise Exception()
        self._fishers_order = order
    else:
        raise TypeError()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.__getitem__")
def r_FisherAnalysis_getitem(self, item):
    return self.fisher_matrices[item]


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.__repr__")
def r_FisherAnalysis_repr(self):
    return f'analysis {self.name}, {len(self.fisher_matrices)} fishers'


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.__iter__")
def r_FisherAnalysis_iter(self):
    return iter(self.fisher_matrices)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.toDataFrameRow")
def r_FisherAnalysis_toDataFrameRow(self):
    entries = {}
    entries.update(self.metadata)
    entries['analysis'] = self
    return pd.Series(entries)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.prepareFisherMatrices", ret=False)
def r_FisherAnalysis_prepareFisherMatrices(self):
    for name in self.fisher_matrices:
        self.fisher_matrices[name].selectRelevantFisherSubMatrix()
        self.fisher_matrices[name].evaluateInverse()
        self.fisher_matrices[name].evaluateCorrelationMatrix()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.loadFromRundir", ret=False)
def r_FisherAnalysis_loadFromRundir(self, rundir, use_base_fishers=True, **kwargs):
    ws = WorkSpace(rundir)
    fishers_dir = ws.getResultsDir(**kwargs)
    self.loadBaseFishersFromDir(fishers_dir=fishers_dir)
    self.metadata = ws.getRunMetadata()
    self.name = self.metadata['run_id']
    self.phys_pars = ws.getParamsCollection()
    if use_base_fishers:
        self.useBaseFishers()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.loadBaseFishersFromDir", ret=False)
def r_FisherAnalysis_loadBaseFishersFromDir(self, fishers_dir):
    self.base_fishers = {}
    fishers_dir = Path(fishers_dir)
    if not fishers_dir.exists():
        raise FileNotFoundError()
    for fisher_file in fishers_dir.glob(f'fisher*.hdf5'):
        f_mat = FisherMatrix(marginalize_nuisance=self.marginalize_nuisance)
        f_mat.loadFromFile(fisher_file, file_ext='hdf5')
        if self.cosmo_pars_fiducials is not None:
            f_mat._cosmological_parameters = self.cosmo_pars_set
        f_mat.selectRelevantFisherSubMatrix()
        self.base_fishers[f_mat.name] = f_mat
    if len(self.base_fishers) == 0:
        pass


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.sliceBaseFishers", ret=False)
def r_FisherAnalysis_sliceBaseFishers(self):
    for key in self.base_fishers:
        self.base_fishers[key].selectRelevantFisherSubMatrix()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.sliceFishers", ret=False)
def r_FisherAnalysis_sliceFishers(self):
    for key in self.fisher_matrices:
        self.fisher_matrices[key].selectRelevantFisherSubMatrix()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.invertFishers", ret=False)
def r_FisherAnalysis_invertFishers(self):
    for key in self.fisher_matrices:
        self.fisher_matrices[key].evaluateInverse()
        self.fisher_matrices[key].evaluateCorrelationMatrix()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.marginalizeFishers", ret=False)
def r_FisherAnalysis_marginalizeFishers(self, params):
    for key in self.fisher_matrices:
        if params == 'all_nuisance':
            to_marg_pars = self.fisher_matrices[key].nuisance_parameters
        else:
            to_marg_pars = params
        missing_pars = to_marg_pars - self.fisher_matrices[key].physical_parameters
        to_marg_pars = to_marg_pars.intersection(self.fisher_matrices[key].physical_parameters)
        if missing_pars:
            pass
        self.fisher_matrices[key].marginalizeParameters(params=to_marg_pars, ret_copy=False)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.useBaseFishers", ret=False)
def r_FisherAnalysis_useBaseFishers(self):
    if self.base_fishers is None:
        raise ValueError()
    self.fisher_matrices = {}
    self.fisher_matrices.update(self.base_fishers)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.evaluateFishersFromAddendsList", ret=False)
def r_FisherAnalysis_evaluateFishersFromAddendsList(self, fisher_addends_list):
    self.fisher_matrices = {}
    for addend_list in fisher_addends_list:
        if len(addend_list) == 1:
            name = addend_list[0]
            if name in self.base_fishers:
                self.fisher_matrices[name] = self.base_fishers[name]
            else:
                raise FisherAnalysisError()
        else:
            fisher_sum_name = '+'.join(addend_list)
            if not all([addend in self.base_fishers for addend in addend_list]):
                raise FisherAnalysisError()
            self.fisher_matrices[fisher_sum_name] = self.base_fishers[addend_list[0]].copy()
            for addend in addend_list[1:]:
                self.fisher_matrices[fisher_sum_name] += self.base_fishers[addend]


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.saveFishersToDisk", ret=False)
def r_FisherAnalysis_saveFishersToDisk(self, outdir, overwrite=False):
    outdir = Path(outdir)
    for key in self.fisher_matrices:
        self.fisher_matrices[key].writeToFile(outdir=outdir, overwrite=overwrite)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.getSubsetAnalysis")
def r_FisherAnalysis_getSubsetAnalysis(self, fisher_names, recompute_errs=False):
    an = copy.deepcopy(self)
    an.base_fishers = gu.subset_dict(self.base_fishers, fisher_names)
    an.fisher_matrices = gu.subset_dict(self.fisher_matrices, fisher_names)
    an.fishers_order = fisher_names
    if recompute_errs:
        an.evaluateMarginalizedErrors()
        an.evaluateRelativeMarginalizedErrors()
    else:
        an.marginalized_errors = self.marginalized_errors.loc[fisher_names]
        an.relative_marginalized_errors = self.relative_marginalized_errors.loc[fisher_names]
    return an


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.getParFiducialValue")
def r_FisherAnalysis_getParFiducialValue(self, name):
    return self.cosmo_pars_fiducials[name]


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.evaluateMarginalizedErrors", ret=False)
def r_FisherAnalysis_evaluateMarginalizedErrors(self):
    self.marginalized_errors = pd.concat({key: F.getMarginalizedErrors() for key, F in self.fisher_matrices.items()}, names=['fisher']).unstack()
    self.evaluateRelativeMarginalizedErrors()


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.evaluateRelativeMarginalizedErrors", ret=False)
def r_FisherAnalysis_evaluateRelativeMarginalizedErrors(self):
    rel_marg_errs_den = {}
    for par, val in self.cosmo_pars_fiducials.items():
        rel_marg_errs_den[par] = val if val != 0 else 1
    rel_marg_errs_den = pd.Series(rel_marg_errs_den)
    if 'FoM' in self.marginalized_errors.columns:
        rel_marg_errs_den.loc['FoM'] = 1
    self.relative_marginalized_errors = np.abs(self.marginalized_errors / rel_marg_errs_den)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.computeParameterRangeForObsAtCL")
def r_FisherAnalysis_computeParameterRangeForObsAtCL(self, name, obs, CL):
    mean = self.getParFiducialValue(name)
    sigma = self.marginalized_errors.loc[obs, name]
    range_min = mean - np.sqrt(2) * special.erfinv(CL) * sigma
    range_max = mean + np.sqrt(2) * special.erfinv(CL) * sigma
    return (range_min, range_max)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.computeGaussianInfoDictForObsAndCL")
def r_FisherAnalysis_computeGaussianInfoDictForObsAndCL(self, name, obs, CL, x_min, x_max):
    mean = self.getParFiducialValue(name)
    sigma = self.marginalized_errors.loc[obs, name]
    x = np.linspace(x_min, x_max, num=300)
    y = np.exp(-(x - mean) ** 2 / (2 * sigma ** 2))
    x_cl_min, x_cl_max = self.computeParameterRangeForObsAtCL(name, obs, CL)
    cl_mask = (x >= x_cl_min) & (x <= x_cl_max)
    gaus_dict = {'mean': mean, 'sigma': sigma, 'cl_mask': cl_mask, 'x': x, 'y': y}
    return gaus_dict


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.computeEllipseInfoDictForObsAndCL")
def r_FisherAnalysis_computeEllipseInfoDictForObsAndCL(self, name_x, name_y, obs, CL):
    mean_x = self.getParFiducialValue(name_x)
    mean_y = self.getParFiducialValue(name_y)
    C_xx = self.fisher_matrices[obs].inverse.loc[name_x, name_x]
    C_yy = self.fisher_matrices[obs].inverse.loc[name_y, name_y]
    C_xy = self.fisher_matrices[obs].inverse.loc[name_x, name_y]
    cl_factor = np.sqrt(2) * special.erfinv(CL)
    a = cl_factor * np.sqrt((C_xx + C_yy) / 2 + np.sqrt((C_xx - C_yy) ** 2 / 4 + C_xy ** 2))
    b = cl_factor * np.sqrt((C_xx + C_yy) / 2 - np.sqrt((C_xx - C_yy) ** 2 / 4 + C_xy ** 2))
    angle = np.rad2deg(math.atan2(2 * C_xy, C_xx - C_yy) / 2)
    ellipse_dict = {'xy': (mean_x, mean_y), 'width': 2 * a, 'height': 2 * b, 'angle': angle}
    return ellipse_dict


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.writeAbsoluteAndRelativeMarginalizedErrors", ret=False)
def r_FisherAnalysis_writeAbsoluteAndRelativeMarginalizedErrors(self, outdir, overwrite=False):
    self.writeMarginalizedErrorsToFile(outdir=outdir, overwrite=overwrite)
    self.writeRelativeMarginalizedErrorsToFiles(outdir=outdir, overwrite=overwrite)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.writeMarginalizedErrorsToFile", ret=False)
def r_FisherAnalysis_writeMarginalizedErrorsToFile(self, outdir, overwrite=False):
    outdir = Path(outdir)
    file_stem = f'marginalized_errors_{self.name}'
    tu.write_dataframe_table(self.marginalized_errors, outfile=outdir / f'{file_stem}.xlsx', overwrite=overwrite)
    tu.write_dataframe_table(self.marginalized_errors, outfile=outdir / f'{file_stem}.csv', overwrite=overwrite)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.writeRelativeMarginalizedErrorsToFiles", ret=False)
def r_FisherAnalysis_writeRelativeMarginalizedErrorsToFiles(self, outdir, overwrite=False):
    outdir = Path(outdir)
    file_stem = f'relative_marginalized_errors_{self.name}'
    tu.write_dataframe_table(self.relative_marginalized_errors, outfile=outdir / f'{file_stem}.xlsx', overwrite=overwrite)
    tu.write_dataframe_table(self.relative_marginalized_errors, outfile=outdir / f'{file_stem}.csv', overwrite=overwrite)


@of("seyfert.fisher.fisher_analysis.FisherAnalysis.writeCorrelationMatricesToFiles", ret=False)
def r_FisherAnalysis_writeCorrelationMatricesToFiles(self, outdir):
    for fisher_name in self.fisher_matrices:
        outfile = Path(outdir) / f'{self.name}_correlation_{fisher_name}.csv'
        self.fisher_matrices[fisher_name].correlation.to_csv(outfile, index=True)

