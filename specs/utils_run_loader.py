"""Reference definitions for seyfert.utils.run_loader."""
from pathlib import Path
from seyfert.config.forecast_config import ForecastConfig
from seyfert.cosmology import c_ells
from seyfert.cosmology.power_spectrum import PowerSpectrum
from seyfert.file_io import retro_comp
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.fisher_results import FisherResultsCollector
from seyfert.numeric.general import pad
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.formatters import datetime_str_format
from seyfert.utils.run_loader import ComparisonMetrics
from seyfert.utils.run_loader import RunLoader
from seyfert.utils.workspace import WorkSpace
import datetime
import json
import logging
import numpy as np
import pickle
import re

logger = logging.getLogger(__name__)


@shape("seyfert.utils.run_loader.RunLoader")
class s_RunLoader:
    pmms: 'Dict[str, PowerSpectrum]'
    cosmos: 'Dict[str, Cosmology]'
    fishers: 'Dict[str, FisherMatrix]'
    metadata: 'Dict[str, str]'
    results: 'FisherResultsCollector'
    workspace: 'WorkSpace'
    main_configs: 'Dict[str, MainConfig]'


@shape("seyfert.utils.run_loader.RunComparison")
class s_RunComparison:
    rl1: 'RunLoader'
    rl2: 'RunLoader'
    metrics: 'ComparisonMetrics'
    _metric_func: 'Callable'


@shape("seyfert.utils.run_loader.ComparisonMetrics")
class s_ComparisonMetrics:
    _metric: 'Callable'


@of("seyfert.utils.run_loader.RunLoader.__init__", ret=False)
def r_RunLoader_init(self, run_dir):
    self.metadata = None
    self.fc = None
    self.main_configs = None
    self.version = None
    self.phys_pars = None
    self.workspace = WorkSpace(run_dir=run_dir)
    self.pmms = {}
    self.cosmos = {}
    self.cls = {}
    self.dcls = {}
    self.fishers = {}
    self.results = None
    self.z_grid = None
    self.cosmo_keys = None


@of("seyfert.utils.run_loader.RunLoader.run_dir", kind='property')
def r_RunLoader_run_dir(self):
    return self.workspace.run_dir


@of("seyfert.utils.run_loader.RunLoader.marg_errs", kind='property')
def r_RunLoader_marg_errs(self):
    return self.results.marg_errs


@of("seyfert.utils.run_loader.RunLoader.loadRunData", ret=False)
def r_RunLoader_loadRunData(self):
    self.loadMetadata()
    self.loadPowerSpectra()
    self.loadCosmologiesAndCls()
    self.loadClDerivatives()
    self.loadFishers()
    self.loadResults()


@of("seyfert.utils.run_loader.RunLoader.loadMetadata", ret=False)
def r_RunLoader_loadMetadata(self):
    try:
        with open(self.run_dir / 'run_metadata.json', mode='r') as jsf:
            self.metadata = json.load(jsf)
    except FileNotFoundError:
        pass
    vregex = re.compile('([0-9]\\.[0-9]\\.[0-9][a-z]?)(dev)?')
    self.version = vregex.search(self.run_dir.name).groups()[0]


@of("seyfert.utils.run_loader.RunLoader.loadConfigs", ret=False)
def r_RunLoader_loadConfigs(self):
    self.fc = ForecastConfig(input_file=self.workspace.getForecastConfigFilePath(), input_data_dir=self.workspace.getInputDataDirPath())
    self.fc.loadPhysicalParametersFromJSONConfig()
    self.phys_pars = self.fc.phys_pars
    self.main_configs = self.workspace.getTasksJSONConfigs()


@of("seyfert.utils.run_loader.RunLoader.loadPowerSpectra", ret=False)
def r_RunLoader_loadPowerSpectra(self):
    pmm_dir = self.workspace.pmm_dir
    self.pmms = {}
    if pmm_dir.exists():
        for jobdir in [d for d in pmm_dir.iterdir() if d.is_dir()]:
            dvar, step = fsu.get_dvar_step_from_cosmology_jobdir_name(jobdir.name)
            job_key = f'{dvar}_{step}'
            self.pmms[job_key] = PowerSpectrum.fromHDF5(jobdir / 'p_mm.h5')
    else:
        pass


@of("seyfert.utils.run_loader.RunLoader.loadCosmologiesAndCls", ret=False)
def r_RunLoader_loadCosmologiesAndCls(self, params=None):
    cl_dir = self.run_dir / 'Angular'
    all_pars = self.workspace.collectClVariationParams()
    pars_to_collect = all_pars
    if params is not None:
        pars_to_collect = set(params)
        if not pars_to_collect.issubset(all_pars):
            intruders = pars_to_collect - all_pars
            raise Exception()
    jb_keys = []
    for jobdir in [d for d in cl_dir.iterdir() if d.is_dir()]:
        dvar, step = fsu.get_dvar_step_from_cosmology_jobdir_name(jobdir.name)
        if dvar in pars_to_collect:
            job_key = f'{dvar}_{step}'
            jb_keys.append(job_key)
            cosmo_file = jobdir / 'cosmology.h5'
            if cosmo_file.exists():
                self.cosmos[job_key] = retro_comp.read_cosmo_file(cosmo_file, version=self.version, load_power_spectrum=False)
            cl_file = fsu.get_file_from_dir_with_pattern(jobdir, 'cl*.h5')
            coll = retro_comp.read_cls_file(cl_file, version=self.version)
            if self.z_grid is None:
                self.z_grid = coll.z_grid
            self.cls[job_key] = coll
        else:
            pass
    self.cosmo_keys = np.array(jb_keys)
    if len(self.cosmos) == 0:
        pass


@of("seyfert.utils.run_loader.RunLoader.loadClDerivatives", ret=False)
def r_RunLoader_loadClDerivatives(self):
    der_dir = self.run_dir / 'Derivative'
    for jobdir in [d for d in der_dir.iterdir() if d.is_dir()]:
        dvar = fsu.get_dvar_from_derivative_jobdir_name(jobdir.name)
        file = fsu.get_file_from_dir_with_pattern(jobdir, 'cl*.h5')
        dcl_data = retro_comp.read_dcl_file(file)
        self.dcls[dvar] = {}
        for cl_key in dcl_data:
            short_key = c_ells.cl_key_long_to_short(cl_key)
            self.dcls[dvar][short_key] = dcl_data[cl_key]


@of("seyfert.utils.run_loader.RunLoader.loadFishers", ret=False)
def r_RunLoader_loadFishers(self):
    fishers_dir = self.run_dir / 'fisher_matrices'
    for file in fishers_dir.glob('*.hdf5'):
        f_mat = FisherMatrix()
        f_mat.loadFromFile(file)
        f_mat.selectRelevantFisherSubMatrix()
        if f_mat.inverse is None:
            f_mat.evaluateInverse()
        self.fishers[f_mat.name] = f_mat


@of("seyfert.utils.run_loader.RunLoader.loadResults", ret=False)
def r_RunLoader_loadResults(self):
    results_dir = self.run_dir / 'results'
    if results_dir.exists():
        results_config = fsu.config_files_dir() / 'results_config.json'
        self.results = FisherResultsCollector(phys_pars=self.phys_pars, analysis_name='test_comparison', results_config_file=results_config)
        self.results.loadFromResultsDir(results_dir)
    else:
        pass


@of("seyfert.utils.run_loader.RunLoader.pickle_dump", ret=False)
def r_RunLoader_pickle_dump(self, file):
    with open(file, mode='wb') as f_handle:
        pickle.dump(self, f_handle)


@of("seyfert.utils.run_loader.RunLoader.pickle_load", kind='static')
def r_RunLoader_pickle_load(file):
    with open(file, mode='rb') as f_handle:
        obj = pickle.load(f_handle)
    return obj


@of("seyfert.utils.run_loader.RunComparison.__init__", ret=False)
def r_RunComparison_init(self, rundir1=None, rundir2=None, metric_func=pad):
    self.rl1 = None
    self.rl2 = None
    self.metadata = None
    self._metric_func = metric_func
    self.metrics = None
    if rundir1 is not None and rundir2 is not None:
        self.rl1 = RunLoader(rundir1)
        self.rl2 = RunLoader(rundir2)


@of("seyfert.utils.run_loader.RunComparison.loadRunData", ret=False)
def r_RunComparison_loadRunData(self):
    self.rl1.loadRunData()
    self.rl2.loadRunData()
    self.metadata = {'run1': self.rl1.metadata, 'run2': self.rl2.metadata}


@of("seyfert.utils.run_loader.RunComparison.evaluateMetricsAndTest", ret=False)
def r_RunComparison_evaluateMetricsAndTest(self):
    self.metrics = ComparisonMetrics(self.rl1, self.rl2, metric_func=self._metric_func)
    self.metrics.evaluate()
    self.metrics.testAllMetrics()


@of("seyfert.utils.run_loader.RunComparison.saveComparisonData", ret=False)
def r_RunComparison_saveComparisonData(self, outdir, save_run_pickle=False):
    now = datetime_str_format(datetime.datetime.now())
    main_outdir = Path(outdir) / f'comp_{self.rl1.version}_vs_{self.rl2.version}_{now}'
    main_outdir.mkdir(exist_ok=True, parents=True)
    with open(main_outdir / 'metadata.json', mode='w') as jsf:
        json.dump([self.rl1.metadata, self.rl2.metadata], jsf, indent=2)
    if save_run_pickle:
        self.rl1.pickle_dump(main_outdir / 'run1.pickle')
        self.rl2.pickle_dump(main_outdir / 'run2.pickle')
    self.metrics.writeOnDisk(main_outdir)


@of("seyfert.utils.run_loader.RunComparison.loadComparisonData", ret=False)
def r_RunComparison_loadComparisonData(self, inputdir):
    inputdir = Path(inputdir)
    with open(inputdir / 'metadata.json', mode='r') as jsf:
        self.metadata = json.load(jsf)
    self.metrics = ComparisonMetrics()
    self.metrics.loadFromDisk(inputdir)


@of("seyfert.utils.run_loader.ComparisonMetrics.__init__", ret=False)
def r_ComparisonMetrics_init(self, rl1=None, rl2=None, metric_func=None):
    self.rl1 = rl1
    self.rl2 = rl2
    self._metric = metric_func
    self.workdir = None
    self.metrics = {'pmms': {}, 'cosmos': {}, 'cls': {}, 'dcls': {}, 'fisher': {}, 'inverse_fisher': {}, 'marg_errs': {}}


@of("seyfert.utils.run_loader.ComparisonMetrics.pmms", kind='property')
def r_ComparisonMetrics_pmms(self):
    return self.metrics['pmms']


@of("seyfert.utils.run_loader.ComparisonMetrics.cosmos", kind='property')
def r_ComparisonMetrics_cosmos(self):
    return self.metrics['cosmos']


@of("seyfert.utils.run_loader.ComparisonMetrics.cls", kind='property')
def r_ComparisonMetrics_cls(self):
    return self.metrics['cls']


@of("seyfert.utils.run_loader.ComparisonMetrics.dcls", kind='property')
def r_ComparisonMetrics_dcls(self):
    return self.metrics['dcls']


@of("seyfert.utils.run_loader.ComparisonMetrics.fisher", kind='property')
def r_ComparisonMetrics_fisher(self):
    return self.metrics['fisher']


@of("seyfert.utils.run_loader.ComparisonMetrics.inverse_fisher", kind='property')
def r_ComparisonMetrics_inverse_fisher(self):
    return self.metrics['inverse_fisher']


@of("seyfert.utils.run_loader.ComparisonMetrics.marg_errs", kind='property')
def r_ComparisonMetrics_marg_errs(self):
    return self.metrics['marg_errs']


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluate", ret=False)
def r_ComparisonMetrics_evaluate(self, eval_pmm_metric=False):
    if eval_pmm_metric:
        self.evaluatePmmMetrics()
    self.evaluateCosmoMetrics()
    self.evaluateClDataMetrics()
    self.evaluateClDerivativesMetrics()
    self.evaluateFisherMetrics()
    self.evaluateMargErrsMetrics()


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluatePmmMetrics", ret=False)
def r_ComparisonMetrics_evaluatePmmMetrics(self):
    pads_keys = self.getComparisonKeys(self.rl1.pmms, self.rl2.pmms)
    for jobkey in pads_keys:
        self.pmms[jobkey] = {'lin': self._metric(self.rl1.pmms[jobkey].lin_p_mm_z_k, self.rl2.pmms[jobkey].lin_p_mm_z_k), 'nonlin': self._metric(self.rl1.pmms[jobkey].nonlin_p_mm_z_k, self.rl2.pmms[jobkey].nonlin_p_mm_z_k)}


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluateCosmoMetrics", ret=False)
def r_ComparisonMetrics_evaluateCosmoMetrics(self):
    pads_keys = self.getComparisonKeys(self.rl1.cosmos, self.rl2.cosmos)
    for jobkey in pads_keys:
        self.cosmos[jobkey] = {'E_z': self._metric(self.rl1.cosmos[jobkey].E_z, self.rl2.cosmos[jobkey].E_z), 'r_tilde_z': self._metric(self.rl1.cosmos[jobkey].r_tilde_z, self.rl2.cosmos[jobkey].r_tilde_z)}


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluateClDataMetrics", ret=False)
def r_ComparisonMetrics_evaluateClDataMetrics(self):
    pads_keys = self.getComparisonKeys(self.rl1.cls, self.rl2.cls)
    for jobkey in pads_keys:
        cl_coll1 = self.rl1.cls[jobkey]
        cl_coll2 = self.rl2.cls[jobkey]
        self.cls[jobkey] = self.buildClDataMetrics(cl_coll1, cl_coll2)


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluateClDerivativesMetrics", ret=False)
def r_ComparisonMetrics_evaluateClDerivativesMetrics(self):
    pads_keys = self.getComparisonKeys(self.rl1.dcls, self.rl2.dcls)
    for dvar in pads_keys:
        dcls1 = self.rl1.dcls[dvar]
        dcls2 = self.rl2.dcls[dvar]
        cl_kind_pad_keys = set(dcls1.keys()).intersection(set(dcls2.keys()))
        self.dcls[dvar] = {cl_key: self._metric(dcls1[cl_key], dcls2[cl_key]) for cl_key in cl_kind_pad_keys}


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluateFisherMetrics", ret=False)
def r_ComparisonMetrics_evaluateFisherMetrics(self):
    pads_keys = self.getComparisonKeys(self.rl1.fishers, self.rl2.fishers)
    for key in pads_keys:
        self.fisher[key] = self._metric(self.rl1.fishers[key].matrix, self.rl2.fishers[key].matrix)
        self.inverse_fisher[key] = self._metric(self.rl1.fishers[key].inverse, self.rl2.fishers[key].inverse)


@of("seyfert.utils.run_loader.ComparisonMetrics.evaluateMargErrsMetrics", ret=False)
def r_ComparisonMetrics_evaluateMargErrsMetrics(self):
    pads_keys = self.getComparisonKeys(self.rl1.marg_errs, self.rl2.marg_errs)
    for key in pads_keys:
        self.marg_errs[key] = self._metric(self.rl1.marg_errs[key], self.rl2.marg_errs[key])


@of("seyfert.utils.run_loader.ComparisonMetrics.testAllMetrics", ret=False)
def r_ComparisonMetrics_testAllMetrics(self):
    self.checkPadsDict('marg_errs', self.marg_errs, threshold=1e-06)
    self.checkPadsDict('fisher', self.fisher, threshold=1e-05)
    self.checkPadsDict('inverse_fisher', self.inverse_fisher, threshold=1e-05)


@of("seyfert.utils.run_loader.ComparisonMetrics.buildClDataMetrics")
def r_ComparisonMetrics_buildClDataMetrics(self, coll1, coll2):
    data_metrics = {}
    cl_kind_keys = self.getComparisonKeys(coll1.short_keys, coll2.short_keys)
    for key in cl_kind_keys:
        cl_A = coll1[key]
        cl_B = coll2[key]
        data_metrics[key] = {'c_lij': self._metric(cl_A.c_lij, cl_B.c_lij), 'n1_iz': self._metric(cl_A.weight1.density.norm_density_iz, cl_B.weight1.density.norm_density_iz), 'n2_iz': self._metric(cl_A.weight2.density.norm_density_iz, cl_B.weight2.density.norm_density_iz), 'w1_iz': self._metric(cl_A.weight1.w_bin_z, cl_B.weight1.w_bin_z), 'w2_iz': self._metric(cl_A.weight2.w_bin_z, cl_B.weight2.w_bin_z), 'k_ijz': self._metric(cl_A.kernel.k_ijz, cl_B.kernel.k_ijz)}
    return data_metrics


@of("seyfert.utils.run_loader.ComparisonMetrics.loadFromDisk", ret=False)
def r_ComparisonMetrics_loadFromDisk(self, inputdir):
    infile_pickle = Path(inputdir) / 'full_metrics.pickle'
    with open(infile_pickle, mode='rb') as f:
        self.metrics = pickle.load(f)


@of("seyfert.utils.run_loader.ComparisonMetrics.writeOnDisk", ret=False)
def r_ComparisonMetrics_writeOnDisk(self, outdir):
    outfile_pickle = Path(outdir) / 'full_metrics.pickle'
    with open(outfile_pickle, mode='wb') as f:
        pickle.dump(self.metrics, f)


@of("seyfert.utils.run_loader.ComparisonMetrics.checkPadsDict", ret=False, kind='static')
def r_ComparisonMetrics_checkPadsDict(name, pads_dict, threshold):
    conditions = {key: np.all(pads < threshold) for key, pads in pads_dict.items()}
    for key, cond in conditions.items():
        if not cond:
            pass
        else:
            pass


@of("seyfert.utils.run_loader.ComparisonMetrics.getComparisonKeys", kind='static')
def r_ComparisonMetrics_getComparisonKeys(data1, data2):
    keys1 = set(data1)
    keys2 = set(data2)
    if keys1 == keys2:
        keys = keys1
    else:
        xor1 = keys1 - keys2
        xor2 = keys2 - keys1
        keys = keys1.intersection(keys2)
    return keys

