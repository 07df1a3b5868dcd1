"""Reference definitions for seyfert.derivatives.cl_derivative."""
from seyfert.derivatives.cl_derivative import ClDerivative
from seyfert.derivatives.cl_derivative import ClDerivativeCollector
from seyfert.derivatives.differentiator import SteMClDifferentiator, AnalyticClDifferentiator
from seyfert.utils import general_utils as gu
import h5py
import logging
import seyfert.utils.filesystem_utils as fsu

logger = logging.getLogger(__name__)


@shape("seyfert.derivatives.cl_derivative.ClDerivative")
class s_ClDerivative:
    dvar: 'str'
    obs_key: 'str'
    forecast_config: 'ForecastConfig'
    dc_lij: 'np.ndarray'
    c_dvar_lij: 'np.ndarray'
    l_bin_centers: 'np.ndarray'


@shape("seyfert.derivatives.cl_derivative.ClDerivativeCollector")
class s_ClDerivativeCollector:
    dvar: 'str'
    dcl_dict: 'Dict[str, ClDerivative]'
    phys_pars: 'PhysicalParametersCollection'
    forecast_config: 'ForecastConfig'
    param: 'PhysicalParameter'


@of("seyfert.derivatives.cl_derivative.ClDerivative.__init__", ret=False)
def r_ClDerivative_init(self, p1=None, p2=None, param=None, workspace=None):
    self.probe1 = p1
    self.probe2 = p2
    self.param = param
    self.workspace = workspace
    self.l_bin_centers = None
    self.dc_lij = None
    self.c_dvar_lij = None
    self.differentiator = None


@of("seyfert.derivatives.cl_derivative.ClDerivative.method", kind='property')
def r_ClDerivative_method(self):
    return self.param.derivative_method


@of("seyfert.derivatives.cl_derivative.ClDerivative.is_cross_correlation", kind='property')
def r_ClDerivative_is_cross_correlation(self):
    return self.probe1 != self.probe2


@of("seyfert.derivatives.cl_derivative.ClDerivative.probe_key", kind='property')
def r_ClDerivative_probe_key(self):
    return gu.get_probes_combination_key(self.probe1, self.probe2)


@of("seyfert.derivatives.cl_derivative.ClDerivative.evaluate", ret=False)
def r_ClDerivative_evaluate(self):
    if self.method == 'SteM':
        self.differentiator = SteMClDifferentiator(probe1=self.probe1, probe2=self.probe2, param=self.param, workspace=self.workspace, vectorized=True)
    elif self.method == 'Analytic':
        self.differentiator = AnalyticClDifferentiator(probe1=self.probe1, probe2=self.probe2, param=self.param, workspace=self.workspace)
    else:
        raise NotImplementedError()
    self.differentiator.loadClData()
    self.l_bin_centers = self.differentiator.fiducial_cl.l_bin_centers
    self.dc_lij = self.differentiator.computeDerivative()


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.__init__", ret=False)
def r_ClDerivativeCollector_init(self, dvar=None, workspace=None):
    self.dvar = dvar
    self.workspace = workspace
    self.dcl_dict = {}
    self.forecast_config = None
    self.phys_pars = None
    self.param = None
    if self.workspace is not None:
        self.forecast_config = self.workspace.getForecastConfiguration()
        self.phys_pars = self.workspace.getParamsCollection()
    if self.phys_pars is not None and self.dvar is not None:
        self.param = self.phys_pars[self.dvar]


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.ell_dict", kind='property')
def r_ClDerivativeCollector_ell_dict(self):
    return {key: dcl.l_bin_centers for key, dcl in self.dcl_dict.items()}


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.dc_lij_array_dict", kind='property')
def r_ClDerivativeCollector_dc_lij_array_dict(self):
    return {key: dcl.dc_lij for key, dcl in self.dcl_dict.items()}


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.__getitem__")
def r_ClDerivativeCollector_getitem(self, item):
    return self.dcl_dict[item]


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.evaluateDerivatives", ret=False)
def r_ClDerivativeCollector_evaluateDerivatives(self):
    for key in self.dcl_dict:
        self.dcl_dict[key].evaluate()


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.setUp", ret=False)
def r_ClDerivativeCollector_setUp(self):
    for p1, p2 in self.forecast_config.probes_combinations:
        obs_key = gu.get_probes_combination_key(p1, p2)
        clder = ClDerivative(p1=p1, p2=p2, param=self.param, workspace=self.workspace)
        self.dcl_dict[obs_key] = clder


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.writeToFile", ret=False)
def r_ClDerivativeCollector_writeToFile(self, file):
    with h5py.File(file, 'w') as hf:
        for obs_key in self.dcl_dict:
            grp = hf.create_group(obs_key)
            grp.create_dataset('dc_lij', data=self.dcl_dict[obs_key].dc_lij, dtype='f8', compression='gzip', compression_opts=9)
            grp.create_dataset('l_bin_centers', data=self.dcl_dict[obs_key].l_bin_centers, dtype='f8', compression='gzip', compression_opts=9)


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.loadFromFile", ret=False)
def r_ClDerivativeCollector_loadFromFile(self, file):
    self.dcl_dict = {}
    with h5py.File(file, 'r') as hf:
        for obs_key in hf.keys():
            p1, p2 = gu.get_probes_from_comb_key(obs_key)
            dc_lij = hf[obs_key]['dc_lij'][()]
            ells = hf[obs_key]['l_bin_centers'][()]
            clder = ClDerivative(p1=p1, p2=p2)
            clder.l_bin_centers = ells
            clder.dc_lij = dc_lij
            self.dcl_dict[obs_key] = clder


@of("seyfert.derivatives.cl_derivative.ClDerivativeCollector.fromHDF5", kind='class')
def r_ClDerivativeCollector_fromHDF5(cls, file, dvar=None):
    dcoll = cls(dvar=dvar)
    dcoll.loadFromFile(file)
    return dcoll


@of("seyfert.derivatives.cl_derivative.collect_cl_derivatives")
def r_collect_cl_derivatives(der_dir):
    dcl_dict = {}
    for dvar_dir in der_dir.iterdir():
        dvar = fsu.get_dvar_from_derivative_jobdir_name(dvar_dir.name)
        der_file = fsu.get_file_from_dir_with_pattern(dvar_dir, 'cl_derivatives*h5')
        dcl_coll = ClDerivativeCollector(dvar=dvar)
        dcl_coll.loadFromFile(der_file)
        dcl_dict[dvar] = {key: dcl_coll[key].dc_lij for key in dcl_coll.dcl_dict}
    return dcl_dict

