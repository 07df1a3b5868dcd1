"""Reference definitions for seyfert.derivatives.differentiator."""
from abc import ABC, abstractmethod
from scipy import integrate
from seyfert.cosmology import c_ells
from seyfert.derivatives.differentiator import AnalyticClDifferentiator
from seyfert.derivatives.differentiator import ClDifferentiator
from seyfert.derivatives.differentiator import DifferentiationError
from seyfert.derivatives.differentiator import SteMClDifferentiator
import logging
import numpy as np
import re

logger = logging.getLogger(__name__)


@shape("seyfert.derivatives.differentiator.DifferentiationError")
class s_DifferentiationError(Exception):
    pass


@shape("seyfert.derivatives.differentiator.ClDifferentiator")
class s_ClDifferentiator(ABC):
    param: 'PhysicalParameter'
    workspace: 'WorkSpace'
    fiducial_cl: 'c_ells.AngularCoefficient'


@shape("seyfert.derivatives.differentiator.SteMClDifferentiator")
class s_SteMClDifferentiator(ClDifferentiator):
    c_dvar_lij: 'np.ndarray'


@shape("seyfert.derivatives.differentiator.AnalyticClDifferentiator")
class s_AnalyticClDifferentiator(ClDifferentiator):
    pass


@of("seyfert.derivatives.differentiator.ClDifferentiator.__init__", ret=False)
def r_ClDifferentiator_init(self, probe1=None, probe2=None, param=None, workspace=None):
    self.probe1 = probe1
    self.probe2 = probe2
    self.param = param
    self.workspace = workspace
    self.fiducial_cl = None


@of("seyfert.derivatives.differentiator.ClDifferentiator.computeDerivative")
def r_ClDifferentiator_computeDerivative(self):
    if self.param.is_nuisance and self.param.probe not in {self.fiducial_cl.probe1, self.fiducial_cl.probe2}:
        dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
    else:
        dc_lij = self.doComputeDerivative()
    return dc_lij


@of("seyfert.derivatives.differentiator.ClDifferentiator.loadClData", ret=False)
def r_ClDifferentiator_loadClData(self):
    fid_cl_file = self.workspace.getClFile(dvar='central', step=0)
    self.fiducial_cl = c_ells.AngularCoefficient.fromHDF5(fid_cl_file, self.probe1, self.probe2, root='cls')


@of("seyfert.derivatives.differentiator.SteMClDifferentiator.__init__", ret=False)
def r_SteMClDifferentiator_init(self, vectorized=False, phys_pars=None, **kwargs):
    super(SteMClDifferentiator, self).__init__(**kwargs)
    self.c_dvar_lij = None
    self.vectorized = vectorized
    self.phys_pars = phys_pars


@of("seyfert.derivatives.differentiator.SteMClDifferentiator.loadClData", ret=False)
def r_SteMClDifferentiator_loadClData(self):
    super(SteMClDifferentiator, self).loadClData()
    dvar_cl_files = self.collectClVariationsFiles()
    c_dvar_lij = []
    for f in dvar_cl_files:
        cl = c_ells.AngularCoefficient.fromHDF5(f, self.probe1, self.probe2, root='cls')
        c_dvar_lij.append(cl.c_lij)
    self.c_dvar_lij = np.stack(c_dvar_lij)


@of("seyfert.derivatives.differentiator.SteMClDifferentiator.doComputeDerivative")
def r_SteMClDifferentiator_doComputeDerivative(self):
    dc_lij = np.zeros(self.c_dvar_lij.shape[1:])
    if self.phys_pars is None:
        self.phys_pars = self.workspace.getParamsCollection()
    dvar_stem_values = self.phys_pars.computePhysParSTEMValues(dvar=self.param.name)
    if self.vectorized:
        dc_lij = self.vectorizedSteM(dvar_stem_values, self.c_dvar_lij)
    else:
        l_number, i_number, j_number = dc_lij.shape
        for lidx in range(l_number):
            for myi in range(i_number):
                for myj in range(j_number):
                    dc_lij[lidx, myi, myj] = self.STEM_derivative(x=dvar_stem_values, y=self.c_dvar_lij[:, lidx, myi, myj])
    return dc_lij


@of("seyfert.derivatives.differentiator.SteMClDifferentiator.STEM_derivative", kind='static')
def r_SteMClDifferentiator_STEM_derivative(x, y):
    if np.min(y) == np.max(y):
        slope = 0
    else:
        linear = False
        slope = None
        while not linear:
            fit_pars = np.polyfit(x, y, 1)
            slope = fit_pars[0]
            intercept = fit_pars[1]
            y_fit = intercept + slope * x
            percentile_difference = np.abs((y - y_fit) / y)
            if all(percentile_difference < 0.01) or len(y) <= 3:
                linear = True
            else:
                x = x[1:-1]
                y = y[1:-1]
    return slope


@of("seyfert.derivatives.differentiator.SteMClDifferentiator.vectorizedSteM", kind='static')
def r_SteMClDifferentiator_vectorizedSteM(dvar_vals, c_dvar_lij):
    x = dvar_vals
    n_dvar, n_ells, ni, nj = c_dvar_lij.shape
    y = c_dvar_lij.reshape((n_dvar, n_ells * ni * nj))
    slopes = np.zeros(y.shape[1])
    intercepts = np.zeros(y.shape[1])
    assert x.shape[0] == y.shape[0]
    if np.min(y) == np.max(y):
        pass
    else:
        not_linear_mask = np.ones(y.shape[1]).astype(bool)
        stop = False
        while not stop:
            fit_results = np.polyfit(x, y, 1)
            slopes[not_linear_mask] = fit_results[0, not_linear_mask]
            intercepts[not_linear_mask] = fit_results[1, not_linear_mask]
            yfit = np.expand_dims(x, 1) * slopes + np.expand_dims(intercepts, 0)
            y_abs_diff = np.abs(yfit - y)
            err = np.zeros(y_abs_diff.shape)
            mask = y != 0
            err[mask] = y_abs_diff[mask] / np.abs(y[mask])
            not_linear_mask = np.any(err > 0.01, axis=0)
            less_than_three_points = y.shape[0] <= 3
            stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
            x = x[1:-1]
            y = y[1:-1]
    dc_lij = slopes.reshape((n_ells, ni, nj))
    return dc_lij


@of("seyfert.derivatives.differentiator.SteMClDifferentiator.collectClVariationsFiles")
def r_SteMClDifferentiator_collectClVariationsFiles(self):
    par_name = self.param.name
    dvar_cl_files = list(self.workspace.cl_dir.glob(f'dvar_{par_name}_*/cl*.h5'))
    dvar_cl_files.append(self.workspace.getClFile(dvar='central', step=0))

    def _sorting_func(file):
        dvar, step = self.workspace.getDvarStepFromCosmoDirName(file.parent.name)
        return step
    dvar_cl_files.sort(key=_sorting_func)
    if len(dvar_cl_files) <= 1:
        raise Exception()
    return dvar_cl_files


@of("seyfert.derivatives.differentiator.AnalyticClDifferentiator.__init__", ret=False)
def r_AnalyticClDifferentiator_init(self, **kwargs):
    super(AnalyticClDifferentiator, self).__init__(**kwargs)


@of("seyfert.derivatives.differentiator.AnalyticClDifferentiator.loadClData", ret=False)
def r_AnalyticClDifferentiator_loadClData(self):
    super(AnalyticClDifferentiator, self).loadClData()
    pmm_file = self.workspace.getPowerSpectrumFile(dvar='central', step=0)
    self.fiducial_cl.loadCosmology(pmm_file, load_power_spectrum=True)
    self.fiducial_cl.cosmology.evaluateOverRedshiftGrid()


@of("seyfert.derivatives.differentiator.AnalyticClDifferentiator.doComputeDerivative")
def r_AnalyticClDifferentiator_doComputeDerivative(self):
    if not self.param.is_galaxy_bias_parameter:
        raise NotImplementedError()
    else:
        p1, p2 = (self.fiducial_cl.probe1, self.fiducial_cl.probe2)
        probe = self.param.probe
        if probe != p1 and probe != p2:
            raise DifferentiationError()
        dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
        bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
        if bias_model_name == 'constant' or bias_model_name == 'piecewise':
            k = int(re.search('\\d+$', self.param.name).group())
            bk = self.param.fiducial
            if bias_model_name == 'constant':
                _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
                if probe == p1:
                    delta_ik = (i == k).astype(np.int64)
                    dc_lij += delta_ik / bk * self.fiducial_cl.c_lij
                if probe == p2:
                    delta_jk = (j == k).astype(np.int64)
                    dc_lij += delta_jk / bk * self.fiducial_cl.c_lij
            elif bias_model_name == 'piecewise':
                self.fiducial_cl.evaluateLimberApproximatedPowerSpectrum()
                z_b_edg = self.fiducial_cl.getWeightFunction(probe).z_bin_edges
                z_grid = self.fiducial_cl.z_array
                bin_mask = (z_grid >= z_b_edg[k]) & (z_grid <= z_b_edg[k + 1])
                for myi in range(dc_lij.shape[1]):
                    for myj in range(dc_lij.shape[2]):
                        cl_integrand = self.fiducial_cl.getLimberRedshiftIntegrand(myi, myj)
                        if probe == p1:
                            dc_lij[:, myi, myj] += 1 / bk * integrate.simps(y=cl_integrand[:, bin_mask], x=z_grid[bin_mask], axis=-1)
                        if probe == p2:
                            dc_lij[:, myi, myj] += 1 / bk * integrate.simps(y=cl_integrand[:, bin_mask], x=z_grid[bin_mask], axis=-1)
        else:
            raise NotImplementedError()
    return dc_lij

