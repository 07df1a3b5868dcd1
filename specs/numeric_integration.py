"""Reference definitions for seyfert.numeric.integration."""
from scipy import integrate
from seyfert.numeric.integration import IntegrationError
import logging
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.numeric.integration.IntegrationError")
class s_IntegrationError(Exception):
    pass


@shape("seyfert.numeric.integration.CompositeNewtonCotesIntegrator")
class s_CompositeNewtonCotesIntegrator:
    x: 'np.ndarray'
    y: 'np.ndarray'
    order: 'int'


@of("seyfert.numeric.integration.CompositeNewtonCotesIntegrator.__init__", ret=False)
def r_CompositeNewtonCotesIntegrator_init(self, x, y, order, axis=-1):
    self.x = x
    self.y = y
    self.order = order
    self.y_integ_axis = axis
    self.n_tot_points = None
    self.n_bins = None
    self.n_excess_points = None
    self._max_order_allowed = 6
    self.checkValid()
    self.n_tot_points = self.x.shape[0]
    self.n_bins = (self.n_tot_points - 1) // self.order
    self.n_excess_points = (self.n_tot_points - 1) % self.order


@of("seyfert.numeric.integration.CompositeNewtonCotesIntegrator.checkValid", ret=False)
def r_CompositeNewtonCotesIntegrator_checkValid(self):
    if not isinstance(self.x, np.ndarray):
        raise TypeError()
    if not isinstance(self.y, np.ndarray):
        raise TypeError()
    xshape = self.x.shape
    n_x_dims = len(xshape)
    if n_x_dims != 1:
        raise Exception()
    if not isinstance(self.order, (int, np.int16, np.int32, np.int64)):
        try:
            self.order = int(self.order)
        except TypeError:
            raise TypeError()
        except ValueError:
            raise ValueError()
    if self.order <= 0:
        raise ValueError()
    if self.order > self._max_order_allowed:
        raise IntegrationError()
    n_x_points = xshape[0]
    yshape = self.y.shape
    n_y_points = yshape[self.y_integ_axis]
    if n_y_points != n_x_points:
        raise Exception()
    self.checkAlmostEqualSpacing(atol=1e-15, rtol=1e-15)


@of("seyfert.numeric.integration.CompositeNewtonCotesIntegrator.checkAlmostEqualSpacing", ret=False)
def r_CompositeNewtonCotesIntegrator_checkAlmostEqualSpacing(self, atol, rtol):
    x_deltas = np.diff(self.x)
    x_delta0 = x_deltas[0]
    tolerance = atol + rtol * np.abs(x_delta0)
    err_diff_max = np.max(np.abs(x_deltas - x_delta0))
    if not err_diff_max <= tolerance:
        pass


@of("seyfert.numeric.integration.CompositeNewtonCotesIntegrator.computeIntegral")
def r_CompositeNewtonCotesIntegrator_computeIntegral(self):
    self.checkValid()
    result = self.doIntegrate()
    return result


@of("seyfert.numeric.integration.CompositeNewtonCotesIntegrator.doIntegrate")
def r_CompositeNewtonCotesIntegrator_doIntegrate(self):
    an, B = integrate.newton_cotes(self.order, 1)
    dx = self.x[1] - self.x[0]
    axis = self.y_integ_axis
    k = np.arange(self.n_bins)
    result = 0
    for delta in range(self.order + 1):
        idxs = self.order * k + delta
        y_slice = np.take(self.y, idxs, axis=self.y_integ_axis)
        p_sum = dx * np.sum(an[delta] * y_slice, axis=self.y_integ_axis)
        result += p_sum
    if self.n_excess_points != 0:
        aend, Bend = integrate.newton_cotes(self.n_excess_points, 1)
        slc = [slice(None)] * len(self.y.shape)
        slc[axis] = slice(-self.n_excess_points - 1, self.y.shape[axis])
        yend = np.moveaxis(self.y[tuple(slc)], axis, -1)
        last_bin_contrib = dx * np.sum(aend * yend, axis=-1)
        result += last_bin_contrib
    return result

