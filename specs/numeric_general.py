"""Reference definitions for seyfert.numeric.general."""
from scipy import special
from seyfert.numeric.general import pad
from seyfert.numeric.general import smoothstep
import numpy as np
import pandas as pd



@of("seyfert.numeric.general.smoothstep")
def r_smoothstep(x, x_min=0, x_max=1, N=3):
    x = np.clip((x - x_min) / (x_max - x_min), 0, 1)
    result = 0
    for n in range(N + 1):
        result += special.comb(N + n, n) * special.comb(2 * N + 1, N - n) * (-x) ** n
    result *= x ** (N + 1)
    return result


@of("seyfert.numeric.general.top_hat_filter")
def r_top_hat_filter(x, R):
    return 1 - smoothstep(x, x_min=0.9 * R, x_max=1.1 * R, N=3)


@of("seyfert.numeric.general.callable_stencil_derivative")
def r_callable_stencil_derivative(f, x, step, **kwargs):
    f_m2 = f(x - 2 * step, **kwargs)
    f_m1 = f(x - 1 * step, **kwargs)
    f_p1 = f(x + 1 * step, **kwargs)
    f_p2 = f(x + 2 * step, **kwargs)
    return (-f_p2 + 8 * f_p1 - 8 * f_m1 + f_m2) / (12 * step)


@of("seyfert.numeric.general.pad")
def r_pad(x, y):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        res = np.zeros(x.shape)
        mask = x + y != 0
        diff = np.abs(x - y)
        den = np.abs(x + y)
        res[mask] = 200 * diff[mask] / den[mask]
    elif isinstance(x, pd.DataFrame) and isinstance(y, pd.DataFrame):
        if set(x.index) != set(y.index):
            raise Exception()
        if set(x.columns) != set(y.columns):
            raise Exception()
        den = np.where(x + y != 0, (x + y) / 2, 1)
        num = np.abs(x - y)
        res = pd.DataFrame(100 * (num / den), index=x.index, columns=x.columns)
    else:
        res = 200 * np.abs((x - y) / (x + y))
    return res


@of("seyfert.numeric.general.odm_weighted_pad")
def r_odm_weighted_pad(x, y, ref='mean'):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        func_refs = {'mean': np.mean, 'max': np.max}
        normalization = np.abs(x + y) / 2
        odm = normalization / func_refs[ref](normalization)
        res = pad(x, y) * odm
    else:
        raise NotImplemented()
    return res


@of("seyfert.numeric.general.percentage_difference")
def r_percentage_difference(minuend, ref):
    return 100 * (minuend - ref) / ref

