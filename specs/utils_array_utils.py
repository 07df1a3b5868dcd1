"""Reference definitions for seyfert.utils.array_utils."""
import numpy as np



@of("seyfert.utils.array_utils.compute_arrays_intersection1d")
def r_compute_arrays_intersection1d(arrays):
    if len(arrays) == 1:
        arr_intersection = arrays[0]
    else:
        arr_intersection = np.intersect1d(arrays[0], arrays[1])
        for arr in arrays[1:]:
            arr_intersection = np.intersect1d(arr_intersection, arr)
    return arr_intersection


@of("seyfert.utils.array_utils.symmetrize_clij_arr")
def r_symmetrize_clij_arr(X):
    return (X + np.transpose(X, axes=(0, 2, 1))) / 2


@of("seyfert.utils.array_utils.compute_arrays_union1d")
def r_compute_arrays_union1d(arrays):
    arr_union = np.union1d(arrays[0], arrays[1])
    for arr in arrays[1:]:
        arr_union = np.union1d(arr_union, arr)
    return arr_union


@of("seyfert.utils.array_utils.compute_ell_bin_widths_from_log_centers")
def r_compute_ell_bin_widths_from_log_centers(l_bin_centers):
    Dlog_ell = np.log10(l_bin_centers[1] / l_bin_centers[0])
    return 2 * ((10 ** Dlog_ell - 1) / (10 ** Dlog_ell + 1)) * l_bin_centers


@of("seyfert.utils.array_utils.compute_multipoles_arrays")
def r_compute_multipoles_arrays(l_min, l_max, spacing, n_ell=None):
    if l_min >= l_max:
        raise ValueError()
    if spacing in {'lin', 'linear', 'Linear'}:
        l_bin_edges = np.arange(l_min, l_max + 1, step=1)
        l_bin_centers = (l_bin_edges[:-1] + l_bin_edges[1:]) / 2
        l_bin_widths = np.ones(l_bin_centers.shape)
    elif spacing in {'log', 'logarithmic', 'Logarithmic'}:
        if n_ell is None:
            raise ValueError()
        if not isinstance(n_ell, (int, float)):
            raise TypeError()
        l_bin_edges = np.logspace(np.log10(l_min), np.log10(l_max), num=int(n_ell) + 1, endpoint=True)
        l_bin_centers = (l_bin_edges[:-1] + l_bin_edges[1:]) / 2
        l_bin_widths = np.diff(l_bin_edges)
    else:
        raise KeyError()
    return (l_bin_centers, l_bin_widths)

