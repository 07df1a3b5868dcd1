"""Reference definitions for seyfert.fisher.linalg_tools."""
from seyfert.fisher.linalg_tools import _get_idxs_by
from seyfert.fisher.linalg_tools import diag_idxs
from seyfert.fisher.linalg_tools import duplication_matrix
from seyfert.fisher.linalg_tools import triu_idxs_by_col
from seyfert.fisher.linalg_tools import unvecp
from seyfert.fisher.linalg_tools import vec
import numpy as np



@of("seyfert.fisher.linalg_tools.get_enumeration_map")
def r_get_enumeration_map(shape, symm):
    nA, nB = shape
    if symm:
        if nA != nB:
            raise Exception()
        i, j = triu_idxs_by_col(nA)
    else:
        i, j = np.indices(shape)
        i = i.ravel(order='F')
        j = j.ravel(order='F')
    enum_map = {(myi, myj): idx for idx, (myi, myj) in enumerate(zip(i, j))}
    return enum_map


@of("seyfert.fisher.linalg_tools._get_idxs_by")
def r_get_idxs_by(func, n, order='F'):
    i, j = np.indices((n, n))
    i = i.ravel(order=order)
    j = j.ravel(order=order)
    mask = func(i, j)
    return (i[mask], j[mask])


@of("seyfert.fisher.linalg_tools.triu_idxs_by_col")
def r_triu_idxs_by_col(n, order='F'):
    return _get_idxs_by(lambda x, y: x <= y, n, order=order)


@of("seyfert.fisher.linalg_tools.tril_idxs_by_col")
def r_tril_idxs_by_col(n, order='F'):
    return _get_idxs_by(lambda x, y: x >= y, n, order=order)


@of("seyfert.fisher.linalg_tools.diag_idxs")
def r_diag_idxs(n, order='F'):
    return _get_idxs_by(lambda x, y: x == y, n, order=order)


@of("seyfert.fisher.linalg_tools.vecp")
def r_vecp(A):
    nrows, ncols = A.shape
    if nrows != ncols:
        raise Exception()
    i, j = triu_idxs_by_col(A.shape[0])
    return A[i, j]


@of("seyfert.fisher.linalg_tools.unvecp")
def r_unvecp(v):
    p = int(0.5 * (np.sqrt(1 + 8 * len(v)) - 1))
    result = np.zeros((p, p))
    i, j = triu_idxs_by_col(p)
    result[i, j] = v
    result = result + result.T
    result[diag_idxs(p)] /= 2
    return result


@of("seyfert.fisher.linalg_tools.vec")
def r_vec(A):
    return A.ravel(order='F')


@of("seyfert.fisher.linalg_tools.unvec")
def r_unvec(v):
    n = int(np.sqrt(len(v)))
    return v.reshape((n, n), order='F')


@of("seyfert.fisher.linalg_tools.duplication_matrix")
def r_duplication_matrix(n):
    iden = np.eye(n * (n + 1) // 2)
    return np.array([unvecp(x).ravel() for x in iden]).T


@of("seyfert.fisher.linalg_tools.elimination_matrix")
def r_elimination_matrix(n):
    vecp_indices = vec(np.triu(np.ones((n, n))))
    return np.eye(n * n)[vecp_indices != 0]


@of("seyfert.fisher.linalg_tools.transition_matrix")
def r_transition_matrix(n):
    return np.linalg.pinv(duplication_matrix(n).T)


@of("seyfert.fisher.linalg_tools.commutation_matrix")
def r_commutation_matrix(p, q):
    K = np.eye(p * q)
    indices = np.arange(p * q).reshape((p, q), order='F')
    return K.take(indices.ravel(), axis=0)

