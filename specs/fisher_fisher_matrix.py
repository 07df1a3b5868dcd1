"""Reference definitions for seyfert.fisher.fisher_matrix."""
from pathlib import Path
from seyfert.file_io.ext_input import ISTInputReader
from seyfert.fisher import fisher_utils as fu
from seyfert.fisher.fisher_matrix import FisherMatrix
from seyfert.fisher.fisher_matrix import FisherMatrixError
from seyfert.utils import general_utils as gu
from seyfert.utils import tex_utils as txu
import h5py
import logging
import numpy as np
import pandas as pd
import re

logger = logging.getLogger(__name__)


@shape("seyfert.fisher.fisher_matrix.FisherMatrixError")
class s_FisherMatrixError(Exception):
    pass


@shape("seyfert.fisher.fisher_matrix.FisherMatrix")
class s_FisherMatrix:
    matrix: 'pd.DataFrame'
    _name: 'str'
    inverse: 'pd.DataFrame'
    correlation: 'pd.DataFrame'
    _cosmological_parameters: 'Set[str]'
    _nuisance_parameters: 'Set[str]'
    _already_sliced: 'bool'
    marginalize_nuisance: 'bool'


@of("seyfert.fisher.fisher_matrix.FisherMatrix.__init__", ret=False)
def r_FisherMatrix_init(self, matrix_df=None, name=None, cosmological_parameters=None, nuisance_parameters=None, marginalize_nuisance=True):
    self.matrix = matrix_df
    self._cosmological_parameters = None
    self._nuisance_parameters = None
    self.marginalize_nuisance = marginalize_nuisance
    self._name = name
    self.inverse = None
    self.correlation = None
    self._translator = txu.TeXTranslator()
    if cosmological_parameters is not None:
        self._cosmological_parameters = set(list(cosmological_parameters))
    if nuisance_parameters is not None:
        self._nuisance_parameters = set(list(nuisance_parameters))


@of("seyfert.fisher.fisher_matrix.FisherMatrix.physical_parameters", kind='property')
def r_FisherMatrix_physical_parameters(self):
    return self._nuisance_parameters | self._cosmological_parameters


@of("seyfert.fisher.fisher_matrix.FisherMatrix.cosmological_parameters", kind='property')
def r_FisherMatrix_cosmological_parameters(self):
    return self._cosmological_parameters


@of("seyfert.fisher.fisher_matrix.FisherMatrix.nuisance_parameters", kind='property')
def r_FisherMatrix_nuisance_parameters(self):
    return self._nuisance_parameters


@of("seyfert.fisher.fisher_matrix.FisherMatrix.name", kind='property')
def r_FisherMatrix_name(self):
    return self._name


@of("seyfert.fisher.fisher_matrix.FisherMatrix.index", kind='property')
def r_FisherMatrix_index(self):
    return self.matrix.index


@of("seyfert.fisher.fisher_matrix.FisherMatrix.columns", kind='property')
def r_FisherMatrix_columns(self):
    return self.matrix.columns


@of("seyfert.fisher.fisher_matrix.FisherMatrix.has_params_sets", kind='property')
def r_FisherMatrix_has_params_sets(self):
    return self.cosmological_parameters is not None and self.nuisance_parameters is not None


@of("seyfert.fisher.fisher_matrix.FisherMatrix.name@setter", ret=False, kind='setter')
def r_FisherMatrix_name_set(self, new_name):
    if isinstance(new_name, str):
        self._name = new_name
    else:
        raise TypeError()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.tex_name", kind='property')
def r_FisherMatrix_tex_name(self):
    try:
        return self._translator.replaceFisherNamesToTeX(self.name, use_aliases=False)
    except KeyError:
        return self.name


@of("seyfert.fisher.fisher_matrix.FisherMatrix.from_dataframe", kind='class')
def r_FisherMatrix_from_dataframe(cls, df, name=None, cosmological_parameters=None, nuisance_parameters=None):
    return cls(matrix_df=df, name=name, cosmological_parameters=cosmological_parameters, nuisance_parameters=nuisance_parameters)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.from_ISTfile", kind='class')
def r_FisherMatrix_from_ISTfile(cls, file, name=None, cosmological_parameters=None, nuisance_parameters=None):
    reader = ISTInputReader()
    if name is None:
        name, df = reader.readISTFisherMatrixFile(file)
    else:
        _, df = reader.readISTFisherMatrixFile(file)
    if cosmological_parameters is None and nuisance_parameters is None:
        cosmological_parameters = set(df.index)
        nuisance_parameters = set()
    return cls(matrix_df=df, name=name, cosmological_parameters=cosmological_parameters, nuisance_parameters=nuisance_parameters)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.copy")
def r_FisherMatrix_copy(self):
    return FisherMatrix(name=self.name, matrix_df=self.matrix.copy(deep=True), marginalize_nuisance=self.marginalize_nuisance, cosmological_parameters=self.cosmological_parameters.copy(), nuisance_parameters=self.nuisance_parameters.copy())


@of("seyfert.fisher.fisher_matrix.FisherMatrix.zeroPadMatrices", kind='static')
def r_FisherMatrix_zeroPadMatrices(F1, F2):
    sum_nuis_pars = F1.nuisance_parameters | F2.nuisance_parameters
    sum_cosmo_pars = F1.cosmological_parameters | F2.cosmological_parameters
    sum_phys_pars = sum_cosmo_pars | sum_nuis_pars
    missing_pars_1 = sum_phys_pars - F1.physical_parameters
    missing_pars_2 = sum_phys_pars - F2.physical_parameters
    for missing_par in missing_pars_1:
        F1.matrix[missing_par] = 0
        F1.matrix.loc[missing_par] = 0
    for missing_par in missing_pars_2:
        F2.matrix[missing_par] = 0
        F2.matrix.loc[missing_par] = 0
    return (F1, F2)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.__add__")
def r_FisherMatrix_add(self, other):
    F1, F2 = self.zeroPadMatrices(self.copy(), other.copy())
    sum_cosmo_pars = F1.cosmological_parameters | F2.cosmological_parameters
    sum_nuis_pars = F1.nuisance_parameters | F2.nuisance_parameters
    sum_matrix_df = F1.matrix + F2.matrix
    fisher_sum = FisherMatrix(name=f'{F1.name} + {F2.name}', matrix_df=sum_matrix_df, cosmological_parameters=sum_cosmo_pars, nuisance_parameters=sum_nuis_pars)
    return fisher_sum


@of("seyfert.fisher.fisher_matrix.FisherMatrix.__sub__")
def r_FisherMatrix_sub(self, other):
    F1, F2 = self.zeroPadMatrices(self.copy(), other.copy())
    sum_cosmo_pars = F1.cosmological_parameters | F2.cosmological_parameters
    sum_nuis_pars = F1.nuisance_parameters | F2.nuisance_parameters
    sum_matrix_df = F1.matrix - F2.matrix
    fisher_sum = FisherMatrix(name=f'{F1.name} - {F2.name}', matrix_df=sum_matrix_df, cosmological_parameters=sum_cosmo_pars, nuisance_parameters=sum_nuis_pars)
    return fisher_sum


@of("seyfert.fisher.fisher_matrix.FisherMatrix.__eq__")
def r_FisherMatrix_eq(self, other):
    return all([np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) == other.matrix.sort_index(axis=0).sort_index(axis=1)), self.name == other.name, self.physical_parameters == other.physical_parameters])


@of("seyfert.fisher.fisher_matrix.FisherMatrix.__repr__")
def r_FisherMatrix_repr(self):
    return f'{self.name}\n {repr(self.matrix)}'


@of("seyfert.fisher.fisher_matrix.FisherMatrix.__deepcopy__")
def r_FisherMatrix_deepcopy(self, memodict={}):
    return self.copy()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.checkAttributes", ret=False)
def r_FisherMatrix_checkAttributes(self):
    if not isinstance(self.matrix, pd.DataFrame):
        raise TypeError()
    if not isinstance(self._name, str):
        raise TypeError()
    fisher_rows = set(self.matrix.index)
    fisher_cols = set(self.matrix.columns)
    if fisher_rows != fisher_cols:
        raise Exception()
    if not isinstance(self._cosmological_parameters, set):
        raise ValueError()
    if not isinstance(self._nuisance_parameters, set):
        raise ValueError()
    if fisher_rows != self.physical_parameters:
        raise ValueError()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.selectRelevantFisherSubMatrix", ret=False)
def r_FisherMatrix_selectRelevantFisherSubMatrix(self):
    relevant_pars = self.cosmological_parameters | self.nuisance_parameters
    all_phys_pars = set(self.matrix.index)
    if not all_phys_pars.issuperset(relevant_pars):
        raise FisherMatrixError()
    pars_to_exclude = set()
    if not self.marginalize_nuisance:
        pars_to_exclude |= self._nuisance_parameters
        self._nuisance_parameters = set()
    relevant_pars -= pars_to_exclude
    if relevant_pars != all_phys_pars:
        self._resetDerivedMatrices()
    self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
    self.matrix.sort_index(axis=0, inplace=True)
    self.matrix.sort_index(axis=1, inplace=True)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.fixParameters", ret=False)
def r_FisherMatrix_fixParameters(self, params):
    params = set(params)
    missing = params - self.physical_parameters
    if missing:
        raise Exception()
    self._cosmological_parameters = self.cosmological_parameters - params
    self._nuisance_parameters = self.nuisance_parameters - params
    self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
    self._resetDerivedMatrices()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.evaluateInverse", ret=False)
def r_FisherMatrix_evaluateInverse(self):
    self.inverse = fu.invert_dataframe(self.matrix)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.getFigureOfMerit")
def r_FisherMatrix_getFigureOfMerit(self, par_1='w0', par_2='wa'):
    pars_subset = {par_1, par_2}
    sub_inv_matrix = self.inverse.loc[pars_subset, pars_subset]
    return 1.0 / np.sqrt(np.linalg.det(sub_inv_matrix))


@of("seyfert.fisher.fisher_matrix.FisherMatrix.evaluateCorrelationMatrix", ret=False)
def r_FisherMatrix_evaluateCorrelationMatrix(self):
    sigmas = np.sqrt(np.diag(self.inverse))
    sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.inverse.shape[0], axis=0), index=self.inverse.index, columns=self.inverse.columns)
    sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.inverse.shape[1], axis=1), index=self.inverse.index, columns=self.inverse.columns)
    self.correlation = self.inverse / (sigma_row_df * sigma_col_df)
    self.correlation = self.correlation.loc[self._cosmological_parameters, self._cosmological_parameters]
    self.correlation.sort_index(axis=0, inplace=True)
    self.correlation.sort_index(axis=1, inplace=True)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.marginalizeParameters")
def r_FisherMatrix_marginalizeParameters(self, params, ret_copy=True):
    params = set(params)
    all_params = set(self.index)
    missing = params - all_params
    if missing:
        raise FisherMatrixError()
    self.evaluateInverse()
    to_maintain = all_params - params
    sliced_inverse = self.inverse.loc[to_maintain, to_maintain]
    if ret_copy:
        fmat = self.copy()
        fmat._cosmological_parameters = fmat.cosmological_parameters - params
        fmat._nuisance_parameters = fmat.nuisance_parameters - params
        fmat.inverse = sliced_inverse
        marg_fisher = fu.invert_dataframe(sliced_inverse)
        fmat.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
        return fmat
    else:
        self._cosmological_parameters = self.cosmological_parameters - params
        self._nuisance_parameters = self.nuisance_parameters - params
        self.inverse = sliced_inverse
        self.correlation = None
        marg_fisher = fu.invert_dataframe(sliced_inverse)
        self.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
        return None


@of("seyfert.fisher.fisher_matrix.FisherMatrix.marginalizeNuisance")
def r_FisherMatrix_marginalizeNuisance(self, ret_copy=True):
    if self.marginalize_nuisance:
        retval = self.marginalizeParameters(self.nuisance_parameters, ret_copy=ret_copy)
    else:
        retval = self.copy() if ret_copy else None
    return retval


@of("seyfert.fisher.fisher_matrix.FisherMatrix.getParameterSigma")
def r_FisherMatrix_getParameterSigma(self, name):
    if self.inverse is None:
        raise ValueError()
    else:
        return np.sqrt(self.inverse.loc[name, name])


@of("seyfert.fisher.fisher_matrix.FisherMatrix.getMarginalizedErrors")
def r_FisherMatrix_getMarginalizedErrors(self, fom=True, only_cosmo=True):
    if self.inverse is None:
        self.evaluateInverse()
    errs = pd.Series([self.getParameterSigma(name) for name in self.index], index=self.index)
    if only_cosmo:
        errs = errs.loc[self.cosmological_parameters]
    if fom and {'w0', 'wa'}.issubset(set(self.index)):
        errs.loc['FoM'] = self.getFigureOfMerit()
    errs.name = self.name
    return errs.sort_index()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.getUnmarginalizedErrors")
def r_FisherMatrix_getUnmarginalizedErrors(self, only_cosmo=True):
    errs = pd.Series(1 / np.sqrt(np.diag(self.matrix)), index=self.index)
    if only_cosmo:
        errs = errs.loc[self.cosmological_parameters]
    return errs


@of("seyfert.fisher.fisher_matrix.FisherMatrix.addPriorToParameters", ret=False)
def r_FisherMatrix_addPriorToParameters(self, fiducials_dict, frac_delta):
    missing = set(fiducials_dict) - set(self.index)
    if missing:
        raise FisherMatrixError()
    prior_fisher = pd.DataFrame(np.zeros(self.matrix.shape), index=self.index, columns=self.columns)
    for name, value in fiducials_dict.items():
        sigma_prior = frac_delta * value
        prior_fisher.loc[name, name] = 1 / sigma_prior ** 2
    self.matrix = self.matrix.add(prior_fisher, fill_value=0)
    self._resetDerivedMatrices()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.getFilename")
def r_FisherMatrix_getFilename(self):
    sub_dict = {key: '_' for key in ['[', ']', '(', ')', ' ']}
    sub_dict[','] = '-'
    suffix = gu.multiple_regex_replace(self.name, sub_dict=sub_dict).strip('_')
    suffix = re.sub('_+', '_', suffix)
    return f'fisher_{suffix}.hdf5'


@of("seyfert.fisher.fisher_matrix.FisherMatrix.writeToFile", ret=False)
def r_FisherMatrix_writeToFile(self, outdir=None, outfile=None, overwrite=False, skip_if_exists=False):
    if outfile is None:
        if outdir is not None:
            outfile = Path(outdir) / self.getFilename()
        else:
            raise FisherMatrixError()
    else:
        outfile = Path(outfile)
    if outfile.exists():
        if skip_if_exists:
            return
        elif overwrite:
            outfile.unlink()
        else:
            raise FileExistsError()
    with h5py.File(outfile, 'w') as hf:
        str_dtype = h5py.special_dtype(vlen=str)
        hf.create_dataset(name='name', data=self.name, dtype=str_dtype)
        hf.create_dataset(name='indices', data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
        hf.create_dataset(name='fisher_matrix', data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
        hf.create_dataset(name='cosmological_pars', data=np.array(list(self.cosmological_parameters), dtype=str_dtype), dtype=str_dtype)
        if len(self.nuisance_parameters) > 0:
            hf.create_dataset(name='nuisance_pars', data=np.array(list(self.nuisance_parameters), dtype=str_dtype), dtype=str_dtype)


@of("seyfert.fisher.fisher_matrix.FisherMatrix.loadFromFile", ret=False)
def r_FisherMatrix_loadFromFile(self, file=None, file_ext='hdf5'):
    if file_ext == 'hdf5':
        with h5py.File(file, 'r') as hf:
            self.name = self._decode(hf['name'][()])
            try:
                self._nuisance_parameters = {self._decode(par) for par in hf['nuisance_pars'][()]}
            except KeyError:
                self._nuisance_parameters = set()
            self._cosmological_parameters = {self._decode(par) for par in hf['cosmological_pars'][()]}
            indices = [self._decode(par) for par in hf['indices'][()]]
            self.matrix = pd.DataFrame(data=hf['fisher_matrix'][()], index=indices, columns=indices)
            self._resetDerivedMatrices()
    elif file_ext == 'csv':
        matrix_df = pd.read_csv(file, index_col=0)
        self.matrix = matrix_df
        self._resetDerivedMatrices()
        if self.cosmological_parameters is None:
            pass
        if self.nuisance_parameters is None:
            pass
        if self._name is None:
            pass
    else:
        raise Exception()


@of("seyfert.fisher.fisher_matrix.FisherMatrix.fromHDF5", kind='class')
def r_FisherMatrix_fromHDF5(cls, file):
    f = cls()
    f.loadFromFile(file)
    return f


@of("seyfert.fisher.fisher_matrix.FisherMatrix.fromCSV", kind='class')
def r_FisherMatrix_fromCSV(cls, file, cosmological_parameters=None, nuisance_parameters=None):
    df = pd.read_csv(file, index_col=0)
    return cls.from_dataframe(df, name=Path(file).stem, cosmological_parameters=cosmological_parameters, nuisance_parameters=nuisance_parameters)


@of("seyfert.fisher.fisher_matrix.fromHDF5")
def r_fromHDF5(file):
    return FisherMatrix.fromHDF5(file)

