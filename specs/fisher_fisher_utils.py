"""Reference definitions for seyfert.fisher.fisher_utils."""
from pathlib import Path
from seyfert.fisher import linalg_tools as lt
from seyfert.fisher.datavector import ClDataVector
from seyfert.fisher.fisher_utils import get_probes_from_fisher_name
from seyfert.utils import array_utils
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import general_utils as gu
from typing import List, Tuple
import itertools
import numpy as np
import pandas as pd

ObsComboType = Tuple[str, str]
CovLayoutEntry = Tuple[ObsComboType, ObsComboType]
DataVectorType = List[ObsComboType]
SINGLE_PROBES = ['WL', 'GCph', 'GCsp']

constants("seyfert.fisher.fisher_utils", 'ObsComboType', 'CovLayoutEntry', 'DataVectorType', 'SINGLE_PROBES')


@of("seyfert.fisher.fisher_utils.buildXCBlockMatrixForProbes")
def r_buildXCBlockMatrixForProbes(probes, matrix_dict, l_dict):
    relevant_combs = []
    for probe_1, probe_2 in itertools.combinations_with_replacement(probes, 2):
        comb_key = gu.get_probes_combination_key(probe_1, probe_2)
        if comb_key not in matrix_dict:
            comb_key = gu.get_probes_combination_key(probe_2, probe_1)
            if comb_key not in matrix_dict:
                raise KeyError()
        relevant_combs.append(comb_key)
    sel_tri_dict = {probe_comb_key: matrix_dict[probe_comb_key] for probe_comb_key in relevant_combs}
    sel_l_dict = {probe_comb_key: l_dict[probe_comb_key] for probe_comb_key in relevant_combs}
    l_common = array_utils.compute_arrays_intersection1d(list(sel_l_dict.values()))
    rows_list = []
    for probe_1 in probes:
        row = []
        for probe_2 in probes:
            probe_comb_key = gu.get_probes_combination_key(probe_1, probe_2)
            if probe_comb_key in sel_tri_dict:
                block = sel_tri_dict[probe_comb_key]
            else:
                probe_comb_key = gu.get_probes_combination_key(probe_2, probe_1)
                block = np.transpose(sel_tri_dict[probe_comb_key], axes=(0, 2, 1))
            common_multipoles_mask = np.isin(l_dict[probe_comb_key], l_common)
            block = block[common_multipoles_mask, :, :]
            row.append(block)
        rows_list.append(row)
    return (l_common, np.block(rows_list))


@of("seyfert.fisher.fisher_utils.get_probes_xc_fisher_name")
def r_get_probes_xc_fisher_name(probes):
    if len(probes) == 1:
        name = probes[0]
    else:
        name_parts = probes + ['XC']
        name = '+'.join(name_parts)
    return name


@of("seyfert.fisher.fisher_utils.get_probes_from_fisher_name")
def r_get_probes_from_fisher_name(fisher_name):
    parts = [x for x in fisher_name.split('+')]
    if 'XC' in parts:
        parts.remove('XC')
    return parts


@of("seyfert.fisher.fisher_utils.get_nuisance_set_for_fisher")
def r_get_nuisance_set_for_fisher(fisher_name, forecast_config):
    probes = get_probes_from_fisher_name(fisher_name)
    nuis_pars = set()
    for probe in probes:
        nuis_pars |= set(forecast_config.phys_pars.getFreeNuisanceParametersForProbe(probe))
    return nuis_pars


@of("seyfert.fisher.fisher_utils.invert_dataframe")
def r_invert_dataframe(df):
    return pd.DataFrame(np.linalg.inv(df), index=df.index, columns=df.columns)


@of("seyfert.fisher.fisher_utils.load_selected_data_vectors")
def r_load_selected_data_vectors():
    file = fsu.fisher_aux_files_dir() / 'selected_datavectors.txt'
    data_vectors = []
    for line in Path(file).read_text().splitlines():
        line = line.strip()
        if not line.startswith('#') and len(line) > 0:
            data_vectors.append(ClDataVector.fromString(line))
    return data_vectors


@of("seyfert.fisher.fisher_utils.load_a_posteriori_fisher_comb_names")
def r_load_a_posteriori_fisher_comb_names():
    file = fsu.fisher_aux_files_dir() / 'a_posteriori_fisher_combs.txt'
    lines = []
    for line in file.read_text().splitlines():
        line = line.strip()
        if not line.startswith('#') and len(line) > 0:
            lines.append(line)
    return lines


@of("seyfert.fisher.fisher_utils.vecClArray")
def r_vecClArray(c_lij_arr):
    return np.stack([lt.vec(c_lij_arr[ell_idx]) for ell_idx in range(c_lij_arr.shape[0])])


@of("seyfert.fisher.fisher_utils.vecpClArray")
def r_vecpClArray(c_lij_arr):
    return np.stack([lt.vecp(c_lij_arr[ell_idx]) for ell_idx in range(c_lij_arr.shape[0])])

