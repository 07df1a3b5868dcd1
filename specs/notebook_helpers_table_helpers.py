"""Reference definitions for seyfert.notebook_helpers.table_helpers."""
from pathlib import Path
from seyfert.notebook_helpers.table_helpers import compute_percentage_difference
from seyfert.notebook_helpers.table_helpers import compute_simple_difference
from seyfert.notebook_helpers.table_helpers import default_query_dict
from seyfert.notebook_helpers.table_helpers import get_subdf_for_fishers
from seyfert.notebook_helpers.table_helpers import query_dict
from seyfert.notebook_helpers.table_helpers import remove_constant_columns_from_df
from seyfert.notebook_helpers.table_helpers import replace_hybrid_fishers_with_4_bins_equivalents
from seyfert.notebook_helpers.table_helpers import set_results_indices
from seyfert.numeric import general as nug
from seyfert.utils.tex_utils import TeXTranslator
import logging
import pandas as pd

logger = logging.getLogger(__name__)
transl = TeXTranslator()

constants("seyfert.notebook_helpers.table_helpers", 'transl')


@of("seyfert.notebook_helpers.table_helpers.drop_not_numeric_columns")
def r_drop_not_numeric_columns(df):
    to_drop = [col for col in df.columns if not any((df[col].dtype == num_type for num_type in {int, float}))]
    return df.drop(to_drop, axis=1)


@of("seyfert.notebook_helpers.table_helpers.get_subdf_for_fishers")
def r_get_subdf_for_fishers(df, ordered_names, sort_by=None, reset_index=False):
    work_df = df.reset_index() if reset_index else df.copy()
    missing = set(ordered_names) - set(work_df['fisher'])
    if missing:
        raise KeyError()
    common = set(work_df['fisher']).intersection(set(ordered_names))
    result = work_df[work_df['fisher'].isin(common)]
    fisher_col = pd.Categorical(result['fisher'], categories=ordered_names, ordered=True)
    del result['fisher']
    result.insert(0, 'fisher', fisher_col)
    if sort_by is not None:
        result = result.sort_values(sort_by)
    return result


@of("seyfert.notebook_helpers.table_helpers.write_latex_table")
def r_write_latex_table(df, filepath=None, ret_text=True, **kwargs):
    default_formatters = {key: lambda x: '%.4f' % x for key in df.columns}
    default_formatters.update({'FoM': lambda x: '%.2f' % x, 'Delta FoM': lambda x: f'{x:.2f}' if x < 0 else f'+{x:.2f}', 'Delta FoM (%)': lambda x: f'{x:.2f}%' if x < 0 else f'+{x:.2f}%'})
    if isinstance(df.index, pd.MultiIndex):
        default_column_format = '*{%s}{L}*{%s}{C}' % (len(df.index.levels), len(df.columns))
    else:
        default_column_format = '*{%s}{C}' % len(df.columns)
    kwds = {'formatters': default_formatters, 'column_format': default_column_format, 'multirow': True, 'caption': 'Caption', 'label': 'tab:ch4_table'}
    kwds.update(kwargs)
    raw_latex_text = df.to_latex(**kwds)
    transl_latex_text = transl.transformRawTeXTable(raw_latex_text, use_aliases=True)
    if filepath is not None:
        Path(filepath).write_text(transl_latex_text)
    retval = transl_latex_text if ret_text else None
    return retval


@of("seyfert.notebook_helpers.table_helpers.get_latex_row")
def r_get_latex_row(row, float_fmt='%.4f', ref_fom=None):
    latex_row = ''
    try:
        latex_row += f'{row.loc['nbins']} & '
    except KeyError:
        pass
    latex_row += f'{row.loc['fisher']} & '
    latex_row += '%.2f & ' % row.loc['FoM']
    if ref_fom is not None:
        delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
        str_delta_fom = '+%.2f\\%%' % delta_fom if delta_fom > 0 else '%.2f\\%%' % delta_fom
        latex_row += f'{str_delta_fom} & '
    else:
        latex_row += '-- & '
    latex_row += ' & '.join([f'{float_fmt}' % el for el in row[3:]])
    latex_row += ' \\\\'
    latex_row = transl.translateToTeX(latex_row)
    return latex_row


@of("seyfert.notebook_helpers.table_helpers.write_excel_table", ret=False)
def r_write_excel_table(df, outfile, overwrite=False, **kwargs):
    kwds = {'index': True, 'merge_cells': False}
    kwds.update(kwargs)
    outfile = Path(outfile)
    if outfile.exists() and (not overwrite):
        raise FileExistsError()
    sheet_name = outfile.stem
    with pd.ExcelWriter(outfile) as writer:
        df.to_excel(writer, sheet_name=sheet_name, **kwds)
        for column in df:
            column_width = max(df[column].astype(str).map(len).max(), len(column))
            col_idx = df.columns.get_loc(column)
            writer.sheets[sheet_name].set_column(col_idx, col_idx, column_width)
        writer.save()


@of("seyfert.notebook_helpers.table_helpers.set_results_indices")
def r_set_results_indices(df, inplace=True, indices=None):
    if indices is None:
        all_indices = ['fisher', 'n_sp_bins', 'scenario', 'shot_noise_sp_reduced', 'gcph_minus_gcsp', 'gcph_only_bins_in_spectro_range']
        indices = [index for index in all_indices if index in df.columns]
    if inplace:
        df.set_index(indices, inplace=True)
        df.sort_index(inplace=True)
        ret_val = None
    else:
        ret_val = df.set_index(indices).sort_index()
    return ret_val


@of("seyfert.notebook_helpers.table_helpers.replace_hybrid_fishers_with_4_bins_equivalents", ret=False)
def r_replace_hybrid_fishers_with_4_bins_equivalents(df):
    set_results_indices(df, inplace=True)
    if df.index.names[0] != 'fisher':
        raise KeyError()
    if df.index.names[1] != 'n_sp_bins':
        raise KeyError()
    for idx, row in df.iterrows():
        fisher, n_sp_bins, *other = idx
        if 'GCsp(Pk)' in fisher and n_sp_bins != 4:
            replacement = df.loc[tuple([fisher, 4, *other])]
            df.loc[idx] = replacement
    df.reset_index(inplace=True)


@of("seyfert.notebook_helpers.table_helpers.load_and_setup_table")
def r_load_and_setup_table(file):
    df = pd.read_excel(file)
    replace_hybrid_fishers_with_4_bins_equivalents(df)
    return df


@of("seyfert.notebook_helpers.table_helpers.default_query_dict")
def r_default_query_dict():
    return {'scenario': 'optimistic', 'shot_noise_sp_reduced': False, 'gcph_minus_gcsp': False, 'gcph_only_bins_in_spectro_range': False}


@of("seyfert.notebook_helpers.table_helpers.query_dict")
def r_query_dict(exclude=None, **kwargs):
    qdict = default_query_dict()
    qdict.update({key: value for key, value in kwargs.items() if key in qdict})
    if exclude is not None:
        for key in exclude:
            if key in qdict:
                del qdict[key]
    return qdict


@of("seyfert.notebook_helpers.table_helpers.remove_constant_columns_from_df")
def r_remove_constant_columns_from_df(df):
    return df.loc[:, (df != df.iloc[0]).any()]


@of("seyfert.notebook_helpers.table_helpers.select_from_query_dict")
def r_select_from_query_dict(df, query_dict, drop_index=False, remove_constant_columns=True):
    unknown_keys = set(query_dict) - set(df.columns)
    if unknown_keys:
        raise KeyError()
    query_pieces = []
    for key, value in query_dict.items():
        if isinstance(value, str):
            value = '"%s"' % value
        query_pieces.append(f'{key} == {value}')
    query_str = ' and '.join(query_pieces)
    sel_df = df.query(query_str)
    if drop_index:
        sel_df = sel_df.reset_index(drop=True)
    if remove_constant_columns:
        if len(sel_df) > 1:
            sel_df = remove_constant_columns_from_df(sel_df)
    return sel_df


@of("seyfert.notebook_helpers.table_helpers.compute_percentage_difference")
def r_compute_percentage_difference(df, ref_fisher, minuend_fisher):
    minuend = df.loc[minuend_fisher]
    reference = df.loc[ref_fisher]
    return nug.percentage_difference(minuend=minuend, ref=reference)


@of("seyfert.notebook_helpers.table_helpers.compute_simple_difference")
def r_compute_simple_difference(df, ref_fisher, minuend_fisher):
    minuend = df.loc[minuend_fisher]
    reference = df.loc[ref_fisher]
    return minuend - reference


@of("seyfert.notebook_helpers.table_helpers.compute_percentage_differences_table")
def r_compute_percentage_differences_table(df, ref_fisher, minuend_fishers=None):
    if minuend_fishers is None:
        if isinstance(df.index, pd.MultiIndex):
            minuend_fishers = df.index.levels[0]
        else:
            raise Exception()
    diff = pd.concat({minuend: compute_percentage_difference(df, ref_fisher=ref_fisher, minuend_fisher=minuend) for minuend in minuend_fishers}, names=['fisher'])
    if isinstance(diff, pd.Series):
        diff = diff.unstack()
    return diff


@of("seyfert.notebook_helpers.table_helpers.compute_simple_differences_table")
def r_compute_simple_differences_table(df, ref_fisher, minuend_fishers=None):
    if minuend_fishers is None:
        if isinstance(df.index, pd.MultiIndex):
            minuend_fishers = df.index.levels[0]
        else:
            raise Exception()
    diff = pd.concat({minuend: compute_simple_difference(df, ref_fisher=ref_fisher, minuend_fisher=minuend) for minuend in minuend_fishers}, names=['fisher'])
    if isinstance(diff, pd.Series):
        diff = diff.unstack()
    return diff


@of("seyfert.notebook_helpers.table_helpers.get_fom_table_for_fishers")
def r_get_fom_table_for_fishers(df, fishers, dfom_map):
    subdf = get_subdf_for_fishers(df, ordered_names=fishers)
    set_results_indices(subdf)
    diffs = {'simple': {}, 'perctg': {}}
    for minuend in subdf.index.get_level_values('fisher'):
        if minuend in dfom_map:
            ref = dfom_map[minuend]
            diffs['simple'][minuend] = compute_simple_difference(subdf, ref_fisher=ref, minuend_fisher=minuend)
            diffs['perctg'][minuend] = compute_percentage_difference(subdf, ref_fisher=ref, minuend_fisher=minuend)
    diffs['simple'] = pd.concat(diffs['simple'])
    diffs['perctg'] = pd.concat(diffs['perctg'])
    subdf.insert(1, 'Delta FoM', diffs['simple']['FoM'])
    subdf.insert(2, 'Delta FoM (%)', diffs['perctg']['FoM'])
    return subdf

