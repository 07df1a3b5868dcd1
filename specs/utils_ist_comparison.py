"""Reference definitions for seyfert.utils.ist_comparison."""
from functools import partial
from pathlib import Path
from seyfert.file_io import ext_input
from seyfert.utils.ist_comparison import T1
from seyfert.utils.ist_comparison import T2
from seyfert.utils.ist_comparison import get_params_bases
from seyfert.utils.tex_utils import TeXTranslator
from sympy import symbols, Matrix
import copy
import json
import numpy as np
import pandas as pd
import re

translator = TeXTranslator()

constants("seyfert.utils.ist_comparison", 'translator')


@of("seyfert.utils.ist_comparison.read_ISTGCphFishers")
def r_read_ISTGCphFishers(direc, flat, scenario):
    if not isinstance(direc, (str, Path)):
        raise TypeError()
    if not isinstance(flat, bool):
        raise TypeError()
    if scenario not in {'optimistic', 'pessimistic'}:
        raise ValueError()
    direc = Path(direc)
    curv_dirname = 'Flat' if flat else 'NonFlat'
    subdir = Path(direc) / curv_dirname / scenario
    if not subdir.exists():
        raise FileNotFoundError()
    with open(direc / 'legend.json', mode='r') as jsf:
        legend = json.load(jsf)
    regex = re.compile('^fisher_matrices_results_baseline_GR_(?P<code_key>[A-Z]{2}).*\\.txt$')
    files = {}
    for f in subdir.glob('*.txt'):
        match = regex.match(f.name)
        if not match:
            raise Exception()
        code_key = match.group('code_key')
        try:
            code_name = legend[code_key]
            files[code_name] = f
        except KeyError:
            raise KeyError()
    reader = ext_input.ISTInputReader()
    fishers = {code: reader.readISTFisherMatrixFile(file)[1] for code, file in files.items()}
    return fishers


@of("seyfert.utils.ist_comparison.compute_errs")
def r_compute_errs(fishers):
    funcs = {'marg': lambda x: np.sqrt(np.diag(np.linalg.inv(x))), 'unmarg': lambda x: 1 / np.sqrt(np.diag(x))}
    errs = {}
    for kind in funcs:
        errs[kind] = pd.DataFrame({key: pd.Series(funcs[kind](fisher), index=fisher.index) for key, fisher in fishers.items()}).T
        errs[kind].index.names = ['code']
        errs[kind].columns.names = ['cosmo_par']
    return pd.concat(errs, names=['kind'])


@of("seyfert.utils.ist_comparison.compute_deltas_errs")
def r_compute_deltas_errs(errs):
    deltas = {}
    ref_funcs = {'mean': partial(np.mean, axis=0), 'median': partial(np.median, axis=0)}
    for ref_name, ref_func in ref_funcs.items():
        deltas[ref_name] = {}
        for err_kind in ['marg', 'unmarg']:
            err_kind_data = errs.loc[err_kind]
            ref = pd.Series(ref_func(err_kind_data), index=err_kind_data.columns)
            deltas[ref_name][err_kind] = 100 * (err_kind_data - ref) / ref
    return pd.concat({ref: pd.concat(deltas[ref], names=['kind']) for ref in deltas}, names=['ref'])


@of("seyfert.utils.ist_comparison.get_params_bases")
def r_get_params_bases(f, fiducials):
    theta = dict(zip(f.index, symbols([translator.PhysParNameToTeX(name) for name in f.index])))
    fid_theta = {theta[name]: fiducials[name] for name in theta}
    thetap = {}
    for name, sym in theta.items():
        if name.startswith('bg'):
            thetap[f'{name}_sigma8'] = sym * theta['sigma8']
        else:
            thetap[name] = sym
    thetapp = copy.deepcopy(thetap)
    del thetapp['sigma8']
    thetaf = {name: sym for name, sym in theta.items() if not name.startswith('bg')}
    return (theta, thetap, thetapp, thetaf, fid_theta)


@of("seyfert.utils.ist_comparison.T1")
def r_T1(f, theta, thetap, fid_theta):
    J1 = Matrix([[tp.diff(t) for t in theta.values()] for tp in thetap.values()]).inv()
    numJ1 = np.array(J1.subs(fid_theta)).astype(np.float64)
    F1 = pd.DataFrame(numJ1.T @ f.to_numpy() @ numJ1, index=thetap.keys(), columns=thetap.keys())
    return F1


@of("seyfert.utils.ist_comparison.T2")
def r_T2(f, thetapp, thetaf, fid_theta):
    J2 = Matrix([[tp.diff(tf) for tf in thetaf.values()] for tp in thetapp.values()])
    numJ2 = np.array(J2.subs(fid_theta)).astype(np.float64)
    F2 = pd.DataFrame(numJ2.T @ f.to_numpy() @ numJ2, index=thetaf.keys(), columns=thetaf.keys())
    return F2


@of("seyfert.utils.ist_comparison.apply_T1_remove_sigma8_then_T2")
def r_apply_T1_remove_sigma8_then_T2(f, fiducials):
    theta, thetap, thetapp, thetaf, fid_theta = get_params_bases(f, fiducials)
    F1 = T1(f, theta, thetap, fid_theta)
    F1 = F1.drop('sigma8', axis=0).drop('sigma8', axis=1)
    F2 = T2(F1, thetapp, thetaf, fid_theta)
    return F2


@of("seyfert.utils.ist_comparison.apply_T1_remove_sigma8")
def r_apply_T1_remove_sigma8(f, fiducials):
    theta, thetap, _, _, fid_theta = get_params_bases(f, fiducials)
    F1 = T1(f, theta, thetap, fid_theta)
    F1 = F1.drop('sigma8', axis=0).drop('sigma8', axis=1)
    return F1

