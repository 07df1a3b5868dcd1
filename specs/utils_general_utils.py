"""Reference definitions for seyfert.utils.general_utils."""
from seyfert import PROBE_LONG_TO_ALIAS
from seyfert.utils.formatters import str_to_bool
from seyfert.utils.general_utils import _log_script_separator
from seyfert.utils.general_utils import configure_logger
from seyfert.utils.general_utils import convert_keyval_params_type
from seyfert.utils.general_utils import get_probes_combination_key
from seyfert.utils.general_utils import get_probes_from_comb_key
from seyfert.utils.general_utils import map_nested_dict
import configparser
import datetime
import getpass
import logging
import numpy as np
import os
import platform
import re
import socket
import subprocess
import sys

logger = logging.getLogger(__name__)
_probe_short_to_long = {'wl': 'Lensing', 'v': 'Void', 'gcph': 'PhotometricGalaxy', 'gcsp': 'SpectroscopicGalaxy'}
_probe_long_to_short = {v: k for k, v in _probe_short_to_long.items()}
_probe_fullnames_to_aliases = PROBE_LONG_TO_ALIAS.copy()
_probe_aliases_to_fullnames = {value: key for key, value in _probe_fullnames_to_aliases.items()}
scenarios_dict = {'optm': 'optimistic', 'optimistic': 'optimistic', 'pess': 'pessimistic', 'pessimistic': 'pessimistic'}

constants("seyfert.utils.general_utils", '_probe_short_to_long', '_probe_long_to_short', '_probe_fullnames_to_aliases', '_probe_aliases_to_fullnames', 'scenarios_dict')


@of("seyfert.utils.general_utils.probe_alias_to_fullname")
def r_probe_alias_to_fullname(prb_alias):
    return _probe_aliases_to_fullnames[prb_alias]


@of("seyfert.utils.general_utils.probe_fullname_to_alias")
def r_probe_fullname_to_alias(prb_fullname):
    return _probe_fullnames_to_aliases[prb_fullname]


@of("seyfert.utils.general_utils.convert_keyval_params_type")
def r_convert_keyval_params_type(params):
    bool_regex = re.compile('^([Tt]rue|[Ff]alse)$')
    int_regex = re.compile('^[0-9]+$')
    for key, value in params.items():
        if isinstance(value, str):
            bool_match = bool_regex.match(value)
            int_match = int_regex.match(value)
            if bool_match:
                params[key] = str_to_bool(value)
            elif int_match:
                params[key] = int(value)
    return params


@of("seyfert.utils.general_utils.get_defaults_from_inifile")
def r_get_defaults_from_inifile(inifile):
    config = configparser.ConfigParser()
    config.read(inifile)
    defaults = convert_keyval_params_type(dict(config['defaults']))
    return defaults


@of("seyfert.utils.general_utils.configure_logger", ret=False)
def r_configure_logger(logger, logfile=None):
    log_fmt = '%(asctime)s.%(msecs)03d-%(name)s-%(levelname)s: %(message)s'
    log_formatter = logging.Formatter(log_fmt, datefmt='%Y-%m-%dT%H:%M:%S')
    stdout_handler = logging.StreamHandler(sys.stdout)
    stdout_handler.setLevel(logging.INFO)
    stdout_handler.setFormatter(log_formatter)
    if logfile is not None:
        fh = logging.FileHandler(logfile, mode='w')
        fh.setLevel(logging.INFO)
        fh.setFormatter(log_formatter)


@of("seyfert.utils.general_utils._log_script_separator", ret=False)
def r_log_script_separator(script_name, main_logger, what):
    sep = '#' * 80
    main_logger.info(f'{sep}')
    main_logger.info(f'#')
    main_logger.info(f'# {what} {script_name} main method')
    main_logger.info(f'# username: {getpass.getuser()}')
    main_logger.info(f'# hostname: {socket.gethostname()}')
    main_logger.info(f'# system info:')
    for key, value in platform.uname()._asdict().items():
        main_logger.info(f'# - {key}: {value}')
    main_logger.info(f'# python version: {platform.python_version()}')
    main_logger.info(f'#')
    main_logger.info(f'{sep}')


@of("seyfert.utils.general_utils.print_script_login", ret=False)
def r_print_script_login(script_name, main_logger):
    _log_script_separator(script_name, main_logger, what='ENTERING')


@of("seyfert.utils.general_utils.print_script_logout", ret=False)
def r_print_script_logout(script_name, main_logger):
    _log_script_separator(script_name, main_logger, what='FINALIZING')


@of("seyfert.utils.general_utils.getMainLogger")
def r_getMainLogger(logfile=None):
    lgr = logging.getLogger()
    configure_logger(lgr, logfile=logfile)
    return lgr


@of("seyfert.utils.general_utils.get_probes_combination_key")
def r_get_probes_combination_key(obs1, obs2):
    return f'{obs1}_{obs2}'


@of("seyfert.utils.general_utils.get_probes_from_comb_key")
def r_get_probes_from_comb_key(obs_comb_key):
    return obs_comb_key.split('_')


@of("seyfert.utils.general_utils.reverse_probes_comb_key")
def r_reverse_probes_comb_key(obs_comb_key):
    p1, p2 = get_probes_from_comb_key(obs_comb_key)
    return get_probes_combination_key(p2, p1)


@of("seyfert.utils.general_utils.get_probe_comb_from_shortcut")
def r_get_probe_comb_from_shortcut(short_p1, short_p2):
    try:
        full_p1 = _probe_short_to_long[short_p1]
        full_p2 = _probe_short_to_long[short_p2]
    except KeyError:
        raise KeyError()
    return get_probes_combination_key(full_p1, full_p2)


@of("seyfert.utils.general_utils.compare_objects")
def r_compare_objects(obj1, obj2, exclude_attrs):
    conds = []
    for key in obj1.__dict__:
        if key not in exclude_attrs:
            try:
                value1 = getattr(obj1, key)
                value2 = getattr(obj2, key)
            except AttributeError:
                raise AttributeError()
            if isinstance(value1, np.ndarray) or isinstance(value2, np.ndarray):
                cond = np.all(value1 == value2)
            else:
                cond = value1 == value2
            conds.append(cond)
    result = all(conds)
    if not result:
        cond_dict = {key: cond for key, cond in zip(obj1.__dict__, conds)}
        for key, cond in cond_dict.items():
            if not cond:
                pass
    return result


@of("seyfert.utils.general_utils.map_nested_dict")
def r_map_nested_dict(dct, func):
    if isinstance(dct, dict):
        return {k: map_nested_dict(v, func) for k, v in dct.items()}
    else:
        return func(dct)


@of("seyfert.utils.general_utils.get_execution_host")
def r_get_execution_host():
    host = os.getenv('HOSTNAME')
    pltfrm = sys.platform
    if host is None:
        if pltfrm == 'linux':
            proc = subprocess.run('hostname -I', shell=True, stdout=subprocess.PIPE)
            ip_addresses = set(proc.stdout.decode('utf-8').strip().split()) - {'127.0.0.1'}
            host = ' '.join(ip_addresses)
        elif pltfrm == 'darwin':
            proc = subprocess.run('hostname', shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            host = proc.stdout.decode('utf-8').strip()
        else:
            pass
    return [host, pltfrm]


@of("seyfert.utils.general_utils.split_run_id")
def r_split_run_id(run_id):
    regex = re.compile('^(.*)_(\\d\\.\\d\\.\\d(?:dev)?)_(\\d{4}-\\d{2}-\\d{2}T\\d{2}-\\d{2}-\\d{2})$')
    match = regex.match(run_id)
    if not match:
        run_name = run_id
        version = None
        timestamp = None
    else:
        run_name, version, timestamp = match.groups()
        timestamp = datetime.datetime.strptime(timestamp, '%Y-%m-%dT%H-%M-%S')
    return (run_name, version, timestamp)


@of("seyfert.utils.general_utils.replace_fullnames_with_aliases")
def r_replace_fullnames_with_aliases(s):
    result = s
    for name, alias in _probe_fullnames_to_aliases.items():
        result = result.replace(name, alias)
    return result


@of("seyfert.utils.general_utils.subset_dict")
def r_subset_dict(d, subset_keys):
    return {key: value for key, value in d.items() if key in subset_keys}


@of("seyfert.utils.general_utils.multiple_regex_replace")
def r_multiple_regex_replace(s, sub_dict):
    regex = re.compile('(%s)' % '|'.join(map(re.escape, sub_dict.keys())))
    return regex.sub(lambda match: sub_dict[match.string[match.start():match.end()]], s)


@of("seyfert.utils.general_utils.get_scenario_string")
def r_get_scenario_string(s):
    return scenarios_dict[s]

