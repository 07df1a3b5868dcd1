"""Reference definitions for seyfert.main.orchestration."""
from pathlib import Path
from seyfert.main.orchestration import build_seyfert_cmd
from seyfert.main.orchestration import do_new_seyfert_run
from seyfert.main.orchestration import run_seyfert_on_existing_rundir
from seyfert.main.orchestration import sort_forecast_config_files
from seyfert.main.orchestration import update_key_val_args_from_cli_args
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils import general_utils as gu
from seyfert.utils.workspace import WorkSpace
import json
import logging
import re
import shutil
import subprocess
import time

logger = logging.getLogger(__name__)


@of("seyfert.main.orchestration.create_config_dir_tree", ret=False)
def r_create_config_dir_tree(workdir, args):
    cfg_dir = Path(workdir) / 'config'
    cfg_dir.mkdir(exist_ok=True)
    config_files = {'fcfg': None, 'pmm_cfg': args.powerspectrum_config, 'cl_cfg': args.angular_config, 'der_cfg': args.derivative_config, 'fish_cfg': args.fisher_config, 'res_cfg': args.results_config}
    for name, cfg_file in config_files.items():
        subdir = cfg_dir / name
        subdir.mkdir(exist_ok=True)
        if cfg_file is not None:
            shutil.copy(cfg_file, subdir / cfg_file.name)
    ext_dirs = {'pmm_dir': None, 'cl_dir': None, 'der_dir': None}
    with open(cfg_dir / 'external_dirs.json', mode='w') as jsf:
        json.dump(ext_dirs, jsf, indent=2)


@of("seyfert.main.orchestration.get_configs")
def r_get_configs(cfg_dir):
    configs = {}
    for subdir in filter(lambda x: x.is_dir(), Path(cfg_dir).iterdir()):
        name = subdir.name
        content = list(subdir.iterdir())
        if name == 'fcfg':
            configs['fcfg'] = list(subdir.glob('*.json'))
        elif name == 'fish_cfg' or name == 'cl_cfg':
            configs[name] = list(subdir.glob('*.json'))
        else:
            configs[name] = content[0]
    with open(cfg_dir / 'external_dirs.json', mode='r') as jsf:
        configs['ext_dirs'] = json.load(jsf)
    return configs


@of("seyfert.main.orchestration.get_pmm_dirs")
def r_get_pmm_dirs(args):
    if args.angular:
        pmms = args.powerspectra
        if pmms is None:
            raise ValueError()
        if not pmms.exists():
            raise FileNotFoundError()
        if pmms.is_dir():
            pmm_dirs = [pmms]
        elif pmms.is_file():
            if not pmms.name.endswith('txt'):
                raise Exception()
            pmm_dirs = [Path(line) for line in pmms.read_text().splitlines()]
            for pmm_dir in pmm_dirs:
                if not pmm_dir.exists():
                    raise FileNotFoundError()
        else:
            raise Exception()
    else:
        pmm_dirs = [None]
    return pmm_dirs


@of("seyfert.main.orchestration.sort_forecast_config_files", ret=False)
def r_sort_forecast_config_files(files):
    regex = re.compile('([0-9]+)_sp_bins')
    if all([regex.search(f.name) for f in files]):
        files.sort(key=lambda p: int(regex.search(p.name).groups()[0]))


@of("seyfert.main.orchestration.do_multiple_new_seyfert_runs")
def r_do_multiple_new_seyfert_runs(pmm_dirs, configs, args):
    t0 = time.time()
    fcfgs = configs['fcfg']
    fish_cfgs = configs['fish_cfg']
    cl_cfgs = configs['cl_cfg']
    if not isinstance(pmm_dirs, list):
        raise TypeError()
    n_fcfgs = len(fcfgs)
    n_pmms = len(pmm_dirs)
    n_fish_cfgs = len(fish_cfgs)
    n_cl_cfgs = len(cl_cfgs)
    if n_fcfgs == 0:
        raise Exception()
    if n_pmms == 0 and args.angular:
        raise Exception()
    if n_fish_cfgs == 0:
        raise Exception()
    if n_cl_cfgs == 0:
        raise Exception()
    use_fisher_as_id = n_fish_cfgs > 1
    use_angular_as_id = n_cl_cfgs > 1
    sort_forecast_config_files(fcfgs)
    for i, fcfg_file in enumerate(fcfgs):
        pass
    run_ids = []
    idx_main = 1
    n_runs = n_pmms * n_fcfgs * n_fish_cfgs * n_cl_cfgs
    for idx_fcfg, fcfg in enumerate(fcfgs):
        for idx_fish, fish_cfg in enumerate(fish_cfgs):
            for idx_cl, cl_cfg in enumerate(cl_cfgs):
                for idx_pmm, pmm_dir in enumerate(pmm_dirs):
                    keyval_args = {'fcfg': fcfg, 'cl_cfg': cl_cfg, 'fish_cfg': fish_cfg}
                    update_key_val_args_from_cli_args(args, keyval_args)
                    if pmm_dir is not None:
                        keyval_args['pmm_dir'] = pmm_dir
                    keyval_args.update({key: configs[key] for key in ['pmm_cfg', 'der_cfg', 'res_cfg']})
                    keyval_args.update({dir_key: dir_path for dir_key, dir_path in configs['ext_dirs'].items() if dir_path is not None})
                    run_id = do_new_seyfert_run(args=args, keyval_args=keyval_args, use_fisher_as_id=use_fisher_as_id, use_angular_as_id=use_angular_as_id)
                    run_ids.append(run_id)
                    idx_main += 1
    tf = time.time()
    return run_ids


@of("seyfert.main.orchestration.do_new_seyfert_run")
def r_do_new_seyfert_run(args, keyval_args, use_fisher_as_id=True, use_angular_as_id=True):
    input_data_dir = fsu.default_seyfert_input_data_dir()
    fcfg = Path(keyval_args['fcfg'])
    fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
    run_id = f'{fcfg_id}'
    if use_fisher_as_id:
        fish_id = Path(keyval_args['fish_cfg']).stem
        run_id += f'_{fish_id}'
    if use_angular_as_id:
        cl_id = Path(keyval_args['cl_cfg']).stem
        run_id += f'_{cl_id}'
    if 'pmm_dir' in keyval_args:
        pmm_dir = Path(keyval_args['pmm_dir'])
        pmm_dirname = pmm_dir.parent.name if pmm_dir.name == 'PowerSpectrum' else pmm_dir.name
        pmm_id, _, _ = gu.split_run_id(pmm_dirname)
        run_id += f'_{pmm_id}'
    keyval_args['id'] = run_id
    keyval_args['i'] = input_data_dir
    cmd = build_seyfert_cmd(args, keyval_args)
    execution = keyval_args['ex']
    if execution == 'no':
        pass
    else:
        child_proc = subprocess.run(cmd, shell=True, stderr=subprocess.PIPE)
        if child_proc.stderr:
            pass
    return run_id


@of("seyfert.main.orchestration.build_seyfert_cmd")
def r_build_seyfert_cmd(args, keyval_args):
    kwargs_str = ' '.join([f'-{key} {value}' for key, value in keyval_args.items()])
    add_flags_str = ' '.join([f'--{flag}' for flag in args.additional_flags])
    task_flags_str = ' '.join([f'--{task_flag_key}' for task_flag_key in ['angular', 'derivative', 'fisher'] if getattr(args, task_flag_key)])
    return f'job_submitter {task_flags_str} {kwargs_str} {add_flags_str}'


@of("seyfert.main.orchestration.do_multiple_seyfert_runs_on_existing_rundirs", ret=False)
def r_do_multiple_seyfert_runs_on_existing_rundirs(args, input_rundirs):
    for rundir in input_rundirs:
        run_seyfert_on_existing_rundir(args, rundir)


@of("seyfert.main.orchestration.run_seyfert_on_existing_rundir", ret=False)
def r_run_seyfert_on_existing_rundir(args, rundir):
    ws = WorkSpace(rundir)
    input_files = ws.theInputFilesDict()
    keyval_args = {'rd': ws.run_dir, 'i': fsu.default_seyfert_input_data_dir(), 'fcfg': ws.run_dir / input_files['forecast'], 'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'], 'cl_cfg': ws.run_dir / input_files['Angular'], 'der_cfg': ws.run_dir / input_files['Derivative'], 'fish_cfg': ws.run_dir / input_files['Fisher']}
    update_key_val_args_from_cli_args(args, keyval_args)
    cmd = build_seyfert_cmd(args, keyval_args)
    subprocess.run(cmd, shell=True)


@of("seyfert.main.orchestration.update_key_val_args_from_cli_args", ret=False)
def r_update_key_val_args_from_cli_args(args, keyval_args):
    keyval_args.update({'ex': args.execution, 'q': args.queue, 'ncj': args.n_cores_per_job, 'mem': args.memory})
    if args.ini_file is not None:
        keyval_args['ini'] = args.ini_file


@of("seyfert.main.orchestration.collect_rundirs")
def r_collect_rundirs(workdir, run_ids):
    rundirs = []
    for x in workdir.iterdir():
        if x.is_dir():
            if any((x.name.startswith(run_id) for run_id in run_ids)):
                rundirs.append(x)
    return rundirs

