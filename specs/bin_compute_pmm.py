"""Reference definitions for bin.compute_pmm."""
from bin.compute_pmm import main
from bin.compute_pmm import program_options
from pathlib import Path
from seyfert.config import cmd_line
from seyfert.config import main_config as mcfg
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.parameter import PhysicalParametersCollection
import argparse
import logging
import seyfert.utils.filesystem_utils as fsu
import seyfert.utils.general_utils as gu

logger = logging.getLogger()


@of("bin.compute_pmm.program_options")
def r_program_options():
    general_opts = cmd_line.main_program_options()
    parser = argparse.ArgumentParser(parents=[general_opts], description='Script for computing the Power Spectrum')
    parser.add_argument('--main_config', '-mcfg', required=True, help='Path to the main config JSON file')
    return parser


@of("bin.compute_pmm.main", ret=False)
def r_main(args_dict):
    workdir = Path(args_dict['workdir'])
    rundir = Path(args_dict['rundir'])
    power_spectrum_config_file = workdir / args_dict['main_config']
    gu.configure_logger(logger, args_dict['logfile'])
    phys_pars = PhysicalParametersCollection.fromJSON(fsu.get_params_file_from_rundir(rundir))
    power_spectrum_config = mcfg.PowerSpectrumConfig(json_input=power_spectrum_config_file)
    dvar, step = fsu.get_dvar_step_from_cosmology_jobdir_name(workdir.name)
    phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
    cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat, z_grid=power_spectrum_config.z_grid, model_name='CPL')
    cosmology.evaluateOverRedshiftGrid()
    cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
    p_mm_file = workdir / 'p_mm.h5'
    cosmology.saveToHDF5(p_mm_file)


@of("bin.compute_pmm.__main__", ret=False)
def r_main():
    logger = logging.getLogger()
    arguments_dict = vars(program_options().parse_args())
    main(arguments_dict)

