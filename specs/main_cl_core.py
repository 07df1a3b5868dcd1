"""Reference definitions for seyfert.main.cl_core."""
from seyfert.cosmology.c_ells import AngularCoefficientsCollector
from seyfert.cosmology.cosmology import Cosmology
from seyfert.cosmology.redshift_density import RedshiftDensity
from seyfert.fisher.delta_cl import DeltaClCollection
from seyfert.main.cl_core import compute_cls
from seyfert.main.cl_core import load_cosmology
from timeit import default_timer as timer
import logging

logger = logging.getLogger(__name__)


@of("seyfert.main.cl_core.load_cosmology")
def r_load_cosmology(ws, dvar, step, phys_pars):
    if dvar != 'central' and phys_pars[dvar].is_cosmological:
        file = ws.getPowerSpectrumFile(dvar=dvar, step=step)
    else:
        file = ws.getPowerSpectrumFile(dvar='central', step=0)
    cosmo = Cosmology.fromHDF5(file)
    if cosmo.params != phys_pars.cosmological_parameters:
        for par_name, param in cosmo.params.items():
            if par_name == 'gamma':
                continue
            if param != phys_pars[par_name]:
                pass
    return cosmo


@of("seyfert.main.cl_core.compute_densities")
def r_compute_densities(probe_configs, z_grid):
    densities = {}
    for probe, cfg in probe_configs.items():
        d = RedshiftDensity.fromHDF5(cfg.density_init_file)
        d.setUp()
        d.evaluate(z_grid)
        d.evaluateSurfaceDensity()
        densities[probe] = d
    return densities


@of("seyfert.main.cl_core.compute_cls")
def r_compute_cls(cosmology, phys_pars, densities, forecast_config, angular_config, pmm_cfg=None, fiducial_cosmology=None, compute_pmm=False):
    cosmology.evaluateOverRedshiftGrid()
    if compute_pmm:
        cosmology.evaluatePowerSpectrum(workdir='.', power_spectrum_config=pmm_cfg)
    if fiducial_cosmology is not None:
        fiducial_cosmology.evaluateOverRedshiftGrid()
    cl_collector = AngularCoefficientsCollector(phys_params=phys_pars, cosmology=cosmology, fiducial_cosmology=fiducial_cosmology, forecast_config=forecast_config, angular_config=angular_config)
    cl_collector.setUp(densities=densities)
    t0 = timer()
    cl_collector.evaluateAngularCoefficients()
    return cl_collector


@of("seyfert.main.cl_core.compute_cls_variations")
def r_compute_cls_variations(dvar, fid_cls, ws, phys_pars, densities, forecast_config, angular_config, pmm_cfg=None, compute_pmm=False, fiducial_cosmology=None):
    cl_coll_variations = {0: fid_cls}
    for step in phys_pars.stem_steps:
        phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
        if not compute_pmm:
            cosmology = load_cosmology(ws, dvar, step, phys_pars)
        else:
            cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat, model_name='CPL', z_grid=pmm_cfg.z_grid)
            cosmology.evaluatePowerSpectrum(workdir='.', power_spectrum_config=pmm_cfg)
            cosmology.evaluateOverRedshiftGrid()
        cl_coll_varied = compute_cls(cosmology, phys_pars, densities, forecast_config, angular_config, fiducial_cosmology=fiducial_cosmology, pmm_cfg=pmm_cfg, compute_pmm=compute_pmm)
        cl_coll_variations[step] = cl_coll_varied
        phys_pars.resetPhysicalParametersToFiducial()
    return cl_coll_variations


@of("seyfert.main.cl_core.compute_delta_cls")
def r_compute_delta_cls(ws, forecast_config=None):
    fisher_cfg = ws.getTaskJSONConfiguration('Fisher')
    fcfg = forecast_config if forecast_config is not None else ws.getForecastConfiguration()
    delta_cls = DeltaClCollection(fcfg=fcfg, fisher_cfg=fisher_cfg)
    delta_cls.loadInpuDataFromWorkspace(ws)
    if fcfg.shot_noise_file is not None:
        delta_cls.loadShotNoiseFromFile(fcfg.shot_noise_file)
    delta_cls.evaluateSingleBlocks()
    delta_cls.buildXCBlocks()
    return delta_cls

