"""Reference definitions for bin.create_h5density."""
from bin.create_h5density import main
from bin.create_h5density import program_options
from pathlib import Path
from seyfert import PROBES_LONG_NAMES
from seyfert.cosmology.redshift_density import RedshiftDensity
import argparse
import numpy as np

default_instrument_responses = {'phz': {'f_out': 0.1, 'z_o': 0.1, 'z_b': 0.0, 'sigma_o': 0.05, 'sigma_b': 0.05, 'c_o': 1.0, 'c_b': 1.0}, 'spz': {'f_out': 0.0, 'z_o': 0.1, 'z_b': 0.0, 'sigma_o': 0.05, 'sigma_b': 0.001, 'c_o': 1.0, 'c_b': 1.0}}

constants("bin.create_h5density", 'default_instrument_responses')


@of("bin.create_h5density.program_options")
def r_program_options():
    parser = argparse.ArgumentParser()
    parser.add_argument('probe', type=str, help=f'Name of the probe associated to the density. Viable options are: {', '.join(PROBES_LONG_NAMES)}')
    parser.add_argument('--instrument_response', '-ir', type=str, required=True, help='String representing the instrument response. Viable values are: phz, spz')
    parser.add_argument('--has_niz', '-niz', action='store_true', help='Flag indicating if the density has n_i(z) already')
    parser.add_argument('--density_file', '-df', type=Path, required=True, help='Path to *.npz archive file containing three arrays. The first two must always be "z" and "z_bin_edges", the third can be "dndzdomega_invsterad" if --has_niz is false, "niz" if it is true. ATTENTION: dndzdomega must be in INVERSE STERADIANS, so make sure to convert it. To know how to create an *.npz archive file with these keys see https://numpy.org/doc/stable/reference/generated/numpy.savez_compressed.html')
    parser.add_argument('--catalog_sky_fraction', '-f_sky', required=True, help='Sky fraction of the catalog which the density has to be referred to.')
    parser.add_argument('--outfile', '-o', type=Path, required=False, help='Path to the output file')
    return parser


@of("bin.create_h5density.main", ret=False)
def r_main(args):
    probe = args.probe
    assert probe in PROBES_LONG_NAMES, f'invalid probe {probe}, must be one of {' '.join(PROBES_LONG_NAMES)}'
    has_niz = args.has_niz
    instr_resp_str = args.instrument_response
    dens_data = np.load(args.density_file)
    f_sky = args.catalog_sky_fraction
    try:
        f_sky = float(f_sky)
    except ValueError:
        f_sky = eval(f_sky)
    outfile = args.outfile
    if outfile is None:
        outfile = f'{probe}_density.h5'
    for key, value in vars(args).items():
        pass
    d = RedshiftDensity(probe=probe)
    d.input_z_domain = dens_data['z']
    d.z_bin_edges = dens_data['z_bin_edges']
    d.has_niz_from_input = has_niz
    d.catalog_f_sky = f_sky
    if has_niz:
        d.input_n_iz = dens_data['niz']
    else:
        d.input_dN_dz_dOmega = dens_data['dndzdomega_invsterad']
        d.instrument_response = default_instrument_responses[instr_resp_str]
    d.saveToHDF5(outfile)


@of("bin.create_h5density.__main__", ret=False)
def r_main():
    default_instrument_responses = {'phz': {'f_out': 0.1, 'z_o': 0.1, 'z_b': 0.0, 'sigma_o': 0.05, 'sigma_b': 0.05, 'c_o': 1.0, 'c_b': 1.0}, 'spz': {'f_out': 0.0, 'z_o': 0.1, 'z_b': 0.0, 'sigma_o': 0.05, 'sigma_b': 0.001, 'c_o': 1.0, 'c_b': 1.0}}
    main(program_options().parse_args())

