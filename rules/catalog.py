"""The properties: statement, and which reference definitions decide each of them.

P(id, title, statement, over, quantifier, why_tests_cant, spec)
spec: "file:glob,glob; file2:glob" -- globs match the function name inside its module (Class.method).
"""
CATALOG = {}


def P(pid, title, statement, over, quant, why, spec, observe=None):
    CATALOG[pid] = dict(id=pid, title=title, statement=statement, over=over.split(), quant=quant, why=why, spec=spec, observe=observe or [])


# ------------------------------------------------------------------ Fisher pipeline
P("F01", "Fisher elements are multipole sums of derivative / covariance contractions",
  "For every probe combination and every pair of free parameters, the Fisher element is the sum over the common multipoles of "
  "(derivative vector of the first parameter) times (inverse covariance at that multipole) times (derivative vector of the second). "
  "The matrix is symmetric, its rows and columns are labelled by exactly the free parameters of the cosmology and of the probes involved, "
  "and the derivative vector stacks its blocks in the same order and with the same bin enumeration as the covariance.",
  "inputs configurations", "all data vectors, parameter sets, bin counts and multipole grids",
  "Tests compare one stored forecast for a few probe combinations; an index, ordering or labelling error that is invisible for symmetric or single-probe inputs is not sampled.",
  "f01.py; fisher_fisher_evaluator:*; main_fisher_core:*; fisher_fisher_utils:*; fisher_linalg_tools:*; fisher_datavector:*; derivatives_cl_derivative:ClDerivativeCollector.*")

P("F02", "Covariance blocks combine signal and noise of the right probe pairs",
  "The block of the covariance for observables AB and CD is the sum of the two products of total spectra (AC with BD, AD with BC) divided by "
  "(2l+1), the multipole width and the sky fraction, where a total spectrum is the angular spectrum plus shot noise only for equal probes "
  "(or the configured photometric x spectroscopic term). The full matrix is assembled with the observables in data-vector order, is symmetric, and its "
  "inverse is the inverse of that very matrix.",
  "inputs configurations", "all probe pairs, bin counts, multipoles and noise settings",
  "Tests only check a handful of stored blocks; pairing and transposition errors cancel for auto-correlations and equal bin counts.",
  "f02.py; fisher_delta_cl:*; fisher_fisher_evaluator:ClCovarianceMatrix.*; fisher_fisher_utils:*; main_cl_core:compute_delta_cls; bin_compute_delta_cls:*; fisher_linalg_tools:*; cosmology_redshift_density:RedshiftDensity.shot_noise,compute_photo*,get_bins*")

P("F03", "Everything entering a Fisher element lives on the same multipoles",
  "Before spectra, covariances and derivatives of several observables are combined they are all restricted to the multipoles common to the observables involved, "
  "each common multipole being kept exactly once, in increasing order, together with its own width. A mismatch between the multipoles of a derivative and of the covariance is "
  "refused rather than silently combined, and the auto-correlation-only multipole ranges of a wider observable are added separately and exactly once.",
  "inputs configurations", "all multipole grids of the observables, including disjoint, nested and unequal ones",
  "The tests use identical multipole grids for all probes, where masking is the identity.",
  "fisher_fisher_evaluator:*; utils_array_utils:*; fisher_datavector:ClDataVector.getInvolved*,ClDataVector.is_single*,ClDataVector.__init__,ClDataVector.getRaw*; f01.py:*Multipole*; config_forecast_config:ForecastConfig.getMultipole*,ForecastConfig.checkProbes*; config_probe_config:ProbeConfig.getProbeMult*")

P("F04", "Inversion, marginalisation, fixing and priors keep matrix and labels in step",
  "Marginalising over parameters yields the matrix whose inverse is the original inverse without those rows and columns; fixing or selecting parameters removes their rows and columns from the matrix itself; "
  "a Gaussian prior of width s adds 1/s^2 to that parameter's diagonal element only. "
  "After any sequence of these operations rows, columns, and the recorded cosmological and nuisance parameter sets agree, and every quantity derived afterwards describes the current matrix.",
  "inputs histories", "all matrices, parameter subsets and sequences of operations",
  "Tests exercise single operations on a fixed 3x3 or stored matrix, never sequences, nor partial parameter sets.",
  "fisher_fisher_matrix:*; fisher_fisher_utils:invert_dataframe,get_nuis*,get_probes*; cosmology_parameter:PhysicalParametersCollection.*")

P("F05", "Fisher matrix sums and differences align by name and leave operands intact",
  "The sum or difference of two Fisher matrices is taken element by element on parameter names, over the union of their parameters with zeros for parameters an operand lacks, whatever the order of rows in the operands. "
  "Neither operand is modified and the result's parameter sets are the unions of theirs. Equality holds only for matrices with equal contents and equal parameter sets.",
  "inputs histories", "all pairs of matrices with different, overlapping or reordered parameters",
  "The tests add matrices with identical parameter lists; misalignment and aliasing show only for partially overlapping sets or later mutation.",
  "fisher_fisher_matrix:FisherMatrix.*; fisher_fisher_analysis:FisherAnalysis.evaluateFishersFrom*,FisherAnalysis.useBase*,FisherAnalysis.getSubset*; fisher_final_results_core:*")

P("F06", "Errors, figure of merit and correlations derive from the current inverse",
  "A marginalised error is the square root of the parameter's diagonal element of the inverse of the Fisher matrix, an unmarginalised one the inverse square root of the Fisher diagonal; "
  "correlations are covariance elements divided by the product of the two errors; the figure of merit is the inverse square root of the determinant of the 2x2 covariance of the two dark-energy parameters. "
  "Relative errors divide by the absolute fiducial value (a vanishing fiducial leaves the absolute error), and every table keeps each value under its own parameter and Fisher name.",
  "inputs", "all matrices, parameter sets, signs of fiducial values and result tables",
  "Tests check a few stored numbers; sign, zero-fiducial and label permutations are not sampled.",
  "fisher_fisher_matrix:*; fisher_fisher_analysis:*; fisher_fisher_results:*; fisher_results_collector:*; fisher_fisher_utils:invert_dataframe")

P("F07", "A-posteriori combinations and collections use exactly the named Fisher matrices",
  "A Fisher combination built after the fact equals the sum of precisely the addends its name or definition lists, with any external spectroscopic matrix added once when requested. "
  "For every cosmology the nuisance parameters are marginalised (or fixed, when that is asked for) and the combination is restricted to the free cosmological parameters of that model before errors are computed. "
  "Loading, slicing, ordering and collecting analyses keeps each matrix, fiducial and metadata entry with its own run and name.",
  "inputs histories configurations", "all lists of combinations, cosmologies and run directories",
  "This layer is nearly untested and its outcome depends on directory contents, names and call order.",
  "fisher_final_results_core:*; fisher_fisher_analysis:*; fisher_results_collector:*; fisher_fisher_results:*; bin_evaluate_final_results:*; bin_collect_results:*; fisher_fisher_utils:load_a*,get_probes*; notebook_helpers_load_helpers:*; file_io_ext_input:ISTInputReader.readISTFisher*; utils_filesystem_utils:get_ist*")

P("F08", "Probe names, spectrum keys and data vectors translate without loss",
  "A probe or spectrum key denotes the same observable in its long, short, alias and tuple form: translating between forms and back returns the original, reversing a key swaps exactly the two probes, and keys are "
  "equivalent exactly when they denote the same unordered pair. A look-up by any accepted form of a key finds the entry stored under it (transposed only when the reversed key is stored), and an unknown or ambiguous key is refused. "
  "A data vector keeps its entries in order through every string form.",
  "inputs", "all probes, probe pairs, key forms and data vector names",
  "Tests enumerate a few keys; round trips over all pairs, orders and forms, and failures on malformed keys, are not covered.",
  "utils_shortcuts:*; fisher_datavector:*; base_structs_cl_dict:*; base_structs_generic_dict:*; utils_general_utils:probe_*,get_prob*,reverse_*,replace_full*,_*; seyfert_init:*; fisher_fisher_utils:get_probes*,load_sel*,load_a*")

P("F09", "Confidence contours reproduce the two-parameter covariance",
  "The ellipse drawn for two parameters is centred on their fiducial values and has the semi-axes and orientation given by the eigen-decomposition of their 2x2 marginal covariance, scaled by the configured factor of the requested confidence level; "
  "the one-parameter curve is the Gaussian with that parameter's marginal error. "
  "Automatic plot ranges are centred on the fiducial and follow from the errors of the displayed matrices for the configured number of standard deviations, and every panel, colour and legend entry refers to the matrix and parameters it is labelled with.",
  "inputs configurations", "all Fisher matrices, parameter pairs, confidence levels and plot settings",
  "Plotting is only smoke-tested; swapped axes, wrong angle sign or scale factors produce plausible figures.",
  "fisher_fisher_analysis:FisherAnalysis.compute*,FisherAnalysis.getPar*; fisher_fisher_plot:*; notebook_helpers_contours:*")

# ------------------------------------------------------------------ spectra
P("C01", "Angular spectra are Limber integrals of the two weight functions",
  "The angular spectrum of two observables at multipole l and bins i,j is the redshift integral of the product of the two weight functions in bins i and j, the geometric Limber factor and the non-linear matter power spectrum evaluated at wavenumber (l+1/2)/r(z). "
  "Auto-correlations are symmetric in the bins, the first index always belongs to the first probe and the second to the second, and multipoles keep their order.",
  "inputs configurations", "all probes, bins, multipoles, cosmologies and integration settings",
  "Tests compare stored arrays within tolerance for one cosmology; bin transposition and kernel factors common to all multipoles are not excluded for other configurations.",
  "cosmology_c_ells:*; cosmology_kernel_functions:*; numeric_integration:*; numeric_general:*; utils_array_utils:symm*; config_main_config:AngularConfig.*")

P("C02", "Weight functions implement the defined lensing and clustering kernels",
  "The clustering kernel in a bin is bias times normalised galaxy density times Hubble rate in the units used by the spectra, with the bias of that probe and bin; the lensing kernel is the lensing-efficiency term plus the intrinsic-alignment term, each with its own normalisation, "
  "redshift dependence and sign. A kernel is always evaluated from the cosmology, density and nuisance parameters currently attached to it, and each probe gets its own kernel type.",
  "inputs histories", "all cosmologies, redshift grids, bins, bias and alignment parameter values",
  "Only a few stored kernels are compared; parameter dependence away from fiducial values and stale inputs are not.",
  "cosmology_weight_functions:*; cosmology_kernel_functions:*; cosmology_bias:*; numeric_general:*; numeric_integration:*; cosmology_redshift_density:RedshiftDensity.*")

P("C03", "Galaxy bias models return the value of the right bin and parameter",
  "Each bias model evaluates its defining relation on the redshift grid for every bin, using the nuisance parameter that belongs to that bin and no other; piecewise models select the bin whose edges enclose the redshift and keep bins sorted by number. "
  "Changing a bias parameter changes exactly the bias that depends on it, and an unknown model is refused.",
  "inputs configurations", "all bias models, bin counts, redshifts and parameter values",
  "Tests use one bin layout with few bins; ordering by parameter name and bin edges fail only for other layouts.",
  "cosmology_bias:*; cosmology_weight_functions:*setupBias,WeightFunctionWithBias.*; cosmology_parameter:PhysicalParametersCollection.*; config_probe_config:*")

P("C04", "Redshift densities are normalised, convolved and binned consistently",
  "The density of each tomographic bin is normalised to unit integral over the redshift range, the photometric response is convolved with the true distribution over the configured outlier and scatter parameters, and values outside the tabulated range follow the documented extrapolation. "
  "Galaxy surface densities per bin, the catalogue fraction and shot noise are consistent with the same normalisation and units, and stored densities reload unchanged.",
  "inputs configurations", "all tabulated densities, bin edges, instrument responses and redshift grids",
  "Tests compare a few stored curves; normalisation and unit slips cancel in ratios and are not sampled for other bin layouts.",
  "cosmology_redshift_density:*; utils_converters:*; bin_create_h5density:*; main_cl_core:compute_densities; numeric_integration:*; main_seyfert_core:compute_dens*; main_task_runners:ForecastRunner.computeDens*")

P("C05", "Every configured probe pair gets its spectrum, from one consistent cosmology",
  "For the configured probes all auto- and cross-spectra, and only those, are computed, each from the densities, biases, multipoles and cosmology of the run, with cross-spectra on the multipoles their two probes share. "
  "A collection answers a request for either order of a pair with the matching orientation, and spectra computed for a displaced parameter use that parameter's displaced value and only that.",
  "configurations histories", "all probe subsets, run configurations and parameter displacements",
  "Tests run one configuration; missing pairs, stale inputs and shared state between variations show up only elsewhere.",
  "cosmology_c_ells:AngularCoefficientsCollector.*,H5ClCollection.*,AngularCoefficient.setUp,AngularCoefficient.loadCosm*; main_cl_core:*; seyfert_seyfert:*; bin_compute_cls:*; main_seyfert_core:*; config_forecast_config:ForecastConfig.present*,ForecastConfig.getMult*")

P("C06", "Multipole bins have the centres and widths their configuration defines",
  "For every probe the multipole centres and widths follow from the configured range, number and spacing: bins are contiguous, cover the range exactly, and each width is the difference of its own edges. "
  "Intersections and unions of multipole grids keep each value once with the width of the grid it came from, and filling a symmetric array from one triangle leaves that triangle unchanged.",
  "inputs configurations", "all ranges, bin counts and spacings; all pairs of grids",
  "Tests sample one binning; off-by-one edges and width mix-ups appear only for other settings.",
  "utils_array_utils:*; config_probe_config:*; config_forecast_config:ForecastConfig.*Multip*,ForecastConfigEditor.updateMult*; fisher_fisher_evaluator:mask*,ClCovarianceMatrix.mask*")

# ------------------------------------------------------------------ derivatives
P("D01", "Numerical derivatives follow the documented step-fitting method",
  "The derivative of a spectrum with respect to a parameter is the slope of the straight line fitted to the values at the displaced parameter points, where points are discarded symmetrically from the outside until the fitted line reproduces all remaining points within the tolerance; "
  "all implementations of the method give the same answer for the same data. The parameter values used in the fit are those at which the spectra were computed, and the result is placed at its own multipole and bin pair.",
  "inputs", "all sequences of displaced values, tolerances and array shapes",
  "Tests use smooth monotone functions; discarding logic, sign of values and index placement are not exercised.",
  "derivatives_differentiator:*; derivatives_cl_derivative:*; numeric_general:callable*; cosmology_parameter:PhysicalParameter.computeSteM*,PhysicalParametersCollection.computePhys*")

P("D02", "Parameter displacements are relative to the fiducial and are always undone",
  "Displacing a parameter by eps sets it to fiducial*(1+eps), or to eps itself when the fiducial is zero, and leaves every other parameter at its fiducial value except a dark-energy density that must compensate in a flat universe. "
  "After a variation has been processed the parameter is back at its fiducial value, and an unknown parameter or step is refused before anything is changed.",
  "inputs histories", "all parameters, displacement lists and sequences of displacements",
  "Tests displace a few parameters once; leftovers between displacements and refusal paths are not covered.",
  "cosmology_parameter:*; main_cl_core:compute_cls_var*; utils_encoders:*")

P("D03", "Derivatives combine exactly the variations of their own parameter and step",
  "The spectra entering a parameter's derivative are those stored for that parameter at each of its displacement steps plus the fiducial one, sorted by displacement and matched to the displaced parameter values, for every probe pair. "
  "A missing variation is an error, not a shorter sequence; derivatives with respect to spectra amplitudes that are known analytically use the fiducial spectra of the right probe and bin. Every derivative is stored and later found under its own parameter.",
  "configurations histories", "all run directories, parameter names, step counts and probe pairs",
  "Tests use prepared directories with few steps; step sorting, directory matching and missing files are not varied.",
  "derivatives_differentiator:*; derivatives_cl_derivative:*; main_cl_derivative_core:*; utils_workspace:*; utils_filesystem_utils:get_d*,get_cosmo*; bin_compute_derivatives:*; main_task_runners:DerivativeTaskRunner.*; config_main_config:DerivativeConfig.*")

# ------------------------------------------------------------------ cosmology
P("K01", "Background and growth quantities follow the configured cosmology",
  "Hubble rate, comoving distances, density parameters and growth are functions of the parameters currently held, with dark energy following the w0-wa relation and curvature included exactly when the universe is not flat; dimensionful and dimensionless versions differ by the fixed units only. "
  "Evaluating over a redshift grid fills every derived grid from the same parameters, and inconsistent dark-energy or curvature values are refused.",
  "inputs histories", "all parameter values, flat or curved, and redshift grids",
  "Tests use the fiducial flat model; terms that vanish there (curvature, wa, non-zero gamma shifts) are not exercised.",
  "cosmology_cosmology:*; cosmology_power_spectrum:*; numeric_general:*; numeric_integration:*")

P("K02", "Boltzmann codes receive the parameters the run asks for",
  "Each backend is called with the densities, Hubble constant, spectral index, neutrino mass, amplitude and dark-energy parameters translated from the current values with the correct physical conversions, and with the redshifts and wavenumber range configured, independently of call order. "
  "The amplitude is tuned so that sigma8 takes the requested value, returned spectra are given on the requested redshift ordering and units, and a generated ini file contains every updated setting and preserves all others.",
  "inputs configurations", "all cosmological parameter values, redshift grids and backend settings",
  "The backends are not installed for the tests, so most of the translation is never executed.",
  "cosmology_boltzmann_solver:*; cosmology_power_spectrum:*; config_main_config:PowerSpectrumConfig.*; bin_compute_pmm:*; main_task_runners:PowerSpectrumTaskRunner.*")

P("K03", "Power spectra keep their grids, growth and transfer functions together",
  "Linear and non-linear spectra are stored and reloaded on the redshift and wavenumber grids they were computed on, the growth factor is the square-root ratio of the linear spectrum to its present-day value, and interpolation or rescaling uses values of the matching redshift. "
  "A cosmology loaded from a power-spectrum file reports the parameters of that file.",
  "inputs histories", "all grids, spectra and save/load sequences",
  "Tests load one stored file; axis order and redshift alignment hold by accident for square or monotone data.",
  "cosmology_power_spectrum:*; cosmology_cosmology:*; main_cl_core:load_cosmology; file_io_retro_comp:*")

# ------------------------------------------------------------------ persistence
P("P01", "What is written to an HDF5 file is what a reader gets back",
  "For every object that can be saved (power spectra, cosmologies, densities, biases, kernels, spectra, noise spectra, derivatives, Fisher matrices and their collections), loading the file into a new object restores every stored array, attribute, label and parameter to an equal value of the same type, under the same key. "
  "Writer and reader agree on every group, dataset and attribute name, and optional parts are written exactly when present and restored exactly when stored.",
  "inputs histories", "all object states, present or absent optional parts, and file modes",
  "Round trips are tested for a few fully populated objects; optional parts, string attributes and overwriting are not.",
  "file_io_hdf5_io:*; cosmology_power_spectrum:*H5*,*HDF5; cosmology_cosmology:H5*,*HDF5,fromHDF5; cosmology_redshift_density:H5*,*HDF5,*_densit*; cosmology_bias:H5*,*HDF5; cosmology_kernel_functions:*; cosmology_weight_functions:H5*,*HDF5; cosmology_c_ells:H5*,*HDF5; fisher_delta_cl:*; derivatives_cl_derivative:*; fisher_fisher_matrix:*File,*HDF5,fromHDF5,*.fromCSV,*.getFilename; f02.py:*HDF5*,*NoiseTo*,*NoiseFrom*; main_fisher_core:*")

P("P02", "Files are closed on every path, including failures",
  "Every data file opened while saving or loading is closed before control returns to the caller, whether the operation succeeds or raises at any point. "
  "A later attempt to open, overwrite or read the file in the same process is therefore never refused or given stale content because of an earlier failure.",
  "fault_sequences crash_points", "every failing read, write or validation between open and close",
  "Tests never inject a failure between opening and closing a file.",
  "file_io_hdf5_io:AbstractH5FileIO.openFile,AbstractH5FileIO.closeFile,AbstractH5FileIO.load,AbstractH5FileIO.save; fisher_delta_cl:*HDF5; derivatives_cl_derivative:*File,*HDF5; fisher_fisher_matrix:*File; file_io_retro_comp:*; utils_run_loader:*pickle*; cosmology_redshift_density:*_densit*")

P("P03", "JSON and configuration files round-trip the settings they hold",
  "Writing a configuration, parameter collection or metadata document and reading it back yields an equal object: no setting is dropped, renamed, converted to another type or replaced by a default. "
  "Settings reach the component they configure under their own name, defaults apply only when a setting is absent, and the deterministic run identifier depends on every setting that it encodes.",
  "inputs configurations", "all configuration documents, present and absent options, parameter lists",
  "Tests read a few fixed files; absent options, all parameter attributes and re-writing are not covered.",
  "file_io_json_io:*; config_forecast_config:*; config_main_config:*; config_probe_config:*; cosmology_parameter:*; utils_encoders:*; utils_formatters:*; utils_general_utils:convert*,get_def*,map_*,get_scen*,split*")

P("P04", "Legacy and external input formats are interpreted with their own conventions",
  "Spectra, power spectra, derivatives and Fisher matrices produced by other codes or earlier versions are mapped to the internal probes, parameters, bins, units and redshift order according to their file conventions, each value ending at the multipole, bin pair, parameter and step it was written for. "
  "A file whose header, shape or parameters do not match is refused rather than misread.",
  "inputs", "all legacy files, headers, bin layouts and parameter names",
  "Only one legacy layout is tested; index parsing, unit factors and parameter renaming in the others are never executed.",
  "file_io_ext_input:*; file_io_retro_comp:*; utils_ist_comparison:*; fisher_fisher_matrix:FisherMatrix.from_IST*,FisherMatrix.from_data*,FisherMatrix.fromCSV; utils_filesystem_utils:get_ist*")

P("P05", "Collection structures never alias or lose what they hold",
  "Dictionaries and collections keyed by observables or parameters return for each key exactly the value last stored under it, iterate and count each entry once, and compare equal only when both hold the same keys with equal values. "
  "Copies and sub-selections are independent of their source, so mutating one never changes the other, and equality of spectra, cosmologies, densities, kernels, parameters and data vectors compares every field that defines them.",
  "inputs histories", "all sequences of insertions, copies, mutations and comparisons",
  "Tests compare equal or grossly different objects; a field or key missing from one side is not tried.",
  "base_structs_cl_dict:*; base_structs_generic_dict:*; utils_shortcuts:*SmartKey*,*__eq__,*__hash__,*copy*; fisher_datavector:*; utils_general_utils:compare_objects,subset*,map_*; cosmology_c_ells:*__eq__,*__getitem__; cosmology_cosmology:*__eq__; cosmology_redshift_density:*__eq__; cosmology_bias:*__eq__; cosmology_kernel_functions:*__eq__; cosmology_weight_functions:*__eq__; cosmology_parameter:*__eq__,PhysicalParametersCollection.*; config_forecast_config:*__eq__,*__getitem__; config_probe_config:*__eq__; cosmology_power_spectrum:*__eq__; fisher_delta_cl:*__eq__; fisher_fisher_matrix:*__eq__,*copy*; file_io_hdf5_io:*__eq__; derivatives_cl_derivative:*__getitem__")

# ------------------------------------------------------------------ orchestration
P("O01", "Forecast stages run in dependency order and only when requested",
  "Power spectra are produced before angular spectra, angular spectra before derivatives, derivatives and noise spectra before Fisher matrices, and Fisher matrices before final results; a stage starts only after the previous one has finished. "
  "Exactly the requested stages run, once each, with their own settings, and stages supplied from outside are linked instead of recomputed. Timing and metadata recorded for a stage belong to that stage.",
  "configurations histories", "all combinations of requested stages, external inputs and batch or interactive mode",
  "The drivers are barely tested, and never for partial stage selections.",
  "main_task_runners:*; main_seyfert_core:*; bin_job_submitter:*; bin_run_seyfert:*; main_cl_core:*; main_fisher_core:*; seyfert_seyfert:*; main_orchestration:*; config_main_config:config_for*")

P("O02", "A failing step is noticed and stops what depends on it",
  "When a subprocess, batch job or stage fails - non-zero exit, exception, missing output or missing input file - the failure is reported to the caller and no later stage consumes incomplete output. "
  "A step that succeeded is never reported as failed, and error conditions on inputs raise before work is started.",
  "fault_sequences", "every command, job and stage failing at any point, with or without output on its error stream",
  "No test makes a child process or job fail.",
  "main_task_runners:*; main_seyfert_core:*; main_orchestration:*; main_bsub_utils:*; bin_job_submitter:*; bin_run_seyfert:*; bin_run_integ_test:*; bin_evaluate_final_results:*; main_report_maker:*; bin_orchestrate_run:*")

P("O03", "Batch jobs get the requested resources and are awaited until done",
  "Each submitted job carries the queue, core count, memory, name, working directory and command of its own task, is identified by the id the scheduler returned for it, and is awaited until it no longer runs or the configured waiting limit is reached. "
  "Scheduler output is parsed per job, so state, times and resource usage are attributed to the job they belong to.",
  "inputs histories fault_sequences", "all option combinations, scheduler outputs and job outcomes",
  "There is no scheduler in the test environment; only string building is covered in part.",
  "main_bsub_utils:*; main_task_runners:*submitBatchJobs,*Angular*,*Deriv*,*Power*,FisherTaskRunner.*,TaskRunner.*; main_seyfert_core:submit*,compute_bsub*; bin_evaluate_final_results:*; config_cmd_line:*batch*; main_report_maker:*; bin_do_jobs_report:*; bin_report_batch_jobs:*; bin_kill_job_submitter:*")

P("O04", "Every file is looked up where it was written",
  "The directory and file names of a run are a function of its identifiers: names built from a parameter and step, a parameter, or a parameter pair parse back to the same values, and each consumer looks for its inputs under exactly the names producers use. "
  "A lookup that matches no file or several files is refused, and external directories are linked without altering their content.",
  "inputs configurations", "all parameter names, steps, parameter pairs, file names and run layouts",
  "Tests parse a few names; multi-digit steps, similar prefixes and ambiguous matches are not covered.",
  "utils_workspace:*; utils_filesystem_utils:*; main_task_runners:*getJobDirName,*createJobDir*,*createAndFill*,*createRundir,*prepareWork*,*createInput*,*setInputDirs,*loadFisher*,*setRunID,*fillJob*; utils_dir_explorer:*; main_report_maker:JobReport.get*,JobReport.setUp; main_seyfert_core:prepare*; utils_run_loader:RunLoader.*; bin_create_h5density:*")

P("O05", "Directories are removed or replaced only inside the run being prepared",
  "Nothing outside the run's own directory tree is deleted, overwritten or moved, and an existing run or output is removed only when the user asked for it (test mode, forced recreation or clean-up of that run's own intermediate products). "
  "Directories that hold results are created before use and existing content is otherwise kept.",
  "configurations histories", "all option combinations, pre-existing directories and link layouts",
  "Tests create fresh temporary directories and never check what survives.",
  "main_task_runners:*; main_seyfert_core:*; bin_job_submitter:*; main_orchestration:*; utils_workspace:*symlink*,*create*,*Symlink*; bin_run_integ_test:*; fisher_fisher_results:*; fisher_results_collector:*; utils_run_loader:*Disk,*pickle*,*save*; bin_compute_delta_cls:*; bin_compute_fisher_matrix:*; bin_evaluate_final_results:*; bin_create_h5density:*; main_fisher_core:*")

P("O06", "Command lines carry each option to the program that needs it",
  "Every option a user gives reaches the component it configures with its value and type intact, and commands generated for child programs use option names the child accepts, with values that parse back to the intended ones. "
  "Defaults documented for an option apply only when it is not given, incompatible or missing options are refused, and values from an ini file take effect like those from the command line.",
  "inputs configurations", "all options of all programs, given or omitted, and every generated command",
  "Argument parsing is tested for two programs; the composition of parent parsers, generated commands and casts is not.",
  "config_cmd_line:*; bin_*:*; main_orchestration:*; main_seyfert_core:get_inter*,execute*,submit*,prepare*; main_task_runners:*writeJobShell*,*writeFisher*,*readCmd*,*fillJob*,*createAndFill*; utils_general_utils:convert*,get_def*; utils_formatters:*")

P("O07", "Job and run reports reflect what the jobs' output files say",
  "A job is reported as successful, failed, incomplete, not executed or undefined according to its own output and error files, with the execution time found there, and a task's status and counts are those of its jobs. "
  "Report files are written for every task that ran, one line per job, and missing files lead to the corresponding status rather than to an exception.",
  "inputs fault_sequences", "all contents, names and absences of job output files",
  "Reports are tested on one directory of successful jobs.",
  "main_report_maker:*; bin_do_jobs_report:*; bin_report_batch_jobs:*; utils_formatters:*; main_bsub_utils:*extract*,*Resource*")

# ------------------------------------------------------------------ configuration
P("G01", "Configurations are validated and every option selects its own behaviour",
  "Unknown or inconsistent options (probe names, bias models, Boltzmann codes, tasks, scenarios, integration methods, parameter lists) raise an error, and each accepted option selects exactly the behaviour named by it. "
  "Probe presence, multipole limits, nuisance parameters and cosmological parameters used by a run are those of its configuration file, with derived settings (paths, bins, shot noise, sky fraction) taken from the matching entries.",
  "configurations", "all configuration documents and option values",
  "Tests load valid sample configurations only.",
  "config_forecast_config:*; config_main_config:*; config_probe_config:*; file_io_json_io:*; cosmology_bias:Bias.*; cosmology_power_spectrum:PowerSpectrum.getResults*,PowerSpectrum.evaluateL*; bin_job_submitter:check*; numeric_integration:*")

P("G02", "The graphical editor writes the configuration shown to the user",
  "The file produced by the configuration window contains for every enabled probe and parameter the values currently entered, under the entry a forecast reads, with numbers and flags converted to their types, and omits probes that are disabled. "
  "It starts from the template's remaining settings, which are preserved, and is written to the chosen location.",
  "inputs", "all states of the input fields",
  "The window is not tested at all (no display in the test environment).",
  "gui_interface_window:*; bin_gui_config:*; utils_formatters:*; file_io_json_io:*")

P("G03", "Configuration variants are generated and orchestrated consistently",
  "For each combination of scenario options the generated configuration differs from the template exactly in the entries those options govern (densities, biases, bins, multipoles, noise), and its file name encodes the same options. "
  "Orchestrating several runs starts one run per configuration with the matching power-spectrum directory and options, in the defined order, and collects the resulting run directories once each.",
  "configurations", "all scenario options, bin numbers and lists of configurations or run directories",
  "The orchestration layer is not executed by any test.",
  "config_forecast_config:ForecastConfigEditor.*; main_orchestration:*; bin_orchestrate_run:*; utils_dir_explorer:*; utils_general_utils:split*,get_scen*; file_io_json_io:*getConfigID,*metadata,*scenario")

# ------------------------------------------------------------------ results
P("R01", "Run comparisons measure the stated difference between matching entries",
  "Percentage and absolute differences are computed between entries with the same key, multipole, bin and parameter of the two runs, relative to the reference (or mean) documented for the metric; a comparison passes exactly when every metric is within its threshold. "
  "Entries present on one side only are reported, comparisons are symmetric where documented, and saved metrics reload unchanged.",
  "inputs", "all pairs of runs, thresholds, missing and zero entries",
  "Tests compare a run with itself, where any formula yields zero.",
  "utils_run_loader:*; utils_comparison_utils:*; numeric_general:percentage*; utils_ist_comparison:*; bin_compare_runs:*; notebook_helpers_table_helpers:compute*; utils_general_utils:compare_objects; bin_run_integ_test:*")

P("R02", "Result tables keep every number under its own row and column",
  "Tables of errors, figures of merit and differences, as data frames, spreadsheets or LaTeX, hold in each cell the value of the run, Fisher matrix and parameter that label it: selections keep exactly the rows matching the query, differences subtract the stated reference, and formatting never changes sign, magnitude or association. "
  "Names translated to typeset form denote the same parameter, probe, Fisher matrix or cosmology.",
  "inputs", "all tables, queries, parameter and Fisher names",
  "Table code is exercised on one small table; ordering, negative values and name clashes are not.",
  "notebook_helpers_table_helpers:*; utils_tex_utils:*; utils_table_utils:*; fisher_results_collector:*; notebook_helpers_misc:*; utils_general_utils:multiple*,replace*")

P("R03", "Summary figures show the selected data with matching labels",
  "Bar charts, gain plots, heat maps and spectrum plots draw the values of the selected Fisher matrices, parameters, bins or multipoles and nothing else, with axes, ticks, legends and annotations naming the data they are next to. "
  "Differences and gains are relative to the stated reference.",
  "inputs configurations", "all data frames, selections and plot options",
  "Plot helpers have no tests.",
  "notebook_helpers_barplots:*; notebook_helpers_fom_gain_plots:*; notebook_helpers_misc:*; plot_utils_*:*; utils_comparison_utils:*; cosmology_c_ells:*plot; fisher_fisher_plot:FisherPlotter.make*Corr*")

# ------------------------------------------------------------------ numerics / helpers
P("N01", "Matrix vectorisation helpers satisfy their defining identities",
  "Enumeration, vectorisation and its inverse, half-vectorisation, and the duplication, elimination, transition and commutation matrices use one common column ordering, so that converting a symmetric matrix to its reduced vector and back is the identity "
  "and each transformation matrix performs the conversion it is named after, for every size and sorting convention.",
  "inputs", "all matrix sizes and orderings",
  "Tests check two sizes.",
  "fisher_linalg_tools:*; fisher_fisher_utils:vec*; f01.py:*enum*,*triu*,*vec*")

P("N02", "Quadrature and window helpers compute what they are named after",
  "The composite quadrature applies the rule of the requested order with the correct end corrections to equally spaced samples along the requested axis, refuses sample counts that do not match the axis, and warns about unequal spacing; smoothing, window, stencil-derivative and percentage-difference helpers "
  "follow their definitions for all arguments including limits and zeros.",
  "inputs", "all sample counts, axes, spacings and argument values",
  "Tests integrate one-dimensional smooth functions only.",
  "numeric_integration:*; numeric_general:*")

P("N03", "Unit conversions and value formatting are exact inverses of each other",
  "Converting a quantity to another unit and back returns it, inverse quantities convert with the reciprocal factor, and textual values (booleans, numbers, dates, durations, identifiers) parse to the value they denote, unrecognised text being refused.",
  "inputs", "all values and textual forms",
  "Tests check single values in one direction.",
  "utils_converters:*; utils_formatters:*; utils_general_utils:convert*,get_def*,split*,get_scen*,multiple*; utils_encoders:*; cosmology_redshift_density:compute_photo*,RedshiftDensity.shot*")
