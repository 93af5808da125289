"""Source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level='exploration', observe=None, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe, na=na))


Z = 'py/redrock/zscan.py'
prop('C01', "A target's result depends on that target's data only",
     "For every batch of targets, the scan chi2 and the redshift-table rows of a target equal those of the same target fitted alone. "
     "They are labelled with that target's own ID, and do not depend on which other targets are in the batch, on their order, their numbers of spectra, or on the number of multiprocessing workers. "
     "A target ID passed in is neither lost nor duplicated.",
     ['inputs', 'configurations'], 'all batches (size, order, spectra per target, masked neighbours), all worker counts',
     'The unit tests fit two identical targets with equal numbers of spectra; mislabelling needs heterogeneous batches and permutations.',
     ['py/redrock/targets.py', 'py/redrock/zfind.py', Z], [('target order/IDs', 'targets.py:DistTargetsCopy'), ('per-target assembly', 'zfind.py:zfind')],
     'metamorphic runtime oracle: batch run vs single-target runs of the real pipeline',
     'Sampled heterogeneous batches, permutations and worker counts; numeric agreement within 1e-6 relative.', observe=['scan data and table returned by zfind'])
prop('C02', 'MPI and multiprocessing runs give the serial answer and terminate',
     "For every number of MPI processes or multiprocessing workers (more than there are targets or redshifts included), every target is processed exactly once and the merged redshift table on the root process equals the one-process table. "
     "All processes terminate, issue matching collective calls and leave no message unreceived, whatever the relative timing of the processes. "
     "Gathering in batches, reusing saved scan chi2, and reading targets on the root process only change nothing in the result.",
     ['schedules', 'configurations'], 'all process counts, target distributions and message timings',
     'No test runs MPI; mp tests use one small configuration and one schedule.',
     ['py/redrock/zfind.py', Z, 'py/redrock/templates.py', 'py/redrock/targets.py', 'py/redrock/utils.py'],
     [('ring exchange of template pieces', 'templates.py:DistTemplate.cycle'), ('gather of results', 'zfind.py:zfind'), ('work split', 'utils.py:distribute_work')],
     'online monitor on a thread-backed MPI communicator (deadlock, collective mismatch, unreceived message) with injected delays; differential oracle vs serial',
     'Schedules are sampled through seeded delays, not enumerated; the communicator is a stand-in for mpi4py that implements standard-mode semantics.')
prop('C03', 'The scan chi2 is the weighted least-squares optimum at every redshift',
     "At every redshift of a template's grid the scan reports the minimum over template coefficients (non-negative ones for NMF templates) of the inverse-variance weighted chi2 between the data and the template, redshifted, IGM-attenuated, rebinned and convolved with the spectrograph resolution, and the coefficients attaining it. A solver called with bounds or with a prior matrix on the coefficients attains the minimum within the bounds and including the prior. "
     "Masked pixels do not contribute. A target without usable data gets a fixed value at all redshifts, and the penalty is the documented one for negative [OII].",
     ['inputs'], 'all templates, spectra, masks and grid redshifts within floating-point conditioning',
     'Tests check that one noiseless redshift is recovered; a biased chi2 still has its minimum near the truth.',
     [Z, 'py/redrock/templates.py', 'py/redrock/igm.py', 'py/redrock/rebin.py'], [('chi2 solution', 'zscan.py:calc_zchi2'), ('batched solution', 'zscan.py:calc_zchi2_batch'), ('design matrix', 'templates.py:DistTemplate')],
     'runtime oracle: independent SVD / active-set solution of an independently built design matrix',
     'Sampled templates and spectra; conditioning-dependent tolerance.')
prop('C04', 'Rebinning is the exact bin average of the piecewise-linear template',
     "For all valid inputs, rebinning returns in every output bin the mean over the bin of the piecewise-linear interpolant of the input, for one or many redshifts and one or many basis vectors, equal for every calling form. "
     "Bins outside the redshifted input at any of the redshifts raise an error instead of returning numbers, as do wavelengths and fluxes of different lengths. Inputs are not modified.",
     ['inputs'], 'all input grids, redshifts, basis sets and output edges',
     'Tests use four fixed grids; boundary alignments of bins and samples are not among them.',
     ['py/redrock/rebin.py'], [('kernel', 'rebin.py:_trapz_rebin'), ('batch kernel', 'rebin.py:_trapz_rebin_batch'), ('template rebin', 'rebin.py:rebin_template')],
     'runtime oracle: exact integral of the interpolant, plus metamorphic linearity/conservation/splitting monitors',
     'Sampled grids including coincident edges; rounding-level tolerance.')
prop('C05', 'The GPU path computes what the CPU path computes, within its arrays',
     "With use_gpu / --gpu, rebinning, IGM transmission, batched chi2 and coefficients, the scan, the fit with and without archetypes, and the rrdesi catalog (any number of ranks, with or without a GPU of their own) are those of the CPU path up to rounding. "
     "No CUDA kernel reads or writes outside the arrays it is given, and no result depends on the order or overlap of the kernel's threads.",
     ['inputs', 'schedules', 'configurations'], 'all inputs valid for the CPU path, all grid-thread schedules, all rank/GPU layouts',
     'GPU tests are skipped without a device; none looks at memory accesses or at races.',
     ['py/redrock/rebin.py', Z, 'py/redrock/fitz.py', 'py/redrock/archetypes.py', 'py/redrock/templates.py', 'py/redrock/igm.py', 'py/redrock/targets.py', 'py/redrock/external/desi.py'],
     [('rebin kernel', 'rebin.py:_trapz_rebin_batch_gpu'), ('dot-product kernels', 'zscan.py:calc_batch_dot_product_3d3d_gpu'), ('GPU capacities', 'external/desi.py:rrdesi')],
     'AddressSanitizer, UBSan and ThreadSanitizer on the kernel texts compiled for the host behind a cupy stand-in, with shuffled thread order; differential oracle GPU path vs CPU path',
     'cupy is a numpy stand-in; singular systems are excluded because cupy does not report them; device memory limits are not modelled.')
prop('C06', 'IGM transmission follows the published models per redshift',
     "For each supported model the transmission at a redshift and observed wavelength is the published formula's value, lies in [0,1], and is 1 redward of Lyman-alpha. "
     "It depends on that redshift and wavelength only: not on the other redshifts or wavelengths passed in the same call, nor on whether scalars or arrays are passed.",
     ['inputs'], 'all redshifts and wavelengths, all batchings, all supported models',
     'Tests check shapes and a few consistency points only; no reference values.',
     ['py/redrock/igm.py', 'py/redrock/templates.py'], [('models', 'igm.py:transmission_Lyman')],
     'runtime oracle: long-hand implementation of the published formulae', 'Reference coefficients are a committed copy of the published tables.')
prop('C07', 'Redshift priors change exactly the named targets, in the documented way',
     "A prior file adds, once, the documented function of redshift (gaussian, lorentzien, tophat) to the scan chi2 of exactly the targets it names, for any row order and any extra IDs in the file, and reported redshifts of those targets minimise chi2 plus prior (within the window for a tophat). "
     "All other targets are bit-for-bit as without the file, and no target loses its result because of another target's prior.",
     ['inputs', 'configurations'], 'all prior files (function, subset, order), worker counts and numbers of minima',
     'Tests evaluate the prior functions alone, never through the fitting pipeline.',
     ['py/redrock/priors.py', 'py/redrock/zfind.py', Z, 'py/redrock/fitz.py'], [('prior values', 'priors.py:Priors.eval'), ('application', 'zscan.py:calc_zchi2_targets')],
     'differential runtime oracle: run with prior vs prior-free run plus the prior computed long-hand',
     'Sampled priors. A tophat that overlaps no grid for one target is a recorded finding.')
prop('C08', 'Every redshift table row is well formed and correctly ranked',
     "For every run each target has contiguous rows, in input order, numbered 0.. by increasing (bad-fit flag, chi2), at most nminima per spectral type, that are the best candidates over all templates of the type. "
     "Types (names of any length), coefficient counts, usable-pixel counts and fit methods belong to the template and data of the row, redshifts lie in the template's range and all numbers are finite. "
     "NODATA and LITTLE_COVERAGE are set exactly when there is no usable pixel or fewer than ten per coefficient, and only documented redshift-fitting bits are set.",
     ['inputs', 'configurations'], 'all template sets, targets (unusable ones included), nminima, worker counts',
     'Tests look at one or two targets with full coverage.',
     ['py/redrock/zfind.py', 'py/redrock/zwarning.py', 'py/redrock/fitz.py'], [('ranking', 'zfind.py:sort_zfit_dict'), ('flags and assembly', 'zfind.py:zfind')],
     'invariant monitor over every returned row plus exhaustive re-ranking of single-template runs', 'Sampled runs.')
prop('C10', 'The coadd is the inverse-variance weighted combination of its spectra',
     "For every target the coadd has one spectrum per band (in order of first appearance) whose ivar is the sum, and whose flux and resolution are the per-pixel inverse-variance weighted means, of the input spectra's, so that noiseless spectra of one object coadd to that object seen through the coadded resolution. "
     "Masked pixels get no weight. Cosmic rejection removes only the outlying pixels of the affected spectrum and real features shared by the exposures survive.",
     ['inputs'], 'all sets of exposures (numbers, masks, ivar shapes, resolutions, band order)',
     'No test coadds spectra with differing ivar shapes or resolutions.',
     ['py/redrock/targets.py'], [('coadd', 'targets.py:Target.compute_coadd')],
     'runtime oracle: long-hand dense weighted combination; metamorphic noiseless-object and injected-cosmic workloads', 'Sampled exposure sets.')
prop('C21', 'A dying worker process makes the run fail, not hang or lose targets',
     "If a multiprocessing worker raises, exits or is killed at any point of the scan or refinement, the run either still returns the complete correct result or terminates with an error. "
     "It never waits forever and never returns a result in which targets are missing or wrong.",
     ['fault_sequences', 'crash_points'], 'all faults (exception, exit, SIGKILL), affected targets, phases and worker counts',
     'No test injects a fault into a worker.',
     ['py/redrock/zscan.py', 'py/redrock/zfind.py', 'py/redrock/utils.py'], [('collecting results', 'utils.py:mp_get'), ('scan workers', 'zscan.py:_mp_calc_zchi2'), ('fit workers', 'zfind.py:_mp_fitz')],
     'fault injection in real worker processes with a process-tree quiescence (hang) monitor and a result-completeness oracle',
     'Sampled fault points; a worker killed in the middle of a pipe write is not injected.', level='fault_enumeration')
prop('C17', 'Work is partitioned exactly and balanced within one unit',
     "For all IDs, weights, capacities and process counts every work unit is assigned to exactly one process, deterministically, without modifying the arguments. "
     "No unit on the most loaded process could finish earlier on another one; targets are weighted by their number of spectra. "
     "Without a request half the cores are used (at least one), never more than there are, and at most four on a NERSC login node.",
     ['inputs'], 'all unit lists, weights, capacities and process counts', 'The test uses one list; bounds over all weightings are not checked.',
     ['py/redrock/utils.py', 'py/redrock/targets.py'], [('distribution', 'utils.py:distribute_work'), ('targets', 'targets.py:distribute_targets')],
     'invariant monitor with exhaustive-optimum oracle for small cases', 'Random plus exhaustive-optimum small cases.')
prop('C23', 'Refined redshifts are parabola minima of the local fine chi2 grid',
     "Every reported candidate comes from a local minimum of scan chi2 plus penalty, its fine grid spans the neighbouring grid redshifts and holds the true optimum chi2 at each point, and redshift, error and chi2 are those of the parabola through the three lowest points; failed parabolas and range-edge redshifts are flagged, and only they are. "
     "The reported coefficients are the best fit at the reported redshift. "
     "Candidates of one template are apart by the documented velocity and none of the lowest separated minima is skipped.",
     ['inputs', 'configurations'], 'all targets, templates, IGM models, nminima and fine-grid sizes',
     'Tests check two redshifts to a tolerance; flags, errors and coefficients are not re-derived.',
     ['py/redrock/fitz.py'], [('refinement', 'fitz.py:fitz'), ('minima', 'fitz.py:find_minima'), ('parabola', 'fitz.py:minfit')],
     'runtime oracle: independent model re-evaluated at every fine-grid point', 'Sampled fits.')
prop('C26', 'Delta-chi2 and SMALL_DELTA_CHI2 follow their definition',
     "For every row, deltachi2 is the smallest chi2 difference to a lower-ranked candidate of the same target that has no bad-fit flag and lies at least the documented velocity away (stars and non-stars have their own limit), or zero if there is none. "
     "SMALL_DELTA_CHI2 is set exactly when any such separated good candidate of any rank differs in chi2 by less than 9. "
     "Neither depends on other targets.",
     ['inputs'], 'all candidate lists (chi2, z, flags, types)', 'Tests use two hand-made lists without flags or ties.',
     ['py/redrock/zfind.py'], [('definition', 'zfind.py:calc_deltachi2')],
     'runtime oracle: pairwise long-hand definition over random and pipeline-produced candidate lists', 'Comparisons within rounding of a threshold are skipped.')


prop('C19', 'Archetype refinement returns the best archetype with its own chi2 and model',
     "With archetypes, every row of a spectral type that has them reports the archetype (or the requested number of nearest ones, all if there are fewer) with the lowest chi2 at the row's redshift, non-negative archetype coefficients, the Legendre coefficients requested (per camera or shared, with the prior), and the chi2 of exactly those coefficients seen through IGM, rebinning and resolution. "
     "Redshifts, and the rows of types without archetypes, are those of the run without archetypes, whichever types have archetypes (also types without a template), in whatever order templates come, and whichever cameras a target has. "
     "The template fit behind a row (coefficients, type) is kept with it. The model evaluated from a row has the row's chi2.",
     ['inputs', 'configurations'], 'all archetype sets, Legendre degrees, priors, nearest counts, camera layouts, exposures and worker counts',
     'Tests fit one configuration and look at the redshift only.',
     ['py/redrock/archetypes.py', 'py/redrock/fitz.py', 'py/redrock/zfind.py', 'py/redrock/targets.py'],
     [('best archetype', 'archetypes.py:Archetype.get_best_archetype'), ('nearest archetypes', 'archetypes.py:Archetype.nearest_neighbour_model'), ('model', 'targets.py:Target.eval_model')],
     'runtime oracle: dense independent design matrix and normal equations for every archetype; differential run without archetypes',
     'Optimality is decided where the non-negativity bound is inactive; at an active bound only chi2-of-coefficients consistency is.')


prop('C12', 'The details file round-trips results and can be reused as a chi2 scan',
     "For every result (any targets, templates, archetypes, target metadata), writing the details file and reading it back, whole or for any selection of targets, gives the same targets, types, redshift grids, chi2, penalties, coefficients and table rows at the documented precision, text columns as text, each type's rows filed under that type; the arguments are not modified. "
     "Refitting any subset of the targets, in any order, with the saved scan and the same or fewer templates gives the redshifts and chi2 of a direct fit.",
     ['inputs', 'histories'], 'all results, selections of targets and reuse configurations',
     'The test round-trips one result with one template, without archetypes, and never reuses a scan.',
     ['py/redrock/results.py', 'py/redrock/zfind.py'], [('writing', 'results.py:write_zscan'), ('reading', 'results.py:read_zscan'), ('reuse', 'results.py:read_zscan_redrock')],
     'runtime oracle: value-by-value comparison of written and re-read structures; differential refit', 'Sampled results; scan values compared as float32.')
prop('C14', 'rrdesi output rows belong together and carry the documented warning bits',
     "For every set of DESI spectra or coadd files and target selection, the redshift file has one REDSHIFTS row per selected target in order of first appearance, with the values of a direct fit of that target's spectra; FIBERMAP, EXP_FIBERMAP and TSNR2 hold exactly the input rows of those targets, row-aligned with REDSHIFTS when no target is in two files. "
     "Warning bits derived from fiber status and object type are set exactly for the targets concerned, targets without usable data are blanked, other rows are untouched, and the header names the templates used. "
     "MPI and multiprocessing runs and the details file agree with it.",
     ['inputs', 'configurations'], 'all input file sets, selections, fiber states and parallel configurations',
     'No test runs rrdesi.',
     ['py/redrock/external/desi.py'], [('output', 'external/desi.py:rrdesi'), ('tables', 'external/desi.py:write_zbest')],
     'runtime oracle on the files written by the real command: independent assembly of the same targets and direct fit', 'Sampled file sets.')
prop('C15', 'Evaluated models are the fitted models of the same target',
     "Evaluating a template or archetype with given coefficients, redshift, wavelengths and resolution gives the redshifted, IGM-attenuated, rebinned, convolved combination, with or without resolution, whatever the padding of the coefficients. "
     "The model file of rrdesi holds, for every target and camera and in the order of the redshift table, that model for the target's own best fit; targets without coefficients have zero models.",
     ['inputs', 'configurations'], 'all templates, archetypes, redshifts, grids, camera sets, selections and MPI process counts',
     'No test evaluates a model with IGM, or writes a model file.',
     ['py/redrock/templates.py', 'py/redrock/archetypes.py', 'py/redrock/targets.py', 'py/redrock/external/desi.py'], [('template model', 'templates.py:Template.eval'), ('archetype model', 'archetypes.py:Archetype.eval'), ('model file', 'external/desi.py:write_bestmodel')],
     'runtime oracle: independent dense forward model compared with every model row written', 'Models of targets fitted as individual spectra (--allspec) are not judged.')
prop('C24', "The DESI reader gives every target exactly its own usable spectra",
     "For every set of spectra or coadd files (interleaved exposures, different cameras, missing masks) and every selection by ID or range, each selected target is held by exactly one process, with exactly its own rows' wavelengths, fluxes, inverse variances and resolution, targets in order of first appearance. "
     "Masked, non-finite and significantly negative pixels have zero weight, all others keep theirs. The metadata rows kept are those of the selected targets.",
     ['inputs', 'configurations'], 'all file sets, selections, masks, process counts and capacities', 'No test reads a DESI file.',
     ['py/redrock/external/desi.py'], [('reader', 'external/desi.py:DistTargetsDESI')],
     'runtime oracle: multiset comparison of the target objects with the rows written to synthetic files, on every MPI rank', 'Sampled file sets, including one above the broadcast batch size.')


prop('C18', 'rrboss fits exactly the selected BOSS fibers, with their own spectra',
     "For every set of spPlate files or their spCFrame exposures, and every selection by target ID, fiber, or range, each selected target holds exactly its own fibers' wavelengths (cropped to 3500-10000 A, 6000/5500 A at the camera split), fluxes and inverse variances, zeroed where ANDMASK is set if requested, "
     "and a unit-sum Gaussian resolution of the fiber's dispersion. Target IDs encode plate, MJD and fiber reversibly (THING_ID for several plates), and BRICKNAME is the full PLATE-MJD. "
     "The rrboss output has one row per selected target with the values of a direct fit of those spectra, in serial, multiprocessing, MPI and archetype runs. Contradictory or incomplete arguments are refused before anything is written.",
     ['inputs', 'configurations'], 'all plates, frame sets, masks, selections and worker layouts',
     'No test reads a BOSS file or runs rrboss.',
     ['py/redrock/external/boss.py'], [('reader', 'boss.py:read_spectra'), ('command', 'boss.py:rrboss'), ('identifiers', 'boss.py:platemjdfiber2targetid')],
     'runtime oracle over generated plate/frame files: multiset matching of spectra with file rows, and differential runs against independently assembled targets',
     'Generated plates with few fibers and coarse grids; Gaussian truncation width is not prescribed beyond two sigma.',
     observe=['targets and metadata of read_spectra', 'ZBEST table and details file of rrboss'])

prop('C22', 'wrap-redrock runs every unfinished file once, and a restart only the rest',
     "wrap-redrock finds every spectra (or spPlate) file below the reduction directory and starts rrdesi (rrboss) for exactly those without both output files, each on one MPI rank, again once after a failure and never for finished ones; with everything finished it stops cleanly. "
     "The started command is accepted by the program, carries the user's options and writes the two outputs that mark the file as finished. Files are spread over the ranks so that no single move shortens the expected time of the longest rank. A dry run starts and changes nothing, and the job printed by --plan does the same work as a direct run and asks for at least the expected time of its slowest node.",
     ['inputs', 'configurations', 'histories'], 'all directory trees, states of earlier runs, failures, rank counts and options',
     'No test runs wrap-redrock.',
     ['bin/wrap-redrock'], [('discovery', 'bin/wrap-redrock:find_specfiles'), ('partition', 'bin/wrap-redrock:group_specfiles'), ('launch and retry', 'bin/wrap-redrock:run_redrock')],
     'event log of recorded launches (stand-in programs with injected failures) checked for exactly-once over repeated runs; end-to-end run with the real program',
     'Generated trees; pixel directories have numeric names and output names do not collide.')

prop('C16', 'The templates named are the templates used, with their declared contents',
     "Naming templates by directory, list file (comments, relative and absolute paths), single file, sequence, pathlib path or environment gives exactly those templates in that order, each with its file's type, subtype, version, method, IGM model, basis vectors, wavelengths, and redshifts (the file's, else the type's default or the user's range, uniform in log(1+z), or z for stars). "
     "The names, versions and file names recorded in an output header lead back to the same templates. Unknown versions without IGM model, types without range, unknown methods and missing files are refused. Archetypes are loaded by directory, file, list or environment, each evaluated from its own row.",
     ['inputs', 'configurations'], 'all template and archetype sets, ways of naming them, headers and redshift options (each type and subtype once)',
     'Tests load two shipped or fake templates; no test resolves lists with comments, headers with many templates or archetype sets.',
     ['py/redrock/templates.py', 'py/redrock/archetypes.py'], [('selection', 'templates.py:find_templates'), ('contents', 'templates.py:Template'), ('header lookup', 'templates.py:header2templatefiles'), ('archetypes', 'archetypes.py:All_archetypes')],
     'runtime oracle: the loaded objects compared with the contents the harness declared when it wrote the files', 'Sampled sets; types and subtypes are unique within a set.')

prop('C13', 'A run that dies or fails while writing leaves no partial output file',
     "Whatever the moment at which rrdesi or rrboss is killed, or a file operation fails (disk full, I/O error), each output (redshifts, details, models) is afterwards as before the run (absent, or the complete file of an earlier run) or the complete new file. Success is only reported when all new outputs are complete. "
     "Running again in the same directory gives the outputs of an undisturbed run, and an undisturbed run leaves nothing but the outputs asked for.",
     ['crash points', 'faults', 'histories'], 'all file-changing calls of a run as crash or failure points, with and without earlier outputs (process death and failing calls; not power loss)',
     'No test kills a writer or makes a write fail.',
     ['py/redrock/results.py', 'py/redrock/external/desi.py', 'py/redrock/external/boss.py'], [('details', 'results.py:write_zscan'), ('redshifts and models', 'external/desi.py:write_zbest'), ('boss', 'external/boss.py:write_zbest')],
     'fault injection at every file-changing system call of the real commands (preloaded shim), offline content check of the directory left behind',
     'Quick samples the (call, fault, earlier state) product but takes all renames and removals and the calls after a rename; thorough takes (nearly) all.',
     observe=['output directory after each injected fault', 'exit status'])

prop('C20', 'Equivalent descriptions of the same data give the same results',
     "Scan and redshift table are unchanged (or transform as stated) when: fluxes change unit (coefficients scale), inverse variances are scaled (chi2 scales), masked pixels hold other values, spectra of a target are reordered, a weightless exposure is added, a spectrum is spread over two with complementary masks or repeated with half the weight, "
     "arrays have another memory layout, resolution matrices have other zero diagonals or diagonal order, a template's basis is another one of the same space or sampled more finely, the redshift range is cut, or the run is repeated. Spectra, templates and archetypes handed in are left unmodified.",
     ['inputs', 'histories'], 'all targets, templates, archetype options, worker counts and the listed transformations',
     'Tests compare single runs with stored expectations; no test transforms an input.',
     ['py/redrock/zscan.py', 'py/redrock/zfind.py', 'py/redrock/targets.py', 'py/redrock/archetypes.py'], [('scan', 'zscan.py:calc_zchi2'), ('fit', 'zfind.py:zfind'), ('shared memory', 'targets.py:Spectrum'), ('archetypes', 'archetypes.py:Archetype')],
     'metamorphic runtime oracle: results of the transformed run compared with the transformed results; content digests of all inputs before and after', 'Sampled scenes; targets whose fit has no positive coefficient somewhere are compared in the scan only.')

prop('C09', 'Spectra made from a template come back with its type and redshift',
     "For spectra made from one of the templates (redshifted, IGM-attenuated, seen through each camera's resolution, with masked and invalid pixels and Gaussian noise of the stated inverse variance) away from the ends of the redshift range and sampled finely enough by the grid, "
     "rrdesi reports the template's type and subtype, a redshift within its own error of the truth, no warning, a chi2 at its expectation, and at high signal-to-noise the coefficients themselves. Over many targets the reported redshift errors have the right size.",
     ['inputs'], 'all templates, redshifts, coefficients, cameras, exposures and noise realisations at useful signal-to-noise',
     'No test runs the command, or checks a redshift against a known truth with IGM, resolution, masks and several exposures.',
     ['py/redrock/external/desi.py', 'py/redrock/zscan.py', 'py/redrock/fitz.py', 'py/redrock/zfind.py', 'py/redrock/igm.py'], [('command', 'external/desi.py:rrdesi'), ('scan', 'zscan.py:calc_zchi2'), ('refinement', 'fitz.py:fitz')],
     'end-to-end runtime oracle: known truth of generated files, plus the distribution of (z - truth)/zerr and of chi2 over all targets', 'Synthetic templates with random continua and lines; lines far above the noise and narrower than a grid step are excluded.')


prop('C25', 'Every rrdesi option has its documented effect, alone and combined',
     "For every combination of rrdesi options (template files, directory, list or environment; archetypes and their Legendre degree, prior, nearest-neighbour, per-camera and no-legendre switches; priors; precomputed scan; scan ranges; number of minima and fine redshifts; cosmics, negative-flux and sky-line masking; allspec; processes), "
     "every candidate redshift in the details file equals that of a direct fit with those settings, defaults as documented. Contradictory or incomplete arguments are refused before anything is written.",
     ['inputs', 'configurations'], 'all option combinations', 'No test runs the command; options reach the fit through several layers of defaults.',
     ['py/redrock/external/desi.py', 'py/redrock/zfind.py', 'py/redrock/templates.py'], [('command', 'external/desi.py:rrdesi'), ('scan ranges', 'templates.py:Template')],
     'runtime differential oracle: randomly combined command lines against a direct zfind of independently assembled targets, all candidate rows', 'Random combinations, about 36 per quick run; --debug and --gpu excluded (GPU: C05).')


prop('C27', 'Outputs record what made them, and suffice to rebuild the models',
     "Every redshift and model file written by rrdesi records the code version, exactly the templates and archetypes used (name, version, file), dependency versions, and the survey keywords of the first input file, no more and no less; FIBERMAP and EXP_FIBERMAP keep those of the first file's tables. "
     "rrboss records versions of code, templates and archetypes. Outputs are written under the names given, environment variables expanded, in directories made on demand. Loading the recorded templates and evaluating the redshift table reproduces the model file.",
     ['inputs', 'configurations'], 'all input headers, template and archetype sets, rank counts', 'No test looks at an output header.',
     ['py/redrock/external/desi.py', 'py/redrock/external/boss.py', 'py/redrock/templates.py'], [('headers', 'external/desi.py:_get_header'), ('rrboss header', 'external/boss.py:write_zbest'), ('reload', 'templates.py:load_templates_from_header')],
     'runtime oracle: header cards of real outputs compared with the files used; models rebuilt from the redshift file alone and compared with the model file', 'Sampled runs; TSNR2 header pass-through is not claimed.')


prop('C28', 'rrplot draws the data, scan and model of the candidate it names',
     "For every target and candidate of a details file, whatever keys were pressed before, rrplot (PlotSpec) draws that target's unmasked flux of every spectrum, the template or archetype model of that candidate with its own coefficients, with and without the resolution, "
     "the scan chi2 with and without penalty of every template, all candidates of the target at their redshift and chi2 with their number, and names target, type, redshift and warning bits. "
     "Every selected target of all input files which has results can be reached, candidates cycle, for DESI and BOSS data, coadded or not, with templates or archetypes (Legendre terms shared or per camera). The targets are left as they were.",
     ['inputs', 'histories'], 'all targets, details files and sequences of key presses', 'No test imports the plotting module.',
     ['py/redrock/plotspec.py', 'bin/rrplot', 'py/redrock/archetypes.py', 'py/redrock/templates.py'], [('display', 'plotspec.py:PlotSpec'), ('command', 'bin/rrplot')],
     'runtime oracle: curves and texts read back from the figure (Agg) after each key press, compared with an independent model, the data and the scan', 'No window system: key events are delivered to the canvas; colours and layout are not judged.')

prop('C29', 'Template tools write and install templates that load as what they were made from',
     "For every SDSS eigenspectra file, rrconvertSDSStemplates writes one template per named spectrum, or one with all spectra, which redrock loads with the same type, subtype from the name, log-wavelength grid, fluxes and the given version; a file without the needed keywords gives no template. "
     "rrqsotemplate does so for QSO eigenspectra. rrgaltemplate, rrstartemplate and rrstarwdtemplate write, per class, the basis fitted to exactly the median-normalised spectra of that class, on the grid they were resampled to, with coefficients of unit norm. "
     "install_redrock_templates puts the requested version into the requested (or the code's) directory whatever RR_TEMPLATE_DIR is, from where redrock loads it, never touches an existing directory, and reports failures by its exit status.",
     ['inputs', 'configurations'], 'all source files, names, versions and places', 'No test runs any of these tools.',
     ['bin/rrconvertSDSStemplates', 'bin/rrqsotemplate', 'bin/rrgaltemplate', 'bin/rrstartemplate', 'bin/rrstarwdtemplate', 'bin/install_redrock_templates', 'py/redrock/templates.py'],
     [('conversion', 'bin/rrconvertSDSStemplates'), ('installation', 'bin/install_redrock_templates'), ('builder', 'bin/rrstartemplate')],
     'runtime oracle: real tools run on generated sources (stand-ins for desisim and empca, local git repositories), outputs read back through the real loader',
     'desisim and empca are not installed: the fit itself is a recording stand-in; grids of the builders are cut to 400 samples.')


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = dict(files=p['files'], mechanism=[dict(name=a, where=('py/redrock/' + b) if ('.py:' in b and not b.startswith('bin') and not b.startswith('py/')) else b) for a, b in p['mech']])
            if p['observe']:
                anchors['observe_at'] = p['observe']
            anchors['hook_needed'] = None
            assert len(p['title']) <= 80, (p['pid'], len(p['title']))
            f.write(json.dumps(dict(id=p['pid'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=anchors)) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['pid'], quick_cmd=f'bash check.sh {p["pid"]} quick', thorough_cmd=f'bash check.sh {p["pid"]} thorough',
                          technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if not p['na']],
             not_applicable=[dict(property=p['pid'], reason=p['na']) for p in P if p['na']],
             notes='Pure python + numba; no hooks are added to /repo: monitors wrap the public API from outside.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


if __name__ == '__main__':
    write()
