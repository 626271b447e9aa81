"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BP = "posydon/popsyn/binarypopulation.py"
SP = "posydon/popsyn/synthetic_population.py"
PG = "posydon/grids/psygrid.py"

prop("C01", "Every requested binary appears exactly once in the population file",
 "After a population run finishes, serially or as any number of parallel ranks merged together, every requested binary index occurs exactly once in the per-binary table and has exactly one contiguous, time-ordered history whose first row is its initial state, the history-length, mass and system totals agree with those tables, and no temporary batch files are left behind. This holds for every rank count, index list, dump interval, memory-pressure pattern, directory-listing order and set of failing binaries, and for stale batch files left by a killed earlier attempt of the same rank (parallel ranks run with at least one of the RAM-saving and per-binary-conversion options, which parallel saving relies on).",
 ["schedules", "configurations", "inputs", "histories"],
 "any number of ranks/binaries, any dump configuration, any memory-usage trace, any failing subset, any directory order, any interleaving of the ranks",
 "the evolve/save/combine code is excluded from coverage and never run by a test with more than one rank, several batches or a memory dump",
 [BP, SP, "posydon/CLI/io.py", "posydon/popsyn/io.py"],
 [("index split per rank", BP + " BinaryPopulation.evolve"), ("batch dumps and final combine", BP + " BinaryPopulation._safe_evolve / combine_saved_files"), ("merge of ranks", SP + " PopulationRunner.merge_parallel_runs and posydon/CLI/io.py create_merge_script_text")],
 observe=["merged population HDF5 file", "temporary batch directory"])

prop("C02", "Dump and memory settings never change population results",
 "The content of a population file (every row of every table, including the mass and count totals) depends only on the requested binaries, their random streams and the evolution steps. It is identical, up to the recorded option values, whatever dump interval, RAM-saving mode, per-binary table conversion, memory limit or memory-usage pattern was in force while the run proceeded.",
 ["configurations", "schedules", "inputs"],
 "any two settings of dump_rate, optimize_ram, breakdown_to_df, ram_per_cpu and any resident-memory trace",
 "no test evolves the same population twice under different dump settings; memory pressure is never simulated",
 [BP],
 [("batch dump branches", BP + " BinaryPopulation._safe_evolve"), ("table conversion", BP + " PopulationManager.breakdown_to_df / to_df / to_oneline_df"), ("save", BP + " PopulationManager.save")])

prop("C03", "A failing binary is recorded as failed and disturbs no other binary",
 "If the evolution of a binary raises any error, emits warnings or exceeds its time limit at any step, that binary is stored exactly once, with its history up to the failure followed by a failed final state and with its failure and warning flags set, and is neither lost nor reported as successful. Every other binary of the population is stored exactly as its own evolution left it, as it would have been (given the same random draws) had that binary evolved cleanly, with its own failure and warning flags reflecting only its own evolution.",
 ["fault_sequences", "histories", "inputs"],
 "any assignment of errors, warnings and overruns to binaries and steps of a population",
 "the guarded evolution loop is excluded from coverage; tests never inject failures into one binary and compare the others",
 [BP, "posydon/binary_evol/binarystar.py", "posydon/utils/posydonwarning.py", "posydon/utils/common_functions.py"],
 [("per-binary try/except", BP + " BinaryPopulation._safe_evolve"), ("failed state", "posydon/utils/common_functions.py set_binary_to_failed"), ("flags", "posydon/binary_evol/binarystar.py to_oneline_df")])

prop("C04", "Evolution always terminates and step time limits never leak",
 "Evolving a binary always ends: a step that runs longer than the allowed step time is interrupted at that limit, a binary that never reaches an end state stops once the configured maximum number of steps is exceeded, and both are reported as failures of that binary. A step that stays within its limit is never interrupted, the allowance starts afresh for each step, and no time limit stays armed once a binary has been dealt with, whether it ended normally or failed.",
 ["schedules", "fault_sequences", "histories"],
 "any sequence of step durations, states and failures over any number of binaries",
 "time limits depend on wall-clock signals; no test runs a step near or over the limit",
 ["posydon/binary_evol/binarystar.py", BP],
 [("step alarm", "posydon/binary_evol/binarystar.py BinaryStar.evolve / run_step signal.alarm"), ("alarm reset after failure", BP + " BinaryPopulation._safe_evolve"), ("step cap", "posydon/binary_evol/binarystar.py BinaryStar.evolve max_n_steps_per_binary")])

prop("C05", "Random streams are reproducible and never shared between ranks",
 "For a fixed seed or job identifier, rank count and metallicity list, the sampled initial binaries of each rank of each metallicity are identical on every run, under every execution order of ranks and metallicities, dump setting and failure pattern of other ranks, and each has a primary mass and either an orbit with a companion or none. Different ranks of one population never draw the same samples, nor do different metallicities of one MPI run or of one set of job arrays with distinct job identifiers. A rank re-run under its job identifier draws the same samples again, one re-run under a new identifier shares no stream with the ranks of its metallicity that completed, and resetting a rank's generator restarts that rank's own stream.",
 ["schedules", "configurations", "histories"],
 "any seed/job id, any rank count, any order and any restart history of ranks",
 "tests build at most one population object and never compare ranks, orders or reruns",
 [BP, "posydon/popsyn/io.py", "posydon/popsyn/independent_sample.py", SP],
 [("seed sequence spawn", BP + " BinaryPopulation.__init__"), ("generator", BP + " BinaryGenerator"), ("job-array environment", "posydon/popsyn/io.py binarypop_kwargs_from_ini")])

prop("C06", "Combining batch files never loses or duplicates binaries",
 "When several batch or rank files are combined into one new population file, the inputs are deleted only after every row of every input is durably in the output. If the combination is killed, fails to read an input, or runs out of disk space at any point, then every binary is still present in the surviving output or inputs, an unreadable or incomplete output is never left under the final name, and, whenever the complete output was not yet in place, running the combination again after the fault is gone yields the complete population with every binary exactly once.",
 ["crash_points", "fault_sequences", "configurations"],
 "a kill or I/O error at any write, read, rename or delete performed by the combination, then any number of reruns",
 "the combination is excluded from coverage and tests never interrupt it",
 [BP, SP, "posydon/CLI/io.py"],
 [("combine and remove", BP + " BinaryPopulation.combine_saved_files"), ("merge script", "posydon/CLI/io.py create_merge_script_text"), ("runner merge", SP + " PopulationRunner.merge_parallel_runs")])

prop("C07", "Killed jobs can be rescued into the same complete population",
 "For a job-array run set up by the command-line tool, whatever ranks are killed at whatever point and whatever order jobs run in, following the instructions and scripts the check command produces (recreating a missing folder when told so, rescue jobs, then merge jobs) ends with one population file per metallicity that holds every requested binary exactly once. Work of ranks that had completed is kept as it was, and only the missing ranks are run again, with the same index share they originally had.",
 ["crash_points", "schedules", "fault_sequences", "histories"],
 "any kill points of any ranks or merge jobs, any job start order and concurrency, several rounds of check",
 "tests only look at the text of generated scripts and mock every submission; no job is ever run or killed",
 ["posydon/CLI/popsyn/check.py", "posydon/CLI/popsyn/setup.py", "posydon/CLI/io.py", BP, "posydon/popsyn/io.py"],
 [("script generation", "posydon/CLI/io.py create_*"), ("missing batch detection", "posydon/CLI/popsyn/check.py find_missing_batch_indices / check_batch"), ("rank and size from environment", "posydon/popsyn/io.py binarypop_kwargs_from_ini")])

prop("C08", "The status check is truthful and always leads to progress",
 "The check command reports overall success exactly when every metallicity has a readable population file holding the requested number of binaries, and otherwise names precisely the metallicities and ranks whose output is missing. Checking never modifies run data (only the derived history lengths may be cached in a population file), and once faults stop, repeating check and submitting what it proposes reaches the all-passed report within a bounded number of rounds from every state that killed jobs can leave behind.",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "any reachable on-disk state of a run folder and any answers to the prompts",
 "tests feed hand-written directory states one at a time; states left behind by killed merges or mixed metallicities are not among them",
 ["posydon/CLI/popsyn/check.py", "posydon/CLI/io.py", "bin/posydon-popsyn"],
 [("status report", "posydon/CLI/popsyn/check.py check_run_status / check_batch / check_popsyn_function"), ("resubmission", "posydon/CLI/popsyn/check.py handle_batches_complete, posydon/CLI/io.py create_batch_rescue_script")])

prop("C09", "Reading a population is independent of chunk size and row order",
 "Every selection from a population file (by index, slice, list, boolean mask, column, query or position range, and the head, tail and length forms) returns exactly the rows and columns a plain in-memory table of the same file would return, in file order. The answer never depends on the chunk size used for reading, on the order in which ranks were merged, on earlier reads, or on other readers of a population whose history lengths are already stored.",
 ["inputs", "histories", "configurations"],
 "any population content and row order, any chunk size, any sequence of reads",
 "tests use tiny, index-sorted files that fit into one chunk",
 [SP],
 [("history access", SP + " History"), ("oneline access", SP + " Oneline"), ("chunked select", SP + " DFInterface.select"), ("population access", SP + " Population.__getitem__")])

prop("C10", "Exporting selections keeps tables consistent and the source intact",
 "Exporting any selection of binaries to a new or existing population file, in any sequence of exports, appends and interruptions, produces a file in which every exported binary has exactly its original per-binary row, history rows, history length, formation channel and metallicity bookkeeping, all keyed consistently, with nothing duplicated or dropped (the simulated masses of the source are added once per export). The source file and the in-memory source object are left exactly as they were, and an export that fails or is refused leaves the source and any previously exported data unharmed.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "any source layout, any selections and append sequences, any chunk size, a fault at any write",
 "tests export one ordered selection from a two-binary file",
 [SP],
 [("export", SP + " Population.export_selection"), ("history lengths", SP + " History.lengths"), ("mass table", SP + " Population.mass_per_metallicity")])

prop("C11", "Chunked analyses attribute every result to its own binary",
 "Formation channels and transient populations computed from a population file are, for every binary, exactly what the same user function yields when given that binary's full rows alone: independent of chunk size, of the row order of the file, of which other binaries are present, and of previous computations. Recomputing replaces earlier results without residue, and a failure or interruption while computing leaves the stored population tables intact.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "any population content and row order, any chunk size, any sequence of computations, a fault at any write",
 "tests process files of one chunk with index-sorted rows",
 [SP],
 [("formation channels", SP + " Population.calculate_formation_channels"), ("transient population", SP + " Population.create_transient_population")])

prop("C12", "Weights and rates belong to the right binary and never leak models",
 "Weights, efficiencies and cosmic rates derived from a transient population assign to every event the value determined by its own binary's properties and its metallicity's simulated mass, independent of row order, of the number of events per binary and of chunking; their sums are consistent with each other. Model parameters given to one computation never influence another, and recomputing under the same name replaces the earlier result completely.",
 ["inputs", "histories", "configurations"],
 "any transient population content and order (including several events per binary), any sequence of model computations",
 "tests use one event per binary in sorted order and compute one model once",
 [SP, "posydon/popsyn/rate_calculation.py", "posydon/popsyn/norm_pop.py"],
 [("model weights", SP + " TransientPopulation.calculate_model_weights"), ("cosmic weights", SP + " TransientPopulation.calculate_cosmic_weights"), ("rates", SP + " Rates")])

prop("C13", "A created grid file mirrors its simulation folders exactly once",
 "Building a grid file from a tree of stellar-evolution runs includes every usable run exactly once, with its own histories, profiles, initial and final values and source folder all under one and the same run number, and skips unusable runs (missing, empty or truncated files) without disturbing any other run. The result, apart from run numbering, does not depend on the order in which the file system lists folders, on whether files are compressed, or on which other runs are present or damaged.",
 ["inputs", "fault_sequences", "configurations"],
 "any set of runs, any subset damaged in any way, any listing order, any grid options",
 "tests build grids of a few intact runs with fixed listing order",
 [PG, "posydon/grids/io.py", "posydon/grids/scrubbing.py", "posydon/utils/gridutils.py"],
 [("grid creation", PG + " PSyGrid._create_psygrid"), ("run discovery", "posydon/grids/io.py GridReader / RunReader"), ("reading data files", "posydon/utils/gridutils.py read_MESA_data_file")])

prop("C14", "Grid files survive any sequence of open, edit, join and failure",
 "Whatever sequence of loading (eagerly or lazily), reading, closing, adding columns, post-processing and joining is applied to grid files, every value read equals the value last written, eager and lazy access agree, data of one grid never shows up in another, joining keeps exactly the newest run per initial condition, and inputs of a join are unchanged. If an edit fails, or a creation or join is refused, the data stored before remains readable (the old or, after an error of the storage, the new values; never neither); a half-written file is never accepted as a valid grid. (Replacing a grid on request by a new creation or join gives up the old content.)",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "any sequence of grid operations on several grids, with a kill or I/O error at any write",
 "tests perform single operations on fresh grids and never fail mid-way",
 [PG, "posydon/grids/lazy_hdf.py"],
 [("load/close/reload", PG + " PSyGrid.load / close / _reload_hdf5_file"), ("edit", PG + " PSyGrid.add_column / update_final_values"), ("join", PG + " join_grids"), ("lazy access", "posydon/grids/lazy_hdf.py LazyHDF5")])

prop("C15", "Data downloads install verified data or leave a retryable state",
 "A data set requested by the downloader is unpacked only if its checksum matches the published one (unless verification was switched off), and every file of a verified archive ends up in the data directory. If the transfer, verification or unpacking fails or is interrupted at any point, the failure is reported, no unverified content is installed, data outside that archive is not touched, and simply repeating the download succeeds once the fault is gone.",
 ["fault_sequences", "crash_points", "histories"],
 "any network fault (refused, truncated, corrupted, stalled), disk fault or kill at any point, then any number of retries",
 "tests mock the transfer with a single success or a single failure and never retry",
 ["posydon/utils/data_download.py", "posydon/utils/datasets.py"],
 [("download/verify/extract", "posydon/utils/data_download.py data_download"), ("catalogue", "posydon/utils/datasets.py")])

prop("C16", "Compressing simulation output never loses a data file",
 "Compressing a tree of simulation output keeps the content of every data file recoverable at all times: each original is removed only once its compressed copy is complete, duplicates or unneeded files are the only ones deleted, and files outside the given tree are never touched. If compression of any file fails or the tool is killed at any point, nothing is lost, and running it again completes the job; test mode changes nothing at all.",
 ["crash_points", "fault_sequences", "inputs"],
 "any directory tree and file names, any failing compression, a kill at any point, repeated runs",
 "tests compress one small tree with every command succeeding",
 ["posydon/utils/compress_mesa_files.py"],
 [("tree walk and compression", "posydon/utils/compress_mesa_files.py compress_dir / textsize / _compress_MESA")])

prop("C17", "Warning capture is lossless, scoped and always restored",
 "Within a capture context (contexts are not nested) every issued package warning is either recorded in order, or filtered, exactly as the settings of that context demand, and one that is not filtered away is counted in the registry in force; on leaving the context, normally or through an exception, unread records are issued, capture is switched off and the shared registry is in force again. Warnings issued in one context never appear in the records, counts or flags of another.",
 ["histories", "fault_sequences", "configurations"],
 "any interleaving of contexts, settings, filters, cache reads, resets and exceptions",
 "tests exercise each call once in isolation",
 ["posydon/utils/posydonwarning.py"],
 [("capture object", "posydon/utils/posydonwarning.py _Caught_POSYDON_Warnings"), ("context manager", "posydon/utils/posydonwarning.py Catch_POSYDON_Warnings"), ("filter", "posydon/utils/posydonwarning.py _apply_POSYDON_filter")])

prop("C18", "A binary's recorded history is exact, restorable and re-loadable",
 "After any sequence of evolution steps, including steps that fail part-way, the history of a binary and of both its stars has one entry per completed step in order, the last entry equals the current state, and all properties stay aligned. Restoring to any entry brings back exactly the recorded state at that entry (including whether a first supernova happened), re-evolving from it with the same steps reproduces the same outcome, and converting to tables or to a file and back loses nothing that is stored (a missing value may come back as another missing value).",
 ["histories", "fault_sequences", "inputs"],
 "any sequence of states, redirects, failures, restores and conversions",
 "the binary evolution package has no unit tests at all",
 ["posydon/binary_evol/binarystar.py", "posydon/binary_evol/singlestar.py", BP],
 [("history", "posydon/binary_evol/binarystar.py append_state / switch_star / restore"), ("tables", "posydon/binary_evol/binarystar.py to_df / from_df / to_oneline_df / from_oneline_df"), ("reload", BP + " PopulationManager.from_hdf")])

prop("C19", "Grid-point results reach the output folder despite job time limits",
 "Running one grid point leaves, after normal completion, the complete final simulation output in the output folder and nothing of an earlier or partial copy. If the batch system ends the job at its time limit while the simulation is still running, the output folder already holds a copy of the working data taken within the configured safety margin, and the safety copier never outlives, overwrites or corrupts the output of a finished run, for every relative timing of simulation, copier and job end.",
 ["schedules", "crash_points", "fault_sequences"],
 "any durations of the simulation and of file copies, any job end time and margin, any interleaving of the two processes",
 "the grid runner script has no tests; its behaviour depends on fork, sleep, kill and wall-clock races",
 ["bin/posydon-run-grid"],
 [("simulation/copier pair", "bin/posydon-run-grid run_mesa"), ("moving output", "bin/posydon-run-grid move_mesa_output"), ("working directory", "bin/posydon-run-grid create_working_directory")])

prop("C20", "Dynamic grid exploration keeps every worker result exactly once",
 "In a dynamic grid run with one coordinator and any number of workers, every result a worker reports is added to the stored results exactly once, a worker is given a new point only after reporting the previous one, and each proposal is computed from all results received so far. The results table on disk always contains every result received up to the last completed step, for every order and delay in which workers report and for any subset of failing simulations.",
 ["schedules", "fault_sequences"],
 "any number of workers, any message order and delay, any failing subset of simulations, any iteration budget",
 "needs a message-passing runtime; no test runs it",
 ["bin/posydon-run-grid"],
 [("coordinator", "bin/posydon-run-grid do_root_process_logic"), ("worker", "bin/posydon-run-grid do_child_process_logic")])

prop("C21", "The grid post-processing pipeline makes every product from complete inputs",
 "Whatever subset of steps is requested and in whatever order or concurrency the batch system runs the submitted jobs, each step of the post-processing pipeline starts only when, and as soon as, all tasks of the previous requested step have ended well, and every product listed by the user (grid slices, combined grids, extra values, interpolators, exported data set) is made by exactly one task and holds what processing its inputs one after the other would give; exported files are copies of their sources, and a slice is dropped from a combination only if it is absent and no earlier requested step will make it. When tasks are killed or disks fail, no incomplete product passes for a finished one, a failing task fails no other, and submitting again gives all products complete and up to date with their inputs; the clean-up joins the logs of all tasks without losing any and hands every file to the requested group.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "any selection of steps and stages, any set of grid types, metallicities, slices, compressions and missing slices, any interleaving of array tasks and dependent jobs, any kill or disk error and any re-submission, inputs changed between submissions",
 "tests call neither pipeline script; the properties span many cluster jobs with dependencies",
 ["bin/posydon-setup-pipeline", "bin/posydon-run-pipeline", "posydon/grids/psygrid.py", "posydon/utils/gridutils.py"],
 [("job graph", "bin/posydon-setup-pipeline"), ("one task", "bin/posydon-run-pipeline"), ("joining slices", "posydon/grids/psygrid.py join_grids"), ("extra values", "bin/posydon-run-pipeline calculate_extra_values / posydon/grids/post_processing.py"), ("export", "bin/posydon-run-pipeline export_dataset")])

prop("C22", "Populations started from given binaries evolve exactly those binaries",
 "When a population is started from a file of samples, the binary with index i starts from row i (modulo the number of rows) of that file: its masses, orbit, eccentricity and natal kicks are those of the row, for any accepted column names and order, a row without a secondary is an initially single star, and a kick that is not given is left to be drawn. When stored binaries of a population file are started again, each starts from exactly its stored initial state with its stored kicks and its own index, evolves as a new evolution from there, and the source file stays unchanged. Both hold for every selection and order of indices, any number of processes, any way of saving memory, and after processes were killed and repeated; the resulting population file holds exactly these evolutions.",
 ["inputs", "schedules", "crash_points", "histories"],
 "any file of samples (columns, names, order, empty entries, fewer or more rows than binaries), any stored population incl. failed binaries, any index list, split into processes, dump setting, kill point and repetition",
 "tests read small files by direct calls; starting stored populations again is excluded from the tests",
 ["posydon/popsyn/sample_from_file.py", "posydon/popsyn/binarypopulation.py", "posydon/binary_evol/binarystar.py"],
 [("samples from a file", "posydon/popsyn/sample_from_file.py get_samples_from_file, get_kick_samples_from_file"), ("generation", "posydon/popsyn/binarypopulation.py BinaryGenerator.draw_initial_binary"), ("starting again", "posydon/popsyn/binarypopulation.py PopulationManager.from_hdf"), ("restoring", "posydon/binary_evol/binarystar.py restore")])

# ---- not applicable to deterministic simulation -------------------------------------
prop("N01", "Sampled initial conditions follow the requested distributions",
 "Masses, mass ratios, orbital periods, separations and eccentricities drawn for a population lie within the configured limits and follow the configured probability laws.",
 ["inputs"], "any distribution configuration", "statistical statement about pure sampling functions",
 ["posydon/popsyn/independent_sample.py", "posydon/popsyn/distributions.py", "posydon/popsyn/IMFs.py"],
 [("samplers", "posydon/popsyn/independent_sample.py")])
prop("N02", "Supernova kicks and mass loss produce physically consistent orbits",
 "The orbit after a supernova follows from the orbit, masses, kick and anomaly before it by conservation of energy and angular momentum, and a system is reported disrupted exactly when it is unbound.",
 ["inputs"], "any pre-supernova state and kick", "continuous input space of a pure function",
 ["posydon/binary_evol/SN/step_SN.py"], [("orbital kick", "posydon/binary_evol/SN/step_SN.py orbital_kick")])
prop("N03", "Detached evolution conserves angular momentum exchange and stays in range",
 "Between events, detached evolution integrates the documented tidal, wind, magnetic-braking and gravitational-wave equations within the integrator's tolerance and stops at the first event.",
 ["inputs"], "any matched pair of tracks and orbit", "continuous dynamics needing the full stellar grids, which are not available offline",
 ["posydon/binary_evol/DT/step_detached.py"], [("integration", "posydon/binary_evol/DT/step_detached.py")])
prop("N04", "Grid interpolation reproduces training points and class boundaries",
 "Interpolated final values equal the stored values at grid points, stay within documented constraints elsewhere, and are only taken within one evolutionary class.",
 ["inputs"], "any query point and trained grid", "pure numerical function of its input",
 ["posydon/interpolation/IF_interpolation.py"], [("interpolators", "posydon/interpolation/IF_interpolation.py")])
prop("N05", "Star-formation histories and mass functions are normalised",
 "Fractional star-formation rates over metallicity and redshift bins are non-negative and sum to the documented totals for every model and binning.",
 ["inputs"], "any model and binning", "pure functions of their arguments",
 ["posydon/popsyn/star_formation_history.py", "posydon/popsyn/IMFs.py"], [("SFH models", "posydon/popsyn/star_formation_history.py")])
prop("N06", "Orbital and stellar conversion formulas are mutually inverse",
 "Conversions such as period to separation and back, Roche-lobe and binding-energy formulas are consistent with each other over their whole domain.",
 ["inputs"], "any physical input", "pure functions of their arguments",
 ["posydon/utils/common_functions.py"], [("conversions", "posydon/utils/common_functions.py")])
prop("N07", "Down-sampled histories stay within the configured error of the originals",
 "Every history point dropped when a track is down-sampled can be recovered by interpolation to within the configured maximum error.",
 ["inputs"], "any track and tolerance", "pure function of its input",
 ["posydon/grids/downsampling.py"], [("downsampling", "posydon/grids/downsampling.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
print(len(P))
