"""The properties, and the checks deciding them (see gen.py)"""

HOOKS = None

NOTES = (
    "Specifications in TLA+ (spec/*.tla) checked with TLC. Each check first explores "
    "its specification (small constants), then validates with TLC what the code of "
    "/repo/src did (recorded executions and evaluations), or replays in the code the "
    "histories generated from the specification. The code runs as pure Python from "
    "/repo/src (the compiled backends are not used), so no build is needed. See DESIGN.md."
)

TODO = "check not built yet"

EXEC_FILES = [
    "src/fluidimage/executors/exec_async.py",
    "src/fluidimage/executors/exec_async_sequential.py",
    "src/fluidimage/executors/exec_sequential.py",
    "src/fluidimage/executors/base.py",
    "src/fluidimage/topologies/base.py",
]

PROPERTIES = [
    {
        "id": "C01",
        "title": "Executors call each work once per item, lose nothing and always stop",
        "statement": (
            "For any topology whose works succeed, every executor calls each work exactly once on "
            "each item reaching it, giving it the value produced by the preceding work for this item, "
            "and produces exactly the expected results, each once. "
            "The computation returns only when all queues are empty and no work is running. "
            "It always returns, whatever the number of workers, the limits of the queues, the "
            "durations of the works and the number of items needed by a work combining many items."
        ),
        "over": ["schedules", "configurations", "programs"],
        "quantifier": (
            "all executors, all interleavings of the tasks, all chains of works (io, cpu, combining "
            "works), all numbers of items, workers and queue limits"
        ),
        "why": (
            "the tests run each executor a few times on 2-4 images with default limits; the "
            "interleavings, the small queue limits and the long queues are never reached"
        ),
        "files": EXEC_FILES
        + [
            "src/fluidimage/executors/exec_async_multiproc.py",
            "src/fluidimage/executors/exec_async_servers.py",
            "src/fluidimage/executors/servers.py",
            "src/fluidimage/executors/exec_async_seq_for_multi.py",
            "src/fluidimage/executors/multi_exec_async.py",
        ],
        "mechanism": [
            ["loops launching the works", "ExecutorAsync.def_async_func_work_io/cpu"],
            ["tasks", "ExecutorAsync.async_run_work_io/cpu"],
            ["detection of the end", "ExecutorAsync.update_has_to_stop"],
            ["sequential loop", "ExecutorSequential._run_works"],
            ["queues", "topologies.base.Queue, Work.check_exception, Work.prepare_argument"],
        ],
        "observe_at": ["calls of the works", "queue operations", "topology.results", "return of compute"],
        "check": "check_exec.py C01",
        "technique": "TLA+ model checking (TLC) of the executors + validation of recorded executions against the specification",
        "level_note": (
            "ExecAsync (loops, tasks, stop loop) is exhaustively checked for small topologies "
            "(safety, refinement of ExecAbs, termination under fairness). Recorded executions of all "
            "executors are validated by TLC against ExecAbs: seeded schedules with virtual time for "
            "the one-process executors, real runs for the multi-process ones. The code is sampled, not proved."
        ),
    },
    {
        "id": "C02",
        "title": "A failing work affects only its item, is logged, and is raised if asked",
        "statement": (
            "When a work raises for some item, no later work is called on this item nor on any "
            "combination containing it, and all other items are processed as if nothing had failed. "
            "Each failure, and nothing else, is described (work, item, traceback) in one file of the log "
            "directory of the execution, and the computation still returns normally. "
            "If stop_if_error is asked, the computation raises the error of a failing work instead."
        ),
        "over": ["fault_sequences", "schedules", "configurations"],
        "quantifier": "all sets of failing (work, item) pairs, all executors, all interleavings",
        "why": "the tests contain one failing work in one topology, and only check that the execution ends",
        "files": EXEC_FILES + ["src/fluidimage/executors/exec_async_servers.py"],
        "mechanism": [
            ["exceptions travelling in the queues", "topologies.base.Work.check_exception"],
            ["log of an exception", "ExecutorBase.log_exception"],
            ["stop_if_error", "ExecutorAsync.async_run_work_io/cpu, ExecutorSequential._run_works"],
        ],
        "observe_at": ["calls of the works", "log_*/exception_*.txt", "return or exception of compute"],
        "check": "check_exec.py C02",
        "technique": "TLA+ model checking (TLC) of the executors + validation of recorded executions with injected failures",
        "level_note": "as C01, for executions with injected failures; failures are exceptions raised by the functions of the works",
    },
    {
        "id": "C03",
        "title": "The numbers of running works and of waiting items are bounded",
        "statement": (
            "At any time at most nb_max_workers io works and at most nb_max_workers cpu works are "
            "running. "
            "A queue filled by an ordinary work and consumed by an ordinary work never contains more "
            "than nb_items_queue_max items plus the ones already being computed (at most one less than "
            "the number of workers)."
        ),
        "over": ["schedules", "configurations", "programs"],
        "quantifier": "all interleavings, all chains of works, all numbers of workers and queue limits",
        "why": "no test observes the number of running works nor the lengths of the queues",
        "files": ["src/fluidimage/executors/exec_async.py", "src/fluidimage/executors/exec_async_sequential.py"],
        "mechanism": [
            ["counters of working workers", "ExecutorAsync.nb_working_workers_io, nb_working_workers_cpu"],
            ["limit of the output queue", "ExecutorAsync._is_output_queue_full"],
        ],
        "observe_at": ["calls of the works", "queue operations"],
        "check": "check_exec.py C03",
        "technique": "TLA+ model checking (TLC) of the executors + validation of recorded executions",
        "level_note": "as C01, for the clauses about the bounds; one-process asynchronous executors",
    },
    {
        "id": "C04",
        "title": "The results of a topology do not depend on the executor",
        "statement": (
            "For a given topology (PIV, BOS, preprocessing, image to image, mean image, surface tracking), "
            "a given set of images and given parameters, all executors and numbers of processes "
            "produce the same set of result files with the same content, and report the same set of results. "
            "This set contains exactly one result per expected couple, image or subset. "
            "The same holds when the images are modified by a user function or class before the computation."
        ),
        "over": ["configurations", "schedules"],
        "quantifier": "all topologies, executors, numbers of processes, numbers of images and strides",
        "why": "the tests run each (topology, executor) pair once and do not compare the results",
        "files": [
            "src/fluidimage/topologies/piv.py",
            "src/fluidimage/topologies/bos.py",
            "src/fluidimage/topologies/preproc.py",
            "src/fluidimage/topologies/image2image.py",
            "src/fluidimage/topologies/mean.py",
            "src/fluidimage/topologies/surface_tracking.py",
            "src/fluidimage/executors/multi_exec_async.py",
            "src/fluidimage/executors/multi_exec_subproc.py",
        ],
        "mechanism": [["works of the topologies", "Topology*.fill_*, make_couples, save_*"]],
        "observe_at": ["files of the result directory", "topology.results"],
        "check": "check_topo.py C04",
        "technique": "executions of the real topologies validated with TLC against the TLA+ specification of their results (TopoResults)",
        "level_note": (
            "the results of a topology are specified as a function of its elements (Names, TopoResults); random "
            "topologies and series of images are executed with all executors (seeded schedules with virtual time for the "
            "one-process executors) and TLC validates the files and the reported results of all executions; sampled"
        ),
    },
    {
        "id": "C05",
        "title": "Splitting the work between processes partitions it",
        "statement": (
            "Whatever the range of indices (start, stop, step) or the list of indices and the number of processes, the parts given to "
            "the processes are disjoint, preserve the order, and their union is exactly what has to be computed. "
            "Their sizes differ by at most one, so that no process is idle when there are enough elements. "
            "The number of expected results announced before the computation is the number of elements to be computed."
        ),
        "over": ["inputs", "configurations"],
        "quantifier": "all (start, stop, step), lists of indices, numbers of processes, kinds of splitters",
        "why": "the tests check two splits of one series",
        "files": [
            "src/fluidimage/topologies/splitters.py",
            "src/fluidimage/executors/multi_exec_async.py",
            "src/fluidimage/executors/multi_exec_subproc.py",
        ],
        "mechanism": [
            ["split of a range, of a list", "splitters.split_range, split_list"],
            ["splitters", "SplitterFromSeries, SplitterFromImages"],
        ],
        "observe_at": ["ranges, index lists and parameter files of the processes", "num_expected_results"],
        "check": "check_split.py C05",
        "technique": "TLA+ model checking (TLC) of the specification of the splits + validation with TLC of the splits computed by the code",
        "level_note": (
            "Split.tla is explored for all small ranges, lists and numbers of processes; the same domain (and random larger values) is evaluated in the code (split functions, splitters of the real topologies, announced numbers of results) and TLC validates each evaluation; exhaustive for the small domain, sampled beyond"
        ),
    },
    {
        "id": "C06",
        "title": "An interrupted computation is completed by the 'complete' mode",
        "statement": (
            "After any history of interruptions, deletions of result files and executions, an execution "
            "in mode 'complete' computes exactly the results whose file is missing and leaves the other files untouched. "
            "At the end the result directory contains the same files with the same content as after an uninterrupted execution. "
            "If nothing is missing, nothing is computed and no file is modified, for any executor."
        ),
        "over": ["histories", "crash_points"],
        "quantifier": "all subsets of existing results, all interruption points, topologies and executors",
        "why": "the tests complete at most one fixed partial computation",
        "files": [
            "src/fluidimage/topologies/base.py",
            "src/fluidimage/topologies/piv.py",
            "src/fluidimage/topologies/bos.py",
            "src/fluidimage/topologies/image2image.py",
            "src/fluidimage/topologies/preproc.py",
        ],
        "mechanism": [
            ["indices still to be computed", "compute_indices_to_be_computed"],
            ["selection of the elements", "fill_couples_of_names_and_paths, fill_queue_paths"],
        ],
        "observe_at": ["files of the result directory"],
        "check": "check_resume.py C06",
        "technique": "TLA+ model checking (TLC) of Resume + replay in the code of histories generated from the specification, validated with TLC",
        "level_note": (
            "Resume.tla (executions, interruptions at any step, deletions, signals) is explored exhaustively for small constants; histories of the specification are replayed with the real topologies and executors (SIGKILL at chosen calls or at chosen writes of files, deletions, signals) and TLC validates the state of the directory after each step; sampled"
        ),
    },
    {
        "id": "C07",
        "title": "The result directory is chosen as asked and never destroys other results",
        "statement": (
            "For any existing content of the disk and any answer of the user, the mode of saving "
            "('new_dir', 'complete', 'recompute', 'ask') and the postfix determine the result directory as documented: "
            "'new_dir' always gives a directory which did not exist, 'complete' and 'recompute' the existing one. "
            "'new_dir' and 'complete' never modify nor delete an existing result; only 'recompute' may replace results. "
            "The process computing in 'ask' mode stops without touching anything when the user asks to stop."
        ),
        "over": ["histories", "configurations"],
        "quantifier": "all sequences of computations, contents of the disk, modes, postfixes and answers",
        "why": "the tests create one directory in one mode at a time",
        "files": ["src/fluidimage/topologies/base.py", "src/fluidimage/data_objects/piv.py"],
        "mechanism": [["directory", "prepare_path_dir_result"]],
        "observe_at": ["path of the result directory", "files on the disk"],
        "check": "check_dirs.py C07",
        "technique": "TLA+ model checking (TLC) of ResultDir + replay in the code of histories generated from the specification, validated with TLC",
        "level_note": (
            "ResultDir.tla (computations in the 4 modes, answers, interruptions, directories created and removed by the user) is explored exhaustively for small constants; histories of the specification are replayed with the real topologies and executors and TLC validates the directories after each step; sampled"
        ),
    },
    {
        "id": "C08",
        "title": "Each execution has its own job record, true at any time",
        "statement": (
            "Each execution creates its own log and, if there is something to compute, its own job record, never shared with another "
            "execution in the same result directory. The job record contains a lock while and only while the execution is running "
            "(or if it was killed), then the date of its end, the parameters from which "
            "the same computation can be repeated, and the numbers and names of the results obtained up to now, which only grow. "
            "The monitor shows for each job the number of results obtained and whether it is still running."
        ),
        "over": ["histories", "schedules", "configurations"],
        "quantifier": "all sequences of executions in a directory, all executors, all times of observation",
        "why": "the tests only look at the record after one execution",
        "files": [
            "src/fluidimage/executors/base.py",
            "src/fluidimage/executors/exec_async_seq_for_multi.py",
            "src/fluidimage/gui/monitor.py",
            "src/fluidimage/run_from_xml.py",
        ],
        "mechanism": [
            ["job directory", "ExecutorBase._init_log_path, _save_job_data"],
            ["lock", "_save_lock_file, _release_lock"],
            ["results", "_init_results_log, _save_results_names"],
        ],
        "observe_at": ["job_*/ and log_* in the result directory"],
        "check": "check_jobs.py C08",
        "technique": "TLA+ model of the executions sharing a directory of results (Jobs: names of the records, lock, non-atomic saving of the numbers and names, kills) checked with TLC; histories of real executions (all executors, concurrent processes, errors, signals, kills) are observed by polling and from inside of the works, and validated by TLC (JobsTrace) with the predicates which are invariants of the model",
        "level_note": (
            "the records are observed at the instants of the polls and of the calls"
        ),
    },
    {
        "id": "C09",
        "title": "The analysis of a log gives what happened during the execution",
        "statement": (
            "For any log written by an execution, complete or being written, the log analysis (LogTopology) gives the names "
            "of the works and, for each work, the keys, the starting times and the durations of exactly the calls which "
            "are logged (nan for a call which failed or did not end, including when the same key is used many times, "
            "in one process or several), and the "
            "characteristics (topology, executor, numbers of cpus and workers) of the execution. The plots show these data."
        ),
        "over": ["histories", "inputs"],
        "quantifier": "all executions (works, keys, interleavings, failures)",
        "why": "the tests parse one log and check nothing about its content",
        "files": ["src/fluidimage/topologies/log.py", "src/fluidimage/util/log.py"],
        "mechanism": [["parser", "DataLogFile, LogTopology"]],
        "observe_at": ["attributes of the analysed log"],
        "check": "check_log.py C09",
        "technique": "TLC model checking of the analysis (LogModel) and TLC validation (LogTrace) of the analyses of the logs of generated executions",
        "level_note": (
            "calls recorded by the functions of the works (virtual and real time) compared by TLC with what LogTopology gives, for complete and truncated logs"
        ),
    },
    {
        "id": "C10",
        "title": "Different elements give different result files",
        "statement": (
            "Two different couples (or images) computed by an execution, or by successive executions in the same "
            "result directory varying the same index of the images with other strides and ranges, are never saved in the same "
            "file, for any format of the names of the images, numbers of indices, strides and selections. "
            "The file used to decide that a result already exists is the file in which it is saved. "
            "A result loaded from its file gives back the names of the images from which it was computed."
        ),
        "over": ["inputs", "configurations"],
        "quantifier": "all series (base name, separators, numbers and formats of indices, extensions)",
        "why": "the tests use three series of images",
        "files": ["src/fluidimage/data_objects/piv.py", "src/fluidimage/topologies/piv.py", "src/fluidimage/topologies/bos.py"],
        "mechanism": [["names", "get_name_piv, get_name_bos, HeavyPIVResults._get_name"]],
        "observe_at": ["names of the result files"],
        "check": "check_names.py C10",
        "technique": "TLA+ model checking (TLC) of ResultNames + executions of the real topologies validated with TLC (NamesTrace)",
        "level_note": (
            "the names of the result files are specified as functions of the names of the images and shown to be injective for small series; random series (1 to 3 indices, letters, separators, extensions) are computed by successive executions with other strides and ranges, and TLC validates that files and elements correspond one to one, that existing results are recognised and that loaded results name their images; sampled"
        ),
    },
    {
        "id": "C11",
        "title": "The mean image is the exact mean of all images",
        "statement": (
            "For any images, the mean image computed by the topology is the mean of all the images of the series, "
            "each counted exactly once, whatever the executor, the number of processes and the order in which the images are processed. "
            "A missing or unreadable image is reported as a failure and does not falsify the mean of the others."
        ),
        "over": ["inputs", "schedules", "configurations"],
        "quantifier": "all images (values, types), orders of reduction, splits",
        "why": "the tests compute the mean of three fixed images and accept rounding",
        "files": ["src/fluidimage/topologies/mean.py"],
        "mechanism": [["reduction", "TopologyMeanImage.main, compute_mean_from_paths, final_seq_work"]],
        "observe_at": ["mean image"],
        "check": "check_mean.py C11",
        "technique": "TLA+ model checking (TLC) of Mean + validation with TLC of executions",
        "level_note": (
            "Mean.tla (readings, partial sums by process, final sum) is explored for all splits and failures of 3-5 images; the images computed by the topology (all executors, seeded schedules with virtual time, injected failures, unreadable files, command line) are compared pixel by pixel by TLC to the exact mean; sampled"
        ),
    },
    {
        "id": "C12",
        "title": "Couples and subsets contain exactly their images, in order",
        "statement": (
            "For any series (couples, subsets, strides, ranges) and any order of arrival of the images, each couple or subset given to a computation contains "
            "exactly the images of the corresponding indices, in the order of the series, each couple once. "
            "An image is read once and dropped once it is not needed anymore. "
            "A couple or subset containing an image which could not be read is not computed."
        ),
        "over": ["schedules", "inputs", "configurations"],
        "quantifier": "all series, orders of arrival, failures",
        "why": "the tests use couples of a single series in arrival order",
        "files": ["src/fluidimage/topologies/piv.py", "src/fluidimage/topologies/preproc.py", "src/fluidimage/topologies/base.py"],
        "mechanism": [["couples", "TopologyPIV.make_couples"], ["subsets", "TopologyPreproc.make_subsets"]],
        "observe_at": ["arguments of the computations", "content of the queues"],
        "check": "check_couples.py C12",
        "technique": "TLA+ model checking (TLC) of Couples + validation with TLC of recorded executions",
        "level_note": (
            "Couples.tla (arrival of the images, making of the elements) is explored for all small families of subsets and failures; executions of the PIV and preprocessing topologies (seeded schedules, virtual time, injected failures) are recorded and validated by TLC as behaviours of Couples; the code is sampled"
        ),
    },
    {
        "id": "C13",
        "title": "PIV vectors are located at the centres of the windows actually correlated",
        "statement": (
            "For any image size, window size, overlap, number of passes and crop of the images (mask), the vectors are on a regular grid "
            "(constant step, the last row and column can be closer) whose windows are inside the cropped image and leave uncovered "
            "less than half a step. The two windows correlated for a vector are separated by the displacement given by the previous pass, "
            "interpolated on the grid, symmetrically around the vector (one of them on the vector close to the borders), and the position "
            "saved for the vector is the middle of their centres, in the original images. The pixels out of the cropped image do not "
            "contribute. A vector which cannot be computed (no window, no peak) is nan with an error; for the others, the result is "
            "the displacement found by the correlation plus the one of the windows."
        ),
        "over": ["inputs", "configurations"],
        "quantifier": "all image sizes, window sizes, overlaps, masks, displacements of the previous pass",
        "why": "the tests use one size of images and one or two windows",
        "files": ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/with_mask.py"],
        "mechanism": [["grid", "BaseWorkPIV._prepare_with_image"], ["windows", "_crop_im0, _crop_im1"]],
        "observe_at": ["xs, ys, deltaxs, deltays of the results", "windows given to the correlation"],
        "check": "check_windows.py C13",
        "technique": "TLC model checking of the grids and windows (MCWindows) and TLC validation (WindowsTrace) of real PIV computations on images made of codes",
        "level_note": (
            "the windows correlated by multipass computations are located in the images from their content and compared with the specification by TLC"
        ),
    },
    {
        "id": "C14",
        "title": "All correlation methods give the displacement of the correlation peak",
        "statement": (
            "For any couple of windows, every correlation method gives, for the shifts it covers, the cross-correlation of the windows, and the displacement deduced from the correlation "
            "is the one of its highest value inside the allowed displacements, with the same sign convention for all methods. "
            "A displacement larger than the allowed one or a peak at the border is reported as an error, never returned as a valid result."
        ),
        "over": ["inputs", "configurations"],
        "quantifier": "all windows (contents, even and odd shapes, different shapes), methods, limits",
        "why": "the tests use one window shape and a few displacements",
        "files": ["src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/fft.py", "src/fluidimage/calcul/subpix.py"],
        "mechanism": [["correlations", "CorrelBase subclasses"], ["peak", "compute_displacement_from_correl"]],
        "observe_at": ["correlation arrays", "displacements", "PIVError"],
        "check": "check_correl.py C14",
        "technique": "TLA+ specification of the correlations, of the search of their peaks (Correl) and of shared transform buffers (Buffers), small instances checked with TLC; correlation maps, displacements and results under all single preemptions of the real classes validated against it",
        "level_note": (
            "windows up to 8 x 8 with small integers; no GPU method"
        ),
    },
    {
        "id": "C15",
        "title": "Fixing a field only removes or replaces false vectors",
        "statement": (
            "A vector of a pass is flagged exactly when its correlation failed or is too low, its displacement is too large or it is too far "
            "from the mean of its valid neighbours; it becomes NaN, and the reasons and its former value are recorded. A vector with a valid correlation is replaced "
            "only by a secondary peak which is good enough (correlation, displacement, difference with the neighbours) and nearer to the mean of the neighbours. "
            "All other vectors and quantities of the pass are unchanged."
        ),
        "over": ["inputs", "configurations"],
        "quantifier": "all fields, secondary peaks, thresholds",
        "why": "the tests fix the output of a single computation",
        "files": ["src/fluidimage/works/piv/fix.py", "src/fluidimage/calcul/mean_neighbors.py"],
        "mechanism": [["fix", "WorkFIX.calcul"], ["neighbours", "mean_neighbors_xy"]],
        "observe_at": ["deltaxs, deltays, errors of the result"],
        "check": "check_fix.py C15",
        "technique": "TLA+ specification of the detection and replacement of false vectors (Fix), small fields checked step by step with TLC (MCFix); calls of WorkFIX in real PIV computations with random correlations validated against it",
        "level_note": (
            "grids of at least 2 x 2 vectors; the correlation is a scripted class"
        ),
    },
    {
        "id": "C16",
        "title": "Saved PIV results are read back identical",
        "statement": (
            "Any (multipass) PIV result saved to a file and loaded back has the same fields (up to the single precision of the files), coordinates, errors, wrong vectors, "
            "TPS coefficients, parameters, images and passes as before saving, and saving it again gives an equivalent file. "
            "The light results, the vector fields obtained from files and the files for uvmat contain the displacements of the requested pass, "
            "and the recomputed grids are those of the passes."
        ),
        "over": ["inputs", "histories"],
        "quantifier": "all results (numbers of passes, errors, secondary peaks), sequences of save and load",
        "why": "the tests save and load one result and compare little",
        "files": ["src/fluidimage/data_objects/piv.py", "src/fluidimage/postproc/piv.py"],
        "mechanism": [["save and load", "HeavyPIVResults, MultipassPIVResults, LightPIVResults"]],
        "observe_at": ["objects loaded"],
        "check": "check_saved.py C16",
        "technique": "TLA+ (TLC): model checking of SavedResults (MCSaved) and validation of histories of real results and files against it (SavedTrace)",
        "level_note": (
            "contents compared through digests in the precision of the files"
        ),
    },
    {
        "id": "C17",
        "title": "Operations on vector fields act on all components and keep coordinates",
        "statement": (
            "Arithmetic, extraction, truncation, filters, averaging, gradient and Fourier operations on vector fields and arrays of vector fields act as documented, on all components, keep the coordinates "
            "consistent with the arrays, and do not modify their operands. "
            "The field read from a saved file is equal to the saved one."
        ),
        "over": ["inputs", "histories"],
        "quantifier": "all fields (shapes, values), sequences of operations",
        "why": "the tests use a single field read from a result",
        "files": ["src/fluidimage/postproc/vector_field.py", "src/fluidimage/postproc/util.py"],
        "mechanism": [["operations", "VectorFieldOnGrid, ArrayOfVectorFieldsOnGrid"]],
        "observe_at": ["arrays of the fields"],
        "check": "check_fields.py C17",
        "technique": "TLA+ (TLC): model checking of VectorFields (MCFields) and validation of histories of operations of the real fields against it (FieldsTrace)",
        "level_note": (
            "exact dyadic arithmetic; gaussian filters only where the result is exact"
        ),
    },
    {
        "id": "C18",
        "title": "An execution leaves its process as it found it and stops on demand",
        "statement": (
            "After an execution (even with nothing to compute), the standard streams are the ones before the execution, its log file is "
            "closed and complete, no lock remains and other topologies can be executed in the same process. "
            "When the stop signal is received, no new work is started after the items already taken, the execution returns, "
            "and what has been saved can be completed later."
        ),
        "over": ["histories", "schedules", "crash_points"],
        "quantifier": "all sequences of executions in a process, all times of the signal",
        "why": "the tests never look at the state of the process after an execution",
        "files": EXEC_FILES,
        "mechanism": [["streams and log", "ExecutorBase._reset_std_as_default"], ["signal", "handler_signals"]],
        "observe_at": ["sys.stdout, sys.stderr", "log file", "lock", "calls of the works after the signal"],
        "check": "check_process.py C18",
        "technique": "TLA+ model of the executors with the stop signal received at any time (ExecAbs/ExecAsync, refinement and termination checked by TLC); real executors under controlled schedules and in real time, signal at any call, validated against ExecAbs (ExecTrace); histories of executions in a process validated against Jobs (JobsTrace): streams, descriptors, logger, lock, next executions",
        "level_note": (
            "the reception of the signal between two bytecodes is sampled, not enumerated"
        ),
    },
    {
        "id": "C22",
        "title": "Preprocessing applies exactly the enabled tools, in order, to each image",
        "statement": (
            "The preprocessing of a stack of images applies exactly the enabled tools, in the order of params.tools.sequence (by default, of the available tools), with their parameters. "
            "The sliding tools subtract from each pixel the weighted median, percentile or minimum of the window around it (with the asked boundary condition), "
            "never giving negative values with the python backend; the temporal tools do the same in time and space; the other tools act as documented; the tools which "
            "are not temporal treat each image independently. The computations do not overflow for images of integers, the results do not depend on how the images are given (array, list, tuple), "
            "the inputs are not modified, and the images given and saved for a subset are the ones of the subset (negative values saved as zeros)."
        ),
        "over": ["inputs"],
        "quantifier": "all images (shapes, types, values), tools, parameters, sequences of tools, subsets",
        "why": "the tests only call the tools with one image, without looking at the results",
        "files": [
            "src/fluidimage/works/preproc/_toolbox_py.py",
            "src/fluidimage/works/preproc/_toolbox_cv.py",
            "src/fluidimage/works/preproc/toolbox.py",
            "src/fluidimage/works/preproc/io.py",
            "src/fluidimage/works/preproc/__init__.py",
            "src/fluidimage/data_objects/preproc.py",
        ],
        "mechanism": [
            ["tools", "functions of _toolbox_py.py and _toolbox_cv.py"],
            ["sequence", "PreprocToolsBase.apply"],
            ["subsets and saving", "WorkPreproc.calcul, PreprocResults.save, get_ind_middle"],
        ],
        "observe_at": ["results of the tools", "PreprocResults.data", "saved files"],
        "check": "check_preproc.py C22",
        "technique": "TLA+ specification of the tools (Preproc); sequences of tools on all small stacks checked with TLC (MCPreproc); calls of the real tools and works executed step by step by TLC and compared (PreprocTrace)",
        "level_note": (
            "exact for the sliding, temporal and threshold tools; bounds, monotony, invariants and independence for the others"
        ),
    },
    {
        "id": "C19",
        "title": "Subpixel refinement is accurate",
        "statement": (
            "For an analytic correlation peak, the subpixel methods give the position of the maximum "
            "with the documented accuracy, for any fractional displacement."
        ),
        "over": ["inputs"],
        "quantifier": "all fractional displacements, widths of the peak, methods",
        "why": "the tests use a few displacements",
        "files": ["src/fluidimage/calcul/subpix.py"],
        "mechanism": [["subpixel", "SubPix.compute_subpix"]],
        "observe_at": ["displacement"],
        "na": (
            "accuracy of floating point computations (logarithms, least squares): TLC has neither reals nor "
            "floats, an explicit specification of the states says nothing about it"
        ),
    },
    {
        "id": "C20",
        "title": "Camera calibrations map physical space to pixels and back",
        "statement": (
            "For any calibration built from points consistent with a camera, the mapping from physical space to pixels and its inverse "
            "are inverse of each other within the fitting accuracy."
        ),
        "over": ["inputs"],
        "quantifier": "all cameras, points and planes",
        "why": "the tests use one set of calibration images",
        "files": [
            "src/fluidimage/calibration/calib_tsai.py",
            "src/fluidimage/calibration/calib_direct.py",
            "src/fluidimage/calibration/calib_cv.py",
        ],
        "mechanism": [["calibrations", "CalibrationTsai, CalibDirect, CalibCV"]],
        "observe_at": ["converted coordinates"],
        "na": (
            "accuracy of floating point geometry (matrix inversions, interpolation, OpenCV): no state machine, and TLC "
            "has no reals"
        ),
    },
    {
        "id": "C21",
        "title": "Thin plate splines reproduce smooth fields",
        "statement": (
            "The thin plate spline interpolation by subdomains reproduces any affine field exactly and smooth fields with the "
            "tolerance asked, independently of the number of subdomains."
        ),
        "over": ["inputs"],
        "quantifier": "all fields, subdomain sizes, smoothing coefficients",
        "why": "the tests use one analytic field",
        "files": ["src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py"],
        "mechanism": [["interpolation", "ThinPlateSplineSubdom"]],
        "observe_at": ["interpolated values"],
        "na": "numerical linear algebra on floats: outside of what TLC (32-bit integers) can evaluate",
    },
]
