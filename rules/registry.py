"""The properties and the rules that decide each of them.

``python3 tools/generate.py`` writes properties.jsonl and MANIFEST.json from this file.
"""
from __future__ import annotations

import importlib

FB = "neps/state/filebased.py"
NS = "neps/state/neps_state.py"
RT = "neps/runtime.py"
TR = "neps/state/trial.py"
PR = "neps/state/protocols.py"
EV = "neps/state/_eval.py"
SE = "neps/state/seed_snapshot.py"
API = "neps/api.py"

ENCF = "neps/search_spaces/encoding.py"
DOMF = "neps/search_spaces/domain.py"
PRIF = "neps/sampling/priors.py"
SAMF = "neps/sampling/samplers.py"
GPF = "neps/optimizers/bayesian_optimization/models/gp.py"
FTF = "neps/optimizers/bayesian_optimization/models/ftpfn.py"
BOF = "neps/optimizers/bayesian_optimization/optimizer.py"
SPOLF = "neps/optimizers/multi_fidelity/sampling_policy.py"
MFBO = "neps/optimizers/multi_fidelity/mf_bo.py"
IFBOF = "neps/optimizers/multi_fidelity/ifbo.py"
SYNTH = "abstract interpretation over the syntax tree: path, event and decision-table rules"

P = {}


def prop(id, title, statement, over, quant, why, files, mech, rules, technique=SYNTH, assumes=()):
    P[id] = {
        "id": id,
        "title": title,
        "statement": statement,
        "over": over,
        "quant": quant,
        "why": why,
        "files": files,
        "mech": mech,
        "rules": rules.split(),
        "technique": technique,
        "assumes": list(assumes),
    }


ENV = [
    "Python semantics as modelled by sa/absint.py; third-party calls (torch, numpy, pandas, portalocker, yaml) return arbitrary values or raise arbitrary exceptions and do not touch neps objects",
    "portalocker's exclusive file lock is exclusive between processes",
]
WELL = ["the user's evaluation function returns a result of the documented form"]

VERSION = "store.version_put store.version_sync store.version_new store.version_load store.file_version_tags store.synced_results store.unsafe_access"
LOCKS = "store.synced_locked store.file_lock_exclusive store.state_accessors"
LAYOUT = "store.resource_layout store.trial_layout"

prop(
    "S01",
    "Only the worker that wins the claim evaluates a trial",
    "A worker runs the user's evaluation function for a trial only after it has, in the shared storage, moved that trial to the evaluating state under the trial's lock and against the version of the record it had read. A worker whose claim is refused because another worker changed the trial meanwhile does not evaluate it, reports nothing for it, and goes on to another trial.",
    ["schedules", "crash_points"],
    "every interleaving of any number of workers claiming trials from one shared directory",
    "The tests run one or two workers in one fixed interleaving; the window between reading a pending trial and storing the claim is never hit.",
    [RT, NS, FB, PR, TR],
    [("claim before evaluation", f"{RT}: DefaultWorker.run"), ("versioned put under lock", f"{PR}: Synced.put / VersionedResource.put"), ("pending scan", f"{NS}: get_next_pending_trial")],
    f"worker.loop_claims worker.loop_refusal {VERSION} {LOCKS} {LAYOUT} store.pending_order store.next_pending evaluation.trial_transitions",
    assumes=ENV,
)
prop(
    "S02",
    "A write based on a stale copy of a shared record is refused",
    "When a process stores a shared record (trial, optimizer state, seed, error list), the write happens only if the stored version still equals the version the process last read or wrote; otherwise the stored data is left untouched and the caller is told of the conflict. Every successful write gives the record a new version, and after refreshing, the process holds exactly the stored data together with its version.",
    ["schedules"],
    "every interleaving of reads and writes of one record by several processes",
    "The tests exercise one conflicting write of an in-memory record; they do not cover each order of checking, writing and tagging, nor the file-based implementation's every path.",
    [PR, FB],
    [("version check then write then bump", f"{PR}: VersionedResource.put"), ("refresh", f"{PR}: VersionedResource.sync"), ("version files", f"{FB}: FileVersioner")],
    f"{VERSION} {LAYOUT} store.synced_locked",
    assumes=ENV,
)
prop(
    "S03",
    "Shared records are only read and written under their exclusive lock",
    "Every refresh and every write of a shared record by a running worker happens while the process holds that record's own exclusive lock, and the lock is released on every way out, including exceptions. The file lock used is exclusive between processes, and waiting for it either obtains it or fails; it never proceeds without it.",
    ["schedules", "fault_sequences"],
    "every path through the storage layer, including exceptional ones, under every interleaving",
    "A lock that is dropped, shared, taken too late or leaked on an exception goes unnoticed unless two processes collide in a window of microseconds.",
    [PR, FB, NS],
    [("lock around operations", f"{PR}: Synced"), ("file lock", f"{FB}: FileLocker.lock")],
    f"{LOCKS} store.unsafe_access state.sample_locks_released state.lock_order {LAYOUT}",
    assumes=ENV,
)
prop(
    "S04",
    "Creating and reopening a run use the same files, locks and formats",
    "Whichever process creates a shared record and whichever reopens it use the same location, the same lock file, the same version file and the same reader and writer, and no two different records share any of them. Reopening a run never replaces a record that already exists, and every record a run needs is created by the time the run is opened for the first time. Any number of processes may open the same directory, new or old, at the same time.",
    ["schedules", "histories"],
    "every order in which processes create and reopen the records of one run directory",
    "Tests create and load within one process, where a lock or version file that differs between creating and loading still appears to work.",
    [FB],
    [("record layouts", f"{FB}: create_or_load_filebased_neps_state, load_filebased_neps_state, TrialRepoInDirectory")],
    f"{LAYOUT} store.directories_shared store.initial_records store.version_load store.version_new store.file_version_tags",
    assumes=ENV,
)
prop(
    "S05",
    "Locks have one global order and are never held while user code runs",
    "All code that holds more than one of a run's locks acquires them in the same order, so workers cannot deadlock on them. No lock of the shared state is held while the user's evaluation function runs.",
    ["schedules"],
    "every path that acquires a lock while holding another, over all workers",
    "Deadlock needs a particular interleaving of two processes; a test that does not hit it passes.",
    [NS, PR, RT],
    [("nested acquisition", f"{NS}: sample_trial, report_trial_evaluation"), ("evaluation outside locks", f"{RT}: DefaultWorker.run")],
    "state.lock_order state.sample_locks_released",
    assumes=ENV,
)
prop(
    "S06",
    "Sampling a new trial is one atomic step over the shared state",
    "Between reading the recorded trials, the random state and the optimizer state and storing the newly sampled trial with the updated random state and optimizer state, a worker holds the locks of both the seed and the optimizer state, so no two workers sample from the same state. The optimizer is asked with all recorded trials and the stored budget, its proposal is stored as a new pending trial exactly as proposed, and the random state and optimizer state stored afterwards are those after the proposal was drawn.",
    ["schedules", "histories"],
    "every interleaving of sampling by several workers, and every proposal an optimizer can make",
    "The tests sample sequentially in one process, where a lock released too early or a state that is not stored back is invisible.",
    [NS],
    [("locked sampling", f"{NS}: NePSState.sample_trial")],
    f"state.sample_atomic state.sample_locks_released state.sample_inputs state.sample_rng state.sample_state_kept state.sample_trial_content {LOCKS} store.unsafe_access store.trial_layout store.version_new",
    assumes=ENV,
)
prop(
    "S07",
    "The stored random state covers every generator and is restored exactly",
    "The random state recorded with a run contains the full state of Python's, NumPy's and PyTorch's global generators (including CUDA when available); before a trial is sampled all of them are set to the recorded state, and after it the advanced states are recorded. Writing the record to disk and reading it back loses no part of it, so that a run resumed with the same seed continues the same random sequence.",
    ["histories", "configurations"],
    "every generator, with and without the optional ones, and every number of resumptions",
    "Tests compare a few recapture round trips; they do not see a generator or a component that is captured but not restored, or restored before sampling in one path only.",
    [SE, FB, NS],
    [("capture and restore", f"{SE}: SeedSnapshot"), ("restore before sampling", f"{NS}: sample_trial"), ("persist", f"{FB}: ReaderWriterSeedSnapshot")],
    f"records.rng_capture records.seeds_roundtrip state.sample_rng state.sample_atomic {VERSION}",
    assumes=ENV,
)
prop(
    "S09",
    "Every persisted record reads back completely",
    "For trials (configuration, state, metadata and report), the optimizer state, the optimizer description, the error list and the random state, everything that is written is read back into the same fields with the same meaning, whichever optional parts are present. Values are converted for storage without dropping entries of mappings or sequences.",
    ["inputs", "histories"],
    "every record content, with each optional field present or absent",
    "Round-trip tests use a few fixed records; a field swapped, defaulted or skipped only for one combination of optional parts is not sampled.",
    [FB, "neps/state/err_dump.py", "neps/state/optimizer.py", "neps/utils/files.py"],
    [("readers and writers", f"{FB}: ReaderWriter*"), ("serialisation", "neps/utils/files.py: serialize")],
    f"records.trial_roundtrip records.optstate_roundtrip records.optinfo_roundtrip records.errors_roundtrip records.seeds_roundtrip evaluation.serialize_faithful {LAYOUT}",
    assumes=ENV,
)
prop(
    "S10",
    "Every finished evaluation is recorded before anything else is decided",
    "After the user's evaluation function returns or raises for a claimed trial, the worker stores a report for that trial in the shared state before it claims or samples another trial, checks its limits or stops. This holds for successful results and for exceptions alike, and no worker records a report for a trial it did not evaluate.",
    ["histories", "fault_sequences"],
    "every sequence of evaluations that return, raise, or return any documented kind of result",
    "Tests check a single success and a single failure, not every path of the worker loop after an evaluation.",
    [RT, NS, EV],
    [("evaluate then report", f"{RT}: DefaultWorker.run"), ("store report", f"{NS}: report_trial_evaluation")],
    "worker.loop_reports worker.loop_report_worker worker.loop_claims state.report_stored evaluation.eval_success evaluation.eval_crash evaluation.parse_result store.trial_layout",
    assumes=ENV + WELL,
)
prop(
    "S11",
    "A trial's report says exactly what the evaluation produced",
    "For a successful evaluation the recorded report has the returned loss, cost and learning curve, the remaining returned information, a success outcome and no error; for an evaluation that raised it has a crashed outcome and the exception with its traceback, never a loss that the function did not produce unless the user configured one. Values configured for errors are used only for crashed evaluations, values configured for missing costs or learning curves only when the function returned none, and the recorded duration and times are those of this evaluation.",
    ["inputs", "configurations"],
    "every documented result (number, mapping with any subset of optional entries) and every exception, under every combination of configured default values",
    "Tests sample a few results and defaults; the combinations of result shape, failure and configured defaults are not enumerated.",
    [EV, TR, NS, "neps/utils/types.py"],
    [("evaluate", f"{EV}: evaluate_trial, parse_user_result"), ("report", f"{TR}: Trial.set_complete")],
    "evaluation.eval_success evaluation.eval_crash evaluation.parse_result evaluation.trial_transitions evaluation.serialize_faithful state.report_stored worker.loop_report_worker worker.loop_eval_defaults args_dummy".replace(" args_dummy", "") + " records.trial_roundtrip api.args_errors",
    assumes=ENV + WELL,
)
prop(
    "S12",
    "No evaluation starts once a configured limit is reached",
    "Before every evaluation a worker checks, against the shared state and its own counters, every limit that is configured: evaluations in total (counting running ones or not, as configured), evaluations by this worker, cost in total and by this worker, evaluation time in total and by this worker, and wall-clock time; if any is reached, it stops without starting another evaluation. A limit that is not configured never stops a worker, and reaching no limit never stops it.",
    ["configurations", "histories"],
    "every combination of configured and reached limits, at every iteration of every worker",
    "Tests set one limit at a time; the table of limit combinations and of the counters behind them is not covered.",
    [RT, "neps/state/settings.py", API],
    [("stop decision", f"{RT}: DefaultWorker._check_global_stopping_criterion, _check_worker_local_settings, _check_shared_error_stopping_criterion"), ("loop gate", f"{RT}: DefaultWorker.run")],
    "worker.stop_decision_table worker.loop_gate worker.loop_accounting state.report_budget api.args_limits api.args_budget store.state_accessors",
    assumes=ENV,
)
prop(
    "S13",
    "Errors stop exactly the workers that the error policy names",
    "With the policy to stop all workers, an error recorded by any worker stops every worker before its next evaluation; with the policy to stop the worker that failed, only that worker stops; when errors are ignored, none does. A worker stopped by an error raises it to the caller rather than returning normally, and the failed trial and its error are recorded first.",
    ["configurations", "schedules"],
    "every error policy, every origin of the error (own evaluation or another worker) and every order of errors",
    "Tests cover one error per policy in one worker; combinations of policy, origin and limits are not enumerated.",
    [RT, NS, "neps/state/settings.py"],
    [("policy", f"{RT}: DefaultWorker.run and stopping criteria"), ("record errors", f"{NS}: report_trial_evaluation")],
    "worker.stop_decision_table worker.loop_own_error worker.loop_gate worker.loop_reports state.report_error records.errors_roundtrip api.args_errors",
    assumes=ENV + WELL,
)
prop(
    "S14",
    "Consumed evaluations, cost and time are accounted exactly once",
    "Each evaluation a worker finishes adds exactly one to its own evaluation counter and exactly its reported cost and measured duration to its own totals, and its reported cost is added exactly once to the shared budget, against which the shared limit is checked. Evaluations without a cost add nothing, and a refused or unclaimed trial changes no counter.",
    ["histories"],
    "every sequence of evaluations with and without costs, failing or not",
    "The totals only differ after particular sequences (missing cost, crash, refused claim) that the tests do not run.",
    [RT, NS, "neps/state/optimizer.py"],
    [("worker counters", f"{RT}: DefaultWorker.run"), ("shared budget", f"{NS}: report_trial_evaluation")],
    "worker.loop_accounting state.report_budget state.report_stored api.args_budget records.optstate_roundtrip evaluation.eval_success evaluation.eval_crash evaluation.parse_result",
    assumes=ENV + WELL,
)
prop(
    "S15",
    "Every run setting reaches the worker, from arguments or from YAML",
    "Each setting accepted by the entry point takes effect under its own name and with the given value, whether it is passed as an argument or in a YAML file; where the YAML file and an explicitly passed argument disagree the documented precedence applies to every setting alike, and settings given nowhere get the documented defaults. Missing mandatory settings (evaluation function, search space, root directory, a limit) are refused instead of starting a run.",
    ["inputs", "configurations"],
    "every subset of settings given as arguments, in the YAML file, in both or in neither",
    "Tests check a few example files; the cross product of settings and sources is not covered.",
    [API, "neps/utils/run_args.py", RT],
    [("merge of settings", "neps/utils/run_args.py: Settings"), ("launch", f"{API}: run; {RT}: _launch_runtime")],
    "api.args_limits api.args_errors api.args_function api.args_budget api.args_directory api.args_summary api.args_required api.searcher_args",
    technique="constant propagation of marker values through the entry point (abstract interpretation)",
    assumes=ENV,
)
prop(
    "S16",
    "Results of an existing run are never deleted or replaced unless asked for",
    "Starting or resuming a run in a directory that already holds results deletes nothing unless overwriting was explicitly requested, and then only that run's own directory, once, before the worker starts. Opening an existing run never rewrites records that exist, and storing a new trial never replaces an existing one.",
    ["histories", "configurations"],
    "every combination of settings and every state of the directory at start",
    "Tests start from empty directories; deletion under particular settings or a rewrite of existing records would go unnoticed.",
    [API, RT, FB, PR],
    [("overwrite switch", f"{API}: run"), ("create or load", f"{FB}: create_or_load_filebased_neps_state"), ("refuse to create twice", f"{PR}: VersionedResource.new")],
    "api.no_implicit_delete api.args_directory store.initial_records store.version_new store.trial_layout store.resource_layout",
    assumes=ENV,
)
prop(
    "S17",
    "A run cannot be continued with a different searcher",
    "The run directory records which searcher was configured and with which arguments, once, when the run is created. Every later run or worker compares what it is asked to use against that record as a whole, name and arguments, and refuses with an error when they differ instead of mixing trials of different searchers in one directory; an equal configuration is always accepted, because what is written reads back equal.",
    ["configurations", "histories"],
    "every pair of searcher configurations a run was created and continued with",
    "Tests resume with the same searcher or one obviously different name; a difference in a single argument, or a record that reads back unequal, is not sampled.",
    [API, FB, RT],
    [("record of the searcher", f"{API}: _run_args"), ("comparison", f"{FB}: create_or_load_filebased_neps_state"), ("written form", f"{FB}: ReaderWriterOptimizerInfo")],
    "api.searcher_recorded store.initial_records store.version_load records.optinfo_roundtrip",
    assumes=ENV,
)
prop(
    "S18",
    "Pending trials are evaluated before new ones are sampled, oldest first",
    "A worker samples a new trial only when the shared state holds no pending trial it could take; otherwise it takes a pending one, in the order in which they were sampled. Trials that are already being evaluated or finished are never handed out.",
    ["histories", "schedules"],
    "every set of recorded trials in any mixture of states",
    "Tests have at most a couple of pending trials; order and filter over arbitrary sets of trials are not covered.",
    [RT, NS, FB],
    [("next trial", f"{RT}: DefaultWorker._get_next_trial_from_state"), ("pending scan", f"{NS}: get_next_pending_trial; {FB}: TrialRepoInDirectory.pending")],
    f"worker.loop_fifo store.pending_order store.next_pending {LAYOUT} evaluation.trial_transitions",
    assumes=ENV,
)
prop(
    "S19",
    "The evaluation function gets its trial's configuration and directories",
    "The user's function is called with exactly the configuration stored for the claimed trial, with that trial's own directory, and, for a trial that continues a previous one, with the directory of exactly that previous trial; a trial without predecessor gets none. The directories are those recorded when the trial was sampled, so that checkpoints written by one evaluation are found by its continuation.",
    ["histories", "inputs"],
    "every trial, continuing another or not, and every signature of the user's function",
    "Tests use functions with fixed signatures and few continuations.",
    [EV, RT, NS, TR],
    [("arguments of the user function", f"{EV}: evaluate_trial"), ("predecessor", f"{NS}: sample_trial"), ("trial record", f"{TR}: Trial.new")],
    "worker.loop_args evaluation.user_call_args state.sample_trial_content store.trial_layout records.trial_roundtrip",
    assumes=ENV + WELL,
)
prop(
    "S20",
    "The in-progress trial is known exactly while its evaluation runs",
    "While the user's function runs, the process-wide notion of the trial in progress is exactly the trial being evaluated; before and after, and whenever the function raises, there is none. A second trial can therefore be started in the same process after any evaluation, failed or not.",
    ["fault_sequences", "histories"],
    "every way the evaluation can end, including exceptions and interruption",
    "A leak needs an evaluation that fails in a particular place, followed by another one in the same process.",
    [RT],
    [("context manager", f"{RT}: _set_workers_neps_state, _set_trial_in_progress")],
    "worker.loop_in_progress helpers.in_progress_getters",
    assumes=ENV,
)
prop(
    "S39",
    "Helpers called by the evaluated function act on the trial in progress",
    "Checkpoints are saved in the directory of the trial in progress and loaded from the directory of the trial it continues, or from nowhere if it continues none, under the same file name; what was saved for the model, the optimizer and the given values is what is loaded. The initial directory is that of the first trial of the chain of continuations, in every run. Callbacks registered for the end of a trial are called with every trial whose evaluation ended.",
    ["inputs", "histories"],
    "every chain of continuations, every combination of arguments, several runs in one process",
    "Tests call no helper on a chain of trials, and never for two runs in one process.",
    ["neps/utils/common.py", RT],
    [("checkpoints", "neps/utils/common.py: load_checkpoint, save_checkpoint, load_lightning_checkpoint"), ("chain of trials", "neps/utils/common.py: get_initial_directory"), ("callbacks", f"{RT}: register_notify_trial_end, _set_global_trial")],
    "helpers.in_progress_getters helpers.end_callbacks helpers.checkpoint_paths helpers.lightning_checkpoint helpers.initial_directory",
    assumes=ENV,
)
prop(
    "S21",
    "Every evaluation error is appended to the shared error list",
    "Each evaluation that raises adds exactly one entry to the shared error list, under its lock, with the worker, the trial, the error and its traceback; earlier entries are kept, in order, also by other workers and after resuming. Successful evaluations add nothing.",
    ["histories", "schedules"],
    "every sequence of failing evaluations by any number of workers",
    "Tests record one error; appending to entries of another worker or of an earlier run is not covered.",
    [NS, "neps/state/err_dump.py", FB],
    [("append error", f"{NS}: report_trial_evaluation"), ("persist", f"{FB}: ReaderWriterErrDump")],
    f"state.report_error records.errors_roundtrip worker.loop_own_error {VERSION} store.resource_layout",
    assumes=ENV + WELL,
)
prop(
    "S29",
    "Every shipped searcher can be built from its shipped configuration",
    "For each searcher that ships with the package, building it by name gives an instance of the algorithm with that name, passing exactly the parameters of its shipped configuration that the caller did not override, and each of those parameters is accepted by that algorithm.",
    ["configurations"],
    "every shipped searcher configuration",
    "Tests build a handful of searchers.",
    ["neps/optimizers/default_searchers", "neps/optimizers/__init__.py", API],
    [("searcher mapping", "neps/optimizers/__init__.py: SearcherMapping"), ("build", f"{API}: _run_args")],
    "api.searcher_constructible api.searcher_by_name",
    technique="constant propagation through searcher construction, checked against constructor signatures",
    assumes=ENV,
)
prop(
    "S30",
    "The searcher used is the one asked for, or the documented default",
    "If a searcher is named, exactly that one is used with its shipped parameters overridden by exactly those the user passed; if none is named, the choice depends only on whether the search space has a fidelity and a prior, as documented. A searcher given as a class or instance is used as given.",
    ["inputs", "configurations"],
    "every kind of search space, every shipped name and every way of passing a searcher",
    "Tests check some names and some spaces; the table is not enumerated.",
    [API, "neps/optimizers/__init__.py"],
    [("choice", f"{API}: _run_args")],
    "api.searcher_default api.searcher_by_name api.searcher_args",
    technique="decision table extracted by abstract interpretation, with marker propagation",
    assumes=ENV,
)
prop(
    "S35",
    "A crash while a record is being created leaves it absent or complete",
    "A process that dies at any point while creating a shared record leaves the others either without that record or with the complete one: the mark that makes a record visible is written only after its contents. Trials that are being created by another process are skipped rather than crashing the reader.",
    ["crash_points", "schedules"],
    "every crash point inside the creation of a record, and every reader meanwhile",
    "Tests do not interrupt creation.",
    [PR, FB],
    [("contents before version", f"{PR}: VersionedResource.new"), ("scan of trials", f"{FB}: TrialRepoInDirectory.all_trial_ids")],
    "store.version_new store.file_version_tags store.trial_layout store.initial_records store.pending_order",
    assumes=ENV,
)

SP = "neps/search_spaces/search_space.py"
HPS = "neps/search_spaces/hyperparameters"
HPF = [f"{HPS}/numerical.py", f"{HPS}/float.py", f"{HPS}/integer.py", f"{HPS}/categorical.py", f"{HPS}/constant.py", "neps/search_spaces/parameter.py"]
YML = "neps/search_spaces/yaml_search_space_utils.py"
PBF = "neps/optimizers/multi_fidelity_prior/priorband.py"
SH = "neps/optimizers/multi_fidelity/successive_halving.py"
HB = "neps/optimizers/multi_fidelity/hyperband.py"
PPOL = "neps/optimizers/multi_fidelity/promotion_policy.py"
GRID = "neps/optimizers/grid_search/optimizer.py"
LIBS = [
    "Python semantics as modelled by sa/absint.py; third-party calls (torch, numpy, pandas, yaml, ConfigSpace) return arbitrary values or raise arbitrary exceptions and do not touch neps objects",
]
TWO = ["search spaces are represented by two symbolic hyperparameters, over every combination of kinds"]

prop(
    "S22",
    "A hyperparameter never holds a value outside its domain",
    "A hyperparameter refuses, with an error, to be constructed with an inconsistent definition and to be given a value or default outside its bounds or choices (a constant: any other value), and is left exactly as it was when it refuses. Every value inside the domain, the bounds included, is accepted and held as given, and whatever the random generator returns a sampled value is inside the domain.",
    ["inputs"],
    "every bound, choice, default, prior confidence and value of every kind of hyperparameter",
    "Tests sample a few bounds and values; half-done updates after a refusal and values on the edges are not exercised.",
    HPF,
    [("values and defaults", f"{HPS}: set_value, set_default, load_from"), ("construction", f"{HPS}: __init__"), ("sampling", f"{HPS}: sample_value")],
    "space.hp_set_value space.hp_set_default space.hp_init space.hp_sample_value",
    assumes=LIBS,
)
prop(
    "S23",
    "Clones and varied configurations are complete and independent",
    "A clone of a hyperparameter or of a configuration is a new object with the same definition, default, prior, fidelity flag and value, and shares nothing that either of them changes later. Sampling, mutating and crossing over give new configurations that have every hyperparameter of the space, leave the originals unchanged, and never vary the fidelity.",
    ["inputs", "histories"],
    "every kind of hyperparameter, every search space and every sequence of later changes",
    "An attribute a clone forgets, or an object two configurations share, shows only when that attribute is later used or changed.",
    [*HPF, SP],
    [("clone", f"{HPS}: clone"), ("configuration clone", f"{SP}: SearchSpace.clone"), ("variation", f"{SP}: SearchSpace.mutate, crossover")],
    "space.hp_clone space.hp_derive searchspace.ss_clone searchspace.ss_vary",
    assumes=LIBS + TWO,
)
prop(
    "S24",
    "Multi-fidelity searchers promote correctly from everything recorded",
    "Each proposal is either a new configuration under an unused number, or the continuation of an observed configuration, under its number, one level above where it was observed, naming that trial as its predecessor; in both cases its fidelity is the one of the level its id names. What may be continued are the lowest-loss finished members of a level below the top, computed anew from all recorded trials at each proposal, where a trial counts at its highest level and a trial without a report occupies its level but is never promoted; synchronous promotion waits until the level is complete.",
    ["histories", "schedules"],
    "every sequence of reported, failed and pending trials, in every order, for every bracket-based searcher",
    "Tests run short loops that hardly ever promote, with one worker and no failures.",
    [SH, HB, PPOL, "neps/optimizers/multi_fidelity_prior/async_priorband.py", "neps/optimizers/multi_fidelity_prior/priorband.py"],
    [("observations to rungs", f"{SH}: ask, _load_previous_observations, _handle_pending_evaluations, _get_rungs_state"), ("promotion", f"{PPOL}: retrieve_promotions"), ("proposal", f"{SH}: get_config_and_ids")],
    "searchers.mf_propose searchers.mf_observe searchers.mf_load searchers.mf_result searchers.mf_pending searchers.mf_rungs searchers.mf_promote searchers.mf_brackets",
    assumes=LIBS,
)
prop(
    "S25",
    "A searcher's model is trained on what was recorded, and on nothing else",
    "Whenever a model-based searcher fits a model, every trial that has a report enters with its own configuration, loss and cost (for bracket-based searchers at the fidelity the loss was recorded at, for ifbo with its own number and budget), a trial without a report enters only as pending, and a failed evaluation enters with a finite value that is no better than the best loss reported. No model is fitted before any loss was reported; costs that are missing are left out together with their configurations. Nothing of this depends on the order in which trials finished, and a searcher goes on proposing where a default or a loss is missing.",
    ["histories", "inputs"],
    "every set of reported, failed and pending trials with losses and costs present or missing",
    "A loss attached to another trial's configuration, or a failure that looks like a success, gives no error: the search only gets worse. Tests record complete results only.",
    [GPF, FTF, BOF, SPOLF, MFBO],
    [("GP data", f"{GPF}: encode_trials_for_gp, fit_and_acquire_from_gp"), ("Bayesian optimization", f"{BOF}: ask"), ("ftpfn data", f"{FTF}: encode_ftpfn, decode_ftpfn_data"), ("multi-fidelity models", f"{SPOLF}: ModelPolicy.update_model; {MFBO}: _fit_models")],
    "models.gp_data models.bo_model models.cost_model models.ftpfn_data models.ftpfn_decode models.mf_model models.mf_fit models.attributes models.defaults_optional",
    assumes=LIBS,
)
AQF = "neps/optimizers/bayesian_optimization/acquisition_functions"
prop(
    "S40",
    "Prior and cost weigh the acquisition as configured, on either scale",
    "Where a model-based searcher has a prior, the acquisition it optimises is multiplied by the prior's density to the power of an exponent that falls with every evaluation, and the prior is left out only once that exponent is negligible. Where it uses cost, the acquisition is divided by the predicted cost to the power of the share of the cost budget that is still left. Both hold alike for acquisition functions on linear and on logarithmic scale and before samples are reduced; the prior is evaluated in the domains of the encoded points; and evaluations that are pending are accounted for exactly once.",
    ["inputs", "histories"],
    "every acquisition function, prior, exponent, cost, share of the budget and history of trials",
    "A weight of the wrong sign, scale or exponent gives no error: the search only ignores the user's prior or prefers expensive configurations. Tests never look at the values of an acquisition.",
    [f"{AQF}/pibo.py", f"{AQF}/cost_cooling.py", f"{AQF}/weighted_acquisition.py", GPF, BOF, SPOLF],
    [("weights", f"{AQF}/pibo.py: pibo_acquisition; cost_cooling.py: cost_cooled_acq; weighted_acquisition.py: WeightedAcquisition"), ("use", f"{GPF}: fit_and_acquire_from_gp; {BOF}: ask; {SPOLF}: ModelPolicy.update_model")],
    "acq.acq_prior acq.acq_cost acq.acq_pending acq.acq_parts acq.acq_fades acq.acq_fades_mf",
    assumes=LIBS,
)
prop(
    "S42",
    "The model covers every hyperparameter and its optimum is sought in all the space",
    "In the model, every hyperparameter is seen by exactly one kernel of its own kind, categories never as numbers. The models are fitted, that of the costs to exactly the configurations that have one, before the acquisition is optimised; the optimum is searched between the bounds of every column and over every combination of categories, once each, and the candidates found are what is returned. A space with more combinations than allowed is refused with an error instead of being searched in part.",
    ["inputs"],
    "every search space: every number, kind, order and size of hyperparameters",
    "A column left out of a kernel, wrong bounds or a missing combination gives no error: some configurations are just never proposed. Tests only check that something is proposed.",
    [GPF, BOF],
    [("kernels", f"{GPF}: make_default_single_obj_gp"), ("search", f"{GPF}: optimize_acq"), ("fit", f"{GPF}: fit_and_acquire_from_gp")],
    "gpmodel.every_column gpmodel.whole_space gpmodel.fitted",
    assumes=LIBS + ["search spaces are represented by literal ones with up to four hyperparameters of each kind"],
)
prop(
    "S41",
    "Every bracket has exactly the rungs and sizes of Hyperband",
    "For every fidelity range, reduction factor and early stopping rate, a bracket of a multi-fidelity searcher has one rung per power of the reduction factor that fits between the bounds, the topmost at the maximal fidelity and each other at the fidelity above divided by the reduction factor (rounded down for whole-number fidelities), and the number of configurations of Hyperband on each. A rung has the same fidelity in every bracket. A searcher with several brackets has one for each early stopping rate, all of them set up as the searcher is (sampling, promotion, treatment of errors, priors), and an asynchronous one draws among all of them with Hyperband's odds and proposes what the drawn one proposes.",
    ["inputs"],
    "every fidelity range, reduction factor, early stopping rate and searcher",
    "Tests use one or two ranges; a lost or shifted rung, or a bracket with other settings, only wastes evaluations or compares results of different fidelities, without an error.",
    [SH, HB, PBF, "neps/optimizers/multi_fidelity_prior/async_priorband.py"],
    [("tables of rungs", f"{SH}: _get_rung_map, _get_config_map, __init__"), ("brackets", f"{HB}, {PBF}, neps/optimizers/multi_fidelity_prior/async_priorband.py: __init__"), ("draw", f"{HB}: AsynchronousHyperband.get_config_and_ids")],
    "brackets.rungs brackets.drawn",
    assumes=LIBS + ["fidelity ranges and reduction factors are represented by literal ones, among them exact powers, for which rounding matters"],
)
prop(
    "S37",
    "Every proposal has an id of its own, and a continuation names the step before it",
    "The id of a new proposal is different from that of every recorded trial, whatever their number and order; a searcher never proposes again a step that is pending or finished. ifbo numbers a new configuration one above all others and starts it at the first step; it continues only configurations that have no pending evaluation and a step left, by exactly one step, at the fidelity of that step, naming the trial of the step before as its predecessor.",
    ["histories", "schedules"],
    "every set of recorded trials, pending ones included",
    "Two trials under one id overwrite each other's record, but only when workers overlap or a configuration reached its last step, which short sequential tests do not do.",
    [IFBOF, "neps/optimizers/random_search/optimizer.py", "neps/optimizers/grid_search/optimizer.py", BOF, SH],
    [("ifbo", f"{IFBOF}: ask, _adjust_pipeline_space_to_match_stepsize"), ("other searchers", "neps/optimizers/*/optimizer.py: ask"), ("bracket-based searchers", f"{SH}: get_config_and_ids")],
    "proposals.fresh_ids proposals.ifbo_ids proposals.ifbo_continuation proposals.ifbo_steps searchers.mf_propose",
    assumes=LIBS,
)
prop(
    "S31",
    "A search space from YAML or ConfigSpace is the one written there",
    "Every hyperparameter of a YAML file, a dictionary of YAML form or a ConfigSpace ends up in the search space under its name, as the kind its keys call for, with every key that was given (bounds, scale, choices, fidelity flag, default, confidence) passed on unchanged; numbers in scientific notation are read as numbers and everything else as written. What is malformed is refused with an error instead of being dropped or guessed.",
    ["inputs", "configurations"],
    "every combination of keys and forms of values in a search-space description",
    "Tests read a few example files; most combinations of keys and kinds of hyperparameter do not occur in them.",
    [YML, SP, API],
    [("YAML", f"{SP}: pipeline_space_from_yaml"), ("keys and literals", YML), ("ConfigSpace", f"{SP}: pipeline_space_from_configspace"), ("argument forms", f"{API}: run")],
    "spaceio.yaml_forwarding spaceio.yaml_constants spaceio.yaml_literals spaceio.yaml_names spaceio.configspace spaceio.space_argument",
    assumes=LIBS,
)
prop(
    "S33",
    "An encoded column always means the same hyperparameter",
    "The model-based searchers see configurations as rows of numbers. Every hyperparameter has one column of its own; encoding writes its values there and decoding reads that column back under its name, with its own transformer, whatever the order in which the search space lists the hyperparameters, and constants come back unchanged. Categorical and linear-scale values survive the round trip. Priors (defaults and confidences), domains and samples are used on the column of the hyperparameter they belong to, and a prior is centred at the default and narrower with more confidence; its density at a point is the product of those of the columns, whatever their order.",
    ["inputs"],
    "every search space, every order of its hyperparameters and every configuration",
    "Tests encode spaces whose hyperparameters are already in the order of the columns, and where all or none have a default; a column read as another hyperparameter only degrades the search silently.",
    [ENCF, DOMF, PRIF, SAMF, "neps/optimizers/initial_design.py", "neps/optimizers/bayesian_optimization/optimizer.py"],
    [("columns", f"{ENCF}: ConfigEncoder"), ("domains", f"{DOMF}: Domain.to_unit / from_unit / cast / translate"), ("priors", f"{PRIF}: Prior.from_parameters / make_centered / CenteredPrior"), ("samplers", f"{SAMF}: Sampler.sample")],
    "encoding.columns encoding.encode_decode encoding.prior_columns encoding.prior_distributions encoding.prior_shape encoding.prior_use encoding.translate encoding.unit_interval encoding.cast encoding.transformer_inverse encoding.domain_fields encoding.samplers",
    assumes=LIBS + ["the order of columns is analysed on spaces of three symbolic hyperparameters (two numerical, one categorical) and one constant; categorical transformers on 2 to 5 choices; arithmetic is decided as identities over the rationals, so rounding of floating-point numbers is not covered"],
)

prop(
    "S34",
    "A search space and the configurations drawn from it are complete",
    "A search space keeps every hyperparameter it is given under its name, accepts at most one fidelity, and only a numerical one. A sampled or default configuration has a value for every hyperparameter, for the fidelity exactly when asked for, uses the prior exactly when asked for, and setting a configuration to maximum fidelity sets its fidelity to the upper bound; setting values or defaults from a dictionary does so for exactly the named ones.",
    ["inputs", "configurations"],
    "every search space and every combination of sampling options",
    "Tests use a few fixed spaces and do not combine constants, fidelities and priors.",
    [SP],
    [("composition", f"{SP}: SearchSpace.__init__"), ("sampling", f"{SP}: SearchSpace.sample"), ("defaults", f"{SP}: sample_default_configuration, set_defaults_to_current_values")],
    "searchspace.ss_init searchspace.ss_sample searchspace.ss_default searchspace.ss_max_fidelity searchspace.ss_set_from_dict",
    assumes=LIBS + TWO,
)
prop(
    "S36",
    "A configuration survives being stored and loaded",
    "The stored form of a configuration, and the one handed to the user's function, have the value of every hyperparameter under its name. Loading a stored configuration gives a new configuration of the same space in which exactly the stored values are set, and leaves the space itself unchanged.",
    ["inputs", "histories"],
    "every configuration of every search space",
    "Tests compare a few configurations; a hyperparameter dropped or set in the shared space shows only with particular kinds and later proposals.",
    [SP, *HPF],
    [("stored form", f"{SP}: SearchSpace.serialize, hp_values"), ("loading", f"{SP}: SearchSpace.from_dict, load_from")],
    "searchspace.ss_serialize searchspace.ss_hp_values searchspace.ss_from_dict space.hp_set_value",
    assumes=LIBS + TWO,
)
prop(
    "S38",
    "Grid search proposes every combination exactly once",
    "The grid has every combination of the values of every hyperparameter: every choice, every constant, and for numerical ones values that stay inside the bounds. Over a whole run, across all workers and restarts, grid search proposes each combination once, in one fixed order, and says that it is exhausted only after the last.",
    ["histories", "schedules"],
    "every search space, grid size, number of workers and restart",
    "Tests run a small grid in one process; another worker's or a restarted process' order of the grid is not compared.",
    [GRID, SP],
    [("enumeration", f"{SP}: SearchSpace.grid"), ("order", f"{GRID}: GridSearch.ask")],
    "searchspace.ss_grid searchers.grid_ask",
    assumes=LIBS + TWO,
)

STAT = "neps/status/status.py"

prop(
    "S08",
    "Proposals draw only from recorded or fixed-seed randomness",
    "Whatever a searcher, search space or sampler draws comes from the shared Python, NumPy and PyTorch generators, whose state the run records, or from a generator made for that one use with a fixed seed. No proposal code reseeds the shared generators or depends on operating-system entropy, the clock, process identity or the order of a set, and building a searcher draws nothing.",
    ["histories", "schedules"],
    "every searcher, every search space and every point at which a run is interrupted and resumed",
    "Tests compare a short seeded run with itself; a private generator or a draw at construction shows only after a restart or in another process.",
    ["neps/optimizers", "neps/search_spaces", "neps/sampling", SE],
    [("draws", "neps/search_spaces, neps/optimizers, neps/sampling"), ("construction", "neps/optimizers: __init__ of every searcher")],
    "randomness.sources randomness.set_order randomness.construction records.rng_capture",
    technique="lint over resolved call sites with local dataflow of seeds and escapes; call-graph reachability from constructors; path rules from sa/absint.py for seeds that may be missing",
    assumes=LIBS,
)
prop(
    "S26",
    "The status of a run reports exactly what is recorded",
    "The status counts the evaluated, crashed, pending and in-progress trials as recorded, and lists exactly those trials, each with its own configuration, result and metadata. The best result it names is the lowest reported loss, with the configuration, identity and metadata of one trial that reached it, and without any reported loss it is infinite and there is no best configuration.",
    ["histories", "inputs"],
    "every history of a run, with trials in every state and reports with and without losses",
    "Tests look at the status of one finished run in which everything succeeded.",
    [STAT],
    [("summary", f"{STAT}: get_summary_dict"), ("status", f"{STAT}: status")],
    "status.status_summary status.status_returns",
    assumes=LIBS + ["runs are represented by every combination of trial states for up to two trials and by selected larger ones of up to five"],
)
prop(
    "S27",
    "Looking at a run's status changes none of its records",
    "Asking for the status of an existing run, while workers are running or not, writes to none of the run's recorded trials, optimizer state, random state, errors or version files.",
    ["schedules", "histories"],
    "every state of a run directory and every concurrent worker",
    "A write made while looking shows only when a worker holds an older version of the same record.",
    [STAT, PR, NS],
    [("status", f"{STAT}: get_summary_dict, status"), ("reading", f"{PR}: Synced.synced")],
    "status.read_only store.synced_results store.unsafe_access",
    assumes=LIBS,
)
prop(
    "S32",
    "The CSV summary covers every trial and its two files agree",
    "The CSV summary of a run has one row for every evaluated and pending trial, with that trial's own configuration, result and metadata, and the counts of the whole run; it is also produced when no loss was reported. Its two files are written together, under their own lock only, and existing ones are replaced only by a summary with more evaluated trials or of a run with nothing left to do.",
    ["schedules", "histories"],
    "every history of a run and every interleaving of workers that write the summary",
    "Tests write the summary once, of a small finished run, in one process.",
    [STAT],
    [("rows", f"{STAT}: _get_dataframes_from_summary"), ("writing", f"{STAT}: post_run_csv, _save_data_to_csv")],
    "status.csv_frames status.csv_save status.csv_files",
    assumes=LIBS + ["runs are represented by literal summaries of up to five trials"],
)

NOT_APPLICABLE = []


def na(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(
        {"id": id, "title": title, "statement": statement, "over": over, "quant": quant, "why": why, "files": files, "mech": mech, "reason": reason}
    )


na(
    "S90",
    "Surrogate models and acquisition functions are numerically right",
    "The Gaussian-process posterior, the acquisition values and their optimisation are those defined by the underlying statistical model for every set of observations.",
    ["inputs"],
    "every set of observations",
    "Numerical results over continuous inputs.",
    ["neps/optimizers/bayesian_optimization"],
    [("models", "neps/optimizers/bayesian_optimization/models")],
    "numerical results of torch/botorch computations over continuous data; no sound static argument in reach bounds them",
)
na(
    "S91",
    "Samples follow the documented distributions",
    "Values drawn for a hyperparameter, with or without a prior, follow the documented distribution over its domain.",
    ["inputs"],
    "every domain and every confidence",
    "A distribution is a statistical fact about many draws.",
    ["neps/sampling", "neps/search_spaces/hyperparameters"],
    [("samplers", "neps/sampling")],
    "a statement about probability distributions of runtime values, not about the shape of the code",
)
na(
    "S92",
    "An update interrupted by power loss leaves the old or the new record",
    "If the machine loses power while an existing record is being updated, a later reader finds either the old or the new contents of that record.",
    ["crash_points"],
    "every crash point inside an update",
    "Needs a model of the file system's write ordering.",
    [FB],
    [("record files", FB)],
    "neps updates records in place with plain writes and without fsync, so the guarantee is not offered by the design, and whether it holds depends on file-system write ordering that the source does not determine",
)
na(
    "S93",
    "Workers eventually finish",
    "As long as evaluations return, every worker eventually reaches a limit and stops, however many workers compete for locks.",
    ["schedules"],
    "every fair schedule",
    "Liveness under all schedules.",
    [RT],
    [("worker loop", RT)],
    "liveness over unbounded schedules of polling lock acquisitions and user functions of unknown duration",
)


def rule_functions(id):
    out = []
    for name in P[id]["rules"]:
        m, f = name.split(".")
        out.append(getattr(importlib.import_module("rules." + m), f))
    return out
