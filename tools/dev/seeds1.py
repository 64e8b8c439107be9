import sys; sys.path.insert(0,'/tmp')
from seedlib import mk
PRE='''
import os, sys, time, warnings
warnings.simplefilter("ignore")
from pathlib import Path
scratch = Path(os.environ["SCRATCH"])
import neps
from neps.state.filebased import create_or_load_filebased_neps_state, load_filebased_neps_state
from neps.state.optimizer import OptimizationState, OptimizerInfo, BudgetInfo
from neps.optimizers.random_search.optimizer import RandomSearch
from neps.search_spaces.search_space import SearchSpace
def opt():
    return RandomSearch(pipeline_space=SearchSpace(x=neps.FloatParameter(0.0, 1.0)))
def make(d, budget=None):
    return create_or_load_filebased_neps_state(
        directory=d, optimizer_info=OptimizerInfo({"a": 1}),
        optimizer_state=OptimizationState(budget=budget, shared_state={}))
'''
S={}
S['s01-refresh-before-claim']=lambda i: mk(i,'S01',[('neps/state/neps_state.py','''        shared_trial = self._trials.get_by_id(trial.id)
        shared_trial.put(trial)

    def get_trial''','''        shared_trial = self._trials.get_by_id(trial.id)
        # Pull in the latest version before updating
        shared_trial.synced()
        shared_trial.put(trial)

    def get_trial''')],
 'two workers that both read the same pending trial before either claims it',
 'the second claim is accepted although the trial was claimed meanwhile, so two workers evaluate it', PRE+'''
d = scratch / "run"
a = make(d)
a.sample_trial(opt(), worker_id="a")
b = make(d)
ta, tb = a.get_next_pending_trial(), b.get_next_pending_trial()
ta.set_evaluating(time_started=time.time(), worker_id="a"); a.put_updated_trial(ta)
tb.set_evaluating(time_started=time.time(), worker_id="b")
try:
    b.put_updated_trial(tb)
except Exception as e:
    print("refused", type(e).__name__); sys.exit(0)
print("both workers claimed trial", ta.id); sys.exit(1)
''')
S['s12-crashed-not-counted']=lambda i: mk(i,'S12',[('neps/runtime.py','''                count = sum(1 for _, trial in trials.items() if trial.report is not None)
''','''                count = sum(
                    1
                    for _, trial in trials.items()
                    if trial.report is not None
                    and not (trial.report.err is not None and trial.report.loss is None)
                )
''')],
 'errors ignored and an evaluation that raises before the total limit is reached',
 'crashed evaluations do not count towards the total limit, so more evaluations start than configured', PRE+'''
n = [0]
def f(x):
    n[0] += 1
    if n[0] in (2, 3):
        raise ValueError("no")
    return x
neps.run(f, pipeline_space={"x": neps.FloatParameter(0, 1)}, root_directory=scratch / "r", searcher="random_search",
         max_evaluations_total=4, continue_until_max_evaluation_completed=True, ignore_errors=True, post_run_summary=False)
print(n[0]); sys.exit(n[0] != 4)
''')
S['s21-one-error-per-worker']=lambda i: mk(i,'S21',[('neps/state/err_dump.py','''        return self.errs.append(err)
''','''        # A restarted trial supersedes what was known about it
        self.errs = [
            e for e in self.errs if (e.err_type, e.err) != (err.err_type, err.err)
        ]
        return self.errs.append(err)
''')],
 'two evaluations that raise the same error',
 'the earlier entry of the shared error list is dropped when a later evaluation raises an equal error', PRE+'''
def f(x):
    raise ValueError("no")
neps.run(f, pipeline_space={"x": neps.FloatParameter(0, 1)}, root_directory=scratch / "r", searcher="random_search",
         max_evaluations_total=3, ignore_errors=True, post_run_summary=False)
e = load_filebased_neps_state(scratch / "r").get_errors()
print(len(e)); sys.exit(len(e) != 3)
''')
S['s14-budget-only-on-success']=lambda i: mk(i,'S14',[('neps/state/neps_state.py','''                if report.cost is not None:
                    budget_info.used_cost_budget += report.cost
            put_opt_state(opt_state)
''','''                if report.cost is not None and report.err is None:
                    budget_info.used_cost_budget += report.cost
            put_opt_state(opt_state)
''')],
 'a crashed evaluation with a configured cost for errors',
 'the cost of crashed evaluations is not added to the shared budget', PRE+'''
def f(x):
    raise ValueError("no")
neps.run(f, pipeline_space={"x": neps.FloatParameter(0, 1)}, root_directory=scratch / "r", searcher="random_search",
         max_cost_total=10, cost_value_on_error=5.0, loss_value_on_error=1.0, ignore_errors=True, post_run_summary=False)
b = load_filebased_neps_state(scratch / "r").optimizer_state().budget
print(b); sys.exit(b.used_cost_budget != 10.0)
''')
S['s18-lexicographic-order']=lambda i: mk(i,'S18',[('neps/state/filebased.py','''sorted(pending, key=lambda x: x[2]))''','''sorted(pending, key=lambda x: x[0]))''')],
 'ten or more pending trials',
 'pending trials are handed out in the alphabetical order of their ids, so trial 10 is evaluated before trial 2', PRE+'''
d = scratch / "run"
a = make(d); o = opt()
for i in range(11):
    a.sample_trial(o, worker_id="a"); time.sleep(0.01)
ids = [t.id for t in a.get_next_pending_trial(n=11)]
print(ids); sys.exit(ids != [str(i) for i in range(1, 12)])
''')
S['s09-falsy-report-values']=lambda i: mk(i,'S09',[('neps/state/filebased.py','''            serialize(report, report_path)


@dataclass
class ReaderWriterSeed''','''            if not report["learning_curve"]:
                report["learning_curve"] = None
            serialize(report, report_path)


@dataclass
class ReaderWriterSeed''')],
 'an evaluation that returns an empty learning curve','an empty learning curve is read back as a missing one',PRE+'''
def f(x):
    return {"loss": 1.0, "learning_curve": []}
neps.run(f, pipeline_space={"x": neps.FloatParameter(0, 1)}, root_directory=scratch / "r", searcher="random_search",
         max_evaluations_total=1, post_run_summary=False)
(t,) = load_filebased_neps_state(scratch / "r").get_all_trials().values()
print(t.report); sys.exit(t.report.learning_curve != [])
''')
sel=sys.argv[1:] or list(S)
for k in sel: S[k](k)
