From 0d53e57e7dc6f9113c9d4d87f4a6918c282e2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 01/38] fix: status summary counts pending and in-progress
 trials by their actual state

---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..e4e0175 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From 31744cee996cb9355a81dab526ecb32d5a76c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 02/38] fix: worker no longer dies with UnboundLocalError when
 its first claim is refused

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From ee98827a9a33d57f7f832efd5d894f501f76f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 03/38] fix: never hand out a trial that another worker claimed
 in the meantime

---
 neps/state/neps_state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..637eac6 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,11 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Another worker may have claimed the trial since `pending()` looked at it
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From 27c88bffd7f74991b28649e99ff81891943f57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 04/38] fix: clear the in-progress trial even if its evaluation
 is aborted by an exception

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From 28a045f2823b3ff650633b813c645a921c7df9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 05/38] fix: get_cost returns the cost of a report, not its
 loss

---
 neps/optimizers/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/base_optimizer.py b/neps/optimizers/base_optimizer.py
index 898508c..0f36032 100644
--- a/neps/optimizers/base_optimizer.py
+++ b/neps/optimizers/base_optimizer.py
@@ -149,7 +149,7 @@ class BaseOptimizer:
         # use `Trial` and `Report`, they already take care of this and save having to do
         # this `_get_loss` at every call
         if isinstance(result, Report):
-            return result.loss if result.loss is not None else "error"
+            return result.cost if result.cost is not None else "error"
 
         return _get_cost(
             result,
-- 
2.43.0


From 0e34c09cf1f55028b616a543edd8fa427b903a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 06/38] fix: grid of a search space uses the clipped and
 deduplicated values

---
 neps/search_spaces/search_space.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..a5483de 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -626,8 +626,7 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                param_ranges.append(np.unique(_grid).tolist())
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From b1bfc35363a5c0b952550a2c8e1be89e2d78c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 07/38] fix: initial directory cache no longer mixes up trials
 of different runs

---
 neps/utils/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..f619ac4 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -164,8 +164,10 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
+    # NOTE: Trial ids are only unique within one run, locations are unique across runs
+    cache_key = trial.metadata.location
+    if cache_key in _INTIAL_DIRECTORY_CACHE:
+        return _INTIAL_DIRECTORY_CACHE[cache_key]
 
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
@@ -177,7 +179,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     assert isinstance(initial_dir, str)
     path = Path(initial_dir)
 
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
+    _INTIAL_DIRECTORY_CACHE[cache_key] = path
     return path
 
 
-- 
2.43.0


From 840bf2e2f4981e4222b0f35b1feb5a4d4f08fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 08/38] fix: loading an integer hyperparameter validates it and
 keeps its normalized value in step

---
 neps/search_spaces/hyperparameters/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..6780b82 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,7 +112,7 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
-- 
2.43.0


From 1ed7e10885cb6f962df6c98406989c8d0df29b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 09/38] fix: a categorical that rejects a value keeps its
 previous value

---
 neps/search_spaces/hyperparameters/categorical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d44499b..af27bb4 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -268,9 +268,11 @@ class CategoricalParameter(
             self.normalized_value = None
             return
 
+        # NOTE: Raises if not a valid choice, in which case nothing should change
+        value_index = self.choices.index(value)
         self._value = value
-        self._value_index = self.choices.index(value)
-        self.normalized_value = float(self._value_index)
+        self._value_index = value_index
+        self.normalized_value = float(value_index)
 
     @override
     @classmethod
-- 
2.43.0


From 8b5732e504ba1e5a93415f3c5b1e00628453d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 10/38] fix: multi-fidelity searchers continue after an ignored
 evaluation error

---
 neps/optimizers/multi_fidelity/successive_halving.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..86b1026 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            if perf == "error":
+                # ignored errors are still observations, just the worst possible ones
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From e9bb3b52622491a6d1a25475fa95e5241681b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 11/38] fix: searchers only draw from the shared random state
 or a fixed seed

---
 neps/optimizers/grid_search/optimizer.py             | 3 ++-
 neps/optimizers/multi_fidelity/successive_halving.py | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..6846975 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,7 +36,8 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
+        # NOTE: Every call must see the same order, also if there is no seed
+        rng = random.Random(0 if self.seed is None else self.seed)
         configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 86b1026..595cd6d 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -423,9 +423,6 @@ class SuccessiveHalvingBase(BaseOptimizer):
             config_id = f"{row.name}_{rung}"
         else:
             rung_id = self.min_rung
-            # using random instead of np.random to be consistent with NePS BO
-            rng = random.Random(None)  # TODO: Seeding
-
             if (
                 self.use_priors
                 and self.sample_default_first
@@ -438,7 +435,8 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 logger.info("Sampling the default configuration...")
                 config = self.pipeline_space.sample_default_configuration()
 
-            elif rng.random() < self.random_interleave_prob:
+            # using random instead of np.random to be consistent with NePS BO
+            elif random.random() < self.random_interleave_prob:
                 config = self.pipeline_space.sample(
                     patience=self.patience,
                     user_priors=False,  # sample uniformly random
-- 
2.43.0


From 65fc657b43b62b0bfe03dcca0582b96b583e3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 12/38] fix: grid search accepts the arguments neps.run passes
 to every searcher

---
 neps/optimizers/grid_search/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index 6846975..7a10e75 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import random
 from collections.abc import Mapping
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 from typing_extensions import override
 
 from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
@@ -19,6 +19,7 @@ class GridSearch(BaseOptimizer):
         pipeline_space: SearchSpace,
         grid_step_size: int = 10,
         seed: int | None = None,
+        **kwargs: Any,  # TODO: Remove
     ):
         super().__init__(pipeline_space=pipeline_space)
         grid = self.pipeline_space.get_search_space_grid(
-- 
2.43.0


From b58d28070c9de6cd8b0afd9ee45663d777cee4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 13/38] fix: cloned hyperparameters keep the confidence in
 their default

---
 neps/search_spaces/hyperparameters/categorical.py | 1 +
 neps/search_spaces/hyperparameters/float.py       | 1 +
 neps/search_spaces/hyperparameters/integer.py     | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index af27bb4..903cd37 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -113,6 +113,7 @@ class CategoricalParameter(
             default=self.default,
             default_confidence=self.default_confidence_choice,  # type: ignore
         )
+        clone.default_confidence_score = self.default_confidence_score
         if self.value is not None:
             clone.set_value(self.value)
 
diff --git a/neps/search_spaces/hyperparameters/float.py b/neps/search_spaces/hyperparameters/float.py
index 8badc76..d1d5e36 100644
--- a/neps/search_spaces/hyperparameters/float.py
+++ b/neps/search_spaces/hyperparameters/float.py
@@ -85,6 +85,7 @@ class FloatParameter(NumericalParameter[float]):
             default=self.default,
             default_confidence=self.default_confidence_choice,
         )
+        clone.default_confidence_score = self.default_confidence_score
         if self.value is not None:
             clone.set_value(self.value)
 
diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 6780b82..db34687 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -105,6 +105,8 @@ class IntegerParameter(NumericalParameter[int]):
             default=self.default,
             default_confidence=self.default_confidence_choice,
         )
+        clone.default_confidence_score = self.default_confidence_score
+        clone.float_hp.default_confidence_score = self.float_hp.default_confidence_score
         if self.value is not None:
             clone.set_value(self.value)
 
-- 
2.43.0


From eb233007129e6edd153401b66ec3ab8a5b09a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 14/38] fix: a resource is only marked as existing once its
 data was written

---
 neps/state/protocols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..bb8c9db 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,9 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: The version marks the resource as existing, hence only once it's complete
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
-- 
2.43.0


From f8e5a3b5752a9e22e979342549b55e5623963a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 15/38] fix: trials whose creation is in progress or was
 interrupted do not crash workers

---
 neps/state/filebased.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..34ace3d 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -96,7 +96,8 @@ class TrialRepoInDirectory(TrialRepo[Path]):
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            if config_path.name.startswith("config_")
+            and (config_path / ".version").exists()
         }
 
     @override
@@ -168,7 +169,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / ".version").exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
-- 
2.43.0


From 4562e913eb9d16b6198b02ba328c7ccc83a951d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 16/38] fix: workers starting at the same time no longer crash
 on a half-created run

---
 neps/state/filebased.py | 54 ++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 34ace3d..4396ca3 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -572,10 +572,9 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
-        to create the NePSState. This is a limitation of the current design.
+        the one that is passed. If two processes try to create a NePSState at the
+        same time, both with different optimizer infos, the second one will fail
+        to create the NePSState.
 
         In principal, we could allow multiple optimizers to be run and share
         the same set of trials.
@@ -591,7 +590,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -607,35 +605,31 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # NOTE: Another worker may be starting up at the same time, the first one to get here
+    # decides on the info.
+    shared_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = shared_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=shared_optimizer_info,  # type: ignore
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From fcf885fec16a3fbfd7694a683de02e48ff28ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 17/38] fix: random search evaluates at the maximum fidelity
 when told to ignore it

---
 neps/optimizers/random_search/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/random_search/optimizer.py b/neps/optimizers/random_search/optimizer.py
index 131ca6e..1d0f0ad 100644
--- a/neps/optimizers/random_search/optimizer.py
+++ b/neps/optimizers/random_search/optimizer.py
@@ -56,6 +56,9 @@ class RandomSearch(BaseOptimizer):
             user_priors=self.use_priors,
             ignore_fidelity=self.ignore_fidelity,
         )
+        if self.ignore_fidelity and config.has_fidelity:
+            config.set_to_max_fidelity()
+
         config_id = str(n_trials + 1)
         return SampledConfig(
             config=config.hp_values(), id=config_id, previous_config_id=None
-- 
2.43.0


From 123cff9142c0f07b03b3222f93ed8c45b3cf54d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:07 +0000
Subject: [PATCH 18/38] fix: an exception that cannot be copied no longer loses
 the report of its evaluation

---
 neps/state/filebased.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 4396ca3..d1f4281 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -23,7 +23,7 @@ import logging
 import pprint
 from collections.abc import Iterable, Iterator
 from contextlib import contextmanager
-from dataclasses import asdict, dataclass, field
+from dataclasses import asdict, dataclass, field, replace
 from pathlib import Path
 from typing import ClassVar, TypeVar
 from typing_extensions import override
@@ -255,7 +255,11 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
-            serialize(asdict(trial.report), report_path)
+            # NOTE: `asdict` deep-copies its values, which user exceptions may not support
+            err = trial.report.err
+            report = asdict(replace(trial.report, err=None))
+            report["err"] = str(err) if err is not None else None
+            serialize(report, report_path)
 
 
 @dataclass
-- 
2.43.0


From a428400f2bd67512de3e2c855fec6b6f5b74156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:49 +0000
Subject: [PATCH 19/38] fix: the run summary no longer fails when no evaluation
 reported a loss

---
 neps/status/status.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index e4e0175..16b8500 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -279,6 +279,13 @@ def _get_dataframes_from_summary(
     return df_config_data, df_run_data
 
 
+def _sort_by_loss(config_data_df: pd.DataFrame) -> pd.DataFrame:
+    # There is no loss to sort by if no evaluation reported one, e.g. all of them crashed
+    if "result.loss" not in config_data_df.columns:
+        return config_data_df
+    return config_data_df.sort_values(by="result.loss", ascending=True)
+
+
 def _save_data_to_csv(
     config_data_file_path: Path,
     run_data_file_path: Path,
@@ -308,10 +315,7 @@ def _save_data_to_csv(
             ]
             # Represents the last worker
             if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
+                config_data_df = _sort_by_loss(config_data_df)
                 config_data_df.to_csv(config_data_file_path, index=False, mode="w")
                 run_data_df.to_csv(run_data_file_path, index=True, mode="w")
 
@@ -329,18 +333,12 @@ def _save_data_to_csv(
                 ]
                 # check if the current worker has more evaluated configs than the previous
                 if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
+                    config_data_df = _sort_by_loss(config_data_df)
                     config_data_df.to_csv(config_data_file_path, index=False, mode="w")
                     run_data_df.to_csv(run_data_file_path, index=True, mode="w")
             # Represents the first worker to be evaluated
             else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
+                config_data_df = _sort_by_loss(config_data_df)
                 config_data_df.to_csv(config_data_file_path, index=False, mode="w")
                 run_data_df.to_csv(run_data_file_path, index=True, mode="w")
         except Exception as e:
-- 
2.43.0


From f2cc0303686df8539afa1db2ee9f43d7da1f1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:11 +0000
Subject: [PATCH 20/38] fix: bayesian optimization no longer fails to sample
 before a loss was reported

---
 .../bayesian_optimization/optimizer.py          | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..35b6b96 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -165,6 +165,23 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # There is nothing to fit a GP to until some evaluation has reported a loss, e.g.
+        # the initial design is still being evaluated by other workers or has crashed
+        if not any(
+            trial.report is not None and trial.report.loss is not None
+            for trial in trials.values()
+        ):
+            (config,) = make_initial_design(
+                space=space,
+                encoder=self.encoder,
+                sample_default_first=False,
+                sampler=self.prior if self.prior is not None else "sobol",
+                seed=None,  # TODO: Seeding
+                sample_size=1,
+                sample_fidelity="max",
+            )
+            return SampledConfig(id=config_id, config=config)
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From 9ef0802111196dca575b64b8f425920d397c629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:56 +0000
Subject: [PATCH 21/38] fix: setting the default of an integer updates its log
 default and is atomic

---
 neps/search_spaces/hyperparameters/integer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index db34687..34e3e06 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -121,12 +121,15 @@ class IntegerParameter(NumericalParameter[int]):
         if default is None:
             self.default = None
             self.has_prior = False
+            self.log_default = None
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
+            # NOTE: Raises if out of bounds, in which case nothing should change
+            self.float_hp.set_default(_default)
             self.default = _default
             self.has_prior = True
-            self.float_hp.set_default(_default)
+            self.log_default = self.float_hp.log_default
 
     @override
     def set_value(self, value: int | None) -> None:
-- 
2.43.0


From 05db1365f478a9e8255e4b7780a349a3dc808a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:56 +0000
Subject: [PATCH 22/38] fix: simple mutation of a numerical hyperparameter
 returns the sampled child

---
 neps/search_spaces/hyperparameters/numerical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 62d5cd6..afc58cd 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -196,8 +196,7 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
             parent = self
 
         if mutation_strategy == "simple":
-            child = self.clone()
-            child.sample()
+            child = self.sample()
         elif mutation_strategy == "local_search" and "std" in kwargs:
             child = self._get_non_unique_neighbors(std=kwargs["std"], num_neighbours=1)[0]
         elif mutation_strategy == "local_search":
-- 
2.43.0


From f9c7a68e9c120e376083482abaedae146830b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 23/38] fix: sample from the fitted acquisition function in
 ModelPolicy

ModelPolicy has no attribute 'acquisition', so mobster, priorband_bo and every
other model based searcher failed as soon as the initial phase was over.
---
 .../multi_fidelity/sampling_policy.py         | 34 ++++---------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 02bcb90..aac2700 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -5,7 +5,6 @@ from abc import ABC, abstractmethod
 from typing import TYPE_CHECKING, Any, Literal
 
 import numpy as np
-import pandas as pd
 import torch
 from botorch.acquisition import (
     AcquisitionFunction,
@@ -30,7 +29,6 @@ if TYPE_CHECKING:
 TOLERANCE = 1e-2  # 1%
 SAMPLE_THRESHOLD = 1000  # num samples to be rejected for increasing hypersphere radius
 DELTA_THRESHOLD = 1e-2  # 1%
-TOP_EI_SAMPLE_COUNT = 10
 
 logger = logging.getLogger(__name__)
 
@@ -372,34 +370,16 @@ class ModelPolicy(SamplingPolicy):
             for _ in range(SAMPLE_THRESHOLD)
         ]
 
-        if fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
-            _inc_copy = self.acquisition.incumbent
-            # TODO: better design required, for example, not import torch
-            #  right now this case handles the 2-step acquisition in `sample`
-            if "incumbent" in kwargs:
-                # sets the incumbent to the best score at the required fidelity for
-                # correct computation of EI scores
-                self.acquisition.incumbent = torch.tensor(kwargs["incumbent"])
-            # updating the fidelity of the sampled configurations
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
-            # computing EI at the given `fidelity`
-            eis = self.acquisition.eval(x=samples, asscalar=True)
-            # extracting the 10 highest scores
-            _ids = np.argsort(eis)[-TOP_EI_SAMPLE_COUNT:]
-            samples = pd.Series(samples).iloc[_ids].values.tolist()
-            # setting the fidelity to the maximum fidelity
-            self.acquisition.optimize_on_max_fidelity = True
-            self.acquisition.incumbent = _inc_copy
-
+        # the surrogate does not model the fidelity, the samples are only set to it
         if active_max_fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
             fidelity = active_max_fidelity
+        if fidelity is not None:
             samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
 
         # computes the EI for all `samples`
-        eis = self.acquisition.eval(x=samples, asscalar=True)
+        assert self._acq is not None
+        x = self._encoder.encode([config.hp_values() for config in samples])
+        with torch.no_grad():
+            eis = self._acq(x.unsqueeze(1))
         # extracting the highest scored sample
-        return samples[np.argmax(eis)]
+        return samples[int(eis.argmax())]
-- 
2.43.0


From 2d6f42fa5c82571d3fd23df630a7f287a356afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 24/38] fix: crashed evaluations do not stop model based
 multi-fidelity searchers

Their infinite loss made fitting the surrogate fail for the rest of the run.
---
 neps/optimizers/multi_fidelity/sampling_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index aac2700..8f56de7 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -308,6 +308,11 @@ class ModelPolicy(SamplingPolicy):
         x_train = self._encoder.encode([config.hp_values() for config in train_x])
         x_pending = self._encoder.encode([config.hp_values() for config in pending_x])
         y_train = torch.tensor(train_y, dtype=torch.float64, device=self.device)
+        # Crashed evaluations are recorded with an infinite loss, which no GP can be fit
+        # to. As for BayesianOptimization, they get the median of the others instead.
+        finite = torch.isfinite(y_train)
+        fill_value = y_train[finite].median().item() if finite.any() else 0.0
+        y_train = torch.where(finite, y_train, fill_value)
 
         # TODO: Most of this just copies BO and the duplication can be replaced
         # once we don't have the two stage `update_model()` and `sample()`
-- 
2.43.0


From 2e21edb7cd858a394a3134224c348d06b0037b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:22 +0000
Subject: [PATCH 25/38] fix: optimize the acquisition function of spaces with
 over 20 categorical combinations

With 21 to 30 combinations, the number of restarts was rounded down to zero and
every proposal of the Bayesian optimization failed.
---
 neps/optimizers/bayesian_optimization/models/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..5631712 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -210,7 +210,7 @@ def optimize_acq(
     return optimize_acqf_mixed(
         acq_function=acq_fn,
         bounds=bounds,
-        num_restarts=min(num_restarts // n_combos, 2),
+        num_restarts=max(1, min(num_restarts // n_combos, 2)),
         raw_samples=n_intial_start_points,
         q=n_candidates_required,
         fixed_features_list=fixed_cats,
-- 
2.43.0


From d1e73eb4585e39857b30b5830edddbfa4de9ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:03 +0000
Subject: [PATCH 26/38] fix: ignore trials without a cost when fitting the cost
 model

One crashed or cost-less trial made every further proposal fail, and the masked
configurations and costs were swapped.
---
 neps/optimizers/bayesian_optimization/models/gp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 5631712..3518253 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -365,7 +365,7 @@ def fit_and_acquire_from_gp(
 
         # We simply ignore missing costs when training the cost GP.
         missing_costs = torch.isnan(costs)
-        if missing_costs.any():
+        if missing_costs.all():
             raise ValueError(
                 "Must have at least some configurations reported with a cost"
                 " if using costs with a GP."
@@ -373,8 +373,8 @@ def fit_and_acquire_from_gp(
 
         if missing_costs.any():
             not_missing_mask = ~missing_costs
-            x_train_cost = costs[not_missing_mask]
-            y_train_cost = x_train[not_missing_mask]
+            x_train_cost = x_train[not_missing_mask]
+            y_train_cost = costs[not_missing_mask]
         else:
             x_train_cost = x_train
             y_train_cost = costs
-- 
2.43.0


From 2258836d390d0aa1e757f8cb7da9d97753a83ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 27/38] fix: apply the prior of each hyperparameter to its own
 encoded column

The columns of an encoded configuration are sorted by name over all kinds of
hyperparameters, those of the prior were numerical ones first, so the priors of
spaces with a categorical sorted before a numerical were mixed up.
---
 neps/optimizers/bayesian_optimization/optimizer.py      | 5 ++++-
 neps/optimizers/initial_design.py                       | 4 +++-
 neps/optimizers/multi_fidelity/hyperband.py             | 3 ++-
 neps/optimizers/multi_fidelity/ifbo.py                  | 9 ++++++++-
 neps/optimizers/multi_fidelity_prior/async_priorband.py | 3 ++-
 neps/optimizers/multi_fidelity_prior/priorband.py       | 3 ++-
 6 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 35b6b96..73c5cee 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -127,8 +127,11 @@ class BayesianOptimization(BaseOptimizer):
         self.encoder = encoder or ConfigEncoder.default(
             params, constants=pipeline_space.constants
         )
+        # The columns of the prior have to be those of the encoder
         self.prior = (
-            Prior.from_parameters(params.values()) if use_priors is True else None
+            Prior.from_parameters(params[name] for name in self.encoder.transformers)
+            if use_priors is True
+            else None
         )
         self.use_cost = use_cost
         self.use_priors = use_priors
diff --git a/neps/optimizers/initial_design.py b/neps/optimizers/initial_design.py
index eb99f42..6efa44c 100644
--- a/neps/optimizers/initial_design.py
+++ b/neps/optimizers/initial_design.py
@@ -117,7 +117,9 @@ def make_initial_design(  # noqa: PLR0912, C901
             case "uniform":
                 sampler = Sampler.uniform(ndim=len(params))
             case "prior":
-                sampler = Prior.from_parameters(params.values())
+                sampler = Prior.from_parameters(
+                    params[name] for name in encoder.transformers
+                )
             case _:
                 pass
 
diff --git a/neps/optimizers/multi_fidelity/hyperband.py b/neps/optimizers/multi_fidelity/hyperband.py
index 6dc4bdf..5292591 100644
--- a/neps/optimizers/multi_fidelity/hyperband.py
+++ b/neps/optimizers/multi_fidelity/hyperband.py
@@ -555,7 +555,8 @@ class MOBSTER(MFBOBase, AsynchronousHyperband):
                 **self.pipeline_space.numerical,
                 **self.pipeline_space.categoricals,
             }
-            prior = Prior.from_parameters(parameters.values())
+            # ordered as the columns of the model's encoder
+            prior = Prior.from_parameters(hp for _, hp in sorted(parameters.items()))
         else:
             prior = None
 
diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index e70cf70..a418f76 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -141,7 +141,6 @@ class IFBO(BaseOptimizer):
         self._initial_design: list[dict[str, Any]] | None = None
 
         params = {**space.numerical, **space.categoricals}
-        self._prior = Prior.from_parameters(params.values()) if use_priors else None
         self._config_encoder: ConfigEncoder = ConfigEncoder.default(
             params,
             constants=self.pipeline_space.constants,
@@ -152,6 +151,14 @@ class IFBO(BaseOptimizer):
                 for cat_name, cat in space.categoricals.items()
             },
         )
+        # The columns of the prior have to be those of the encoder
+        self._prior = (
+            Prior.from_parameters(
+                params[name] for name in self._config_encoder.transformers
+            )
+            if use_priors
+            else None
+        )
 
         # Domain of fidelity values, i.e. what is given in the configs that we
         # give to the user to evaluate at.
diff --git a/neps/optimizers/multi_fidelity_prior/async_priorband.py b/neps/optimizers/multi_fidelity_prior/async_priorband.py
index 827ad5f..f9f4a9d 100644
--- a/neps/optimizers/multi_fidelity_prior/async_priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/async_priorband.py
@@ -121,7 +121,8 @@ class PriorBandAsha(MFBOBase, PriorBandBase, AsynchronousSuccessiveHalvingWithPr
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            # ordered as the columns of the model's encoder
+            prior=Prior.from_parameters(hp for _, hp in sorted(parameters.items())),
         )
 
     def get_config_and_ids(
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index c41f4e4..596ca72 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -386,7 +386,8 @@ class PriorBand(MFBOBase, HyperbandCustomDefault, PriorBandBase):
         parameters = {**self.pipeline_space.numerical, **self.pipeline_space.categoricals}
         self.model_policy = model_policy(
             pipeline_space=pipeline_space,
-            prior=Prior.from_parameters(parameters.values()),
+            # ordered as the columns of the model's encoder
+            prior=Prior.from_parameters(hp for _, hp in sorted(parameters.items())),
         )
 
         for _, sh in self.sh_brackets.items():
-- 
2.43.0


From f59c6aea9d3fcabbd12a0c497c9e188758ad5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 28/38] fix: priorband samples hyperparameters that have no
 default

It is the default searcher as soon as one hyperparameter has a prior, but its
proposals failed unless all of them had one.
---
 neps/optimizers/multi_fidelity/sampling_policy.py    | 4 +++-
 neps/optimizers/multi_fidelity/successive_halving.py | 4 +++-
 neps/optimizers/multi_fidelity_prior/priorband.py    | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 8f56de7..f9c8fe0 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -198,7 +198,9 @@ class EnsemblePolicy(SamplingPolicy):
                 user_priors = False
 
             if inc is None:
-                inc = self.pipeline_space.sample_default_configuration().clone()
+                inc = self.pipeline_space.sample_default_configuration(
+                    ignore_missing_defaults=True
+                ).clone()
                 logger.warning(
                     "No incumbent config found, using default as the incumbent."
                 )
diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 595cd6d..34a14a3 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -433,7 +433,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
                     rung_id = self.max_rung
                     logger.info("Next config will be evaluated at target fidelity.")
                 logger.info("Sampling the default configuration...")
-                config = self.pipeline_space.sample_default_configuration()
+                config = self.pipeline_space.sample_default_configuration(
+                    ignore_missing_defaults=True
+                )
 
             # using random instead of np.random to be consistent with NePS BO
             elif random.random() < self.random_interleave_prob:
diff --git a/neps/optimizers/multi_fidelity_prior/priorband.py b/neps/optimizers/multi_fidelity_prior/priorband.py
index 596ca72..3af8f59 100644
--- a/neps/optimizers/multi_fidelity_prior/priorband.py
+++ b/neps/optimizers/multi_fidelity_prior/priorband.py
@@ -94,7 +94,9 @@ class PriorBandBase:
         else:
             # THIS block should not ever execute, but for runtime anomalies, if no
             # incumbent can be extracted, the prior is treated as the incumbent
-            inc = self.pipeline_space.sample_default_configuration()
+            inc = self.pipeline_space.sample_default_configuration(
+                ignore_missing_defaults=True
+            )
             logger.warning(
                 "Treating the prior as the incumbent. "
                 "Please check if this should not happen."
@@ -262,7 +264,9 @@ class PriorBandBase:
         # requires at least eta completed configurations to begin computing scores
         if len(self.rung_histories[rung]["config"]) >= self.eta:
             # retrieve the prior
-            prior = self.pipeline_space.sample_default_configuration()
+            prior = self.pipeline_space.sample_default_configuration(
+                ignore_missing_defaults=True
+            )
             # retrieve the global incumbent
             inc = self.find_incumbent()
             # subsetting the top 1/eta configs from the rung
-- 
2.43.0


From 3e6b6f763c6c309e809b0be8d84a7839b25624f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 29/38] fix: ASHA with an early stopping rate only looks at the
 rungs it has

Every proposal failed with KeyError: 0.
---
 neps/optimizers/multi_fidelity/promotion_policy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..b30af1e 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -98,7 +98,8 @@ class AsyncPromotionPolicy(PromotionPolicy):
     def retrieve_promotions(self) -> dict:
         """Returns the top 1/eta configurations per rung if enough configurations seen."""
         assert self.max_rung is not None
-        for rung in range(self.max_rung + 1):
+        # NOTE: With early stopping, the lowest rungs do not exist
+        for rung in sorted(self.rung_members_performance):
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
-- 
2.43.0


From 1394b7abbca7010596a50fcb71c31bc17e19b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:14 +0000
Subject: [PATCH 30/38] fix: ifbo gives every step of the fidelity its own
 index

A fidelity divided into n steps has n + 1 values, with only n indices several
fidelity values shared an index or skipped one and a continued configuration
named a previous evaluation that does not exist.
---
 neps/optimizers/multi_fidelity/ifbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index a418f76..3650b7f 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -167,8 +167,8 @@ class IFBO(BaseOptimizer):
         # Domain in which we should pass budgets to ifbo model
         self._budget_domain = Domain.floating(1 / self._max_budget, 1)
 
-        # Domain from which we assign an index to each budget
-        self._budget_ix_domain = Domain.indices(fid_bins)
+        # Domain from which we assign an index to each budget, `n` steps have `n + 1` budgets
+        self._budget_ix_domain = Domain.indices(fid_bins + 1)
 
     @override
     def ask(
-- 
2.43.0


From 403707db1f8b45426d3b82b8e81168dbd351678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:50 +0000
Subject: [PATCH 31/38] fix: ifbo only continues configurations which have a
 free next step

With several workers a configuration whose next step was still being evaluated
was continued again, and rounding could continue one at its highest fidelity:
both proposed an id which is already taken.
---
 neps/optimizers/multi_fidelity/ifbo.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/ifbo.py b/neps/optimizers/multi_fidelity/ifbo.py
index 3650b7f..c8baf77 100755
--- a/neps/optimizers/multi_fidelity/ifbo.py
+++ b/neps/optimizers/multi_fidelity/ifbo.py
@@ -221,8 +221,13 @@ class IFBO(BaseOptimizer):
                 train_y=y[not_pending_mask],
                 test_x=X[pending_mask],
             )
-        else:
-            not_pending_X = X
+
+        # A config can not be continued while its next step is being evaluated or once
+        # it has no next step
+        budget_ix = self._budget_ix_domain.cast(X[:, 1], frm=self._budget_domain)
+        finished_mask = budget_ix >= self._budget_ix_domain.upper
+        unavailable_ids = X[pending_mask | finished_mask][:, 0]
+        continuable_X = X[~torch.isin(X[:, 0], unavailable_ids)]
 
         # NOTE: Can't really abstract this, requires knowledge that:
         # 1. The encoding is such that the loss is 1 - loss
@@ -258,7 +263,7 @@ class IFBO(BaseOptimizer):
             # Acquisition function
             acq_function=_mfpi_random,
             # Which acquisition samples to consider for continuation
-            continuation_samples=not_pending_X,
+            continuation_samples=continuable_X,
             # How to generate some initial samples
             initial_samplers=[
                 (Sampler.sobol(ndim=sample_dims), 512),
-- 
2.43.0


From 84d2a5b75fc8fe5e89fa09eeffb78f6b637ebbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:02 +0000
Subject: [PATCH 32/38] fix: ifbo encodes a crashed evaluation as the worst
 score, not the best

error_value is a score, it was used as a loss to minimize.
---
 neps/optimizers/bayesian_optimization/models/ftpfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/models/ftpfn.py b/neps/optimizers/bayesian_optimization/models/ftpfn.py
index 680c10b..6f39d0c 100644
--- a/neps/optimizers/bayesian_optimization/models/ftpfn.py
+++ b/neps/optimizers/bayesian_optimization/models/ftpfn.py
@@ -173,7 +173,7 @@ def encode_ftpfn(
         [
             pending_value
             if trial.report is None
-            else (error_value if trial.report.loss is None else trial.report.loss)
+            else (1 - error_value if trial.report.loss is None else trial.report.loss)
             for trial in trials.values()
         ],
         device=device,
-- 
2.43.0


From 0b9eea3aa40cbf8af5c3d1277f90493e94fc5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 33/38] fix: evaluate each hyperparameter's prior on its own
 column

The translated tensor only has the columns which have a prior, it was indexed
with the column of the whole tensor: bayesian optimization with priors failed
once a hyperparameter without default came before one with a default.
---
 neps/sampling/priors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index e4c6776..4446967 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -325,8 +325,8 @@ class CenteredPrior(Prior):
         )
 
         # Calculate the log probabilities of the sample domain tensors under their
-        # respective distributions.
-        itr = iter(zip(self._meaningful_ixs, self._meaningful_dists, strict=False))
+        # respective distributions. `translated_x` only has the meaningful columns.
+        itr = iter(enumerate(self._meaningful_dists))
         first_i, first_dist = next(itr)
         log_probs = first_dist.log_prob(translated_x[..., first_i])
 
-- 
2.43.0


From 0341ffac672c2dec07a7522739a1f45dc633a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 34/38] fix: lift values from the log bounds of the target
 domain only

The shortcut was taken when the target domain was the log space of the source,
where the exponential is wrong: a log scaled hyperparameter from 1 to e was
encoded, and decoded, far out of its bounds.
---
 neps/search_spaces/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..2f12d22 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -321,7 +321,11 @@ class Domain(Generic[V]):
         # We can also shortcut out if the only diffrence is that we are coming frm the
         # log bounds of this domain. We dont care if where we came from was binned or not,
         # we just lift it up with `np.exp` and round if needed
-        if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
+        if (
+            self.log_bounds == (frm.lower, frm.upper)
+            and frm.log_bounds is None
+            and self.cardinality is None
+        ):
             x = torch.exp(x)
             if self.round:
                 x = torch.round(x)
-- 
2.43.0


From 3b0a5547a42feb5e89a0fdcfbfdbd50edac9ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:52 +0000
Subject: [PATCH 35/38] fix: the exponent of the prior applies to acquisition
 functions on log scale

---
 .../bayesian_optimization/acquisition_functions/pibo.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
index 9efac5e..d0d463a 100644
--- a/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
+++ b/neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py
@@ -40,7 +40,7 @@ def apply_pibo_acquisition_weight(
     prior_exponent: float,
 ) -> Tensor:
     if acq._log:
-        weighted_log_probs = prior.log_prob(X, frm=x_domain) + prior_exponent
+        weighted_log_probs = prior.log_prob(X, frm=x_domain) * prior_exponent
         return acq_values + weighted_log_probs
 
     weighted_probs = prior.prob(X, frm=x_domain).pow(prior_exponent)
-- 
2.43.0


From e761e2744d4759a42713345f2f3f66c2163af947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 36/38] fix: the prior weights the acquisition of ModelPolicy
 while it is significant

---
 neps/optimizers/multi_fidelity/sampling_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index f9c8fe0..36eab3c 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -340,7 +340,7 @@ class ModelPolicy(SamplingPolicy):
             # arbitrary term. This 10 is extracted from the old DecayingWeightedPrior
             pibo_exp_term = 10 / decay_t
             significant_lower_bound = 1e-4  # No significant impact beyond this point
-            if pibo_exp_term < significant_lower_bound:
+            if pibo_exp_term >= significant_lower_bound:
                 acq = pibo_acquisition(
                     acq,
                     prior=self.prior,
-- 
2.43.0


From 3421ff312ec98aa3b877deb4b6268894e27fb179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 37/38] fix: the density of a prior is the product over its
 columns, whatever their order

---
 neps/sampling/priors.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neps/sampling/priors.py b/neps/sampling/priors.py
index 4446967..a7466e8 100644
--- a/neps/sampling/priors.py
+++ b/neps/sampling/priors.py
@@ -330,10 +330,8 @@ class CenteredPrior(Prior):
         first_i, first_dist = next(itr)
         log_probs = first_dist.log_prob(translated_x[..., first_i])
 
-        _weight = 1 / len(self.distributions)
-
         for i, dist in itr:
-            log_probs = log_probs + _weight * dist.log_prob(translated_x[..., i])
+            log_probs = log_probs + dist.log_prob(translated_x[..., i])
 
         return log_probs
 
-- 
2.43.0


From d41dbe6d634de93a689dbede740ddfe92088ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 38/38] fix: the number of rungs of a bracket is not rounded
 down past an exact power of eta

---
 .../multi_fidelity/successive_halving.py      | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 34a14a3..6fb1e42 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -123,8 +123,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
 
         # check to ensure no rung ID is negative
         # equivalent to s_max in https://arxiv.org/pdf/1603.06560.pdf
+        # (rounded first, as the quotient of the logarithms may be just below an integer)
         self.stopping_rate_limit = np.floor(
-            np.log(self.max_budget / self.min_budget) / np.log(self.eta)
+            np.round(np.log(self.max_budget / self.min_budget) / np.log(self.eta), 8)
         ).astype(int)
         assert self.early_stopping_rate <= self.stopping_rate_limit
 
@@ -175,13 +176,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
     def _get_rung_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to a fidelity value based on fidelity bounds, eta, s."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self.stopping_rate_limit - s + 1
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
@@ -196,13 +191,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
     def _get_config_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to the number of configs for each fidelity."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        nrungs = self.stopping_rate_limit - s + 1
         s_max = self.stopping_rate_limit + 1
         _s = self.stopping_rate_limit - s
         # L2 from Alg 1 in https://arxiv.org/pdf/1603.06560.pdf
-- 
2.43.0

