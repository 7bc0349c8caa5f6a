From 4b1c45c097fb300e36a5ab8e775a876d509b1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 01/33] fix: restore the latest checkpoint when it is the one
 of step 0

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..edd0e62 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1036,7 +1036,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From 1423a9de7b06c4650ddffe3500bc90f2563e293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 02/33] fix: let an array as large as the concurrency limit be
 written

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index edd0e62..aa55625 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From 282fa8985d0289afefd3462c726d0d0f0f1fb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 03/33] fix: apply save_dtype to the target parameters of Orbax
 checkpoints

Parameter names are joined with '/', so splitting on '.' never matched.
---
 t5x/checkpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index aa55625..7845c86 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2054,9 +2054,9 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
-    dtype = None
-  return ocp.SaveArgs(dtype=dtype)
+  if param_info.name.split('/')[0] != 'target' or dtype is None:
+    return ocp.SaveArgs()
+  return ocp.SaveArgs(dtype=jnp.dtype(dtype))
 
 
 def _construct_restore_args(
-- 
2.43.0


From 684ed70628493300f3002f27535d23e057723d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 04/33] fix: cast only target parameters to restore_dtype on
 Orbax restore

The step and other unsharded optimizer state were cast too.
---
 t5x/checkpoints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 7845c86..0d17896 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2509,7 +2509,11 @@ class OrbaxCheckpointManagerInterface:
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            restore_dtype=(
+                self._restore_dtype
+                if info.name.split('/')[0] == 'target'
+                else None
+            ),
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From b7a2b07025134b16f77abc57f19a93808d2bd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 05/33] fix: restore the latest Orbax checkpoint when no step
 is given

---
 t5x/checkpoints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 0d17896..99ba606 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2418,6 +2418,10 @@ class OrbaxCheckpointManagerInterface:
     directory = self.directory
     if path is not None:
       directory, step = get_step_from_checkpoint_dir(os.fspath(path))
+    elif step is None:
+      step = self.latest_step()
+      if step is None:
+        raise ValueError(f'No checkpoints found in {directory}.')
 
     # Check for legacy T5X checkpoint: If so, use legacy T5X
     # checkpointer to restore the state. The following exclusive features of T5X
-- 
2.43.0


From f03a5d225738527615a2c551ba0d8f6cb9d6e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 06/33] fix: restore the requested step of a legacy checkpoint
 through Orbax

---
 t5x/checkpoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 99ba606..3c00f86 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2452,6 +2452,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
+            step=step if path is None else None,
             path=path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
-- 
2.43.0


From 1e56f018cee28418b7907c9f65c50baff6df107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 07/33] fix: cast only target parameters in load_t5x_checkpoint

---
 t5x/checkpoints.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 3c00f86..24d4068 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1932,15 +1932,18 @@ def load_t5x_checkpoint(
         maybe_ts_spec, get_fn, dtype=restore_dtype
     )
 
-  state_dict = jax.tree_util.tree_map(
-      functools.partial(
-          _create_lazy_awaitable_array,
-          ckpt_path=path,
-          restore_dtype=restore_dtype,
-      ),
-      param_infos,
-      ckpt_optimizer_state_with_specs,
-  )
+  state_dict = {}
+  for k in ckpt_optimizer_state_with_specs.keys():
+    # ensure that only 'target' is cast
+    state_dict[k] = jax.tree_util.tree_map(
+        functools.partial(
+            _create_lazy_awaitable_array,
+            ckpt_path=path,
+            restore_dtype=restore_dtype if k == 'target' else None,
+        ),
+        param_infos[k],
+        ckpt_optimizer_state_with_specs[k],
+    )
 
   if not lazy_parameters:
     future_state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 6dcfef8aac77fbacbfe3d713b49e9357f3e99b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 08/33] fix: list checkpoints by the configured checkpoint
 prefix

With a gin-configured prefix, listing looked for 'checkpoint_' directories, so
a job neither resumed from nor pruned its own checkpoints.
---
 t5x/checkpoints_utils.py | 10 ++++++----
 t5x/utils.py             |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..f2da3c5 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -39,20 +39,22 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
-  glob_pattern = os.path.join(checkpoints_dir, 'checkpoint_*')
+  prefix = get_checkpoint_prefix()
+  glob_pattern = os.path.join(checkpoints_dir, f'{prefix}_*')
   checkpoint_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
   return sorted(int(match.group(1)) for match in matches if match)
 
 
 def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
+  prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, 'checkpoint_*', f'{_TRAIN_DS_PREFIX}-*'
+      checkpoints_dir, f'{prefix}_*', f'{_TRAIN_DS_PREFIX}-*'
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..75b44a9 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -962,7 +962,7 @@ def get_first_valid_restore_config_and_paths(
           ckpt_paths = tf_ckpt_state.all_model_checkpoint_paths
         else:
           ckpt_paths = [
-              os.path.join(ckpt_dir, f'checkpoint_{step}')
+              checkpoints.get_checkpoint_dir(ckpt_dir, step)
               for step in checkpoints.all_steps(ckpt_dir)
           ]
         if not ckpt_paths:
-- 
2.43.0


From 0db655e4843c2a763a500257eec730e4c36514a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 09/33] fix: restore leaves saved as None from Orbax
 checkpoints

---
 t5x/checkpoints.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 24d4068..776dbeb 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2115,6 +2115,19 @@ def _construct_orbax_restoration_transforms(
   structure, _ = state_handler._get_internal_metadata(  # pylint: disable=protected-access
       state_subdir
   )
+
+  # Leaves saved as None (e.g., the state of a parameter that no optimizer of a
+  # MultiOptimizer updates) have nothing to read from storage.
+  def _drop_none_leaf(value):
+    if (
+        isinstance(value, ocp.metadata.tree.ValueMetadataEntry)
+        and value.value_type == 'None'
+    ):
+      return None
+    return value
+
+  structure = jax.tree.map(_drop_none_leaf, structure)
+
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
   # way to do that within Orbax.
@@ -2133,6 +2146,12 @@ def _construct_orbax_restoration_transforms(
   restore_args = state_utils.intersect_state(
       restore_args, state_dict_to_restore
   )
+  restore_args = jax.tree.map(
+      lambda value, args: None if value is None else args,
+      state_dict_to_restore,
+      restore_args,
+      is_leaf=lambda x: x is None,
+  )
 
   def _transform_fn(
       item_: PyTree, structure_: PyTree, param_infos_: PyTree
-- 
2.43.0


From 7a97981fc00f4d230a3346fa05a6e33830043328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 10/33] fix: keep assigned entries when the checkpoint has one
 of the same name

---
 t5x/state_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/state_utils.py b/t5x/state_utils.py
index aa1af46..b0c2ea5 100644
--- a/t5x/state_utils.py
+++ b/t5x/state_utils.py
@@ -213,7 +213,7 @@ def apply_assignment_map(
   # Now re-add the unmapped keys. This is a 2-step process so that the `pop()`
   # call above doesn't mis-fire if the assignment map "rotates" a chain of keys.
   for key, v in unmapped_old_keys.items():
-    if key not in explicitly_skipped_keys:
+    if key not in explicitly_skipped_keys and key not in result:
       result[key] = v
 
   # If any new keys weren't mapped, but are in the old checkpoint, copy those.
-- 
2.43.0


From a28cf3ad10a874bf1b1e9de66fd8c408f0c5cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 11/33] fix: read renamed leaves of Orbax checkpoints by their
 saved names

---
 t5x/checkpoints.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 776dbeb..5d8d17b 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2096,6 +2096,13 @@ def _construct_orbax_param_infos(
   return jax.tree_util.tree_map(_OrbaxParamInfo, param_names, mesh_axes)
 
 
+@dataclasses.dataclass
+class _NamedValueMetadataEntry(ocp.metadata.tree.ValueMetadataEntry):
+  """Metadata of a saved leaf that remembers the name it was saved under."""
+
+  name: Optional[str] = None
+
+
 def _construct_orbax_restoration_transforms(
     state_handler: ocp.PyTreeCheckpointHandler,
     step: int,
@@ -2116,17 +2123,23 @@ def _construct_orbax_restoration_transforms(
       state_subdir
   )
 
-  # Leaves saved as None (e.g., the state of a parameter that no optimizer of a
-  # MultiOptimizer updates) have nothing to read from storage.
-  def _drop_none_leaf(value):
-    if (
-        isinstance(value, ocp.metadata.tree.ValueMetadataEntry)
-        and value.value_type == 'None'
-    ):
-      return None
+  # Transformations may rename leaves, which still need to be read from storage
+  # by the name they were saved under. Leaves saved as None (e.g., the state of a
+  # parameter that no optimizer of a MultiOptimizer updates) have nothing to read
+  # from storage.
+  def _prepare_leaf(path, value):
+    if isinstance(value, ocp.metadata.tree.ValueMetadataEntry):
+      if value.value_type == 'None':
+        return None
+      return _NamedValueMetadataEntry(
+          value_type=value.value_type,
+          skip_deserialize=value.skip_deserialize,
+          write_shape=value.write_shape,
+          name='.'.join(str(ocp.utils.get_key_name(k)) for k in path),
+      )
     return value
 
-  structure = jax.tree.map(_drop_none_leaf, structure)
+  structure = jax.tree_util.tree_map_with_path(_prepare_leaf, structure)
 
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
@@ -2180,8 +2193,12 @@ def _construct_orbax_restoration_transforms(
     )
 
     def _modify_orbax_param_info(info, value):
-      if ocp.utils.leaf_is_placeholder(value):
+      name = None
+      if isinstance(value, _NamedValueMetadataEntry):
+        name = value.name
+      elif ocp.utils.leaf_is_placeholder(value):
         name = ocp.utils.name_from_leaf_placeholder(value)
+      if name is not None:
         return dataclasses.replace(
             info, name=name, path=directory_ / name, parent_dir=directory_
         )
-- 
2.43.0


From be6e6b755da2553293fce4020d3aed9acd915cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 12/33] fix: save at the listed checkpoint steps with or
 without a period, once each

---
 t5x/train.py | 6 ++++--
 t5x/utils.py | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..ca6d456 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -212,7 +212,9 @@ def train(
   eval_period = eval_period if eval_enabled else 0
   checkpoint_period = checkpoint_cfg.save.period if checkpoint_cfg.save else 0
   checkpoint_steps = (
-      checkpoint_cfg.save.checkpoint_steps if checkpoint_cfg.save else []
+      sorted(checkpoint_cfg.save.checkpoint_steps or [])
+      if checkpoint_cfg.save
+      else []
   )
 
   if use_hardware_rng or random_seed is None:
@@ -713,7 +715,7 @@ def train(
             first_step,
         )
         # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index 75b44a9..40ea020 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2296,7 +2296,7 @@ def find_next_checkpoint_step(
   This will stop scalar training and save a checkpoint at that step.
   Checkpoint step is considered valid if less than or equal to epoch end step,
   not at a concurrent checkpoint_period step, and greater than the first
-  step. Specifically, this will decrease inner_num_steps (the current number
+  step and the current one. Specifically, this will decrease inner_num_steps (the current number
   of scalar steps to train) if host_step + inner_num_steps would otherwise
   pass a desired checkpoint step.
 
@@ -2328,8 +2328,12 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
         and curr_checkpoint_step > first_step
+        and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From f284384459fd39f7e40035fe7c06ab98f74f247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 13/33] fix: keep a stop request of one action mode when
 another mode runs

---
 t5x/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index ca6d456..73c5c97 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -516,7 +516,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -533,7 +533,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
@@ -726,7 +726,7 @@ def train(
           # that the actions can be performed without special casing. The
           # only caveat is that train would need its own special `key`
           # given no `task` will be applied.
-          trainer.stop_training = run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
+          trainer.stop_training |= run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
               trainer_lib.ActionMode.TRAIN,
               actions,
               trainer.train_state,
-- 
2.43.0


From b987e0364983a67d8a9a69986d0f265ad87c97be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 14/33] fix: save exactly one checkpoint of the step at which
 training stops

---
 t5x/train.py | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 73c5c97..bd9b5cb 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -554,22 +554,26 @@ def train(
       logging.info('Running inference eval before training.')
       _run_inference_eval()
 
-  # Save checkpoints before the training loop starts.
-  if checkpoint_period and checkpoint_manager:
+  def _save_checkpoint():
     # If not using Orbax, always save checkpoint, otherwise, only save a
     # checkpoint if a checkpoint does not already exist for that step. This is
     # because Orbax will error out if we try to save a checkpoint that already
     # exists.
-    if not use_orbax or (
+    if (
         use_orbax
         and utils.get_local_data(trainer.train_state.step)
-        not in checkpoint_manager.all_steps()
+        in checkpoint_manager.all_steps()
     ):
-      logging.info('Saving checkpoint before the training loop starts.')
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      return
+    checkpoint_manager.save(
+        trainer.train_state,
+        checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
+    )
+
+  # Save checkpoints before the training loop starts.
+  if checkpoint_period and checkpoint_manager:
+    logging.info('Saving checkpoint before the training loop starts.')
+    _save_checkpoint()
 
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
@@ -671,6 +675,9 @@ def train(
 
     # `stop_training` is requested, break out the main loop immediately.
     if trainer.stop_training:
+      if checkpoint_period and checkpoint_manager:
+        logging.info('Saving a checkpoint before early stopping...')
+        _save_checkpoint()
       break
 
     logging.info('BEGIN Train loop.')
@@ -683,10 +690,7 @@ def train(
         if trainer.stop_training:
           if checkpoint_period and checkpoint_manager:
             logging.info('Saving a checkpoint before early stopping...')
-            checkpoint_manager.save(
-                trainer.train_state,
-                checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-            )
+            _save_checkpoint()
           logging.info(
               'Stopping training loop early since `stop_training` is requested.'
           )
@@ -735,10 +739,7 @@ def train(
 
         if is_checkpoint_step and checkpoint_manager:
           logging.info('Saving a checkpoint at specified checkpoint step')
-          checkpoint_manager.save(
-              trainer.train_state,
-              checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-          )
+          _save_checkpoint()
           # Increment the checkpoint_step_index only if a checkpoint was saved.
           if (
               checkpoint_steps
@@ -750,10 +751,7 @@ def train(
     except trainer_lib.PreemptionError as e:
       if checkpoint_period and checkpoint_manager:
         logging.info('Saving emergency checkpoint.')
-        checkpoint_manager.save(
-            trainer.train_state,
-            checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-        )
+        _save_checkpoint()
         checkpoint_manager.wait_until_finished()
         logging.info('Saving emergency checkpoint done.')
       raise e
@@ -773,10 +771,7 @@ def train(
       logging.info('Saving checkpoint.')
       checkpoint_tick = time.time()
       # Make sure last train step has completed before starting the clock.
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      _save_checkpoint()
       # `_run_training_eval`` depends upon the result of the checkpoint,
       # thus calling `wait_until_finished()`` here.
       checkpoint_manager.wait_until_finished()
-- 
2.43.0


From afc91f6a7965a5ca65e7ab003f8dad93ce9f8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 15/33] fix: finish the initial checkpoint and re-enable gc
 when there is nothing to train

---
 t5x/train.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index bd9b5cb..415e76e 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -587,6 +587,12 @@ def train(
 
   def _cleanup() -> None:
     """Ensures everything has been closed upon completion."""
+    if checkpoint_manager:
+      checkpoint_manager.close()
+    if gc_period:
+      # Reenable garbage collection to avoid affecting future code executed in
+      # the same interpreter.
+      gc.enable()
     trainer.close()
     if evaluator:
       evaluator.close()
@@ -795,17 +801,9 @@ def train(
     # Inference Evaluation (i.e., with decoding or scoring).
     if is_eval_epoch and evaluator is not None:
       _run_inference_eval()
-  if checkpoint_manager:
-    checkpoint_manager.close()
-
   # Wait until computations are done before exiting
   _cleanup()
 
-  if gc_period:
-    # Reenable garbage collection to avoid affecting future code executed in
-    # the same interpreter.
-    gc.enable()
-
   return host_step, trainer.train_state
 
 
-- 
2.43.0


From b9a465325cfb826fb83710491692d681177215d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 16/33] fix: keep the state of the last finished step when
 training is interrupted

---
 t5x/trainer.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 965bd09..2a18ff1 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -555,19 +555,22 @@ class BaseTrainer(abc.ABC):
           start_step if start_step is not None else train_state.step
       )
       self.train_metrics_manager.start_duration_timer(block_on=train_state)
-      for step_num in range(start_step, start_step + num_steps):
-        logging.log_every_n_seconds(
-            logging.INFO, "Training: step %d", 10, step_num
-        )
-        with jax.profiler.StepTraceAnnotation("train", step_num=step_num):
-          batch = next(batch_iter)
-          train_state, metrics_update = train_step_fn(train_state, batch)
-          if metrics:
-            metrics = merge_metrics(metrics, metrics_update)
-          else:
-            metrics = metrics_update
-
-      self.train_state = train_state
+      try:
+        for step_num in range(start_step, start_step + num_steps):
+          logging.log_every_n_seconds(
+              logging.INFO, "Training: step %d", 10, step_num
+          )
+          with jax.profiler.StepTraceAnnotation("train", step_num=step_num):
+            batch = next(batch_iter)
+            train_state, metrics_update = train_step_fn(train_state, batch)
+            if metrics:
+              metrics = merge_metrics(metrics, metrics_update)
+            else:
+              metrics = metrics_update
+      finally:
+        # Also when interrupted (e.g., by preemption): the buffers of the state
+        # that the loop started from have been donated.
+        self.train_state = train_state
 
     if metrics is not None:
       metrics["timing/uptime"] = clu.metrics.LastValue.from_model_output(
-- 
2.43.0


From b7499f6b061b4644c0a07273106d401ed0a2d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 17/33] fix: do not lose the first batch in the data iterator
 saved before training

---
 t5x/train.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 415e76e..12470fd 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -382,10 +382,6 @@ def train(
         )
     )
 
-  # Start warming up the input pipeline in the background. This must happen
-  # after input pipeline checkpoints were restored.
-  first_batch_ready = train_iter.peek_async()
-
   # 3. If no checkpoint to restore, init from scratch.
   train_state = train_state or train_state_initializer.from_scratch(init_rng)
   train_state_axes = train_state_initializer.train_state_axes
@@ -575,6 +571,12 @@ def train(
     logging.info('Saving checkpoint before the training loop starts.')
     _save_checkpoint()
 
+  # Start warming up the input pipeline in the background. This must happen
+  # after input pipeline checkpoints were restored, and after the checkpoint
+  # above was saved: the position saved by an iterator that was peeked at is
+  # behind the batch that training starts with.
+  first_batch_ready = train_iter.peek_async()
+
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
   if gc_period:
-- 
2.43.0


From 93e532089fe031bd172b467303a0ea945d0b71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 18/33] fix: Orbax restore of another run's checkpoint honours
 restore_dataset=False

---
 t5x/checkpoints.py | 7 +++++--
 t5x/utils.py       | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 5d8d17b..3ad6201 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2428,6 +2428,7 @@ class OrbaxCheckpointManagerInterface:
       fallback_state: Optional[Mapping[str, Any]] = None,
       state_transformation_fns: Sequence[RestoreStateTransformationFn] = (),
       lazy_parameters: Optional[bool] = False,
+      restore_dataset: bool = True,
   ) -> train_state_lib.TrainState:
     """Restores a TrainState from the given step or path.
 
@@ -2445,6 +2446,7 @@ class OrbaxCheckpointManagerInterface:
         after reading.
       lazy_parameters: whether to load the parameters as LazyArrays to preserve
         memory.
+      restore_dataset: whether to also restore the dataset iterator, if any.
 
     Returns:
       The restored train state.
@@ -2532,12 +2534,13 @@ class OrbaxCheckpointManagerInterface:
             legacy_transform_fn=transform_fn,
         ),
     }
-    if self._should_write_dataset_ckpt:
+    restore_dataset = restore_dataset and self._should_write_dataset_ckpt
+    if restore_dataset:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
     state_dict = restored[_STATE_KEY]
-    if self._should_write_dataset_ckpt:
+    if restore_dataset:
       self._dataset_iterator = restored[_DATASET_KEY]
 
     # Merge restored state dict with fallback state to fill in any remaining
diff --git a/t5x/utils.py b/t5x/utils.py
index 40ea020..0db4f18 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -518,6 +518,7 @@ def restore(
         path=path,
         state_transformation_fns=state_transformation_fns,
         fallback_state=fallback_state,
+        restore_dataset=restore_cfg.restore_dataset,
     )
     restored_checkpoints.append(restored)
 
-- 
2.43.0


From 782df1bd1cb003228766b202f78850bb70642093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 19/33] fix: record evaluated checkpoints atomically and one
 path per line

---
 t5x/eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index aa9dd45..0db2072 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -196,7 +196,7 @@ def _load_evaluated_ckpt_paths(eval_ckpt_path: str) -> Set[str]:
   if not gfile.exists(eval_ckpt_path):
     return set()
   with gfile.GFile(eval_ckpt_path, 'r') as f:
-    return set(f.read().split())
+    return set(f.read().splitlines())
 
 
 def evaluate(
@@ -391,8 +391,10 @@ def evaluate(
       # Read/write/replace rather than append to avoid filesystem issue.
       evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
       evaluated_ckpt_paths.add(ckpt_path)
-      with gfile.GFile(eval_ckpt_path, 'w') as f:
+      tmp_path = eval_ckpt_path + '.tmp'
+      with gfile.GFile(tmp_path, 'w') as f:
         f.write('\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))
+      gfile.rename(tmp_path, eval_ckpt_path, overwrite=True)
 
   logging.info('Finished.')
 
-- 
2.43.0


From a9b609d4e9612d1235c3fb1e57e04f1b05fa3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 20/33] fix: restore-only jobs leave in-progress checkpoints
 alone and accept several paths

---
 t5x/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 0db4f18..d92307c 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1225,7 +1225,9 @@ def create_checkpoint_manager_and_restore(
     return train_state_initializer.from_scratch(rng).state_dict()
 
   restore_path_list = [restore_path] if restore_path else []
-  model_dir = model_dir or restore_checkpoint_cfg.path
+  # Without an output directory nothing is saved: use the checkpoint itself, so
+  # that no in-progress checkpoint of a running job is cleaned up.
+  model_dir = model_dir or restore_path or restore_checkpoint_cfg.path
   if use_orbax:
     checkpoint_manager = create_orbax_checkpoint_manager(
         save_cfg=save_checkpoint_cfg,
-- 
2.43.0


From c6bc4c2bd18749a09c1aef75ae01436380b0fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 21/33] fix: draw fresh randomness for every micro-batch

---
 t5x/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 2a18ff1..9aebfcf 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -794,7 +794,7 @@ def accumulate_grads_microbatched(
         (_, (metrics, flax_mutables)), grad = grad_fn(
             train_state.params, mbatch, sub_dropout_rng, flax_mutables
         )
-      return metrics, grad, flax_mutables
+      return metrics, grad, flax_mutables, dropout_rng
 
     def per_microbatch_train_step(
         loop_cnt: int,
@@ -811,7 +811,7 @@ def accumulate_grads_microbatched(
         Optional[FlaxMutables],
     ]:
       (dropout_rng, grad_accum, prev_metrics, flax_mutables) = state
-      metrics, grad, flax_mutables = metrics_and_grad(
+      metrics, grad, flax_mutables, dropout_rng = metrics_and_grad(
           loop_cnt, dropout_rng, flax_mutables
       )
 
@@ -829,7 +829,7 @@ def accumulate_grads_microbatched(
     grad_accum_init = jax.tree_util.tree_map(
         lambda x: jnp.zeros(x.shape, accum_dtype), train_state.params
     )
-    initial_metrics_shape, _, _ = jax.eval_shape(
+    initial_metrics_shape, _, _, _ = jax.eval_shape(
         metrics_and_grad,
         loop_cnt=0,
         dropout_rng=dropout_rng,
-- 
2.43.0


From 73ed130de70fe9562354d91c5cae0c29af6c1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 22/33] fix: logical axes of optax.zero_nans have the structure
 of its state

---
 t5x/optimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index 8b1283a..e673c36 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -261,7 +261,8 @@ class OptaxStatePartitionRules:
       ),
       optax.ScaleByScheduleState: _scale_by_schedule_ctor,
       optax.ZeroNansState: lambda state, params_axes: optax.ZeroNansState(
-          found_nan=None
+          # A tree of scalars, one per parameter.
+          found_nan=jax.tree.map(lambda x: None, state.found_nan)
       ),
       # FactoredState
       # Recursive, Combinator Optax States:
-- 
2.43.0


From 27657f3980aaeb7b5b86257d9af4df2e2e877018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 23/33] fix: logical axes of optax.MultiSteps include the state
 of its skip function

---
 t5x/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index e673c36..523c3bc 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -286,6 +286,7 @@ class OptaxStatePartitionRules:
               state.inner_opt_state, params_axes
           ),
           acc_grads=params_axes,
+          skip_state=jax.tree.map(lambda x: None, state.skip_state),
       ),
       optax.ApplyIfFiniteState: (
           lambda state, params_axes: optax.ApplyIfFiniteState(
-- 
2.43.0


From ace2205ffe365f0d0ecbe212526163c9bf10d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 24/33] fix: a traced topp of zero does not change the
 distribution sampled from

---
 t5x/decoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index fe58af5..1a2ed59 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -550,7 +550,11 @@ def _temperature_sample_single_trial(
       # When topp is dynamic, we always use it since we cannot check
       # non-zeroness (but it will have no effect if topp is 0.0).
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jnp.where(
+            jnp.expand_dims(jnp.asarray(topp) > 0.0, axis=-1),
+            binary_search.topp_mask(scaled_logits, topp, NEG_INF),  # pytype: disable=wrong-arg-types  # jax-ndarray
+            scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
-- 
2.43.0


From aea9e5b10e81fd3f641b3ea98a5e10347c843ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 25/33] fix: batch items with their own temperatures draw their
 own randomness

---
 t5x/decoding.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 1a2ed59..457a298 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -538,7 +538,7 @@ def _temperature_sample_single_trial(
     if logit_callback_fn is not None:
       logits = logit_callback_fn(logits, state)
 
-    def sample_logits_with_nonzero_temperature(logits, temperature):
+    def sample_logits_with_nonzero_temperature(logits, temperature, rng):
       scaled_logits = logits / jnp.maximum(temperature, MIN_TEMPERATURE)
       if _is_tracer(topk) or topk:
         scaled_logits = jax.lax.cond(
@@ -557,7 +557,7 @@ def _temperature_sample_single_trial(
         )
 
       # [batch]
-      next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
+      next_token = random.categorical(rng, scaled_logits).astype(jnp.int32)
 
       # log probability of the current token conditioned on the previously
       # sampled and prefix tokens.
@@ -576,7 +576,7 @@ def _temperature_sample_single_trial(
 
       return (next_token, next_log_prob)
 
-    def sample_logits_with_zero_temperature(logits, temperature):  # pylint: disable=unused-argument
+    def sample_logits_with_zero_temperature(logits, temperature, rng):  # pylint: disable=unused-argument
       # For zero temperature, we always want the greedy output, regardless
       # of the values of topk and topp.
 
@@ -599,7 +599,7 @@ def _temperature_sample_single_trial(
     if len(temperature.shape) == 1:
       # Each batch item can have different temperatures.
       def map_logits_with_different_temperatures(
-          logits_batch_item, temperature_batch_item
+          logits_batch_item, temperature_batch_item, rng_batch_item
       ):
         return lax.cond(
             temperature_batch_item > MIN_TEMPERATURE,
@@ -607,11 +607,17 @@ def _temperature_sample_single_trial(
             sample_logits_with_zero_temperature,
             jnp.expand_dims(logits_batch_item, axis=0),
             temperature_batch_item,
+            rng_batch_item,
         )
 
+      # Every item draws its own randomness, as it does with one temperature.
       (next_token, next_log_prob) = jax.vmap(
           map_logits_with_different_temperatures
-      )(logits, jnp.repeat(temperature, num_decodes))
+      )(
+          logits,
+          jnp.repeat(temperature, num_decodes),
+          random.split(rng1, logits.shape[0]),
+      )
       next_token = jnp.squeeze(next_token, axis=-1)
       next_log_prob = jnp.squeeze(next_log_prob, axis=-1)
     else:
@@ -622,6 +628,7 @@ def _temperature_sample_single_trial(
           sample_logits_with_zero_temperature,
           logits,
           temperature,
+          rng1,
       )
 
     # When different batch elements are at different points in the loop counter,
-- 
2.43.0


From 8bd65f3420493ea889212c748d1165922d8b897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 26/33] fix: beam search does not force a prompt's last token
 twice

The inputs were read one position past their end, where the index is
clamped: a prompt as long as its inputs had its last token repeated as the
final output token, with log probability zero.
---
 t5x/decoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 457a298..5c9c149 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1247,6 +1247,11 @@ def beam_search(
   else:
     initial_index = jnp.zeros((batch_size,), dtype=jnp.int32)
 
+  # The last position follows the inputs, it is never forced.
+  inputs = jnp.pad(
+      inputs, ((0, 0), (0, max(0, max_decode_len - inputs.shape[1])))
+  )
+
   # initialize beam search state
   beam_search_init_state = beam_init(
       batch_size,
-- 
2.43.0


From 4c1f090d1151020e5f03ec2607fdf18d1d8e9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 27/33] fix: inference results are sorted by their indices

Indexing with the indices themselves sorts only permutations that are their
own inverse; with several data shards the results came out of order.
---
 t5x/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index d92307c..35311a7 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1766,8 +1766,9 @@ def get_infer_fn(
     # Note: remove padding first, as -1 indices would mess up this operation.
     # Note: all_inferences may be a PyTree, not just an array, e.g. if
     # `infer_step` is `model.predict_batch_with_aux`.
-    all_inferences = jax.tree.map(lambda x: x[all_indices], all_inferences)
-    all_indices = all_indices[all_indices]
+    order = np.argsort(all_indices)
+    all_inferences = jax.tree.map(lambda x: x[order], all_inferences)
+    all_indices = all_indices[order]
 
     # aux_values is supposed to be a dictionary that maps strings to a set of
     # auxiliary values.
-- 
2.43.0


From a766dac410ff08477fe62492dd5f25e3d3436246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 28/33] fix: mark inference complete before deleting its chunks

A job that was interrupted while deleting its temporary files merged what was
left of them when restarted and marked the truncated output complete (or could
never finish).
---
 t5x/infer.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..b6a1961 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -549,6 +549,19 @@ def infer(
   )
 
   def infer_task(task: seqio.Task):
+    output_fname = (
+        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
+    )
+    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
+      logging.info(
+          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
+          output_fname,
+          shard_id,
+          num_shards,
+          task.name,
+      )
+      return
+
     tmp_dir = os.path.join(
         output_dir, f'tmp-{task.name}-{shard_id:05}-of-{num_shards:05}'
     )
@@ -586,18 +599,6 @@ def infer(
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
-    output_fname = (
-        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
-    )
-    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
-      logging.info(
-          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
-          output_fname,
-          shard_id,
-          num_shards,
-          task.name,
-      )
-      return
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
         shard_id,
@@ -720,8 +721,6 @@ def infer(
     if jax.process_index() == 0 and merge_chunked_results:
       step = None if train_state is None else int(train_state.step)
       merge_fn(output_dir, output_fname, tmp_dir, step)
-      logging.info('Deleting temporary files.')
-      gfile.rmtree(tmp_dir)
 
     if jax.process_index() == 0:
       with gfile.GFile(
@@ -729,6 +728,12 @@ def infer(
       ) as f:
         f.write('')
 
+    # Only after the results are marked complete: a restart can not tell chunks
+    # that have been deleted from chunks that never existed.
+    if jax.process_index() == 0 and merge_chunked_results:
+      logging.info('Deleting temporary files.')
+      gfile.rmtree(tmp_dir)
+
     # Wait for host 0 to finish writing before exiting.
     utils.sync_global_devices(f'{task.name}:complete')
 
-- 
2.43.0


From a85d781e5cb9ce76860d70f57f0497a4f711efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 29/33] fix: the checkpoint of the inference input iterator is
 replaced atomically

The checkpoint consists of an index and data files, which were renamed onto the
previous ones in turn. A job that stopped between the renames left the index of
one checkpoint with the data of another and could not be restarted.
---
 t5x/infer.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index b6a1961..7ceea89 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -592,12 +592,11 @@ def infer(
 
     if checkpoint_ds_iter:
       # Create checkpoint manager and restore state, if applicable.
-      ckpt_path = os.path.join(tmp_dir, 'input.ckpt')
-
       input_ckpt = tf.train.Checkpoint(ds=infer_ds_iter)
-      if gfile.glob(ckpt_path + '*'):
-        logging.info('Restoring input iterator from %s', ckpt_path)
-        input_ckpt.read(ckpt_path).assert_consumed()
+      latest_ckpt_path = tf.train.latest_checkpoint(tmp_dir, 'input.ckpt')
+      if latest_ckpt_path:
+        logging.info('Restoring input iterator from %s', latest_ckpt_path)
+        input_ckpt.read(latest_ckpt_path).assert_consumed()
 
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
@@ -632,11 +631,17 @@ def infer(
       )
 
       if chunk_ckpt_path:
-        # Canonicalize checkpoint.
-        for fname in gfile.glob(chunk_ckpt_path + '*'):
-          gfile.rename(
-              fname, fname.replace(chunk_ckpt_path, ckpt_path), overwrite=True
-          )
+        # Canonicalize checkpoint. It consists of several files, so point to it
+        # with a single (atomic) write and only then remove the previous one.
+        previous_ckpt_path = tf.train.latest_checkpoint(tmp_dir, 'input.ckpt')
+        tf.compat.v1.train.update_checkpoint_state(
+            tmp_dir,
+            chunk_ckpt_path,
+            latest_filename='input.ckpt',
+        )
+        if previous_ckpt_path:
+          for fname in gfile.glob(previous_ckpt_path + '.*'):
+            gfile.remove(fname)
 
     # Main Loop over "chunks".
     for chunk, chunk_batch in infer_ds_iter:
@@ -687,10 +692,9 @@ def infer(
 
         chunk_ckpt_path = None
         if checkpoint_ds_iter:
-          # Store iterator checkpoint in temporary location before writing the
-          # model output asynchronously. After outputs are written, the
-          # checkpoint will be moved to the canonical location to be used if
-          # restart occurs.
+          # Store iterator checkpoint before writing the model output
+          # asynchronously. After outputs are written, the checkpoint will be
+          # made the one to be used if restart occurs.
           ckpt_tick = time.time()
           chunk_ckpt_path = input_ckpt.write(
               os.path.join(tmp_dir, f'{chunk}.ckpt')
-- 
2.43.0


From 883600949168a3f3366f71eed14d4a6b86f49806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 30/33] fix: reject arrays whose dimensions cannot be divided
 among the hosts' chunks

---
 t5x/partitioning.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/t5x/partitioning.py b/t5x/partitioning.py
index 2ea7b94..9269119 100644
--- a/t5x/partitioning.py
+++ b/t5x/partitioning.py
@@ -468,7 +468,13 @@ class LocalChunker:
       if not isinstance(mesh_axis, str):
         raise NotImplementedError('TODO(jekbradbury)')
       chunk_id = self.chunk_ids[mesh_axis]
-      chunk_size = size // self.num_chunks[mesh_axis]
+      chunk_size, remainder = divmod(size, self.num_chunks[mesh_axis])
+      if remainder:
+        raise ValueError(
+            f'Dimension {i} of an array of shape {tuple(global_shape)} can not '
+            f'be divided into {self.num_chunks[mesh_axis]} equal chunks along '
+            f'mesh axis {mesh_axis!r}.'
+        )
       local_slice[i] = slice(chunk_id * chunk_size, (chunk_id + 1) * chunk_size)
 
     replica_id = self.get_replica_id(sharded_mesh_axes)
-- 
2.43.0


From a06351bd4ef6fdadf2732aa637d00d825289e579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 31/33] fix: MoE axis rules for 2D parameter sharding only warn

---
 t5x/contrib/moe/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index c4cd61d..2dece00 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -394,7 +394,7 @@ def standard_logical_axis_rules(
   _ = base_partitioning.global_mesh_defined()
 
   if parameter_partitioning_dims == 2:
-    raise logging.warning(
+    logging.warning(
         '2D parameter sharding (`parameter_partitioning_dims=2`) is supported '
         'but untested for MoE.'
     )
-- 
2.43.0


From 471f3ca49c11af35958fd9f06eb2ae36e4ca4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 32/33] fix: upcycling gave factored optimizer states no expert
 dimension

---
 t5x/contrib/moe/checkpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/t5x/contrib/moe/checkpoints.py b/t5x/contrib/moe/checkpoints.py
index 4233b85..a23e7c3 100644
--- a/t5x/contrib/moe/checkpoints.py
+++ b/t5x/contrib/moe/checkpoints.py
@@ -212,6 +212,15 @@ async def _read_upcycle_ts(
   # If saved as a numpy array, but a partitioned read is requested, return a
   # slice of the array for that host. Otherwise, return the whole thing.
   if isinstance(maybe_ts_spec, np.ndarray) and param_info:
+    if (
+        (not m_or_v)
+        and is_expert_param
+        and param_info.shape is not None
+        and maybe_ts_spec.shape == tuple(param_info.shape[1:])
+    ):
+      # Arrays without partitioning axes, such as the factored terms of
+      # Adafactor, are not saved in Tensorstore; broadcast them to the experts.
+      maybe_ts_spec = np.repeat(maybe_ts_spec[None], num_experts, axis=0)
     if mesh is not None and axes is not None:
       # Using GDA, return global array without selecting local chunk.
       return maybe_ts_spec
-- 
2.43.0


From 1463486f1f68c8316faace5f18183313db0277ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 33/33] fix: derive axes of gradients accumulated under an
 optax mask

MultiSteps inside optax.masked (or multi_transform) keeps MaskedNodes in
acc_grads, so the axes of all parameters did not fit and
derive_logical_axes failed.
---
 t5x/optimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index 523c3bc..8bc9218 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -285,7 +285,9 @@ class OptaxStatePartitionRules:
           inner_opt_state=OptaxStatePartitionRules.derive_optax_logical_axes(  # pylint: disable=line-too-long
               state.inner_opt_state, params_axes
           ),
-          acc_grads=params_axes,
+          acc_grads=OptaxStatePartitionRules.derive_params_axes(
+              state.acc_grads, params_axes
+          ),
           skip_state=jax.tree.map(lambda x: None, state.skip_state),
       ),
       optax.ApplyIfFiniteState: (
-- 
2.43.0

