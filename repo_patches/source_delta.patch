From 5e1ccd77855578eb7e261e6a88ebe6f080b6e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 01/46] fix: loading a component saved by another version
 crashed in the version warning

---
 egenerator/manager/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 367b8c8..bfed9e5 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -918,7 +918,9 @@ class BaseComponent(object):
             msg = 'Event-Generator versions do not match. '
             msg += 'Saved component was created with version {!r}, but this is'
             msg += ' version {!r}.'
-            self.logger.warning(msg.format())
+            self._logger.warning(msg.format(
+                config_dict['event_generator_version'],
+                egenerator.__version__))
 
         # check if this is the correct class
         if self.configuration.class_string != \
-- 
2.43.0


From 0393568935e493fa0520e50b03fd779f713756d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 02/46] fix: Configuration dropped the recorded version and
 short sha it was given

---
 egenerator/manager/component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index bfed9e5..b7975cd 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -184,7 +184,8 @@ class Configuration(object):
 
         self._logger = logger or logging.getLogger(__name__)
         self._dict = {
-            'event_generator_version': egenerator.__version__,
+            'event_generator_version': event_generator_version,
+            'event_generator_git_short_sha': event_generator_git_short_sha,
             'event_generator_git_sha': event_generator_git_sha,
             'event_generator_origin': event_generator_origin,
             'event_generator_uncommitted_changes':
-- 
2.43.0


From b527557586ac135fb2405da4178d12c68f5d8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 03/46] fix: update_mutable_settings shared the caller's
 objects with the configuration

---
 egenerator/manager/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index b7975cd..959208f 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -220,7 +220,7 @@ class Configuration(object):
             if key not in self._dict['mutable_settings']:
                 raise KeyError('Mutable setting: {!r} does not exist'.format(
                     key))
-            self._dict['mutable_settings'][key] = value
+            self._dict['mutable_settings'][key] = deepcopy(value)
 
         # update config
         self._config = self._combine_settings()
-- 
2.43.0


From 8c61409917d858e97c3556f70e2d086ab7a421de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 04/46] fix: frame filter looked up the table name instead of
 the column

---
 egenerator/data/modules/filters/general_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 80929d1..3ff7c72 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -184,10 +184,10 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if key in value_table:
-                    values = np.atleast_1d(value_table[key])
+                if column in value_table:
+                    values = np.atleast_1d(value_table[column])
                 else:
-                    values = np.atleast_1d(getattr(value_table, key))
+                    values = np.atleast_1d(getattr(value_table, column))
 
             if op == '>':
                 constraint_mask = values > threshold
-- 
2.43.0


From 080b714f9fe4aab0fa531ba9c00ef0a2e2573f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 05/46] fix: DummyMuonFixedCascadesLabelModule used undefined
 names

---
 egenerator/data/modules/labels/muons.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index 37281e8..1348679 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -27,7 +27,7 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         """
 
         logger = logger or logging.getLogger(__name__)
-        super(CascadeGeneratorLabelModule, self).__init__(logger=logger)
+        super(DummyMuonFixedCascadesLabelModule, self).__init__(logger=logger)
 
     def _configure(self, config_data, trafo_log, float_precision, num_cascades,
                    label_key='LabelsDeepLearning'):
@@ -95,10 +95,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         """
 
         # sanity checks:
-        if not isinstance(shift_cascade_vertex, bool):
-            raise TypeError('{!r} is not a boolean value!'.format(
-                shift_cascade_vertex))
-
         data = {}
         data['label_tensors'] = DataTensorList([DataTensor(
                                         name='x_parameters',
@@ -116,7 +112,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         configuration = Configuration(
             class_string=misc.get_full_class_string_of_object(self),
             settings=dict(config_data=config_data,
-                          shift_cascade_vertex=shift_cascade_vertex,
                           trafo_log=trafo_log,
                           float_precision=float_precision,
                           num_cascades=num_cascades,
-- 
2.43.0


From 6eecd6c8ebc089c1c267cd5892b75085f9226053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 06/46] fix: seed loader closed the hdf file after the first of
 several seeds

---
 egenerator/data/modules/misc/seed_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 7bbfb13..6e2ee82 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -146,9 +146,6 @@ class SeedLoaderMiscModule(BaseComponent):
         if not self.is_configured:
             raise ValueError('Module not configured yet!')
 
-        # open file
-        f = pd.HDFStore(file, 'r')
-
         seeds = []
         num_events_list = []
         missing_value = self.configuration.config['missing_value']
@@ -156,6 +153,9 @@ class SeedLoaderMiscModule(BaseComponent):
         for tensor in self.data['misc_tensors'].list:
             seed_name = tensor.name
 
+            # open file
+            f = pd.HDFStore(file, 'r')
+
             seed_parameters = []
             try:
                 _labels = f[seed_name]
-- 
2.43.0


From 298b60a7ee49c20b007233297b302f21cf0d0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 07/46] fix: seed loader did not accept the arguments every
 other module accepts

---
 egenerator/data/modules/misc/seed_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 6e2ee82..8f6b30b 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -126,7 +126,7 @@ class SeedLoaderMiscModule(BaseComponent):
             )
         return configuration, data, {}
 
-    def get_data_from_hdf(self, file):
+    def get_data_from_hdf(self, file, *args, **kwargs):
         """Get misc data from hdf file.
 
         Parameters
-- 
2.43.0


From c6d1c8f2c8c595101812002830c2d11b23165085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 08/46] fix: hdf seeds with a missing first parameter were
 dropped instead of filled

---
 egenerator/data/modules/misc/seed_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 8f6b30b..5c09b3f 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -163,11 +163,11 @@ class SeedLoaderMiscModule(BaseComponent):
                     if l in _labels:
                         seed_parameters.append(_labels[l].values)
                     elif l in missing_value_dict:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append(
                             [missing_value_dict[l]]*num_events)
                     elif missing_value is not None:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append([missing_value]*num_events)
                     else:
                         raise KeyError('Could not find key {!r}'.format(l))
-- 
2.43.0


From 4561ba5794a0e7c5e802d08b0307098cb838f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 09/46] fix: a missing time exclusion table crashed the hdf
 loader and broke the frame loader's tensor types

---
 egenerator/data/modules/data/pulse_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 603fab4..b9fff3e 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -273,7 +273,10 @@ class PulseDataModule(BaseComponent):
             x_dom_exclusions = None
 
         if self.data['time_exclusions_exist']:
-            num_tws = len(time_exclusions['Event'])
+            if time_exclusions is None:
+                num_tws = 0
+            else:
+                num_tws = len(time_exclusions['Event'])
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
@@ -590,6 +593,7 @@ class PulseDataModule(BaseComponent):
                     # gather pulse ids (batch index, string, dom)
                     x_time_exclusions_ids.append([index, string-1, dom-1])
 
+        if self.data['time_exclusions_exist']:
             if x_time_exclusions:
                 x_time_exclusions = np.array(
                     x_time_exclusions, dtype=self.data['np_float_precision'])
-- 
2.43.0


From 811dff6ac4f361dab74ed0fda431fc0085697774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 10/46] fix: hdf pulses and time windows of unknown sensors
 left undefined rows behind

---
 egenerator/data/modules/data/pulse_data.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index b9fff3e..cac6ae2 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -280,6 +280,7 @@ class PulseDataModule(BaseComponent):
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
+            tw_mask = np.ones(num_tws, dtype=bool)
         else:
             x_time_exclusions = None
             x_time_exclusions_ids = None
@@ -295,6 +296,7 @@ class PulseDataModule(BaseComponent):
         x_pulses = np.empty((num_pulses, pulse_dim),
                             dtype=self.data['np_float_precision'])
         x_pulses_ids = np.empty((num_pulses, 3), dtype=np.int32)
+        pulse_mask = np.ones(num_pulses, dtype=bool)
 
         # create array for time data
         x_time_window = np.empty(
@@ -311,6 +313,7 @@ class PulseDataModule(BaseComponent):
             if dom > 60:
                 self._logger.warning(
                     'skipping pulse: {} {}'.format(string, dom))
+                pulse_mask[pulse_index] = False
                 continue
             index = event_dict[(row[1:5])]
 
@@ -338,6 +341,10 @@ class PulseDataModule(BaseComponent):
             if row[10] < x_time_window[index, 0]:
                 x_time_window[index, 0] = row[10]
 
+        # remove rows of skipped pulses
+        x_pulses = x_pulses[pulse_mask]
+        x_pulses_ids = x_pulses_ids[pulse_mask]
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
@@ -364,6 +371,7 @@ class PulseDataModule(BaseComponent):
                 if dom > 60:
                     self._logger.warning(
                         'skipping tw: {} {}'.format(string, dom))
+                    tw_mask[tw_index] = False
                     continue
                 index = event_dict[(row[1:5])]
 
@@ -375,6 +383,10 @@ class PulseDataModule(BaseComponent):
                 # gather pulse ids (batch index, string, dom)
                 x_time_exclusions_ids[tw_index] = [index, string-1, dom-1]
 
+            # remove rows of skipped time windows
+            x_time_exclusions = x_time_exclusions[tw_mask]
+            x_time_exclusions_ids = x_time_exclusions_ids[tw_mask]
+
         # ------------------
         # get dom exclusions
         # ------------------
-- 
2.43.0


From 63d89e373fd1ec369fd07d048348f23ec099b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 11/46] fix: frames without pulses produced pulse tensors of
 the wrong shape

---
 egenerator/data/modules/data/pulse_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index cac6ae2..3a6f74f 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -563,8 +563,11 @@ class PulseDataModule(BaseComponent):
                 if pulse.time < x_time_window[index, 0]:
                     x_time_window[index, 0] = pulse.time
 
-        x_pulses = np.array(x_pulses, dtype=self.data['np_float_precision'])
-        x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32)
+        pulse_dim = 3 if add_charge_quantiles else 2
+        x_pulses = np.array(
+            x_pulses, dtype=self.data['np_float_precision']).reshape(
+                -1, pulse_dim)
+        x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32).reshape(-1, 3)
 
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
-- 
2.43.0


From 81b106049fc81db64498523cb35e8715190f7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 12/46] fix: filtering crashed on tensors without data

---
 egenerator/data/handler/modular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index e28ddba..9dcd847 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -505,7 +505,7 @@ class ModuleDataHandler(BaseDataHandler):
 
                         filtered_batch[value_index] = values
                         filtered_batch[tensor_index] = indices
-            else:
+            elif event_batch[tensor_index] is not None:
                 # This data input is already in event structure and
                 # must simply be concatenated along axis 0.
                 filtered_batch[tensor_index] = \
-- 
2.43.0


From 947835616cad1dc57d414b2779980a97b92d9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 13/46] fix: batches whose events have no vector entries lost
 their array structure

---
 egenerator/data/handler/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 8ce7e16..b7b20b4 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -553,12 +553,12 @@ class BaseDataHandler(BaseComponent):
             # make sure that the batch indices are correct
             assert np.all(indices[i][:, 0] == i)
 
-            values_list.extend(values[i])
-            indices_list.extend(indices[i])
+            values_list.append(values[i])
+            indices_list.append(indices[i])
 
         if len(values_list) > 0:
-            values_list = np.stack(values_list, axis=0)
-            indices_list = np.stack(indices_list, axis=0)
+            values_list = np.concatenate(values_list, axis=0)
+            indices_list = np.concatenate(indices_list, axis=0)
 
         return values_list, indices_list
 
-- 
2.43.0


From f977e48c7f8335fabf5391f33eaeb5c992fa6a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 14/46] fix: idle file loaders marked files as processed which
 were still being loaded

---
 egenerator/data/handler/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index b7b20b4..b1d0e93 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -741,7 +741,8 @@ class BaseDataHandler(BaseComponent):
                         if not file_list_queue.empty():
                             file = file_list_queue.get()
                         else:
-                            file = None
+                            # all files are taken by other workers already
+                            break
 
                 if file and os.path.exists(file):
 
-- 
2.43.0


From 9bd4170340c802583b7b9675d432a7fa65f4be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 15/46] fix: verbose batch generator passed a bad logging
 format

---
 egenerator/data/handler/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index b1d0e93..2aa7cd5 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -904,7 +904,7 @@ class BaseDataHandler(BaseComponent):
 
                 queue_size = current_queue_size
                 if verbose:
-                    self._logger.debug('queue_size:', queue_size)
+                    self._logger.debug('queue_size: {}'.format(queue_size))
 
                 # num_repetitions:
                 #   potentially dangerous for batch_size approx file_size
-- 
2.43.0


From db9ea32044a864ef59e0e5363cf773a7c45b8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 16/46] fix: removing nan gradients used a missing tf function
 and misaligned gradients and variables

---
 egenerator/manager/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 9807c80..177a9c1 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -580,8 +580,11 @@ class BaseModelManager(Model):
         else:
             remove_nan_gradients = False
         if remove_nan_gradients:
-            gradients = [tf.where(tf.is_nan(grad), tf.zeros_like(grad), grad)
-                         for grad in gradients if grad is not None]
+            grads_and_vars = [
+                (tf.where(tf.math.is_nan(grad), tf.zeros_like(grad), grad), v)
+                for grad, v in zip(gradients, variables) if grad is not None]
+            gradients = [grad for grad, _ in grads_and_vars]
+            variables = [v for _, v in grads_and_vars]
 
         if 'clip_gradients_value' in opt_config:
             clip_gradients_value = opt_config['clip_gradients_value']
-- 
2.43.0


From 012a0070af5e3add9c7ba3c1a5438c54dcbd2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 17/46] fix: evaluation during training used training batches
 instead of validation batches

---
 egenerator/manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 177a9c1..3532032 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -831,7 +831,7 @@ class BaseModelManager(Model):
                 if evaluation_module is not None:
 
                     # get new batch of validation data
-                    val_data_batch = next(train_dataset)
+                    val_data_batch = next(validation_dataset)
 
                     evaluation_module.evaluate(
                         data_batch=val_data_batch,
-- 
2.43.0


From f26c191da1ebb87cac1db219abdb7f371036693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 18/46] fix: the configured regularization strength was ignored

---
 egenerator/manager/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 3532032..19a059d 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -448,10 +448,12 @@ class BaseModelManager(Model):
 
         # apply regularization
         if opt_config['l1_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(tf.abs(v)) for v in variables])
+            reg_loss += opt_config['l1_regularization'] * tf.add_n(
+                [tf.reduce_sum(tf.abs(v)) for v in variables])
 
         if opt_config['l2_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(v**2) for v in variables])
+            reg_loss += opt_config['l2_regularization'] * tf.add_n(
+                [tf.reduce_sum(v**2) for v in variables])
 
         return reg_loss
 
-- 
2.43.0


From 67525c31fe7d0d2b699f47662dcb5399aea53b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 19/46] fix: a crash while pruning checkpoints left meta data
 naming deleted files

---
 egenerator/model/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index e2f5aa1..119f5de 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -355,6 +355,7 @@ class Model(tf.Module, BaseComponent):
         self._untracked_data['checkpoint'].write(checkpoint_file)
 
         # remove old checkpoints
+        files_to_remove = []
         if not protected:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
@@ -367,16 +368,19 @@ class Model(tf.Module, BaseComponent):
                     # remove files
                     pattern = os.path.join(dir_path,
                                            info['file_basename'] + '.*')
-                    files_to_remove = glob.glob(pattern)
-                    msg = 'Removing old checkpoint files: {!r}'
-                    self._logger.info(msg.format(files_to_remove))
-                    for file in files_to_remove:
-                        os.remove(file)
+                    files_to_remove.extend(glob.glob(pattern))
 
         # save new meta data
         with open(yaml_file, 'w') as stream:
             yaml.dump(meta_data, stream)
 
+        # only remove files once the meta data does not name them anymore
+        if files_to_remove:
+            msg = 'Removing old checkpoint files: {!r}'
+            self._logger.info(msg.format(files_to_remove))
+            for file in files_to_remove:
+                os.remove(file)
+
     def update_num_training_steps(self, dir_path, num_training_steps):
         """Update the number of training iterations for current training step.
 
-- 
2.43.0


From 0f4881686c33c02938b635d4f0ea874ad95d76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 20/46] fix: every source of a multi-source was evaluated with
 the last base model

---
 egenerator/model/multi_source/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index d8f95af..17a4682 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -316,10 +316,7 @@ class MultiSource(Source):
         # -----------------------------------------------
         input_signature = None
 
-        concrete_get_tensors_funcs = {}
-        for base in set(self._untracked_data['sources'].values()):
-            base_source = self.sub_components[base]
-
+        def get_concrete_function(base, base_source):
             @tf.function(input_signature=input_signature)
             def concrete_function(data_batch_dict_i):
                 print('Tracing multi-source base: {}'.format(base))
@@ -327,7 +324,12 @@ class MultiSource(Source):
                                 data_batch_dict_i,
                                 is_training=is_training,
                                 parameter_tensor_name='x_parameters')
-            concrete_get_tensors_funcs[base] = concrete_function
+            return concrete_function
+
+        concrete_get_tensors_funcs = {}
+        for base in set(self._untracked_data['sources'].values()):
+            concrete_get_tensors_funcs[base] = get_concrete_function(
+                base, self.sub_components[base])
         # -----------------------------------------------
 
         dom_charges = None
-- 
2.43.0


From 7a5d5fb8df303503e259e0ba4524f864a31521c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 21/46] fix: configuring a multi-source added the data trafo to
 the caller's base sources

---
 egenerator/model/multi_source/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index 17a4682..7628498 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -212,7 +212,7 @@ class MultiSource(Source):
         parameter_names, sources = self.get_parameters_and_mapping(
             config, base_sources)
 
-        sub_components = base_sources
+        sub_components = dict(base_sources)
         if data_trafo is not None:
             sub_components['data_trafo'] = data_trafo
 
-- 
2.43.0


From 20ed89241804cfc50fd6dc2586196bc369e2e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 22/46] fix: the likelihood scan module crashed the
 reconstruction tray

---
 egenerator/manager/reconstruction/modules/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index cac5614..f1023d1 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -114,7 +114,7 @@ class Visualize1DLikelihoodScan:
             parameter_tensor_name=self.parameter_tensor_name)
 
         self.event_counter += 1
-        return None
+        return {}
 
     def make_1d_llh_scans(self, data_batch, result_trafo, truth_trafo,
                           loss_function,
-- 
2.43.0


From 861313c1be9cb7adba1106a4e513886db5757c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 23/46] fix: likelihood scan used basis_functions without
 importing it

---
 egenerator/manager/reconstruction/modules/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index f1023d1..43a67ea 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -1,6 +1,8 @@
 import numpy as np
 import tensorflow as tf
 
+from egenerator.utils import basis_functions
+
 
 class Visualize1DLikelihoodScan:
 
-- 
2.43.0


From 78babd9c7f955f6de9e2b4b919820a829ac49622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 24/46] fix: covariances were undefined for fits in physical
 coordinates

---
 egenerator/manager/reconstruction/modules/covariance.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/covariance.py b/egenerator/manager/reconstruction/modules/covariance.py
index 6591592..8239c83 100644
--- a/egenerator/manager/reconstruction/modules/covariance.py
+++ b/egenerator/manager/reconstruction/modules/covariance.py
@@ -157,6 +157,14 @@ class CovarianceMatrix:
                     cov_trafo=result_obj.hess_inv,
                     tensor_name=self.parameter_tensor_name,
                 )
+        else:
+            # the fit was performed in physical coordinates
+            cov = cov_trafo
+            cov_sand = cov_sand_trafo
+
+            if hasattr(result_obj, 'hess_inv'):
+                cov_sand_fit = cov_sand_fit_trafo
+                cov_fit = result_obj.hess_inv
 
         results = {
             'cov': cov,
-- 
2.43.0


From c0bea537e169c69c3dfb0d9b4da38612c7da8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 25/46] fix: MCMC chains in transformed space were started at
 untransformed coordinates

---
 egenerator/manager/reconstruction/modules/mcmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/mcmc.py b/egenerator/manager/reconstruction/modules/mcmc.py
index 56161bd..f1c864e 100644
--- a/egenerator/manager/reconstruction/modules/mcmc.py
+++ b/egenerator/manager/reconstruction/modules/mcmc.py
@@ -141,6 +141,11 @@ class MarkovChainMonteCarlo:
         num_params = len(self.fit_paramater_list)
         result_inv = results[self.reco_key]['result']
 
+        if self.minimize_in_trafo_space:
+            # chains are run in transformed coordinates
+            result_inv = self.manager.data_trafo.transform(
+                data=result_inv, tensor_name=self.parameter_tensor_name)
+
         assert len(result_inv) == 1
         result_inv = result_inv[0]
 
-- 
2.43.0


From 4ffb75abbb7044f7288cb1b831b6c1703b783d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 26/46] fix: random seed selection could not be used with
 several seeds

---
 egenerator/manager/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 33c7fe0..340438c 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1420,14 +1420,15 @@ class SourceManager(BaseModelManager):
                     )
                 # chose best reconstruction
                 reco_tray.add_module(
-                    'SelectBestReconstruction', name='sel_reco_random',
+                    'SelectBestReconstruction',
+                    name='sel_reco_random_' + seed_tensor_name,
                     reco_names=reco_random_names,
                 )
                 reco_tray.add_module(
                     'Reconstruction',
                     name=reco_name_random,
                     fit_paramater_list=fit_paramater_list,
-                    seed_tensor_name='sel_reco_random',
+                    seed_tensor_name='sel_reco_random_' + seed_tensor_name,
                     seed_from_previous_module=True,
                     minimize_in_trafo_space=minimize_in_trafo_space,
                     parameter_tensor_name=parameter_tensor_name,
-- 
2.43.0


From c54e219de5b852278463650feed7d580a50389d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 27/46] fix: seed lookup used the first character of a seed
 name

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 340438c..6b46951 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1571,7 +1571,7 @@ class SourceManager(BaseModelManager):
             # get seed from reconstruction result
             if results['reco']['seed_from_previous_module']:
                 seed_index = self.data_handler.tensors.get_index(
-                    reco_config['seed'][0]) #------------------------------- HACK WRONG!
+                    seed_tensor_names[0])
                 # raise NotImplementedError
             else:
                 seed_index = self.data_handler.tensors.get_index(
-- 
2.43.0


From 2efb62ca6e374b9b8475caa2b71771ce485ace8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 28/46] fix: MCMC summary used undefined names

---
 egenerator/manager/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 6b46951..1666e23 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1670,7 +1670,7 @@ class SourceManager(BaseModelManager):
 
                 if num_accepted > 0:
                     index_max = np.argmax(log_prob_values)
-                    print('\tBest Sample: ' + msg.format(*samples[index_max]))
+                    print('\tBest Sample: {}'.format(samples[index_max]))
                     print('\tmin loss_values: {:3.2f}'.format(
                                                         -max(log_prob_values)))
 
@@ -1705,7 +1705,7 @@ class SourceManager(BaseModelManager):
                         max_val_50 = max(central_50p[:, i])
 
                         msg = '\t{:8.2f}: {:8.2f} {:8.2f} {:8.2f} {:8.2f} [{}]'
-                        print(msg.format(cascade_true[i], min_val_90,
+                        print(msg.format(cascade_true_batch[0][i], min_val_90,
                                          min_val_50, max_val_50, max_val_90,
                                          name))
             # -------------
-- 
2.43.0


From b3bd364c42586c78dcf2825b4eee90b1059ca701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 29/46] fix: SelectBestReconstruction always selected the last
 reconstruction

---
 egenerator/manager/reconstruction/modules/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index f740713..849db30 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -341,7 +341,6 @@ class SelectBestReconstruction:
             if reco_results['loss_reco'] < min_loss:
                 min_loss = reco_results['loss_reco']
                 min_results = reco_results
-        min_results = dict(reco_results)
 
         if min_results is None:
 
@@ -352,6 +351,7 @@ class SelectBestReconstruction:
             min_results = reco_results
 
         # rename runtime key of result
+        min_results = dict(min_results)
         min_results['reco_runtime'] = min_results.pop('runtime')
 
         return min_results
-- 
2.43.0


From fe883b5525717258720ccbd32fbdaf1a321e540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 30/46] fix: goodness of fit compared simulated pulses with the
 measured charges

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index b509119..7ca1089 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -114,6 +114,8 @@ class GoodnessOfFit:
             'x_pulses_ids')
         self.x_dom_charge_index = self.manager.data_handler.tensors.get_index(
             'x_dom_charge')
+        self.x_dom_charge_dtype = getattr(
+            np, self.manager.data_handler.tensors['x_dom_charge'].dtype)
 
         # get indices of parameters
         self.param_time_index = self.manager.models[0].get_index('time')
@@ -321,6 +323,9 @@ class GoodnessOfFit:
             data_batch_new = [t for t in data_batch]
             data_batch_new[self.x_pulses_index] = x_pulses
             data_batch_new[self.x_pulses_ids_index] = x_pulses_ids
+            data_batch_new[self.x_dom_charge_index] = np.expand_dims(
+                dom_charges[event_id], axis=0).astype(
+                    self.x_dom_charge_dtype)
             data_batch_new = tuple(data_batch_new)
             tf_seed_tensor = tf.convert_to_tensor(
                 np.expand_dims(sampled_hypotheses[event_id], axis=0),
-- 
2.43.0


From 46015d35b4014d2aa42ededbc4db3209d9842445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 31/46] fix: goodness of fit evaluated the data with parameters
 of the last sample

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index 7ca1089..e9b09d6 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -396,7 +396,7 @@ class GoodnessOfFit:
         data_loss = self.loss_function(
             parameters_trafo=result_trafo,
             data_batch=data_batch,
-            seed=tf_seed_tensor)
+            seed=results[self.reco_key]['result'])
 
         if self.add_per_dom_calculation:
             data_dom_llh = data_loss[2].numpy()[0]
-- 
2.43.0


From 8e097780663090bd4112c70d884abadb5bba21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 32/46] fix: sorted extended likelihood dropped the loss when
 adding normalization

---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 8d65c40..ab103ad 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -341,7 +341,7 @@ class DefaultLossModule(BaseComponent):
             norm_pulses = self.log_faculty(pulse_charges)
             norm_doms = self.log_faculty(dom_charges_true)
             if sort_loss_terms:
-                loss_terms[2] = norm_doms
+                loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
                     loss_terms[2],
                     indices=data_batch_dict['x_pulses_ids'],
-- 
2.43.0


From 8d5d51f3c7460e059a5b9f4c0b501c0b598114f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 33/46] fix: normalization term of pulse and dom charge pdf had
 a wrong shape

---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index ab103ad..8acd7c1 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -578,7 +578,7 @@ class DefaultLossModule(BaseComponent):
         # curves more meaningful
         if self.configuration.config['config']['add_normalization_term']:
             norm_pulses = self.log_faculty(pulse_charges)
-            norm_doms = self.log_faculty(hits_true)
+            norm_doms = self.log_faculty(tf.squeeze(hits_true, axis=-1))
             if sort_loss_terms:
                 loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
-- 
2.43.0


From d641d87ece9490a4359c338b7a24b6c46afa1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 34/46] fix: snowstorm prior read one fourier mode too many and
 failed when sorted

---
 egenerator/loss/snowstorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 437799c..95fa7bc 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -253,7 +253,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if num_sigmas > 0:
             start_index = model.get_index('IceWavePlusModes_00')
             end_index = model.get_index('IceWavePlusModes_{:02d}'.format(
-                                                            num_sigmas)) + 1
+                                                        num_sigmas - 1)) + 1
             assert end_index - start_index == num_sigmas
             for i, exp_index in enumerate(range(start_index, end_index)):
                 index = model.get_index('IceWavePlusModes_{:02d}'.format(i))
@@ -276,7 +276,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if sort_loss_terms:
             event_loss = None
             for loss_term in loss_terms:
-                if (loss_term.shape) > 1:
+                if len(loss_term.shape) > 1:
                     loss_term = tf.reduce_sum(loss_term, axis=1)
                 if event_loss is None:
                     event_loss = loss_term
-- 
2.43.0


From ebf35da7e977725014c224744ae3f9ddd4fa34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 35/46] fix: inner learning rate intervals all used the last
 scheduler

---
 egenerator/utils/learning_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/utils/learning_rate.py b/egenerator/utils/learning_rate.py
index be4febd..3e65cf2 100644
--- a/egenerator/utils/learning_rate.py
+++ b/egenerator/utils/learning_rate.py
@@ -82,7 +82,7 @@ class MultiLearningRateScheduler(tf.optimizers.schedules.LearningRateSchedule):
 
             pred_fn_pairs.append((
                 step > low and step <= high,
-                lambda: scheduler(step - low),
+                lambda scheduler=scheduler, low=low: scheduler(step - low),
             ))
 
         return tf.case(pred_fn_pairs, exclusive=True)
-- 
2.43.0


From 7e399cc4f0521655f073fa4d991126aafb62e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 36/46] fix: spherical_opt truncated standard deviations and
 used undefined index

---
 egenerator/utils/spherical_opt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 171d146..87ee79a 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -299,8 +299,8 @@ def spherical_opt(
     n_spher = len(spherical_indices)
     n_cart = n_dim - 2 * n_spher
 
-    sstd = np.full(n_spher, fill_value=-1)
-    cstd = np.full(n_cart, fill_value=-1)
+    sstd = np.full(n_spher, fill_value=-1.)
+    cstd = np.full(n_cart, fill_value=-1.)
 
     if meta:
         meta_dict = {}
@@ -424,7 +424,7 @@ def spherical_opt(
                                 meta_dict['sstdthresh_met_at_iter'][thresh_idx] = iter_num
                         thresh_idx += 1
                     else:
-                        sstd[i] = -1
+                        sstd[sph_pair_idx] = -1
 
             if converged:
                 stopping_flag = 3
-- 
2.43.0


From 27551cc390c9fdcb4dfd5eaa6cd6d20925413a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 37/46] fix: spherical_opt returned a stale best point

---
 egenerator/utils/spherical_opt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 87ee79a..20b5283 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -620,6 +620,8 @@ def spherical_opt(
                     fvals[idx] = func(x[idx])
                     n_calls += 1
 
+    # the values may have been updated since the last sorting
+    best_idx = np.argmin(fvals)
 
     opt_meta = {}
     opt_meta['stopping_flag'] = stopping_flag
-- 
2.43.0


From 3600e25499ddbca36ad678e86e4fbc8a33c939c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 38/46] fix: simulation module used undefined frame and
 parameter data type

---
 egenerator/ic3/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 0ebde6b..6503945 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -167,6 +167,8 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         #     return result_tensors
         # ---- TO DELETE [END] -----------------
+        self.param_dtype = getattr(
+            tf, self.manager.data_trafo.data['tensors']['x_parameters'].dtype)
         self.get_model_tensors = self.manager.get_model_tensors_function()
 
         # ---------------------------------------------------
@@ -232,7 +234,7 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
             raise NotImplementedError('Tracks not yet supported')
 
         # convert cascade to source hypotheses
-        cascade_sources = self.convert_cascades_to_tensor(cascades)
+        cascade_sources = self.convert_cascades_to_tensor(cascades, frame)
 
         # timer after source collection
         t_1 = timeit.default_timer()
@@ -373,13 +375,15 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         return pulse_series_map
 
-    def convert_cascades_to_tensor(self, cascades):
+    def convert_cascades_to_tensor(self, cascades, frame):
         """Convert a list of cascades to a source parameter tensor.
 
         Parameters
         ----------
         cascades : list of I3Particles
             The list of cascade I3Particles.
+        frame : I3Frame
+            The current frame.
 
         Returns
         -------
-- 
2.43.0


From b40623492b0d622ab15880f9960f24e522d60268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 39/46] fix: loading emptied the dictionary of modified sub
 components of the caller

---
 egenerator/manager/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 959208f..3d0bfc6 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -899,6 +899,9 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
+        # do not modify the dictionary of the caller
+        modified_sub_components = dict(modified_sub_components)
+
         # split of possible extension
         dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
-- 
2.43.0


From 39b6301c19d70047aaf6dc8d0ffc2883e78d9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 40/46] fix: track segment energies undefined without
 logarithmic transformation

---
 egenerator/model/source/track/stochastic_segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/model/source/track/stochastic_segment.py b/egenerator/model/source/track/stochastic_segment.py
index a025413..5d55739 100644
--- a/egenerator/model/source/track/stochastic_segment.py
+++ b/egenerator/model/source/track/stochastic_segment.py
@@ -416,6 +416,10 @@ class StochasticTrackSegmentModel(Source):
             energy_before_trafo = tf.math.log(1 + energy_before)
             energy_after_trafo = tf.math.log(1 + energy_after)
             energy_cherenkov_trafo = tf.math.log(1 + energy_cherenkov)
+        else:
+            energy_before_trafo = energy_before
+            energy_after_trafo = energy_after
+            energy_cherenkov_trafo = energy_cherenkov
 
         # apply bias correction
         energy_before_trafo -= params_mean[5]
-- 
2.43.0


From 8eaeb7aeda3db9d8eacc89d96884e251615350bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 41/46] fix: angular distance of nearly identical directions
 was undefined

---
 egenerator/utils/spherical_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 20b5283..1f6dc4c 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -161,7 +161,9 @@ def angular_dist(p1, p2): # theta1, theta2, phi1, phi2):
     """
     calculate the angular distance between two directions in spherical coords
     """
-    return np.arccos(p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az']))
+    cos_dist = p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az'])
+    # rounding may push the cosine beyond the range for which arccos is defined
+    return np.arccos(np.clip(cos_dist, -1., 1.))
 
 
 def find_replacements(old_list, new_list, sorted_old_inds=None, sorted_new_inds=None):
-- 
2.43.0


From 7129c450ead9ba6bd20ad7e579ee5f02abedfd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 42/46] fix: batch generator hung or lost the last batch at the
 end of a pass

---
 egenerator/data/handler/base.py | 77 ++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 2aa7cd5..61cd14b 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -1,5 +1,6 @@
 import os
 import time
+import queue
 import multiprocessing
 import numpy as np
 import glob
@@ -677,12 +678,10 @@ class BaseDataHandler(BaseComponent):
         # define shared memory variables
         num_files_processed = multiprocessing.Value('i')
         processed_all_files = multiprocessing.Value('b')
-        data_left_in_queue = multiprocessing.Value('b')
 
         # initialize shared variables
         num_files_processed.value = 0
         processed_all_files.value = False
-        data_left_in_queue.value = True
 
         # create Locks
         file_counter_lock = multiprocessing.Lock()
@@ -699,6 +698,7 @@ class BaseDataHandler(BaseComponent):
             for file in file_list:
                 number_of_files += 1
                 file_list_queue.put(file)
+            processed_all_files.value = number_of_files == 0
 
         # create data_batch_queue
         data_batch_queue = multiprocessing.Manager().Queue(
@@ -847,6 +847,25 @@ class BaseDataHandler(BaseComponent):
                     # must simply be concatenated along axis 0.
                     event_list[i].append(data_batch[i])
 
+        def get_loaded_events():
+            """Get the events of the next file that has been loaded.
+
+            Returns
+            -------
+            tuple of int and tuple of array_like, or None
+                The number of events and their data.
+                None is returned if all files have been processed and their
+                events have been taken from the queue.
+            """
+            while True:
+                # this has to be checked before looking for further events
+                all_files_are_processed = processed_all_files.value
+                try:
+                    return data_batch_queue.get(timeout=0.1)
+                except queue.Empty:
+                    if all_files_are_processed:
+                        return None
+
         def data_queue_iterator(sample_randomly):
             """Helper Method to create batches.
 
@@ -861,41 +880,38 @@ class BaseDataHandler(BaseComponent):
                 If True, a random event order will be sampled.
                 If False, events will not be shuffled.
             """
-            if not pick_random_files_forever:
-                with file_counter_lock:
-                    if processed_all_files.value and data_batch_queue.empty():
-                        data_left_in_queue.value = False
-
             # reset event batch
             size = 0
             batch = [[] for v in self.tensors.names]
 
-            while data_left_in_queue.value:
+            while True:
+                # get a new set of events from queue
+                loaded_events = get_loaded_events()
+                if loaded_events is None:
+                    break
+                num_events, data_batch = loaded_events
+
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
 
-                # get a new set of events from queue and fill
-                num_events, data_batch = data_batch_queue.get()
+                # fill in the events
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
 
                 n_files = 0
-                while ((n_files < num_add_files or current_queue_size <
-                        np.sqrt(max(0, num_repetitions - 1)) * batch_size) and
-                       data_left_in_queue.value):
-
-                    # avoid dead lock and delay for a bit
-                    time.sleep(0.1)
-
-                    if (data_batch_queue.qsize() > 1 or
-                            not data_batch_queue.empty()):
-                        num_events, data_batch = data_batch_queue.get()
-                        n_files += 1
-                        current_queue_size += num_events
-                        fill_event_list(data_batch, event_list, exists,
-                                        num_events)
+                while (n_files < num_add_files or current_queue_size <
+                        np.sqrt(max(0, num_repetitions - 1)) * batch_size):
+
+                    loaded_events = get_loaded_events()
+                    if loaded_events is None:
+                        break
+                    num_events, data_batch = loaded_events
+                    n_files += 1
+                    current_queue_size += num_events
+                    fill_event_list(data_batch, event_list, exists,
+                                    num_events)
 
                 # concatenate into one numpy array:
                 for i, tensor in enumerate(self.tensors.list):
@@ -971,12 +987,6 @@ class BaseDataHandler(BaseComponent):
                             size = 0
                             batch = [[] for v in self.tensors.names]
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        if (processed_all_files.value and
-                                data_batch_queue.empty()):
-                            data_left_in_queue.value = False
-
             # collect leftovers and put them in an (incomplete) batch
             if size > 0:
                 # create numpy arrays from input tensors
@@ -991,6 +1001,9 @@ class BaseDataHandler(BaseComponent):
                         batch[i] = np.asarray(batch[i])
                 final_batch_queue.put(tuple(batch))
 
+            # mark the end of the batches
+            final_batch_queue.put(None)
+
         def batch_iterator():
             """Create batch generator
 
@@ -1001,8 +1014,10 @@ class BaseDataHandler(BaseComponent):
                 dom_responses: [batch_size, x_dim, y_dim, z_dim, num_bins]
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
-            while data_left_in_queue.value or not final_batch_queue.empty():
+            while True:
                 batch = final_batch_queue.get()
+                if batch is None:
+                    break
                 yield batch
 
         # create processes
-- 
2.43.0


From 98aa59e53a203cf76deb18630dd8e4ba3199ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 43/46] fix: reconstruction of test data required a goodness of
 fit setting most configurations do not define

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 1666e23..99e3f76 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1333,7 +1333,7 @@ class SourceManager(BaseModelManager):
         calculate_covariance_matrix = \
             reco_config['calculate_covariance_matrix']
         calculate_goodness_of_fit = \
-            reco_config['calculate_goodness_of_fit']
+            reco_config.get('calculate_goodness_of_fit', False)
         estimate_angular_uncertainty = \
             reco_config['estimate_angular_uncertainty']
         run_mcmc = reco_config['run_mcmc']
-- 
2.43.0


From acd7bb504385e579a24a2873b8c3fe739a66be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 44/46] fix: reconstruction failed for configurations without a
 particle mapping

---
 configs/cascade_7param_noise_BFRv1Spice321.yaml      | 12 ++++++++++++
 .../cascade_7param_noise_BFRv1Spice321__small.yaml   | 12 ++++++++++++
 .../manager/reconstruction/modules/opening_angle.py  |  4 ++--
 egenerator/manager/source.py                         |  7 +++++--
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/configs/cascade_7param_noise_BFRv1Spice321.yaml b/configs/cascade_7param_noise_BFRv1Spice321.yaml
index d4dae37..4b4952f 100644
--- a/configs/cascade_7param_noise_BFRv1Spice321.yaml
+++ b/configs/cascade_7param_noise_BFRv1Spice321.yaml
@@ -148,6 +148,18 @@ model_manager_settings: {
 
         # Path to where the manager will be saved to and loaded from
         'manager_dir': '../data/training/{unique_name}/manager',
+
+        # Define which model parameters to use for the I3Particle
+        # [x, y, z, zenith, azimuth, energy, time]
+        'I3ParticleMapping': {
+            'x': 'cascade_x',
+            'y': 'cascade_y',
+            'z': 'cascade_z',
+            'zenith': 'cascade_zenith',
+            'azimuth': 'cascade_azimuth',
+            'energy': 'cascade_energy',
+            'time': 'cascade_time',
+        },
     },
 }
 
diff --git a/configs/cascade_7param_noise_BFRv1Spice321__small.yaml b/configs/cascade_7param_noise_BFRv1Spice321__small.yaml
index 3e0b155..17edeef 100644
--- a/configs/cascade_7param_noise_BFRv1Spice321__small.yaml
+++ b/configs/cascade_7param_noise_BFRv1Spice321__small.yaml
@@ -148,6 +148,18 @@ model_manager_settings: {
 
         # Path to where the manager will be saved to and loaded from
         'manager_dir': '../data/training/{unique_name}/manager',
+
+        # Define which model parameters to use for the I3Particle
+        # [x, y, z, zenith, azimuth, energy, time]
+        'I3ParticleMapping': {
+            'x': 'cascade_x',
+            'y': 'cascade_y',
+            'z': 'cascade_z',
+            'zenith': 'cascade_zenith',
+            'azimuth': 'cascade_azimuth',
+            'energy': 'cascade_energy',
+            'time': 'cascade_time',
+        },
     },
 }
 
diff --git a/egenerator/manager/reconstruction/modules/opening_angle.py b/egenerator/manager/reconstruction/modules/opening_angle.py
index bef93ff..6f6fbd0 100644
--- a/egenerator/manager/reconstruction/modules/opening_angle.py
+++ b/egenerator/manager/reconstruction/modules/opening_angle.py
@@ -76,8 +76,8 @@ class CircularizedAngularUncertainty:
         self.rng = np.random.RandomState(random_seed)
 
         # fit parameter list
-        self.mapping = self.manager.configuration.config['config'][
-            'I3ParticleMapping']
+        self.mapping = self.manager.configuration.config['config'].get(
+            'I3ParticleMapping', {'zenith': 'zenith', 'azimuth': 'azimuth'})
         self.zenith_index = self.manager.models[0].get_index(
             self.mapping['zenith'])
         self.azimuth_index = self.manager.models[0].get_index(
diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 99e3f76..771ad61 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -801,7 +801,9 @@ class SourceManager(BaseModelManager):
             spherical_indices = tuple()
         else:
             print('Using spherical indices for CRS2 Optimization!')
-            mapping = self.configuration.config['config']['I3ParticleMapping']
+            mapping = self.configuration.config['config'].get(
+                'I3ParticleMapping',
+                {'zenith': 'zenith', 'azimuth': 'azimuth'})
             spherical_indices = [
                 [self.models[0].get_index(mapping['azimuth']),
                  self.models[0].get_index(mapping['zenith'])],
@@ -1292,7 +1294,8 @@ class SourceManager(BaseModelManager):
         minimize_in_trafo_space = reco_config['minimize_in_trafo_space']
 
         # get mapping for zenith and azimuth
-        mapping = self.configuration.config['config']['I3ParticleMapping']
+        mapping = self.configuration.config['config'].get(
+            'I3ParticleMapping', {'zenith': 'zenith', 'azimuth': 'azimuth'})
 
         # get a list of parameters to fit
         fit_paramater_list = [reco_config['minimize_parameter_default_value']
-- 
2.43.0


From cd0c7c9ea289f462c9e3700ffc34c9510ec80b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 45/46] fix: track models without snowstorm parameters passed
 all parameters to every source

---
 egenerator/model/multi_source/track/stochastic_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/track/stochastic_track.py b/egenerator/model/multi_source/track/stochastic_track.py
index b700a17..eb957f9 100644
--- a/egenerator/model/multi_source/track/stochastic_track.py
+++ b/egenerator/model/multi_source/track/stochastic_track.py
@@ -119,7 +119,8 @@ class StochasticTrackModel(MultiSource):
         d_end = parameters.params['track_distance_end']
 
         num_snowstorm_params = self._untracked_data['num_snowstorm_params']
-        snowstorm_params = parameters[:, -num_snowstorm_params:]
+        snowstorm_params = parameters[
+            :, self.num_parameters - num_snowstorm_params:]
 
         # calculate direction vector
         dir_x = -tf.sin(zenith) * tf.cos(azimuth)
-- 
2.43.0


From 132b0610daf3e176127570d46dce1e796e3c0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 46/46] fix: mismatch of the trafo data in an ensemble raised
 an AttributeError instead of its message

---
 egenerator/manager/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 19a059d..8616d27 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -173,7 +173,8 @@ class BaseModelManager(Model):
             if set(data_trafo.data.keys()) != set(data_trafo_i.data.keys()):
                 msg = 'Data Trafo keys of model {:04d} do not match: {} != {}'
                 raise ValueError(msg.format(
-                    i, set(data_trafo_i.keys()), set(data_trafo.keys())))
+                    i, set(data_trafo_i.data.keys()),
+                    set(data_trafo.data.keys())))
 
             for key in data_trafo.data.keys():
                 if np.any(data_trafo.data[key] != data_trafo_i.data[key]):
-- 
2.43.0

