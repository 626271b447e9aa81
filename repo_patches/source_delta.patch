From b85fc79bdd138d26871e06eafa5a3d3c3e3d5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:41 +0000
Subject: [PATCH 01/72] fix: combine population files completely or not at all

combine_saved_files skipped input files it failed to read or append and
removed them afterwards, and it wrote directly to the final file name, so a
killed or failed combination left an incomplete file there. Errors are now
raised, and the final name is only given to a completely written file.
---
 posydon/popsyn/binarypopulation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..3f59b24 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -550,8 +550,13 @@ class BinaryPopulation:
         complib = kwargs.get('complib', 'zlib')
         complevel = kwargs.get('complevel', 9)
 
+        # a new file gets its final name only after it is written completely
+        write_filepath = absolute_filepath
+        if mode == 'w':
+            dir_name, base_name = os.path.split(absolute_filepath)
+            write_filepath = os.path.join(dir_name, f".{base_name}.tmp")
 
-        with pd.HDFStore(absolute_filepath, mode=mode, complevel=complevel, complib=complib) as store:
+        with pd.HDFStore(write_filepath, mode=mode, complevel=complevel, complib=complib) as store:
             simulated_mass = 0.0
             simulated_mass_single = 0.0
             simulated_mass_binaries = 0.0
@@ -587,7 +592,10 @@ class BinaryPopulation:
                                  min_itemsize=oneline_min_itemsize)
 
                 except Exception:
+                    # never continue without the data of this file, because
+                    # all the files get removed in the end
                     print(traceback.format_exc(), flush=True)
+                    raise
 
             # store population metadata
             tmp_df = pd.DataFrame()
@@ -607,6 +615,9 @@ class BinaryPopulation:
             tmp_df.index.name = 'metallicity'
             store.append('mass_per_metallicity', tmp_df)
 
+        if write_filepath != absolute_filepath:
+            os.replace(write_filepath, absolute_filepath)
+
         # only remove the files once they've been written to the new file
         for f in file_names:
             os.remove(f)
-- 
2.43.0


From f3f4e57d42e69433870a52b5d08fd3e46b577d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 02/72] fix: a process without binaries has nothing to save

With more processes than binaries, a process without any binary failed with
an IndexError after the evolution, because it had no files to combine.
---
 posydon/popsyn/binarypopulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 3f59b24..ac2a5cb 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -462,6 +462,10 @@ class BinaryPopulation:
             else:
                 self.manager.remove(self.manager.binaries.copy())
 
+        # a process without binaries has nothing to save
+        if len(indices) == 0:
+            return
+
         # save by either combining dump files if optimize_ram = True...
         if optimize_ram:
             # combining files
-- 
2.43.0


From 07307092b7a3f113e665c2e758e852a94fb641cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:22 +0000
Subject: [PATCH 03/72] fix: batches of a killed process are no part of the
 population

A process that was killed left its intermediate batch files behind. They
were not cleaned up when the process was run again, and merging took every
file in the directory, so their binaries ended up twice in the population.
---
 posydon/CLI/io.py                      |  3 ++-
 posydon/popsyn/binarypopulation.py     | 10 ++++++++--
 posydon/popsyn/synthetic_population.py |  2 ++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index d9ec806..351001a 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -89,7 +89,8 @@ def create_merge_script_text(ini_file):
             synpop = BinaryPopulation(**ini_kw)
             path_to_batch = ini_kw["temp_directory"]
             tmp_files = [os.path.join(path_to_batch, f) for f in os.listdir(path_to_batch)
-                         if os.path.isfile(os.path.join(path_to_batch, f))]
+                         if os.path.isfile(os.path.join(path_to_batch, f))
+                         and f.startswith("evolution.combined.")]
             tmp_files = sorted(tmp_files, key=lambda x: int(x.split(".h5")[0].split(".")[-1]))
             synpop.combine_saved_files(str_met + "_Zsun_population.h5", tmp_files)
             print("done")
diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index ac2a5cb..47cc566 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -340,6 +340,10 @@ class BinaryPopulation:
                     os.makedirs(temp_directory)
                 except FileExistsError:
                     pass
+            # remove batches of a previous, unfinished run of this process
+            for f in os.listdir(temp_directory):
+                if f.endswith(f"_evolution.batch.{self.rank}"):
+                    os.remove(os.path.join(temp_directory, f))
 
         filenames = []
 
@@ -508,10 +512,12 @@ class BinaryPopulation:
             absolute_filepath = os.path.abspath(save_path)
             dir_name = os.path.dirname(absolute_filepath)
             file_name = os.path.basename(absolute_filepath)
-            # get the temporary files in the directory
+            # get the temporary files in the directory; unfinished files of a
+            # process are no input: its complete data is in the combined file
             tmp_files = [os.path.join(temp_directory, f)     \
                          for f in os.listdir(temp_directory) \
-                            if os.path.isfile(os.path.join(temp_directory, f))]
+                            if os.path.isfile(os.path.join(temp_directory, f))
+                            and f.startswith("evolution.combined.")]
 
             if os.path.isdir(absolute_filepath):
                 file_name = 'backup_save_pop_data.h5'
diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..c4e3eff 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -190,6 +190,8 @@ class PopulationRunner:
             os.path.join(path_to_batch, f)
             for f in os.listdir(path_to_batch)
             if os.path.isfile(os.path.join(path_to_batch, f))
+            # unfinished files of a process are no input
+            and not f.startswith(".") and "_evolution.batch" not in f
         ]
         if self.verbose:  # pragma: no cover
             print(f"Merging {len(tmp_files)} files...")
-- 
2.43.0


From 0615f072aef0ad532b568764c946295a19c9d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:02 +0000
Subject: [PATCH 04/72] fix: resetting the generator of a parallel process
 keeps its own random stream

---
 posydon/popsyn/binarypopulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 47cc566..4846527 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -1011,11 +1011,12 @@ class BinaryGenerator:
         self._num_gen = 0
         if RNG is None:
             self.RNG = np.random.default_rng()
-            self.entropy = self.RNG.bit_generator._seed_seq.entropy
         else:
             assert isinstance(RNG, np.random.Generator)
             self.RNG = RNG
-            self.entropy = self.RNG.bit_generator._seed_seq.entropy
+        self.entropy = self.RNG.bit_generator._seed_seq.entropy
+        # processes of a parallel run have the same entropy, but different keys
+        self.spawn_key = self.RNG.bit_generator._seed_seq.spawn_key
 
         self.kwargs = kwargs.copy()
         self.sampler = sampler
@@ -1029,7 +1030,8 @@ class BinaryGenerator:
 
     def get_original_rng(self):
         """Return the random-number generator."""
-        seq = np.random.SeedSequence(entropy=self.entropy)
+        seq = np.random.SeedSequence(entropy=self.entropy,
+                                     spawn_key=self.spawn_key)
         RNG = np.random.default_rng(seed=seq)
         return RNG
 
-- 
2.43.0


From 6aa93c2285a45e6b104718b7ad89c54bd0478816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:15 +0000
Subject: [PATCH 05/72] fix: rescue and merge jobs are submitted from the run
 folder wherever check is called

---
 posydon/CLI/io.py           | 13 ++++++++++---
 posydon/CLI/popsyn/check.py |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index 351001a..7cc5cc0 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -333,7 +333,8 @@ def create_slurm_rescue(metallicity,
                         max_concurrent_jobs,
                         exclude,
                         path_to_posydon,
-                        path_to_posydon_data):
+                        path_to_posydon_data,
+                        run_folder=''):
     '''Creates the slurm rescue script for resubmitting failed population synthesis jobs.
 
     Creates a SLURM submission script file named
@@ -362,6 +363,9 @@ def create_slurm_rescue(metallicity,
         Path to the POSYDON installation
     path_to_posydon_data : str
         Path to the POSYDON_DATA directory
+    run_folder : str, optional
+        Path to the run folder, where the script is created. Default is the
+        current directory.
     '''
     str_met = convert_metallicity_to_string(metallicity)
 
@@ -410,7 +414,7 @@ def create_slurm_rescue(metallicity,
 
     text = text_pre + optional_section + text_post
 
-    filename = f'{str_met}_Zsun_rescue.slurm'
+    filename = os.path.join(run_folder, f'{str_met}_Zsun_rescue.slurm')
     if os.path.exists(filename): # pragma: no cover
         Pwarn('Replace ' + filename, "OverwriteWarning")
     with open(filename, mode='w') as file:
@@ -584,7 +588,8 @@ def create_batch_rescue_script(args, batch_status):
         max_concurrent_jobs=max_concurrent_jobs,
         exclude=exclude,
         path_to_posydon=path_to_posydon,
-        path_to_posydon_data=path_to_posydon_data
+        path_to_posydon_data=path_to_posydon_data,
+        run_folder=run_folder
     )
 
     rescue_script = os.path.join(run_folder, f'{str_met}_Zsun_rescue.slurm')
@@ -609,6 +614,8 @@ def create_bash_submit_rescue_script(filename, rescue_scripts):
     resubmit_sh_file = os.path.join(filename, RESUBMIT_SCRIPT)
     with open(resubmit_sh_file, 'w') as f:
         f.write("#!/bin/bash\n")
+        # the scripts need to be submitted from the run folder
+        f.write('cd "$(dirname "$0")" || exit 1\n')
         for script in rescue_scripts:
             script_basename = os.path.basename(script)
             met = script_basename.split('_')[0]
diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 519817f..987dcc9 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -682,9 +682,12 @@ def submit_slurm_job(script_path):
     bool
         True if submission succeeded, False otherwise
     """
+    # the job has to run in the folder of the script
+    folder, script = os.path.split(script_path)
     try:
         result = subprocess.run(
-            ['sbatch', script_path],
+            ['sbatch', script],
+            cwd=folder or None,
             check=True,
             capture_output=True,
             text=True
-- 
2.43.0


From 5884fc9cfb1e8c02626edf25efdc4a72d51119fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:26 +0000
Subject: [PATCH 06/72] fix: check rescues incomplete metallicities also if
 another one only lacks its merge

---
 posydon/CLI/popsyn/check.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 987dcc9..cc98bb8 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -812,6 +812,9 @@ def check_popsyn_function(args):
         # Create rescue scripts
         rescue_scripts = []
         for _, status in batch_status.items():
+            # there is nothing to rescue, only its merge job is missing
+            if status["status"] == "complete":
+                continue
             print_separator_line()
             print("\nGENERATING A RESCUE SCRIPT ....................")
             rescue_scripts.append(create_batch_rescue_script(args, status))
-- 
2.43.0


From 2ad090111d534fb2d3d41390847c79b9ce24e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:26 +0000
Subject: [PATCH 07/72] fix: check ignores the log of the merge job when
 looking for job IDs

---
 posydon/CLI/popsyn/check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index cc98bb8..125de1c 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -420,6 +420,8 @@ def select_job_id(run_folder, str_met):
         Selected job ID, or None if no logs found
     """
     jobIDs = glob.glob(os.path.join(run_folder, f'{str_met}_logs/popsyn_*.out'))
+    # the log of the merge job has no ID
+    jobIDs = [job for job in jobIDs if not job.endswith('popsyn_merge.out')]
 
     if len(jobIDs) == 0:
         print("\n\033[33mNo log files found. Cannot determine failure reasons.\033[0m")
-- 
2.43.0


From 07b5bb187a44c53b181441354dbc1d7318e5fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:37 +0000
Subject: [PATCH 08/72] fix: a process never leaves incomplete data under the
 name of its results

---
 posydon/popsyn/binarypopulation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 4846527..243d162 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -491,10 +491,13 @@ class BinaryPopulation:
                                   mode='w',
                                   **kwargs)
             else:
-                self.manager.save(
-                    os.path.join(temp_directory,
-                                 f"evolution.combined.{self.rank}.h5"),
-                    mode='w', **kwargs)
+                # the file gets its name only after it is written completely
+                path = os.path.join(temp_directory,
+                                    f".evolution.combined.{self.rank}.h5.tmp")
+                self.manager.save(path, mode='w', **kwargs)
+                os.replace(path,
+                           os.path.join(temp_directory,
+                                        f"evolution.combined.{self.rank}.h5"))
 
     def save(self, save_path, **kwargs): # pragma: no cover
         # dependent on full evolution
@@ -962,7 +965,9 @@ class PopulationManager:
                              min_itemsize=oneline_min_itemsize)
 
             except Exception:
+                # a file without all the data must not count as saved
                 print(traceback.format_exc(), flush=True)
+                raise
 
             # store population metadata
             tmp_df = pd.DataFrame()
-- 
2.43.0


From e07844ad8791db58d46de606bf3bbc0814200c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:01 +0000
Subject: [PATCH 09/72] fix: rescue jobs are submitted also from run folders
 with blanks in their path

---
 posydon/CLI/popsyn/check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 125de1c..17faf72 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -7,6 +7,7 @@ __authors__ = [
 
 import glob
 import os
+import shlex
 import subprocess
 
 import numpy as np
@@ -825,7 +826,7 @@ def check_popsyn_function(args):
         resubmit_sh_file = create_bash_submit_rescue_script(args.run_folder, rescue_scripts)
 
         if get_user_confirmation("Do you want to submit the rescue scripts now? (yes/no): "):
-            os.system(f'sh {resubmit_sh_file}')
+            os.system(f'sh {shlex.quote(resubmit_sh_file)}')
             print("Rescue scripts submitted.")
             return 0
         else:
-- 
2.43.0


From 0ffcb40f30bca8735cbeea9a019b17c0398c6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 10/72] fix: tail(0) of a population table returns no rows

---
 posydon/popsyn/synthetic_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index c4e3eff..608e02d 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -256,7 +256,8 @@ class DFInterface:
             The last n rows of the key table.
         """
         with pd.HDFStore(self.filename, mode="r") as store:
-            return store.select(key, start=-n)
+            nrows = store.get_storer(key).nrows
+            return store.select(key, start=max(nrows - n, 0))
 
 
     def select(self, key, where=None, start=None, stop=None, columns=None):
-- 
2.43.0


From 51efa6f52d266e7ff242b5d0c4c9dcaeefd06280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 11/72] fix: selections that match nothing and open slices of
 population tables

---
 posydon/popsyn/synthetic_population.py | 46 +++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 608e02d..a4aed1b 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -288,9 +288,30 @@ class DFInterface:
             out = []
             for chunk in iterator:
                 out.append(chunk)
+            if len(out) == 0:
+                # no rows fulfil the conditions
+                return store.select(key, start=0, stop=0, columns=columns)
             out = pd.concat(out, axis=0)
         return out
 
+    def select_indices(self, indices):
+        '''Select the rows of the table with the given binary indices.
+
+        Parameters
+        ----------
+        indices : list of int
+            The binary indices to select.
+
+        Returns
+        -------
+        pandas.DataFrame
+            The selected data as a DataFrame.
+        '''
+        # an empty list cannot be used in a condition
+        if len(indices) == 0:
+            return self.select(start=0, stop=0)
+        return self.select(where=f"index in {indices}")
+
     def get_repr(self, key):
         '''Return a string representation of the key table.
 
@@ -449,11 +470,10 @@ class History(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                stop = np.max(self.indices, initial=-1) + 1
             else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+                stop = key.stop
+            return self.select_indices(list(range(pre, stop)))
 
         # single index
         elif isinstance(key, int):
@@ -694,27 +714,23 @@ class Oneline(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                stop = np.max(self.indices, initial=-1) + 1
             else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+                stop = key.stop
+            return self.select_indices(list(range(pre, stop)))
 
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
         elif isinstance(key, list) and all(isinstance(x, int) for x in key):
-            return self.select(where=f"index in {key}")
+            return self.select_indices(key)
         elif isinstance(key, np.ndarray) and (key.dtype == int):
-            indices = key.tolist()
-            return self.select(where=f"index in {indices}")
+            return self.select_indices(key.tolist())
         elif isinstance(key, list) and all(isinstance(x, float) for x in key):
             raise ValueError("elements in list are not integers! Try casting to int.")
         elif isinstance(key, pd.DataFrame) and all(key.dtypes == bool):
-            indices = self.indices[key.to_numpy().flatten()].tolist()
-            return self.select(where=f"index in {indices}")
+            return self.select_indices(self.indices[key.to_numpy().flatten()].tolist())
         elif isinstance(key, np.ndarray) and key.dtype == bool:
-            indices = self.indices[key].tolist()
-            return self.select(where=f"index in {indices}")
+            return self.select_indices(self.indices[key].tolist())
         elif isinstance(key, str):
             if key in self.columns:
                 return self.select(columns=[key])
-- 
2.43.0


From 57872af7e8b4bb14485042569f5a618aa1e75140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 12/72] fix: open populations read-only unless history lengths
 have to be stored

---
 posydon/popsyn/synthetic_population.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index a4aed1b..b22ab6a 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -396,9 +396,10 @@ class History(DFInterface):
             raise FileNotFoundError(f"{filename} does not exist!")
 
         # add history_lengths
-        with pd.HDFStore(filename, mode="a") as store:
+        with pd.HDFStore(filename, mode="r") as store:
             # get the history lengths from the file
-            if "/history_lengths" in store.keys():
+            stored = "/history_lengths" in store.keys()
+            if stored:
                 self.lengths = store["history_lengths"]
             else:
                 if self.verbose:  # pragma: no cover
@@ -412,13 +413,21 @@ class History(DFInterface):
                 tmp_df.rename(columns={"index": "length"}, inplace=True)
                 self.lengths = tmp_df
                 del tmp_df
-                if self.verbose:  # pragma: no cover
-                    print("Storing history lengths in population file!")
-                store.put("history_lengths", pd.DataFrame(self.lengths), format="table")
                 del history_events
 
             self.columns = store.select("history", start=0, stop=0).columns.to_list()
 
+        if not stored:
+            if self.verbose:  # pragma: no cover
+                print("Storing history lengths in population file!")
+            try:
+                with pd.HDFStore(filename, mode="a") as store:
+                    store.put("history_lengths", pd.DataFrame(self.lengths), format="table")
+            except (OSError, RuntimeError) as e: # pragma: no cover
+                # the file may be read-only or in use by another process
+                Pwarn(f"history_lengths could not be stored in {filename}: {e}",
+                      "POSYDONWarning")
+
         self.indices = self.lengths.index.to_numpy()
         self.number_of_systems = len(self.lengths)
 
-- 
2.43.0


From 5a92e0962e5c2de2a01c9ccecb5c2d0c8850e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 13/72] fix: boolean masks select the right history rows for
 every chunk size

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index b22ab6a..8249b55 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -512,9 +512,12 @@ class History(DFInterface):
             # This can be optimized by only selecting indices that are True instead of the entire table
             with pd.HDFStore(self.filename, mode="r") as store:
                 iterator = store.select("history", chunksize=self.chunksize)
+                mask = np.asarray(key).flatten()
                 out = []
-                for i, chunk in enumerate(iterator):
-                    out.append(chunk[key[i : i + self.chunksize]])
+                start = 0
+                for chunk in iterator:
+                    out.append(chunk[mask[start : start + len(chunk)]])
+                    start += len(chunk)
                 return pd.concat(out, axis=0)
 
         # single column
-- 
2.43.0


From f9f1b907aee032d7b426651f8c97f87f0decb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 14/72] fix: locate the history of binaries by the order in the
 file

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 8249b55..468dd7d 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1161,9 +1161,12 @@ class Population(PopulationIO):
             )
 
         # add number of systems
-        self.history_lengths = self.history.lengths
+        # The binaries have to be in the order of the file, because the lengths
+        # are used to locate the rows of the binaries. The lengths in the file
+        # are sorted by the index instead.
+        self.indices = self.oneline.indices
+        self.history_lengths = self.history.lengths.loc[self.indices]
         self.number_of_systems = self.oneline.number_of_systems
-        self.indices = self.history.indices
 
     def __repr__(self):  # pragma: no cover
         """Return a string representation of the object.
-- 
2.43.0


From 1c22a6c7972a5f7784b8eddefe20f0162fc654dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 15/72] fix: a failed or interrupted export leaves existing
 data as it was

---
 posydon/popsyn/synthetic_population.py | 39 +++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 468dd7d..c721f80 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1259,13 +1259,38 @@ class Population(PopulationIO):
         if os.path.exists(filename) and not overwrite and not append:
             raise FileExistsError(f"{filename} already exists! Set overwrite or append to True to continue!")
 
-        if overwrite:
-            mode = 'w'
-        elif append:
-            mode = 'a'
-        else:
-            mode = 'w'
+        if os.path.exists(filename) and os.path.samefile(filename, self.filename):
+            raise ValueError("A population cannot be exported to its own file!")
+
+        # The export is written to a temporary file first. Thus, an existing
+        # file is left as it is, if the export fails or is interrupted.
+        folder, name = os.path.split(filename)
+        tmp_filename = os.path.join(folder, "." + name + ".tmp")
+        try:
+            if append and os.path.exists(filename):
+                shutil.copyfile(filename, tmp_filename)
+            elif os.path.exists(tmp_filename):
+                os.remove(tmp_filename)
+            self._write_selection(selection, tmp_filename, history_chunksize)
+            os.replace(tmp_filename, filename)
+        except BaseException:
+            if os.path.exists(tmp_filename):
+                os.remove(tmp_filename)
+            raise
+
+    def _write_selection(self, selection, filename, history_chunksize):
+        """Append a selection of the population to a file.
 
+        Parameters
+        ----------
+        selection : list of int
+            The indices of the systems to write.
+        filename : str
+            The name of the file to append to. It gets created if it does not
+            exist.
+        history_chunksize : int
+            The number of systems to write at a time to the history.
+        """
         history_cols = self.history.columns
         oneline_cols = self.oneline.columns
 
@@ -1276,7 +1301,7 @@ class Population(PopulationIO):
             key: val for key, val in ONELINE_MIN_ITEMSIZE.items() if key in oneline_cols
         }
 
-        with pd.HDFStore(filename, mode=mode) as store:
+        with pd.HDFStore(filename, mode="a") as store:
             # shift all new indices by the current length of data in the file
             last_index_in_file = -1
 
-- 
2.43.0


From f6dec339ae284ae7379f8c04aa9950cb6db116d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 16/72] fix: exported tables refer to the same binaries for
 unordered selections

---
 posydon/popsyn/synthetic_population.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index c721f80..266df89 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1341,6 +1341,14 @@ class Population(PopulationIO):
                     )
                 }
 
+            # all tables have to contain the systems in the same order, which
+            # is the one of the systems in this population
+            selected = set(selection)
+            missing = selected.difference(self.indices)
+            if missing:
+                raise ValueError(f"There are no systems with the indices {sorted(missing)}!")
+            selection = [int(i) for i in self.indices if i in selected]
+
             if "metallicity" not in self.oneline.columns:
                 Pwarn("No metallicity column in oneline dataframe! Using the "
                       "metallicity of the population file and adding it to the"
-- 
2.43.0


From 86f9bd8f6451175d43387acff65a2ab79ccfcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 17/72] fix: exports keep the mass table of the source and
 count per metallicity

---
 posydon/popsyn/synthetic_population.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 266df89..b70419f 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1362,6 +1362,7 @@ class Population(PopulationIO):
                 print("Writing selected systems to population file...")
 
             # write oneline of selected systems
+            systems_per_metallicity = {}
             for i in tqdm(
                 range(0, len(selection), self.chunksize),
                 total=len(selection) // self.chunksize,
@@ -1372,7 +1373,11 @@ class Population(PopulationIO):
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
-                    tmp_df["metallicity"] = self.metallicities[0]
+                    tmp_df["metallicity"] = self.solar_metallicities[0]
+                for met, count in tmp_df["metallicity"].value_counts().items():
+                    systems_per_metallicity[met] = (
+                        systems_per_metallicity.get(met, 0) + count
+                    )
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
@@ -1436,16 +1441,19 @@ class Population(PopulationIO):
                 )
 
             # write mass_per_metallicity
-            if "/mass_per_metallicity" in store.keys():
-                self_mass = self.mass_per_metallicity
+            self_mass = self.mass_per_metallicity.copy()
+            if len(self_mass) == 1:
                 self_mass["number_of_systems"] = len(selection)
+            else:
+                self_mass["number_of_systems"] = [
+                    systems_per_metallicity.get(met, 0) for met in self_mass.index
+                ]
+            if "/mass_per_metallicity" in store.keys():
                 tmp_df = pd.concat([store["mass_per_metallicity"], self_mass])
                 mass_per_metallicity = tmp_df.groupby(tmp_df.index).sum()
                 store.put("mass_per_metallicity", mass_per_metallicity)
 
             else:
-                self_mass = self.mass_per_metallicity
-                self_mass["number_of_systems"] = len(selection)
                 store.put("mass_per_metallicity", self_mass)
 
         # write ini parameters
-- 
2.43.0


From f95177dcf613fd7854ba0fb4bec535f3b201f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 18/72] fix: export populations with formation channels for
 some binaries only

---
 posydon/popsyn/synthetic_population.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index b70419f..9e95a3a 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1416,8 +1416,10 @@ class Population(PopulationIO):
                     total=len(selection) // self.chunksize,
                     disable=not self.verbose,
                 ):
-                    tmp_df = self.formation_channels.loc[selection[i : i + self.chunksize]]
-                    tmp_df.rename(index=reindex, inplace=True)
+                    # not all systems need to have a formation channel
+                    tmp_df = self.formation_channels
+                    tmp_df = tmp_df[tmp_df.index.isin(selection[i : i + self.chunksize])]
+                    tmp_df = tmp_df.rename(index=reindex)
                     store.append(
                         "formation_channels",
                         tmp_df,
-- 
2.43.0


From 39f48e8bb13f8497dea28f83324d690b368fce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 19/72] fix: formation channels of chunks without interpolation
 classes

---
 posydon/popsyn/synthetic_population.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e95a3a..69a4be6 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1570,11 +1570,10 @@ class Population(PopulationIO):
             events = self.history.select(start=previous, stop=end, columns=["event"])
 
             mask = pd.notna(interp_class_HMS_HMS["interp_class_HMS_HMS"].values)
-            interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = (
-                interp_class_HMS_HMS[mask]
-                .apply(lambda x: HMS_HMS_event_dict[x["interp_class_HMS_HMS"]], axis=1)
-                .values
-            )
+            interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = [
+                HMS_HMS_event_dict[x]
+                for x in interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"]
+            ]
             del mask
 
             previous = end
-- 
2.43.0


From db9dd961bd93f1fb9facc35cc7a6f440ae176e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 20/72] fix: model weights are assigned to the binaries they
 belong to

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 69a4be6..5ee7686 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2042,7 +2042,7 @@ class TransientPopulation(Population):
                                                     M_sim=M_sim,
                                                     simulation_parameters=simulation_parameters,
                                                     population_parameters=population_parameters)
-            weight_mapping = dict(zip(met_indices, calculated_weights))
+            weight_mapping = dict(zip(pop_data.index, calculated_weights))
             model_weights[model_weights_identifier] = (
                 model_weights.index.to_series().map(weight_mapping).fillna(model_weights[model_weights_identifier]))
 
-- 
2.43.0


From 761305a093cb2f6002134d2e09c7d66686adfb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 21/72] fix: SFH model parameters do not leak into later
 computations

---
 posydon/popsyn/synthetic_population.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 5ee7686..84ab6ab 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2157,11 +2157,9 @@ class TransientPopulation(Population):
         """
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
-        if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
-        else:
+        MODEL = DEFAULT_SFH_MODEL.copy()
+        if MODEL_in is not None:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From f9ab9e543698a640dd07f20a8cf098876a47bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 22/72] fix: recomputing cosmic weights removes all earlier
 results

---
 posydon/popsyn/synthetic_population.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 84ab6ab..015b4cd 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2171,16 +2171,12 @@ class TransientPopulation(Population):
 
 
         with pd.HDFStore(self.filename, mode="a") as store:
-            if path_in_file + "MODEL" in store.keys():
-                store.remove(path_in_file + "MODEL")
-                if self.verbose: # pragma: no cover
-                    print("Cosmic weights already computed! Overwriting them!")
-                if path_in_file + "weights" in store.keys(): # pragma: no branch
-                    store.remove(path_in_file + "weights")
-                if path_in_file + "z_events" in store.keys(): # pragma: no branch
-                    store.remove(path_in_file + "z_events")
-                if path_in_file + "birth" in store.keys(): # pragma: no branch
-                    store.remove(path_in_file + "birth")
+            if path_in_file + "MODEL" in store.keys() and self.verbose: # pragma: no cover
+                print("Cosmic weights already computed! Overwriting them!")
+            # remove everything of an earlier (maybe interrupted) computation
+            for table in ["MODEL", "weights", "z_events", "birth", "intrinsic_rate_density"]:
+                if path_in_file + table in store.keys():
+                    store.remove(path_in_file + table)
 
         self._write_MODEL_data(self.filename, path_in_file, MODEL)
 
-- 
2.43.0


From 57b22cbca36e8c559a3b4e1097395d0c423e5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 23/72] fix: consider all events when binaries have several of
 them

---
 posydon/popsyn/synthetic_population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 015b4cd..4a4d7eb 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2194,7 +2194,6 @@ class TransientPopulation(Population):
             )
 
         get_redshift_from_cosmic_time = redshift_from_cosmic_time_interpolator()
-        indices = self.indices
 
         met_edges = rates.edges_metallicity_bins
         # sample the SFH for only the events that are within the Hubble time
@@ -2216,7 +2215,7 @@ class TransientPopulation(Population):
         deltaT = rates.MODEL["delta_t"] * 10**6  # yr
 
         for i in tqdm(
-            range(0, len(indices), self.chunksize),
+            range(0, len(M_model), self.chunksize),
             desc="event loop",
             disable=not self.verbose,
         ):
@@ -2737,10 +2736,13 @@ class Rates(TransientPopulation):
                     + observable_name
                 ]
 
+        # a binary can have several events
+        number_of_events = len(self.population)
+
         # loop over the transient population and calculate the new weights, while writing to the file
         for i in tqdm(
-            range(0, len(self), self.chunksize),
-            total=len(self) // self.chunksize,
+            range(0, number_of_events, self.chunksize),
+            total=number_of_events // self.chunksize,
             disable=not self.verbose,
         ):
             transient_pop_chunk = self.select(start=i, stop=i + self.chunksize)
-- 
2.43.0


From 555b21134c0159407296c4e3959af0a731b62c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:42 +0000
Subject: [PATCH 24/72] fix: transient selections get the formation channels of
 their own binaries

---
 posydon/popsyn/synthetic_population.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 4a4d7eb..7bcc37b 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1768,8 +1768,12 @@ class Population(PopulationIO):
             )
 
             if self.formation_channels is not None:
-                formation_channels_chunk = self.formation_channels[
-                    i : i + self.chunksize
+                # not all systems need to have a formation channel
+                formation_channels_chunk = self.formation_channels
+                formation_channels_chunk = formation_channels_chunk[
+                    formation_channels_chunk.index.isin(
+                        unique_binary_indices[i : i + self.chunksize]
+                    )
                 ]
             else:
                 formation_channels_chunk = None
-- 
2.43.0


From 1820249b33d4fa496429b35730491953811f7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:22 +0000
Subject: [PATCH 25/72] fix: chunks without events do not stop the creation of
 transients

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 7bcc37b..fc0e6d5 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1779,6 +1779,11 @@ class Population(PopulationIO):
                 formation_channels_chunk = None
 
             syn_df = func(history_chunk, oneline_chunk, formation_channels_chunk)
+            previous = end
+
+            # there might be no events in a chunk
+            if syn_df.empty and len(syn_df.columns) == 0:
+                continue
 
             # check if required columns are present
             if "time" not in syn_df.columns:
@@ -1802,8 +1807,6 @@ class Population(PopulationIO):
                     min_itemsize=min_itemsize,
                 )
 
-            previous = end
-
         # it can happen that no systems are selected, in which case nothing has been appended to the file in the loop
         with pd.HDFStore(self.filename, mode="r") as store:
             if '/transients/'+transient_name not in store.keys():
-- 
2.43.0


From 4d26ee7257e6b0f193f4dfe3e80df986088d74a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:55 +0000
Subject: [PATCH 26/72] fix: a data download can be repeated after an
 interruption

An interrupted download or extraction leaves the tar file behind, which made
each further attempt fail with a FileExistsError.
---
 posydon/utils/data_download.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/utils/data_download.py b/posydon/utils/data_download.py
index 526964a..f2c9c68 100644
--- a/posydon/utils/data_download.py
+++ b/posydon/utils/data_download.py
@@ -156,7 +156,9 @@ def download_one_dataset(dataset='DR2_1Zsun', MD5_check=True, verbose=False):
     if not os.path.isdir(os.path.dirname(filepath)):
         raise NotADirectoryError("PATH_TO_POSYDON_DATA does not refer to a "
                                  "valid directory.")
-    if os.path.exists(filepath):
+    # a tar file gets removed after its extraction, hence an existing one is
+    # the leftover of an interrupted download, which gets replaced
+    if os.path.exists(filepath) and not os.path.isfile(filepath):
         raise FileExistsError(f"POSYDON data already exists at {filepath}.")
 
     # Download the data
-- 
2.43.0


From 4b0c712944159d17bebfc05a98126da149eedafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:55 +0000
Subject: [PATCH 27/72] fix: data, which could not be verified, are not
 extracted

If reading the tar file for the MD5 check or removing a tar file with the
wrong checksum failed, the unverified content got installed.
---
 posydon/utils/data_download.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/posydon/utils/data_download.py b/posydon/utils/data_download.py
index f2c9c68..ac462ed 100644
--- a/posydon/utils/data_download.py
+++ b/posydon/utils/data_download.py
@@ -168,12 +168,13 @@ def download_one_dataset(dataset='DR2_1Zsun', MD5_check=True, verbose=False):
     # Compare original MD5 with freshly calculated
     if MD5_check:
         try:
+            md5 = hashlib.md5()
             with open(filepath, "rb") as file_to_check:
-                # read contents of the file
-                data = file_to_check.read()
-
-            # pipe contents of the file through
-            md5_returned = hashlib.md5(data).hexdigest()
+                # pipe contents of the file through in pieces (reading files
+                # of several GB at once fails on some systems)
+                while data := file_to_check.read(2**24):
+                    md5.update(data)
+            md5_returned = md5.hexdigest()
 
             if original_md5 == md5_returned:
                 if verbose:
@@ -188,6 +189,9 @@ def download_one_dataset(dataset='DR2_1Zsun', MD5_check=True, verbose=False):
             print('Failed to read the tar.gz file for MD5 verification, '
                   'cannot guarantee file integrity (this error seems to '
                   'happen only on macOS).')
+            if os.path.exists(filepath):
+                # never extract data, which could not be verified
+                raise
 
     # extract each file
     print(f"Extracting POSYDON data '{dataset}' from tar file...")
-- 
2.43.0


From 050b443656a59906ba92de173a137aeca607dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 28/72] fix: compress files with special characters in their
 path

Blanks or other characters with a meaning for the shell in a path made gzip
leave the file uncompressed or work on files outside the given directory.
---
 posydon/utils/compress_mesa_files.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/compress_mesa_files.py b/posydon/utils/compress_mesa_files.py
index 29129c6..5b33644 100644
--- a/posydon/utils/compress_mesa_files.py
+++ b/posydon/utils/compress_mesa_files.py
@@ -232,6 +232,8 @@ def compress_dir(args):
         The directory where the MESA tracks are stored.
 
     """
+    import shlex
+
     if args.mesa_dir is None:
         raise NameError("mesa_dir needs to be specified for set_up_test")
     elif not os.path.isdir(args.mesa_dir):
@@ -264,10 +266,11 @@ def compress_dir(args):
             if os.path.isfile(os.path.join(folder, compress_file)):
                 if args.debug:
                     print("compress:", os.path.join(folder, compress_file))
-                os.system(f"gzip -1 {os.path.join(folder, compress_file)}")
+                path = shlex.quote(os.path.join(folder, compress_file))
+                os.system(f"gzip -1 -- {path}")
             else: #pragma: no cover
-                raise FileNotFoundError(f"{os.path.join(folder, remove_file)}"
-                                        " is not a file.")
+                raise FileNotFoundError(
+                    f"{os.path.join(folder, compress_file)} is not a file.")
 
     new_size, to_remove, to_compress, n_runs, n_remove_files, n_compress_files\
         = get_size(args.mesa_dir)
-- 
2.43.0


From eb209ad87d1e8dbbf9961181f30cadb29899e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 29/72] fix: an interrupted compression of MESA files can be
 completed

A compression, which got killed, leaves the file together with its compressed
copy. As gzip does not overwrite files, such files never got compressed.
---
 posydon/utils/compress_mesa_files.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/posydon/utils/compress_mesa_files.py b/posydon/utils/compress_mesa_files.py
index 5b33644..f0f69d1 100644
--- a/posydon/utils/compress_mesa_files.py
+++ b/posydon/utils/compress_mesa_files.py
@@ -233,6 +233,7 @@ def compress_dir(args):
 
     """
     import shlex
+    import zlib
 
     if args.mesa_dir is None:
         raise NameError("mesa_dir needs to be specified for set_up_test")
@@ -266,8 +267,25 @@ def compress_dir(args):
             if os.path.isfile(os.path.join(folder, compress_file)):
                 if args.debug:
                     print("compress:", os.path.join(folder, compress_file))
-                path = shlex.quote(os.path.join(folder, compress_file))
-                os.system(f"gzip -1 -- {path}")
+                path = os.path.join(folder, compress_file)
+                options = "-1"
+                if os.path.isfile(path+".gz") and not os.path.islink(path):
+                    # gzip does not overwrite, hence tell it to do so for the
+                    # copy left by an interrupted compression, which contains
+                    # nothing else than (the beginning of) the file
+                    gz_reader = zlib.decompressobj(31)
+                    with open(path, "rb") as original,\
+                         open(path+".gz", "rb") as copy:
+                        while gz_data := copy.read(2**20):
+                            try:
+                                data = gz_reader.decompress(gz_data)
+                            except zlib.error:
+                                break
+                            if data != original.read(len(data)):
+                                break
+                        else:
+                            options = "-1 -f"
+                os.system(f"gzip {options} -- {shlex.quote(path)}")
             else: #pragma: no cover
                 raise FileNotFoundError(
                     f"{os.path.join(folder, compress_file)} is not a file.")
-- 
2.43.0


From 2c8e2916bffd051bff576e47193d1e8eef9fcd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:25 +0000
Subject: [PATCH 30/72] fix: symbolic links do not stop the compression of MESA
 files

A dangling link in a run directory made the tool fail before all files were
compressed. Links are never compressed by gzip, hence do not select them.
---
 posydon/utils/compress_mesa_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/utils/compress_mesa_files.py b/posydon/utils/compress_mesa_files.py
index f0f69d1..0d07e4d 100644
--- a/posydon/utils/compress_mesa_files.py
+++ b/posydon/utils/compress_mesa_files.py
@@ -198,8 +198,9 @@ def get_size(start_path="."):
         for filename in filenames:
             filepath = os.path.join(dirpath, filename)
             # skip if it is symbolic link
-            if not os.path.islink(filepath):
-                total_size += os.path.getsize(filepath)
+            if os.path.islink(filepath):
+                continue
+            total_size += os.path.getsize(filepath)
             # check for files in mesa run, whether to remove or compress it
             if new_remove_files is not None:
                 name, ext = os.path.splitext(filename)
-- 
2.43.0


From 359677a300474923fedfcfa7b7b2bca2f8ab837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:30 +0000
Subject: [PATCH 31/72] fix: warnings turned into errors do not leak into the
 next context

If issuing a recorded warning at the end of a context raised an error, all the
records stayed and showed up in the records of the next context.
---
 posydon/utils/posydonwarning.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/posydonwarning.py b/posydon/utils/posydonwarning.py
index 9fab546..e48ed99 100644
--- a/posydon/utils/posydonwarning.py
+++ b/posydon/utils/posydonwarning.py
@@ -411,8 +411,11 @@ class _Caught_POSYDON_Warnings:
                                          "_Caught_POSYDON_Warnings.")
             if ((self.catch_warnings==False) and
                 (len(self.caught_warnings)>0)):
-                # If there are recorded warnings issue them and empty the list
-                for w in self.caught_warnings:
+                # If there are recorded warnings empty the list and issue them
+                # (doing so may raise an error)
+                records = self.caught_warnings
+                self.caught_warnings = []
+                for w in records:
                     if "stacklevel" in w:
                         w["stacklevel"] += 2
                     else:
@@ -421,7 +424,6 @@ class _Caught_POSYDON_Warnings:
                         warnings.warn(**w)
                     else:
                         _issue_warn(w, self.registry)
-                self.caught_warnings = []
         if new_warning is not None:
             # Process new warning
             if self.catch_warnings:
-- 
2.43.0


From 7c41a828585f1426dc8d7c93b3d2075a84e75372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:01 +0000
Subject: [PATCH 32/72] fix: recorded warnings are filtered by the position of
 their origin

The registry got the code position of Pwarn itself for warnings caught in a
context. Hence only the first warning of each category was recorded.
---
 posydon/utils/posydonwarning.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/posydonwarning.py b/posydon/utils/posydonwarning.py
index e48ed99..1edd7d4 100644
--- a/posydon/utils/posydonwarning.py
+++ b/posydon/utils/posydonwarning.py
@@ -429,9 +429,13 @@ class _Caught_POSYDON_Warnings:
             if self.catch_warnings:
                 # Catch warning
                 if self.filter_first:
-                    # Apply POSYDON filtering/stats
-                    new_warning = _apply_POSYDON_filter(new_warning,
-                                                        self.registry)
+                    # Apply POSYDON filtering/stats (use the code position of
+                    # the origin of the warning)
+                    stacklevel = new_warning.get("stacklevel", 0) + 1
+                    if _apply_POSYDON_filter(dict(new_warning,
+                                                  stacklevel=stacklevel),
+                                             self.registry) is None:
+                        new_warning = None
                 if self.record and new_warning is not None:
                     # Add warning to caught ones
                     self.caught_warnings.append(new_warning)
-- 
2.43.0


From 2f24b853515f5ec763b09932d3e0446a5625ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:23 +0000
Subject: [PATCH 33/72] fix: restoring to an entry counted from the end keeps
 the history

---
 posydon/binary_evol/binarystar.py | 6 +++++-
 posydon/binary_evol/singlestar.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..a467453 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -364,6 +364,9 @@ class BinaryStar:
             By default 0, i.e. the star will be restored to its initial state.
 
         """
+        # negative indices count from the end of the history
+        i = range(len(self.state_history))[i]
+
         # Move current binary properties to the ith step, using its history
         for p in BINARYPROPERTIES:
             setattr(self, p, getattr(self, '{}_history'.format(p))[i])
@@ -378,7 +381,8 @@ class BinaryStar:
                 extra_columns = getattr(hook, 'extra_binary_col_names')
 
                 for col in extra_columns:
-                    setattr(self, col, getattr(self, col)[0:i+1])
+                    if hasattr(self, col):
+                        setattr(self, col, getattr(self, col)[0:i+1])
 
         for star in (self.star_1, self.star_2):
             star.restore(i, hooks=self.properties.all_hooks_classes)
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 9c84997..9ca7282 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -401,6 +401,9 @@ class SingleStar:
         if hooks is None:
             hooks = []
 
+        # negative indices count from the end of the history
+        i = range(len(self.state_history))[i]
+
         # Move current star properties to the ith step, using its history
         for p in STARPROPERTIES:
             setattr(self, p, getattr(self, '{}_history'.format(p))[i])
@@ -415,7 +418,8 @@ class SingleStar:
                 extra_columns = getattr(hook, 'extra_star_col_names')
 
                 for col in extra_columns:
-                    setattr(self, col, getattr(self, col)[0:i+1])
+                    if hasattr(self, col):
+                        setattr(self, col, getattr(self, col)[0:i+1])
 
 
     def to_df(self, **kwargs):
-- 
2.43.0


From a3abc157d05e5d0d127755e12162eccb51b115c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:23 +0000
Subject: [PATCH 34/72] fix: restoring to a state before the first supernova
 resets its flag

---
 posydon/binary_evol/binarystar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index a467453..e73b0a6 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -387,6 +387,12 @@ class BinaryStar:
         for star in (self.star_1, self.star_2):
             star.restore(i, hooks=self.properties.all_hooks_classes)
 
+        # supernovae after the i-th state have not occurred yet
+        initial = getattr(self, 'first_SN_already_occurred_history', [False])
+        self.first_SN_already_occurred = (
+            initial[0] or any(event in ['CC1', 'CC2']
+                              for event in self.event_history[:-1]))
+
 
     def reset(self, properties=None):
         """Reset the binary to its ZAMS state.
-- 
2.43.0


From 532b5afba88c0d7fdeb867e810d6c614491e1edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:24 +0000
Subject: [PATCH 35/72] fix: binaries that failed with an undefined systemic
 velocity can be saved

---
 posydon/binary_evol/binarystar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index e73b0a6..333b414 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -563,9 +563,10 @@ class BinaryStar:
             V_sys_y = np.zeros(len(bin_df))
             V_sys_z = np.zeros(len(bin_df))
             for i in range(len(bin_df)):
-                V_sys_x[i] = bin_df.iloc[i]['V_sys'][0]
-                V_sys_y[i] = bin_df.iloc[i]['V_sys'][1]
-                V_sys_z[i] = bin_df.iloc[i]['V_sys'][2]
+                V_sys = bin_df.iloc[i]['V_sys']
+                if np.ndim(V_sys) == 0:     # undefined, e.g. after a failure
+                    V_sys = [V_sys] * 3
+                V_sys_x[i], V_sys_y[i], V_sys_z[i] = V_sys[:3]
 
             bin_df['V_sys_x'] = copy.deepcopy(V_sys_x)
             bin_df['V_sys_y'] = copy.deepcopy(V_sys_y)
@@ -580,9 +581,10 @@ class BinaryStar:
             NN_dist_y = np.zeros(len(bin_df))
             NN_dist_z = np.zeros(len(bin_df))
             for i in range(len(bin_df)):
-                NN_dist_x[i] = bin_df.iloc[i]['nearest_neighbour_distance'][0]
-                NN_dist_y[i] = bin_df.iloc[i]['nearest_neighbour_distance'][1]
-                NN_dist_z[i] = bin_df.iloc[i]['nearest_neighbour_distance'][2]
+                NN_dist = bin_df.iloc[i]['nearest_neighbour_distance']
+                if np.ndim(NN_dist) == 0:   # undefined, e.g. after a failure
+                    NN_dist = [NN_dist] * 3
+                NN_dist_x[i], NN_dist_y[i], NN_dist_z[i] = NN_dist[:3]
 
             bin_df['NN_dist_x'] = copy.deepcopy(NN_dist_x)
             bin_df['NN_dist_y'] = copy.deepcopy(NN_dist_y)
-- 
2.43.0


From 68071081e677d622dc4c47ddd0f65a9ddc481c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 36/72] fix: binaries reloaded from tables keep all the stored
 properties

---
 posydon/binary_evol/binarystar.py | 63 +++++++++++++++++++++----------
 posydon/popsyn/io.py              |  2 +-
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 333b414..e7983a4 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -615,6 +615,27 @@ class BinaryStar:
                                             extra_S2_dtypes_user=extra_s2_cols_dict)
         return binary_df
 
+    @staticmethod
+    def _join_vector_columns(binary_params, suffix):
+        """Replace the columns with coordinates by those with the vectors.
+
+        Parameters
+        ----------
+        binary_params : dict
+            Parameters of the binary. The lists with the three coordinates as
+            saved by `to_df` are replaced by one list of vectors.
+        suffix : str
+            Suffix of the names of the lists with the coordinates.
+
+        """
+        for name, col in [('V_sys', 'V_sys'),
+                          ('nearest_neighbour_distance', 'NN_dist')]:
+            keys = [f'{col}_{x}{suffix}' for x in 'xyz']
+            if all(key in binary_params for key in keys):
+                binary_params[f'{name}_history'] = [
+                    np.array(vector) for vector
+                    in zip(*[binary_params.pop(key) for key in keys])]
+
     @classmethod
     def from_df(cls, dataframe, **kwargs):
         """Convert a binary from a pandas DataFrame to BinaryStar instance.
@@ -664,8 +685,10 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
-        if ('binary_index' in dataframe.index.name
-                and not kwargs.get('index', False)):
+        cls._join_vector_columns(binary_params, '_history')
+
+        if (dataframe.index.name == 'binary_index'
+                and kwargs.get('index') is None):
             binary_index = set(dataframe.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -693,9 +716,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -706,7 +729,7 @@ class BinaryStar:
                 [star1_params,  star2_params,  binary_params],
                 [binary.star_1, binary.star_2, binary]):
             for key, val in params.items():
-                setattr(pointer, key.split('_history')[0], val[-1])
+                setattr(pointer, key.removesuffix('_history'), val[-1])
 
         # make BINARYPROPERTIES, history columns same length if not given
         already_included_cols = [name.split('_history')[0]
@@ -836,7 +859,7 @@ class BinaryStar:
         for name in list(oneline_df.columns):
             if '_f' in name[-2:]:
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-2] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
@@ -871,29 +894,31 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
+        cls._join_vector_columns(binary_params, '')
+
         # Handle backward compatibility for natal_kick_array
         if any(['S1_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S1_natal_kick_array_{}'.format(i)
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star1_params['natal_kick_velocity'] = natal_kick_values[0]
-            star1_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star1_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star1_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star1_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star1_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star1_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star1_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if any(['S2_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S2_natal_kick_array_{}'.format(i)
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star2_params['natal_kick_velocity'] = natal_kick_values[0]
-            star2_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star2_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star2_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star2_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star2_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
-        if ('binary_index' in oneline_df.index.name
-                and not kwargs.get('index', None)):
+        if (oneline_df.index.name == 'binary_index'
+                and kwargs.get('index') is None):
             binary_index = set(oneline_df.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -921,9 +946,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -934,7 +959,7 @@ class BinaryStar:
                 [star1_params,  star2_params,  binary_params],
                 [binary.star_1, binary.star_2, binary]):
             for key, val in params.items():
-                setattr(pointer, key.split('_history')[0], val[-1])
+                setattr(pointer, key.removesuffix('_history'), val[-1])
 
         # make BINARYPROPERTIES, history columns same length if not given
         already_included_cols = [name.split('_history')[0]
diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..7c3d680 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -318,7 +318,7 @@ def clean_binary_oneline_df(oneline_df, extra_binary_dtypes_user=None,
     # Create a dict with column-dtype mapping only for columns in binary_df
     common_dtype_dict = {}
     # helper function to remove the '_i' and '_f'
-    strip_prefix_and_suffix = lambda key : key.replace('_i', '').replace('_f', '') \
+    strip_prefix_and_suffix = lambda key : key.removesuffix('_i').removesuffix('_f') \
                                              .replace('S1_', '').replace('S2_', '')
     for key in common_keys:
         if key in scalar_keys:
-- 
2.43.0


From 9f602a31d1553bc332238e4ceeabb423562667d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:38 +0000
Subject: [PATCH 37/72] fix: scalar star properties offered in the ini file can
 be saved

---
 posydon/popsyn/io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 7c3d680..c26056e 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -162,6 +162,18 @@ SCALAR_NAMES_DTYPES = {
     'co_core_mass_at_He_depletion' : 'float64',
     'h1_mass_ej': 'float64',
     'he4_mass_ej': 'float64',
+    'm_disk_accreted': 'float64',
+    'm_disk_radiated': 'float64',
+    'Xi': 'float64',
+    'sc': 'float64',
+    'm_core_CE_1cent': 'float64',
+    'm_core_CE_10cent': 'float64',
+    'm_core_CE_30cent': 'float64',
+    'm_core_CE_pure_He_star_10cent': 'float64',
+    'r_core_CE_1cent': 'float64',
+    'r_core_CE_10cent': 'float64',
+    'r_core_CE_30cent': 'float64',
+    'r_core_CE_pure_He_star_10cent': 'float64',
 }
 
 
-- 
2.43.0


From 4e667fb6087249801e326ef41efbcd6407207f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:38 +0000
Subject: [PATCH 38/72] fix: binaries saved with the legacy name of the natal
 kicks can be loaded

---
 posydon/popsyn/binarypopulation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 243d162..fecb2a5 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -864,14 +864,17 @@ class PopulationManager:
                         extra_columns=self.kwargs.get('extra_columns', [])
                 )
                 for name in bin_scalars:
-                    val = getattr(oline_bin, name)
-                    setattr(binary, name, val)
+                    if hasattr(oline_bin, name):    # only those stored
+                        val = getattr(oline_bin, name)
+                        setattr(binary, name, val)
                 for name in s1_scalars:
-                    val = getattr(oline_bin.star_1, name)
-                    setattr(binary.star_1, name, val)
+                    if hasattr(oline_bin.star_1, name):    # only those stored
+                        val = getattr(oline_bin.star_1, name)
+                        setattr(binary.star_1, name, val)
                 for name in s2_scalars:
-                    val = getattr(oline_bin.star_2, name)
-                    setattr(binary.star_2, name, val)
+                    if hasattr(oline_bin.star_2, name):    # only those stored
+                        val = getattr(oline_bin.star_2, name)
+                        setattr(binary.star_2, name, val)
 
                 del oline_bin
 
-- 
2.43.0


From d99b12fdc25d20902c6ea0fa8519dfe5995592a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:53 +0000
Subject: [PATCH 39/72] fix: grids do not depend on the order in which files
 are listed

---
 posydon/grids/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/grids/io.py b/posydon/grids/io.py
index 80e0565..260533f 100644
--- a/posydon/grids/io.py
+++ b/posydon/grids/io.py
@@ -137,7 +137,8 @@ class RunReader:
                 return fullpath_gz
             return None
 
-        files = os.listdir(self.path)
+        # reversed order to prefer uncompressed files, if both exist
+        files = sorted(os.listdir(self.path), reverse=True)
         for file in files:
             fullpath = os.path.join(self.path, file)
             if file in ["binary_history.data", "binary_history.data.gz"]:
@@ -279,7 +280,8 @@ class GridReader:
             search_string_gz = search_string + ".gz"
             out_files_txt = glob.glob(search_string, recursive=True)
             out_files_gz = glob.glob(search_string_gz, recursive=True)
-            out_files = list(out_files_txt) + list(out_files_gz)
+            # sort to be independent of the order given by the file system
+            out_files = sorted(list(out_files_txt) + list(out_files_gz))
             for out_file in out_files:
                 fullpath = os.path.dirname(os.path.abspath(out_file))
                 params_part = initial_values_from_dirname(fullpath)
-- 
2.43.0


From 86a54d526d534c3fee1afd1635a1ddccbcdc01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:53 +0000
Subject: [PATCH 40/72] fix: the columns of a grid are inferred from readable
 runs

---
 posydon/grids/io.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/posydon/grids/io.py b/posydon/grids/io.py
index 260533f..adb8310 100644
--- a/posydon/grids/io.py
+++ b/posydon/grids/io.py
@@ -340,22 +340,19 @@ class GridReader:
             `history2` are prefixed with `star1_` and `star2_` respectively.
 
         """
-        BH_from, H1_from, H2_from = None, None, None
+        BH, H1, H2 = None, None, None
 
+        # use the first run with readable data for each of the tables
         for run in self.runs:
-            if BH_from is None:
-                BH_from = run.binary_history_path
-            if H1_from is None:
-                H1_from = run.history1_path
-            if H2_from is None:
-                H2_from = run.history2_path
-            if not (BH_from is None or H1_from is None or H2_from is None):
+            if BH is None:
+                BH = read_MESA_data_file(run.binary_history_path, BH_cols)
+            if H1 is None:
+                H1 = read_MESA_data_file(run.history1_path, H1_cols)
+            if H2 is None:
+                H2 = read_MESA_data_file(run.history2_path, H2_cols)
+            if not (BH is None or H1 is None or H2 is None):
                 break
 
-        BH, H1, H2 = [read_MESA_data_file(path, columns)
-                      for path, columns in zip([BH_from, H1_from, H2_from],
-                                               [BH_cols, H1_cols, H2_cols])]
-
         BH_names = [] if BH is None else list(BH.dtype.names)
         H1_names = [] if H1 is None else list(H1.dtype.names)
         H2_names = [] if H2 is None else list(H2.dtype.names)
-- 
2.43.0


From 50c4297a02f12ce87f6df815ee4a2c963ede1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:53 +0000
Subject: [PATCH 41/72] fix: MESA files without column names are skipped

---
 posydon/utils/gridutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/posydon/utils/gridutils.py b/posydon/utils/gridutils.py
index b78ff1a..829849d 100644
--- a/posydon/utils/gridutils.py
+++ b/posydon/utils/gridutils.py
@@ -99,9 +99,12 @@ def read_MESA_data_file(path, columns):
         return None
     elif os.path.exists(path):
         try:
-            return np.atleast_1d(np.genfromtxt(path, skip_header=5, names=True,
+            data = np.atleast_1d(np.genfromtxt(path, skip_header=5, names=True,
                                                usecols=columns,
                                                invalid_raise=False))
+            if data.dtype.names is None:
+                raise ValueError("No column names found.")
+            return data
         except:
             Pwarn("Problems with reading file "+path, "MissingFilesWarning")
             return None
-- 
2.43.0


From d3c9eed0ca1f35284427b4aff5e3f38aaafcdadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:53 +0000
Subject: [PATCH 42/72] fix: a truncated MESA output does not stop the grid
 creation

---
 posydon/grids/termination_flags.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/termination_flags.py b/posydon/grids/termination_flags.py
index 1a1db4f..ae993c3 100644
--- a/posydon/grids/termination_flags.py
+++ b/posydon/grids/termination_flags.py
@@ -68,9 +68,16 @@ def get_flag_from_MESA_output(MESA_log_path):
     """
     termination_code = ''
     if MESA_log_path is not None and os.path.isfile(MESA_log_path):
+        log_lines = []
         if MESA_log_path.endswith(".gz"):
             with gzip.open(MESA_log_path, "rt", errors='ignore') as log_file:
-                log_lines = log_file.readlines()
+                try:
+                    for line in log_file:
+                        log_lines.append(line)
+                except Exception:
+                    # e.g. truncated file: use the readable part
+                    Pwarn("Problems with reading file "+MESA_log_path,
+                          "MissingFilesWarning")
         else:
             with open(MESA_log_path, "r", errors='ignore') as log_file:
                 log_lines = log_file.readlines()
-- 
2.43.0


From e27f867789b0b9dcaf265ada8115a7376a4004c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:00 +0000
Subject: [PATCH 43/72] fix: missing grid point data do not stop the grid
 creation

---
 posydon/grids/psygrid.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 84f356b..9feb99a 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -468,6 +468,28 @@ class PSyGrid:
         if len(self.eeps) == 0:
             self.eeps = None
 
+    def _read_grid_point(self, path):
+        """Read the initial values of a run from its grid point data.
+
+        Parameters
+        ----------
+        path : str
+            Path of the MESA run.
+
+        Returns
+        -------
+        dict
+            The initial values, which is empty if they are missing or damaged.
+
+        """
+        try:
+            grid_point = read_initial_values(path)
+        except Exception:
+            Pwarn("Problems with reading the grid point data in "+path,
+                  "MissingFilesWarning")
+            grid_point = None
+        return {} if grid_point is None else grid_point
+
     def _say(self, something):
         """Print text if verbose is True.
 
@@ -1181,7 +1203,7 @@ class PSyGrid:
                     self.initial_values[i][colname] = np.nan
 
                 # now update the initial values from the grid point data
-                grid_point = read_initial_values(run.path)
+                grid_point = self._read_grid_point(run.path)
                 for colname, value in grid_point.items():
                     if colname in self.initial_values.dtype.names:
                         self.initial_values[i][colname] = value
@@ -1269,7 +1291,7 @@ class PSyGrid:
                 flag1 = self.final_values[i]["termination_flag_1"]
                 if flag1 != "Terminate because of overflowing initial model":
                     #use grid point data (if existing) to detect initial RLO
-                    grid_point = read_initial_values(grid.runs[i].path)
+                    grid_point = self._read_grid_point(grid.runs[i].path)
                     if "star_1_mass" in grid_point:
                         mass1 = grid_point["star_1_mass"]
                     else:
-- 
2.43.0


From a6534a870dc34971c1140b1d753a54ccb81baf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:00 +0000
Subject: [PATCH 44/72] fix: runs without history before the requested end are
 skipped

---
 posydon/grids/psygrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 9feb99a..f5d20c1 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -996,6 +996,13 @@ class PSyGrid:
                                history1, history2, THRESHOLD_CENTRAL_ABUNDANCE,
                                THRESHOLD_CENTRAL_ABUNDANCE_LOOSE_C)
                     binary_history, history1, history2, newTF1 = kept
+                    if binary_history is not None and len(binary_history) == 0:
+                        ignore.reason = "ignored_scrubbed_history"
+                        Pwarn("Ignored MESA run because of no history before"
+                              " central helium depletion in: {}\n".format(
+                                  run.path), "InappropriateValueWarning")
+                        if not initial_RLO_fix:
+                            continue
 
                 # check whether start at RLO is requested, and chop the history
                 if start_at_RLO:
-- 
2.43.0


From 3033788053f8c860d8c9f867d8328888c45a039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:00 +0000
Subject: [PATCH 45/72] fix: empty profiles do not stop the grid creation

---
 posydon/grids/psygrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index f5d20c1..08742b6 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -2471,7 +2471,7 @@ def downsample_profile(profile, params):
     max_err, exclude = params["profile_DS_error"], params["profile_DS_exclude"]
     max_interval = params["profile_DS_interval"]
 
-    if max_err is None or profile is None:
+    if max_err is None or profile is None or len(profile) == 0:
         return profile
 
     # select the data based on which the downsampling will be computed
-- 
2.43.0


From 830f0c4b6bb2fad450081e049434dd1572295426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:55 +0000
Subject: [PATCH 46/72] fix: a failed update of the final values does not
 destroy the stored ones

---
 posydon/grids/psygrid.py | 56 ++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 08742b6..f0d9ff9 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1433,18 +1433,21 @@ class PSyGrid:
             raise TypeError("The final values have to be a ndarray or LazyHDF5 object."
                             "Instead, it is {}.".format(type(self.final_values)))
 
-        if colname in self.final_values.dtype.names:
-            if overwrite:
-                self.final_values[colname] = arr
-            else:
+        # work on a copy, hence the grid stays as it is if anything fails
+        final_values = np.array(self.final_values)
+        if colname in final_values.dtype.names:
+            if not overwrite:
                 raise POSYDONError("Column `{}` already exists in final "
                                    "values.".format(colname))
         else:
-            self.final_values = add_field(self.final_values,
-                                          [(colname, arr.dtype.descr[0][1])])
-            self.final_values[colname] = arr
+            final_values = add_field(final_values,
+                                     [(colname, arr.dtype.descr[0][1])])
+        final_values[colname] = arr
 
-        self.update_final_values()
+        self._store_final_values(final_values)
+        if isinstance(self.final_values, LazyHDF5):
+            final_values = LazyHDF5(final_values)
+        self.final_values = final_values
 
     def update_final_values(self):
         """Update the final values in the HDF5 file."""
@@ -1452,20 +1455,41 @@ class PSyGrid:
             raise TypeError("The final values have to be a ndarray or LazyHDF5 object."
                             "Instead, it is {}.".format(type(self.final_values)))
 
-        self._reload_hdf5_file(writeable=True)
+        self._store_final_values(np.asarray(self.final_values))
+
+    def _store_final_values(self, final_values):
+        """Replace the final values in the HDF5 file.
+
+        The previous final values are removed from the file only after the new
+        ones got written.
+
+        Parameters
+        ----------
+        final_values : ndarray
+            The final values to store.
+
+        """
         new_dtype = []
-        for dtype in self.final_values.dtype.descr:
+        for dtype in final_values.dtype.descr:
             if (dtype[0].startswith("termination_flag") or
                 (dtype[0] == "mt_history") or ("_type" in dtype[0]) or
                 ("_state" in dtype[0]) or ("_class" in dtype[0])):
                 dtype = (dtype[0], H5_REC_STR_DTYPE.replace("U", "S"))
             new_dtype.append(dtype)
-        final_values = self.final_values.astype(new_dtype)
-        if "/grid/final_values" in self.hdf5: # may delete old dataset
-            del self.hdf5["/grid/final_values"]
-        self.hdf5.create_dataset("/grid/final_values", data=final_values,
-                                 **self.compression_args)
-        self._reload_hdf5_file(writeable=False)
+        final_values = final_values.astype(new_dtype)
+
+        self._reload_hdf5_file(writeable=True)
+        try:
+            if "/grid/new_final_values" in self.hdf5: # left by a failure
+                del self.hdf5["/grid/new_final_values"]
+            self.hdf5.create_dataset("/grid/new_final_values",
+                                     data=final_values,
+                                     **self.compression_args)
+            if "/grid/final_values" in self.hdf5: # may delete old dataset
+                del self.hdf5["/grid/final_values"]
+            self.hdf5.move("/grid/new_final_values", "/grid/final_values")
+        finally:
+            self._reload_hdf5_file(writeable=False)
 
     def _reload_hdf5_file(self, writeable=False):
         """Close and reopen the hdf5 file.
-- 
2.43.0


From d01b5ec2eecb70624ae61c597cbe574f3c60ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:31 +0000
Subject: [PATCH 47/72] fix: lazily loaded grids stay readable after the file
 was reopened

---
 posydon/grids/lazy_hdf.py | 5 +++++
 posydon/grids/psygrid.py  | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/posydon/grids/lazy_hdf.py b/posydon/grids/lazy_hdf.py
index b06ec19..72aa934 100644
--- a/posydon/grids/lazy_hdf.py
+++ b/posydon/grids/lazy_hdf.py
@@ -66,6 +66,11 @@ class LazyHDF5:
         self._dataset = arr
 
 
+    def rebind(self, dataset):
+        """Replace the dataset of a reopened file unless data got in memory."""
+        if not isinstance(self._dataset, np.ndarray):
+            self._dataset = dataset
+
     def __array__(self):
         data = self._dataset[()]
         if self._dtype_set is not None:
diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index f0d9ff9..ae39dff 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1509,6 +1509,15 @@ class PSyGrid:
         mode = "a" if writeable else "r"
         self.hdf5 = h5py.File(self.filepath, mode, **driver_args)
 
+        # lazily loaded datasets belong to the file, which got closed above
+        lazy_data = {"/grid/initial_values": self.initial_values,
+                     "/grid/final_values": self.final_values}
+        for model_name, data in self._SN_values.items():
+            lazy_data["/grid/SN_MODELS/{}".format(model_name)] = data
+        for key, data in lazy_data.items():
+            if isinstance(data, LazyHDF5) and key in self.hdf5:
+                data.rebind(self.hdf5[key])
+
     def load(self, filepath=None, lazy=True):
         """Load up a previously created PSyGrid object from an HDF5 file.
 
-- 
2.43.0


From 640a14713ecb8206375e0c03390e2f90526ba41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:14 +0000
Subject: [PATCH 48/72] fix: joining grids with post-processed text columns,
 slim grids and a single path

---
 posydon/grids/psygrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index ae39dff..4ed7ed4 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -2575,6 +2575,8 @@ def join_grids(input_paths, output_path,
     newconfig = None
     initial_dtype = None
     final_dtype = None
+    if isinstance(input_paths, str):
+        input_paths = [input_paths]
     for input_path in input_paths:
         say("Checking {}".format(input_path))
         say("    opening and getting configuration...")
@@ -2630,7 +2632,7 @@ def join_grids(input_paths, output_path,
             if params_from_path in initial_params:
                 n_substitutions += 1
 
-            if (grid[run_index].final_values["termination_flag_1"]
+            if (grid.final_values[run_index]["termination_flag_1"]
                     == "ignored_no_RLO"):
                 if params_from_path in initial_params:
                     del initial_params[params_from_path]
@@ -2745,8 +2747,8 @@ def join_grids(input_paths, output_path,
         new_final_dtype = []
         for dtype in final_dtype.descr:
             if (dtype[0].startswith("termination_flag") or
-                ("SN_type" in dtype[0]) or ("_state" in dtype[0]) or
-                ("_class" in dtype[0])):
+                (dtype[0] == "mt_history") or ("_type" in dtype[0]) or
+                ("_state" in dtype[0]) or ("_class" in dtype[0])):
                 dtype = (dtype[0], H5_REC_STR_DTYPE.replace("U", "S"))
             new_final_dtype.append(dtype)
         new_final_values = np.array(new_final_values, dtype=new_final_dtype)
-- 
2.43.0


From 3c71cb1cb0608bf7a56e56961aeb4987918b022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:46 +0000
Subject: [PATCH 49/72] fix: failed post-processing of a grid does not destroy
 the stored values

---
 posydon/grids/post_processing.py | 67 +++++++++++++++++---------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/posydon/grids/post_processing.py b/posydon/grids/post_processing.py
index 87ed6d4..e68b9b6 100644
--- a/posydon/grids/post_processing.py
+++ b/posydon/grids/post_processing.py
@@ -532,10 +532,6 @@ def add_post_processed_quantities(grid, MESA_dirs_EXTRA_COLUMNS,
     # get the final_values dataset
     final_values = np.array(grid.final_values)
 
-    # Open the grid to write to
-    grid._reload_hdf5_file(writeable=True)
-    hdf5_file = grid.hdf5
-
     str_dtype = np.dtype(H5_REC_STR_DTYPE.replace('U', 'S'))
 
     # Convert the dictionary of lists to numpy arrays with correct dtypes.
@@ -579,33 +575,42 @@ def add_post_processed_quantities(grid, MESA_dirs_EXTRA_COLUMNS,
     else:
         out = final_values
 
-    if 'final_values' in hdf5_file['grid']:
-        del hdf5_file['grid/final_values']
-
-    hdf5_file.create_dataset('grid/final_values', data=out,
-                             **grid.compression_args)
+    # Open the grid to write to
+    grid._reload_hdf5_file(writeable=True)
+    hdf5_file = grid.hdf5
+    try:
+        # The old data get removed only after the new ones are written.
+        for key in ['new_final_values', 'new_SN_MODELS']:
+            if key in hdf5_file['grid']: # left by a failure
+                del hdf5_file['grid'][key]
 
-    # Write each SN model into /grid/SN_MODELS/{SN_MODEL_NAME}.
-    # Rerunning post-processing recreates the group cleanly.
-    if 'SN_MODELS' in hdf5_file['grid']:
-        del hdf5_file['grid/SN_MODELS']
+        hdf5_file.create_dataset('grid/new_final_values', data=out,
+                                 **grid.compression_args)
 
-    SN_MODELS_group = hdf5_file['grid'].create_group('SN_MODELS')
+        # Write each SN model into /grid/SN_MODELS/{SN_MODEL_NAME}.
+        # Rerunning post-processing recreates the group cleanly.
+        SN_MODELS_group = hdf5_file['grid'].create_group('new_SN_MODELS')
 
-    for SN_MODEL_NAME in SN_MODELS.keys():
-        sn_cols = [col for col in SN_COLUMNS if f'{SN_MODEL_NAME}_' in col]
-        if not sn_cols:
-            continue
-        short_names = [col.replace(f'{SN_MODEL_NAME}_', '') for col in sn_cols]
-        sn_data = np.rec.fromarrays(
-            [EXTRA_COLUMNS[col] for col in sn_cols],
-            names=short_names,
-        )
-        SN_MODELS_group.create_dataset(SN_MODEL_NAME, data=sn_data,
-                                       **grid.compression_args)
-        for key, value in get_SN_MODEL(SN_MODEL_NAME).items():
-            SN_MODELS_group[SN_MODEL_NAME].attrs[key] = value
-
-    # close the file
-    grid._reload_hdf5_file(writeable=False)
-    grid.close()
+        for SN_MODEL_NAME in SN_MODELS.keys():
+            sn_cols = [col for col in SN_COLUMNS if f'{SN_MODEL_NAME}_' in col]
+            if not sn_cols:
+                continue
+            short_names = [col.replace(f'{SN_MODEL_NAME}_', '')
+                           for col in sn_cols]
+            sn_data = np.rec.fromarrays(
+                [EXTRA_COLUMNS[col] for col in sn_cols],
+                names=short_names,
+            )
+            SN_MODELS_group.create_dataset(SN_MODEL_NAME, data=sn_data,
+                                           **grid.compression_args)
+            for key, value in get_SN_MODEL(SN_MODEL_NAME).items():
+                SN_MODELS_group[SN_MODEL_NAME].attrs[key] = value
+
+        for key in ['final_values', 'SN_MODELS']:
+            if key in hdf5_file['grid']:
+                del hdf5_file['grid'][key]
+            hdf5_file.move(f'grid/new_{key}', f'grid/{key}')
+    finally:
+        # close the file
+        grid._reload_hdf5_file(writeable=False)
+        grid.close()
-- 
2.43.0


From 11640c80fa47af28a21fab85e6462dcd0db43797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:13 +0000
Subject: [PATCH 50/72] fix: post-processed columns with missing values are
 refused

---
 posydon/grids/post_processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/posydon/grids/post_processing.py b/posydon/grids/post_processing.py
index e68b9b6..9ed0fd5 100644
--- a/posydon/grids/post_processing.py
+++ b/posydon/grids/post_processing.py
@@ -532,6 +532,13 @@ def add_post_processed_quantities(grid, MESA_dirs_EXTRA_COLUMNS,
     # get the final_values dataset
     final_values = np.array(grid.final_values)
 
+    # check that no run is left without a value
+    for col in OTHER_COLUMNS:
+        if len(EXTRA_COLUMNS[col]) < len(final_values):
+            raise ValueError(f'EXTRA_COLUMNS has {len(EXTRA_COLUMNS[col])} '
+                             f'values of {col}, but the grid has '
+                             f'{len(final_values)} runs!')
+
     str_dtype = np.dtype(H5_REC_STR_DTYPE.replace('U', 'S'))
 
     # Convert the dictionary of lists to numpy arrays with correct dtypes.
-- 
2.43.0


From e73ca9a4f6444687c32bb08a1fb86f3191f4d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:29 +0000
Subject: [PATCH 51/72] fix: loading another grid closes the file of the
 previous one

---
 posydon/grids/psygrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 4ed7ed4..c449054 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1544,6 +1544,7 @@ class PSyGrid:
         driver_args = {} if "%d" not in self.filepath else {
             "driver": "family", "memb_size": HDF5_MEMBER_SIZE}
 
+        self.close()    # the datasets of a grid loaded before
         self.hdf5 = h5py.File(self.filepath, "r", **driver_args)
         hdf5 = self.hdf5
         # load initial/final_values
-- 
2.43.0


From f85a43925fb5f8159a7f606e3e65593357d3b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:20 +0000
Subject: [PATCH 52/72] fix: columns added to a grid after its post-processing
 do not undo the latter

---
 posydon/grids/post_processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/post_processing.py b/posydon/grids/post_processing.py
index 9ed0fd5..2c6729b 100644
--- a/posydon/grids/post_processing.py
+++ b/posydon/grids/post_processing.py
@@ -617,7 +617,9 @@ def add_post_processed_quantities(grid, MESA_dirs_EXTRA_COLUMNS,
             if key in hdf5_file['grid']:
                 del hdf5_file['grid'][key]
             hdf5_file.move(f'grid/new_{key}', f'grid/{key}')
+        # get the new values into the grid object, too
+        if len(out) == len(grid.MESA_dirs):
+            grid.load(lazy=not isinstance(grid.final_values, np.ndarray))
     finally:
         # close the file
-        grid._reload_hdf5_file(writeable=False)
         grid.close()
-- 
2.43.0


From 9dd77b3e5e0c3b346b47883720094013aa8afb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:40 +0000
Subject: [PATCH 53/72] fix: text of an added grid column is not truncated when
 replaced

---
 posydon/grids/psygrid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index c449054..f253263 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1440,8 +1440,10 @@ class PSyGrid:
                 raise POSYDONError("Column `{}` already exists in final "
                                    "values.".format(colname))
         else:
-            final_values = add_field(final_values,
-                                     [(colname, arr.dtype.descr[0][1])])
+            dtype = arr.dtype.descr[0][1]
+            if arr.dtype.kind == "U":   # with space for longer text
+                dtype = H5_REC_STR_DTYPE.replace("S", "U")
+            final_values = add_field(final_values, [(colname, dtype)])
         final_values[colname] = arr
 
         self._store_final_values(final_values)
-- 
2.43.0


From 869a0fdef822df4d32d7b0676ad961a28cd70300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 54/72] fix: posydon-run-grid waits for MESA under every POSIX
 shell

"cmd &> file" is a bash construct: sh (e.g. dash) starts cmd in the background
and truncates file, so the run was cleaned up and moved while MESA was running.
---
 bin/posydon-run-grid | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index fecdf11..e5bd13e 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -488,7 +488,7 @@ def run_mesa(mesa_executable, work_dir, final_dir, **kwargs):
         child_ID = 0.1
     if child_ID>0:
         #parent process: run MESA and do the clean up in the working directory
-        os.system("{0} &> {1}".format(mesa_executable, os.path.join(work_dir, outfile_name)))
+        os.system("{0} > {1} 2>&1".format(mesa_executable, os.path.join(work_dir, outfile_name)))
 
         if not keep_profiles:
             if os.path.exists(os.path.join(work_dir, 'LOGS')):
-- 
2.43.0


From 6124b71a21dd84a25f6ed889b9d866506c40e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 55/72] fix: the output is moved only after the safety copier
 is gone

---
 bin/posydon-run-grid | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index e5bd13e..c5fe864 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -508,6 +508,7 @@ def run_mesa(mesa_executable, work_dir, final_dir, **kwargs):
         if child_ID>=1:
             #kill child process, because it is no longer needed
             os.kill(child_ID, 9)
+            os.waitpid(child_ID, 0)
         move_mesa_output(work_dir, final_dir, keep_work_dir)
     elif child_ID==0:
         now = int(time.time())
-- 
2.43.0


From 2c3a29e20a78c0c3ef3920d396c157ad1ed6db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 56/72] fix: safety copy before the job end in the star
 formation steps, too

---
 bin/posydon-run-grid | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index c5fe864..7738bed 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -756,7 +756,8 @@ def run_grid_point(grid, star1_formation, star2_formation,
             elif index == 1:
                 create_star_formation(grid_param_dict['m1'], work_dir, inlist_step, grid_param_dict['initial_z'], True)
             run_mesa(args.mesa_star1_executable, work_dir, final_dir, keep_work_dir=True,
-                     outfile_name='out_star1_formation_step{0}.txt'.format(index))
+                     outfile_name='out_star1_formation_step{0}.txt'.format(index),
+                     job_end=args.job_end, job_before_end=args.job_before_end)
 
     # are we first generating a model before running binary for the second star?
     if star2_formation:
@@ -770,7 +771,8 @@ def run_grid_point(grid, star1_formation, star2_formation,
             elif index == 1:
                 create_star_formation(grid_param_dict['m2'], work_dir, inlist_step, grid_param_dict['initial_z'], True)
             run_mesa(args.mesa_star2_executable, work_dir, final_dir, keep_work_dir=True,
-                     outfile_name='out_star2_formation_step{0}.txt'.format(index))
+                     outfile_name='out_star2_formation_step{0}.txt'.format(index),
+                     job_end=args.job_end, job_before_end=args.job_before_end)
 
     # now we can create the grid specific binary inlists and run the binary executable
     create_binary_inlists(binary_controls, binary_job,
-- 
2.43.0


From 604ff3bd21e191013341842b0bcfb0454fc98e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:56 +0000
Subject: [PATCH 57/72] fix: appending an export to a file without history
 lengths

The lengths of the exported systems alone were stored as the history
lengths of the whole file.
---
 posydon/popsyn/synthetic_population.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index fc0e6d5..599d2a5 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1322,6 +1322,11 @@ class Population(PopulationIO):
             if "/history_lengths" in store.keys() and self.verbose:  # pragma: no cover
                 print("history_lengths in file. Appending to file")
 
+            # a file, which does not have the history lengths yet, gets the
+            # ones of all its systems when it is opened as a population
+            write_lengths = ("/history" not in store.keys()
+                             or "/history_lengths" in store.keys())
+
             # TODO: I need to shift the indices of the binaries or should I reindex them?
             # since I'm storing the information, reindexing them should be fine.
 
@@ -1432,7 +1437,7 @@ class Population(PopulationIO):
 
             # write the history lengths
             for i in tqdm(
-                range(0, len(selection), self.chunksize),
+                range(0, len(selection) if write_lengths else 0, self.chunksize),
                 total=len(selection) // self.chunksize,
                 disable=not self.verbose,
             ):
-- 
2.43.0


From 2acec6e60ba85a23235f885c7cfa220fd6f22d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 58/72] fix: pipeline tasks that create the same folder at the
 same time

---
 bin/posydon-run-pipeline   | 10 +++++-----
 posydon/grids/psygrid.py   |  2 +-
 posydon/utils/gridutils.py |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bin/posydon-run-pipeline b/bin/posydon-run-pipeline
index 9666217..5321ca0 100644
--- a/bin/posydon-run-pipeline
+++ b/bin/posydon-run-pipeline
@@ -353,7 +353,7 @@ def train_interpolators(i, path_to_csv_file, verbose=False):
     # check interpolation_objects directory exists
     interp_path = os.path.dirname(interpolator_path)
     if not os.path.isdir(interp_path):
-        os.makedirs(interp_path)
+        os.makedirs(interp_path, exist_ok=True)
 
     # load grid
     grid = PSyGrid(verbose=verbose)
@@ -519,7 +519,7 @@ def train_profile_interpolators(i, path_to_csv_file, verbose=False):
     # check interpolation_objects directory exists
     interp_path = os.path.dirname(profile_interpolator_path)
     if not os.path.isdir(interp_path):
-        os.makedirs(interp_path)
+        os.makedirs(interp_path, exist_ok=True)
 
     train_second_star = 'CO' not in grid_type
     # load grid profiles
@@ -640,7 +640,7 @@ def copy_ini_file(grid_type, rerun_metallicity, rerun_type, destination,
 
     # check that the 'destination' exists
     if not os.path.exists(destination):
-        os.makedirs(destination)
+        os.makedirs(destination, exist_ok=True)
     # copy the default ini file to directory
     if cluster in ['quest','yggdrasil']:
         if os.path.isdir(PATH_TO_POSYDON):
@@ -1130,7 +1130,7 @@ def plot_grid(i, path_to_csv_file, verbose=False):
     # check that plots/ directories exist
     for dir_ in check_dirs:
         if not os.path.isdir(dir_):
-            os.makedirs(dir_)
+            os.makedirs(dir_, exist_ok=True)
 
     # load grid
     grid = PSyGrid(verbose=verbose)
@@ -1219,7 +1219,7 @@ def plot_grid(i, path_to_csv_file, verbose=False):
             # multipage plots don't need the lowest directory level
             dir_ = os.path.dirname(dir_)
         if not os.path.isdir(dir_):
-            os.makedirs(dir_)
+            os.makedirs(dir_, exist_ok=True)
 
         if ('CO' in grid_type):
             # skip plotting CO properties
diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index f253263..b03ebbb 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1888,7 +1888,7 @@ class PSyGrid:
         """
         # check that the 'path_to_file' exists
         if not os.path.exists(path_to_file):
-            os.makedirs(path_to_file)
+            os.makedirs(path_to_file, exist_ok=True)
 
         # check 'runs_to_rerun' has a valid type
         if isinstance(runs_to_rerun, list):
diff --git a/posydon/utils/gridutils.py b/posydon/utils/gridutils.py
index 829849d..7dc3f28 100644
--- a/posydon/utils/gridutils.py
+++ b/posydon/utils/gridutils.py
@@ -510,5 +510,5 @@ def get_new_grid_name(path, compression, create_missing_directories=False):
     if create_missing_directories:
         # check that LITE/ or ORIGINAL/ directory exists
         if not os.path.isdir(output_path):
-            os.makedirs(output_path)
+            os.makedirs(output_path, exist_ok=True)
     return grid_output
-- 
2.43.0


From e769c0c09b6aba0f6dd9ea2f498b5450674755e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 59/72] fix: the logs are removed only after they were combined

---
 bin/posydon-setup-pipeline | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index d6eeac5..7233bce 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -1323,9 +1323,10 @@ def create_cleanup_slurm_job(job_name,
                                                        step_name=step_name)
                 new_log_file_name = old_log_file_names.replace("_%4a", "s")
                 old_log_file_names = old_log_file_names.replace("_%4a", "_*")
+                # (remove the individual ones only if they got combined)
                 f.write(f"\ncat {path_to_log_files}/{old_log_file_names} >"
                         f" {path_to_log_files}/{new_log_file_name}")
-                f.write(f"\nrm {path_to_log_files}/{old_log_file_names}")
+                f.write(f" && rm {path_to_log_files}/{old_log_file_names}")
             # the overall cleanup of the pipeline
             if (job_name == 'pipeline'):
                 if GROUP is not None:
-- 
2.43.0


From f3266c409f06b6ba6da22ac5a2d1ed42710ef5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 60/72] fix: a processed grid gets its name only when it is
 complete

---
 bin/posydon-run-pipeline | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bin/posydon-run-pipeline b/bin/posydon-run-pipeline
index 5321ca0..ec1a92d 100644
--- a/bin/posydon-run-pipeline
+++ b/bin/posydon-run-pipeline
@@ -288,19 +288,21 @@ def calculate_extra_values(i, path_to_csv_file, verbose=False):
                                               verbose=verbose)
 
     # post processed quantities are appended to the grid object, hence
-    # we create a copy of it and append back to it
+    # we create a copy of it and append back to it; the copy gets its final
+    # name, when it is complete
     if os.path.exists(processed_grid_path):
-        Pwarn('Post processed grid file already exists, removing it.',
+        Pwarn('Post processed grid file already exists, replacing it.',
               "OverwriteWarning")
-        os.remove(processed_grid_path)
-    shutil.copyfile(grid_path, processed_grid_path)
+    tmp_processed_grid_path = processed_grid_path + '.tmp'
+    shutil.copyfile(grid_path, tmp_processed_grid_path)
 
     # load processed grid and append values
-    grid = PSyGrid(processed_grid_path, lazy=False)
+    grid = PSyGrid(tmp_processed_grid_path, lazy=False)
     add_post_processed_quantities(grid, MESA_dirs_EXTRA_COLUMNS, EXTRA_COLUMNS)
+    grid.close()
+    os.replace(tmp_processed_grid_path, processed_grid_path)
     if verbose:
         print(f'Added processed quantities to grid: {processed_grid_path}')
-    grid.close()
 
 
 def train_interpolators(i, path_to_csv_file, verbose=False):
-- 
2.43.0


From 7120b7f50f6651018b8a5fdadc7bc9cd4ba5fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 61/72] fix: folder for the logs of plots and checks of an
 inactive step

---
 bin/posydon-setup-pipeline | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index 7233bce..6faf509 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -509,7 +509,11 @@ class PostProcessingPipeline:
             os.makedirs(logs_path)
         # create sub directories for each step
         for action, step_number in ACTION_TO_STEP_NUM.items():
-            if ((action in setup_kwargs.keys()) and setup_kwargs[action]):
+            # the sub steps write to the logs of their step, too
+            step_kwargs = self.pipeline_kwargs.get(step_number, {})
+            if (((action in setup_kwargs.keys()) and setup_kwargs[action]) or
+                any(step_kwargs.get(sub_step)
+                    for sub_step in SUB_STEPS_TO_EXTENSION)):
                 step_log_path = os.path.join(logs_path, step_number)
                 if not os.path.isdir(step_log_path):
                     os.makedirs(step_log_path)
-- 
2.43.0


From 2eb695015fe3246a2cb02d39d55e9cc53e643ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 62/72] fix: recognise the files of previous steps for any form
 of PATH_TO_GRIDS

---
 bin/posydon-setup-pipeline | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index 6faf509..5f9c55a 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -735,6 +735,8 @@ def create_csv(GRID_TYPES=[],
         raise NotADirectoryError(f"PATH_TO_GRIDS={PATH_TO_GRIDS} not found.")
     if not os.path.isdir(PATH):
         raise NotADirectoryError(f"PATH={PATH} not found.")
+    # use the same form of the paths as for the files created by the steps
+    PATH_TO_GRIDS = os.path.normpath(PATH_TO_GRIDS)
     # number of grid types
     N = len(GRID_TYPES)
     if ( N != len(METALLICITIES) or N != len(GRID_SLICES) or
-- 
2.43.0


From 32edc8932913eb770b02e3246e45544590012aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:55 +0000
Subject: [PATCH 63/72] fix: values that were not set are not loaded as NaN
 from a population file

They were stored as NaN; a natal kick of NaN counted as a given kick when the
binary was evolved again, and a missing interpolation class made the batches
of the population impossible to combine.
---
 posydon/popsyn/binarypopulation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index fecb2a5..ba860e5 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -863,18 +863,17 @@ class PopulationManager:
                         oneline.loc[[i]],
                         extra_columns=self.kwargs.get('extra_columns', [])
                 )
-                for name in bin_scalars:
-                    if hasattr(oline_bin, name):    # only those stored
-                        val = getattr(oline_bin, name)
-                        setattr(binary, name, val)
-                for name in s1_scalars:
-                    if hasattr(oline_bin.star_1, name):    # only those stored
-                        val = getattr(oline_bin.star_1, name)
-                        setattr(binary.star_1, name, val)
-                for name in s2_scalars:
-                    if hasattr(oline_bin.star_2, name):    # only those stored
-                        val = getattr(oline_bin.star_2, name)
-                        setattr(binary.star_2, name, val)
+                for obj, oline_obj, names in (
+                        (binary, oline_bin, bin_scalars),
+                        (binary.star_1, oline_bin.star_1, s1_scalars),
+                        (binary.star_2, oline_bin.star_2, s2_scalars)):
+                    for name in names:
+                        if hasattr(oline_obj, name):    # only those stored
+                            val = getattr(oline_obj, name)
+                            # values, which were not set, are stored as NaN
+                            if isinstance(val, float) and np.isnan(val):
+                                val = None
+                            setattr(obj, name, val)
 
                 del oline_bin
 
-- 
2.43.0


From fa6ff0096b2811b71d7d5c1ab0c3374cd1cca1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:55 +0000
Subject: [PATCH 64/72] fix: restored binaries of a population file start with
 one entry in the extra columns

They kept those of the former evolution, such that the step names and times of
the new one were shifted or the saved history had wrong rows.
---
 posydon/popsyn/binarypopulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index ba860e5..e2797d3 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -881,7 +881,12 @@ class PopulationManager:
             self.append(binary)
 
         if restore:
-            [b.restore() for b in binary_holder]
+            for b in binary_holder:
+                b.restore()
+                # the extra columns are part of the history, too
+                for name in self.kwargs.get('extra_columns', []):
+                    if isinstance(getattr(b, name, None), list):
+                        setattr(b, name, getattr(b, name)[:1])
 
         return binary_holder
 
-- 
2.43.0


From c84266a409649bf117db69fa3291e3072b37f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:17 +0000
Subject: [PATCH 65/72] fix: empty kick entries in a file of samples are not
 set

They were read as NaN, which counted as a given kick.
---
 posydon/popsyn/sample_from_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/sample_from_file.py b/posydon/popsyn/sample_from_file.py
index f186096..8587279 100644
--- a/posydon/popsyn/sample_from_file.py
+++ b/posydon/popsyn/sample_from_file.py
@@ -295,6 +295,10 @@ def get_kick_samples_from_file(**kwargs):
     kick_2_set = np.transpose(np.array([w_set, phi_set, theta_set,\
                                         mean_anomaly_set]))
 
+    # Empty entries are kicks, which are not set
+    kick_1_set = np.where(pd.isna(kick_1_set), None, kick_1_set)
+    kick_2_set = np.where(pd.isna(kick_2_set), None, kick_2_set)
+
     if 'number_of_binaries' in kwargs:
         number_of_binaries = kwargs['number_of_binaries']
         if 'index' in kwargs:
-- 
2.43.0


From eb55bea6aa9fd405b9a9bb68a2143dd9dc3cd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:41 +0000
Subject: [PATCH 66/72] fix: binaries loaded from a population file follow the
 option history_verbose

---
 posydon/popsyn/binarypopulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e2797d3..2bac1cd 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -849,6 +849,8 @@ class PopulationManager:
                 hist.loc[[i]],
                 extra_columns=self.kwargs.get('extra_columns', []))
 
+            binary.history_verbose = self.kwargs.get("history_verbose", False)
+
             # if the binary has failed
             if bool(oneline.loc[[i]]['FAILED'].values[-1]):
                 setattr(binary, 'event', 'FAILED')
-- 
2.43.0


From 4a14412a3cbb46b2e97fd12a9b6221a458f9e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:56 +0000
Subject: [PATCH 67/72] fix: equal-mass sampling keeps the primary masses of
 single stars

The secondary masses were the same array as the primary ones, hence replacing
the secondary masses of single stars by NaN removed their primary mass, too.
---
 posydon/popsyn/independent_sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..004ca18 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,8 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        # the masses of single stars get replaced for the secondaries only
+        secondary_masses = np.copy(primary_masses)
 
     return secondary_masses
 
-- 
2.43.0


From b5a9807c457bafcdcc765bb8ae437b3d22820f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:56 +0000
Subject: [PATCH 68/72] fix: each population samples Moe+17 from its own random
 stream

The generator of the joint distributions is kept for the whole process with the
random stream of the first population, thus samples of later ones depended on
what ran before and a reset of the random numbers had no effect on them.
---
 posydon/popsyn/independent_sample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 004ca18..182a079 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -55,6 +55,9 @@ def generate_independent_samples(orbital_scheme='period', **kwargs):
         # initialize generator for Moe+17-PsandQs
         if _gen_Moe_17_PsandQs is None:
             _gen_Moe_17_PsandQs = Moe_17_PsandQs(**kwargs)
+        # the distributions are shared by all populations of a process, while
+        # each population draws from its own random stream
+        _gen_Moe_17_PsandQs.RNG = kwargs.get('RNG', _gen_Moe_17_PsandQs.RNG)
         # use same defaults as generate_primary_masses
         M1_min = kwargs.get("primary_mass_min", 7)
         M1_max = kwargs.get("primary_mass_max", 120)
-- 
2.43.0


From 3a377a401ffc30f891383224f75e0c1b9a514942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 69/72] fix: processes of an MPI population run do not refuse
 or remove each other's directory

Each process checked (or, with overwrite=True, removed) the directory of a
population right before it evolved its share. A process getting there later than
another one found the directory, which the other had just created, and stopped or
deleted the other's results. Now all directories are checked first, only by one
process removed, and no process starts before all have checked.
---
 posydon/popsyn/synthetic_population.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 599d2a5..3e353b6 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -154,11 +154,19 @@ class PopulationRunner:
             # check if the temp directory exists
             if os.path.exists(pop.kwargs["temp_directory"]) and not overwrite:
                 raise FileExistsError(f"The {pop.kwargs['temp_directory']} directory already exists! Please remove it or rename it before running the population.")
-            elif os.path.exists(pop.kwargs["temp_directory"]) and overwrite:
+            elif (os.path.exists(pop.kwargs["temp_directory"]) and overwrite
+                  and (pop.comm is None or pop.comm.Get_rank() == 0)):
                 if self.verbose:  # pragma: no cover
                     print(f"Removing pre-existing {pop.kwargs['temp_directory']} directory...")
                 shutil.rmtree(pop.kwargs["temp_directory"])
 
+        # the processes of an MPI run share the temp directories, hence none of
+        # them may create one before all have done their checks
+        for pop in self.binary_populations:
+            if pop.comm is not None:  # pragma: no cover
+                pop.comm.Barrier()
+
+        for pop in self.binary_populations:
             pop.evolve(optimize_ram=True)
             if pop.comm is None:  # pragma: no cover
                 self.merge_parallel_runs(pop, overwrite)
-- 
2.43.0


From 04cc36a63123efe6401c00c513e515758853141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:26 +0000
Subject: [PATCH 70/72] fix: a grid of EEPs skips runs with an empty EEP file
 or without readable history header

---
 posydon/grids/psygrid.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index b03ebbb..d7a3ea0 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -758,6 +758,8 @@ class PSyGrid:
                           "`. Ignoring run.", "MissingFilesWarning")
                     continue
                 history1 = read_EEP_data_file(eep_path, H1_columns)
+                if history1 is not None and len(history1) == 0:
+                    history1 = None
             if self.config["He_core_fix"]:
                 history1 = fix_He_core(history1)
 
@@ -1101,11 +1103,18 @@ class PSyGrid:
             elif not binary_grid and not (start_at_RLO or ignore):
                 # use header to get initial mass in single-star grids
                 # this is compatible with `.gz` files
-                h1_header = np.genfromtxt(run.history1_path,
-                                          skip_header=1,
-                                          max_rows=1, names=True)
-                if "S1_star_mass" in dtype_initial_values.names:
+                try:
+                    h1_header = np.genfromtxt(run.history1_path,
+                                              skip_header=1,
+                                              max_rows=1, names=True)
                     init_mass_1 = h1_header["initial_m"]
+                except Exception:
+                    # with EEPs the MESA history may be missing or damaged
+                    Pwarn("Ignored MESA run because of missing history header"
+                          " in: {}\n".format(run.path), "MissingFilesWarning")
+                    ignore.reason = "corrupted_history1"
+                    continue
+                if "S1_star_mass" in dtype_initial_values.names:
                     initial_H1["star_mass"] = init_mass_1
                 else:
                     ignore.reason = "corrupted_history1"
-- 
2.43.0


From 2fd0a82df0d2ebe4c1b15a0d61e6f5ebd4183175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:24 +0000
Subject: [PATCH 71/72] fix: creating a split grid does not replace an existing
 one without being asked to

---
 posydon/grids/psygrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index d7a3ea0..68334ae 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -574,7 +574,8 @@ class PSyGrid:
         # Create the PSyGrid HDF5 file. Handle warnings according to `warn`.
 
         # if already exists, am I allowed to overwrite?
-        if not overwrite and os.path.exists(self.filepath):
+        # (a grid split into several files has no file with "%d" in its name)
+        if not overwrite and os.path.exists(self.filepath.replace("%d", "0")):
             raise FileExistsError("File {} already exists.".format(
                                   self.filepath))
 
-- 
2.43.0


From 9edbd07170f5fe6a5a969002870073e872588889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:56 +0000
Subject: [PATCH 72/72] fix: selecting runs to repeat by flag does not change
 the list given by the user

---
 posydon/grids/psygrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 68334ae..9cca0cb 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1902,7 +1902,7 @@ class PSyGrid:
 
         # check 'runs_to_rerun' has a valid type
         if isinstance(runs_to_rerun, list):
-            runs_to_rerun_list = runs_to_rerun
+            runs_to_rerun_list = runs_to_rerun.copy()
         elif runs_to_rerun is not None:
             try:
                 runs_to_rerun_list = list(runs_to_rerun)
-- 
2.43.0

