From 92c2bccbe92b5d284fe9af0f565add30e93a966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 01/24] fix: save a loaded analysis again (numpy scalars were
 rejected)

---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..4b9541e 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -368,11 +368,11 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
     :param my_dict: Dict to make datasets from.
     """
     for key, value in my_dict.items():
-        if isinstance(value, (np.ndarray, int, float, str, bytes)):
+        if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
             for i, d in enumerate(value):
-                if isinstance(d, (np.ndarray, int, float, str, bytes)):
+                if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
-- 
2.43.0


From 475fe8db8ba853edabbda2f1432c3f5a03319d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 02/24] fix: replace the extension of the file name, not of a
 directory in its path

---
 kinisi/analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 4b9541e..edaa4f1 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,7 +37,7 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
@@ -57,7 +58,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From bca7d3c82aab7777a3049ccdb66f09f460d431a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 03/24] fix: a failed or concurrent save leaves no incomplete
 file and overwrites none

---
 kinisi/analyzer.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index edaa4f1..6946c70 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,8 +6,10 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
-from os.path import splitext
+import os
+from os.path import exists, splitext
 from typing import Union, List
+from uuid import uuid4
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
 
@@ -41,13 +43,29 @@ class Analyzer:
         my_dict = self.to_dict()
         try:
             import h5py
-            from os.path import exists
         except ModuleNotFoundError:  # pragma: no cover
             raise ModuleNotFoundError("To save and load objects, the h5py module is required")  # pragma: no cover
+        already_exists = ValueError(
+            f"The file {filename} already exists, please delete it or change the input filename.")
         if exists(filename):
-            raise ValueError(f"The file {filename} already exists, please delete it or change the input filename.")
-        with h5py.File(filename, 'w') as h5file:
-            _dict_to_group(h5file, '/', my_dict)
+            raise already_exists
+        # The file is completed under a temporary name, so that whatever happens during writing the requested name
+        # is only ever that of a complete file, and one that appears in the meantime is not overwritten.
+        partial = f'{filename}.{uuid4().hex}.partial'
+        try:
+            with h5py.File(partial, 'x') as h5file:
+                _dict_to_group(h5file, '/', my_dict)
+            try:
+                os.link(partial, filename)
+            except FileExistsError:
+                raise already_exists
+            except OSError:  # The file system does not have hard links.
+                if exists(filename):
+                    raise already_exists
+                os.rename(partial, filename)
+        finally:
+            if exists(partial):
+                os.remove(partial)
 
     @classmethod
     def load(cls, filename: str) -> 'Analyzer':
-- 
2.43.0


From c7fa16d1266e72fc39511bad6b3b866704f3a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 04/24] fix: do not sub-sample the displacements again when
 restoring from a dictionary

---
 kinisi/diffusion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..cbfe6f7 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -146,6 +146,9 @@ class Bootstrap:
                    my_dict['n_o'],
                    sub_sample_dt=my_dict['sub_sample_dt'],
                    dimension=my_dict['dimension'])
+        # The stored values have already been sub-sampled.
+        boot._displacements = my_dict['displacements']
+        boot._delta_t = np.array(my_dict['delta_t'])
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From 9b9333bfe6c3eea1076b213f1ba74260a3ce60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 05/24] fix: SuperArrhenius no longer changes its default or
 the caller's bounds

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..91d1dd1 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = [bounds[0], bounds[1], (0, temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From 22288751b800f85af2718050ae38b92ad33121aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 06/24] fix: account for sub_sample_traj in the time intervals
 of ASE trajectories

---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..27c428a 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -288,8 +288,8 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From 8d0d8805b9b4c377c829eb8402a0d57d13f69e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 07/24] fix: single-origin displacements are those over the
 time interval they are reported for

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 27c428a..a4374d6 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, time_interval - 1:time_interval]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From c3dcfd6f8b9c74b299971f466080cdcb07ee1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 08/24] fix: framework_indices can be given together with
 specie_indices

---
 kinisi/parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index a4374d6..add0a31 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -756,9 +756,8 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         drift_indices = np.array(framework_indices) - 1
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From ccdda59077a27b8b0fb3e58ead7a6b6f40a51fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 09/24] fix: sub-sample the numbers of observations together
 with the displacements

---
 kinisi/diffusion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index cbfe6f7..e2c7250 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -566,6 +566,7 @@ class MSDBootstrap(Bootstrap):
                  random_state: np.random.mtrand.RandomState = None,
                  progress: bool = True):
         super().__init__(delta_t, disp_3d, n_o, sub_sample_dt, dimension)
+        n_o = self._n_o
         self._iterator = self.iterator(progress, range(len(self._displacements)))
         if block:
             import pyblock
@@ -650,6 +651,7 @@ class MSTDBootstrap(Bootstrap):
                  random_state: np.random.mtrand.RandomState = None,
                  progress: bool = True):
         super().__init__(delta_t, disp_3d, n_o, sub_sample_dt, dimension)
+        n_o = self._n_o
         self._iterator = self.iterator(progress, range(int(len(self._displacements) / 2)))
         if block:
             import pyblock
@@ -738,6 +740,7 @@ class MSCDBootstrap(Bootstrap):
                  random_state: np.random.mtrand.RandomState = None,
                  progress: bool = True):
         super().__init__(delta_t, disp_3d, n_o, sub_sample_dt, dimension)
+        n_o = self._n_o
         self._iterator = self.iterator(progress, range(int(len(self._displacements) / 2)))
         try:
             _ = len(ionic_charge)
-- 
2.43.0


From 9bc6e642f38a1e6fd857c767bbd98bec3b727f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 10/24] fix: use the requested dimensions for the mean squared
 charge displacement

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e2c7250..8a54874 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -754,7 +754,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From 9e4d4788fc28b5135ee798d129e2c64fde1c3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 11/24] fix: a seeded analysis neither depends on nor disturbs
 the process-wide random state

---
 kinisi/diffusion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 8a54874..90fda13 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -339,8 +339,10 @@ class Bootstrap:
         :param random_state: A :py:attr:`RandomState` object to be used to ensure reproducibility. Optional,
             default is :py:attr:`None`.
         """
+        rng = np.random
         if random_state is not None:
-            np.random.seed(random_state.get_state()[1][1])
+            # A generator of its own, as the process-wide one may be in use elsewhere.
+            rng = np.random.RandomState(random_state.get_state()[1][1])
 
         self._start_dt = start_dt
         self._model = model
@@ -384,8 +386,9 @@ class Bootstrap:
             max_likelihood = minimize(nll, np.array([slope, intercept])).x
         else:
             max_likelihood = minimize(nll, np.array([slope])).x
-        pos = max_likelihood + max_likelihood * 1e-3 * np.random.randn(n_walkers, max_likelihood.size)
+        pos = max_likelihood + max_likelihood * 1e-3 * rng.randn(n_walkers, max_likelihood.size)
         sampler = EnsembleSampler(*pos.shape, log_likelihood)
+        sampler.random_state = rng.get_state()
         # Waiting on https://github.com/dfm/emcee/pull/376
         # if random_state is not None:
         #     pos = max_likelihood + max_likelihood * 1e-3 * random_state.randn(n_walkers, max_likelihood.size)
-- 
2.43.0


From d43b600e0ee4a8e1544f0006bd7fb888fb94b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 12/24] fix: an analysis step that fails or is interrupted
 leaves the earlier results untouched

---
 kinisi/diffusion.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 90fda13..f7eb6c5 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -8,6 +8,7 @@ diffusion coefficient from a material.
 # author: Andrew R. McCluskey (arm61)
 
 import warnings
+from functools import wraps
 from typing import List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
@@ -38,6 +39,28 @@ DIMENSIONALITY = {
 }
 
 
+def _all_or_nothing(method):
+    """
+    Decorate an analysis method such that, if it does not complete for any reason (including an interrupt),
+    the object is left as it was before the call.
+
+    :param method: Method to decorate.
+
+    :return: Decorated method.
+    """
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        before = self.__dict__.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = before
+            raise
+
+    return wrapper
+
+
 class Bootstrap:
     """
     The top-level class for bootstrapping.
@@ -305,6 +328,7 @@ class Bootstrap:
         bottom = np.square(np.mean(d_squared)) * 5
         return top / bottom - 1
 
+    @_all_or_nothing
     def bootstrap_GLS(self,
                       start_dt: float,
                       cond_max: float = 1e16,
@@ -430,6 +454,7 @@ class Bootstrap:
         self._npd_covariance_matrix = self._covariance_matrix
         return cov_nearest(minimum_eigenvalue_method(self._covariance_matrix, self._cond_max))
 
+    @_all_or_nothing
     def diffusion(self, start_dt: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the diffusivity for the system. Keyword arguments will be
@@ -450,6 +475,7 @@ class Bootstrap:
         """
         return self._diffusion_coefficient
 
+    @_all_or_nothing
     def jump_diffusion(self, start_dt: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the jump diffusivity for the system. Keyword arguments
@@ -471,6 +497,7 @@ class Bootstrap:
         """
         return self._jump_diffusion_coefficient
 
+    @_all_or_nothing
     def conductivity(self, start_dt: float, temperature: float, volume: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the ionic conductivity for the system, in units of mScm:sup:`-1`.
-- 
2.43.0


From 22fe6d683337d1610aa1ea826374d6dbe1d55c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 13/24] fix: report an MDAnalysis trajectory that cannot be
 read to its end

---
 kinisi/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index add0a31..b681de8 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -619,10 +619,11 @@ class MDAnalysisParser(Parser):
         """
         coords, latt = [], []
         first = True
+        frames = universe.trajectory[::sub_sample_traj]
         if progress:
-            iterator = tqdm(universe.trajectory[::sub_sample_traj], desc='Reading Trajectory')
+            iterator = tqdm(frames, desc='Reading Trajectory')
         else:
-            iterator = universe.trajectory[::sub_sample_traj]
+            iterator = frames
         volume = 0
         for timestep in iterator:
             if first:
@@ -633,6 +634,13 @@ class MDAnalysisParser(Parser):
             inv_matrix = np.linalg.inv(matrix)
             coords.append(np.array(np.dot(universe.atoms[::sub_sample_atoms].positions, inv_matrix))[:, None])
             latt.append(matrix)
+        try:
+            n_frames = len(frames)
+        except (TypeError, RuntimeError):  # The length of a streamed trajectory is not known.
+            n_frames = len(coords)
+        if len(coords) != n_frames:
+            # MDAnalysis ends the iteration without complaint when a frame cannot be read.
+            raise OSError(f"Only {len(coords)} of the {n_frames} frames of the trajectory could be read.")
         coords.insert(0, coords[0])
         latt.insert(0, latt[0])
         return structure, coords, latt, volume
-- 
2.43.0


From d80fda6a3a743e9f1465397f59f27ae0462b7944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:22 +0000
Subject: [PATCH 14/24] fix: save and load an analysis in which a list is empty

---
 kinisi/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 6946c70..16566aa 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -390,6 +390,7 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
         if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
+            h5file.create_group(path + key)
             for i, d in enumerate(value):
                 if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
@@ -425,7 +426,7 @@ def _group_to_dict(h5file: 'h5py._hl.files.File', path: str) -> dict:
                 my_dict[key] = value[()]
         elif isinstance(value, h5py._hl.group.Group):
             key_list = list(h5file[path + key + '/'].keys())
-            if key_list[0][:4] == 'list':
+            if not key_list or key_list[0][:4] == 'list':
                 my_dict[key] = []
                 for i in sorted([int(i[4:]) for i in key_list]):
                     value = h5file[path + key + f'/list{i}']
-- 
2.43.0


From bfadd8c9a27761687af60b4ed78719eddb338191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:22 +0000
Subject: [PATCH 15/24] fix: the results of a fit without an intercept can be
 viewed and predicted from

---
 kinisi/analyzer.py                | 5 ++++-
 kinisi/conductivity_analyzer.py   | 2 ++
 kinisi/diffusion.py               | 4 +++-
 kinisi/diffusion_analyzer.py      | 2 ++
 kinisi/jump_diffusion_analyzer.py | 2 ++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 16566aa..bbe982d 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -328,7 +328,10 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
-        return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
+        distribution = self._diff.gradient.samples * self.dt[:, np.newaxis]
+        if self._diff.intercept is not None:
+            distribution = distribution + self._diff.intercept.samples
+        return distribution
 
     @property
     def dt(self) -> np.ndarray:
diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index f4e405b..c8a495b 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -263,4 +263,6 @@ class ConductivityAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.sigma.samples]).T
         return np.array([self.sigma.samples, self.intercept.samples]).T
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index f7eb6c5..8d84c5c 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -548,7 +548,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
diff --git a/kinisi/diffusion_analyzer.py b/kinisi/diffusion_analyzer.py
index 56dee3c..33663cb 100644
--- a/kinisi/diffusion_analyzer.py
+++ b/kinisi/diffusion_analyzer.py
@@ -242,4 +242,6 @@ class DiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D.samples]).T
         return np.array([self.D.samples, self.intercept.samples]).T
diff --git a/kinisi/jump_diffusion_analyzer.py b/kinisi/jump_diffusion_analyzer.py
index 4503496..23afd73 100644
--- a/kinisi/jump_diffusion_analyzer.py
+++ b/kinisi/jump_diffusion_analyzer.py
@@ -245,4 +245,6 @@ class JumpDiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D_J.samples]).T
         return np.array([self.D_J.samples, self.intercept.samples]).T
-- 
2.43.0


From 94c93772df8781ac86c9dd2e7226b2c487e07dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:50 +0000
Subject: [PATCH 16/24] fix: accept an integer time_step for pymatgen
 structures

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index b681de8..0e930ac 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -436,7 +436,7 @@ class PymatgenParser(Parser):
                          progress=progress)
         self._volume = structure.volume
         warnings.warn("UserWarning: Be aware that the expected input unit for 'time_step' is femtoseconds, not picoseconds.")
-        self.delta_t *= 1e-3
+        self.delta_t = self.delta_t * 1e-3
 
     @staticmethod
     def get_structure_coords_latt(
-- 
2.43.0


From 55b1d8830d97d68a2060851f0fd9579e4c299433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 17/24] fix: an empty list of framework_indices can be given
 for molecules

---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 0e930ac..08f3d94 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -707,7 +707,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
@@ -761,7 +761,7 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         drift_indices = []
         for i, site in enumerate(structure):
-- 
2.43.0


From 1ec17c7f7885b22472d888c4ecd4a7c958a062a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:48 +0000
Subject: [PATCH 18/24] fix: concurrent saves do not overwrite one another
 without hard links either

---
 kinisi/analyzer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index bbe982d..8820441 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -8,11 +8,14 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 
 import os
 from os.path import exists, splitext
+from threading import Lock
 from typing import Union, List
 from uuid import uuid4
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
 
+_PUBLISHING = Lock()
+
 
 class Analyzer:
     """
@@ -55,14 +58,15 @@ class Analyzer:
         try:
             with h5py.File(partial, 'x') as h5file:
                 _dict_to_group(h5file, '/', my_dict)
-            try:
-                os.link(partial, filename)
-            except FileExistsError:
-                raise already_exists
-            except OSError:  # The file system does not have hard links.
-                if exists(filename):
+            with _PUBLISHING:
+                try:
+                    os.link(partial, filename)
+                except FileExistsError:
                     raise already_exists
-                os.rename(partial, filename)
+                except OSError:  # The file system does not have hard links.
+                    if exists(filename):
+                        raise already_exists
+                    os.rename(partial, filename)
         finally:
             if exists(partial):
                 os.remove(partial)
-- 
2.43.0


From ff9be9d8f1c7c0f8c84a35889f697d18f6d4ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 19/24] fix: a file name as long as the file system allows can
 be saved

The temporary name made from it was too long.
---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 8820441..e533ef5 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -7,7 +7,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # author: Andrew R. McCluskey (arm61)
 
 import os
-from os.path import exists, splitext
+from os.path import dirname, exists, join, splitext
 from threading import Lock
 from typing import Union, List
 from uuid import uuid4
@@ -54,7 +54,7 @@ class Analyzer:
             raise already_exists
         # The file is completed under a temporary name, so that whatever happens during writing the requested name
         # is only ever that of a complete file, and one that appears in the meantime is not overwritten.
-        partial = f'{filename}.{uuid4().hex}.partial'
+        partial = join(dirname(filename), f'{uuid4().hex}.partial')
         try:
             with h5py.File(partial, 'x') as h5file:
                 _dict_to_group(h5file, '/', my_dict)
-- 
2.43.0


From 26c9b8441d2c9774cc4e909f81ab26300026d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 20/24] fix: a full disk or a write error while saving ended
 the process

---
 kinisi/analyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index e533ef5..113b384 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -56,7 +56,9 @@ class Analyzer:
         # is only ever that of a complete file, and one that appears in the meantime is not overwritten.
         partial = join(dirname(filename), f'{uuid4().hex}.partial')
         try:
-            with h5py.File(partial, 'x') as h5file:
+            # It is put together in memory and written as it is closed: a write that fails (for a full disk, say) would
+            # otherwise leave HDF5 with a file that it cannot close, which ends the process.
+            with h5py.File(partial, 'x', driver='core', backing_store=True) as h5file:
                 _dict_to_group(h5file, '/', my_dict)
             with _PUBLISHING:
                 try:
-- 
2.43.0


From 0e4498e3c85bfdeba07981ad7c076dad059b3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 21/24] fix: limits of the time intervals do not lose a step to
 rounding

---
 kinisi/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 08f3d94..06df354 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = self._whole_steps(self.min_dt)
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -147,6 +147,14 @@ class Parser:
             drift_corrected = disp
         return drift_corrected
 
+    def _whole_steps(self, dt: float) -> int:
+        """
+        :param dt: Time, in the simulation units.
+
+        :return: Number of whole steps in this time, rounded as the division may come out just below it.
+        """
+        return int(round(dt / (self.step_skip * self.time_step), 6))
+
     def get_time_intervals(self, n_steps: int, spacing: str) -> np.ndarray:
         """
         Calculate the smoothed time intervals to be used.
@@ -156,14 +164,14 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        min_dt = self._whole_steps(self.min_dt)
+        max_dt = self._whole_steps(self.max_dt)
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
             return np.linspace(min_dt, max_dt, n_steps, dtype=int)
         elif spacing == 'logarithmic':
-            return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
+            return np.unique(np.clip(np.geomspace(min_dt, max_dt, n_steps, dtype=int), min_dt, max_dt))
         else:
             raise ValueError("Only linear or logarithmic spacing is allowed.")
 
-- 
2.43.0


From f19f8855f047e5c9ac04958106c5e02237407244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 22/24] fix: no time interval is used twice

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 06df354..fa17a77 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -169,7 +169,7 @@ class Parser:
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-            return np.linspace(min_dt, max_dt, n_steps, dtype=int)
+            return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
             return np.unique(np.clip(np.geomspace(min_dt, max_dt, n_steps, dtype=int), min_dt, max_dt))
         else:
-- 
2.43.0


From b8086ecc7efd66ad4ca25c6eb53a99dc816278fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 23/24] fix: the covariance matrix is conditioned relative to
 its largest eigenvalue

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 8d84c5c..9724ef7 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -921,6 +921,6 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
     eigenthings = np.linalg.eig(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = np.max(eigenvalues) / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From a60e511dc75b881023bf64671f767bf1669c9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:13 +0000
Subject: [PATCH 24/24] fix: the modelled variances are the least squares ones
 on any time scale

---
 kinisi/diffusion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 9724ef7..6668039 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -13,7 +13,7 @@ from typing import List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
 from scipy.linalg import pinvh
-from scipy.optimize import minimize, curve_fit
+from scipy.optimize import minimize
 import scipy.constants as const
 import tqdm
 from uravu.distribution import Distribution
@@ -446,7 +446,9 @@ class Bootstrap:
             return a / self._n_o[diff_regime:] * dt**2
 
         if self._model:
-            self._popt, _ = curve_fit(_model_variance, self.dt[diff_regime:], self._v[diff_regime:], bounds=(0, np.inf))
+            # The least squares solution, which the model being linear in its only parameter gives directly.
+            shape = _model_variance(self.dt[diff_regime:], 1.)
+            self._popt = np.array([np.dot(shape, self._v[diff_regime:]) / np.dot(shape, shape)])
             self._model_v = _model_variance(self.dt[diff_regime:], *self._popt)
         else:
             self._model_v = self._v[diff_regime:]
-- 
2.43.0

