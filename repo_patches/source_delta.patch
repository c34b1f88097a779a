From 27bb0f8b1195b84a3bfb6ae4ddbc3005c52e33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 01/17] fix: pass gran_logic to the second solve and to the
 calibrator

gran_logic was dropped by solve_emf when solving twice and never reached
solve_emf during calibration, so the documented setting had no effect there.
---
 calkulate/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..0a227d0 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
@@ -878,6 +879,7 @@ def _lsqfun_calibrate_emf(
     pH_min,
     pH_max,
     titrant_normality,
+    gran_logic,
     **titrant_totals,
 ):
     """Calculate residuals for the calibrator."""
@@ -902,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -933,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -976,6 +980,9 @@ def calibrate_emf(
         0.1.
     titrant_normality : float, optional
         Titrant normality, by default 1 (e.g., for HCl).
+    gran_logic : str, optional
+        Which points to use for the Gran-plot first estimates, either "v23.7+"
+        (default) or "legacy".
 
     Returns
     -------
@@ -1000,6 +1007,7 @@ def calibrate_emf(
             pH_min,
             pH_max,
             titrant_normality,
+            gran_logic,
         ),
         kwargs=titrant_totals,
         **kwargs_least_squares,
-- 
2.43.0


From e8e992386b547e4eaa91af78dac5cb61a84bc159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 02/17] fix: allow the titrant to add a total that is absent
 from the analyte

titrant_total_phosphate raised a KeyError unless total_phosphate > 0 was also given.
---
 calkulate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 0a227d0..20443e5 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,7 +509,7 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        totals[total] = totals.get(total, 0) + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
-- 
2.43.0


From d0ac2969af29bd614d4ae251b0022034cc284363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 03/17] fix: name the unrecognised file_type in read_dat's
 warning

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..77d3607 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -171,8 +171,8 @@ keys_read_dat = {
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
-        file_type = "genfromtxt"
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
+        file_type = "genfromtxt"
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 8ddf5b69355f42cc3a0ede21833fba763f5955c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 04/17] fix: do not abort the calibration if an analysis_batch
 is blank

Rows without a batch now get a blank titrant_molinity instead of a KeyError for
the whole dataset.
---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..fb0fcb4 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -159,9 +159,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "reference_good" not in ds:
         ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = (
+        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
+    )
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From bc72bc81d8e2d595bbf25d1f8767238be9d1fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 05/17] fix: do not report the read_dat_method kwarg as being
 ignored

---
 calkulate/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index fb0fcb4..76fb584 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -247,7 +247,11 @@ def solve(ds, verbose=False, **kwargs):
     # Check for bad kwargs, but don't break on them
     kwargs_ignored = []
     for k in _backcompat(kwargs.copy(), []):
-        if k not in files.keys_calibrate | {"pH_range", "read_dat_kwargs"}:
+        if k not in files.keys_calibrate | {
+            "pH_range",
+            "read_dat_kwargs",
+            "read_dat_method",
+        }:
             kwargs_ignored.append(k)
     if len(kwargs_ignored) > 0:
         warn(
-- 
2.43.0


From b73a79156384ded2e6f90177211e81c9f98c876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 06/17] fix: ignore blank optional values when making a
 Titration from a row

A blank (NaN) optional column was passed to the solver as NaN by Titration, but
is ignored by Dataset.solve.
---
 calkulate/classes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..1f1520f 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -6,7 +6,8 @@ import PyCO2SYS as pyco2
 from .convert import get_dilution_factor
 from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .dataset import _backcompat, add_solve_results
-from .files import solve
+from .files import keys_solve, solve
+from .meta import _get_kwargs_for
 
 
 def to_Titration(ds, index, **kwargs):
@@ -173,7 +174,12 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        self.sr = solve(
+            self.row.file_name,
+            self.row.titrant_molinity,
+            self.row.salinity,
+            **_get_kwargs_for(keys_solve, {}, self.row),
+        )
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From 40da81895d9e6611c07c7ed0ac01d099124a7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 07/17] fix: use the solved-with analyte mass in Titration

With only analyte_volume provided, analyte_mass was NaN and so were all of the
dilution-dependent columns of Titration.titration.
---
 calkulate/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 1f1520f..de27789 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -187,6 +187,7 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From 6922655d9bcb93dfbedb1a807fd52a03cddc50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:10 +0000
Subject: [PATCH 08/17] fix: str and repr of a Titration without a file_path

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index de27789..5fdbc10 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -231,14 +231,14 @@ class Titration:
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_alkalinity_from_acid(self):
-- 
2.43.0


From cca579dbaaa3e5830f70bb0316f91822e2126fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 09/17] fix: include titrant_normality in the Titration
 alkalinity columns

---
 calkulate/classes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 5fdbc10..13c8173 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -174,11 +174,13 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
+        kwargs_solve = _get_kwargs_for(keys_solve, {}, self.row)
+        self.titrant_normality = kwargs_solve.get("titrant_normality", 1)
         self.sr = solve(
             self.row.file_name,
             self.row.titrant_molinity,
             self.row.salinity,
-            **_get_kwargs_for(keys_solve, {}, self.row),
+            **kwargs_solve,
         )
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
@@ -244,7 +246,9 @@ class Titration:
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self.titrant_normality
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -304,6 +308,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self.titrant_normality
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From 0496e1f7a471d27e1ebafb8c9a1322346e1ad03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 10/17] fix: make the documented calk.calkulate function
 available

---
 calkulate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/__init__.py b/calkulate/__init__.py
index 146e88f..0b94fc5 100644
--- a/calkulate/__init__.py
+++ b/calkulate/__init__.py
@@ -16,7 +16,7 @@
 """Determine (sea)water total alkalinity from titration data."""
 
 from .classes import Dataset, Titration, to_Titration
-from .dataset import calibrate, solve
+from .dataset import calibrate, calkulate, solve
 from .meta import __author__, __version__, hello
 from .read.metadata import (
     read_clipboard,
@@ -38,6 +38,7 @@ __all__ = [
     "say_hello",
     "Dataset",
     "calibrate",
+    "calkulate",
     "solve",
     "read_dat",
     "read_clipboard",
-- 
2.43.0


From 271dd30abc7de9627ad8074729489a603f805450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 11/17] fix: make the documented Titration.plot_gran_* methods
 available

---
 calkulate/classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 13c8173..0ce8733 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -320,3 +320,7 @@ class Titration:
         gran_emf0 as plot_emf0_gran,
         pH as plot_pH,
     )
+
+    # The names that these are documented under
+    plot_gran_alkalinity = plot_alkalinity_gran
+    plot_gran_emf0 = plot_emf0_gran
-- 
2.43.0


From 5b3cb137f8cc3f69a0405a802fd11269e90f7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 12/17] fix: document the opt_k_carbonic default that is
 actually used

---
 docs/metadata.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/metadata.md b/docs/metadata.md
index 186c1f3..c0d31b9 100644
--- a/docs/metadata.md
+++ b/docs/metadata.md
@@ -125,7 +125,7 @@ Like for the recommended columns, if optional column values are only needed for
     * `2` : [KRCB77](https://PyCO2SYS.readthedocs.io/en/latest/refs/#k).
 
 ??? info "`opt_k_carbonic` : *which carbonic acid dissociation constants to use*"
-    Sets which carbonic acid constants to use from PyCO2SYS, can be any integer from `1` to `16` inclusive.  Default is `16` for [SLH20](https://pyco2sys.readthedocs.io/en/latest/refs/#s).  See the [PyCO2SYS docs on `opt_k_carbonic`](https://pyco2sys.readthedocs.io/en/latest/co2sys_nd/#settings) for details.
+    Sets which carbonic acid constants to use from PyCO2SYS, can be any integer from `1` to `16` inclusive.  Default is `10` for [LDK00](https://pyco2sys.readthedocs.io/en/latest/refs/#l).  See the [PyCO2SYS docs on `opt_k_carbonic`](https://pyco2sys.readthedocs.io/en/latest/co2sys_nd/#settings) for details.
 
 ??? info "`opt_k_fluoride` : *which HF dissociation constant to use*"
     Sets whether the HF dissociation constant is estimated from salinity and temperature by [PyCO2SYS](https://PyCO2SYS.rtfd.io) following:
-- 
2.43.0


From 3c85409b355d1a621079b959a7736961865157bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 13/17] fix: a blank read_dat_method does not override the
 file_type setting

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 76fb584..57327d4 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -52,7 +52,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
-- 
2.43.0


From daa6e22dd652fc634502722e33dcb4e047d113b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:47 +0000
Subject: [PATCH 14/17] fix: total salt and titrant unit kwargs are not
 overridden by estimated or default values

---
 calkulate/dataset.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 57327d4..a4e3fbd 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,19 +13,22 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, **kwargs):
     """Estimate total salt contents from salinity using PyCO2SYS without
     overwriting existing values.  Operates in-place.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
     # Use opt_total_borate = 1 where it's not provided
+    opt_total_borate = kwargs.get("opt_total_borate", 1)
     if "opt_total_borate" in ds:
         ds["opt_total_borate"] = ds.opt_total_borate.where(
-            ds.opt_total_borate.notnull(), 1
+            ds.opt_total_borate.notnull(), opt_total_borate
         )
     else:
-        ds["opt_total_borate"] = 1
+        ds["opt_total_borate"] = opt_total_borate
+    # Don't estimate anything that was provided as a kwarg
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
+    salts = [s for s in salts if pd.isnull(kwargs.get(s))]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
@@ -107,8 +110,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **kwargs)
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -120,7 +123,7 @@ def prepare(ds):
     if "titrant_amount_unit" in ds:
         ds["titrant_amount_unit"] = np.where(
             pd.isnull(ds.titrant_amount_unit),
-            "ml",
+            kwargs.get("titrant_amount_unit", "ml"),
             ds.titrant_amount_unit,
         )
     if "file_good" not in ds:
@@ -145,7 +148,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -258,7 +261,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From a04ca412c76506c11aa2471980d622245bd1740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:46 +0000
Subject: [PATCH 15/17] fix: DIC-loss model stored one-element arrays in array
 elements, which NumPy rejects

---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From cb46973cc4900d3259144f1311ce3b0e303952b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:07 +0000
Subject: [PATCH 16/17] fix: references that failed in one calibration are not
 excluded from later ones

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index a4e3fbd..d51c8b7 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -160,7 +160,7 @@ def calibrate(ds, verbose=False, **kwargs):
     if "analysis_batch" not in ds:
         ds["analysis_batch"] = 0
     if "reference_good" not in ds:
-        ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
+        ds["reference_good"] = True
     batches = get_batches(ds)
     ds["titrant_molinity"] = (
         batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
-- 
2.43.0


From de20e3afed81cf1384adbe4cc119a4ae6a2f872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:20 +0000
Subject: [PATCH 17/17] fix: blank titrant_amount_unit entries are not filled
 with one run's unit for all later runs

---
 calkulate/dataset.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index d51c8b7..9dd3e8d 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -120,12 +120,6 @@ def prepare(ds, **kwargs):
         ds["analyte_mass"] = np.nan
     # Check essential columns are present
     assert "salinity" in ds, 'ds must contain a "salinity" column!'
-    if "titrant_amount_unit" in ds:
-        ds["titrant_amount_unit"] = np.where(
-            pd.isnull(ds.titrant_amount_unit),
-            kwargs.get("titrant_amount_unit", "ml"),
-            ds.titrant_amount_unit,
-        )
     if "file_good" not in ds:
         ds["file_good"] = True
 
-- 
2.43.0

