From 18085336fe6553d41fe7f72dc793340af22d7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 01/15] fix: don't overwrite the caller's array when fitting
 gamma or computing Thornthwaite PET

---
 src/climate_indices/compute.py | 6 ++++--
 src/climate_indices/eto.py     | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index df766f9..e90258b 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -681,7 +681,8 @@ def gamma_parameters(
     # validate (and possibly reshape) the input array
     values = _validate_array(values, periodicity)
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, leaving the caller's array as it was)
+    values = values.copy()
     values[values == 0] = np.nan
 
     # determine the end year of the values array
@@ -804,7 +805,8 @@ def transform_fitted_gamma(
     zeros = (values == 0).sum(axis=0)
     probabilities_of_zero = zeros / values.shape[0]
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, leaving the caller's array as it was)
+    values = values.copy()
     values[values == 0] = np.nan
 
     # compute fitting parameters if none were provided
diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d723780..c0730b6 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -249,6 +249,8 @@ def eto_thornthwaite(
     # TODO this sometimes throws a RuntimeWarning for invalid value,
     #  perhaps as a result of a NaN, somehow use masking and/or NaN
     #  pre-check to eliminate the cause of this warning
+    # (in a copy, leaving the caller's array as it was)
+    monthly_temps_celsius = monthly_temps_celsius.copy()
     monthly_temps_celsius[monthly_temps_celsius < 0] = 0.0
 
     # mean the monthly temperature values over the month axis,
-- 
2.43.0


From 9087fd583c2483b81cfec977fffae6a15a413a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 02/15] fix: clip negative precipitation to zero also when the
 array contains missing values

---
 src/climate_indices/compute.py | 2 +-
 src/climate_indices/indices.py | 4 ++--
 src/climate_indices/palmer.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index e90258b..02dcc5a 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -736,7 +736,7 @@ def scale_values(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.any(values < 0.0):
         _logger.warn("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index fc7118a..59dbe15 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -125,7 +125,7 @@ def spi(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.any(values < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
@@ -270,7 +270,7 @@ def spei(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips_mm) < 0.0:
+    if np.any(precips_mm < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         precips_mm = np.clip(precips_mm, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 39d8a26..28b052b 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -867,7 +867,7 @@ def pdsi(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips) < 0.0:
+    if np.any(precips < 0.0):
         _logger.warning(
             "Input contains negative values -- all negatives clipped to zero"
         )
-- 
2.43.0


From 12c04f2e6f6b2ee28edf5677ba0593c497744529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 03/15] fix: end February at day 59/60 of the year in the PCI
 month boundaries

---
 src/climate_indices/indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 59dbe15..e070c7f 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -535,7 +535,7 @@ def pci(
 
     # make sure we're not dealing with a NaN or out-of-range or less than the expected rainfall value
     if len(rainfall_mm) == 366 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 29, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
+        m = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
         start = 0
         numerator = 0
         denominator = 0
@@ -549,7 +549,7 @@ def pci(
         return np.array([(numerator / (denominator**2)) * 100])
 
     if len(rainfall_mm) == 365 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 28, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
+        m = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
         start = 0
         numerator = 0
         denominator = 0
-- 
2.43.0


From 8eae4fc497bfefd8a356f617b1cb788ea5df4e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 04/15] fix: accept the documented inclusive latitude limits of
 -90 and 90 degrees for PET

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index e070c7f..725a1a2 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -494,7 +494,7 @@ def pet(
         latitude_degrees = latitude_degrees.flat[0]
 
     # make sure we're not dealing with a NaN or out-of-range latitude value
-    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 < latitude_degrees < 90.0):
+    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 <= latitude_degrees <= 90.0):
         # compute and return the PET values using Thornthwaite's equation
         return eto.eto_thornthwaite(
             temperature_celsius,
-- 
2.43.0


From e836f17f80a6a5611977abb855156d2ac831cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 05/15] fix: take the final year of data as start year + number
 of years - 1 when checking the calibration period

---
 src/climate_indices/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 02dcc5a..5af6885 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -290,7 +290,7 @@ def pearson_parameters(
     """
     values = reshape_values(values, periodicity)
     time_steps_per_year = validate_values_shape(values)
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
     calibration_start_year, calibration_end_year = adjust_calibration_years(
         data_start_year, data_end_year, calibration_start_year, calibration_end_year
     )
@@ -612,7 +612,7 @@ def transform_fitted_pearson(
     # compute the Pearson Type III fitting values if none were provided
     if any(param_arg is None for param_arg in pearson_param_args):
         # determine the end year of the values array
-        data_end_year = data_start_year + values.shape[0]
+        data_end_year = data_start_year + values.shape[0] - 1
 
         # make sure that we have data within the full calibration period,
         # otherwise use the full period of record
@@ -686,7 +686,7 @@ def gamma_parameters(
     values[values == 0] = np.nan
 
     # determine the end year of the values array
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
 
     # make sure that we have data within the full calibration period,
     # otherwise use the full period of record
-- 
2.43.0


From 9f33925fb99b88143747f45827db397f9b2767ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 06/15] fix: size the Palmer backtracking arrays for the whole
 record, an abatement can last more than 40 months

---
 src/climate_indices/palmer.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 28b052b..53b6f69 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -535,15 +535,6 @@ def _statement_200(data: dict) -> None:
     # At that time, the assign method backtracs through choosing
     # the appropriate x1 or x2 to be that month's x.
     #_logger.debug(f"no value assigned; will backtrack later k8:{data['k8']},y:{year},m:{month}")
-    if data["k8"] >= data["sx"].shape[0]+1:
-        vals = [0] * (data["k8"] - data["sx"].shape[0] + 2)
-        data["sx"] = np.append(data["sx"], vals)
-        data["sx1"] = np.append(data["sx1"], vals)
-        data["sx2"] = np.append(data["sx2"], vals)
-        data["sx3"] = np.append(data["sx3"], vals)
-        data["indexj"] = np.append(data["indexj"], vals)
-        data["indexm"] = np.append(data["indexm"], vals)
-
     data["sx1"][data["k8"]] = data["px1"][year, month]
     data["sx2"][data["k8"]] = data["px2"][year, month]
     data["sx3"][data["k8"]] = data["px3"][year, month]
@@ -804,8 +795,10 @@ def _initialize_data(
     data["x3"] = 0.0
     data["k8"] = 0
     data["k8max"] = 0
-    data["indexj"] = np.full((K8_SIZE,), np.nan)
-    data["indexm"] = np.full((K8_SIZE,), np.nan)
+    # the months awaiting an assignment can be as many as there are in the record
+    k8_size = max(K8_SIZE, n_years * 12)
+    data["indexj"] = np.full((k8_size,), np.nan)
+    data["indexm"] = np.full((k8_size,), np.nan)
     data["pdsi"] = np.full((n_years, 12), np.nan)
     data["phdi"] = np.full((n_years, 12), np.nan)
     data["z"] = np.full((n_years, 12), np.nan)
@@ -815,10 +808,10 @@ def _initialize_data(
     data["px1"] = np.zeros((n_years, 12))
     data["px2"] = np.zeros((n_years, 12))
     data["px3"] = np.zeros((n_years, 12))
-    data["sx"] = np.zeros((K8_SIZE,))
-    data["sx1"] = np.zeros((K8_SIZE,))
-    data["sx2"] = np.zeros((K8_SIZE,))
-    data["sx3"] = np.zeros((K8_SIZE,))
+    data["sx"] = np.zeros((k8_size,))
+    data["sx1"] = np.zeros((k8_size,))
+    data["sx2"] = np.zeros((k8_size,))
+    data["sx3"] = np.zeros((k8_size,))
     data["x"] = np.zeros((n_years, 12))
 
     _validate_fitting_params(data, fitting_params)
-- 
2.43.0


From 609092e3368cf7a1062ef2d4c467489283f413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 07/15] fix: measure the percentage of normal calibration
 period in the array's own time steps

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 725a1a2..38aae17 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -416,7 +416,7 @@ def percentage_of_normal(
             "Invalid start year arguments (data and/or calibration): "
             "calibration start year is before the data start year",
         )
-    if ((calibration_end_year - calibration_start_year + 1) * 12) > values.size:
+    if ((calibration_end_year - calibration_start_year + 1) * periodicity) > values.size:
         raise ValueError(
             "Invalid calibration period specified: total calibration years "
             "exceeds the actual number of years of data",
-- 
2.43.0


From 07b6c06bd6dc73b826add3686bb0c1710cf66161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 08/15] fix: return as many sliding sums as there are values
 when the scale exceeds the array's length

---
 src/climate_indices/compute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 5af6885..50d3e48 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -150,6 +150,10 @@ def sum_to_scale(
     if scale == 1:
         return values
 
+    # there's no complete window if there are fewer values than the number to be summed
+    if scale > len(values):
+        return np.full((len(values),), np.nan)
+
     # get the valid sliding summations with 1D convolution
     sliding_sums = np.convolve(values, np.ones(scale), mode="valid")
 
-- 
2.43.0


From 98918f2681ae2d709f7ce5dc0d8965d9a69f6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 09/15] fix: compare the Hargreaves input sizes and accept the
 documented 1-D inputs

---
 src/climate_indices/eto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index c0730b6..42153e6 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -315,7 +315,7 @@ def eto_hargreaves(
     """
 
     # validate the input data arrays
-    if daily_tmin_celsius.size != daily_tmax_celsius != daily_tmean_celsius:
+    if not (daily_tmin_celsius.size == daily_tmax_celsius.size == daily_tmean_celsius.size):
         message = "Incompatible array sizes"
         _logger.error(message)
         raise ValueError(message)
@@ -324,6 +324,8 @@ def eto_hargreaves(
     original_length = daily_tmean_celsius.size
 
     # reshape to 2-D with 366 days per year, if not already in this shape
+    daily_tmin_celsius = utils.reshape_to_2d(daily_tmin_celsius, 366)
+    daily_tmax_celsius = utils.reshape_to_2d(daily_tmax_celsius, 366)
     daily_tmean_celsius = utils.reshape_to_2d(daily_tmean_celsius, 366)
 
     # at this point we assume that our dataset array has shape (years, 366)
-- 
2.43.0


From 0d27b0b8fc9df5bd765bba369fae89ab1154ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 10/15] fix: Thornthwaite PET is zero, not missing, where all
 temperatures are at or below freezing

---
 src/climate_indices/eto.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index 42153e6..607335e 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -277,6 +277,11 @@ def eto_thornthwaite(
             month_days = _MONTH_DAYS_NONLEAP
             mean_daylight_hours = mean_daylight_hours_nonleap
 
+        # no evapotranspiration if no month's mean temperature is above freezing
+        if heat_index == 0:
+            pet[year, :] = np.where(np.isnan(monthly_temps_celsius[year, :]), np.nan, 0.0)
+            continue
+
         # calculate the Thornthwaite equation
         pet[year, :] = (
             16
-- 
2.43.0


From b9a4fdcc0945b02d5074ce0f4021318bbec5545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 11/15] fix: transform an incomplete final year to 366 days
 also when it's a leap year or ends before March

---
 src/climate_indices/utils.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 74dac1a..c2c137f 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -342,6 +342,11 @@ def transform_to_366day(
         _logger.error(message)
         raise ValueError(message)
 
+    # pad with missing values if the final year isn't complete
+    days_actual = 365 * total_years + calendar.leapdays(year_start, year_start + total_years)
+    if len(original) < days_actual:
+        original = np.pad(original, (0, days_actual - len(original)), mode="constant", constant_values=np.nan)
+
     # allocate the new array for 366 daily values per year,
     # including a faux Feb 29 for non-leap years
     all_leap = np.full((total_years * 366,), np.nan)
@@ -372,30 +377,9 @@ def transform_to_366day(
             # write the remaining days of the year (Mar 1 through Dec 31)
             # from the original into the all_leap array
             original_year_end_index = original_index + 365
-            if len(original) < original_year_end_index:
-                # this should be the final year, and we're just adding the remained days
-                remainder = original[original_index + 59:]
-                difference = len(all_leap[all_leap_index + 60:]) - len(remainder)
-                if difference > 0:
-                    final_days = np.pad(
-                        remainder,
-                        (
-                            0,
-                            difference,
-                        ),
-                        mode="constant",
-                        constant_values=np.nan,
-                    )
-                elif difference != 0:
-                    raise ValueError("Incompatible shapes")
-                else:
-                    final_days = remainder
-                all_leap[all_leap_index + 60:] = final_days
-                continue
-            else:
-                all_leap[all_leap_index + 60: (all_leap_index + 366)] = original[
-                    original_index + 59: original_year_end_index
-                ]
+            all_leap[all_leap_index + 60: (all_leap_index + 366)] = original[
+                original_index + 59: original_year_end_index
+            ]
 
             # increment the "start day of the current year" index for the original
             # so the next iteration jumps ahead a full year
-- 
2.43.0


From eb841cfe4065ff33c4a8b6f26b8cb30a6c4b3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 12/15] fix: process a time series as a whole rather than
 splitting it along time between workers

---
 src/climate_indices/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e0eceb..0d0ba8a 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1172,6 +1172,9 @@ def _parallel_process(
     # if there are fewer chunks than the available number of processes
     # then only create the necessary number of tasks
     required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
+    # a time series can't be split, since the first axis is time
+    if input_type == InputType.timeseries:
+        required_processes = 1
     d, m = divmod(shape[0], required_processes)
     split_indices = list(range(0, ((d + 1) * (m + 1)), (d + 1)))
     if d != 0:
-- 
2.43.0


From b0b21b42a46bdbe386f62b911be9789bc5cce21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 13/15] fix: use at least one worker process, also on a machine
 with a single CPU

---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 0d0ba8a..e90e9d9 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -16,7 +16,7 @@ import xarray as xr
 from climate_indices import compute, indices, utils
 
 # the number of worker processes we'll use for process pools
-_NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+_NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 # shared memory array dictionary keys
 _KEY_ARRAY = "array"
 _KEY_SHAPE = "shape"
@@ -1634,7 +1634,7 @@ def process_climate_indices(
         elif arguments.multiprocessing == "all":
             _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+            _NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 
         # compute SPI if specified
         if arguments.index in ["spi", "scaled", "all"]:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0f4bfc9..f90b98e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1408,7 +1408,7 @@ def main():  # type: () -> None
         elif arguments.multiprocessing == "all":
             number_of_workers = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            number_of_workers = multiprocessing.cpu_count() - 1
+            number_of_workers = max(1, multiprocessing.cpu_count() - 1)
 
         # prepare precipitation NetCDF in case dimensions not (lat, lon, time) or if any coordinates are descending
         netcdf_precip = _prepare_file(arguments.netcdf_precip, arguments.var_name_precip)
-- 
2.43.0


From 80264a0c6e295eaeac4a297e28d1e1f970e518ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 14/15] fix: don't reuse a results array of another shape when
 processing several datasets in one session

---
 src/climate_indices/__main__.py | 4 +++-
 src/climate_indices/__spi__.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index e90e9d9..d6835bb 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -993,7 +993,9 @@ def _compute_write_index(keyword_arguments):
 
     else:
         # add an array to hold results to the dictionary of arrays
-        if _KEY_RESULT not in _global_shared_arrays:
+        if (_KEY_RESULT not in _global_shared_arrays) or (
+            _global_shared_arrays[_KEY_RESULT][_KEY_SHAPE] != output_shape
+        ):
             _global_shared_arrays[_KEY_RESULT] = {
                 _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
                 _KEY_SHAPE: output_shape,
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index f90b98e..7b752e7 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -633,7 +633,9 @@ def _compute_write_index(keyword_arguments):
 
     # add an array to hold index computation results
     # to our dictionary of shared memory arrays
-    if _KEY_RESULT not in _global_shared_arrays:
+    if (_KEY_RESULT not in _global_shared_arrays) or (
+        _global_shared_arrays[_KEY_RESULT][_KEY_SHAPE] != output_shape
+    ):
         _global_shared_arrays[_KEY_RESULT] = {
             _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
             _KEY_SHAPE: output_shape,
-- 
2.43.0


From 8d6ebe7c55003c66ffc7983c25da01fba21f1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 15/15] fix: accept grids of a single latitude or longitude
 when comparing the input coordinates

---
 src/climate_indices/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index c2c137f..7f13a3e 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -115,7 +115,9 @@ def get_tolerance(dim: np.ndarray) -> float:
     derived from (smallest) absolute grid size along dimension dim.
     Always greater than zero.
     """
-    tol = np.abs(np.diff(dim)).min() / 10
+    diffs = np.abs(np.diff(dim))
+    # a dimension of a single value has no grid size
+    tol = diffs.min() / 10 if diffs.size > 0 else np.float64(0)
     return max(tol, np.finfo(tol.dtype).resolution)
 
 
-- 
2.43.0

