From 398a3618f85a396ccf0b8c6993fe687b8065f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 01/37] fix: keep sample times on their sample in to_n_samples

---
 resistics/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index ab06eed..e534bf0 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -373,10 +373,13 @@ def to_n_samples(delta: RSTimeDelta, fs: float, method: str = "round") -> int:
     >>> check_inclusive
     471900155
     """
-    from math import floor, ceil
+    from math import floor, ceil, isclose
 
     days_in_seconds, remaining_in_seconds = to_seconds(delta)
     n_samples = (days_in_seconds + remaining_in_seconds) * fs
+    # do not let floating point error move a time off the sample it falls on
+    if isclose(n_samples, round(n_samples), rel_tol=1e-12, abs_tol=1e-6):
+        n_samples = float(round(n_samples))
     # add 1 to be inclusive of start and end
     n_samples += 1
     if n_samples.is_integer():
-- 
2.43.0


From 7eb69c1fba4982850b75c008330cb24b0699f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/37] fix: keep single channel ascii data two dimensional

---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..279399a 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1049,6 +1049,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0


From 2483816760d8647672db8caf0cb15765a57e7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 03/37] fix: do not leave read time data mapped to its file

---
 resistics/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 279399a..497c667 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1100,7 +1100,8 @@ class TimeReaderNumpy(TimeReaderJSON):
         messages = [f"Reading raw data from {dir_path}"]
         messages.append(f"Sampling frequency {metadata.fs} Hz")
         data_path = dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]
-        data = np.load(data_path, mmap_mode="r")[:, read_from : read_to + 1]
+        # copy out of the memory map as the data file may later be overwritten
+        data = np.array(np.load(data_path, mmap_mode="r")[:, read_from : read_to + 1])
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
-- 
2.43.0


From 52df1071c26605eb1e5062a2fcc456c1f7f2ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 04/37] fix: keep data of channels without a function in
 ApplyFunction

---
 resistics/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 497c667..e6183c7 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2347,7 +2347,8 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        # channels without a function keep their data
+        data = time_data.data.astype(np.float64)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From f11c8023b0d9640626c81f9b7d605ae781460b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 05/37] fix: keep sample positions precise in ShiftTimestamps

---
 resistics/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index e6183c7..280a7dc 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2254,10 +2254,13 @@ class ShiftTimestamps(TimeProcess):
         messages.append(f"Last time: {str(metadata.last_time)} -> {str(last_time)}")
 
         # shift data
-        x = np.arange(0, metadata.n_samples, dtype=time_data.data.dtype)
-        x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
+        # sample positions need more precision than float32 data provides
+        x = np.arange(0, metadata.n_samples, dtype=np.float64)
+        x_shift = np.arange(0, n_samples, dtype=np.float64) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
+        if np.issubdtype(time_data.data.dtype, np.floating):
+            data = data.astype(time_data.data.dtype)
         metadata = time_data.metadata.copy()
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
-- 
2.43.0


From d872bffb135d62b51aa7224584ede1688ce232b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 06/37] fix: copy metadata deeply so that inputs keep their own
 history

---
 resistics/decimate.py |  2 +-
 resistics/spectra.py  |  2 +-
 resistics/time.py     | 12 ++++++------
 resistics/window.py   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..394ee60 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -829,7 +829,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = dec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..a6b0dea 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -788,7 +788,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = spec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/time.py b/resistics/time.py
index 280a7dc..42ca243 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1141,7 +1141,7 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1175,7 +1175,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
@@ -1302,7 +1302,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1972,7 +1972,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2068,7 +2068,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2261,7 +2261,7 @@ class ShiftTimestamps(TimeProcess):
         data = interp_fnc(x_shift)
         if np.issubdtype(time_data.data.dtype, np.floating):
             data = data.astype(time_data.data.dtype)
-        metadata = time_data.metadata.copy()
+        metadata = time_data.metadata.copy(deep=True)
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..ba402f8 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1559,7 +1559,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = win_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From 7bb3e725eaf4ad42f798ebcd5f05e809574f8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 07/37] fix: leave the dictionary passed to get_time_metadata
 unchanged

---
 resistics/time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 42ca243..be3a192 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -367,8 +367,7 @@ def get_time_metadata(
     """
     chans = time_dict["chans"]
     chans_metadata = {chan: ChanMetadata(**chans_dict[chan]) for chan in chans}
-    time_dict["chans_metadata"] = chans_metadata
-    return TimeMetadata(**time_dict)
+    return TimeMetadata(**{**time_dict, "chans_metadata": chans_metadata})
 
 
 def adjust_time_metadata(
-- 
2.43.0


From 910e62bcffea33d5f4d7e74d329aee80bea1f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 08/37] fix: leave dictionaries unchanged when initialising
 processes and transfer functions from them

---
 resistics/common.py    | 2 ++
 resistics/transfunc.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..8cae429 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -816,6 +816,8 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
+        # work on a copy, the dictionary belongs to the caller
+        value = dict(value)
         name = value.pop("name")
         try:
             return cls._types[name](**value)
diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..f5c7d86 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,6 +253,8 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
+        # work on a copy, the dictionary belongs to the caller
+        value = dict(value)
         name = value.pop("name")
         if name == "TransferFunction":
             return cls(**value)
-- 
2.43.0


From e0519282c38a140c14932a86e574c4e607cc1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 09/37] fix: compare the normalised notch band with the
 normalised nyquist

---
 resistics/time.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index be3a192..e323e7a 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1870,13 +1870,15 @@ class Notch(TimeProcess):
         band = 0.1 * time_data.metadata.fs if self.band is None else self.band
         low = (self.notch - (band / 2)) / nyquist
         high = (self.notch + (band / 2)) / nyquist
-        if high > nyquist:
-            logger.debug("Band high {high} > nyquist {nyquist}. Setting to nyquist")
-            high = nyquist
         logger.info(f"Notch filtering at {self.notch} Hz with bandwidth {band} Hz")
-        sos = butter(
-            self.order, (low, high), btype="bandstop", analog=False, output="sos"
-        )
+        if high >= 1:
+            # low and high are normalised by nyquist, the band extends to nyquist
+            logger.debug(f"Band high {high * nyquist} >= nyquist {nyquist}")
+            sos = butter(self.order, low, btype="lowpass", analog=False, output="sos")
+        else:
+            sos = butter(
+                self.order, (low, high), btype="bandstop", analog=False, output="sos"
+            )
         data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
         messages = [f"Notch filtered at {self.notch} Hz with bandwidth {band} Hz"]
         record = self._get_record(messages)
-- 
2.43.0


From f9f565e893549195f0d372b52285dd88a7d546f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 10/37] fix: refuse evaluation frequencies that need decreasing
 decimation factors

---
 resistics/decimate.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 394ee60..f5574e0 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -442,11 +442,22 @@ class DecimationSetup(ResisticsProcess):
         -------
         factors : List[int]
             The decimation factors referenced to the sampling frequency
+
+        Raises
+        ------
+        ValueError
+            If a level would need a smaller factor than the level before it, which
+            cannot be reached by decimating further
         """
         eval_freqs = eval_freqs.reshape(self.n_levels, self.per_level)
         factors = []
         for ilevel in range(0, self.n_levels):
             factor = self._get_decimation_factor(fs, np.max(eval_freqs[ilevel]))
+            if len(factors) > 0 and factor < factors[-1]:
+                raise ValueError(
+                    f"Level {ilevel} needs a smaller decimation factor {factor} than "
+                    f"the previous level {factors[-1]}, check evaluation frequencies"
+                )
             factors.append(factor)
         return factors
 
-- 
2.43.0


From ff161a4a0c2e84ccc6108016e5acf6e067973163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 11/37] fix: do not lose or shift windows through floating
 point error or large overlaps

---
 resistics/window.py | 94 ++++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index ba402f8..8918c69 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -96,6 +96,7 @@ using a window size of 8 samples per window and a 2 sample overlap.
 """
 from loguru import logger
 from pathlib import Path
+from decimal import Decimal
 from typing import Optional, List, Tuple, Dict, Union, Any
 from pydantic import PositiveInt
 import numpy as np
@@ -109,6 +110,35 @@ from resistics.time import ChanMetadata
 from resistics.decimate import DecimatedLevelMetadata, DecimatedData
 
 
+# Fraction of a sample period by which recorded times may be inexact. Floating point
+# error should not move a window by a sample or discard it
+SAMPLE_TOLERANCE = Decimal("0.0001")
+
+
+def samples_duration(n_samples: int, fs: float) -> RSTimeDelta:
+    """
+    Get the duration of a number of samples
+
+    This is calculated in decimal arithmetic. Global windows can be a large number
+    of increments away from the reference time, meaning that floating point error
+    in the sample period would accumulate to a significant part of a sample.
+
+    Parameters
+    ----------
+    n_samples : int
+        Number of samples
+    fs : float
+        Sampling frequency Hz
+
+    Returns
+    -------
+    RSTimeDelta
+        Duration
+    """
+    nanoseconds = Decimal(int(n_samples)) * 1_000_000_000 / Decimal(repr(float(fs)))
+    return RSTimeDelta(nanoseconds=nanoseconds)
+
+
 def win_duration(win_size: int, fs: float) -> RSTimeDelta:
     """
     Get the window duration
@@ -143,9 +173,7 @@ def win_duration(win_size: int, fs: float) -> RSTimeDelta:
     >>> print(duration)
     1:06:20
     """
-    from resistics.sampling import to_timedelta
-
-    return to_timedelta(1 / fs) * float(win_size - 1)
+    return samples_duration(win_size - 1, fs)
 
 
 def inc_duration(win_size: int, olap_size: int, fs: float) -> RSTimeDelta:
@@ -180,9 +208,7 @@ def inc_duration(win_size: int, olap_size: int, fs: float) -> RSTimeDelta:
     >>> print(increment)
     0:59:00
     """
-    from resistics.sampling import to_timedelta
-
-    return to_timedelta(1 / fs) * float(win_size - olap_size)
+    return samples_duration(win_size - olap_size, fs)
 
 
 def win_to_datetime(
@@ -344,20 +370,16 @@ def datetime_to_win(
 
     """
     from math import floor, ceil
-    from resistics.sampling import to_seconds
 
     if time < ref_time:
         raise ValueError(f"Time {str(time)} < reference time {str(ref_time)}")
 
-    increment_days_in_seconds, increment_remaining_in_seconds = to_seconds(increment)
-    increment_seconds = increment_days_in_seconds + increment_remaining_in_seconds
-
-    delta_days_in_seconds, delta_remaining_in_seconds = to_seconds(time - ref_time)
-    delta_total_in_seconds = delta_days_in_seconds + delta_remaining_in_seconds
-    n_increments = delta_total_in_seconds / increment_seconds
+    # decimal arithmetic, there can be many increments since the reference time
+    delta_nanoseconds = (time - ref_time).total_nanoseconds()
+    n_increments = delta_nanoseconds / increment.total_nanoseconds()
 
-    if n_increments.is_integer():
-        n_increments = int(n_increments)
+    if abs(n_increments - round(n_increments)) < 1e-9:
+        n_increments = int(round(n_increments))
     elif method == "floor":
         n_increments = int(floor(n_increments))
     elif method == "ceil":
@@ -378,12 +400,9 @@ def get_first_and_last_win(
 
     .. note::
 
-        For the last window, on initial calculation this may be one or a
-        maximum of two windows beyond the last time. The last window is adjusted
-        in this function.
-
-        Two windows may occur when the time of the last sample is in the overlap
-        of the final two windows.
+        For the last window, on initial calculation this may extend beyond the
+        last time. The last window is adjusted in this function. The number of
+        windows to adjust by depends on how many windows overlap.
 
     Parameters
     ----------
@@ -400,13 +419,8 @@ def get_first_and_last_win(
     -------
     Tuple[int, int]
         First and last global windows. This is window indices relative to the
-        reference time
-
-    Raises
-    ------
-    ValueError
-        If unable to calculate the last window correctly as this will result in
-        an incorrect number of windows
+        reference time. If there is no complete window in the data, the last
+        window is the one before the first window.
 
     Examples
     --------
@@ -475,18 +489,18 @@ def get_first_and_last_win(
     """
     duration = win_duration(win_size, metadata.fs)
     increment = inc_duration(win_size, olap_size, metadata.fs)
-    first_win = datetime_to_win(ref_time, metadata.first_time, increment, method="ceil")
-    last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
-    # adjust if there is not enough date to complete the last window
-    last_win_time = win_to_datetime(ref_time, last_win, increment)
-    for attempt in range(2):
-        if metadata.last_time >= last_win_time + duration:
+    tolerance = samples_duration(1, metadata.fs) * SAMPLE_TOLERANCE
+    first_time, last_time = metadata.first_time, metadata.last_time + tolerance
+    if first_time + tolerance >= ref_time:
+        first_time = max(ref_time, first_time - tolerance)
+    first_win = datetime_to_win(ref_time, first_time, increment, method="ceil")
+    last_win = datetime_to_win(ref_time, last_time, increment, method="floor")
+    # adjust if there is not enough data to complete the last window
+    while last_win >= first_win:
+        if last_time >= win_to_datetime(ref_time, last_win, increment) + duration:
             break
-        logger.debug(f"Adjusting last window attempt {attempt + 1}")
+        logger.debug(f"Adjusting last window {last_win}")
         last_win -= 1
-        last_win_time = win_to_datetime(ref_time, last_win, increment)
-    if metadata.last_time < last_win_time + duration:
-        raise ValueError("Unable to correctly get the last window")
     return first_win, last_win
 
 
@@ -685,7 +699,9 @@ def get_win_table(
     local_wins = np.arange(n_wins).astype(int)
     # samples - use the floor here to avoid a situation where it is rounded up
     # and then there are insufficient samples
-    first_sample = to_n_samples(first_win_time - first_time, fs, method="floor") - 1
+    tolerance = 2 * (samples_duration(1, fs) * SAMPLE_TOLERANCE)
+    delta = (first_win_time - first_time) + tolerance
+    first_sample = to_n_samples(delta, fs, method="floor") - 1
     starts = datetime_array_estimate(first_win_time, fs / increment_size, n_wins)
     ends = get_win_ends(starts, win_size, fs)
     df_dict = {
-- 
2.43.0


From 07828521cc93d705cb121438997f0a253eb41e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 12/37] fix: keep window and channel axes of length one when
 windowing

---
 resistics/window.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 8918c69..ef8d830 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1400,9 +1400,10 @@ class Windower(ResisticsProcess):
         from_sample = win_table.loc[0, "from_sample"]
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
-        view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
-        )
+        # only drop the axis windowed over channels, other axes can be length 1 too
+        view = sliding_window_view(
+            data, window_shape=(n_chans, win_size), writeable=True
+        )[0]
         return view[from_sample : to_sample + 1 : increment_size]
 
     def _get_level_metadata(
-- 
2.43.0


From 31a571657abf4a5d28de2aaa7f0fffbf3c36c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 13/37] fix: list sampling frequencies of windowed levels only

---
 resistics/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/window.py b/resistics/window.py
index ef8d830..14678f6 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1432,6 +1432,7 @@ class Windower(ResisticsProcess):
     ) -> WindowedMetadata:
         """Get the metadata for the windowed data"""
         metadata_dict.pop("file_info")
+        metadata_dict["fs"] = [x.fs for x in levels_metadata]
         metadata_dict["n_levels"] = len(levels_metadata)
         metadata_dict["levels_metadata"] = levels_metadata
         return WindowedMetadata(**metadata_dict)
-- 
2.43.0


From b0f2697cfbf4d1ff0c5d437f4f79258ce2f24b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 14/37] fix: subtract the index offset to get a global window

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 14678f6..00a457a 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1158,7 +1158,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From 109cbba61b5d2557b3f66a69726e3fcda2f2cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 15/37] fix: record the reference time used by WindowerTarget

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 00a457a..dde7f3e 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1510,7 +1510,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From a369134f4699afd5c2b51caff8981130338b922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 16/37] fix: refuse overlaps that are not smaller than their
 window

---
 resistics/window.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resistics/window.py b/resistics/window.py
index dde7f3e..2cd7ff8 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -938,6 +938,8 @@ class WindowSetup(ResisticsProcess):
             If the number of windows does not match the number of levels
         ValueError
             If the number of overlaps does not match the number of levels
+        ValueError
+            If an overlap is not greater than 0 and less than its window size
         """
         if self.win_sizes is None:
             win_sizes = self._get_win_sizes(n_levels, dec_fs)
@@ -963,6 +965,12 @@ class WindowSetup(ResisticsProcess):
             # but decimated data has fewer levels
             olap_sizes = olap_sizes[:n_levels]
 
+        for win_size, olap_size in zip(win_sizes, olap_sizes):
+            if olap_size <= 0 or olap_size >= win_size:
+                raise ValueError(
+                    f"Overlap {olap_size} not 0 < overlap < window size {win_size}"
+                )
+
         return WindowParameters(
             n_levels=n_levels,
             min_n_wins=self.min_n_wins,
-- 
2.43.0


From 13377b47a1b45d84faafc0c9e50d1dbaa6d87dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 17/37] fix: use sigma in SpectraSmootherGaussian

---
 resistics/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index a6b0dea..699063a 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -943,7 +943,7 @@ class SpectraSmootherGaussian(SpectraProcess):
            7.93204413+7.93204413j, 8.57295905+8.57295905j])
     """
 
-    sigma: float = 3
+    sigma: float = 1
 
     def run(self, spec_data: SpectraData) -> SpectraData:
         """
@@ -966,7 +966,7 @@ class SpectraSmootherGaussian(SpectraProcess):
         messages = [f"Smoothing frequencies with gaussian filter, sigma {self.sigma}"]
         for ilevel in range(spec_data.metadata.n_levels):
             data[ilevel] = ndimage.gaussian_filter1d(
-                spec_data.get_level(ilevel), 1, axis=-1
+                spec_data.get_level(ilevel), self.sigma, axis=-1
             )
             messages.append(f"Smoothed level {ilevel} with gaussian filter")
         metadata = SpectraMetadata(**spec_data.metadata.dict())
-- 
2.43.0


From 55cd0a8cab386a5873d8344fc1c8838c21244918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 18/37] fix: do not truncate the taper when transforming
 integer data without detrending

---
 resistics/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 699063a..6e6b139 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -538,7 +538,9 @@ class FourierTransform(ResisticsProcess):
         # detrend and apply window
         if self.detrend is not None:
             data = signal.detrend(data, axis=-1, type=self.detrend)
-        win_coeffs = self._get_window(metadata.win_size).astype(data.dtype)
+        win_coeffs = self._get_window(metadata.win_size)
+        if np.issubdtype(data.dtype, np.floating):
+            win_coeffs = win_coeffs.astype(data.dtype)
         data = data * win_coeffs
         # perform the fft on the last axis
         return rfft(data, n=n_transform, axis=-1, norm="ortho", workers=self.workers)
-- 
2.43.0


From 77f75a97bcd852900b0fb582edb987829ed81648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 19/37] fix: calibrate several windows of spectra with one
 frequency

---
 resistics/calibrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..143c1d6 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -466,8 +466,7 @@ class Calibrator(ResisticsProcess):
             Calibrated data
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
-        chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return chan_data / transfunc[np.newaxis, :]
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From a2e5f2079fa92a0171a14cab02c0a83503217b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 20/37] fix: interpolate calibration data that are not ordered
 by frequency

---
 resistics/calibrate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 143c1d6..ee9b074 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -492,8 +492,11 @@ class Calibrator(ResisticsProcess):
             column, complex, which is the complex values for the magnitude and
             phase combinations.
         """
-        mag = np.interp(freqs, cal_data.frequency, cal_data.magnitude)
-        phs = np.interp(freqs, cal_data.frequency, cal_data.phase)
+        # the frequencies need to be increasing for the interpolation
+        order = np.argsort(cal_data["frequency"], kind="stable")
+        cal_freqs = cal_data["frequency"][order]
+        mag = np.interp(freqs, cal_freqs, cal_data["magnitude"][order])
+        phs = np.interp(freqs, cal_freqs, cal_data["phase"][order])
         return mag * np.exp(1j * phs)
 
 
-- 
2.43.0


From f5ba4a9618a2932d6c72144d591b82798e2aecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 21/37] fix: read ascii data written with one file for each
 channel

---
 resistics/time.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index e323e7a..6bc1320 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -997,9 +997,10 @@ class TimeReaderAscii(TimeReaderJSON):
     """
     Class for reading Ascii data
 
-    Ascii data expected to be a single file with all the data. The delimiter can
-    be set using the delimiter class attribute as can the number of header
-    lines with the n_header attribute.
+    Ascii data expected to be a single file with all the data or, as written out
+    by TimeWriterAscii, one file for each channel. The delimiter can be set using
+    the delimiter class attribute as can the number of header lines with the
+    n_header attribute.
     """
 
     extension: str = ".txt"
@@ -1040,17 +1041,22 @@ class TimeReaderAscii(TimeReaderJSON):
         logger.info(f"Reading data from {dir_path}")
         messages = [f"Reading raw data from {dir_path}"]
         messages.append(f"Sampling frequency {metadata.fs} Hz")
-        # all channels have the same data path
-        data_path = dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]
-        data = np.loadtxt(
-            data_path,
-            dtype=dtype,
-            delimiter=self.delimiter,
-            skiprows=read_from + self.n_header,
-            max_rows=n_samples,
-            ndmin=2,
-        )
-        data = data.transpose()
+        # usually all channels have the same data path, otherwise one for each
+        data_files = [metadata.chans_metadata[x].data_files[0] for x in metadata.chans]
+        if len(set(data_files)) == 1:
+            data_files = data_files[:1]
+        data = [
+            np.loadtxt(
+                dir_path / data_file,
+                dtype=dtype,
+                delimiter=self.delimiter,
+                skiprows=read_from + self.n_header,
+                max_rows=n_samples,
+                ndmin=2,
+            )
+            for data_file in data_files
+        ]
+        data = np.concatenate(data, axis=1).transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
-- 
2.43.0


From e55ac9fb83ec828e3c60d6abd6fe15798761776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 22/37] fix: check all required project subdirectories when
 loading a project

---
 resistics/letsgo.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index e541d52..bd0f488 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -151,7 +151,6 @@ class ProjectLoader(ResisticsProcess):
         for subdir in PROJ_DIRS.values():
             subdir_path = self.dir_path / subdir
             assert_dir(subdir_path)
-            return False
         return True
 
     def _load_site(self, site_dir: Path, config: Configuration) -> Site:
-- 
2.43.0


From 486d5165b60a6660fcc9e9bf3960faf518264768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 23/37] fix: sites without measurements no longer move the
 begin and end times of their project

---
 resistics/letsgo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index bd0f488..e8d2963 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -130,9 +130,11 @@ class ProjectLoader(ResisticsProcess):
         for site_dir in time_subdirs:
             site = self._load_site(site_dir, config)
             sites[site_dir.name] = site
-        if len(sites) > 0:
-            begin_time = min([x.begin_time for x in sites.values()])
-            end_time = max([x.end_time for x in sites.values()])
+        # sites without measurements have no begin or end time of their own
+        with_meas = [x for x in sites.values() if x.n_meas > 0]
+        if len(with_meas) > 0:
+            begin_time = min([x.begin_time for x in with_meas])
+            end_time = max([x.end_time for x in with_meas])
         else:
             begin_time = datetime.now()
             end_time = datetime.now()
-- 
2.43.0


From 3fa9851a09c5590efa872efb05502441602cf717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 24/37] fix: sites without measurements are not concurrent to
 any site

---
 resistics/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resistics/project.py b/resistics/project.py
index 7961d21..e48365d 100644
--- a/resistics/project.py
+++ b/resistics/project.py
@@ -306,6 +306,8 @@ class Project(ResisticsModel):
         for site in self.sites.values():
             if site.name == site_name:
                 continue
+            if site.n_meas == 0 or self.sites[site_name].n_meas == 0:
+                continue
             if site.end_time < site_start:
                 continue
             if site.begin_time > site_end:
-- 
2.43.0


From 79994ea0fb3327d3693a964dc703e04c97c417d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 25/37] fix: label project solutions with the frequencies that
 the data was evaluated at

---
 resistics/gather.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resistics/gather.py b/resistics/gather.py
index 1732388..63e1ac7 100644
--- a/resistics/gather.py
+++ b/resistics/gather.py
@@ -610,6 +610,7 @@ class ProjectGather(ResisticsProcess):
         measurements = selection.get_measurements(site)
         data = self._get_empty_data(selection, chans)
         histories = {}
+        level_freqs: Dict[int, List[float]] = {}
         metadata = None
         for meas in measurements:
             evals_path = get_meas_evals_path(
@@ -618,8 +619,16 @@ class ProjectGather(ResisticsProcess):
             eval_data = SpectraDataReader().run(evals_path)
             self._populate_data(selection, site, meas, eval_data, chans, data)
             histories[meas] = eval_data.metadata.history
+            for ilevel, level_metadata in enumerate(eval_data.metadata.levels_metadata):
+                level_freqs.setdefault(ilevel, level_metadata.freqs)
             if metadata is None:
                 metadata = eval_data.metadata
+        # the evaluation frequencies are those the data was evaluated at, these
+        # differ from those of the recording if it has been resampled
+        eval_freqs = []
+        for ilevel in range(selection.n_levels):
+            default_freqs = selection.dec_params.get_eval_freqs(ilevel)
+            eval_freqs = eval_freqs + level_freqs.get(ilevel, default_freqs)
         combined_metadata = SiteCombinedMetadata(
             site_name=site.name,
             fs=selection.dec_params.fs,
@@ -633,7 +642,7 @@ class ProjectGather(ResisticsProcess):
             measurements=measurements,
             chans=chans,
             n_evals=len(data),
-            eval_freqs=selection.get_eval_freqs(),
+            eval_freqs=eval_freqs,
             histories=histories,
         )
         return SiteCombinedData(combined_metadata, data)
-- 
2.43.0


From ffbe6a44e5a49b90ef1cbc9c6f2794d4914b13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 26/37] fix: keep positions and samples exact when downsampling
 for plots

---
 resistics/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resistics/plot.py b/resistics/plot.py
index 04b4805..0c7c629 100644
--- a/resistics/plot.py
+++ b/resistics/plot.py
@@ -46,8 +46,8 @@ def lttb_downsample(
     x_dtype = x.dtype
     y_dtype = y.dtype
     nx, ny = lttbc.downsample(
-        x.astype(np.float32),
-        y.astype(np.float32),
+        x.astype(np.float64),
+        y.astype(np.float64),
         max_pts,
     )
     return nx.astype(x_dtype), ny.astype(y_dtype)
@@ -78,8 +78,10 @@ def apply_lttb(
     if max_pts is None:
         return indices, data
 
-    indices, data = lttb_downsample(indices, data, max_pts)
-    return indices, data
+    indices, _ = lttb_downsample(indices, data, max_pts)
+    # samples may repeat around NaNs
+    indices = np.unique(indices)
+    return indices, data[indices]
 
 
 def plot_timeline(
-- 
2.43.0


From 2ec7118231254d07ec32f26f443d8af166419e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 27/37] fix: make the figure for the channels that are plotted

---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 6bc1320..481b9af 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -678,7 +678,7 @@ class TimeData(ResisticsData):
             chans = self.metadata.chans
         if fig is None:
             y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
-            fig = get_time_fig(self.metadata.chans, y_labels)
+            fig = get_time_fig(chans, y_labels)
 
         # plot the data
         for idx, chan in enumerate(chans):
-- 
2.43.0


From 95246ac1f66eb527ec9fbd2e45fffc7d2f3bbc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 28/37] fix: plot more than ten decimation levels or groups of
 windows

---
 resistics/decimate.py | 3 ++-
 resistics/spectra.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index f5574e0..108b58e 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -5,6 +5,7 @@ Module for time data decimation including classes and for the following
 - Performing decimation on time data
 """
 from loguru import logger
+from itertools import cycle
 from typing import Any, Optional, Tuple, Union, Dict, List
 from pathlib import Path
 from pydantic import validator, PositiveInt, conint
@@ -699,7 +700,7 @@ class DecimatedData(ResisticsData):
         chans = self.metadata.chans
         y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
         fig = get_time_fig(chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
 
         for ilevel in range(0, self.metadata.n_levels):
             logger.info(f"Plotting decimation level {ilevel}")
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 6e6b139..26d51a7 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -8,6 +8,7 @@ scipy stft function.
 """
 from loguru import logger
 from pathlib import Path
+from itertools import cycle
 from typing import Union, Tuple, Dict, List, Any, Optional
 from pydantic import PositiveInt
 import numpy as np
@@ -194,7 +195,7 @@ class SpectraData(ResisticsData):
 
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for ilevel in range(self.metadata.n_levels):
             level_metadata = self.metadata.levels_metadata[ilevel]
             freqs = np.array(level_metadata.freqs)
@@ -250,7 +251,7 @@ class SpectraData(ResisticsData):
         freqs = np.array(level_metadata.freqs)
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for idx, group in df.groupby(pd.Grouper(freq=grouping, offset=offset)):
             stack = np.mean(np.absolute(self.data[level][group["local"]]), axis=0)
             fig = self._add_stack_data(
-- 
2.43.0


From fc90b37c793c27d7c37508ff73f0251f7b6741d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 29/37] fix: plot spectra sections of one channel, with gaps or
 with dead channels

---
 resistics/spectra.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 26d51a7..92c1b13 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -336,7 +336,7 @@ class SpectraData(ResisticsData):
 
         fig = get_spectra_section_fig(self.metadata.chans)
         colorbar_len = 0.90 / self.metadata.n_chans
-        colorbar_inc = 0.84 / (self.metadata.n_chans - 1)
+        colorbar_inc = 0.84 / max(1, self.metadata.n_chans - 1)
         # group by the grouping frequency, iterate over the groups and plot
         data = {}
         for idx, group in df.groupby(pd.Grouper(freq=grouping)):
@@ -346,8 +346,10 @@ class SpectraData(ResisticsData):
                 data={k: v[idx] for k, v in data.items()}, index=level_metadata.freqs
             )
             z = np.log10(df_data.values)
-            z_min = np.ceil(z.min())
-            z_max = np.floor(z.max())
+            # groups without windows and dead channels have no finite values
+            finite = z[np.isfinite(z)]
+            z_min = np.ceil(finite.min()) if finite.size > 0 else 0
+            z_max = np.floor(finite.max()) if finite.size > 0 else 0
             z_range = np.arange(z_min, z_max + 1)
             colorbar = dict(
                 tickvals=z_range,
-- 
2.43.0


From 43c2932b253fec630fb65d191972fb6f6d3a0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 30/37] fix: estimated timestamps drifted away from the samples

datetime_array_estimate rounded the sampling period to nanoseconds and
multiplied it, so that at e.g. 65536 Hz timestamps (and plots) were off by more
than a sample after about 70000 samples. Round each offset instead.
---
 resistics/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index e534bf0..5a3419c 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -934,9 +934,11 @@ def datetime_array_estimate(
     if isinstance(first_time, RSDateTime):
         first_time = pd.to_datetime(first_time.isoformat())
 
-    dt = pd.Timedelta(1 / fs, "s")
     if n_samples is not None:
-        return pd.date_range(start=first_time, freq=dt, periods=n_samples)
+        samples = np.arange(n_samples)
     if samples is None:
         raise ValueError("One of n_samples or samples must be provided")
-    return pd.to_datetime(pd.to_datetime(first_time) + samples * dt)
+    # round each offset to nanoseconds and not the period, the error of a rounded
+    # period grows with the number of samples
+    offsets = np.round(np.asarray(samples) * (1e9 / fs)).astype(np.int64)
+    return pd.to_datetime(pd.to_datetime(first_time) + pd.to_timedelta(offsets, "ns"))
-- 
2.43.0


From dae78e48474e77cc0e03b32f28a3bb5949120821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 31/37] fix: plotting transfer functions at whole number
 frequencies gave periods of 0

np.reciprocal of a list of integers is an integer reciprocal.
---
 resistics/transfunc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index f5c7d86..fe4d6bb 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -530,7 +530,7 @@ class ImpedanceTensor(TransferFunction):
         if to_plot is None:
             to_plot = ["ExHy", "EyHx", "ExHx", "EyHy"]
 
-        periods = np.reciprocal(freqs)
+        periods = np.reciprocal(np.array(freqs, dtype=float))
         colors = {"ExHx": "orange", "EyHy": "green", "ExHy": "red", "EyHx": "blue"}
         for comp in to_plot:
             res = ImpedanceTensor.get_resistivity(periods, components[comp])
@@ -647,7 +647,7 @@ class Tipper(TransferFunction):
 
         warnings.warn("Plotting of tippers needs further verification")
 
-        periods = np.reciprocal(freqs)
+        periods = np.reciprocal(np.array(freqs, dtype=float))
         if x_lim is None:
             x_lim = [-3, 5]
         if len_lim is None:
-- 
2.43.0


From 5c97d04090c9f3197478683fe526d55eb0161fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 32/37] fix: default cross channels were the same list object
 as the input channels

Changing the cross channels of a transfer function changed its input channels.
---
 resistics/transfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index fe4d6bb..00c2333 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -277,7 +277,7 @@ class TransferFunction(Metadata):
     ) -> List[str]:
         """Validate cross spectra channels"""
         if value is None:
-            return values["in_chans"]
+            return list(values["in_chans"])
         return value
 
     @validator("n_out", always=True)
-- 
2.43.0


From 1b85654d770ec3648d06b5a6ada0d95c9f8410ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 33/37] fix: adding to or multiplying channels of integer data
 truncated the values

---
 resistics/time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 481b9af..d9d0bb2 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1500,7 +1500,9 @@ class Add(TimeProcess):
 
     def _get_add(self, time_data: TimeData) -> np.ndarray:
         """Make an array to add to the data"""
-        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        # values need not be integers, even if the data is
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.add, float) or isinstance(self.add, int):
             return add + self.add
         for chan in time_data.metadata.chans:
@@ -1577,7 +1579,9 @@ class Multiply(TimeProcess):
 
     def _get_mult(self, time_data: TimeData) -> np.ndarray:
         """Make an array to multiply the data with"""
-        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        # values need not be integers, even if the data is
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.multiplier, float) or isinstance(self.multiplier, int):
             return mult * self.multiplier
         for chan in time_data.metadata.chans:
-- 
2.43.0


From 8d84c951aaa5ec40d682c88d252e7a13880b0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 34/37] fix: filtering, resampling and decimating integer data
 truncated the values

---
 resistics/time.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index d9d0bb2..063576a 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1655,7 +1655,8 @@ class LowPass(TimeProcess):
         logger.info(f"Low pass filtering with cutoff {self.cutoff} Hz")
         normed = self.cutoff / nyquist
         sos = butter(self.order, normed, btype="lowpass", analog=False, output="sos")
-        data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        data = sosfiltfilt(sos, time_data.data.astype(dtype), axis=1).astype(dtype)
         messages = [f"Low pass filtered data with cutoff {self.cutoff} Hz"]
         record = self._get_record(messages)
         return new_time_data(time_data, data=data, record=record)
@@ -1725,7 +1726,8 @@ class HighPass(TimeProcess):
         logger.info(f"High pass filtering with cutoff {self.cutoff} Hz")
         normed = self.cutoff / nyquist
         sos = butter(self.order, normed, btype="highpass", analog=False, output="sos")
-        data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        data = sosfiltfilt(sos, time_data.data.astype(dtype), axis=1).astype(dtype)
         messages = [f"High pass filtered data with cutoff {self.cutoff} Hz"]
         record = self._get_record(messages)
         return new_time_data(time_data, data=data, record=record)
@@ -1807,7 +1809,8 @@ class BandPass(TimeProcess):
         sos = butter(
             self.order, (low, high), btype="bandpass", analog=False, output="sos"
         )
-        data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        data = sosfiltfilt(sos, time_data.data.astype(dtype), axis=1).astype(dtype)
         messages = [f"Band pass with cutoffs {self.cutoff_low},{self.cutoff_high} Hz"]
         record = self._get_record(messages)
         return new_time_data(time_data, data=data, record=record)
@@ -1889,7 +1892,8 @@ class Notch(TimeProcess):
             sos = butter(
                 self.order, (low, high), btype="bandstop", analog=False, output="sos"
             )
-        data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        data = sosfiltfilt(sos, time_data.data.astype(dtype), axis=1).astype(dtype)
         messages = [f"Notch filtered at {self.notch} Hz with bandwidth {band} Hz"]
         record = self._get_record(messages)
         return new_time_data(time_data, data=data, record=record)
@@ -1980,7 +1984,7 @@ class Resample(TimeProcess):
             window="hamming",
             padtype="mean",
         )
-        data = data.astype(time_data.data.dtype)
+        data = data.astype(np.result_type(time_data.data.dtype, np.float32))
         # adjust headers and
         n_samples = data.shape[1]
         metadata = time_data.metadata.copy(deep=True)
@@ -2073,7 +2077,7 @@ class Decimate(TimeProcess):
                 continue
             data = decimate(data, factor, axis=1, zero_phase=True)
             messages.append(f"Data decimated by factor of {factor}")
-        data = data.astype(time_data.data.dtype)
+        data = data.astype(np.result_type(time_data.data.dtype, np.float32))
         # return new TimeData
         fs = time_data.metadata.fs
         new_fs = fs / self.factor
-- 
2.43.0


From 9e06d24d99188597f48065a147c7b63ae7cdce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 35/37] fix: the Huber solver fitted an intercept whether or
 not fit_intercept was set

---
 resistics/regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/regression.py b/resistics/regression.py
index a428093..6fe537d 100644
--- a/resistics/regression.py
+++ b/resistics/regression.py
@@ -918,7 +918,9 @@ class SolverScikitHuber(SolverScikit):
         """Run Huber Regressor regression on the RegressionInputData"""
         from sklearn.linear_model import HuberRegressor
 
-        model = HuberRegressor(epsilon=self.epsilon)
+        model = HuberRegressor(
+            epsilon=self.epsilon, fit_intercept=self.fit_intercept
+        )
         return self._solve(regression_input, model)
 
 
-- 
2.43.0


From 10f8afb1c00e1be973a1a7d2566adc42d6ad14a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:18 +0000
Subject: [PATCH 36/37] fix: get_timestamps of decimated and spectra data
 answered negative levels with the times of another level

---
 resistics/decimate.py | 2 +-
 resistics/spectra.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 108b58e..f6fd6ae 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -663,7 +663,7 @@ class DecimatedData(ResisticsData):
         """
         from resistics.sampling import datetime_array, datetime_array_estimate
 
-        if level >= self.metadata.n_levels:
+        if level < 0 or level >= self.metadata.n_levels:
             raise ValueError(f"Level {level} not <= max {self.metadata.n_levels}")
         fnc = datetime_array_estimate if estimate else datetime_array
         level_metadata = self.metadata.levels_metadata[level]
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 92c1b13..a8d41c1 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -163,7 +163,7 @@ class SpectraData(ResisticsData):
         """
         from resistics.window import get_win_starts
 
-        if level >= self.metadata.n_levels:
+        if level < 0 or level >= self.metadata.n_levels:
             raise ValueError(f"Level {level} not <= max {self.metadata.n_levels - 1}")
         level_metadata = self.metadata.levels_metadata[level]
         return get_win_starts(
-- 
2.43.0


From 86b386949ef4370e7cfc6c9333eadde7f4064949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 37/37] fix: decimation setups with a division factor below 2
 or without a frequency above 0 Hz in a level never returned

---
 resistics/decimate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index f6fd6ae..0dd56e9 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -364,7 +364,7 @@ class DecimationSetup(ResisticsProcess):
     n_levels: int = 8
     per_level: int = 5
     min_samples: int = 256
-    div_factor: int = 2
+    div_factor: conint(ge=2) = 2
     eval_freqs: Optional[List[float]] = None
 
     def run(self, fs: float) -> DecimationParameters:
@@ -490,6 +490,8 @@ class DecimationSetup(ResisticsProcess):
         int
             The decimation factor
         """
+        if f_max <= 0:
+            raise ValueError(f"Maximum evaluation frequency of level {f_max} not > 0")
         target_fs = f_max * 4
 
         if target_fs > fs:
-- 
2.43.0

